"""C16: schedules - two threads working on the real library under a controlled scheduler: for every pair of operations, every placement
of the preemptions (up to the bound) between two lines (or bytecode instructions) of the library; results compared with those of the
operations run alone. Cold schedules run in a process of their own where the library hasn't done anything yet."""
import gc
import importlib
import itertools
import os
import pickle
import sys
import threading
import traceback
import types

from .. import bind, gen
from ..core import Family, HarnessError, main as run
from ..snap import snap
from . import c12, c13, c15, c18
from .common import *

MON = sys.monitoring
TOOL = 4
CURRENT = None
PATIENCE = [0.5]    # less once a thread has been seen waiting for a lock of the other one


def codes():
    """every code object written in the library (the generated parser aside)"""
    import treeno
    root = os.path.dirname(os.path.abspath(treeno.__file__)) + os.sep
    seen, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(root) or c.co_filename.startswith(os.path.join(root, "grammar", "gen")):
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


class Sched:
    """plan: number of events after which the running thread is preempted, in turn"""

    def __init__(self, plan):
        self.plan, self.seg, self.n = plan, 0, 0
        self.total = [0, 0]
        self.idents = [None, None]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]

    def event(self):
        me = threading.get_ident()
        if me == self.idents[0]:
            i = 0
        elif me == self.idents[1]:
            i = 1
        else:
            return
        self.total[i] += 1
        if self.seg < len(self.plan) and i == self.seg % 2:
            self.n += 1
            if self.n == self.plan[self.seg]:
                self.seg += 1
                self.n = 0
                if not self.done[1 - i]:
                    self.go[1 - i].release()
                    self.wait(i)

    def wait(self, i):
        """until it's this thread's turn, or the other one can't go on without it (it waits for a lock)"""
        while not self.go[i].acquire(timeout=PATIENCE[0]):
            if self.total[1 - i] == getattr(self, "last", None):
                PATIENCE[0] = max(PATIENCE[0] / 2, 0.003)
                bump("schedules in which a thread waits for a lock")
                return
            self.last = self.total[1 - i]

    def thread(self, i, f):
        self.idents[i] = threading.get_ident()
        self.go[i].acquire()
        try:
            self.out[i] = f()
        except BaseException as e:
            self.out[i] = ("error", type(e).__name__, c15.clean(e))
        self.idents[i] = None
        self.done[i] = True
        self.go[1 - i].release()

    def run(self, fs):
        global CURRENT
        ts = [threading.Thread(target=self.thread, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        CURRENT = self
        self.go[0].release()
        for t in ts:
            t.join(25)
            if t.is_alive():
                raise Violation("the two operations never end (deadlock)")
        CURRENT = None
        return self.out


def on_event(code, where):
    if CURRENT is not None:
        CURRENT.event()


def instrument(fine):
    E = MON.events
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "schedules")
    ev = E.INSTRUCTION if fine else E.LINE
    for e in (E.INSTRUCTION, E.LINE):
        MON.register_callback(TOOL, e, on_event if e == ev else None)
    for c in CODES:
        MON.set_local_events(TOOL, c, ev)


CODES = ()

READS = {
    "like": ("expr", "a NOT LIKE b"), "between": ("expr", "x BETWEEN 1 AND 2"), "cmp": ("expr", "p = q"), "in": ("expr", "r NOT IN (1, 2)"), "distinct": ("expr", "u IS NOT DISTINCT FROM v"),
    "null": ("expr", "w IS NULL"), "inq": ("expr", "m IN (SELECT n)"), "nested": ("expr", "(a = 1) = (b LIKE c)"), "arith": ("expr", "-1 + a * 2.5"), "call": ("expr", "SUM(a) FILTER (WHERE b = 1) OVER (w)"),
    "lambda": ("expr", "(x) -> x + y"), "literals": ("expr", "DATE '2020-01-01' || INTERVAL '1' DAY"), "type": ("type", "ROW(DECIMAL(3, 1), MAP(INTEGER, TIMESTAMP(3)))"),
    "query": ("query", "SELECT DISTINCT a x FROM t JOIN u ON a = b WHERE c > 1 ORDER BY d LIMIT 1"), "set": ("query", "TABLE a UNION ALL (VALUES 1)"),
    "bad": ("expr", "a NOT LIKE"), "unknown": ("expr", "NO_SUCH(a = b)"), "with": ("query", "WITH c AS (SELECT 1) SELECT * FROM c CROSS JOIN UNNEST(a) n"),
}

# every construct twice, with different parts
CONSTRUCTS = {
    "and or not": ("expr", "a AND NOT b AND c", "d OR NOT (e OR f)"), "comparison": ("expr", "a >= 1", "b <> c + 2"), "less": ("expr", "a <= b", "c < d"), "distinct": ("expr", "a IS DISTINCT FROM 1", "b IS NOT DISTINCT FROM c"),
    "between": ("expr", "a NOT BETWEEN 1 AND 2", "b BETWEEN c AND d + 1"), "like": ("expr", "a LIKE 'x' ESCAPE '/'", "b NOT LIKE c"), "in": ("expr", "a IN (1, 2)", "b NOT IN (c, d, 3)"), "in query": ("expr", "a IN (SELECT 1)", "b NOT IN (TABLE t)"),
    "null": ("expr", "a IS NULL", "b IS NOT NULL"), "unary": ("expr", "- a", "+ (- b)"), "sums": ("expr", "a + b - 1", "c - (d + 2)"), "products": ("expr", "a * b / 2", "c % (d * 3)"), "concat": ("expr", "a || 'x'", "b || (c || d)"),
    "zone": ("expr", "a AT TIME ZONE 'UTC'", "b AT TIME ZONE c"), "subscript": ("expr", "a[1]", "b[c][d]"), "dereference": ("expr", "a.b", "c.d"), "array": ("expr", "ARRAY[1, a]", "ARRAY[b]"), "row": ("expr", "(1, a)", "ROW(b)"),
    "case": ("expr", "CASE WHEN a THEN 1 ELSE 2 END", "CASE b WHEN 3 THEN c WHEN 4 THEN d END"), "cast": ("expr", "CAST(a AS BIGINT)", "TRY_CAST(b AS DECIMAL(9, 2))"), "subquery": ("expr", "(SELECT a)", "(VALUES 1, 2)"),
    "interval": ("expr", "INTERVAL '1' DAY", "INTERVAL -'2-3' YEAR TO MONTH"), "typed": ("expr", "DATE '2020-01-01'", "TIMESTAMP '2021-02-02 01:02:03.4'"), "decimal": ("expr", "DECIMAL '1.50'", "DECIMAL '-22'"), "numbers": ("expr", "1", "2.5"),
    "large": ("expr", "3000000000", "1E5"), "strings": ("expr", "'a''b'", "U&'\\0041'"), "truth": ("expr", "TRUE", "FALSE"), "nothing": ("expr", "NULL", "(NULL)"), "names": ("expr", '"a b"', '"c""d"'),
    "now": ("expr", "CURRENT_TIMESTAMP(3)", "LOCALTIME(6)"), "session": ("expr", "CURRENT_USER", "CURRENT_CATALOG"), "normalize": ("expr", "NORMALIZE(a, NFD)", "NORMALIZE(b)"), "call": ("expr", "ROUND(a, 1)", "COALESCE(b, c, 2)"),
    "listagg": ("expr", "LISTAGG(a, ',') WITHIN GROUP (ORDER BY b)", "LISTAGG(c, ';' ON OVERFLOW TRUNCATE '.' WITH COUNT) WITHIN GROUP (ORDER BY d DESC, e)"), "aggregate": ("expr", "SUM(a) FILTER (WHERE b = 1)", "ARRAY_AGG(c ORDER BY d DESC NULLS FIRST)"),
    "nulls": ("expr", "LAG(a) IGNORE NULLS OVER (w)", "LEAD(b, 1) RESPECT NULLS OVER (v)"), "window": ("expr", "SUM(a) OVER (PARTITION BY b ORDER BY c ROWS 1 PRECEDING)", "MAX(d) OVER (v ORDER BY e RANGE BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING)"),
    "groups": ("expr", "MIN(a) OVER (GROUPS BETWEEN UNBOUNDED PRECEDING AND 2 FOLLOWING)", "COUNT(*) OVER (PARTITION BY a, b)"), "lambda": ("expr", "(a, b) -> a + b + c", "d -> d * a"), "lambdas": ("expr", "a -> (b -> a + b)", "b -> (a -> a * b * c)"),
    "date functions": ("expr", "DATE_TRUNC('day', a)", "DATE_ADD('month', 1, b)"), "text functions": ("expr", "LOWER(a)", "REPLACE(b, 'x', c)"), "conditions": ("expr", "IF(a, b, c)", "NULLIF(d, 1)"), "unknown": ("expr", "NO_SUCH(a = b)", "NOR_THIS(c)"), "invalid": ("expr", "a NOT LIKE", "b BETWEEN 1"),
    "simple types": ("type", "BIGINT", "DOUBLE PRECISION"), "decimals": ("type", "DECIMAL(5, 1)", "DECIMAL(12)"), "texts": ("type", "VARCHAR(3)", "CHAR(5)"), "times": ("type", "TIMESTAMP(6) WITH TIME ZONE", "TIME(0)"), "rows": ("type", "ROW(a INTEGER, b DATE)", "ROW(c VARCHAR)"),
    "arrays": ("type", "ARRAY(INTEGER)", "DOUBLE ARRAY"), "maps": ("type", "MAP(INTEGER, VARCHAR)", "MAP<DATE, ARRAY<BIGINT>>"), "intervals": ("type", "INTERVAL YEAR TO MONTH", "INTERVAL DAY TO SECOND"),
    "select": ("query", "SELECT a, k AS p FROM t WHERE y = 'b'", "SELECT DISTINCT x FROM t HAVING TRUE"), "stars": ("query", "SELECT * FROM t", "SELECT u.* FROM t, u"), "star alias": ("query", "SELECT t.* AS (p, q) FROM t", "SELECT t.*, a FROM t"),
    "order": ("query", "SELECT a FROM t ORDER BY a DESC, k", "SELECT x FROM t ORDER BY y NULLS FIRST"), "limits": ("query", "SELECT a FROM t OFFSET 1 ROW LIMIT 2", "SELECT x FROM t FETCH FIRST 3 ROWS ONLY"), "group": ("query", "SELECT a FROM t GROUP BY a, (k, x)", "SELECT x FROM t GROUP BY DISTINCT CUBE (x, y)"),
    "grouping": ("query", "SELECT a FROM t GROUP BY ROLLUP (a, k)", "SELECT x FROM t GROUP BY GROUPING SETS ((x), (y, k), ())"), "windows": ("query", "SELECT a FROM t WINDOW w AS (PARTITION BY a)", "SELECT x FROM t WINDOW v AS (ORDER BY y), r AS (v)"),
    "with": ("query", "WITH c AS (SELECT a FROM t) SELECT * FROM c", "WITH d (p) AS (SELECT x FROM u), e AS (TABLE d) SELECT p FROM e"), "table": ("query", "TABLE t", "TABLE s.t"), "values": ("query", "VALUES 1, 2", "VALUES (1, 'a'), (2, 'b')"),
    "union": ("query", "SELECT 1 UNION SELECT 2", "TABLE t UNION ALL TABLE t"), "intersect": ("query", "SELECT 1 INTERSECT SELECT 2", "SELECT 3 EXCEPT SELECT 4"), "joins": ("query", "SELECT * FROM t JOIN u ON t.x = u.x", "SELECT * FROM t LEFT JOIN u USING (x)"),
    "joined": ("query", "SELECT t.a FROM t CROSS JOIN u", "SELECT u.b FROM t NATURAL FULL JOIN u"), "three": ("query", "SELECT t.k FROM t, u, s.t v", "SELECT v.a FROM (t CROSS JOIN u) RIGHT JOIN s.t v ON TRUE"), "aliases": ("query", "SELECT p FROM (SELECT a FROM t) AS n (p)", "SELECT n.x FROM t n"),
    "unnest": ("query", "SELECT e FROM t CROSS JOIN UNNEST(a) n (e)", "SELECT o FROM t CROSS JOIN UNNEST(a, a) WITH ORDINALITY n (e, f, o)"), "lateral": ("query", "SELECT * FROM t CROSS JOIN LATERAL (SELECT x)", "SELECT n.p FROM LATERAL (VALUES (1, 2)) n (p, q)"),
    "sample": ("query", "SELECT a FROM t TABLESAMPLE BERNOULLI (10)", "SELECT x FROM t TABLESAMPLE SYSTEM (2.5)"), "nested": ("query", "SELECT (SELECT x) FROM t", "SELECT k FROM t WHERE x IN (SELECT x FROM u WHERE u.b = t.y)"),
}


def everything(kind, text, cat, opts):
    """reads, prints (with options that both threads use), visits, compares, copies and resolves"""
    tree = bind.lib_parse(kind, text)
    out = [tree.sql(opts["DEFAULT"]), tree.sql(opts["PRETTY"]), tree.equals(tree)]
    if kind != "type":
        v, log = c18.recorder()
        v.visit(tree)
        out.append([(k, type(n).__name__) for k, n in log])
    if kind == "expr":
        out.append(snap(bind.E.Lambda.from_generic_expr([bind.E.Lambda.Variable(n) for n in text[:1]], tree)))
        out.append(snap(bind.E.And(tree == tree, ~tree)))
    if kind == "query":
        out.append(c13.schema_of(tree.resolve(cat)))
        out.append(snap(tree))
    return out


def operation(w, op):
    """a thread's work; what it needs of its own is made before the threads start"""
    k = op[0]
    if k == "read":
        return lambda: bind.lib_parse(*READS[op[1]])
    if k == "resolve":
        x = bind.build(c15.POOL[op[1]])
        cat = c12.lib_catalog(c13.CATS[op[2]])
        return lambda: (c13.schema_of(x.resolve(cat)), snap(x))
    if k == "all":
        kind, text = CONSTRUCTS[op[1]][0], CONSTRUCTS[op[1]][op[2]]
        cat = c12.lib_catalog(c13.CATS["two"])
        return lambda: everything(kind, text, cat, w.opts)
    if k == "make":
        return lambda: bind.build(c15.POOL[op[1]] if op[1] in c15.POOL else c15.NEW[op[1]])
    if k == "maketype":
        return lambda: bind.b_type(c15.TYPES[op[1]])
    return lambda: c15.perform(w, op)


OPS = ([("read", t) for t in READS] + [("print", "select", "PRETTY"), ("print", "select", "DEFAULT"), ("print", "expr", "DEFAULT"), ("print", "agg", "PRETTY"), ("print", "set", "PRETTY"), ("print", "cast", "PRETTY"),
       ("print", "lambda", "DEFAULT"), ("print", "relations", "PRETTY"), ("print", "relations", "DEFAULT"), ("equals", "select", "same"), ("equals", "expr", "agg"), ("visit", "select"), ("visit", "agg"), ("deepcopy", "expr"),
       ("compose", "arith", "agg", "cast"), ("compose", "select", "agg", "expr"), ("compose", "from", "select", "set"), ("compose", "compare", "expr", "cast"),
       ("common", "dec", "big"), ("common", "row", "row2"), ("common", "ts", "tm"), ("typeprint", "row", "PRETTY"), ("typeprint", "ts", "DEFAULT"),
       ("resolve", "select", "two"), ("resolve", "set", "one"), ("resolve", "plain", "two"), ("make", "agg"), ("make", "select"), ("make", "cast"), ("maketype", "row"), ("lambda", ("a", "b"), "expr"),
       ("lambda", ("c",), "agg"), ("value", "Decimal('1.0')"), ("value", "2.5"), ("plus", "3"), ("common", "map", "map"), ("equals", "sub", "sub"), ("str", "set"), ("deepcopy", "agg")])
SMALL = [("read", "like"), ("read", "between"), ("read", "cmp"), ("read", "null"), ("print", "lambda", "DEFAULT"), ("common", "dec", "big"), ("typeprint", "ts", "DEFAULT"), ("maketype", "row"), ("equals", "expr", "agg"), ("make", "cast"), ("lambda", ("c",), "agg"), ("value", "2.5")]
CORE = [("read", "like"), ("read", "between"), ("read", "in"), ("read", "inq"), ("read", "query"), ("read", "call"), ("read", "type"), ("read", "bad"), ("print", "select", "PRETTY"), ("print", "agg", "PRETTY"), ("print", "expr", "DEFAULT"), ("print", "relations", "PRETTY"),
        ("equals", "select", "same"), ("visit", "select"), ("compose", "arith", "agg", "cast"), ("compose", "from", "select", "set"), ("common", "row", "row2"), ("resolve", "select", "two"), ("resolve", "set", "one"), ("make", "agg"), ("maketype", "row"),
        ("lambda", ("a", "b"), "expr"), ("value", "Decimal('1.0')")]
COLD = [("read", "like"), ("read", "between"), ("read", "call"), ("read", "literals"), ("read", "unknown"), ("print", "select", "PRETTY"), ("visit", "select"), ("common", "row", "row2"), ("resolve", "select", "two"), ("make", "agg"), ("maketype", "row"),
        ("compose", "arith", "agg", "cast")]
SOLO = {}


def canon(r):
    """results are looked at after both threads are through"""
    if isinstance(r, tuple) and r and r[0] == "error":
        return r
    return ("ok", c15.result(r))


def solo(op, fine=False):
    """-> (result, number of events) of the operation alone, in a process of its own"""
    if (op, fine) not in SOLO:
        def go():
            s = Sched(())
            w = c15.world()
            r = s.run([operation(w, op), lambda: None])[0]
            return canon(r), s.total[0]
        instrument(fine)
        SOLO[op, fine] = c15.in_child(go)
    return SOLO[op, fine]


def schedule(pair, plan):
    w = c15.world()
    s = Sched(plan)
    out = s.run([operation(w, op) for op in pair])
    for i in (0, 1):
        same(solo(pair[i])[0], canon(out[i]), "%s with %s interleaved as %s" % (pair[i], pair[1 - i], plan))
    step(2)
    bump("schedules")
    bump("scheduling points passed", sum(s.total))
    if s.seg == len(plan):
        bump("schedules with every preemption taken")


def warm(c):
    """every schedule of a pair with one preemption; the processes keep running (their state is compared with the beginning)"""
    mode, a, b = c
    instrument(False)
    n = solo(a)[1]
    solo(b)
    for k in range(1, n + 1):
        schedule((a, b), (k,))
    c15.fresh(())
    c15.unchanged("schedules of %s and %s" % (a, b), c15.world())


def twice(c):
    """two preemptions: a runs to k1, b to k2, then a to its end, then b"""
    mode, a, b, part, parts = c
    instrument(False)
    n, m = solo(a)[1], solo(b)[1]
    for i, (k1, k2) in enumerate(itertools.product(range(1, n + 1), range(1, m + 1))):
        if i % parts == part:
            schedule((a, b), (k1, k2))
    c15.fresh(())
    c15.unchanged("schedules of %s and %s" % (a, b), c15.world())


def fine(c):
    """one preemption between any two bytecode instructions"""
    mode, a, b = c
    n = solo(a, True)[1]
    solo(a), solo(b)
    instrument(True)
    for k in range(1, n + 1):
        schedule((a, b), (k,))
    c15.fresh(())
    c15.unchanged("schedules of %s and %s" % (a, b), c15.world())


def cold(c):
    """one preemption, the two operations are the first things which happen in their process"""
    mode, a, b, part, parts = c
    n = solo(a)[1]
    solo(b)
    instrument(False)
    c15.world()
    c15.fresh(())

    def go(plan):
        schedule((a, b), plan)
        c15.unchanged("schedule %s of %s and %s" % (plan, a, b), c15.world())
    for k in range(1, n + 1):
        if k % parts == part:
            c15.in_child(lambda: go((k,)))
            step(2)
            bump("schedules")
            bump("schedules in a fresh process")
    validated(n)


def warm_pairs(tier):
    if tier == "thorough":
        for a, b in itertools.product(OPS, OPS):
            yield ("warm", a, b)
    else:
        for i, a in enumerate(OPS):
            for j, b in enumerate(CORE):
                if a == b or a[0] == b[0] == "read" and a in CORE or (i + j) % 9 == 0:
                    yield ("warm", a, b)


def construct_pairs(tier):
    for k in CONSTRUCTS:
        yield ("constructs", ("all", k, 1), ("all", k, 2))
        if tier == "thorough":
            yield ("constructs", ("all", k, 2), ("all", k, 1))
    ks = list(CONSTRUCTS)
    for i, a in enumerate(ks):
        for j, b in enumerate(ks) if tier == "thorough" else ():
            if (j - i) % len(ks) in (1, 7, 20):
                yield ("constructs", ("all", a, 1), ("all", b, 2))


def twice_pairs(tier):
    parts = 8
    for a, b in itertools.product(SMALL[:4], SMALL[:4]) if tier == "thorough" else [SMALL[:2], SMALL[2:4]]:
        for p in range(parts):
            yield ("twice", a, b, p, parts)


def fine_pairs(tier):
    for a, b in itertools.product(CORE, CORE) if tier == "thorough" else [(x, SMALL[(i + 1) % 4]) for i, x in enumerate(SMALL)]:
        yield ("fine", a, b)


def cold_pairs(tier):
    for a in COLD:
        for b in COLD if tier == "thorough" else [a, COLD[(COLD.index(a) + 1) % len(COLD)]][:1 if a[0] == "print" else 2]:
            for p in range(4):
                yield ("cold", a, b, p, 4)


FAMILIES = [
    Family("one preemption", warm_pairs, warm, seconds=300),
    Family("constructs", construct_pairs, warm, seconds=300),
    Family("first operations of a process", cold_pairs, cold, seconds=300),
    Family("two preemptions", twice_pairs, twice, seconds=300),
    Family("one preemption between instructions", fine_pairs, fine, seconds=300),
]


def heat():
    """warm up the generated parser without going through the library"""
    import antlr4
    lex = importlib.import_module("treeno.grammar.gen.SqlBaseLexer").SqlBaseLexer
    par = importlib.import_module("treeno.grammar.gen.SqlBaseParser").SqlBaseParser
    for kind, text in list(READS.values()) + [(c[0], t) for c in CONSTRUCTS.values() for t in c[1:]]:
        try:
            p = par(antlr4.CommonTokenStream(lex(antlr4.InputStream(text))))
            p.removeErrorListeners()
            getattr(p, {"expr": "standaloneExpression", "query": "query", "type": "standaloneType"}[kind])()
        except Exception:
            pass


def main():
    global CODES
    bind.load()
    c18.VISITOR = importlib.import_module("treeno.visitor")
    c18.HANDLERS.extend(sorted(k[6:] for k in dir(c18.VISITOR.TreenoVisitor) if k.startswith("visit_")))
    c12.REL = c15.REL = importlib.import_module("treeno.relation")
    CODES = codes()
    heat()
    return run("C16", FAMILIES)
