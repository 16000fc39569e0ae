"""C15: histories - every sequence of operations up to a length over one pool of shared trees, types, catalogues and options. Each
history runs in a process of its own; every operation has to give what it gives in a fresh process (where only the resolves of the
trees it works on came before, since resolving is meant to fill in their types), and nothing it was given may change."""
import copy
import enum
import gc
import importlib
import itertools
import os
import pickle
import re
import sys
import traceback
from decimal import Decimal

import attr

from .. import bind, gen
from ..core import Family, HarnessError, main as run
from ..gen import A, Bc, C, I1, I2, INT, S1, col, fn, item, lam, query, sel
from ..snap import snap
from . import c12, c13, c18
from .common import *

V = ("t", "VARCHAR", None)
POOL = {
    "select": query(sel([item(col("k"), "p"), ("star", "t"), item(("bin", "+", col("x", "u"), I1))],
                        ("join", "LEFT", False, gen.T1, ("alias", gen.tbl("u"), "u", None), ("on", ("cmp", "=", col("x", "t"), col("x", "u")))),
                        ("and", ("cmp", ">", col("y"), S1), ("not", ("in", col("z"), (I1, I2)))), "DISTINCT", ("ALL", (("set", (col("k"),)),)),
                        ("cmp", "<", fn("COUNT", [col("a", "t")]), I2), (("w", gen.win(None, [col("k")])),)),
                    ((col("k"), "DESC", "FIRST"),), 1, 2, [("c", ("p",), gen.q1(I1, fr=gen.T1))]),
    "same": None,
    "plain": query(sel([("star", None)], gen.T1)),
    "set": query(("setop", "UNION", "ALL", query(("table", ("t",))), query(("values", (("row", (I1, col("x"), S1)),))))),
    "expr": ("or", ("and", A, ("btw", Bc, ("neg", C), ("case", None, ((A, I1),), Bc))), ("like", ("cat", (A, S1)), S1, S1)),
    "agg": fn("ARRAY_AGG", [A], [(Bc, "DESC", "FIRST")], ("cmp", "=", C, I1), "IGNORE", gen.win(None, [gen.D], [(A, "ASC", "LAST")], ("ROWS", ("P", I1), ("CR",)))),
    "lambda": lam(["x"], ("cmp", ">", ("bin", "*", col("x"), col("k")), I1)),
    "cast": ("cast", ("trycast", ("tc", "DECIMAL", "1.20"), ("t", "ROW", (INT, ("t", "ARRAY", V)))), ("t", "TIMESTAMP", 3, True)),
    "relations": query(sel([("astar", "n", ("p", "q"))], ("join", "CROSS", False, ("join", "INNER", False, ("sample", gen.T1, "SYSTEM", I1), ("lateral", query(sel([item(("and", A, Bc))], ("subq", gen.q1(I1)), A))), ("using", ("k",))),
                                                                   ("alias", ("unnest", (A, Bc), True), "n", ("p", "q")), None), ("inq", A, query(("values", (I1, I2))))),
                       with_=[("c", None, query(("setop", "EXCEPT", "DISTINCT", gen.q1(A), gen.q1(("or", A, ("and", Bc, C))))))]),
    # can't be resolved where both tables have the column: only the last part is the problem
    "ambiguous": query(sel([item(("q", gen.q1(col("k", "t"), fr=gen.T1))), item(col("x"))], ("join", "CROSS", False, gen.T1, gen.tbl("u"), None)), with_=[("c", ("p",), gen.q1(I1, fr=gen.T1))]),
    # can't be printed: only the last part is the problem
    "unprintable": query(sel([item(("and", A, Bc))], ("join", "CROSS", False, gen.T1, ("lateral", gen.q1(("sub", A, ("q", query(("setop", "UNION", "ALL", gen.q1(I1), query(("table", ("w",)), with_=[("w", None, gen.q1(I2))]))))))), None))),
    "sub": ("cmp", "=", ("sub", ("arr", (I1, A)), I2), ("q", gen.q1(Bc, fr=gen.tbl("s", "t")))),
}
POOL["same"] = POOL["select"]
TYPES = {"dec": ("t", "DECIMAL", 10, 2), "big": ("t", "BIGINT"), "ts": ("t", "TIMESTAMP", 3, True), "row": ("t", "ROW", (INT, V)), "row2": ("t", "ROW", (("t", "BIGINT"), ("t", "VARCHAR", 3))),
         "map": ("t", "MAP", V, ("t", "ARRAY", INT)), "tm": ("t", "TIME", 0, False)}
TEXTS = {
    "q1": ("query", 'WITH c(p) AS (SELECT 1) SELECT DISTINCT a AS x, t.*, SUM(b) OVER (PARTITION BY c ORDER BY d) FROM t LEFT JOIN u AS v ON t.a = v.b WHERE a NOT LIKE \'x\' GROUP BY ROLLUP(a, b) HAVING a > 1 WINDOW w AS (PARTITION BY a) ORDER BY a DESC NULLS FIRST OFFSET 2 ROWS LIMIT 10'),
    "q2": ("query", "SELECT 1 UNION ALL (VALUES (1, 2), (3, 4)) ORDER BY 1"),
    "q3": ("query", "SELECT * FROM t CROSS JOIN UNNEST(a) WITH ORDINALITY AS n (e, o) WHERE x IN (SELECT y FROM u)"),
    "e1": ("expr", "a NOT BETWEEN b AND c OR NOT d IN (1, 2) AND e IS NOT DISTINCT FROM f"),
    "e2": ("expr", "CAST(a || 'x' AS DECIMAL(10, 2)) + -1 * INTERVAL '1' DAY"),
    "e3": ("expr", "(x, y) -> x + y * k[1]"),
    "e4": ("expr", "CASE a WHEN 1 THEN NOW() ELSE COALESCE(b, DATE '2020-01-01') END"),
    "t1": ("type", "ROW(INTEGER,MAP(VARCHAR(3),DECIMAL(5,1)))"),
    "t2": ("type", "TIMESTAMP(3) WITH TIME ZONE"),
    "bad1": ("query", "SELECT FROM WHERE"),
    "bad2": ("expr", "a NOT LIKE b NOT LIKE"),
    "bad3": ("expr", "NO_SUCH_FUNCTION(a BETWEEN 1 AND 2)"),
    "bad4": ("type", "DECIMAL(1, 2, 3)"),
    "bad5": ("expr", "a = (x) -> 'abc"),
    "bad6": ("expr", "DECIMAL 'abc'"),
}
# equal values, or values which look alike, which are not the same thing: (way of making it, what it's made of)
TWINS = {
    "numbers": [("value", repr(v)) for v in (1, True, 1.0, Decimal("1"), Decimal("1.0"), Decimal("1.00"), Decimal("1E+0"), "1", 0, False, 0.0, -0.0, Decimal("0.0"), Decimal("-0.0"), Decimal("0.00"))],
    "number operands": [("plus", repr(v)) for v in (1, True, 1.0, Decimal("1"), Decimal("1.0"), Decimal("1.00"), "1")],
    "number texts": [("text", "expr", t) for t in ("1", "01", "1.0", "1.00", "01.0", "1E0", "10E-1", "TRUE", "'1'", "DECIMAL '1'", "DECIMAL '1.0'", "DECIMAL '1.00'", "X'01'", "-1", "-1.0", "- 1", "1.", ".1", "0.1", "CHAR '1'")],
    "large numbers": [("value", repr(v)) for v in (10 ** 2, 1e2, Decimal("100"), Decimal("1E+2"), Decimal("1.00E+2"), Decimal("100.0"), 2 ** 53, float(2 ** 53), Decimal(2 ** 53))],
    "times": [("text", "expr", t) for t in ("TIME '01:02:03'", "TIME '01:02:03.0'", "TIME '01:02:03.00'", "TIMESTAMP '2020-01-01 00:00:00'", "TIMESTAMP '2020-01-01 00:00:00.000'", "DATE '2020-01-01'",
                                            "TIMESTAMP '2020-01-01 00:00:00 UTC'", "CURRENT_TIME", "CURRENT_TIME(3)", "CURRENT_TIME(0)", "CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP(0)", "LOCALTIME", "LOCALTIME(3)")],
    "intervals": [("text", "expr", t) for t in ("INTERVAL '1' DAY", "INTERVAL '-1' DAY", "INTERVAL -'1' DAY", "INTERVAL '1' HOUR", "INTERVAL '1' DAY TO HOUR", "INTERVAL '1-2' YEAR TO MONTH", "'1'")],
    "names": [("text", "expr", t) for t in ("a", '"a"', "A", '"A"', "a.a", "a.b", '"a.b"', '"a""b"', "`a`", '"a "', "x -> x", "x", "(x, y) -> x", "(y, x) -> x", "a.a.a", "a[a]", "a(a)")],
    "calls": [("text", "expr", t) for t in ("SUM(a)", "SUM(DISTINCT a)", "sum(a)", "COUNT(*)", "COUNT(a)", "COUNT(1)", "SUM(a) OVER ()", "SUM(a) OVER (w)", "SUM(a) FILTER (WHERE TRUE)", "MIN(a)", "MIN(a, 1)", "NO_SUCH(a)",
                                            "ROUND(a)", "ROUND(a, 1)", "LOG(a, 2)", "ARRAY_AGG(a ORDER BY b)", "ARRAY_AGG(a)", "FIRST_VALUE(a) IGNORE NULLS OVER ()", "FIRST_VALUE(a) RESPECT NULLS OVER ()")],
    "types": [("text", "type", t) for t in ("DECIMAL", "DECIMAL(38)", "DECIMAL(38,0)", "DECIMAL(3,1)", "DECIMAL(1,3)", "INT", "INTEGER", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMP(0)", "TIMESTAMP WITH TIME ZONE", "TIME(3)", "TIME(3) WITH TIME ZONE", "VARCHAR",
                                            "VARCHAR(1)", "CHAR", "CHAR(1)", "ROW(INTEGER)", "ARRAY(INTEGER)", "MAP(INTEGER,INTEGER)", "DOUBLE", "DOUBLE PRECISION", "REAL", "INTERVAL YEAR TO MONTH", "INTERVAL DAY TO SECOND")],
    "built types": [("type", t) for t in (("t", "DECIMAL", 3, 1), ("t", "DECIMAL", 3, 0), ("t", "TIME", 3, False), ("t", "TIME", 3, True), ("t", "TIMESTAMP", 3, False), ("t", "TIMESTAMP", 0, False), ("t", "CHAR", 3), ("t", "VARCHAR", 3), V,
                                         ("t", "ARRAY", INT), ("t", "ARRAY", ("t", "BIGINT")), ("t", "ROW", (INT,)), ("t", "ROW", (INT, INT)), ("t", "MAP", INT, INT))],
    "supertypes": [("supertype", a, b) for a, b in ((("t", "DECIMAL", 3, 1), ("t", "DECIMAL", 5, 0)), (("t", "DECIMAL", 5, 0), ("t", "DECIMAL", 3, 1)), (("t", "DECIMAL", 3, 1), INT), (INT, ("t", "DECIMAL", 3, 1)), (INT, ("t", "BIGINT")),
                                                    (("t", "CHAR", 3), ("t", "VARCHAR", 5)), (("t", "VARCHAR", 5), ("t", "CHAR", 3)), (V, ("t", "VARCHAR", 5)), (("t", "TIME", 3, False), ("t", "TIME", 0, True)), (("t", "TIMESTAMP", 3, False), ("t", "TIME", 3, False)),
                                                    (("t", "ARRAY", INT), ("t", "ARRAY", ("t", "BIGINT"))), (("t", "ROW", (INT,)), ("t", "ROW", (("t", "BIGINT"),))), (("t", "MAP", INT, V), ("t", "MAP", ("t", "BIGINT"), V)), (("t", "DATE"), ("t", "TIMESTAMP", 0, False)), (INT, V))],
    "lambdas": [("lambda", names, i) for names in (("a",), ("b",), ("a", "b"), ("k",), ("q",)) for i in ("expr", "agg", "sub")] + [("lambda", ("x",), "select")],
    "queries": [("text", "query", t) for t in ("SELECT a FROM t", "SELECT a FROM t AS t", "SELECT a a FROM t", "SELECT * FROM t", "SELECT t.* FROM t", "SELECT ALL a FROM t", "SELECT DISTINCT a FROM t", "TABLE t", "VALUES 1", "VALUES (1, 2)", "SELECT a FROM t LIMIT ALL",
                                               "SELECT a FROM t LIMIT 1", "SELECT a FROM t OFFSET 0", "SELECT a FROM t FETCH FIRST ROW ONLY", "SELECT a FROM t ORDER BY a", "SELECT a FROM t ORDER BY a DESC", "SELECT a FROM t ORDER BY a NULLS FIRST",
                                               "SELECT a FROM t, t", "SELECT a FROM t CROSS JOIN t", "SELECT a FROM t GROUP BY a", "SELECT a FROM t GROUP BY (a)", "SELECT a FROM t GROUP BY DISTINCT a", "SELECT 1 UNION SELECT 1", "SELECT 1 UNION ALL SELECT 1")],
    "layouts": [("layout", mode, n, i) for mode, n in (("DEFAULT", None), ("PRETTY", 2), ("PRETTY", 4), ("PRETTY", 0)) for i in ("select", "expr", "lambda", "set")] + [("str", "select"), ("print", "expr", "PRETTY")],
    "schemas": [("resolve new", i, c) for i in ("select", "plain", "set") for c in ("empty", "one", "two")],
}
REL = None


class World:
    def __init__(self):
        self.pool = {k: bind.build(n) for k, n in POOL.items()}
        self.types = {k: bind.b_type(t) for k, t in TYPES.items()}
        self.cats = {k: c12.lib_catalog(t) for k, t in c13.CATS.items()}
        self.opts = {"DEFAULT": bind.opts("DEFAULT"), "PRETTY": bind.opts("PRETTY", 2)}


def clean(text):
    return re.sub(r"0x[0-9a-f]+", "0x", str(text))[:400]


def result(x):
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, bind.B.Sql):
        return (snap(x), x.sql(bind.opts("DEFAULT")), x.sql(bind.opts("PRETTY", 2)))
    if isinstance(x, REL.Schema):
        return c13.schema_of(x)
    return x


def spoil(o, seen):
    """modifies everything that can be modified in a tree"""
    if id(o) in seen or isinstance(o, enum.Enum):
        return
    seen[id(o)] = o
    if isinstance(o, list):
        for x in list(o):
            spoil(x, seen)
        o.append("spoiled")
    elif isinstance(o, dict):
        for x in list(o.values()):
            spoil(x, seen)
        o["spoiled"] = "spoiled"
    elif isinstance(o, set):
        for x in list(o):
            spoil(x, seen)
        o.add("spoiled")
    elif isinstance(o, tuple):
        for x in o:
            spoil(x, seen)
    elif attr.has(type(o)) and not isinstance(o, type):
        for f in attr.fields(type(o)):
            v = getattr(o, f.name)
            spoil(v, seen)
            try:
                setattr(o, f.name, "spoiled")
            except AttributeError:
                pass


def compose(w, how, i, j):
    a, b = w.pool[i], w.pool[j]
    if how == "and":
        return bind.E.And(a, b)
    if how == "arith":
        return (a + 1) * b - (-a) / b
    if how == "compare":
        return ((a == b) & (a != 1)) | ~(b < a)
    if how == "select":
        return bind.R.SelectQuery(select=[a, bind.E.AliasedValue(b, "z")], where=b)
    if how == "from":
        return bind.R.SelectQuery(select=[bind.E.Star()], from_=bind.R.AliasedRelation(a, "z"), with_=[bind.R.AliasedRelation(b, "w")])
    if how == "union":
        return bind.R.UnionQuery(a, b, limit=1)
    if how == "call":
        return bind.build(fn("COALESCE", [I1, I2])).__class__.from_args(a, b)
    if how == "array":
        return bind.E.Array([a, b])
    raise HarnessError(how)


def perform(w, op):
    k = op[0]
    if k == "read":
        return bind.lib_parse(*TEXTS[op[1]])
    if k == "print":
        return w.pool[op[1]].sql(w.opts[op[2]])
    if k == "str":
        return str(w.pool[op[1]])
    if k == "equals":
        return w.pool[op[1]].equals(w.pool[op[2]])
    if k == "visit":
        v, log = c18.recorder()
        v.visit(w.pool[op[1]])
        return [(kind, snap(n)) for kind, n in log]
    if k == "deepcopy":
        x = copy.deepcopy(w.pool[op[1]])
        r = result(x)
        spoil(x, {})
        return r
    if k == "compose":
        return compose(w, *op[1:])
    if k == "resolve":
        return w.pool[op[1]].resolve(w.cats[op[2]])
    if k == "common":
        return c12_common(w.types[op[1]], w.types[op[2]])
    if k == "typeprint":
        return w.types[op[1]].sql(w.opts[op[2]])
    if k == "cast":
        return bind.E.Cast(w.pool[op[1]], w.types[op[2]])
    if k == "spoil":            # independently created trees: everything about this one changes
        x = bind.lib_parse(*TEXTS[op[2]]) if op[1] == "text" else bind.b_type(TYPES[op[2]]) if op[1] == "type" else bind.build(POOL[op[2]])
        if op[1] == "resolved":
            x.resolve(c12.lib_catalog(c13.CATS["two"]))
        spoil(x, {})
        return "done"
    if k == "value":
        return bind.E.wrap_literal(eval(op[1]))
    if k == "plus":
        return bind.E.Field("p") + eval(op[1])
    if k == "text":
        return bind.lib_parse(*op[1:])
    if k == "type":
        return bind.b_type(op[1])
    if k == "supertype":
        return c12_common(bind.b_type(op[1]), bind.b_type(op[2]))
    if k == "lambda":
        return bind.E.Lambda.from_generic_expr([bind.E.Lambda.Variable(n) for n in op[1]], w.pool[op[2]])
    if k == "layout":
        return w.pool[op[3]].sql(bind.opts(op[1]) if op[2] is None else bind.opts(op[1], op[2]))
    if k == "resolve new":
        x = bind.build(POOL[op[1]])
        return c13.schema_of(x.resolve(w.cats[op[2]])), result(x)
    if k == "build":            # most attributes left to their defaults
        return bind.build(NEW[op[1]])
    raise HarnessError(k)


def c12_common(a, b):
    return importlib.import_module("treeno.datatypes.conversions").common_supertype(a, b)


NEW = {
    "query": gen.q1(A), "call": fn("ARRAY_AGG", [A]), "over": fn("SUM", [A], win=gen.win()), "table": query(("table", ("t",))),
    "values": query(("values", (I1,))), "group": query(sel([item(A)], gen.T1, gb=("ALL", (("set", (A,)),)))),
    "order": query(sel([item(A)]), ob=((A, "ASC", "LAST"),)), "alias": query(sel([("star", None)], ("alias", gen.T1, "z", None))), "lit": ("cat", (S1, ("null",))),
    "cast": ("cast", A, ("t", "TIMESTAMP", 3, False)), "case": ("case", None, ((A, I1),), None),
}
READ_ONLY = ([("read", t) for t in TEXTS]
             + [("print", i, m) for i in POOL for m in ("DEFAULT", "PRETTY")] + [("str", "expr"), ("str", "set")]
             + [("equals", i, j) for i, j in (("select", "same"), ("same", "select"), ("select", "set"), ("expr", "agg"), ("agg", "agg"))]
             + [("visit", i) for i in POOL if i != "same"] + [("deepcopy", i) for i in POOL if i != "same"]
             + [("compose", "and", "expr", "agg"), ("compose", "arith", "agg", "cast"), ("compose", "compare", "expr", "cast"), ("compose", "select", "agg", "expr"),
                ("compose", "from", "select", "set"), ("compose", "union", "set", "plain"), ("compose", "call", "agg", "cast"), ("compose", "array", "expr", "agg"), ("compose", "array", "expr", "expr"),
                ("compose", "compare", "sub", "lambda"), ("compose", "select", "sub", "sub"), ("compose", "arith", "lambda", "lambda")]
             + [("common", "dec", "big"), ("common", "row", "row2"), ("common", "map", "map"), ("common", "ts", "ts"), ("common", "ts", "big")]
             + [("typeprint", t, "DEFAULT") for t in TYPES] + [("cast", "agg", "row"), ("cast", "cast", "ts"), ("cast", "expr", "map")]
             + [("build", k) for k in NEW] + [("lambda", ("a", "b"), "expr"), ("lambda", ("k",), "sub"), ("value", "Decimal('1.0')"), ("value", "True"), ("plus", "Decimal('1.00')")])
RESOLVES = [("resolve", "select", "two"), ("resolve", "select", "empty"), ("resolve", "same", "one"), ("resolve", "plain", "two"), ("resolve", "set", "one"), ("resolve", "plain", "one"), ("resolve", "ambiguous", "two")]
SPOILS = ([("spoil", "text", t) for t in ("q1", "q2", "q3", "e1", "e2", "e3", "e4", "t1", "t2")] + [("spoil", "built", i) for i in POOL if i != "same"]
          + [("spoil", "resolved", i) for i in ("select", "plain", "set")] + [("spoil", "type", t) for t in TYPES])
OPS = READ_ONLY + RESOLVES + SPOILS


def touched(op):
    if op[0] == "compose":
        return op[2:]
    if op[0] == "equals":
        return op[1:]
    if op[0] in ("lambda", "layout"):
        return op[-1:]
    if op[0] in ("print", "str", "visit", "deepcopy", "cast"):
        return op[1:2]
    if op[0] == "resolve":
        return op[1:2]
    return ()


def do(w, op):
    try:
        return ("ok", result(perform(w, op)))
    except HarnessError:
        raise
    except Exception as e:
        return ("error", type(e).__name__, clean(e))


def things(w):
    return {k: snap(v) for k, v in w.pool.items()}, {k: (bind.r_type(v), snap(v.parameters)) for k, v in w.types.items()}, {k: snap(v) for k, v in w.cats.items()}, {k: snap(v) for k, v in w.opts.items()}


def in_child(f):
    """run in a process of its own, which starts where this one is"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        gc.disable()
        try:
            out = ("ok", f())
        except Violation as e:
            out = ("violation", e.msg)
        except BaseException:
            out = ("err", traceback.format_exc())
        with os.fdopen(w, "wb") as fh:
            pickle.dump(out, fh)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a history ended without result")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "err":
        raise HarnessError("a history died:\n" + val)
    return val


FRESH = {}
WORLD = []


def world():
    """the pool; nothing is ever done with it in this process, only in those forked from it"""
    if not WORLD:
        WORLD.append(guarded("building the pool", World))
    return WORLD[0]


def fresh(ops):
    """result of the last operation and state of the pool in a process where only the given operations happen"""
    if ops not in FRESH:
        def go():
            w, r = world(), None
            for op in ops:
                r = do(w, op)
            return r, things(w)
        FRESH[ops] = in_child(go)
    return FRESH[ops]


def replay(ops):
    w = world()
    for i, op in enumerate(ops):
        mine = tuple(o for o in ops[:i] if o[0] == "resolve" and o[1] in touched(op))
        same(fresh(mine + (op,))[0], do(w, op), "%s after %s" % (op, ", ".join(map(str, ops[:i])) or "nothing"))
    unchanged(ops, w, [o for o in ops if o[0] == "resolve"])


def unchanged(ops, w, resolves=()):
    base = fresh(())[1]
    what = " after %s" % (ops,)
    for part, (x, y) in enumerate(zip(base, things(w))):
        for k in x:
            if part == 0:
                own = tuple(o for o in resolves if o[1] == k)
                same(fresh(own)[1][0][k], y[k], "tree %r of the pool" % k + what)
            else:
                same(x[k], y[k], "%s %r" % (("type", "schema", "options")[part - 1], k) + what)


def check(ops):
    world()
    resolves = tuple(o for o in ops if o[0] == "resolve")
    fresh(())
    for i, op in enumerate(ops):        # known here before the history starts
        fresh(tuple(o for o in ops[:i] if o[0] == "resolve" and o[1] in touched(op)) + (op,))
    for k in POOL:
        fresh(tuple(o for o in resolves if o[1] == k))
    in_child(lambda: replay(ops))
    step(len(ops))
    validated(len(ops))
    bump("operations in histories", len(ops))


def pairs(tier):
    for op in OPS:
        yield (op,)
    if tier == "thorough":
        yield from itertools.product(OPS, OPS)
    else:
        yield from itertools.product(OPS, CORE)
        yield from itertools.product(CORE, OPS)


def stars(tier):
    """one operation, then every other"""
    rest = READ_ONLY + SPOILS
    for op in OPS:
        yield (op,) + tuple(rest) + tuple(RESOLVES[:4])
        yield (op,) + tuple(reversed(rest)) + tuple(RESOLVES[4:])


CORE = [("read", "q1"), ("read", "e1"), ("read", "bad2"), ("read", "bad3"), ("print", "select", "PRETTY"), ("print", "agg", "DEFAULT"), ("equals", "select", "same"), ("visit", "select"),
        ("compose", "select", "agg", "expr"), ("compose", "from", "select", "set"), ("common", "row", "row2"), ("resolve", "select", "two"), ("resolve", "plain", "one"),
        ("resolve", "same", "one"), ("spoil", "text", "q1"), ("spoil", "built", "agg"), ("build", "query"), ("build", "over")]
BIG = CORE + [("read", "q2"), ("read", "e3"), ("read", "t1"), ("read", "bad1"), ("read", "bad6"), ("deepcopy", "set"), ("compose", "array", "expr", "agg"), ("resolve", "select", "empty"),
              ("resolve", "set", "one"), ("spoil", "resolved", "select"), ("spoil", "type", "row"), ("spoil", "text", "e2"), ("print", "lambda", "PRETTY"), ("build", "call")]


def triples(tier):
    if tier == "thorough":
        yield from itertools.product(BIG, repeat=3)
        yield from itertools.product(CORE[1::3], repeat=5)
    else:
        yield from itertools.product(CORE[::2], repeat=3)


def twins(tier):
    """every two (thorough: three) of those which are easily taken for each other"""
    for k, ops in TWINS.items():
        for c in itertools.product(ops, repeat=3 if tier == "thorough" else 2):
            yield c
        yield tuple(ops) + tuple(reversed(ops))


def debruijn(k, n):
    """a cyclic sequence that holds every sequence of n out of k as a part"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def long_histories(tier):
    """one process, one pool: every sequence of two operations occurs somewhere in a long one"""
    yield ("all", 2)
    yield ("core", 3)
    if tier == "thorough":
        yield ("big", 3)


def long(c):
    which, n = c
    ops = {"all": READ_ONLY + SPOILS, "core": [o for o in CORE if o[0] != "resolve"], "big": [o for o in BIG if o[0] != "resolve"]}[which]
    seq = [ops[i] for i in debruijn(len(ops), n)]
    exp = {op: fresh((op,))[0] for op in ops}
    fresh(())
    in_child(lambda: run_long(seq, exp))
    bump("operations in long histories", len(seq))
    step(len(seq))
    validated(len(seq))


def run_long(seq, exp):
    w = world()
    for i, op in enumerate(seq):
        same(exp[op], do(w, op), "%s as operation %d of a long history (after %s)" % (op, i, seq[max(0, i - 3):i]))
        if i % 16 == 0 or i == len(seq) - 1:
            unchanged("operation %d of a long history (%s)" % (i, seq[max(0, i - 16):i]), w)


FAMILIES = [
    Family("one and two operations", pairs, check),
    Family("one operation and then all others", stars, check),
    Family("three operations", triples, check),
    Family("operations easily taken for each other", twins, check),
    Family("long histories", long_histories, long, seconds=600),
]


def main():
    global REL
    bind.load()
    c18.VISITOR = importlib.import_module("treeno.visitor")
    c18.HANDLERS.extend(sorted(k[6:] for k in dir(c18.VISITOR.TreenoVisitor) if k.startswith("visit_")))
    c12.REL = REL = importlib.import_module("treeno.relation")
    # single operations, each in a process where nothing else happened yet
    for ops in [()] + [(op,) for op in OPS]:
        try:
            fresh(ops)
        except Violation:
            pass        # comes up again as a case
    for t in TEXTS.values():        # the parser gets faster with use
        try:
            bind.lib_parse(*t)
        except Exception:
            pass
    return run("C15", FAMILIES)
