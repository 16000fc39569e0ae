"""C18: visitors - a recording visitor over every tree; the nodes handed to handlers compared with the nodes reachable through the
public attributes and with the names in the reference tree."""
import collections
import importlib
import itertools

import attr

from .. import bind, fnreg, gen
from ..core import Family, main as run
from ..gen import A, Bc, C, I1, S1, col, fn, item, lam, query, sel
from ..snap import snap
from . import c12
from .common import *

VISITOR = None
HANDLERS = []


class Log:
    pass


def recorder(go=lambda kind: True, only=None):
    """a visitor class whose handlers note the node and continue into it"""
    log = []

    def handler(kind):
        def h(self, node):
            log.append((kind, node))
            if go(kind):
                node.visit(self)
            return ("result of", kind, id(node))
        return h

    body = {"visit_" + k: handler(k) for k in HANDLERS if only is None or k in only}
    return type("Recorder", (VISITOR.TreenoVisitor,), body)(), log


def nodes(o, out):
    """every node below an object through its public attributes, as often as it occurs; data types aside"""
    if isinstance(o, bind.T.DataType):
        return
    if isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            nodes(x, out)
    elif isinstance(o, dict):
        for k, v in o.items():
            nodes(k, out)
            nodes(v, out)
    elif isinstance(o, bind.B.Sql):
        out.append(o)
        for f in attr.fields(type(o)):
            if not f.name.startswith("_"):
                nodes(getattr(o, f.name), out)


def names(n, out):
    """columns and tables of a reference tree"""
    if not isinstance(n, tuple) or not n:
        return
    if n[0] == "t" and len(n) > 1 and isinstance(n[1], str):
        return
    if n[0] == "col" and len(n) == 3:
        out["column " + n[1]] += 1
    if n[0] == "lam":
        for v in n[1]:
            out["variable " + v] += 1
        return names(n[2], out)
    if n[0] == "lvar":
        out["variable " + n[1]] += 1
    if n[0] == "tbl":
        out["table " + n[1][-1]] += 1
    if n[0] == "table" and len(n) == 2 and isinstance(n[1], tuple):
        out["table " + n[1][-1]] += 1
    for x in n:
        names(x, out)


def seen_names(log):
    out = collections.Counter()
    for kind, node in log:
        if kind == "Field":
            out["column " + node.name] += 1
        elif kind == "Table":
            out["table " + node.name] += 1
        elif kind == "LambdaVariable" or kind == "Variable":
            out["variable " + node.name] += 1
    return out


def census(log):
    return collections.Counter(k for k, _ in log)


def visit(obj, what):
    v, log = recorder()
    step()
    kind = type(obj).__name__
    before = snap(obj)
    r = guarded("visiting " + what, v.visit, obj)
    want_ = []
    nodes(obj, want_)
    for k, node in log:
        if type(node).__name__ != k:
            raise Violation("visiting %s gives a %s to the handler of %s" % (what, type(node).__name__, k))
    a, b = collections.Counter(id(x) for x in want_), collections.Counter(id(x) for _, x in log)
    if a != b:
        by = {id(x): x for x in want_}
        by.update({id(x): x for _, x in log})
        diff = [(type(by[i]).__name__, str(snap(by[i]))[:120], b[i], a[i]) for i in set(a) | set(b) if a[i] != b[i]]
        raise Violation("visiting %s: (kind, node, times visited, times in the tree) %r" % (what, diff[:4]))
    if not log or log[0][1] is not obj or r != ("result of", kind, id(obj)):
        raise Violation("visiting %s doesn't begin with (and return the result of) its own handler: %r" % (what, r))
    # handlers which don't continue: only the node itself
    v, short = recorder(lambda k: False)
    guarded("visiting " + what, v.visit, obj)
    if [id(x) for _, x in short] != [id(obj)]:
        raise Violation("visiting %s with handlers that don't continue calls %r" % (what, census(short)))
    # the node's own visit goes to its direct parts only
    v, direct = recorder(lambda k: False)
    guarded("visiting " + what, obj.visit, v)
    parts = []
    for f in attr.fields(type(obj)):
        if not f.name.startswith("_"):
            top(getattr(obj, f.name), parts)
    if collections.Counter(id(x) for _, x in direct) != collections.Counter(id(x) for x in parts):
        raise Violation("the direct parts of %s are %r but %r are visited" % (what, sorted(type(x).__name__ for x in parts), census(direct)))
    if snap(obj) != before:
        raise Violation("visiting changed %s" % what)
    validated(len(log))
    bump("nodes visited", len(log))
    return log


def top(o, out):
    if isinstance(o, bind.T.DataType):
        return
    if isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            top(x, out)
    elif isinstance(o, dict):
        for k, v in o.items():
            top(k, out)
            top(v, out)
    elif isinstance(o, bind.B.Sql):
        out.append(o)


def check(c):
    how, n = c
    kind = "query" if n[0] == "query" else "expr"
    text = render(kind, n, MIN)
    obj = lib_read(kind, text)[0] if how == "text" else lib_shared(kind, n) if how == "shared" else lib_build(kind, n)
    exp = collections.Counter()
    names(want(n) if how == "text" else n, exp)
    if how == "resolved":
        try:
            obj.resolve(c12.lib_catalog())
        except Exception:
            return
    got = seen_names(visit(obj, "%r" % text))
    if how == "text":
        names_ = collections.Counter()
        names(neutral(kind, obj), names_)
        same(exp, names_, "names in %r" % text)
    same(exp, got, "names seen by a visitor of %r" % text)


def one_kind(c):
    """a visitor that overrides the handler of one kind, the others just continuing, sees all of its nodes"""
    n, = c
    kind = "query" if n[0] == "query" else "expr"
    obj = lib_build(kind, n)
    all_ = []
    nodes(obj, all_)
    kinds = sorted({type(x).__name__ for x in all_})
    for k in kinds:
        seen = []
        v, log = recorder()
        cls = type("One", (type(v),), {"visit_" + k: lambda self, node: (seen.append(node), node.visit(self))[0]})
        guarded("visiting %r" % (n,), cls().visit, obj)
        if collections.Counter(map(id, seen)) != collections.Counter(id(x) for x in all_ if type(x).__name__ == k):
            raise Violation("a visitor overriding visit_%s sees %d of %d in %r" % (k, len(seen), sum(type(x).__name__ == k for x in all_), n))
        if collections.Counter(id(x) for _, x in log) != collections.Counter(id(x) for x in all_ if type(x).__name__ != k):
            raise Violation("overriding visit_%s changes which other nodes are seen in %r" % (k, n))
    validated()


def subclasses(c):
    for s in c.__subclasses__():
        yield s
        yield from subclasses(s)


def handlers(c):
    """every kind of node the enumeration builds has a handler in the plain visitor, which accepts it"""
    n, = c
    kind = "query" if n[0] == "query" else "expr"
    obj = lib_build(kind, n)
    all_ = []
    nodes(obj, all_)
    plain = VISITOR.TreenoVisitor()
    for x in all_:
        guarded("the plain visitor on a %s" % type(x).__name__, plain.visit, x)
        bump("kind " + type(x).__name__)
    validated()


def calls(tier):
    for name in sorted(fnreg.FUNCS):
        for k in fnreg.arities(name):
            args = [A, Bc, C, gen.D, I1, S1][:k]
            yield fn(name, args)
            yield fn(name, [("bin", "+", a, Bc) for a in args])
    for name in ("SUM", "ARRAY_AGG", "COUNT", "MAX", "MAX_BY", "APPROX_PERCENTILE", "HISTOGRAM", "CORR"):
        k = min(fnreg.arities(name))
        args = [A, Bc, C][:k]
        for ob in ((), [(Bc, "ASC", "LAST")], [(Bc, "DESC", "FIRST"), (("neg", C), "ASC", "LAST")]):
            for flt in (None, ("cmp", "=", col("f"), C)):
                for nulls in ("RESPECT", "IGNORE"):
                    for w in (None, gen.win("w"), gen.win(None, [col("p"), gen.D], [(col("o"), "ASC", "LAST")], ("ROWS", ("P", col("s")), ("F", ("bin", "+", col("e"), I1))))):
                        if nulls == "RESPECT" or w is not None:
                            yield fn(name, args, ob, flt, nulls, w)
    for ov in (None, ("..", "WITH COUNT")):
        yield ("listagg", A, ";", ov, ((Bc, "ASC", "LAST"), (C, "DESC", "FIRST")))
    yield ("normalize", A, "NFC")


def both(it):
    for i, n in enumerate(it):
        yield ("text" if i % 2 else "built", n)


def queries(tier):
    q = list(gen.queries("quick" if tier == "quick" else "thorough"))
    yield from both(q)
    for f in ("expressions", "joins and laterals x names", "nested named queries", "correlated subqueries", "set operations"):
        fam = [x for x in c12.FAMILIES if x.name == f][0]
        k = 12 if tier == "quick" else 3
        for i, n in enumerate(fam.gen("quick")):
            if i % k == 0:
                yield ("resolved" if i // k % 2 else "built", n)
    for n in (3, 6, 12):        # deep and wide
        x = gen.q1(A)
        for i in range(n):
            x = query(sel([item(("q", x)), item(col("c%d" % i))], ("alias", ("subq", x), "z", None) if i < 6 else None))
            if i > 4:
                break
        yield ("built", x)


def expressions(tier):
    yield from both(gen.exprs("quick" if tier == "quick" else "thorough"))
    yield from both(calls(tier))


def shareable(tier):
    for n in itertools.chain(gen.level1(), gen.equal_operands(), gen.towers((3,)), gen.twins(), gen.query_lists(), calls(tier), gen.fn_towers(fnreg.FUNCS, fnreg.arities)):
        yield ("shared", n)
    if tier == "thorough":
        for n in itertools.chain(gen.queries("quick"), gen.level2()):
            yield ("shared", n)


def sample(tier):
    qs = list(gen.queries("quick"))
    for n in itertools.chain(gen.level1(), calls(tier), qs if tier == "thorough" else qs[::5]):
        yield (n,)


FAMILIES = [
    Family("expressions", expressions, check),
    Family("queries", queries, check),
    Family("one object in several places", shareable, check),
    Family("one overridden handler", sample, one_kind),
    Family("plain visitor", sample, handlers),
]


def main():
    global VISITOR
    bind.load()
    VISITOR = importlib.import_module("treeno.visitor")
    c12.REL = importlib.import_module("treeno.relation")
    HANDLERS.extend(sorted(k[6:] for k in dir(VISITOR.TreenoVisitor) if k.startswith("visit_")))
    return run("C18", FAMILIES)
