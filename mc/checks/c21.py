"""C21: lambdas - every body of the expression and query enumerations x every choice of declared names, nested lambdas with colliding names;
binding read from SQL and made in Python against the reference scoping, bodies watched through snapshots."""
import itertools

import attr

from .. import bind, gen, lang
from ..core import Family, main as run
from ..gen import A, Bc, C, I1, S1, col, fn, item, q1, query, sel, win
from ..snap import snap
from .c02 import print_ok
from .common import *

X, Y, Z = col("x"), col("y"), col("z")
TX = col("x", "t")


def close(n):
    """reference scoping: a tree whose lambda bodies name columns -> the same with variables"""
    if not isinstance(n, tuple) or not n:
        return n
    if n[0] == "lam" and len(n) == 3:
        return ("lam", n[1], lang.bind(close(n[2]), frozenset(n[1])))
    return tuple(close(x) for x in n)


def opened(n):
    """variables as plain columns again"""
    if not isinstance(n, tuple) or not n:
        return n
    if n[0] == "lvar":
        return ("col", n[1], None)
    return tuple(opened(x) for x in n)


def names_in(n, out):
    """names of every sort"""
    if isinstance(n, tuple):
        if n and n[0] == "t" and len(n) > 1:
            return
        if len(n) == 3 and n[0] == "col":
            out.setdefault("column" if n[2] is None else "qualified", []).append(n[1])
            if isinstance(n[2], str):
                out.setdefault("table", []).append(n[2])
        if n and n[0] in ("tbl", "table") and isinstance(n[1], tuple):
            out.setdefault("table", []).extend(n[1])
        if n and n[0] in ("alias", "item") and isinstance(n[2], str):
            out.setdefault("alias", []).append(n[2])
        if n and n[0] == "win" and n[1]:
            out.setdefault("window", []).append(n[1])
        for x in n:
            names_in(x, out)


def swap(s, names):
    """snapshot of a body -> snapshot of the same body with the names bound"""
    if not isinstance(s, tuple) or not s:
        return s
    if s[0] == "Field":
        d = dict(s[1:])
        if d["table"] == snap(None) and d["name"][1] in names:
            return ("Variable",) + tuple(kv for kv in s[1:] if kv[0] != "table")
    return (s[0],) + tuple(swap(x, names) for x in s[1:]) if isinstance(s[0], str) else tuple(swap(x, names) for x in s)


def ordered(s):
    """attributes of a node in alphabetical order"""
    if not isinstance(s, tuple):
        return s
    if s and isinstance(s[0], str) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in s[1:]) and s[0] not in ("dict",):
        return (s[0],) + tuple(sorted((k, ordered(v)) for k, v in s[1:]))
    return tuple(ordered(x) for x in s)


def made(names, body):
    """a lambda made in Python from a body which names columns"""
    kind = "query" if body[0] == "query" else "expr"
    bind.FROM_BODY = True
    try:
        obj = lib_build(kind, body)
    finally:
        bind.FROM_BODY = False
    before = snap(obj)
    ids = set()
    objects(obj, ids)
    step()
    L = bind.E.Lambda
    vs = [L.Variable(x) for x in names]
    lam = guarded("a lambda of %r over %r" % (names, body), L.from_generic_expr, vs, obj)
    same(before, snap(obj), "the body a lambda was made from")
    now = set()
    objects(obj, now)
    same(ids, now, "the objects of the body a lambda was made from")
    same(ordered(swap(before, set(names))), ordered(snap(lam.expr)), "the body of the lambda %r" % (names,))
    return lam


def objects(o, out):
    if isinstance(o, (list, tuple, set)):
        for x in o:
            objects(x, out)
    elif isinstance(o, dict):
        for x in o.values():
            objects(x, out)
    elif isinstance(o, bind.B.Sql):
        out.add(id(o))
        for f in attr.fields(type(o)):
            objects(getattr(o, f.name), out)


def check(c):
    names, body = c
    body = opened(body)
    inner = ("q", body) if body[0] == "query" else body
    n = close(("lam", tuple(names), inner))
    lam = made(names, body)
    same(want(n), norm(neutral("expr", lam)), "lambda %r over %r made in Python" % (names, body))
    print_ok("expr", n, lam)
    text = render("expr", n, MIN)
    selfcheck("expr", n, text)
    back, got = lib_read("expr", text)
    same(want(n), got, "%r is read with another binding" % text)
    if norm(n) == n:
        step()
        if guarded("equals", back.equals, lam) is not True:
            raise Violation("%r read and made in Python differ" % text)


def fields_of(o, out):
    if isinstance(o, (list, tuple, set)):
        for x in o:
            fields_of(x, out)
    elif isinstance(o, dict):
        for x in o.values():
            fields_of(x, out)
    elif isinstance(o, bind.B.Sql):
        if isinstance(o, bind.E.Field):
            out.append(o)
        for f in attr.fields(type(o)):
            fields_of(getattr(o, f.name), out)


def typed(c):
    """what is known about the type of a column doesn't matter for which variable it is"""
    names, body = c
    body = opened(body)
    kind = "query" if body[0] == "query" else "expr"
    bind.FROM_BODY = True
    try:
        obj = lib_build(kind, body)
    finally:
        bind.FROM_BODY = False
    fs = []
    fields_of(obj, fs)
    types = [bind.b_type(t) for t in (gen.INT, ("t", "ARRAY", gen.DOUBLE), ("t", "VARCHAR", 5))]
    for i, f in enumerate(fs):
        f.data_type = types[i % 3]
    before = snap(obj)
    step()
    L = bind.E.Lambda
    lam = guarded("a lambda of %r over %r with known types" % (names, body), L.from_generic_expr, [L.Variable(x) for x in names], obj)
    same(before, snap(obj), "the body a lambda was made from")
    n = close(("lam", tuple(names), ("q", body) if kind == "query" else body))
    same(want(n), norm(neutral("expr", lam)), "lambda %r over %r, whose columns have known types, made in Python" % (names, body))
    print_ok("expr", n, lam) if norm(n) != n else same(norm(n), norm(ref("expr", lib_print(lam, n=n))), "lambda %r over %r printed" % (names, body))


def gen_typed(tier):
    for i, (c, n) in enumerate(gen_exprs("quick")):
        if tier == "thorough" or i % 9 == 0:
            yield (c, n)
    for i, (c, n) in enumerate(gen_queries("quick")):
        if i % (2 if tier == "thorough" else 12) == 0:
            yield (c, n)
    for i, (c, n) in enumerate(gen_nested("quick")):
        if i % (1 if tier == "thorough" else 5) == 0:
            yield (c, n)


def positions(c):
    """the lambda somewhere in a tree: what is around it isn't bound by it"""
    n, = c
    n = close(opened(("arr", (n,)) if n[0] == "q" else n))
    text = render("expr", n, MIN)
    selfcheck("expr", n, text)
    obj, got = lib_read("expr", text)
    same(want(n), got, "%r is read with another binding" % text)
    bind.FROM_BODY = True
    try:
        built = lib_build("expr", opened(n))
    finally:
        bind.FROM_BODY = False
    same(want(n), norm(neutral("expr", built)), "%r made in Python" % text)
    print_ok("expr", n, built)


def twice(c):
    """two lambdas made from one body don't know of each other"""
    names1, names2, body = c
    body = opened(body)
    bind.FROM_BODY = True
    try:
        obj = lib_build("expr", body)
    finally:
        bind.FROM_BODY = False
    L = bind.E.Lambda
    before = snap(obj)
    out = []
    for names in (names1, names2, names1):
        step()
        out.append(guarded("a lambda of %r" % (names,), L.from_generic_expr, [L.Variable(x) for x in names], obj))
    same(before, snap(obj), "the shared body")
    for names, lam in zip((names1, names2, names1), out):
        same(want(close(("lam", tuple(names), body))), norm(neutral("expr", lam)), "lambda %r over the shared body %r" % (names, body))


def refused(c):
    text, = c
    step()
    try:
        obj = bind.lib_parse("expr", text)
    except Exception:
        validated()
        return
    raise Violation("%r is accepted as %r" % (text, lib_print(obj)))


def choices(n, few):
    found = {}
    names_in(opened(n), found)
    cols = list(dict.fromkeys(found.get("column", ())))
    other = [x for k in ("table", "alias", "window", "qualified") for x in found.get(k, ())]
    out = []
    if cols:
        out.append((cols[0],))
        if len(cols) > 1:
            out.append(tuple(cols[:3]))
            if not few:
                out += [(x,) for x in cols[1:]] + [tuple(reversed(cols))]
    for x in list(dict.fromkeys(other))[:1 if few else 4]:
        out.append((x,))
        if not few and cols and x not in cols:
            out.append((x, cols[0]))
    if not few or not cols:
        out += [("w w",), ()]
    return out


def bodies(it, few):
    for n in it:
        for c in choices(n, few):
            yield (c, n)


def gen_exprs(tier):
    yield from bodies(gen.level1_leaves() if tier == "thorough" else gen.level1(), False)
    yield from bodies(gen.level2(), tier == "quick")


def gen_queries(tier):
    qs = gen.queries("quick")
    yield from bodies((q for i, q in enumerate(qs) if tier == "thorough" or i % 4 == 0), True)
    for q in itertools.chain(gen.bodies_tails(), gen.query_lists()) if tier == "thorough" else ():
        yield from bodies([q], False)


REFS = [X, Y, Z, TX, col("t")]
OUTER = [(), ("x",), ("y",), ("x", "y"), ("t",), ("t", "x"), ("z", "y", "x")]
WRAPS = [lambda a, b: ("bin", "+", a, b), lambda a, b: fn("COALESCE", [a, b]), lambda a, b: ("case", a, ((b, a),), b), lambda a, b: fn("ARRAY_AGG", [a], ((b, "DESC", "FIRST"),), b, "IGNORE", win(None, [a], [(b, "ASC", "LAST")], ("ROWS", ("P", a), ("F", b)))),
         lambda a, b: ("row", (a, b)), lambda a, b: ("q", query(sel([item(a, "x")], ("alias", gen.tbl("x"), "y", ("z",)), b))), lambda a, b: ("sub", ("arr", (a,)), b), lambda a, b: ("cast", ("btw", a, b, a), gen.INT)]


def gen_nested(tier):
    """lambdas in lambdas: declared names x names used before, inside and after"""
    for o in OUTER:
        for i in OUTER:
            for r1, r2 in itertools.product(REFS, repeat=2):
                for k, w in enumerate(WRAPS):
                    if tier == "quick" and (k + len(o) + REFS.index(r1) + 2 * REFS.index(r2)) % 4:
                        continue
                    inner = ("lam", i, WRAPS[(k + 1) % len(WRAPS)](r1, r2) if tier == "thorough" else ("bin", "*", r1, r2))
                    yield (o, w(r2, inner) if k in (1, 4) else w(("bin", "-", r2, I1), fn("TRY", [inner])))
    if tier == "thorough":
        for o, i, j in itertools.product(OUTER[:6], repeat=3):
            for r1, r2, r3 in itertools.product(REFS[:4], repeat=3):
                yield (o, ("arr", (r1, ("lam", i, fn("COALESCE", [r2, ("lam", j, ("row", (r1, r2, r3))), r3])), r2)))
    else:
        for o, i, j in itertools.product(OUTER[1:5], repeat=3):
            yield (o, ("arr", (X, ("lam", i, fn("COALESCE", [Y, ("lam", j, ("row", (X, Y, TX))), X])), Z)))


def gen_positions(tier):
    base = [("lam", ("x",), ("bin", "+", X, Y)), ("lam", ("x", "y"), fn("COALESCE", [X, Y, Z, TX])), ("lam", (), X)]
    for l in base:
        for name in gen.K:
            n, f = gen.K[name]
            for i in range(n):
                args = [X, Y, Z, col("w")][:n]
                args[i] = l
                yield (f(*args),)
            if n == 2:
                yield (f(l, base[0]),)
        for m in base:
            yield (fn("COALESCE", [X, l, Y, m, Z]),)
            yield (("arr", (l, m, X)),)


def gen_names(tier):
    odd = ["A b", 'q"q', "select", "SUM", "it's", "é", "1a", "x.y", "_", "date", "sum", "a" * 40, " ", "x,y", "->", "(x)", "null", "True"]
    for a in odd:
        for b in odd:
            yield ((a,), ("bin", "+", col(a), fn("SUM", [col(b)])))
            if a != b:
                yield ((a, b), ("bin", "+", col(b), ("lam", (b,), ("bin", "*", col(a), col(b)))))
    for k in range(0, 9):
        names = tuple("v%d" % i for i in range(k))
        yield (names, ("row", tuple(col("v%d" % i) for i in range(k + 2))))


def gen_twice(tier):
    pool = [n for i, n in enumerate(gen.level2()) if i % (3 if tier == "thorough" else 23) == 0]
    for n in pool:
        cs = choices(n, False)
        for a, b in zip(cs, cs[1:] + cs[:1]):
            yield (a, b, n)
    for o, i in itertools.product(OUTER, repeat=2):
        yield (o, i, ("arr", (X, ("lam", ("y",), ("row", (X, Y, Z, TX))), Y, col("t"))))


FAMILIES = [
    Family("nested lambdas", gen_nested, check),
    Family("expressions as bodies", gen_exprs, check),
    Family("queries as bodies", gen_queries, check),
    Family("lambdas in every position", gen_positions, positions),
    Family("unusual names", gen_names, check),
    Family("several lambdas from one body", gen_twice, twice),
    Family("columns with known types", gen_typed, typed),
    Family("refused", lambda t: [(s,) for s in ("(x, x) -> x", "(x, y, x) -> 1", "t.x -> x", "(t.x) -> x", "x, y -> x", "(1) -> 1", "x -> ", "-> x", "(x, ) -> x", "((x)) -> x", "((x, y)) -> x", "x -> y -> ", "'x' -> x")], refused),
]


def main():
    bind.load()
    return run("C21", FAMILIES)
