"""C07: every tree x layout x indentation width prints the same tokens."""
import itertools

from .. import bind, gen, harvest, lang
from ..core import Family, main as run
from ..gen import A, Bc, I1, S1, T1, col, fn, item, q1, query, sel, tbl, win
from .common import *

WIDTHS = (4, 0, 1, 2, 8, 37, 80, 200)


def tokens(text):
    return [t[2] for t in lang.lex(text)]


def content_has_break(n):
    if isinstance(n, str):
        return "\n" in n
    return isinstance(n, tuple) and any(content_has_break(x) for x in n)


def make(n):
    k = n[0]
    if k == "win":
        return bind.b_window(n)
    if k == "order":
        return bind.b_order([n[1]])[0]
    if k in ("set", "rollup", "cube", "gsets"):
        return bind.b_group(n)
    if k in ("tbl", "subq", "unnest", "lateral", "alias", "sample", "join"):
        return bind.b_rel(n)
    return bind.build(n)


def check(n):
    kind = "query" if n[0] in ("query", "q") else "expr"
    obj = guarded("building %r" % (n,), make, n)
    first_pretty = lib_print(obj, "PRETTY", 4, n=n)
    base = lib_print(obj, n=n)
    want_toks = tokens(base)
    if ("\n" in base or "\r" in base) and not content_has_break(n) and "\r" not in repr(n).replace("\\r", "\r"):
        raise Violation("default layout of %r has a line break: %r" % (n, base))
    if any(t[0] == "bad" for t in lang.lex(base)):
        raise Violation("default layout of %r has text that is no token: %r" % (n, base))
    pretty = {}
    for w in WIDTHS:
        o = bind.opts("PRETTY", w)
        step()
        p = guarded("printing %r with width %d" % (n, w), obj.sql, o)
        pretty[w] = p
        if (o.mode, o.spaces) != (bind.B.PrintMode.PRETTY, w):
            raise Violation("printing changed its options to %r" % o)
        same(want_toks, tokens(p), "pretty layout with width %d prints other tokens\n      %r\n      %r" % (w, base, p))
        step()
        d = guarded("printing", obj.sql, bind.opts("DEFAULT", w))
        same(want_toks, tokens(d), "default layout with width %d prints other tokens: %r %r" % (w, base, d))
        if "\n" in d and not content_has_break(n):
            raise Violation("default layout with width %d of %r has a line break" % (w, n))
    # earlier printing leaves no trace
    fresh = guarded("building", make, n)
    if lib_print(obj) != base or str(obj) != base or lib_print(fresh, n=n) != base:
        raise Violation("default layout of %r changed after printing it in other layouts" % (n,))
    if lib_print(obj, "PRETTY", 4) != pretty[4] or first_pretty != pretty[4] or lib_print(fresh, "PRETTY", 4) != pretty[4]:
        raise Violation("pretty layout of %r depends on what was printed before" % (n,))
    validated()


def lists(x, k):
    """every construct that prints a list, with items x repeated k times"""
    xs = tuple(x for _ in range(k))
    yield fn("COALESCE", (A,) + xs)
    yield ("in", A, xs)
    yield ("arr", xs)
    yield ("row", xs)
    yield ("and", A, ("in", A, (("arr", xs), ("row", xs))))
    yield fn("ARRAY_AGG", [x], ob=[(y, "DESC", "FIRST") for y in xs], flt=("in", x, xs))
    yield fn("SUM", [A], win=win(None, xs, [(y, "ASC", "LAST") for y in xs], ("ROWS", ("UP",), ("CR",))))
    yield ("case", None, tuple((x, y) for y in xs), x)
    yield ("listagg", x, "\n ", None, tuple((y, "ASC", "LAST") for y in xs))
    yield query(sel([item(y) for y in xs] + [item(x, "z z")], T1))
    yield query(sel([item(A)], T1, wh=("and", x, x), gb=("ALL", tuple(("set", (y,)) for y in xs)), hv=x), ob=[(y, "ASC", "LAST") for y in xs], off=3, lim=4)
    yield query(sel([item(A)], T1, gb=("ALL", (("set", xs), ("rollup", xs), ("gsets", (("set", xs), ("set", ()), ("set", xs)))))))
    yield query(("values", xs))
    yield query(("values", tuple(("row", xs) for _ in xs)))
    yield query(sel([item(A)], ("join", "LEFT", False, ("alias", ("unnest", xs, True), "z", None), T1, ("on", x))))
    yield query(sel([item(("q", q1(x)))], T1, wh=("inq", x, query(sel([item(y) for y in xs], T1, x)))))
    yield query(sel([item(A)], T1, wd=tuple(("w%d" % i, win(None, xs)) for i in range(k))))
    yield query(sel([item(x)], T1), with_=[("w%d" % i, None, q1(x)) for i in range(k)])
    yield ("lam", ("x", "y"), ("in", ("lvar", "x"), xs))


def names(k, s):
    xs = tuple(s + "x" * i for i in range(k))
    yield query(sel([item(A)], ("alias", T1, s, xs)))
    yield query(sel([("astar", s, xs)], T1))
    yield query(sel([item(A)], ("join", "LEFT", False, T1, tbl(s), ("using", xs))))
    yield query(sel([item(A)], T1), with_=[(s, xs, q1(A))])
    yield ("lam", xs, A)


def long_lists(tier):
    ks = (1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 4, 7, 12, 30)
    ls = list(range(1, 90, 4 if tier == "quick" else 1)) + [150]
    for k in ks:
        for L in ls:
            yield from lists(col("c" * L), k)
            yield from names(k, "n" * L)
        for c in ("a\nb", "--", "/*", "'", '"', "\n\n", "*/ --\n", " ", "a'\n'b", "\r\n", 'q"\n"q', "'\"\n\"'", "\"'\n'\""):
            yield from lists(("str", c), k)
            yield from lists(col(c), k)
            yield from lists(("cat", (("str", c), col(c))), k)
            if len(c) > 2:
                yield from names(k, c)
        for inner in (("q", q1(A, fr=T1, wh=Bc)), ("inq", A, q1(("str", "x\ny"))), ("case", None, ((A, Bc),), col("c")), fn("SUM", [A], win=win("w", (A,))),
                      ("q", query(sel([item(col("d" * 30, "t")) for _ in range(4)], T1), with_=[("x", None, q1(("str", "\n")))])), ("not", ("btw", A, I1, S1)),
                      ("cast", A, ("t", "ROW", (("t", "BIGINT"), ("t", "MAP", ("t", "BIGINT"), ("t", "TIME", 3, True)))))):
            yield from lists(inner, k)


def nested(tier):
    """queries in queries in every place, each level with line breaks in its names"""
    q = query(sel([item(("str", "a\nb"), "n\nm"), item(A)], tbl("t\nt"), ("cmp", "=", col("x\ny"), ("str", "\n'"))), ob=((A, "ASC", "LAST"),), lim=1)
    lv = [q]
    for d in range(2 if tier == "quick" else 3):
        nxt = []
        for x in lv:
            for y in gen.query_positions(x):
                yield y
                nxt.append(y)
        lv = nxt


def parts(tier):
    yield from gen.windows()
    yield from gen.groups()
    for o in gen.orders():
        yield ("order", o)
    yield from gen.relations(2)
    for t in gen.TYPES:
        yield t


def widths(tier):
    """every indentation width up to well past any line width, and the numbers the library mentions"""
    n = [q1(A), query(sel([item(A), item(Bc, "z")], ("alias", ("subq", q1(A, fr=T1)), "z", ("x", "y")), ("and", A, ("inq", A, q1(A))), gb=("ALL", (("set", (A,)),)), hv=A),
                      ob=((A, "ASC", "LAST"), (Bc, "DESC", "LAST")), off=1, lim=2, with_=[("x", None, q1(("str", "a\nb")))]),
         ("case", A, ((A, Bc), (I1, ("q", q1(A)))), I1), fn("COALESCE", (col("c" * 50), col("d" * 50)))]
    for w in sorted({*range(150), *harvest.ints(0, 5000), 255, 256, 1000}):
        for x in n:
            yield w, x


def width_check(case):
    w, n = case
    base = tokens(lib_print(guarded("building", make, n), n=n))
    obj = make(n)
    for mode in ("PRETTY", "DEFAULT"):
        step()
        same(base, tokens(guarded("printing with width %d" % w, obj.sql, bind.opts(mode, w))), "%s layout with width %d prints other tokens" % (mode, w))
    validated()


FAMILIES = [
    Family("indentation widths", widths, width_check),
    Family("expressions", lambda t: gen.exprs(t), check),
    Family("queries", lambda t: gen.queries(t), check),
    Family("long lists and line breaks", long_lists, check),
    Family("nested queries with line breaks", nested, check),
    Family("windows, orders, groups, relations, types", parts, check),
]


def main():
    bind.load()
    return run("C07", FAMILIES)
