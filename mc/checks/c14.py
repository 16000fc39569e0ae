"""C14: structural equality - all pairs inside pools of trees that differ in one place, and every one-point mutation of every
construct; oracle: identity of the neutral trees the objects were built from."""
import copy
import itertools

from .. import bind, gen, lang
from ..core import Family, main as run
from ..gen import A, Bc, C, I1, INT, S1, col, fn, item, lam, query, sel, tbl
from ..snap import snap
from . import c05
from .common import *

CACHE = {}


def kind_of(n):
    return "query" if n[0] == "query" else "type" if n[0] == "t" else "rel" if n[0] in ("tbl", "join", "alias", "sample", "unnest", "lateral", "subq") else "expr"


def make(n):
    k = kind_of(n)
    step()
    if k == "type":
        return bind.b_type(n)
    if k == "rel":
        return bind.b_rel(n)
    return bind.build(n)


def represents(n, obj):
    """does the object show everything that is in the neutral tree?"""
    k = kind_of(n)
    try:
        return (bind.r_type(obj) if k == "type" else bind.r_rel(obj) if k == "rel" else bind.r_query(obj) if k == "query" else bind.read(obj)) == n
    except Exception:
        return False


def eq(a, b, what):
    step()
    r = guarded("comparing " + what, a.equals, b)
    if r is not True and r is not False:
        raise Violation("comparing %s gives %r" % (what, r))
    try:
        a.assert_equals(b)
        ok = True
    except AssertionError:
        ok = False
    except Exception as e:
        raise Violation("assert_equals on %s raised %s: %s" % (what, type(e).__name__, e))
    if ok != r:
        raise Violation("equals and assert_equals disagree on %s" % what)
    return r


def expect(a, b, n, m):
    want_ = n == m
    for x, y, p, q in ((a, b, n, m), (b, a, m, n)):
        if eq(x, y, "%r with %r" % (p, q)) is not want_:
            raise Violation("%r and %r are %s but compare %s" % (p, q, "the same" if want_ else "different", "different" if want_ else "equal"))
    validated()


def self_check(n):
    a, b = make(n), make(n)
    before = snap(a)
    expect(a, a, n, n)
    expect(a, b, n, n)
    c = copy.deepcopy(a)
    expect(a, c, n, n)
    if snap(a) != before or snap(b) != before or snap(c) != before:
        raise Violation("comparing changed %r" % (n,))
    for o in (None, 1, "x", str(a), [a], (a,), object()):
        if eq(a, o, "%r with %r" % (n, o)):
            raise Violation("%r equals %r" % (n, o))


def pool_row(case):
    """one tree against all following ones of its pool"""
    name, i = case
    pool = POOLS[name]
    if name not in CACHE:
        CACHE.clear()
        CACHE[name] = [make(n) for n in pool]
    objs = CACHE[name]
    n = pool[i]
    fresh = make(n)
    expect(fresh, objs[i], n, n)
    for j in range(i + 1, len(pool)):
        if pool[j] != n:
            expect(fresh, objs[j], n, pool[j])


POOLS = {}
STRS = ("", "x", "X", "y", "it's", " ")
CONSTS = [("int", 0), ("int", 1), ("int", -1), ("dec", "1."), ("dec", "1.0"), ("dec", "1.00"), ("dec", ".1"), ("dbl", 1.0), ("dbl", 0.0), ("dbl", -0.0), ("dbl", 1e300), ("bool", True), ("bool", False), ("null",), ("str", ""), ("str", "1"),
          ("str", "1.0"), ("str", "a"), ("str", "A"), ("str", "NULL"), ("str", "true"), ("tc", "DECIMAL", "1"), ("tc", "DATE", "1"), ("tc", "DATE", "2"), ("tc", "VARCHAR", "1"), ("tc", "CHAR", "1"),
          ("iv", "1", "DAY", None), ("iv", "1", "DAY", "SECOND"), ("iv", "-1", "DAY", None), ("iv", "2", "DAY", None), ("iv", "1", "HOUR", None), ("iv", "1", "YEAR", "MONTH"), ("curr", "CURRENT_DATE", None),
          ("curr", "CURRENT_TIME", None), ("curr", "CURRENT_TIME", 6), ("curr", "CURRENT_TIME", 0), ("curr", "LOCALTIME", 6), ("curr", "CURRENT_TIMESTAMP", 6), ("curr", "CURRENT_USER", None),
          ("col", "a", None), ("col", "A", None), ("col", "b", None), ("col", "a", "t"), ("col", "a", "u"), ("col", "t", "a"), ("col", "a", ("row", (I1,))), ("col", "1", None), ("lvar", "a"),
          ("q", gen.q1(I1)), ("q", gen.q1(A)), ("row", (A,)), ("row", (A, A)), ("arr", (A,)), ("arr", (A, A)), fn("NOW", []), fn("COUNT", [("star", None)]), fn("COUNT", [A]), fn("SUM", [A])]


def uniq(xs):
    return list(dict.fromkeys(xs))


def fn_pool():
    out = []
    for name in ("COUNT", "SUM", "ARRAY_AGG"):
        for args in ([A], [Bc]):
            for ob in ((), [(A, "ASC", "LAST")], [(A, "DESC", "LAST")], [(A, "ASC", "FIRST")], [(Bc, "ASC", "LAST")], [(A, "ASC", "LAST"), (Bc, "ASC", "LAST")]):
                for flt in (None, A, Bc):
                    for nulls in ("RESPECT", "IGNORE"):
                        for w in (None, gen.win("w"), gen.win("W"), gen.win(None, [A])):
                            if nulls == "IGNORE" and w is None:
                                continue
                            out.append(fn(name, args, ob, flt, nulls, w))
    for name in sorted(__import__("mc.fnreg", fromlist=["FUNCS"]).FUNCS):
        from ..fnreg import arities
        for n in arities(name):
            for args in ([A] * n, [Bc] * n, ([A] * n)[:-1] + [Bc] if n > 1 else None):
                if args is not None:
                    out.append(fn(name, args))
    for v in (A, Bc):
        for sep in (",", ";", ""):
            for ov in (None, ("..", "WITHOUT COUNT"), ("..", "WITH COUNT"), ("", "WITH COUNT"), (None, "WITH COUNT")):
                for ob in (((A, "ASC", "LAST"),), ((A, "DESC", "LAST"),), ((A, "ASC", "LAST"), (Bc, "ASC", "LAST"))):
                    out.append(("listagg", v, sep, ov, ob))
        for f in ("NFC", "NFD", "NFKC", "NFKD"):
            out.append(("normalize", v, f))
    return out


def lambdas():
    for names in ((), ("x",), ("y",), ("x", "y"), ("y", "x")):
        for body in (A, ("col", "x", None), ("col", "x", "t"), ("bin", "+", ("col", "x", None), ("col", "y", None)), lam(["x"], ("col", "x", None)), lam(["y"], ("col", "x", None))):
            yield lam(list(names), body)


def build_pools():
    P = POOLS
    P["constants"] = CONSTS
    one = []
    for name, (n, f) in gen.K.items():
        if name != "field":
            one.append(f(*gen.SLOT[:n]))
            one.append(f(*([A] * n)))
    P["constructors"] = uniq(one + CONSTS[:20])
    for name, (n, f) in gen.K.items():
        out = []
        for i in range(n):
            for leaf in CONSTS + gen.LEAVES[4:30]:
                s = list(gen.SLOT[:n])
                s[i] = leaf
                if name != "field":
                    out.append(f(*s))
        if n == 2 and name != "field":
            for x, y in itertools.product(CONSTS[:1] + CONSTS[8:9] + CONSTS[36:44], repeat=2):
                out.append(f(x, y))
        P["slots of " + name] = uniq(out)
    P["functions"] = uniq(fn_pool())
    P["types in casts"] = [(k, A, t) for k in ("cast", "trycast") for t in list(c05.SMALL) + [("t", n) for n in c05.PLAIN if n != "UNKNOWN"] + [("t", "ARRAY", x) for x in c05.SMALL] +
                           [("t", "ROW", (x,)) for x in c05.SMALL] + [("t", "MAP", x, y) for x in c05.SMALL[:4] for y in c05.SMALL[:4]]]
    P["types"] = uniq(list(c05.leaves())[::3] + list(c05.wrap(c05.SMALL, c05.SMALL[:3])))
    P["lambdas"] = uniq(lambdas())
    P["windows"] = uniq([fn("SUM", [A], win=w) for w in gen.windows()])
    P["relations"] = uniq(list(gen.rel_leaves()) + list(gen.rel1(gen.T1)) + list(gen.rel1(gen.T2)) + [tbl("T"), tbl("t", "t"), tbl("s", "T"), tbl("d", "s", "t"), tbl("t", "s", "t")] +
                          [("alias", gen.T1, a, c) for a in ("z", "Z", "y") for c in (None, ("a",), ("b",), ("a", "b"), ("b", "a"))] +
                          [("sample", gen.T1, k, p) for k in ("BERNOULLI", "SYSTEM") for p in (("int", 10), ("int", 11), ("dec", "10."), ("dbl", 10.0))] +
                          [("unnest", a, o) for a in ((A,), (Bc,), (A, Bc), (Bc, A), (A, A)) for o in (False, True)] +
                          [("join", j, False, l, r, ("using", u)) for j in ("INNER", "LEFT", "RIGHT", "FULL") for l, r in ((gen.T1, gen.T2), (gen.T2, gen.T1)) for u in (("a",), ("b",), ("a", "b"), ("b", "a"))])
    P["queries"] = uniq([q if q[0] == "query" else query(q) for q in itertools.chain(gen.select_clauses(), gen.bodies_tails(), gen.setops(2))])
    P["groups"] = uniq([query(sel([item(A)], gen.T1, gb=g)) for g in gen.groupbys()])
    P["orders"] = uniq([query(sel([item(A)], gen.T1), ob=o, off=f, lim=l) for o in [()] + [(x,) for x in gen.orders()] + [((Bc, "ASC", "LAST"),), ((A, "ASC", "LAST"), (Bc, "ASC", "LAST")),
                                                                                                                    ((Bc, "ASC", "LAST"), (A, "ASC", "LAST"))]
                        for f in (None, 0, 1) for l in (None, 0, 1)])
    P["items"] = uniq([query(sel(list(i), gen.T1, quant=qn)) for qn in ("ALL", "DISTINCT") for n in (1, 2) for i in itertools.product(
        [item(A), item(A, "a"), item(A, "A"), item(Bc, "a"), ("star", None), ("star", "t"), ("star", "T"), ("star", ("row", (A,))), ("astar", "t", ("a",)), ("astar", "t", ("a", "b"))], repeat=n)])
    P["with"] = uniq([query(sel([item(A)], gen.T1), with_=w) for n in (0, 1, 2) for w in itertools.product(
        [("c", None, gen.q1(I1)), ("C", None, gen.q1(I1)), ("c", ("x",), gen.q1(I1)), ("c", ("X",), gen.q1(I1)), ("c", None, gen.q1(A)), ("c", ("x", "y"), gen.q1(I1))], repeat=n)] +
        [query(b, with_=[("c", None, gen.q1(I1))]) for b in (("table", ("t",)), ("values", (I1,)))] + [query(sel([item(A)], gen.T1), with_=[("c", None, query(sel([item(I1)]), lim=1))])])
    P["values"] = uniq([query(("values", v)) for n in (1, 2) for v in itertools.product([I1, A, ("row", (I1,)), ("row", (I1, A)), ("row", (A, I1)), ("arr", (I1,))], repeat=n)] +
                       [query(("table", t)) for t in (("t",), ("T",), ("s", "t"), ("c", "s", "t"))])
    P["named windows"] = uniq([query(sel([item(A)], gen.T1, wd=w)) for n in (0, 1, 2) for w in itertools.product(
        [("w", gen.win(None, [A])), ("W", gen.win(None, [A])), ("v", gen.win(None, [A])), ("w", gen.win(None, [Bc])), ("w", gen.win("v"))], repeat=n) if len({x[0] for x in w}) == n])


def rows(tier):
    for name, pool in POOLS.items():
        if tier != "thorough" and len(pool) > 400:
            for i in range(0, len(pool), len(pool) // 250 + 1):
                yield (name, i)
        else:
            for i in range(len(pool)):
                yield (name, i)


def mutations(n):
    """every tree differing in one place: a changed name, text, number, flag, element order, number of elements"""
    if isinstance(n, bool):
        yield not n
    elif isinstance(n, int):
        yield n + 1
        yield -n - 1
    elif isinstance(n, float):
        yield n + 1
        yield -n
    elif isinstance(n, str):
        yield n + "x"
        yield n.swapcase()
        yield n[:-1]
        for s in SWAPS.get(n, ()):
            yield s
    elif n is None:
        yield from ("x", 1, A, ("x",), ("int", 1))
    elif isinstance(n, tuple):
        for i, x in enumerate(n):
            for y in mutations(x):
                yield n[:i] + (y,) + n[i + 1:]
            if isinstance(x, tuple) and i:
                yield n[:i] + (None,) + n[i + 1:]
                yield n[:i] + ((),) + n[i + 1:]
        for i in range(len(n)):
            yield n[:i] + n[i + 1:]
            yield n[:i] + (n[i],) + n[i:]
            for j in range(i + 1, len(n)):
                yield n[:i] + (n[j],) + n[i + 1:j] + (n[i],) + n[j + 1:]
        if n and isinstance(n[0], str) and n[0] in ("col", "int", "str", "bin", "row", "fn", "q"):
            yield from (A, ("int", 7), ("row", (n,)), ("neg", n), ("not", n), ("pos", n))


SWAPS = {}
for _g in ("+ - * / %", "= <> < <= > >=", "and or", "cast trycast", "neg pos not isnull", "ASC DESC", "FIRST LAST", "ALL DISTINCT", "INNER LEFT RIGHT FULL", "UNION EXCEPT INTERSECT", "RANGE ROWS GROUPS", "P F CR UP UF",
           "BERNOULLI SYSTEM", "rollup cube", "arr row", "RESPECT IGNORE", "SUM COUNT MAX MIN AVG", "NFC NFD NFKC NFKD", "YEAR MONTH DAY HOUR MINUTE SECOND", "INTEGER BIGINT DOUBLE VARCHAR CHAR", "TIME TIMESTAMP",
           "cmp dist"):
    for _a in _g.split():
        SWAPS[_a] = [b for b in _g.split() if b != _a]


def mutant(case):
    n, m = case
    a = make(n)
    if not represents(n, a):
        bump("bases not shown exactly")
        return
    b = make(m)
    expect(a, b, n, m)
    expect(a, make(n), n, n)


def mutant_cases(bases):
    for n in bases:
        for m in dict.fromkeys(mutations(n)):
            if m == n and repr(m) == repr(n):
                continue
            try:
                o = make(m)
            except Exception:
                continue
            if represents(m, o) and m != n:
                yield n, m


def all_mutants(n):
    """every one-point mutation of one tree (that is again a tree)"""
    for c in mutant_cases([n]):
        mutant(c)


def bases(tier):
    yield from gen.level1()
    yield from gen.frames_queries() if hasattr(gen, "frames_queries") else ()
    yield from list(gen.windows_exprs()) if hasattr(gen, "windows_exprs") else [fn("SUM", [A], win=w) for w in gen.windows()]
    qs = list(gen.bodies_tails()) + [query(b) for b in gen.select_clauses()] + list(gen.setops(2))
    yield from qs if tier == "thorough" else qs[::12]
    rel = [query(sel([item(A)], r)) for r in gen.relations(1)]
    yield from rel if tier == "thorough" else rel[::2]
    yield from P_fn(tier)
    l2 = list(gen.level2_pairs())
    yield from l2 if tier == "thorough" else l2[::40]


def P_fn(tier):
    p = fn_pool()
    return p if tier == "thorough" else p[::9]


def selfs(tier):
    yield from gen.exprs("quick")
    yield from gen.queries("quick")
    for n in (10, 100, 400):
        x, y, z = A, A, A
        for i in range(n):
            x = ("bin", "+", x, A)
            y = ("bin", "+", A, y) if i % 2 else ("neg", y)
        yield x
        yield y
        yield ("row", (A,) * n)
        yield query(("values", (I1,) * n))


FAMILIES = [
    Family("identical trees", selfs, self_check),
    Family("all pairs in pools", rows, pool_row),
    Family("one-point mutations", bases, all_mutants),
]


def main():
    bind.load()
    build_pools()
    return run("C14", FAMILIES)
