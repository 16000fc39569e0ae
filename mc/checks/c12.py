"""C12: output schemas of queries against known tables, compared with a reference resolver, over relation trees x names, WITH
chains, correlated subqueries, catalogs of qualified tables."""
import importlib
import itertools

from .. import bind, gen, lang, resref, tyref
from ..core import Family, main as run
from ..gen import I1, INT, S1, col, fn, item, query, sel, tbl
from .common import *

REL = None
BIGT, V3, DBL = ("t", "BIGINT"), ("t", "VARCHAR", 3), ("t", "DOUBLE")
DATE = ("t", "DATE")
CATALOG = [
    (("t",), [("x", BIGT), ("y", V3), ("k", INT)]),
    (("u",), [("x", DBL), ("a", ("t", "ARRAY", INT)), ("z", DATE)]),
    (("v",), [("m", ("t", "MAP", V3, DBL)), ("g", ("t", "ARRAY", ("t", "ROW", (INT, V3)))), ("t", ("t", "REAL")), ("y", ("t", "CHAR", 7))]),
]
NAMES = ["x", "y", "k", "a", "z", "m", "g", "p", "r", "e", "zz"]
QUALS = [None, "t", "u", "v", "w", "c"]


def cat(tables=CATALOG):
    return [(k, [(n, t, True) for n, t in cols]) for k, cols in tables]


def lib_catalog(tables=CATALOG):
    fields = []
    ids = set()
    for k, cols in tables:
        table = bind.b_rel(("tbl", k))
        ids.add(k[-1])
        for n, t in cols:
            fields.append(REL.SchemaField(n, table, bind.b_type(t)))
    return REL.Schema(fields, relation_ids=ids)


def expected(q, tables=CATALOG):
    """-> Out, or None when a name is ambiguous"""
    try:
        return resref.query(q, resref.Env(cat(tables)))
    except resref.Ambiguous:
        return None


def fields(schema):
    return tuple((f.name, bind.r_type(f.data_type)) for f in schema.fields)


def resolve(obj, tables=CATALOG):
    step()
    return obj.resolve(lib_catalog(tables))


def check_on(q, tables, text=True, shared=False):
    exp = expected(q, tables)
    sql = render("query", q, MIN)
    objs = [("tree built for", lib_build("query", q))]
    if text:
        objs.append(("text", lib_read("query", sql)[0]))
    if shared:
        objs = [("tree built from shared parts for", lib_shared("query", q))]
    for what, obj in objs:
        if exp is None:
            try:
                got = resolve(obj, tables)
            except Exception:
                validated()
                continue
            raise Violation("an ambiguous column is resolved in %s %r: %s" % (what, sql, fields(got)))
        try:
            got = resolve(obj, tables)
        except Exception as e:
            raise Violation("resolving %s %r raised %s: %s" % (what, sql, type(e).__name__, str(e)[:300]))
        same(tuple((n, t) for n, t, _ in exp.cols), fields(got), "output columns of %s %r" % (what, sql))
        same(exp.dtype, bind.r_type(obj.data_type), "type of %s %r" % (what, sql))


def check(c):
    check_on(c, CATALOG)


def check_shared(c):
    check_on(c, CATALOG, False, True)


def shareable(tier):
    """equal tables, columns and subqueries being one object"""
    yield from gen.twins()
    for f in FAMILIES[:8] + FAMILIES[9:11]:
        step_ = {"joins and laterals x names": 24, "three relations x names": 24, "expressions": 4}.get(f.name, 6)
        for i, q in enumerate(f.gen("quick")):
            if i % (2 if tier == "thorough" else step_) == 0 and not any(named_queries(x) for x in q[1:]):
                yield q


def named_queries(n):
    """named queries below: a table object remembers the columns it was resolved to, so it isn't meant to stand for several of them"""
    if not isinstance(n, tuple):
        return False
    if len(n) == 6 and n[0] == "query" and n[1]:
        return True
    return any(named_queries(x) for x in n)


def probes(r, with_=(), names=NAMES, quals=QUALS, wrap=lambda q: q):
    """every name in the scope of a relation, every star"""
    good, bad = [], []
    for qual in quals:
        for n in names:
            e = col(n, qual)
            q = query(sel([item(e)], r), with_=with_)
            (bad if expected(wrap(q)) is None else good).append(e)
    for i in range(0, len(good), 25):
        yield wrap(query(sel([item(e) for e in good[i:i + 25]], r), with_=with_))
    for e in bad:
        yield wrap(query(sel([item(I1), item(e)], r), with_=with_))
    for qual in quals:
        yield wrap(query(sel([("star", qual)], r), with_=with_))
    yield wrap(query(sel([("astar", "t", ("p", "q")), item(col("y", "u"), "k"), ("star", "u")], r), with_=with_))
    yield wrap(query(sel([item(col("zz", "w")), ("star", None), item(I1)], r), with_=with_))


def batches(rs, **kw):
    for r in rs:
        yield from probes(r, **kw)


Tt, Tu, Tv, NO = tbl("t"), tbl("u"), tbl("v"), tbl("nope")
UN = [("unnest", (col("a", "u"),), False), ("unnest", (col("a"), ("arr", (S1, ("null",)))), True), ("unnest", (col("m"),), False), ("unnest", (col("g", "v"),), True), ("unnest", (col("zz"), ), True),
      ("unnest", (("fn", "COALESCE", (col("a", "t"), col("a", "w")), (), None, "RESPECT", None),), False)]


def sub(items, fr, **kw):
    return ("subq", query(sel(items, fr), **kw))


LEAVES = [Tt, Tu, Tv, NO, tbl("T"), tbl("s", "t"), sub([item(col("x"), "p"), item(col("y"))], Tt), sub([("star", None)], Tu), sub([item(I1, "x"), ("star", None), item(S1, "y")], NO), sub([item(("null",)), item(I1), ("star", None)], NO),
          ("subq", query(("values", (("row", (I1, S1)), ("row", (("null",), ("str", "abc"))))))), ("subq", query(("table", ("u",)))), ("subq", query(("table", ("nope",)))),
          ("subq", query(("setop", "UNION", "ALL", query(sel([("star", None)], Tt)), query(sel([item(col("x")), item(col("z")), item(I1)], Tu))))),
          ("unnest", (("arr", (I1, ("int", 3000000000))),), True), ("lateral", query(sel([item(col("k"), "x")], Tt)))]


def aliases(r):
    yield ("alias", r, "w", None)
    yield ("alias", r, "t", None)
    yield ("alias", r, "w", ("p", "r"))
    yield ("alias", r, "u", ("x", "y", "z", "e"))
    yield ("alias", r, "w", ("X",))


ON = ("on", ("cmp", "=", col("x"), col("y")))
JT = [("CROSS", False, None), ("INNER", False, ON), ("LEFT", False, ("using", ("x",))), ("INNER", False, ("using", ("y", "x"))), ("FULL", False, ("using", ("Y",))),
      ("RIGHT", True, None), ("INNER", True, None)]


def joins(ls, rs, jts=JT):
    for l in ls:
        for r in rs:
            for jt, nat, c in jts:
                yield ("join", jt, nat, l, r, c)


def level1():
    yield from LEAVES
    for r in LEAVES:
        yield from aliases(r)
        yield ("sample", r, "BERNOULLI", ("int", 10))


def level2(tier):
    ls = LEAVES + [("alias", Tu, "w", None), ("alias", Tu, "t", ("x", "y")), ("alias", LEAVES[6], "w", None), ("alias", LEAVES[8], "w", None), ("alias", NO, "w", ("x", "p"))]
    jts = JT if tier == "thorough" else JT[::2] + [JT[3]]
    yield from joins(ls, ls if tier == "thorough" else ls[:4] + ls[6:9] + ls[-5:], jts)
    for r in level1():
        if r[0] == "alias":
            yield from list(aliases(r))[::2]
            yield sub([("star", None)], r)
            yield sub([("star", r[2]), item(I1, "y")], r)
            yield ("sample", r, "SYSTEM", ("int", 1))
    for l in (Tu, Tv, ("alias", Tu, "w", None), NO, LEAVES[7]):
        for u in UN:
            for a in (None, ("w", None), ("t", ("e",)), ("w", ("e", "r", "y"))):
                r = u if a is None else ("alias", u, a[0], a[1])
                yield ("join", "CROSS", False, l, r, None)
                yield ("join", "LEFT", False, l, r, ("on", ("bool", True)))
        for e in (col("x", "u"), col("a"), col("z", "w"), col("zz")):
            lat = ("lateral", query(sel([item(e, "p"), item(col("x"))], Tt)))
            yield ("join", "CROSS", False, l, lat, None)
            yield ("join", "CROSS", False, l, ("alias", lat, "w", ("r",)), None)
            yield ("join", "CROSS", False, l, ("lateral", query(sel([item(e, "p")]))), None)
            # a derived table doesn't see its neighbours
            yield ("join", "CROSS", False, l, sub([item(e, "p")], Tt), None)
            yield ("join", "CROSS", False, l, ("alias", sub([item(e, "p")], None), "c", None), None)


def level3(tier):
    """joins of three, aliases of joins"""
    ls = [Tt, Tu, Tv, NO, ("alias", Tt, "w", ("x", "z")), ("alias", LEAVES[8], "w", None)]
    two = list(joins(ls[:5], ls[1:], JT[:1] + JT[2:4] + JT[6:]))
    for j in two if tier == "thorough" else two[::3]:
        for jt in (JT[0], JT[2], JT[6]):
            yield ("join",) + jt[:2] + (j, Tv, jt[2])
            yield ("join",) + jt[:2] + (("alias", Tu, "c", None), j, jt[2])
        yield ("alias", j, "w", None)
        yield ("alias", j, "c", ("p", "x", "r"))
        yield ("join", "CROSS", False, j, ("alias", ("unnest", (col("a"), col("a", "w")), False), "c", ("e", "k")), None)
        yield sub([("star", None)], j)
        yield sub([("star", "u"), ("star", "t")], j)


NARROW = ["x", "y", "z", "a", "p", "zz"]


def exprs():
    c = col
    yield from [("bin", "+", c("x", "t"), c("k")), ("cat", (c("y"), c("y", "t"))), ("sub", c("a"), I1), ("sub", c("m", "v"), S1), ("case", None, ((("bool", True), c("x")),), c("k")),
                fn("SUM", [c("k", "t")], flt=("isnull", c("y")), win=gen.win(None, [c("y")], [(c("zz"), "ASC", "LAST")])), fn("ARRAY_AGG", [c("z")]), ("row", (c("x"), c("y"), ("null",))),
                ("arr", (c("k"), c("x"))), ("cmp", "=", c("x"), c("y")), ("inq", c("k"), query(sel([item(c("x", "u"))], Tu))), ("q", query(sel([item(c("x")), item(c("y"))], Tt))),
                ("neg", c("x")), fn("COALESCE", [c("x"), ("null",), c("k")]), fn("MAX_BY", [c("a"), c("x")]), fn("COUNT", [("star", None)]), ("cast", c("x"), V3),
                ("listagg", c("y"), ",", None, ((c("x"), "ASC", "LAST"),)), ("bin", "-", c("z"), c("z")), lam_row()]


def lam_row():
    return ("row", (gen.lam(["x"], ("bin", "+", ("lvar", "x"), col("k"))), col("x")))


def expressions(tier):
    rs = [Tt, Tu, Tv, NO, ("join", "CROSS", False, Tt, ("alias", Tu, "w", ("e", "a", "z")), None), ("join", "INNER", False, Tt, Tu, ("using", ("x",))),
          ("join", "CROSS", False, Tt, Tu, None), None]
    es = list(exprs())
    for r in rs:
        for e in es:
            yield query(sel([item(e, "o")], r))
            yield query(sel([item(I1), item(e), ("star", "t")], r))
            yield query(("values", (("row", (e, I1)), ("row", (("null",), e)))))
            yield query(sel([item(("q", query(sel([item(e)], r))))], Tt))
            yield query(sel([item(("q", query(sel([item(e)]))))], r))
        for e, f in itertools.product(es, repeat=2):
            yield query(sel([item(("row", (e, f))), item(("bin", "+", e, f))], r))


# -- named queries
def cte_bodies(names):
    for n in names:
        yield query(sel([("star", None)], tbl(n)))
        yield query(sel([item(col("x", n)), item(col("p"))], tbl(n)))
    yield query(sel([item(I1, "x"), item(S1, "p")]))
    yield query(("table", (names[0],)))


def mains(names):
    for n in names:
        r = tbl(n)
        yield query(sel([("star", None)], r)), n
        yield query(("table", (n,))), n
        yield query(sel([item(col("x", n)), item(col("p"))], r)), n
        yield query(sel([item(col("x", n)), item(col("x", "w"))], ("alias", r, "w", None))), n
        yield query(sel([item(("q", query(sel([item(col("x"))], r))))], None)), n
        yield query(sel([("star", None)], ("subq", query(sel([("star", None)], r))))), n
        yield query(("setop", "EXCEPT", "DISTINCT", query(sel([item(col("x"))], r)), query(sel([item(col("x"))], Tt)))), n
        yield query(("setop", "UNION", "ALL", query(("values", (I1,))), query(sel([item(col("x"))], r)))), n
    yield query(sel([("star", None)], tbl("s", names[0]))), names[0]


def ctes(tier):
    names = ["t", "c", "T"] if tier == "thorough" else ["t", "c"]
    bs = list(cte_bodies(["t", "c", "u", "nope"]))
    ms = list(mains(names))
    for n in names:
        for cols in (None, ("x", "p"), ("p",)):
            for b in bs:
                for m, _ in ms:
                    yield with_(m, [(n, cols, b)])
    few = bs[::2] if tier == "thorough" else bs[::3]
    for n1, n2 in itertools.product(names, repeat=2):
        for b1, b2 in itertools.product(few, bs[:9]):
            for m, _ in ms[::3] if tier == "quick" else ms:
                yield with_(m, [(n1, None, b1), (n2, ("x", "p"), b2)])
    if tier == "thorough":
        for n1, n2, n3 in itertools.product(["t", "c"], repeat=3):
            for b1, b2, b3 in itertools.product(bs[:8:2], repeat=3):
                for m, _ in ms[:16:2]:
                    yield with_(m, [(n1, None, b1), (n2, ("x",), b2), (n3, None, b3)])


def with_(m, ws):
    return m[:1] + (tuple(ws),) + m[2:]


def nested_ctes(tier):
    """an inner WITH hides the outer one only inside"""
    a = query(sel([item(I1, "x"), item(S1, "p")]))
    b = query(sel([item(("cast", ("null",), DATE), "x"), item(("bool", True), "p")]))
    reads = [query(sel([("star", None)], tbl(n))) for n in ("c", "t", "u")] + [query(("table", ("c",)))]
    for n1, n2 in itertools.product(("c", "t", "C"), repeat=2):
        for r1, r2, r3 in itertools.product(reads, repeat=3):
            inner = with_(r1, [(n2, None, b)])
            for m in (query(sel([("star", None)], ("join", "CROSS", False, ("alias", ("subq", inner), "w", None), ("subq", r2), None))),
                      query(sel([("star", None)], ("join", "CROSS", False, ("subq", r2), ("subq", inner), None))),
                      query(sel([item(("row", (("q", inner), ("q", r2), ("q", r3))))], None)),
                      query(sel([item(("q", r3)), ("star", None)], ("join", "CROSS", False, ("lateral", inner), tbl("c"), None)))):
                yield with_(m, [(n1, None, a)])
                yield with_(m, [(n1, None, a), ("d", None, r2), (n2, ("p",), inner)])


# -- correlated subqueries
def correlated(tier):
    froms = [None, Tt, Tu, Tv, NO, ("alias", Tt, "u", None), ("alias", Tu, "w", ("e", "x")), ("join", "INNER", False, Tt, Tu, ("using", ("x",))), ("join", "CROSS", False, Tt, Tu, None),
             ("join", "CROSS", False, Tt, NO, None)]
    names = [col(n, q) for q in (None, "t", "u", "w") for n in ("x", "y", "a", "e")] + [col("zz"), col("y", "nope")]
    depth3 = froms if tier == "thorough" else froms[:3] + froms[4:7]
    for f1, f2 in itertools.product(froms, repeat=2):
        for e in names:
            q2 = query(sel([item(e)], f2))
            yield query(sel([item(("q", q2)), item(I1, "x")], f1))
            yield query(sel([item(("inq", e, q2))], f1))
            yield query(sel([("star", None)], ("join", "CROSS", False, Tv, ("subq", q2), None))) if f1 is None else query(sel([item(("q", query(("values", (e, ("q", q2))))))], f1))
            yield query(sel([item(("q", query(sel([item(col("o"))], ("alias", ("subq", query(sel([item(e, "o")], f2))), "o2", None)))))], f1))
            yield query(sel([item(("q", with_(query(sel([("star", None)], tbl("c"))), [("c", ("o",), q2)])))], f1))
            yield query(sel([item(("q", query(sel([item(e)], ("join", "CROSS", False, ("alias", Tv, "v2", None), ("alias", ("unnest", (("arr", (e,)),), False), "n", ("e",)), None)))))], f1))
    for f1, f2, f3 in itertools.product(depth3, repeat=3):
        for e in names[::2] if tier == "quick" else names:
            q3 = query(sel([item(e)], f3))
            yield query(sel([item(("q", query(sel([item(("q", q3))], f2))))], f1))
            if tier == "thorough":
                yield query(sel([item(("bin", "+", ("q", query(sel([item(("row", (I1, ("q", q3))))], f2), lim=1)), e))], f1))


# -- set operations
def sets(tier):
    ops = [query(sel([("star", None)], Tt)), query(sel([item(col("x"), "p"), item(col("z")), item(("null",))], Tu)), query(("values", (("row", (I1, S1, I1)),))), query(("table", ("t",))),
           query(("table", ("nope",))), query(sel([("star", None)], NO)), query(sel([item(I1), ("star", None)], NO)), query(sel([item(col("k")), item(col("zz"), "p"), item(col("y"))], Tt)),
           query(sel([item(col("x")), item(col("y"))], Tt)), query(sel([("astar", "t", ("p",))], Tt))]
    for a, b in itertools.product(ops, repeat=2):
        for op, quant in gen.SETOPS:
            s = query(("setop", op, quant, a, b))
            yield s
            yield query(sel([item(col("x")), item(col("p")), ("star", "w")], ("alias", ("subq", s), "w", None)))
            yield query(sel([("star", None)], ("alias", ("subq", s), "w", ("a", "b"))))
            yield query(sel([item(("q", s))], Tu))
            yield query(("table", ("c",)), with_=[("c", None, s)])
        for c in ops[::2] if tier == "quick" else ops:
            yield query(("setop", "UNION", "ALL", query(("setop", "EXCEPT", "DISTINCT", a, b)), c))
            yield query(("setop", "UNION", "ALL", a, query(("setop", "INTERSECT", "DISTINCT", b, c))))


# -- catalogs
SCH = [("t",), ("s", "t"), ("r", "t"), ("c", "s", "t"), ("d", "s", "t"), ("c", "r", "t"), ("T",), ("S", "t")]
REFS = [("t",), ("s", "t"), ("r", "t"), ("z", "t"), ("c", "s", "t"), ("d", "s", "t"), ("c", "z", "t"), ("T",), ("S", "T"), ("nope",)]
COLT = [BIGT, V3, DBL, DATE, ("t", "REAL")]


def catalogs(tier):
    for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for ks in itertools.combinations(SCH, n):
            if len({tuple(x.lower() for x in k) for k in ks}) != n:
                continue
            tables = tuple((k, (("x", COLT[i]), ("c%d" % i, INT))) for i, k in enumerate(ks))
            for order in (tables, tables[::-1]):
                for ref_ in REFS:
                    for q in (query(sel([("star", None)], tbl(*ref_))), query(sel([item(col("x", "t")), item(col("c1"))], tbl(*ref_))), query(("table", ref_)),
                              query(sel([item(col("x"))], tbl(*ref_)), with_=[("t", None, query(sel([item(I1, "x")])))])):
                        yield (order, q)


def check_catalog(c):
    tables, q = c
    check_on(q, tables, text=False)


def recase(n, up, names):
    if isinstance(n, tuple):
        return tuple(recase(x, up, names) for x in n)
    if isinstance(n, str) and n in names:
        return n.upper() if up else n
    return n


def cases(tier):
    """names differing only in case are the same"""
    for r in list(level1())[:40] + list(level2("quick"))[::9]:
        up = recase(r, True, set(NAMES) | {"t", "u", "v", "w", "c"})
        yield from probes(up, quals=[None, "t", "u", "w"], names=["x", "y", "a", "p"])


def bodies():
    """every kind of query, with unnamed columns, columns of one name, unknown columns at either end"""
    c = col
    yield query(sel([item(I1), item(S1, "y")]))
    yield query(sel([item(I1, "x"), item(S1, "x"), item(("null",))]))
    yield query(sel([item(("bin", "+", c("k"), I1)), item(c("y")), item(c("zz"), "p")], Tt))
    yield query(sel([("star", None), item(I1)], Tt), lim=0)
    yield query(sel([("star", "t"), ("star", "u")], ("join", "CROSS", False, Tt, Tu, None)), lim=1, ob=((c("k"), "ASC", "LAST"),))
    yield query(sel([("astar", "t", ("p", "x")), item(I1)], Tt))
    yield query(sel([item(I1), ("star", None), item(S1, "y")], NO))
    yield query(sel([("star", None)], ("unnest", (("arr", (S1,)), ("arr", (I1,))), True)))
    yield query(sel([item(fn("MAX", [c("x")])), item(c("y"))], Tt, gb=("ALL", (("set", (c("y"),)),))))
    yield query(("values", (I1, ("int", 3000000000))))
    yield query(("values", (("row", (S1, I1)), ("row", (("null",), ("null",))))))
    yield query(("table", ("u",)), lim=2)
    yield query(("setop", "INTERSECT", "DISTINCT", query(sel([item(I1), item(c("y"), "x")], Tt)), query(("values", (("row", (("dec", "1.5"), S1)),)))))
    yield query(sel([("star", None)], tbl("c")), with_=[("c", None, query(sel([item(I1), item(S1, "p")])))])
    yield query(("table", ("c",)), with_=[("c", ("x",), query(("table", ("u",))))])


def wrappers(tier):
    """every relation that holds a query x every kind of query"""
    for b in bodies():
        rs = [("subq", b), ("lateral", b), ("sample", ("subq", b), "BERNOULLI", ("int", 10)), ("sample", ("lateral", b), "SYSTEM", ("int", 1))]
        rs += [("alias", r, "w", cols) for r in rs[:3] for cols in (None, ("p",), ("x", "p", "r", "e"))]
        rs += [("sample", rs[4], "BERNOULLI", ("int", 1)), ("alias", ("sample", rs[5], "SYSTEM", ("int", 1)), "c", None)]
        rs += [("join", jt, nat, l, r, cr) for jt, nat, cr in (JT[0], JT[2], JT[5], JT[6]) for l, r in ((Tt, rs[0]), (rs[1], Tt), (Tu, ("alias", rs[1], "w", None)), (rs[4], rs[2]))]
        for r in rs:
            yield from probes(r, names=NARROW, quals=[None, "t", "w"])
        for e in (None, "o"):
            yield query(sel([item(("q", b), e), ("star", None)], Tt))
            yield query(sel([item(col("x", "d")), ("star", None)], tbl("d")), with_=[("d", e and (e, "x"), b)])
            yield query(("values", (("row", (("q", b), I1)), ("row", (("null",), ("q", b))))))
        for b2 in list(bodies())[:: 1 if tier == "thorough" else 4]:
            yield query(("setop", "UNION", "ALL", b if not b[1] else query(sel([("star", None)], ("subq", b))), b2 if not b2[1] else query(sel([("star", None)], ("subq", b2)))))


FAMILIES = [
    Family("relations x names", lambda t: batches(level1()), check),
    Family("joins and laterals x names", lambda t: batches(level2(t), names=NAMES if t == "thorough" else NARROW, quals=QUALS[:5]), check),
    Family("three relations x names", lambda t: batches(level3(t), names=NARROW, quals=QUALS), check),
    Family("expressions", expressions, check),
    Family("named queries", ctes, check),
    Family("nested named queries", nested_ctes, check),
    Family("correlated subqueries", correlated, check),
    Family("set operations", sets, check),
    Family("catalogs", catalogs, check_catalog),
    Family("case", cases, check),
    Family("relations around queries", wrappers, check),
    Family("one object in several places", shareable, check_shared),
]


def main():
    global REL
    bind.load()
    REL = importlib.import_module("treeno.relation")
    return run("C12", FAMILIES)
