"""Exhaustive bounded enumeration of neutral trees (the alphabet, the constructors and the nesting bound are all here)."""
import itertools

from . import harvest
from .lang import NOFRAME, bind, mk_query


def col(n, t=None):
    return ("col", n, t)


A, Bc, C, D, X = col("a"), col("b"), col("c"), col("d"), col("x")
SLOT = [A, Bc, C, D]
I1, I2, S1 = ("int", 1), ("int", 2), ("str", "s")


def fn(name, args, ob=(), flt=None, nulls="RESPECT", win=None):
    return ("fn", name, tuple(args), tuple(ob), flt, nulls, win)


def win(parent=None, parts=(), ob=(), fr=NOFRAME):
    return ("win", parent, tuple(parts), tuple(ob), fr)


def sel(items, fr=None, wh=None, quant="ALL", gb=None, hv=None, wd=()):
    return ("select", quant, tuple(items), fr, wh, gb, hv, tuple(wd))


def item(e, alias=None):
    return ("item", e, alias)


def query(body, ob=(), off=None, lim=None, with_=()):
    return ("query", tuple(with_), body, tuple(ob), off, lim)


def tbl(*n):
    return ("tbl", n)


T1, T2, T3 = tbl("t"), tbl("u"), tbl("v")


def q1(e, **kw):
    return query(sel([item(e)], **kw))


def lam(names, body):
    return ("lam", tuple(names), bind(body, frozenset(names)))


INT, BIGINT, DOUBLE, VARCHAR = ("t", "INTEGER"), ("t", "BIGINT"), ("t", "DOUBLE"), ("t", "VARCHAR", None)

# --- leaves -------------------------------------------------------------------------------------------------------
LEAVES = [
    A, col("b", "t"), ("int", 0), ("int", 1), ("int", -1), ("int", -9223372036854775808), ("int", 9223372036854775807), ("dec", "1.5"), ("dec", "."  + "50"),
    ("dec", "-2.0"), ("dec", "1."), ("dbl", 1.5), ("dbl", -2.5e10), ("str", ""), ("str", "it's"), ("str", "x"), ("bool", True), ("bool", False), ("null",),
    ("tc", "DATE", "2020-01-01"), ("tc", "DECIMAL", "1.2"), ("tc", "TIMESTAMP", "2020-01-01 00:00:00"), ("tc", "DOUBLE", "1"),
    ("iv", "1", "DAY", None), ("iv", "-3", "MONTH", None), ("iv", "2 3", "DAY", "HOUR"), ("iv", "1-2", "YEAR", "MONTH"),
    ("curr", "CURRENT_DATE", None), ("curr", "CURRENT_TIMESTAMP", 6), ("curr", "LOCALTIME", 3), ("curr", "CURRENT_USER", None),
    col("select"), col("A b"), col('q"q'), col("x.y", "T"), fn("COUNT", [("star", None)]), fn("NOW", []),
]
TYPES = [INT, ("t", "DECIMAL", 10, 2), VARCHAR, ("t", "VARCHAR", 5), ("t", "CHAR", 3), ("t", "TIMESTAMP", 3, True), ("t", "TIME", 6, False),
         ("t", "ARRAY", BIGINT), ("t", "MAP", VARCHAR, INT), ("t", "ROW", (INT, ("t", "ARRAY", DOUBLE))), ("t", "INTERVAL", "DAY", "SECOND"),
         ("t", "DOUBLE"), ("t", "JSON")]

# --- constructors: name -> (number of expression slots, builder) ------------------------------------------------------
K = {}


def k(name, n):
    def deco(f):
        K[name] = (n, f)
        return f
    return deco


for _o in "+-*/%":
    K["bin" + _o] = (2, lambda a, b, o=_o: ("bin", o, a, b))
for _o in ("=", "<>", "<", "<=", ">", ">="):
    K["cmp" + _o] = (2, lambda a, b, o=_o: ("cmp", o, a, b))
K["cat"] = (2, lambda a, b: ("cat", (a, b)))
K["neg"] = (1, lambda a: ("neg", a))
K["pos"] = (1, lambda a: ("pos", a))
K["not"] = (1, lambda a: ("not", a))
K["isnull"] = (1, lambda a: ("isnull", a))
K["notnull"] = (1, lambda a: ("not", ("isnull", a)))
K["and"] = (2, lambda a, b: ("and", a, b))
K["or"] = (2, lambda a, b: ("or", a, b))
K["btw"] = (3, lambda a, b, c: ("btw", a, b, c))
K["notbtw"] = (3, lambda a, b, c: ("not", ("btw", a, b, c)))
K["in1"] = (2, lambda a, b: ("in", a, (b,)))
K["in2"] = (3, lambda a, b, c: ("in", a, (b, c)))
K["notin"] = (2, lambda a, b: ("not", ("in", a, (b,))))
K["inq"] = (2, lambda a, b: ("inq", a, q1(b)))
K["notinq"] = (2, lambda a, b: ("not", ("inq", a, q1(b, fr=T1))))
K["like"] = (2, lambda a, b: ("like", a, b, None))
K["likeesc"] = (3, lambda a, b, c: ("like", a, b, c))
K["notlike"] = (2, lambda a, b: ("not", ("like", a, b, None)))
K["notlikeesc"] = (3, lambda a, b, c: ("not", ("like", a, b, c)))
K["dist"] = (2, lambda a, b: ("dist", a, b))
K["notdist"] = (2, lambda a, b: ("not", ("dist", a, b)))
K["case"] = (2, lambda a, b: ("case", None, ((a, b),), None))
K["casee"] = (3, lambda a, b, c: ("case", None, ((a, b),), c))
K["case2"] = (4, lambda a, b, c, d: ("case", None, ((a, b), (c, d)), None))
K["casev"] = (4, lambda a, b, c, d: ("case", a, ((b, c),), d))
K["cast"] = (1, lambda a: ("cast", a, INT))
K["trycast"] = (1, lambda a: ("trycast", a, ("t", "DECIMAL", 10, 2)))
K["arr1"] = (1, lambda a: ("arr", (a,)))
K["arr2"] = (2, lambda a, b: ("arr", (a, b)))
K["row1"] = (1, lambda a: ("row", (a,)))
K["row2"] = (2, lambda a, b: ("row", (a, b)))
K["row3"] = (3, lambda a, b, c: ("row", (a, b, c)))
K["sub"] = (2, lambda a, b: ("sub", a, b))
K["lam1"] = (1, lambda a: lam(["x"], a))
K["lam2"] = (1, lambda a: lam(["x", "y"], a))
K["lam0"] = (1, lambda a: lam([], a))
K["sum"] = (1, lambda a: fn("SUM", [a]))
K["try"] = (1, lambda a: fn("TRY", [a]))
K["coalesce"] = (2, lambda a, b: fn("COALESCE", [a, b]))
K["if3"] = (3, lambda a, b, c: fn("IF", [a, b, c]))
K["maxby"] = (2, lambda a, b: fn("MAX_BY", [a, b]))
K["fnfilter"] = (2, lambda a, b: fn("COUNT", [a], flt=b))
K["fnorder"] = (2, lambda a, b: fn("ARRAY_AGG", [a], ob=[(b, "DESC", "FIRST")]))
K["fnover"] = (3, lambda a, b, c: fn("SUM", [a], win=win(None, [b], [(c, "ASC", "LAST")])))
K["fnframe"] = (2, lambda a, b: fn("SUM", [I1], win=win(None, [], [(C, "DESC", "LAST")], ("ROWS", ("P", a), ("F", b)))))
K["fnignore"] = (1, lambda a: fn("MAX", [a], nulls="IGNORE", win=win("w")))
K["fnall"] = (4, lambda a, b, c, d: fn("ARRAY_AGG", [a], [(b, "ASC", "FIRST")], c, "IGNORE", win(None, [d])))
K["listagg"] = (2, lambda a, b: ("listagg", a, " ", None, ((b, "ASC", "LAST"),)))
K["listaggo"] = (2, lambda a, b: ("listagg", a, ",", ("..", "WITHOUT COUNT"), ((b, "DESC", "FIRST"),)))
K["normalize"] = (1, lambda a: ("normalize", a, "NFKC"))
K["subq"] = (1, lambda a: ("q", q1(a)))
K["subqw"] = (2, lambda a, b: ("q", query(sel([item(a, "z")], T1, b), lim=1)))
# field of a row-valued base: only bases that are primaries and not names
K["field"] = (1, lambda a: ("col", "f", a))

FIELD_BASES = {"row", "sub", "fn", "case", "cast", "trycast", "arr", "q", "normalize", "listagg", "curr", "null", "tc", "iv", "str", "bool"}


def legal(name, slots):
    """Combinations that are not one tree in the language (a dotted name has its own meaning; see DESIGN.md)."""
    if name == "field":
        b = slots[0]
        return b[0] in FIELD_BASES
    if name == "sub" and slots[0][0] in ("int", "dec", "dbl"):
        return True
    return True


def mk(name, slots):
    n, f = K[name]
    return f(*slots)


def level1():
    """every constructor over plain columns (one per slot)"""
    for name, (n, f) in K.items():
        s = SLOT[:n] if name != "field" else [("row", (A, Bc))]
        yield f(*s)


def level1_leaves():
    """every constructor x every slot x every leaf"""
    for name, (n, f) in K.items():
        for i in range(n):
            for leaf in LEAVES + [("lvar", "x")] * 0:
                s = SLOT[:n]
                s[i] = leaf
                if legal(name, s):
                    yield f(*s)


PLAIN = [("null",), ("bool", True), ("bool", False), ("int", 0), ("int", 1), ("str", ""), ("dec", ".0")]


def leaf_pairs(values=PLAIN):
    """every constructor with plain values (neutral elements, NULL, ...) in two of its slots or in all"""
    for name, (n, f) in K.items():
        for i, j in itertools.combinations(range(n), 2):
            for v, w in itertools.product(values, repeat=2):
                s = SLOT[:n]
                s[i], s[j] = v, w
                if legal(name, s):
                    yield f(*s)
        if n > 2:
            for v in values:
                if legal(name, [v] * n):
                    yield f(*[v] * n)


def types_cast():
    for t in TYPES:
        yield ("cast", A, t)
        yield ("trycast", ("cast", A, t), t)


def holes(inner, names=None):
    """every constructor x every slot with an inner tree in the slot"""
    for name in names or K:
        n, f = K[name]
        for i in range(n):
            s = SLOT[:n]
            s[i] = inner
            if legal(name, s):
                yield f(*s)


def level2():
    for inner in level1():
        yield from holes(inner)


# one representative per precedence/printing behaviour, used for the deeper bounds
CORE = ["bin+", "bin-", "bin*", "bin%", "cmp=", "cmp<>", "cmp<", "cat", "neg", "pos", "not", "isnull", "notnull", "and", "or", "btw", "notbtw",
        "in2", "inq", "likeesc", "notlike", "dist", "notdist", "casev", "cast", "row1", "row2", "sub", "lam1", "arr2", "sum", "subq", "coalesce"]


def core1():
    for name in CORE:
        n, f = K[name]
        yield f(*SLOT[:n])


def level2_pairs(names=None):
    """both first slots of every multi-slot operator filled with level-1 core trees"""
    ones = list(core1())
    for name in names or CORE:
        n, f = K[name]
        if n < 2:
            continue
        for i, j in itertools.combinations(range(n), 2):
            for x in ones:
                for y in ones:
                    s = SLOT[:n]
                    s[i], s[j] = x, y
                    if legal(name, s):
                        yield f(*s)


def level3(names=None, inner=None):
    for c in inner or core1():
        for b in holes(c, names or CORE):
            yield from holes(b, names or CORE)


CHAIN = ["bin-", "bin*", "cat", "cmp=", "neg", "not", "and", "or", "isnull"]


def chains(depth, names=CHAIN):
    """all nestings of the precedence chain operators to a depth, every hole"""
    if depth == 0:
        yield D
        return
    for c in chains(depth - 1, names):
        yield from holes(c, names)


# --- windows ------------------------------------------------------------------------------------------------------
BOUNDS = [("UP",), ("P", I1), ("CR",), ("F", I2), ("UF",)]


def frames():
    for ft in ("RANGE", "ROWS", "GROUPS"):
        for a in BOUNDS:
            for b in BOUNDS:
                yield (ft, a, b)


def windows():
    obs = [(), ((Bc, "ASC", "LAST"),), ((Bc, "DESC", "FIRST"), (C, "ASC", "FIRST"))]
    for parent in (None, "w", "A w"):
        for parts in ((), (A,), (A, ("bin", "+", Bc, I1))):
            for ob in obs:
                yield win(parent, parts, ob)
    for fr in frames():
        yield win(None, (), ((Bc, "ASC", "LAST"),), fr)
        yield win("w", (), (), fr)
        yield win(None, (A,), obs[2], fr)


def orders():
    for o in ("ASC", "DESC"):
        for n in ("FIRST", "LAST"):
            yield (A, o, n)


# --- relations ----------------------------------------------------------------------------------------------------
def rel_leaves():
    yield T1
    yield tbl("s", "t")
    yield tbl("c", "s", "t")
    yield tbl("A b", "select", 'q"t')
    yield ("subq", q1(A, fr=T1))
    yield ("subq", query(("values", (I1, I2))))
    yield ("subq", query(("table", ("t",))))
    yield ("subq", query(("setop", "UNION", "ALL", q1(A), q1(Bc))))
    yield ("unnest", (("arr", (I1, I2)),), False)
    yield ("unnest", (A, Bc), True)
    yield ("lateral", q1(A))


CRIT = [("on", ("cmp", "=", col("a", "t"), col("b", "u"))), ("using", ("a", "B c"))]
JOINS = [("CROSS", False, None)] + [(j, True, None) for j in ("INNER", "LEFT", "RIGHT", "FULL")] + [
    (j, False, c) for j in ("INNER", "LEFT", "RIGHT", "FULL") for c in CRIT]
JCORE = [("CROSS", False, None), ("INNER", True, None), ("LEFT", False, CRIT[0]), ("FULL", False, CRIT[1])]


def rel1(inner, joins=JOINS, other=T2):
    """every relation constructor around one relation, in every position"""
    yield ("alias", inner, "z", None)
    yield ("alias", inner, "Z z", ("p", 'q"'))
    yield ("sample", inner, "BERNOULLI", ("int", 10))
    yield ("sample", inner, "SYSTEM", ("bin", "*", A, ("dec", "1.5")))
    for jt, nat, c in joins:
        yield ("join", jt, nat, inner, other, c)
        yield ("join", jt, nat, other, inner, c)
    yield ("subq", query(sel([("star", None)], inner)))
    yield ("lateral", query(sel([item(A)], inner)))


def relations(depth=2):
    base = list(rel_leaves())
    lv = base
    yield from base
    for d in range(depth):
        nxt = []
        for r in lv:
            for r2 in rel1(r, JOINS if d == 0 else JCORE, T2 if d % 2 == 0 else T3):
                yield r2
                nxt.append(r2)
        lv = nxt if d else [r for r in nxt if True]
        if d == 0:
            # keep one representative base for the next level, plus all shapes over the plain table
            lv = [r for r in rel1(T1, JOINS)] + [r for b in base[4:] for r in rel1(b, JCORE)]


# --- group by ----------------------------------------------------------------------------------------------------
def groups():
    sets = [("set", ()), ("set", (A,)), ("set", (A, Bc)), ("set", (("row", (A, Bc)),)), ("set", (("bin", "+", A, I1),))]
    yield from sets
    for kind in ("rollup", "cube"):
        yield (kind, (A,))
        yield (kind, (A, ("row", (Bc, C))))
    for s in sets:
        yield ("gsets", (s,))
        for s2 in sets:
            yield ("gsets", (s, s2))


def groupbys():
    gs = list(groups())
    for g in gs:
        for quant in ("ALL", "DISTINCT"):
            yield (quant, (g,))
    for a in gs[:9]:
        for b in gs[:12]:
            yield ("ALL", (a, b))


# --- queries -----------------------------------------------------------------------------------------------------
def select_clauses():
    """every subset of the clauses of a select query (two alternatives for some)"""
    items = [[item(A)], [("star", None)], [item(A, "z"), item(fn("SUM", [Bc]), "Y y"), ("star", "t"), ("astar", "t", ("p", "Q q"))]]
    for its in items:
        for quant in ("ALL", "DISTINCT"):
            for fr in (None, T1, ("join", "LEFT", False, T1, T2, CRIT[0])):
                for wh in (None, ("and", A, Bc)):
                    for gb in (None, ("ALL", (("set", (A,)),))):
                        for hv in (None, ("cmp", ">", fn("SUM", [A]), I1)):
                            for wd in ((), (("w", win(None, [A])), ("W 2", win("w", (), [(Bc, "DESC", "LAST")])))):
                                yield sel(its, fr, wh, quant, gb, hv, wd)


TAILS = [(ob, off, lim) for ob in ((), ((A, "ASC", "LAST"),), ((A, "DESC", "FIRST"), (I2, "ASC", "FIRST"))) for off in (None, 0, 3) for lim in (None, 0, 5)]
WITHS = [(), (("x", None, q1(A)),), (("x", ("p", 'Q "q'), q1(A)), ("Y y", None, query(("values", (I1,)), lim=1)))]


SETOPS = (("UNION", "ALL"), ("UNION", "DISTINCT"), ("INTERSECT", "DISTINCT"), ("EXCEPT", "DISTINCT"))


def bodies():
    yield sel([item(A)])
    yield sel([("star", None)], T1, A)
    yield ("table", ("t",))
    yield ("table", ("A b", "s", "t"))
    yield ("values", (I1,))
    yield ("values", (("row", (I1, S1)), ("row", (I2, S1))))
    for s, quant in SETOPS:
        yield ("setop", s, quant, q1(A, fr=T1), query(("table", ("u",))))


def bodies_tails():
    for b in bodies():
        for ob, off, lim in TAILS:
            for w in WITHS:
                yield query(b, ob, off, lim, w)


def setops(depth):
    """set-operation trees; operands may carry their own ORDER BY / OFFSET / LIMIT"""
    if depth == 0:
        yield q1(A)
        yield query(("table", ("t",)))
        return
    yield from setops(0)
    for l in setops(depth - 1):
        for s, quant in SETOPS:
            yield query(("setop", s, quant, l, q1(Bc)))
            yield query(("setop", s, quant, q1(Bc), l))
            if s != "UNION" or quant == "ALL":
                yield query(("setop", s, quant, l, l))


def setop_operands():
    tails = [t for t in TAILS if t != ((), None, None)]
    for ob, off, lim in tails:
        for b in (sel([item(A)]), ("table", ("t",)), ("values", (I1, I2)), ("setop", "UNION", "ALL", q1(A), q1(C))):
            o = query(b, ob, off, lim)
            for s, quant in SETOPS:
                yield query(("setop", s, quant, o, q1(Bc)))
                yield query(("setop", s, quant, q1(Bc), o), lim=2)


def query_positions(q):
    """a query in every place a query may stand"""
    yield q
    yield query(sel([("star", None)], ("subq", q)))
    yield query(sel([("star", None)], ("alias", ("subq", q), "z", ("p",))))
    yield query(sel([item(A)], ("join", "INNER", False, T1, ("alias", ("lateral", q), "z", None), CRIT[0])))
    yield query(sel([item(("q", q))], T1))
    yield query(sel([item(A)], T1, ("inq", A, q)))
    yield query(sel([item(A)], tbl("x")), with_=[("x", None, q)])
    if not q[1]:
        yield query(("setop", "UNION", "ALL", q, q1(D)))
        yield query(("setop", "EXCEPT", "DISTINCT", q1(D), q), ((A, "ASC", "LAST"),), None, 1)
    yield query(sel([item(A)], T1, gb=("ALL", (("set", (("q", q),)),)), hv=("cmp", "=", ("q", q), I1)))


def expr_positions(e):
    """an expression in every clause of a query"""
    yield q1(e)
    yield query(sel([item(e, "z"), item(A)], T1))
    yield query(sel([item(A)], T1, e))
    yield query(sel([item(A)], T1, gb=("ALL", (("set", (e,)), ("set", (A, e))))))
    yield query(sel([item(A)], T1, gb=("ALL", (("rollup", (e,)), ("gsets", (("set", (e,)),))))))
    yield query(sel([item(A)], T1, gb=("ALL", (("set", (A,)),)), hv=e))
    yield query(sel([item(A)], T1, wd=[("w", win(None, [e], [(e, "DESC", "FIRST")]))]))
    yield query(sel([item(A)], T1), ob=[(e, "ASC", "LAST"), (e, "DESC", "LAST")])
    yield query(sel([item(A)], ("join", "LEFT", False, T1, T2, ("on", e))))
    yield query(sel([item(A)], ("unnest", (e, A), False)))
    yield query(sel([item(A)], ("sample", T1, "SYSTEM", e)))
    yield query(("values", (e, I1)))


def leaf_positions():
    """every leaf in every clause and as criterion of every kind of join"""
    for e in LEAVES:
        yield from expr_positions(e)
        for kind in ("INNER", "RIGHT", "FULL"):
            yield query(sel([item(A)], ("join", kind, False, T1, T2, ("on", e))))
            yield query(sel([item(A)], T1, e, hv=e), ob=[(e, "ASC", "FIRST")])
        yield query(sel([item(A)], ("join", "LEFT", False, ("join", "INNER", False, T1, T2, ("on", e)), T1, ("on", e))))
        yield query(sel([item(e)], T1, quant="DISTINCT"))
        yield query(sel([item(e), item(e, "x")]))
        yield query(("values", (e,)))
        yield query(sel([("star", None)], ("unnest", (e,), True)))
        yield query(sel([item(A)], ("sample", T1, "BERNOULLI", e)))


def all_window_queries():
    for w in windows():
        yield query(sel([item(fn("SUM", [A], win=w))], T1))
        yield query(sel([item(fn("SUM", [A], win=win("v")))], T1, wd=[("v", w)]))


def queries(tier="quick"):
    for b in select_clauses():
        yield query(b)
    yield from bodies_tails()
    yield from setops(2)
    yield from setop_operands()
    for gb in groupbys():
        yield query(sel([item(A)], T1, gb=gb))
    yield from all_window_queries()
    yield from query_lists()
    yield from row_counts()
    yield from twins()
    yield from query_towers()
    for r in relations(2):
        yield query(sel([("star", None)], r))
    for e in level1():
        yield from expr_positions(e)
    yield from leaf_positions()
    for b in bodies():
        for t in TAILS[::4]:
            for w in WITHS[:2]:
                yield from query_positions(query(b, *t, w))
    if tier == "thorough":
        yield from setops(3)
        for b in list(select_clauses())[::5]:
            for t in TAILS[::6]:
                for w in WITHS:
                    yield from query_positions(query(b, *t, w))
        for r in relations(3):
            yield query(sel([("star", None)], r))
        for e in level1_leaves():
            yield from expr_positions(e)
        ones = list(core1())
        for e in ones:
            for f in holes(e, CORE):
                yield from expr_positions(f)


def exprs(tier="quick"):
    yield from LEAVES
    yield from level1()
    yield from level1_leaves()
    yield from leaf_pairs(PLAIN[:3])
    yield from types_cast()
    yield from level2()
    yield from expr_lists()
    yield from repetition(tier)
    yield from chains(3)
    if tier == "thorough":
        yield from level2_pairs()
        yield from level3()
        yield from chains(4)


# --- lists: every list-valued place x every short sequence of equal, nearly equal and different entries; long lists ----------
def sequences(alphabet, n, distinct=False, long=None):
    for k_ in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k_):
            if not distinct or len(set(t)) == k_:
                yield t
    for k_ in LONG if long is None else long:
        if distinct:
            yield tuple("%s%d" % (alphabet[0], i) if isinstance(alphabet[0], str) else alphabet[0] for i in range(k_))
        else:
            yield tuple(alphabet[(i * i + i // 3) % len(alphabet)] for i in range(k_))


ENTRIES = [A, col("A"), I1, ("bin", "+", A, I1)]
NAMES3 = ["a", "A", "b"]


def expr_lists():
    for s in sequences(ENTRIES, 3):
        yield ("in", A, s)
        yield ("not", ("in", s[-1], s))
        yield ("arr", s)
        yield ("row", s)
        yield fn("COALESCE", (A,) + s)
        yield fn("CONCAT", s) if len(s) > 1 else ("cat", s + s)
        yield ("case", None, tuple((e, A) for e in s), None)
        yield ("case", A, tuple((A, e) for e in s), s[-1])
        terms = [(e, ("ASC", "DESC")[i % 2], ("LAST", "FIRST")[i // 2 % 2]) for i, e in enumerate(s)]
        yield fn("ARRAY_AGG", [A], ob=terms)
        yield fn("SUM", [A], win=win(None, s))
        yield fn("SUM", [A], win=win(None, s[:1], terms))
        yield ("listagg", A, ",", None, tuple(terms))
    for s in sequences(["x", "X", "y"], 3, True):
        yield lam(s, fn("COALESCE", [col(v) for v in s] + [A]))
        yield lam(s, ("arr", (col(s[-1]), col(s[0]), col("t"))))


def query_lists():
    for s in sequences(ENTRIES, 3):
        items = [item(e) for e in s]
        terms = tuple((e, ("ASC", "DESC")[i % 2], ("LAST", "FIRST")[i // 2 % 2]) for i, e in enumerate(s))
        yield query(sel(items, T1))
        yield query(sel(items, T1, quant="DISTINCT"), terms)
        yield query(sel([item(A)], T1, gb=("ALL", tuple(("set", (e,)) for e in s))))
        yield query(sel([item(A)], T1, gb=("ALL", (("set", s),) if len(s) > 1 else (("set", ()), ("set", ())))))
        for kind in ("rollup", "cube"):
            yield query(sel([item(A)], T1, gb=("ALL", ((kind, s), (kind, s)))))
        yield query(sel([item(A)], T1, gb=("ALL", (("gsets", tuple(("set", (e,)) for e in s) + (("set", ()),)),))))
        yield query(sel([item(A)], T1, wd=(("w", win(None, s, terms)),)))
        yield query(("values", s))
        yield query(("values", tuple(("row", (e, e)) for e in s)))
        yield query(sel([("star", None)], ("unnest", s, True)))
    for s in sequences(NAMES3, 3):
        yield query(sel([item(A, n) for n in s], T1))
        yield query(sel([("star", n) for n in s], T1))
        yield query(sel([("astar", "t", s)], T1))
        yield query(sel([item(A)], ("alias", T1, "z", s)))
        yield query(sel([item(A)], T1), with_=[("x", s, q1(A))])
        yield query(sel([item(A)], ("join", "FULL", False, T1, T2, ("using", s))))
        if len(s) <= 3:
            yield query(sel([item(A)], tbl(*s)))
            yield query(("table", s))
    for s in sequences(NAMES3, 3, True):
        yield query(sel([item(A)], tbl(s[0])), with_=[(n, None, q1(("int", i))) for i, n in enumerate(s)])
        yield query(sel([item(A)], tbl(s[-1])), with_=[(n, (n,), q1(A)) for i, n in enumerate(s)])
        yield query(sel([item(A)], T1, wd=tuple((n, win(None, (("int", i),))) for i, n in enumerate(s))))
        yield query(sel([item(fn("SUM", [A], win=win(n))) for n in s], T1, wd=tuple((n, win(s[i - 1] if i else None, (("int", i),))) for i, n in enumerate(s))))


# --- repetition: equal operands, towers of one constructor -----------------------------------------------------------------
def equal_operands():
    """every constructor over the same operand in several (or all) places; twice inside itself"""
    plus = ("bin", "+", A, I1)
    for name, (n, f) in K.items():
        if n < 2:
            continue
        for e in (A, plus, I1, S1, ("q", q1(A))):
            same = f(*[e] * n)
            yield same
            if e in (A, plus):
                if n > 2:
                    for i in range(n):
                        s = [e] * n
                        s[i] = Bc
                        yield f(*s)
                yield f(*[same] * n)


def towers(depths=(3, 4)):
    """every constructor in itself, in every slot"""
    for name, (n, f) in K.items():
        for i in range(n):
            for d in depths:
                e = A if name != "field" else ("row", (A,))
                for _ in range(d):
                    s = [col("p"), col("q"), col("r"), col("s")][:n]
                    s[i] = e
                    if not legal(name, s):
                        e = ("row", (e,))
                        s[i] = e
                    e = f(*s)
                yield e


def fn_towers(funcs, arities, depths=(2, 3)):
    """every function in itself, in every argument"""
    for name in sorted(funcs):
        for n in arities(name):
            for i in range(n):
                for d in depths:
                    e = A
                    for _ in range(d):
                        s = [col("p"), col("q"), col("r"), col("s"), col("u")][:n]
                        s[i] = e
                        e = fn(name, s)
                    yield e
            if n > 1:
                yield fn(name, [A] * n)
                yield fn(name, [fn(name, [A] * n)] * n)


ALIKE = [("S", "\u017f"), ("I", "\u0131"), ("I", "\u0130"), ("K", "\u212a"), ("FI", "\ufb01"), ("FL", "\ufb02"), ("FF", "\ufb00"), ("ST", "\ufb06"), ("SS", "\u00df"), ("A", "\u00c5"), ("A", "\uff21"), ("E", "\u0415"), ("O", "\u041e"), ("A", "\u0391")]


def lookalikes(name):
    """names with a letter whose upper case, lower case, folded or normalized form (or glyph) is the one of an ASCII letter"""
    for a, b in ALIKE:
        i = name.find(a)
        while i >= 0:
            for lower in (False, True):
                yield name[:i].lower() + b + name[i + len(a):].lower() if lower else name[:i] + b + name[i + len(a):]
            i = name.find(a, i + 1)


COUNTS = [0, 1, 2, 9, 10, 100, 255, 256, 32768, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 10 ** 16 + 1, 2 ** 63 - 1]
COUNTS[-1:-1] = [n for n in harvest.ints(0, 2 ** 63) if n not in COUNTS]
LONG = [12, 40] + [n for n in harvest.ints(4, 40) if n not in (12, 40)]      # lengths of long lists


def row_counts():
    for b in (q1(A)[2], ("table", ("t",)), ("values", (I1,)), ("setop", "UNION", "ALL", q1(A), q1(Bc))):
        for c in COUNTS:
            yield query(b, off=c)
            yield query(b, lim=c)
            yield query(b, off=c, lim=c)
            yield query(b, ((A, "ASC", "LAST"),), COUNTS[-1], c)


def twins():
    """queries with the same part in several places"""
    a, b = query(sel([item(A)], T1)), query(sel([item(A)], T1, ("cmp", ">", A, I1)), ((A, "DESC", "LAST"),), None, 3)
    w = win(None, [A], [(A, "ASC", "LAST")], ("ROWS", ("P", A), ("F", A)))
    for q in (a, b):
        for op, quant in (("UNION", "ALL"), ("UNION", "DISTINCT"), ("INTERSECT", "DISTINCT"), ("EXCEPT", "DISTINCT")):
            yield query(("setop", op, quant, q, q))
            yield query(("setop", op, quant, query(("setop", op, quant, q, q)), q))
            yield query(("setop", op, quant, query(("setop", op, quant, q, q)), query(("setop", op, quant, q, q))))
        yield query(sel([item(("q", q)), item(("q", q))], ("subq", q), ("inq", ("q", q), q)))
        yield query(sel([item(("q", q), "z"), item(("q", q), "z")], ("join", "CROSS", False, ("alias", ("subq", q), "x", None), ("alias", ("subq", q), "y", None), None)))
        yield query(sel([item(A)], ("join", "CROSS", False, ("lateral", q), ("lateral", q), None)))
        yield query(sel([("star", None)], tbl("p")), with_=[("p", None, q), ("r", None, q)])
        yield query(("values", (("row", (("q", q), ("q", q))), ("row", (("q", q), ("q", q))))))
        yield query(sel([item(A)], ("subq", query(sel([item(A)], ("subq", q)), with_=[("p", None, q)]))), with_=[("p", None, q)])
    for jt in ("INNER", "LEFT", "FULL"):
        on = ("on", ("cmp", "=", A, A))
        yield query(sel([("star", "t"), ("star", "t")], ("join", jt, False, T1, T1, on), A, "DISTINCT", ("ALL", (("set", (A,)), ("set", (A,)))), A), ((A, "ASC", "LAST"), (A, "ASC", "LAST")))
        yield query(sel([("star", None), ("star", None)], ("join", jt, False, ("join", jt, False, T1, T1, on), ("join", jt, False, T1, T1, on), on)))
        yield query(sel([item(A)], ("join", jt, True, ("alias", T1, "x", ("a",)), ("alias", T1, "x", ("a",)), None)))
        yield query(sel([item(A)], ("join", jt, False, ("sample", T1, "SYSTEM", I1), ("sample", T1, "SYSTEM", I1), ("using", ("a",)))))
        yield query(sel([item(A)], ("join", jt, False, ("unnest", (A, A), False), ("unnest", (A, A), False), on)))
    for g in (("rollup", (A, A)), ("cube", (A, A)), ("set", (A, A)), ("gsets", (("set", (A,)), ("set", (A,)), ("set", (A, A)))), ("set", ())):
        yield query(sel([item(A), item(A)], T1, gb=("ALL", (g, g))))
        yield query(sel([item(A), item(A)], T1, gb=("DISTINCT", (g, ("set", (Bc,)), g))))
    call = fn("SUM", [A], ((A, "ASC", "LAST"),), A, "IGNORE", w)
    yield query(sel([item(call), item(call), item(call, "z")], T1, wd=(("w", w), ("v", w))), ((call, "ASC", "LAST"), (call, "ASC", "LAST")))
    lm = lam(["x"], ("bin", "+", ("lvar", "x"), ("lvar", "x")))
    yield query(sel([item(fn("COALESCE", [lm, lm])), item(lm)]))


def query_towers(depths=(3, 8)):
    """every way to put a relation into a relation and a query into a query, again and again; chains of set operations"""
    inside = ("subq", q1(A, fr=T1))
    for i in range(len(list(rel1(T1, JCORE)))):
        for base in (T1, inside):
            for d in depths:
                r = base
                for _ in range(d):
                    r = list(rel1(r, JCORE))[i]
                yield query(sel([("star", None)], r))
    for i in range(len(list(query_positions(q1(A))))):
        for base in (q1(A, fr=T1), query(("values", (I1, I2)), lim=1)):
            for d in depths:
                q = base
                for _ in range(min(d, 4) if i == 9 else d):
                    if i in (7, 8) and q[1]:
                        break
                    q = list(query_positions(q))[i]
                yield q
    leaves = [q1(A), query(("table", ("t",))), q1(Bc, fr=T1), query(("values", (I1,))), q1(A)]
    for ops in itertools.product(SETOPS, repeat=3):
        l, r = leaves[0], leaves[3]
        for j, (s, quant) in enumerate(ops):
            l = query(("setop", s, quant, l, leaves[j + 1]))
            r = query(("setop", s, quant, leaves[2 - j], r))
        yield l
        yield r
        (s0, q0), (s1, q1_), (s2, q2) = ops
        yield query(("setop", s1, q1_, query(("setop", s0, q0, leaves[0], leaves[1])), query(("setop", s2, q2, leaves[2], leaves[3]))))
    for s, quant in SETOPS:
        for d in (7, 12):
            l = r = leaves[0]
            for j in range(d):
                l = query(("setop", s, quant, l, leaves[j % 5]))
                r = query(("setop", s, quant, leaves[j % 5], r))
            yield l
            yield r


def repetition(tier="quick"):
    yield from equal_operands()
    yield from towers((3, 4, 12) if tier == "quick" else (3, 4, 6, 9, 13))
