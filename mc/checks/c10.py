"""C10: the data type of every expression, read from text and built in Python, against the reference typing rules."""
import itertools

from .. import bind, fnreg, gen, lang, tyref
from ..core import Family, main as run
from ..gen import A, I1, INT, S1, T1, fn, item, q1, query, sel
from .c06 import number_texts
from .common import *

TY = [("t", "BOOLEAN"), ("t", "TINYINT"), ("t", "SMALLINT"), INT, ("t", "BIGINT"), ("t", "REAL"), ("t", "DOUBLE"), ("t", "DECIMAL", 4, 2), ("t", "DECIMAL", 38, 0),
      ("t", "DECIMAL", 20, 19), ("t", "VARCHAR", None), ("t", "VARCHAR", 3), ("t", "CHAR", 5), ("t", "VARBINARY"), ("t", "JSON"), ("t", "DATE"), ("t", "TIME", 3, False),
      ("t", "TIME", None, True), ("t", "TIMESTAMP", 6, False), ("t", "TIMESTAMP", None, False), ("t", "TIMESTAMP", 3, True), tyref.D2S, tyref.Y2M, ("t", "UUID"),
      ("t", "HYPERLOGLOG"), ("t", "TDIGEST"), ("t", "ARRAY", INT), ("t", "ARRAY", ("t", "ARRAY", ("t", "VARCHAR", 2))), ("t", "MAP", ("t", "VARCHAR", 4), ("t", "DOUBLE")),
      ("t", "ROW", (INT, ("t", "DATE")))]
LITS = [I1, ("int", 3000000000), ("dec", "1.50"), ("dec", "-.05"), ("dbl", 2.5), S1, ("bool", True), ("null",), A, ("arr", (("null",),)), ("row", (I1, ("null",))),
        ("tc", "TIMESTAMP", "2020-01-01 01:02:03.12 UTC"), ("iv", "1", "DAY", None), ("q", q1(I1))]


def val(t):
    return ("cast", A, t)


ALL = [val(t) for t in TY] + LITS
FEW = [val(INT), val(("t", "DECIMAL", 4, 2)), val(("t", "DOUBLE")), val(("t", "VARCHAR", 3)), val(("t", "CHAR", 5)), val(("t", "TIMESTAMP", 6, False)), val(("t", "DATE")),
       val(("t", "ARRAY", INT)), val(("t", "MAP", ("t", "VARCHAR", 4), ("t", "DOUBLE"))), val(("t", "ROW", (INT, ("t", "DATE")))), ("null",), A, I1]


def check(n):
    kind = "query" if n[0] in ("q", "query") else "expr"
    q = n[1] if n[0] == "q" else n
    exp = tyref.query_type(q) if kind == "query" else tyref.ty(n)
    built = lib_build(kind, q)
    text = render(kind, q, MIN)
    back, got = lib_read(kind, text)
    same(exp, dtype(built), "type of the tree built for %r" % text)
    same(want(q), got, "%r is read as a different tree" % text)
    if norm(q) == q:
        same(exp, dtype(back), "type of %r (read)" % text)
    else:
        raw = neutral(kind, back)
        same(tyref.query_type(raw) if kind == "query" else tyref.ty(raw), dtype(back), "type of %r (read)" % text)


def dtype(obj):
    return guarded("data_type", lambda: bind.r_type(obj.data_type))


def slots(names, pool, upto):
    for name in names:
        n, f = gen.K[name]
        if name == "field":
            yield f(("row", (I1, S1)))
            continue
        if n <= upto:
            for s in itertools.product(pool, repeat=n):
                yield f(*s)
        else:
            base = gen.SLOT[:n]
            for i in range(n):
                for v in pool:
                    yield f(*(base[:i] + [v] + base[i + 1:]))


CARRY = ["bin+", "bin-", "bin*", "bin/", "bin%", "cat", "neg", "pos", "case2", "casev", "casee", "arr2", "row2", "sub", "if3", "coalesce", "sum", "maxby", "try", "subq"]


def carriers(pool):
    return list(slots(CARRY, pool, 1)) + list(slots([c for c in CARRY if gen.K[c][0] == 2], pool, 2))


def functions(pool, deep):
    for name in sorted(fnreg.FUNCS):
        for n in fnreg.arities(name):
            args = [A] * n
            if n <= (2 if deep else 1) or name in ("IF", "COALESCE", "CONCAT", "APPROX_PERCENTILE") and n <= (3 if deep else 2):
                for s in itertools.product(pool, repeat=n):
                    yield fn(name, s)
            else:
                for i in range(n):
                    for v in pool:
                        for o in (I1, ("null",), A):
                            a = [o] * n
                            a[i] = v
                            yield fn(name, a)
    for v in pool:
        yield ("listagg", v, ",", None, ((A, "ASC", "LAST"),))
        yield ("normalize", v, "NFD")
        for nulls, w in (("RESPECT", None), ("RESPECT", gen.win(None, [A])), ("IGNORE", gen.win("w"))):
            yield fn("MAX", [v], flt=A, nulls=nulls, win=w)


def nestings(tier):
    inner = carriers(FEW)
    outer = CARRY if tier == "thorough" else CARRY[:1] + CARRY[4:8] + CARRY[10:16]
    for x in inner:
        for name in outer:
            n, f = gen.K[name]
            for i in range(n):
                if tier == "quick" and n == 2 and name != "bin+" and i:
                    continue
                s = [I1] * n
                s[i] = x
                yield f(*s)
    if tier == "thorough":
        for x in inner[::3]:
            for v in FEW:
                for name in ("bin+", "bin-", "coalesce", "arr2", "cat", "case2"):
                    n, f = gen.K[name]
                    for i, j in itertools.permutations(range(n), 2):
                        s = [("null",)] * n
                        s[i], s[j] = x, v
                        yield f(*s)


def deep(tier):
    """three levels of the constructors which pass types through"""
    thr = ["bin+", "bin-", "neg", "case2", "arr2", "sub", "if3", "coalesce", "subq", "cat", "row2"]
    base = [val(t) for t in (TY if tier == "thorough" else TY[::3])] + [I1, ("null",)]
    for b in base:
        for n1, n2, n3 in itertools.product(thr, repeat=3):
            x = b
            for name in (n1, n2, n3):
                n, f = gen.K[name]
                s = [I1] * n
                s[1 if name in ("case2", "if3") else 0] = x
                x = f(*s)
            yield x


def queries(tier):
    pool = ALL if tier == "thorough" else ALL[::2]
    for a in ALL:
        yield q1(a)
        yield query(sel([item(a, "z"), item(A)], T1), lim=1)
        yield query(("values", (a,)))
        yield ("cast", ("q", query(("values", (("row", (a,)),)))), INT)
    for a, b in itertools.product(pool, repeat=2):
        yield query(sel([item(a), item(b)]))
        yield query(("values", (a, b)))
        yield query(("values", (("row", (a, b)), ("row", (b, a)), ("row", (("null",), a)))))
        for op, quant in gen.SETOPS[::3]:
            if not ({"row"} & {a[0], b[0]}) and tyref.ty(a)[1] != "ROW" and tyref.ty(b)[1] != "ROW":
                yield query(("setop", op, quant, q1(a), q1(b)))
                yield query(("setop", op, quant, query(sel([item(a), item(b)])), query(("values", (("row", (b, a)),)))))
        yield ("bin", "+", ("q", q1(a)), b)
        yield ("arr", (("q", query(sel([item(a)]), lim=1)), b))
    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        yield query(("values", (("row", (I1,) * n1), ("row", (S1,) * n2))))
        if 1 not in (n1, n2):
            yield query(("setop", "UNION", "ALL", query(sel([item(I1)] * n1)), query(sel([item(I1)] * n2))))
    for st in (("star", None), ("star", "t"), ("astar", "t", ("a", "b"))):
        yield query(sel([st], T1))
        yield query(sel([item(I1), st, item(A)], T1))
        yield ("bin", "+", ("q", query(sel([st], T1))), I1)
    yield query(("table", ("t",)))


BOUNDS = {
    "text": [("t", "CHAR", n) for n in (1, 32767, 32768, 32769, 40000, 65535, 65536)] + [("t", "VARCHAR", n) for n in (None, 0, 1, 65535, 65536, 65537, 2147483646)],
    "number": [("t", "DECIMAL", p, s) for p, s in ((1, 0), (1, 1), (3, 0), (5, 0), (10, 0), (19, 0), (19, 19), (37, 1), (38, 0), (38, 19), (38, 38))]
              + [("t", n) for n in ("TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE")],
    "time": [("t", n, p, z) for n in ("TIME", "TIMESTAMP") for p in (None, 0, 3, 12) for z in (False, True)] + [("t", "DATE")],
    "nested": [("t", "ARRAY", ("t", "VARCHAR", 0)), ("t", "ARRAY", ("t", "VARCHAR", None)), ("t", "ARRAY", ("t", "CHAR", 65536)), ("t", "ARRAY", ("t", "DECIMAL", 38, 38)),
               ("t", "ROW", (("t", "VARCHAR", 0),)), ("t", "ROW", (("t", "DECIMAL", 38, 0),)), ("t", "MAP", ("t", "VARCHAR", 0), ("t", "VARCHAR", 7)),
               ("t", "MAP", ("t", "VARCHAR", 7), ("t", "VARCHAR", 0))],
}
BOUND_LITS = {"text": [("str", ""), ("str", "a"), ("str", "abc"), ("str", "x" * 70), ("tc", "CHAR", "ab")],
              "number": [("int", 0), ("int", -2147483648), ("int", 2147483648), ("dec", ".0"), ("dec", "." + "9" * 38), ("dec", "9" * 38 + "."), ("dbl", 0.0)],
              "time": [("tc", "TIMESTAMP", "2020-01-01 00:00:00"), ("tc", "TIME", "00:00:00.1"), ("tc", "DATE", "2020-01-01"), ("iv", "1", "DAY", None)],
              "nested": [("arr", (("str", ""),)), ("arr", (("null",),)), ("row", (("str", ""),))]}
JOINERS = ["case2", "arr2", "coalesce", "if3", "cat", "bin+", "bin-", "bin*", "bin/", "bin%"]


def boundaries(tier):
    """pairs of types at the ends of what their parameters may be, through everything which combines two types; three in a row for concatenations and choices"""
    for kind, types in BOUNDS.items():
        pool = [val(t) for t in types] + BOUND_LITS[kind]
        for a, b in itertools.product(pool, repeat=2):
            for name in JOINERS if tier == "thorough" else JOINERS[:8]:
                n, f = gen.K[name]
                s = [A] * n
                i, j = {"case2": (1, 2), "if3": (1, 2)}.get(name, (0, 1))
                s[i], s[j] = a, b
                yield f(*s)
            yield query(("values", (a, b)))
            if a[0] != "row" and b[0] != "row":
                yield query(("setop", "UNION", "ALL", query(sel([item(a), item(I1)])), query(sel([item(b), item(a)]))))
            yield fn("NULLIF", [a, b])
            yield fn("MAX_BY", [a, b])
        some = pool if tier == "thorough" else pool[::3]
        for a, b, c in itertools.product(some, repeat=3):
            yield fn("CONCAT", [a, b, c])
            yield ("cat", (("cat", (a, b)), c))
            yield fn("COALESCE", [a, b, c])
            yield ("arr", (a, b, c))
            yield ("bin", "+", ("bin", "*", a, b), c)
            yield query(("values", (("row", (a, b)), ("row", (c, a)), ("row", (b, c)))))


DATES = ["", "2020-01-01", "-2020-01-01", "2020-1-1", "+12020-01-01"]
TIMES = ["", "01:02", "01:02:03", "01:02:03.1", "01:02:03.123456789012", "1:2:3.0", "01:02:03.1230"]
ZONES = ["", " UTC", "+01:00", " +01:00", "-08:00", " America/New_York", " Etc/GMT+5", " GMT"]


def time_texts(tier):
    for d in DATES:
        for t in TIMES:
            for z in ZONES:
                s = (d + " " + t).strip() + z
                if d:
                    if t or z.startswith(" ") or not z:
                        yield ("tc", "TIMESTAMP", s)
                if not d and t:
                    yield ("tc", "TIME", s)
    for s in ("0", "1.5", "-1.50", "000.10", ".5", "5.", "+7", "1" * 38, "0." + "1" * 38, "-" + "9" * 20 + ".5"):
        yield ("tc", "DECIMAL", s)
    for s in ("", "a", "it''s", "a" * 300, "\u00e9"):
        yield ("tc", "CHAR", s)
        yield ("tc", "VARCHAR", s)
        yield ("str", s)
    for t in ("DATE", "JSON", "UUID", "DOUBLE", "REAL", "BIGINT", "INTEGER", "SMALLINT", "TINYINT", "BOOLEAN", "IPADDRESS", "VARBINARY", "HYPERLOGLOG", "TDIGEST"):
        yield ("tc", t, "1")
    for u in ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"):
        for v in (None, "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"):
            yield ("iv", "1", u, v)
    for c in ("CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"):
        for p in [None] + list(range(13)):
            yield ("curr", c, p)
    for c in ("CURRENT_DATE", "CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"):
        yield ("curr", c, None)


def number_check(text):
    try:
        n = ref("expr", text)
    except Bad:
        return
    if has_unsup(n):
        return
    back, got = lib_read("expr", text)
    same(want(n), got, "%r is read as a different tree" % text)
    same(tyref.ty(neutral("expr", back)), dtype(back), "type of %r" % text)


FAMILIES = [
    Family("literal texts", time_texts, check),
    Family("number texts", lambda t: number_texts("quick"), number_check),
    Family("constructors x operand types", lambda t: itertools.chain(slots([k for k in gen.K if gen.K[k][0] <= 2], ALL, 2),
                                                                    slots([k for k in gen.K if gen.K[k][0] > 2], ALL, 3 if t == "thorough" else 1)), check),
    Family("chosen values x types", lambda t: slots(["case2", "if3", "coalesce", "casee"], FEW, 4 if t == "thorough" else 3), check),
    Family("functions x argument types", lambda t: functions(ALL, t == "thorough"), check),
    Family("two carriers", nestings, check),
    Family("three carriers", deep, check),
    Family("queries", queries, check),
    Family("parameters at their bounds", boundaries, check),
]


def main():
    bind.load()
    return run("C10", FAMILIES)
