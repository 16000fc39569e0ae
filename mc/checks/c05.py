"""C05: data types - reading, printing, validation, equality, over every name x parameter list x nesting up to a depth."""
import itertools

from .. import bind, gen, harvest, lang
from ..core import Family, main as run
from .common import *

PLAIN = "BOOLEAN INTEGER TINYINT SMALLINT BIGINT REAL DOUBLE VARBINARY JSON DATE IPADDRESS UUID HYPERLOGLOG P4HYPERLOGLOG TDIGEST UNKNOWN".split()
NAMES = PLAIN + ["DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP", "ARRAY", "MAP", "ROW", "QDIGEST"]


def leaves():
    for n in PLAIN:
        yield ("t", n)
    for p in range(1, 39):
        for s in range(0, p + 1):
            yield ("t", "DECIMAL", p, s)
    for n in (None, 0, 1, 2, 10, 255, 65535, 65536, 65537, 2147483645, 2147483646, *harvest.ints(3, 2147483646)):
        yield ("t", "VARCHAR", n)
    for n in sorted({0, 1, 2, 10, 255, 65535, 65536, *harvest.ints(0, 65536)}):
        yield ("t", "CHAR", n)
    for k in ("TIME", "TIMESTAMP"):
        for tz in (False, True):
            for p in [None] + list(range(13)):
                yield ("t", k, p, tz)
    yield ("t", "INTERVAL", "YEAR", "MONTH")
    yield ("t", "INTERVAL", "DAY", "SECOND")


SMALL = [("t", "BIGINT"), ("t", "DOUBLE"), ("t", "DECIMAL", 10, 2), ("t", "DECIMAL", 38, 0), ("t", "VARCHAR", None), ("t", "VARCHAR", 3), ("t", "CHAR", 1),
         ("t", "TIME", None, True), ("t", "TIMESTAMP", 6, False), ("t", "TIMESTAMP", 3, True), ("t", "INTERVAL", "DAY", "SECOND")]


def wrap(xs, few):
    for x in xs:
        yield ("t", "ARRAY", x)
        yield ("t", "QDIGEST", x)
        yield ("t", "ROW", (x,))
        for y in few:
            yield ("t", "MAP", x, y)
            yield ("t", "MAP", y, x)
            yield ("t", "ROW", (x, y))
            yield ("t", "ROW", (y, x))


def types(tier):
    ls = list(leaves())
    yield from ls
    d1 = list(wrap(ls, SMALL[:2] if tier == "quick" else SMALL))
    yield from d1
    base = list(wrap(SMALL, SMALL[:2]))
    d2 = list(wrap(base, SMALL[:2] if tier == "quick" else SMALL[:6]))
    yield from d2
    for a, b, c in itertools.product(SMALL[:5], repeat=3):
        yield ("t", "ROW", (a, b, c))
    if tier == "thorough":
        yield from wrap(d2[::3], SMALL[:2])


def text(n):
    k = n[1]
    if k == "DECIMAL":
        return "DECIMAL(%d,%d)" % n[2:]
    if k in ("VARCHAR", "CHAR"):
        return k if n[2] is None else "%s(%d)" % (k, n[2])
    if k in ("TIME", "TIMESTAMP"):
        return k + ("" if n[2] is None else "(%d)" % n[2]) + (" WITH TIME ZONE" if n[3] else "")
    if k in ("ARRAY", "QDIGEST"):
        return "%s(%s)" % (k, text(n[2]))
    if k == "MAP":
        return "MAP(%s,%s)" % (text(n[2]), text(n[3]))
    if k == "ROW":
        return "ROW(%s)" % ",".join(text(x) for x in n[2])
    if k == "INTERVAL":
        return "INTERVAL %s TO %s" % n[2:]
    return k


def spellings(n):
    t = text(n)
    yield t
    yield t.lower()
    yield " /* , */ ".join(t.replace("(", " ( ").replace(",", " , ").replace(")", " )").split())
    if n[1] in ("TIME", "TIMESTAMP") and not n[3]:
        yield t + " WITHOUT TIME ZONE"
    if n[1] == "DOUBLE":
        yield "double PRECISION"
    if n[1] == "DECIMAL":
        if n[3] == 0:
            yield "DECIMAL(%d)" % n[2]
        if n[2:] == (38, 0):
            yield "decimal"
    if n == ("t", "CHAR", 1):
        yield "Char"
    if n[1] == "ARRAY":
        yield text(n[2]) + " ARRAY"
    if len(n) == 2:
        yield t.capitalize()
        yield '"' + t + '"'


def check(n):
    built = lib_build("type", n)
    same(n, neutral("type", built), "type built in Python holds other parameters")
    want_t = None
    for s in spellings(n):
        try:
            m = ref("type", s)
        except Bad as e:
            raise HarnessError("%r: %s" % (s, e))
        if m != n:
            raise HarnessError("%r reads as %r, not %r" % (s, m, n))
        obj, got = lib_read("type", s)
        same(n, got, "type %r is read with other parameters" % s)
        for a, b in ((obj, built), (built, obj)):
            step(2)
            if (a == b) is not True or guarded("equals", a.equals, b) is not True:
                raise Violation("type read from %r is not equal to the same type built in Python" % s)
        printed = lib_print(obj)
        try:
            same(n, ref("type", printed), "type %r prints as %r, another type" % (s, printed))
        except Bad as e:
            raise Violation("type %r prints as %r which is not a Trino type (%s)" % (s, printed, e))
        if str(obj) != printed:
            raise Violation("str and sql differ for %r" % s)
        if want_t is None:
            want_t = printed
        same(want_t, printed, "spelling %r prints differently" % s)
        same(n, lib_read("type", printed)[1], "printed type %r is read back differently" % printed)
    # the same type in a cast
    if n == ("t", "UNKNOWN"):
        return      # not a target of casts
    c, got = lib_read("expr", "CAST(a AS %s)" % text(n))
    same(("cast", ("col", "a", None), n), got, "cast to %r" % (n,))
    same(n, bind.r_type(c.data_type), "data type of the cast to %r" % (n,))
    txt = lib_print(c)
    same(got, norm(ref("expr", txt)), "cast printed as %r" % txt)


def pair_check(case):
    a, b = case
    x, y = lib_build("type", a), lib_build("type", b)
    step(2)
    if (x == y) is not (a == b) or guarded("equals", x.equals, y) is not (a == b) or (x != y) is not (a != b):
        raise Violation("equality of %r and %r" % (a, b))
    if (str(x) == str(y)) is not (a == b):
        raise Violation("different types print the same: %r %r" % (a, b))
    validated()


def pairs(tier):
    ls = [l for l in leaves() if l[1] != "DECIMAL"] + [("t", "DECIMAL", p, s) for p in (1, 2, 37, 38) for s in (0, 1, 37, 38) if s <= p]
    d1 = list(wrap(SMALL, SMALL[:2]))
    for xs in (ls, d1):
        for a in xs:
            for b in xs:
                yield a, b
    for a in ls:
        for b in d1[::7]:
            yield a, b


ARGS = ["", "0", "1", "2", "12", "13", "38", "39", "65536", "65537", "2147483646", "2147483647", "-1", "1.5", "'1'", "BIGINT", "DECIMAL(1,1)", "NOPE",
        "x BIGINT", "ARRAY", "VARCHAR(1)", "1 2", "NULL"]


def refusals(tier):
    """every type name x every parameter list of up to three entries of ARGS (pairs/triples over a shorter list)"""
    names = NAMES + ["NOPE", "INTERVAL", "VARCHAR2", "NUMERIC2", "ARRAYS", "DATETIME", "BOOL1", "STRING1"]
    for n in names:
        yield n
        for a in ARGS:
            yield "%s(%s)" % (n, a)
        short = ["0", "1", "2", "38", "39", "-1", "BIGINT", "NOPE", "VARCHAR(1)", "1.5", "'1'"]
        for a in short:
            for b in short:
                yield "%s(%s,%s)" % (n, a, b)
        for a, b, c in itertools.product(short[1:3] + short[6:8], repeat=3):
            yield "%s(%s,%s,%s)" % (n, a, b, c)
        for a in ("1", "12", "13", "BIGINT", "-1"):
            for z in ("WITH TIME ZONE", "WITHOUT TIME ZONE", "WITH", "TIME ZONE", "WITH TIME", "ARRAY", "PRECISION", "1", ")", "[]", "ARRAY[3]"):
                yield "%s(%s) %s" % (n, a, z)
        for z in ("WITH TIME ZONE", "WITHOUT TIME ZONE", "WITH", "WITH TIME", "ARRAY", "ARRAY ARRAY", "PRECISION", "1", "(", "[]", "<BIGINT>", "."):
            yield "%s %s" % (n, z)
    units = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "WEEK", "1", ""]
    for a in units:
        yield "INTERVAL " + a
        for b in units:
            yield "INTERVAL %s TO %s" % (a, b)
    for t in ("", "()", "(BIGINT)", "ARRAY(NOPE)", "MAP(BIGINT, NOPE)", "ROW(NOPE)", "ARRAY(DECIMAL(39,1))", "ROW(CHAR(65537))", "ARRAY(ARRAY(TIME(13)))",
              "BIGINT BIGINT", "BIGINT,", "ARRAY(BIGINT", "ARRAY BIGINT)"):
        yield t


def refuse_check(s):
    try:
        n = ref("type", s)
    except Bad:
        n = ("unsup", "syntax")
    step()
    try:
        obj = bind.lib_parse("type", s)
    except Exception:
        obj = None
    if has_unsup(n):
        bump("illegal_types")
        if obj is not None:
            raise Violation("%r is not a legal type but is read as %s" % (s, obj))
        for e in ("CAST(a AS %s)", "TRY_CAST(a AS %s)"):
            step()
            try:
                x = bind.lib_parse("expr", e % s)
            except Exception:
                continue
            try:
                m = ref("expr", e % s)
            except Bad:
                m = ("unsup",)
            if has_unsup(m):
                raise Violation("%r is not a legal cast but is read as %s" % (e % s, x))
    else:
        bump("legal_types")
        if obj is None:
            raise Violation("legal type %r is refused" % s)
        same(n, neutral("type", obj), "type %r" % s)
    validated()


MISSING = "<missing>"
VALS = {
    "precision": [MISSING, 0, 1, 5, 12, 13, 38, 39, -1, "3", 3.0, True, None],
    "scale": [MISSING, 0, 1, 5, 6, -1, "1", True, None],
    "max_chars": [MISSING, 0, 1, 65536, 65537, 2147483646, 2147483647, -1, "3", 3.0, True],
    "timezone": [MISSING, True, False, 0, "x", None],
    "dtype": [MISSING, "DT", "BIGINT", None, 1],
    "dtypes": [MISSING, ["DT"], ["DT", "DT"], [], ["BIGINT"], "DT", None],
    "from_dtype": [MISSING, "DT", None], "to_dtype": [MISSING, "DT", 3],
    "from_interval": [MISSING, "YEAR", "DAY", "HOUR", 1], "to_interval": [MISSING, "MONTH", "SECOND", "DAY", None],
}
PARAMS = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "TIME": ["precision", "timezone"],
          "TIMESTAMP": ["precision", "timezone"], "ARRAY": ["dtype"], "QDIGEST": ["dtype"], "MAP": ["from_dtype", "to_dtype"], "ROW": ["dtypes"],
          "INTERVAL": ["from_interval", "to_interval"]}


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def legal(name, p):
    """Trino's rules for the parameters of a type -> the neutral type, None when illegal, 'either' when the library may choose"""
    if set(p) - set(PARAMS.get(name, [])):
        return None
    g = lambda k: p.get(k, MISSING)
    if name == "DECIMAL":
        pr, sc = g("precision"), g("scale")
        pr = 38 if pr is MISSING else pr
        sc = 0 if sc is MISSING else sc
        return ("t", name, pr, sc) if is_int(pr) and is_int(sc) and 1 <= pr <= 38 and 0 <= sc <= pr else None
    if name in ("VARCHAR", "CHAR"):
        n = g("max_chars")
        if n is MISSING:
            return ("t", name, None if name == "VARCHAR" else 1)
        return ("t", name, n) if is_int(n) and 0 <= n <= (65536 if name == "CHAR" else 2147483646) else None
    if name in ("TIME", "TIMESTAMP"):
        pr, tz = g("precision"), g("timezone")
        if pr is not MISSING and not (is_int(pr) and 0 <= pr <= 12):
            return None
        if tz is not MISSING and not isinstance(tz, bool):
            return None
        return ("t", name, None if pr is MISSING else pr, tz is True)
    BG = ("t", "BIGINT")
    if name in ("ARRAY", "QDIGEST"):
        return ("t", name, BG) if g("dtype") == "DT" else None
    if name == "MAP":
        return ("t", name, BG, BG) if g("from_dtype") == g("to_dtype") == "DT" else None
    if name == "ROW":
        d = g("dtypes")
        return ("t", name, (BG,) * len(d)) if isinstance(d, list) and d and all(x == "DT" for x in d) else None
    if name == "INTERVAL":
        return ("t", name) + (g("from_interval"), g("to_interval")) if (g("from_interval"), g("to_interval")) in (("YEAR", "MONTH"), ("DAY", "SECOND")) else None
    return ("t", name)


def constructions(tier):
    for n in PLAIN:
        for k in VALS:
            for v in VALS[k][:3]:
                yield n, ((k, v),)
        yield n.lower(), ()
    for n, ks in PARAMS.items():
        for vs in itertools.product(*(VALS[k] for k in ks)):
            yield n, tuple(zip(ks, vs))
        good = tuple((k, {"dtypes": ["DT"], "dtype": "DT", "from_dtype": "DT", "to_dtype": "DT", "precision": 5, "scale": 1, "max_chars": 1,
                          "timezone": True, "from_interval": "YEAR", "to_interval": "MONTH"}[k]) for k in ks)
        yield n.lower(), good
        for k in VALS:
            if k not in ks:
                for v in VALS[k][1:3]:
                    yield n, good + ((k, v),)
    for n in PLAIN + list(PARAMS):
        for m in gen.lookalikes(n):
            yield m, ()
    for n in ("", "NOPE", "INT ", "BIG INT", "VARCHAR(3)", "ARRAY(BIGINT)"):
        yield n, ()


def construct_check(case):
    name, params = case
    p = {k: v for k, v in params if v is not MISSING}
    known = lang.upper(name)
    want_t = legal(known, p) if known in NAMES + ["INTERVAL"] else None
    DT = lambda v: bind.T.DataType("BIGINT") if v == "DT" else [DT(x) for x in v] if isinstance(v, list) else v
    args = {k: DT(v) for k, v in p.items()}
    before = repr(args)
    step()
    try:
        t = bind.T.DataType(name, args)
    except Exception:
        t = None
    if repr(args) != before:
        raise Violation("constructing %r changed the parameters passed in to %r" % (case, args))
    if want_t is None:
        bump("illegal_constructions")
        if t is not None:
            raise Violation("illegal type %r is accepted as %s" % (case, t))
    else:
        if t is None:
            raise Violation("legal type %r is refused" % (case,))
        same(want_t, bind.r_type(t), "constructed %r" % (case,))
        printed = lib_print(t)
        try:
            same(want_t, ref("type", printed), "constructed %r prints as %r" % (case, printed))
        except Bad as e:
            raise Violation("constructed %r prints as %r which is not a type (%s)" % (case, printed, e))
    validated()


FAMILIES = [
    Family("types x spellings", types, check),
    Family("pairs of types", pairs, pair_check),
    Family("type texts, legal or not", refusals, refuse_check),
    Family("constructor parameters", constructions, construct_check),
]


def main():
    bind.load()
    return run("C05", FAMILIES)
