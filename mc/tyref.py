"""Reference typing rules over neutral trees (independent of the library): literals by their value, common types, results of the
documented functions."""
from . import lang

UNK = ("t", "UNKNOWN")
INTS = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
BOOL, DBL, BIG, INT, VCH, VBIN, DATE = (("t", "BOOLEAN"), ("t", "DOUBLE"), ("t", "BIGINT"), ("t", "INTEGER"), ("t", "VARCHAR", None), ("t", "VARBINARY"), ("t", "DATE"))
D2S, Y2M = ("t", "INTERVAL", "DAY", "SECOND"), ("t", "INTERVAL", "YEAR", "MONTH")
NUM = set(INTS) | {"REAL", "DOUBLE", "DECIMAL"}


def ts(p, tz):
    return ("t", "TIMESTAMP", p, tz)


def arr(t):
    return ("t", "ARRAY", t)


def as_dec(t):
    return (t[2], t[3]) if t[1] == "DECIMAL" else (INTS[t[1]], 0)


def common(a, b):
    """the smallest type holding both; UNKNOWN when there is none"""
    if a == b:
        return a
    x, y = a[1], b[1]
    if "UNKNOWN" in (x, y):
        return UNK
    s = {x, y}
    if s <= NUM:
        if "DOUBLE" in s:
            return DBL
        if "REAL" in s:
            return ("t", "REAL")
        if "DECIMAL" in s:
            (p1, s1), (p2, s2) = as_dec(a), as_dec(b)
            sc = max(s1, s2)
            return ("t", "DECIMAL", min(38, max(p1 - s1, p2 - s2) + sc), sc)
        return ("t", max(s, key=INTS.get))
    if s <= {"CHAR", "VARCHAR"}:
        ls = [a[2], b[2]]
        if s == {"VARCHAR"}:
            return ("t", "VARCHAR", None if None in ls else max(ls))
        if s == {"CHAR"}:
            return ("t", "CHAR", max(ls))
        return ("t", "CHAR", min(65536, 65536 if None in ls else max(ls)))
    if s <= {"DATE", "TIMESTAMP"} and x != y:
        return a if x == "TIMESTAMP" else b
    if x == y and x in ("TIMESTAMP", "TIME"):
        return ("t", x, None if None in (a[2], b[2]) else max(a[2], b[2]), a[3] or b[3])
    if s == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return ("t", "HYPERLOGLOG")
    if x == y == "ARRAY":
        return arr(common(a[2], b[2]))
    if x == y == "MAP":
        return ("t", "MAP", common(a[2], b[2]), common(a[3], b[3]))
    if x == y == "ROW":
        if len(a[2]) != len(b[2]):
            return UNK
        return ("t", "ROW", tuple(common(p, q) for p, q in zip(a[2], b[2])))
    return UNK


def chosen(vals, ty):
    """one of several values: a NULL literal takes the type of the others"""
    ts_ = [ty(v) for v in vals if v != ("null",)]
    if not ts_:
        return UNK
    r = ts_[0]
    for t in ts_[1:]:
        r = common(r, t)
    return r


def arith(o, a, b):
    x, y = a[1], b[1]
    if o == "-" and {x, y} <= {"DATE", "TIMESTAMP"} or o == "-" and x == y == "TIME":
        return D2S
    if x == y or {x, y} <= NUM:
        return common(a, b)
    return UNK


def layers(t):
    return 1 + layers(t[2]) if t[1] == "ARRAY" else 0


def concat(ts_):
    names = {t[1] for t in ts_}
    if "UNKNOWN" in names:
        return UNK
    if "ARRAY" in names:
        ls = [layers(t) for t in ts_]
        top = max(ls)
        if top - min(ls) > 1:
            return UNK
        els = [t[2] if n == top else t for t, n in zip(ts_, ls)]
        r = els[0]
        for e in els[1:]:
            r = common(r, e)
        return arr(r)
    if names <= {"CHAR", "VARCHAR"}:
        if "CHAR" not in names:
            return VCH
        return ("t", "CHAR", min(65536, sum(65536 if t[2] is None else min(65536, t[2]) for t in ts_)))
    if names == {"VARBINARY"}:
        return VBIN
    return UNK


def fraction(text):
    """digits of the seconds' fraction of a date-time text"""
    if "." not in text:
        return 0
    n = 0
    for c in text.split(".")[1]:
        if not c.isdigit():
            break
        n += 1
    return n


def dec_type(text):
    """type of a canonical decimal text"""
    t = text.lstrip("+-")
    i, _, f = t.partition(".")
    i = i.lstrip("0")
    p = len(i) + len(f)
    return ("t", "DECIMAL", max(p, 1), len(f))


BOOLFN = {"BOOL_AND", "BOOL_OR", "EVERY", "LUHN_CHECK"}
BIGFN = {"COUNT", "COUNT_IF", "APPROX_DISTINCT", "BITWISE_AND_AGG", "BITWISE_OR_AGG", "HAMMING_DISTANCE", "LENGTH", "LEVENSHTEIN_DISTANCE", "TO_MILLISECONDS", "DATE_DIFF"}
DBLFN = {"CORR", "COVAR_POP", "COVAR_SAMP", "KURTOSIS", "REGR_INTERCEPT", "REGR_SLOPE", "SKEWNESS", "STDDEV", "STDDEV_POP", "STDDEV_SAMP", "VARIANCE", "VAR_POP", "VAR_SAMP",
         "GEOMETRIC_MEAN", "POWER", "TO_UNIXTIME"}
VCHFN = {"CHR", "LOWER", "LPAD", "RPAD", "LTRIM", "RTRIM", "REPLACE", "REVERSE", "SOUNDEX", "FROM_UTF8", "TO_ISO8601", "HUMAN_READABLE_SECONDS"}
VBINFN = {"CHECKSUM", "TO_UTF8"}
DATEFN = {"DATE", "LAST_DAY_OF_MONTH", "FROM_ISO8601_DATE"}
TSFN = {"FROM_ISO8601_TIMESTAMP": 3, "FROM_ISO8601_TIMESTAMP_NANOS": 9, "FROM_UNIXTIME": 3, "FROM_UNIXTIME_NANOS": 9, "NOW": 3}
SAMEFN = {"ARBITRARY": 0, "MAP_UNION": 0, "TRY": 0, "NULLIF": 0, "DATE_TRUNC": 1, "DATE_ADD": 2}


def fn_type(name, a):
    """a: argument types"""
    if name in BOOLFN:
        return BOOL
    if name in BIGFN:
        return BIG
    if name in DBLFN:
        return DBL
    if name in VCHFN:
        return VCH
    if name in VBINFN:
        return VBIN
    if name in DATEFN:
        return DATE
    if name in TSFN:
        return ts(TSFN[name], True)
    if name in SAMEFN:
        return a[SAMEFN[name]]
    if name == "CODEPOINT":
        return INT
    if name == "SUM":
        return BIG if a[0][1] in INTS else ("t", "DECIMAL", 38, a[0][3]) if a[0][1] == "DECIMAL" else a[0]
    if name == "AVG":
        return DBL if a[0][1] in INTS else a[0]
    if name == "ARRAY_AGG":
        return arr(a[0])
    if name in ("MAX", "MIN"):
        return arr(a[0]) if len(a) == 2 else a[0]
    if name in ("MAX_BY", "MIN_BY"):
        return arr(a[0]) if len(a) == 3 else a[0]
    if name == "HISTOGRAM":
        return ("t", "MAP", a[0], BIG)
    if name == "MAP_AGG":
        return ("t", "MAP", a[0], a[1])
    if name == "MULTIMAP_AGG":
        return ("t", "MAP", a[0], arr(a[1]))
    if name == "APPROX_MOST_FREQUENT":
        return ("t", "MAP", a[1], BIG)
    if name == "APPROX_PERCENTILE":
        return UNK if a[-1] == UNK else arr(a[0]) if a[-1][1] == "ARRAY" else a[0]
    if name == "APPROX_SET":
        return ("t", "HYPERLOGLOG")
    if name == "MERGE":
        return a[0] if a[0][1] in ("TDIGEST", "QDIGEST", "UNKNOWN") else ("t", "HYPERLOGLOG")
    if name == "NUMERIC_HISTOGRAM":
        return ("t", "MAP", DBL, DBL)
    if name == "QDIGEST_AGG":
        return ("t", "QDIGEST", a[0])
    if name == "TDIGEST_AGG":
        return ("t", "TDIGEST")
    if name in ("AT_TIMEZONE", "WITH_TIMEZONE"):
        return ts(a[0][2], True) if a[0][1] == "TIMESTAMP" else UNK
    if name == "CONCAT":
        return concat(a)
    if name == "PARSE_DURATION":
        return D2S
    raise KeyError(name)


PRED = {"cmp", "and", "or", "not", "isnull", "btw", "in", "inq", "like", "dist"}


def ty(n, names=None):
    """type of an expression; names(node) gives the type of columns and stars (UNKNOWN when unresolved)"""
    def t(x):
        return ty(x, names)

    k = n[0]
    if k in ("col", "star", "astar"):
        return names(n) if names else UNK
    if k == "lvar" or k == "lam" or k == "null":
        return UNK
    if k == "int":
        return INT if -2 ** 31 <= n[1] < 2 ** 31 else BIG
    if k == "dec":
        return dec_type(n[1])
    if k == "dbl":
        return DBL
    if k == "str":
        return ("t", "VARCHAR", len(n[1]))
    if k == "bool":
        return BOOL
    if k == "tc":
        if n[1] == "DECIMAL":
            return dec_type(lang.canon_dec(n[2]))
        if n[1] == "CHAR":
            return ("t", "CHAR", len(n[2]))
        if n[1] == "VARCHAR":
            return VCH
        if n[1] in ("TIME", "TIMESTAMP"):
            return ("t", n[1], fraction(n[2]), zoned(n[2]))
        return ("t", n[1])
    if k == "iv":
        return Y2M if n[2] in ("YEAR", "MONTH") else D2S
    if k == "curr":
        if n[1] == "CURRENT_DATE":
            return DATE
        if n[1] in ("CURRENT_TIME", "LOCALTIME", "CURRENT_TIMESTAMP", "LOCALTIMESTAMP"):
            return ("t", "TIMESTAMP" if n[1].endswith("STAMP") else "TIME", 3 if n[2] is None else n[2], n[1].startswith("CURRENT"))
        return VCH
    if k in PRED:
        return BOOL
    if k in ("neg", "pos"):
        return t(n[1])
    if k == "bin":
        return arith(n[1], t(n[2]), t(n[3]))
    if k == "cat":
        return concat([t(x) for x in n[1]])
    if k == "case":
        return chosen([b for _, b in n[2]] + ([n[3]] if n[3] is not None else []), t)
    if k in ("cast", "trycast"):
        return n[2]
    if k == "arr":
        return arr(chosen(n[1], t))
    if k == "row":
        return ("t", "ROW", tuple(t(x) for x in n[1]))
    if k == "sub":
        b = t(n[1])
        return b[2] if b[1] == "ARRAY" else b[3] if b[1] == "MAP" else UNK
    if k == "fn":
        if n[1] == "COALESCE":
            return chosen(n[2], t)
        if n[1] == "IF":
            return chosen(n[2][1:], t) if len(n[2]) == 3 else t(n[2][1])
        return fn_type(n[1], [UNK if x[0] == "star" else t(x) for x in n[2]])
    if k in ("listagg", "normalize"):
        return VCH
    if k == "q":
        return names(n) if names else query_type(n[1])
    raise KeyError(k)


def zoned(text):
    """does a date-time text name a zone? (an offset or a region after the time of day)"""
    words = text.split()
    if words and words[0].lstrip("+-").replace("-", "").isdigit() and "-" in words[0].lstrip("+-"):
        words.pop(0)        # the date
    if not words:
        return False
    i = 0
    while i < len(words[0]) and words[0][i] in "0123456789:.":
        i += 1
    return i < len(words[0]) or len(words) > 1


def columns(n, names=None):
    """output column types of a query, or None when it isn't known how many there are"""
    body = n[2]
    return body_columns(body, names)


def body_columns(b, names):
    if b[0] == "select":
        out = []
        for it in b[2]:
            if it[0] in ("star", "astar"):
                return None
            out.append(ty(it[1], names))
        return out
    if b[0] == "values":
        if all(e[0] == "row" for e in b[1]):
            if len({len(e[1]) for e in b[1]}) != 1:
                return None
            return [chosen(c, lambda x: ty(x, names)) for c in zip(*(e[1] for e in b[1]))]
        t = chosen(b[1], lambda x: ty(x, names))
        return list(t[2]) if t[1] == "ROW" else [t]
    if b[0] == "table":
        return None
    l, r = columns(b[3], names), columns(b[4], names)
    if l is None or r is None:
        return None
    if len(l) != len(r):
        return None
    return [common(x, y) for x, y in zip(l, r)]


def query_type(n, names=None):
    c = columns(n, names)
    if c is None:
        return UNK
    return c[0] if len(c) == 1 else ("t", "ROW", tuple(c))
