"""C06: contents of literals and names, over every short string of a hostile alphabet in every syntactic position."""
import itertools
from decimal import Decimal

from .. import bind, gen, harvest, lang
from ..core import Family, main as run
from ..gen import A, Bc, I1, S1, T1, col, fn, item, lam, q1, query, sel, tbl, win
from .c02 import print_ok
from .common import *

ALPHA = ["'", '"', "\\", "%", " ", "\n", "\t", "\r", "a", "A", "\u00e9", "\u00df", "\U0001f600", ";", "{", "}", "--", "/*", "*/", "(", "`", "\u2028", "\x0c",
         "\x00", "0", "_", ".", ",", "U&", "e\u0301"]
SHORT = ["'", '"', "\\", " ", "\n", "\t", "a", "B", "--", "/*", ";", "\u00df", "\r", "."]


def contents(tier):
    yield ""
    yield from ALPHA
    for n in (2,):
        for t in itertools.product(ALPHA, repeat=n):
            yield "".join(t)
    for t in itertools.product(SHORT if tier == "thorough" else SHORT[:7], repeat=3):
        yield "".join(t)
    if tier == "thorough":
        for t in itertools.product(["'", '"', "\n", " ", "a", "\\"], repeat=5):
            yield "".join(t)
    for w in sorted(lang.KEYWORDS):
        yield w
        yield w.lower()
    for w in ("x" * 127, "x" * 128, "\u00e9" * 128, "\U0001f600" * 64, "ab " * 85 + "c", "x" * 256, "y" * 1023 + "z", "word " * 1000 + "'", "x" * 79, "x " * 60, "a\n" * 50, "'" * 81, '"' * 81):
        yield w
    yield from harvested()


def harvested():
    """what the library's own source mentions: its strings, what they are made of, and contents as long as the numbers in it"""
    for w in harvest.strings():
        yield w
        yield "{" + w.strip("{}") + "}"
    for n in harvest.ints(2, 5000):
        yield "x" * n
        yield "'" * n
    for n in harvest.ints(2, 400):
        yield "w " * n


# --- positions: content -> neutral tree ('e' expression / 'query')
LITERALS = {
    "string": lambda s: ("str", s),
    "operand": lambda s: ("cat", (A, ("str", s))),
    "like": lambda s: ("like", A, ("str", s), ("str", s)),
    "argument": lambda s: fn("COALESCE", [A, ("str", s), ("case", ("str", s), ((("str", s), I1),), None)]),
    "typed": lambda s: ("tc", "JSON", s),
    "typed char": lambda s: ("arr", (("tc", "CHAR", s), ("tc", "UUID", s))),
    "separator": lambda s: ("listagg", A, s, None, ((Bc, "ASC", "LAST"),)),
    "filler": lambda s: ("listagg", A, s, (s, "WITH COUNT"), ((Bc, "DESC", "FIRST"),)),
    "nested": lambda s: query(sel([item(A, "z")], ("alias", ("subq", q1(("str", s), fr=T1, wh=("in", A, (("str", s), ("q", q1(("str", s)))))))  , "z", None),
                                  ("cmp", "=", A, ("str", s))), ob=((("str", s), "ASC", "LAST"),)),
    "values": lambda s: query(("values", (("row", (I1, ("str", s))), ("row", (I1, ("str", s)))))),
    "with": lambda s: query(sel([item(("str", s))], T1), with_=[("x", None, q1(("str", s))), ("y", None, query(("values", (("str", s),))))]),
}
NAMES = {
    "column": lambda s: col(s),
    "qualifier": lambda s: col("a", s),
    "qualified": lambda s: col(s, "t"),
    "field of row": lambda s: col(s, ("row", (A, I1))),
    "operand": lambda s: ("and", ("cmp", "<", col(s), I1), ("isnull", col(s, s))),
    "lambda": lambda s: lam([s], ("bin", "+", col(s), col("a", s))),
    "lambda 2": lambda s: lam(["y", s], fn("COALESCE", [col(s), col("y")])),
    "window reference": lambda s: fn("SUM", [A], win=win(s)),
    "window parent": lambda s: fn("SUM", [A], win=win(s, (), ((A, "ASC", "LAST"),))),
    "table": lambda s: query(sel([("star", None)], tbl(s))),
    "schema": lambda s: query(sel([("star", s)], tbl(s, "t"))),
    "catalog": lambda s: query(sel([item(A)], tbl(s, "s", s))),
    "alias": lambda s: query(sel([item(A, s), item(("str", s), s)], T1)),
    "relation alias": lambda s: query(sel([item(A)], ("alias", T1, s, None))),
    "column aliases": lambda s: query(sel([item(A)], ("alias", ("subq", q1(A)), "z", (s, "q")))),
    "star aliases": lambda s: query(sel([("astar", s, (s, "q"))], T1)),
    "window": lambda s: query(sel([item(fn("SUM", [A], win=win(s)))], T1, wd=[(s, win(None, (col(s),)))])),
    "using": lambda s: query(sel([item(A)], ("join", "LEFT", False, T1, tbl(s), ("using", (s, "q"))))),
    "named query": lambda s: query(sel([item(A)], tbl(s)), with_=[(s, None, q1(A, fr=tbl(s)))]),
    "named columns": lambda s: query(sel([item(A)], T1), with_=[("w", (s, "q"), q1(A))]),
    "table query": lambda s: query(("table", (s,))),
    "order": lambda s: query(sel([item(A)], T1, gb=("ALL", (("set", (col(s),)),))), ob=((col(s), "DESC", "LAST"),)),
    "lateral": lambda s: query(sel([item(A)], ("join", "CROSS", False, ("alias", ("lateral", q1(col(s))), s, (s,)), ("alias", ("unnest", (col(s),), False), s, None), None))),
}


def literal_cases(tier):
    for s in contents(tier):
        for p in LITERALS:
            yield p, s


def name_cases(tier):
    for s in contents(tier):
        if s:
            for p in NAMES:
                yield p, s


def content_check(table):
    def f(case):
        p, s = case
        n = table[p](s)
        kind = "query" if n[0] == "query" else "expr"
        print_ok(kind, n)
        obj = lib_build(kind, n)
        pretty = lib_print(obj, "PRETTY", n=n)
        try:
            m = ref(kind, pretty)
        except Bad as e:
            raise Violation("pretty layout prints %r which is not valid SQL (%s) for %r" % (pretty, e, n))
        same(norm(n), norm(m), "pretty layout prints %r which denotes another tree" % pretty)
        st = STYLES["tight" if hash_(s) % 2 else "comment"]
        text = render(kind, n, st)
        selfcheck(kind, n, text)
        _, got = lib_read(kind, text)
        same(want(n), got, "%r is read as a different tree" % text)
    return f


def hash_(s):
    return sum(map(ord, s)) + len(s)


# --- U&'...' strings ------------------------------------------------------------------------------------------------
UPIECES = ["\\", "+", "0041", "01F600", "d83d", "a", "''", "\u00e9", "!", "\n", "110000", "00DF", "1"]
UESC = ["", " UESCAPE '!'", " UESCAPE '\\'", " UESCAPE '+'", " UESCAPE ''''", " UESCAPE ''", " UESCAPE '!!'", " UESCAPE 'a'", " UESCAPE ' '", " UESCAPE '\"'",
        " UESCAPE '1'", " uescape '!'", " UESCAPE '\u00e9'", " UESCAPE U&'!'", " UESCAPE"]


def ucases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for t in itertools.product(UPIECES, repeat=n):
            for u in UESC if n < 3 or tier == "thorough" and n < 4 else UESC[:2]:
                yield "U&'" + "".join(t) + "'" + u
    for e in "\\!\u00e9":
        for cp in (0, 1, 0x27, 0x41, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0xffffff):
            for pre, post in (("", ""), ("a", "F"), (e + e, e + e)):
                sfx = "" if e == "\\" else " UESCAPE '%s'" % e
                yield "U&'%s%s+%06X%s'%s" % (pre, e, cp, post, sfx)
                if cp < 0x10000:
                    yield "U&'%s%s%04x%s'%s" % (pre, e, cp, post, sfx)


def text_check(text):
    """a raw text: what the reference reads (or refuses) is what the library must read (or refuse)"""
    raw_check("expr", text)


def raw_check(kind, text):
    try:
        n = ref(kind, text)
        if has_unsup(n):
            n = None
    except Bad:
        n = None
    if n is None:
        step()
        try:
            obj = bind.lib_parse(kind, text)
        except Exception:
            bump("texts_refused")
            validated()
            return
        raise Violation("%r is not legal but is read as %s" % (text, neutral(kind, obj)))
    bump("texts_read")
    obj, got = lib_read(kind, text)
    same(want(n), got, "%r is read as a different tree" % text)
    printed = lib_print(obj)
    try:
        m = ref(kind, printed)
    except Bad as e:
        raise Violation("%r is printed as %r which is not valid (%s)" % (text, printed, e))
    same(want(n), fold_frames(norm(m)), "%r is printed as %r" % (text, printed))


# --- numbers --------------------------------------------------------------------------------------------------------
def number_texts(tier):
    al = ["0", "1", "9", ".", "E", "e", "+", "-"]
    for n in range(1, 6 if tier == "quick" else 7):
        for t in itertools.product(al, repeat=n):
            yield "".join(t)
    for b in (31, 32, 53, 63, 64):
        for d in (-1, 0, 1):
            for sg in ("", "-", "- ", "--", "+", "-(", "+-"):
                v = sg + str(2 ** b + d)
                yield v + (")" if "(" in v else "")
                yield "1 - %s" % v.strip("(")
    for k in (1, 2, 17, 18, 19, 20, 37, 38, 39):
        for sg in ("", "-"):
            yield sg + "9" * k
            yield sg + "0" * k + "7"
            for j in range(0, k + 1, 1 if k < 5 else 6):
                yield sg + "9" * (k - j) + "." + "1" * j
                yield sg + "0" * (k - j) + "." + "0" * j
                yield sg + "0" * (k - j) + "." + "5" * j
    for e in ("308", "309", "-323", "-324", "-400", "+00", "000", "22", "23", "-5", "16"):
        for m in ("1", "1.", ".1", "1.7976931348623157", "4.9", "123456789.125", "0", "0.0"):
            for sg in ("", "-", "+"):
                yield sg + m + "E" + e
                yield sg + m + "e" + e
    for w in ("1a", "1_", "_1", "1_0", "0x1", "1E", "1E+", "1.5.5", "1..", ".", "..1", "1 E5", "1. 5", "TRUE", "true", "True", "FALSE", "NULL", "null", "Null", "X'00'", "x'00'"):
        for t in ("%s", "-%s", "a.%s", "%s.a", "(%s)", "a + %s", "ARRAY[%s]"):
            yield t % w


# --- intervals ------------------------------------------------------------------------------------------------------
UNITS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]


def interval_values(n):
    """a value has one sign at most; what more signs would denote is not defined"""
    for k in range(n + 1):
        for t in itertools.product(["-", "+", "1", "0", " ", ":", ".", "''"], repeat=k):
            if t[:1] not in (("-",), ("+",)) or t[1:] and t[1] not in "+-":
                yield "".join(t)


def interval_texts(tier):
    units = [u for u in UNITS] + ["%s TO %s" % (u, v) for u in UNITS for v in UNITS]
    i = 0
    for s in interval_values(4 if tier == "quick" else 5):
        for sg in ("", "-", "+"):
            i += 1
            for u in units if len(s) < 2 or tier == "thorough" and len(s) < 3 else [units[i % len(units)]]:
                yield "INTERVAL %s'%s' %s" % (sg, s, u)
    for s in ("1-2", "+1-2", "-1-2", "10-11", "1 2:3:4.567", "-1 2:3:4.5", "- 1", " -1", "1-", "u", "\n", "1e5"):
        for sg in ("", "-", "+", "- ", "+ "):
            for u in ("YEAR TO MONTH", "day to second", "HOUR"):
                for t in ("INTERVAL %s'%s' %s", "- INTERVAL %s'%s' %s", "a + interval %s'%s' %s * 2", "INTERVAL %s U&'%s' %s"):
                    yield t % (sg, s, u)


def interval_builds(tier):
    for s in interval_values(3):
        for u in UNITS:
            yield s.replace("''", "'"), u, None
    for s in ("1-2", "-1-2", "1", "-1", "", "'", "a b"):
        for u in UNITS:
            for v in UNITS:
                yield s, u, v


def interval_build_check(case):
    print_ok("expr", ("iv",) + case)


def py_numbers(tier):
    ds = ["0", "1", "9", "10", "100", "05", "123", "99999999999999999999999999999999999999", "1000000000000000000000000000000000000"]
    for sg in (0, 1):
        for d in ds:
            for ex in list(range(-6, 7)) + [-38, -37, 38, 37, -40]:
                yield "D", (sg, d, ex)
    for v in ("NaN", "sNaN", "Infinity", "-Infinity", "-0", "0E+5", "0E-5", "-0.00"):
        yield "Ds", v
    for sg in ("", "-"):
        for m in ("1", "2.5", "1.7976931348623157", "9.999999999999999", "1.0000000000000002"):
            for e in range(-324, 309, 1 if m == "1" else 9):
                yield "f", "%s%se%d" % (sg, m, e)
        for v in ("0.0", "inf", "nan", "4.9e-324", "123456789.123", "0.1", "1e16", "1e15", "100.0"):
            yield "f", sg + v
    for b in range(0, 70):
        for d in (-1, 0, 1):
            yield "i", 2 ** b + d
            yield "i", -2 ** b + d
    yield "b", True
    yield "b", False


def py_check(case):
    k, v = case
    if k == "D":
        v = Decimal((v[0], tuple(map(int, v[1])), v[2]))
    elif k == "Ds":
        v = Decimal(v)
    elif k == "f":
        v = float(v)
    legal = True
    if k in ("D", "Ds"):
        legal = v.is_finite()
        if legal:
            digits = lang.canon_dec(format(v, "f")).lstrip("-").replace(".", "")
            if len(digits) > 38:
                legal = False
    elif k == "f":
        legal = v == v and v not in (float("inf"), float("-inf"))
    elif k == "i":
        legal = -2 ** 63 <= v < 2 ** 63
    step()
    try:
        obj = bind.E.wrap_literal(v)
        texts = [obj.sql(bind.opts(m)) for m in ("DEFAULT", "PRETTY")]
    except Exception as e:
        if legal:
            raise Violation("Python value %r is refused: %s" % (v, e))
        bump("values_refused")
        validated()
        return
    if not legal:
        raise Violation("Python value %r is printed as %r" % (v, texts[0]))
    for t in texts:
        try:
            m = ref("expr", t)
        except Bad as e:
            raise Violation("Python value %r prints as %r which is not SQL (%s)" % (v, t, e))
        if k == "b":
            exp = ("bool", v)
        elif k == "i":
            exp = ("int", v)
        elif k == "f":
            exp = ("dbl", v)
        else:
            exp = ("dec", lang.canon_dec(format(v, "f")))
        same(exp, norm(m), "Python value %r prints as %r" % (v, t))
        if k == "f" and (str(norm(m)[1]) != str(v)):
            raise Violation("sign of %r is lost in %r" % (v, t))
        back, got = lib_read("expr", t)
        same(exp, got, "Python value %r printed as %r is read back" % (v, t))
        if guarded("equals", back.equals, obj) is not True:
            raise Violation("Python value %r printed as %r reads back unequal" % (v, t))


# --- unquoted names -------------------------------------------------------------------------------------------------
TEMPL = [
    ("expr", "%s"), ("expr", "%s + 1"), ("expr", "a.%s"), ("expr", "%s.a"), ("expr", "a.b.%s"), ("expr", "%s -> 1"), ("expr", "(x, %s) -> x"), ("expr", "(%s)[1]"),
    ("expr", "SUM(a) OVER %s"), ("expr", "SUM(a) OVER (%s)"), ("expr", "NOT %s"), ("expr", "CAST(%s AS BIGINT)"), ("expr", "SUM(%s)"), ("expr", "a IN (%s)"),
    ("query", "SELECT %s"), ("query", "SELECT %s FROM t"), ("query", "SELECT a %s"), ("query", "SELECT a AS %s FROM t"), ("query", "SELECT %s.* FROM t"),
    ("query", "SELECT 1 FROM %s"), ("query", "SELECT 1 FROM %s.t"), ("query", "SELECT 1 FROM s.%s"), ("query", "SELECT 1 FROM %s.%s.%s"),
    ("query", "SELECT 1 FROM t %s"), ("query", "SELECT 1 FROM t AS %s"), ("query", "SELECT 1 FROM t x (%s)"), ("query", "SELECT 1 FROM t %s (a)"),
    ("query", "SELECT 1 FROM t JOIN u USING (%s)"), ("query", "SELECT 1 FROM t JOIN %s ON a"), ("query", "SELECT 1 FROM t %s JOIN u ON a"),
    ("query", "WITH %s AS (SELECT 1) SELECT 2"), ("query", "WITH x (%s) AS (SELECT 1) SELECT 2"), ("query", "SELECT 1 FROM t WINDOW %s AS (ORDER BY a)"),
    ("query", "SELECT t.* AS (%s) FROM t"), ("query", "TABLE %s"), ("query", "SELECT a FROM t ORDER BY %s"), ("query", "SELECT a FROM t GROUP BY %s"),
    ("query", "SELECT a FROM t WHERE %s"), ("query", "VALUES %s"),
]


def words(tier):
    ws = []
    for w in sorted(lang.KEYWORDS):
        ws += [w, w.lower(), '"%s"' % w]
        if tier == "thorough":
            ws += [w.capitalize(), w.lower() + "_", "_" + w, "1" + w, '"%s"' % w.lower(), w[:-1]]
    ws += ["a", "A", "_", "_a", "a1", "1a", "a$b", "a@b", "`a`", '"a""b"', '""', "\u00e9", "a b", "a'b", "U&\"a\"", "x", "X", "u", "STRING", "string", "TEXT_STRING", "#a", "a#", "a-b", "9_", "?"]
    for w in ws:
        for i in range(len(TEMPL)):
            yield w, i


def word_check(case):
    w, i = case
    kind, t = TEMPL[i]
    raw_check(kind, t.replace("%s", w))


FAMILIES = [
    Family("contents of literals", literal_cases, content_check(LITERALS)),
    Family("contents of names", name_cases, content_check(NAMES)),
    Family("unicode strings", ucases, text_check),
    Family("number texts", number_texts, text_check),
    Family("interval texts", interval_texts, text_check),
    Family("intervals built", interval_builds, interval_build_check),
    Family("python numbers", py_numbers, py_check),
    Family("words as names", words, word_check),
]


def main():
    bind.load()
    return run("C06", FAMILIES)
