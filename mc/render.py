"""Neutral tree -> SQL text, with every layout/spelling choice under the caller's control.  Independent of the library;
checked against the reference parser (parse(render(n)) == n) by every check that uses it."""
import re
from dataclasses import dataclass

from .lang import KEYWORDS, NOFRAME, _SPELL, lex


@dataclass(frozen=True)
class Style:
    full: bool = False        # parenthesise every operand
    lower: bool = False       # lower-case keywords
    words: bool = False       # spell out optional words (AS, INNER, OUTER, ASC, NULLS LAST, ALL, DISTINCT, ROW constructor)
    quote: bool = False       # quote every identifier
    sep: str = " "            # between tokens; "" = only where needed
    ne: str = "<>"


MIN = Style()
STYLES = {
    "min": MIN, "full": Style(full=True), "lower": Style(lower=True, ne="!="), "words": Style(words=True, quote=True),
    "tight": Style(sep=""), "comment": Style(sep=" /* ' \" ( */ "), "lines": Style(sep=" -- '\n\t"),
}
OR, AND, NOT, PRED, CAT, ADD, MUL, UN, PRIM = 1, 2, 3, 4, 5, 6, 7, 8, 10


class Kw(str):
    """keyword token, subject to case choice"""


def ident(s, st):
    if not st.quote and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s) and _SPELL.get(s.upper(), s.upper()) not in KEYWORDS and s.upper() != "TEXT_STRING":
        return s
    return '"' + s.replace('"', '""') + '"'


def string(s):
    return "'" + s.replace("'", "''") + "'"


def kws(s):
    return [Kw(x) for x in s.split()]


class Render:
    def __init__(self, st=MIN):
        self.st = st

    def commas(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out.append(",")
            out += p
        return out

    def idents(self, xs):
        return ["("] + self.commas([[ident(x, self.st)] for x in xs]) + [")"]

    def e(self, n, need=0):
        lvl, toks = self.expr(n)
        if lvl < need or (self.st.full and lvl < PRIM):
            return ["("] + toks + [")"]
        return toks

    def args(self, xs):
        return self.commas([self.e(x) for x in xs])

    def order(self, ob):
        out = []
        for x, o, nl in ob:
            t = self.e(x)
            if o != "ASC" or self.st.words:
                t = t + [Kw(o)]
            if nl != "LAST" or self.st.words:
                t = t + kws("NULLS " + nl)
            out.append(t)
        return kws("ORDER BY") + self.commas(out)

    def number(self, text):
        return (PRIM, ["-", text[1:]]) if text.startswith("-") else (PRIM, [text])

    def qual(self, t):
        """qualifier before a dot"""
        if isinstance(t, str):
            return [ident(t, self.st)]
        lvl, toks = self.expr(t)
        # a bare name, a qualified name and a lambda would read differently: they are never legal bases in parentheses here
        return toks if lvl >= PRIM else ["("] + toks + [")"]

    def expr(self, n):
        k, st = n[0], self.st
        if k == "int":
            return self.number(str(n[1]))
        if k == "dec":
            return self.number(n[1])
        if k == "dbl":
            s = "%.17E" % n[1]
            m, ex = s.split("E")
            m = m.rstrip("0")
            m = m + "0" if m.endswith(".") else m
            return self.number(m + "E" + str(int(ex)))
        if k == "str":
            return PRIM, [string(n[1])]
        if k == "bool":
            return PRIM, [Kw("TRUE" if n[1] else "FALSE")]
        if k == "null":
            return PRIM, [Kw("NULL")]
        if k == "tc":
            nm = n[1]
            return PRIM, ([Kw(nm)] if nm in KEYWORDS else [nm]) + [string(n[2])]
        if k == "iv":
            v, sign = n[1], []
            if v.startswith("-"):
                v, sign = v[1:], ["-"]
            elif st.words:
                sign = ["+"]
            return PRIM, [Kw("INTERVAL")] + sign + [string(v), Kw(n[2])] + (kws("TO " + n[3]) if n[3] else [])
        if k == "col":
            if n[2] is None:
                return PRIM, [ident(n[1], st)]
            return PRIM, self.qual(n[2]) + [".", ident(n[1], st)]
        if k == "lvar":
            return PRIM, [ident(n[1], st)]
        if k == "star":
            return PRIM, (["*"] if n[1] is None else self.qual(n[1]) + [".", "*"])
        if k == "bin":
            p = ADD if n[1] in "+-" else MUL
            return p, self.e(n[2], p) + [n[1]] + self.e(n[3], p + 1)
        if k == "cat":
            return CAT, self.e(n[1][0], CAT) + ["||"] + self.e(n[1][1], ADD)
        if k in ("neg", "pos"):
            x = self.e(n[1], UN)
            if k == "neg" and x[0][0] in "0123456789.":
                x = ["("] + x + [")"]  # otherwise the sign would belong to the number
            return UN, ["-" if k == "neg" else "+"] + x
        if k == "cmp":
            o = st.ne if n[1] == "<>" else n[1]
            return PRED, self.e(n[2], CAT) + [o] + self.e(n[3], CAT)
        if k == "and":
            return AND, self.e(n[1], AND) + [Kw("AND")] + self.e(n[2], NOT)
        if k == "or":
            return OR, self.e(n[1], OR) + [Kw("OR")] + self.e(n[2], AND)
        if k == "not":
            x = n[1]
            if x[0] in ("btw", "in", "inq", "like", "isnull", "dist") and not st.full and len(x) % 2 == 0:
                return self.pred(x, True)
            return NOT, [Kw("NOT")] + self.e(x, NOT)
        if k in ("btw", "in", "inq", "like", "isnull", "dist"):
            return self.pred(n, False)
        if k == "case":
            t = [Kw("CASE")] + (self.e(n[1]) if n[1] is not None else [])
            for c, v in n[2]:
                t += [Kw("WHEN")] + self.e(c) + [Kw("THEN")] + self.e(v)
            if n[3] is not None:
                t += [Kw("ELSE")] + self.e(n[3])
            return PRIM, t + [Kw("END")]
        if k in ("cast", "trycast"):
            return PRIM, [Kw("CAST" if k == "cast" else "TRY_CAST"), "("] + self.e(n[1]) + [Kw("AS")] + self.type(n[2]) + [")"]
        if k == "arr":
            return PRIM, [Kw("ARRAY"), "["] + self.args(n[1]) + ["]"]
        if k == "row":
            return PRIM, ([Kw("ROW")] if len(n[1]) == 1 or st.words else []) + ["("] + self.args(n[1]) + [")"]
        if k == "sub":
            return PRIM, self.e(n[1], PRIM) + ["["] + self.e(n[2], CAT) + ["]"]
        if k == "lam":
            ns = [ident(n[1][0], st)] if len(n[1]) == 1 and not st.words else self.idents(n[1])
            # a lambda is a primary whose body extends as far right as it can
            return 0, ns + ["->"] + self.e(n[2])
        if k == "fn":
            return PRIM, self.fn(n)
        if k == "listagg":
            t = [Kw("LISTAGG"), "("] + ([Kw("ALL")] if st.words else []) + self.e(n[1])
            if n[2] != " ":
                t += [",", string(n[2])]
            if n[3] is not None:
                t += kws("ON OVERFLOW TRUNCATE") + ([string(n[3][0])] if n[3][0] != "..." or st.words else []) + kws(n[3][1])
            elif st.words:
                t += kws("ON OVERFLOW ERROR")
            return PRIM, t + [")"] + kws("WITHIN GROUP") + ["("] + self.order(n[4]) + [")"]
        if k == "curr":
            return PRIM, [Kw(n[1])] + (["(", str(n[2]), ")"] if n[2] is not None else [])
        if k == "normalize":
            return PRIM, [Kw("NORMALIZE"), "("] + self.e(n[1], CAT) + ([",", n[2]] if n[2] else []) + [")"]
        if k == "q":
            return PRIM, ["("] + self.query(n[1]) + [")"]
        raise KeyError(n)

    def pred(self, n, neg):
        k = n[0]
        nt = [Kw("NOT")] if neg else []
        v = self.e(n[1], CAT)
        if k == "btw":
            return PRED, v + nt + [Kw("BETWEEN")] + self.e(n[2], CAT) + [Kw("AND")] + self.e(n[3], CAT)
        if k == "in":
            return PRED, v + nt + [Kw("IN"), "("] + self.args(n[2]) + [")"]
        if k == "inq":
            return PRED, v + nt + [Kw("IN"), "("] + self.query(n[2]) + [")"]
        if k == "like":
            return PRED, v + nt + [Kw("LIKE")] + self.e(n[2], CAT) + ([Kw("ESCAPE")] + self.e(n[3], CAT) if n[3] is not None else [])
        if k == "isnull":
            return PRED, v + [Kw("IS")] + nt + [Kw("NULL")]
        return PRED, v + [Kw("IS")] + nt + kws("DISTINCT FROM") + self.e(n[2], CAT)

    def fn(self, n):
        _, name, args, ob, flt, nulls, win = n
        t = [Kw(name) if name in KEYWORDS else (name.lower() if self.st.lower else name), "("]
        if self.st.words and args and args[0][0] != "star":
            t.append(Kw("ALL"))
        t += self.args(args)
        if ob:
            t += self.order(ob)
        t.append(")")
        if flt is not None:
            t += [Kw("FILTER"), "(", Kw("WHERE")] + self.e(flt) + [")"]
        if nulls != "RESPECT" or (self.st.words and win is not None and not (args and args[0][0] == "star")):
            t += kws(nulls + " NULLS")
        if win is not None:
            if win[1] is not None and win[2:] == ((), (), NOFRAME) and not self.st.full:
                t += [Kw("OVER"), ident(win[1], self.st)]
            else:
                t += [Kw("OVER"), "("] + self.win(win) + [")"]
        return t

    def bound(self, b):
        if b[0] in ("UP", "UF"):
            return kws("UNBOUNDED " + ("PRECEDING" if b[0] == "UP" else "FOLLOWING"))
        if b[0] == "CR":
            return kws("CURRENT ROW")
        return self.e(b[1]) + [Kw("PRECEDING" if b[0] == "P" else "FOLLOWING")]

    def win(self, w):
        _, parent, parts, ob, fr = w
        t = [ident(parent, self.st)] if parent is not None else []
        if parts:
            t += kws("PARTITION BY") + self.args(parts)
        if ob:
            t += self.order(ob)
        if fr != NOFRAME or self.st.words:
            if fr[2] == ("CR",) and not self.st.words:
                t += [Kw(fr[0])] + self.bound(fr[1])
            else:
                t += [Kw(fr[0]), Kw("BETWEEN")] + self.bound(fr[1]) + [Kw("AND")] + self.bound(fr[2])
        return t

    def type(self, t):
        name = t[1]
        if name == "DECIMAL":
            if t[2:] == (38, 0) and not self.st.words:
                return ["DECIMAL"]
            return ["DECIMAL", "(", str(t[2]), ",", str(t[3]), ")"]
        if name in ("VARCHAR", "CHAR"):
            return [name] + (["(", str(t[2]), ")"] if t[2] is not None else [])
        if name in ("TIME", "TIMESTAMP"):
            tz = kws("WITH TIME ZONE") if t[3] else (kws("WITHOUT TIME ZONE") if self.st.words else [])
            return [Kw(name)] + (["(", str(t[2]), ")"] if t[2] is not None else []) + tz
        if name == "ARRAY":
            return [Kw("ARRAY"), "("] + self.type(t[2]) + [")"]
        if name == "QDIGEST":
            return ["QDIGEST", "("] + self.type(t[2]) + [")"]
        if name == "MAP":
            return [Kw("MAP"), "("] + self.type(t[2]) + [","] + self.type(t[3]) + [")"]
        if name == "ROW":
            return [Kw("ROW"), "("] + self.commas([self.type(x) for x in t[2]]) + [")"]
        if name == "INTERVAL":
            return kws("INTERVAL %s TO %s" % (t[2], t[3]))
        if name == "DOUBLE":
            return kws("DOUBLE PRECISION") if self.st.words else [Kw("DOUBLE")]
        return [Kw(name) if name in KEYWORDS else name]

    # ------------------------------------------------------------------------------------------------------ queries
    def query(self, q):
        _, with_, body, ob, off, lim = q
        t = []
        if with_:
            parts = []
            for name, cols, x in with_:
                parts.append([ident(name, self.st)] + (self.idents(cols) if cols is not None else []) + [Kw("AS"), "("] + self.query(x) + [")"])
            t += [Kw("WITH")] + self.commas(parts)
        t += self.body(body)
        if ob:
            t += self.order(ob)
        if off is not None:
            t += [Kw("OFFSET"), str(off)] + ([Kw("ROWS")] if self.st.words else [])
        if lim is not None:
            t += [Kw("LIMIT"), str(lim)]
        elif self.st.words:
            t += kws("LIMIT ALL")
        return t

    SETP = {"UNION": 1, "EXCEPT": 1, "INTERSECT": 2}

    def operand(self, q, need):
        _, with_, body, ob, off, lim = q
        assert not with_
        bare = not ob and off is None and lim is None
        if bare and (body[0] != "setop" or self.SETP[body[1]] >= need) and not self.st.full:
            return self.body(body)
        save = self.st
        if self.st.words:
            self.st = Style(**{**self.st.__dict__, "words": False})
        t = ["("] + self.query(q) + [")"]
        self.st = save
        return t

    def body(self, b):
        st = self.st
        if b[0] == "setop":
            p = self.SETP[b[1]]
            q = [Kw(b[2])] if b[2] == "ALL" or st.words else []
            return self.operand(b[3], p) + [Kw(b[1])] + q + self.operand(b[4], p + 1)
        if b[0] == "table":
            return [Kw("TABLE")] + self.qname(b[1])
        if b[0] == "values":
            return [Kw("VALUES")] + self.args(b[1])
        _, quant, items, fr, wh, gb, hv, wd = b
        t = [Kw("SELECT")] + ([Kw(quant)] if quant != "ALL" or st.words else []) + self.commas([self.item(i) for i in items])
        if fr is not None:
            t += [Kw("FROM")] + self.rel(fr)
        if wh is not None:
            t += [Kw("WHERE")] + self.e(wh)
        if gb is not None:
            t += kws("GROUP BY") + ([Kw(gb[0])] if gb[0] != "ALL" or st.words else []) + self.commas([self.group(g) for g in gb[1]])
        if hv is not None:
            t += [Kw("HAVING")] + self.e(hv)
        if wd:
            t += [Kw("WINDOW")] + self.commas([[ident(nm, st), Kw("AS"), "("] + self.win(w) + [")"] for nm, w in wd])
        return t

    def group(self, g):
        if g[0] == "set":
            if len(g[1]) == 1 and not self.st.full and g[1][0][0] != "row":
                return self.e(g[1][0])
            return ["("] + self.args(g[1]) + [")"]
        if g[0] in ("rollup", "cube"):
            return [Kw(g[0].upper()), "("] + self.args(g[1]) + [")"]
        return kws("GROUPING SETS") + ["("] + self.commas([self.group(x) for x in g[1]]) + [")"]

    def item(self, it):
        if it[0] == "item":
            return self.e(it[1]) + (([Kw("AS")] if self.st.words else []) + [ident(it[2], self.st)] if it[2] is not None else [])
        t = ["*"] if it[1] is None else self.qual(it[1]) + [".", "*"]
        return t + ([Kw("AS")] + self.idents(it[2]) if it[0] == "astar" else [])

    def qname(self, qn):
        t = []
        for k, x in enumerate(qn):
            t += (["."] if k else []) + [ident(x, self.st)]
        return t

    def rel(self, r, need=0):
        """need: 0 relation, 1 left operand / sampledRelation-level, 2 sampledRelation, 3 aliasedRelation, 4 relationPrimary"""
        lvl, t = self.rel0(r)
        if lvl < need or (self.st.full and lvl < 4):
            return ["("] + t + [")"]
        return t

    def rel0(self, r):
        k, st = r[0], self.st
        if k == "tbl":
            return 4, self.qname(r[1])
        if k == "subq":
            return 4, ["("] + self.query(r[1]) + [")"]
        if k == "unnest":
            return 4, [Kw("UNNEST"), "("] + self.args(r[1]) + [")"] + (kws("WITH ORDINALITY") if r[2] else [])
        if k == "lateral":
            return 4, [Kw("LATERAL"), "("] + self.query(r[1]) + [")"]
        if k == "alias":
            return 3, self.rel(r[1], 4) + ([Kw("AS")] if st.words else []) + [ident(r[2], st)] + (self.idents(r[3]) if r[3] is not None else [])
        if k == "sample":
            return 2, self.rel(r[1], 3) + [Kw("TABLESAMPLE"), Kw(r[2]), "("] + self.e(r[3]) + [")"]
        _, jt, nat, l, rr, c = r
        t = self.rel(l, 0)
        if jt == "CROSS":
            return 0, t + kws("CROSS JOIN") + self.rel(rr, 2)
        if nat:
            t = t + [Kw("NATURAL")]
        if jt != "INNER" or st.words:
            t = t + [Kw(jt)]
        if jt != "INNER" and st.words:
            t = t + [Kw("OUTER")]
        t = t + [Kw("JOIN")] + self.rel(rr, 2)
        if c is not None:
            t += [Kw("ON")] + self.e(c[1]) if c[0] == "on" else [Kw("USING")] + self.idents(c[1])
        return 0, t


_GLUE = {}


def needs_space(a, b):
    key = (a, b)
    if key not in _GLUE:
        la, lb, lab = lex(a), lex(b), lex(a + b)
        _GLUE[key] = lab != la + lb
    return _GLUE[key]


def join(toks, st):
    toks = [x.lower() if isinstance(x, Kw) and st.lower and x not in ("NFC", "NFD", "NFKC", "NFKD") else str(x) for x in toks]
    if st.sep:
        return st.sep.join(toks)
    out = toks[0]
    last = toks[0]
    for t in toks[1:]:
        out += (" " if needs_space(last, t) else "") + t
        last = t
    return out


def render(kind, n, st=MIN):
    r = Render(st)
    if kind == "expr":
        toks = r.e(n)
    elif kind == "query":
        toks = r.query(n)
    else:
        toks = r.type(n)
    return join(toks, st)
