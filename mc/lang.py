"""Reference model of the SQL dialect: lexer, full-backtracking ordered-choice parser for the expression,
query and type rules of Trino (the grammar the library targets), written independently of the library.
Everything is expressed over neutral tuples; see DESIGN.md section "Neutral trees"."""
import re
from decimal import Decimal

KEYWORDS = frozenset('''
ABSENT ADD ADMIN AFTER ALL ALTER ANALYZE AND ANY ARRAY AS ASC AT AUTHORIZATION BERNOULLI BETWEEN
BOTH BY CALL CASCADE CASE CAST CATALOGS COLUMN COLUMNS COMMENT COMMIT COMMITTED CONDITIONAL
CONSTRAINT COPARTITION COUNT CREATE CROSS CUBE CURRENT CURRENT_CATALOG CURRENT_DATE CURRENT_PATH
CURRENT_ROLE CURRENT_SCHEMA CURRENT_TIME CURRENT_TIMESTAMP CURRENT_USER DATA DATE DAY DEALLOCATE
DEFAULT DEFINE DEFINER DELETE DENY DESC DESCRIBE DESCRIPTOR DISTINCT DISTRIBUTED DOUBLE DROP ELSE
EMPTY ENCODING END ERROR ESCAPE EXCEPT EXCLUDING EXECUTE EXISTS EXPLAIN EXTRACT FALSE FETCH FILTER
FINAL FIRST FOLLOWING FOR FORMAT FROM FULL FUNCTIONS GRANT GRANTED GRANTS GRAPHVIZ GROUP GROUPING
GROUPS HAVING HOUR IF IGNORE IN INCLUDING INITIAL INNER INPUT INSERT INTERSECT INTERVAL INTO INVOKER
IO IS ISOLATION JOIN JSON JSON_ARRAY JSON_EXISTS JSON_OBJECT JSON_QUERY JSON_VALUE KEEP KEY KEYS
LAST LATERAL LEADING LEFT LEVEL LIKE LIMIT LISTAGG LOCAL LOCALTIME LOCALTIMESTAMP LOGICAL MAP MATCH
MATCHED MATCHES MATCH_RECOGNIZE MATERIALIZED MEASURES MERGE MINUTE MONTH NATURAL NEXT NFC NFD NFKC
NFKD NO NONE NORMALIZE NOT NULL NULLIF NULLS OBJECT OF OFFSET OMIT ON ONE ONLY OPTION OR ORDER
ORDINALITY OUTER OUTPUT OVER OVERFLOW PARTITION PARTITIONS PASSING PAST PATH PATTERN PER PERMUTE
POSITION PRECEDING PRECISION PREPARE PRIVILEGES PROPERTIES PRUNE QUOTES RANGE READ RECURSIVE REFRESH
RENAME REPEATABLE REPLACE RESET RESPECT RESTRICT RETURNING REVOKE RIGHT ROLE ROLES ROLLBACK ROLLUP
ROW ROWS RUNNING SCALAR SCHEMA SCHEMAS SECOND SECURITY SEEK SELECT SERIALIZABLE SESSION SET SETS
SHOW SKIP SOME START STATS SUBSET SUBSTRING SYSTEM TABLE TABLES TABLESAMPLE TEXT TEXT_STRING THEN
TIES TIME TIMESTAMP TO TRAILING TRANSACTION TRIM TRUE TRUNCATE TRY_CAST TYPE UESCAPE UNBOUNDED
UNCOMMITTED UNCONDITIONAL UNION UNIQUE UNKNOWN UNMATCHED UNNEST UPDATE USE USER USING UTF16 UTF32
UTF8 VALIDATE VALUE VALUES VERBOSE VERSION VIEW WHEN WHERE WINDOW WITH WITHIN WITHOUT WORK WRAPPER
WRITE YEAR ZONE
'''.split())
NONRESERVED = frozenset('''
ABSENT ADD ADMIN AFTER ALL ANALYZE ANY ARRAY ASC AT AUTHORIZATION BERNOULLI BOTH CALL CASCADE
CATALOGS COLUMN COLUMNS COMMENT COMMIT COMMITTED CONDITIONAL COPARTITION COUNT CURRENT DATA DATE DAY
DEFAULT DEFINE DEFINER DENY DESC DESCRIPTOR DISTRIBUTED DOUBLE EMPTY ENCODING ERROR EXCLUDING
EXPLAIN FETCH FILTER FINAL FIRST FOLLOWING FORMAT FUNCTIONS GRANT GRANTED GRANTS GRAPHVIZ GROUPS
HOUR IF IGNORE INCLUDING INITIAL INPUT INTERVAL INVOKER IO ISOLATION JSON KEEP KEY KEYS LAST LATERAL
LEADING LEVEL LIMIT LOCAL LOGICAL MAP MATCH MATCHED MATCHES MATCH_RECOGNIZE MATERIALIZED MEASURES
MERGE MINUTE MONTH NEXT NFC NFD NFKC NFKD NO NONE NULLIF NULLS OBJECT OF OFFSET OMIT ONE ONLY OPTION
ORDINALITY OUTPUT OVER OVERFLOW PARTITION PARTITIONS PASSING PAST PATH PATTERN PER PERMUTE POSITION
PRECEDING PRECISION PRIVILEGES PROPERTIES PRUNE QUOTES RANGE READ REFRESH RENAME REPEATABLE REPLACE
RESET RESPECT RESTRICT RETURNING REVOKE ROLE ROLES ROLLBACK ROW ROWS RUNNING SCALAR SCHEMA SCHEMAS
SECOND SECURITY SEEK SERIALIZABLE SESSION SET SETS SHOW SOME START STATS SUBSET SUBSTRING SYSTEM
TABLES TABLESAMPLE TEXT TEXT_STRING TIES TIME TIMESTAMP TO TRAILING TRANSACTION TRUNCATE TRY_CAST
TYPE UNBOUNDED UNCOMMITTED UNCONDITIONAL UNIQUE UNKNOWN UNMATCHED UPDATE USE USER UTF16 UTF32 UTF8
VALIDATE VALUE VERBOSE VERSION VIEW WINDOW WITHIN WITHOUT WORK WRAPPER WRITE YEAR ZONE
'''.split())

_ONLY_UPPER = {"NFC", "NFD", "NFKC", "NFKD", "UTF8", "UTF16", "UTF32", "SKIP"}
_SPELL = {"STRING": "TEXT_STRING"}
_OPS = ["{-", "-}", "->", "=>", "<>", "!=", "<=", ">=", "||"] + list("=<>+-*/%?.,()[]{}|^$:;")

_RX = re.compile(r"""
 (?P<ws>[ \r\n\t]+)
|(?P<sc>--[^\r\n]*\r?\n?)
|(?P<bc>/\*(?:.|\n|\r)*?\*/)
|(?P<ustr>U&'(?:[^']|'')*')
|(?P<bin>X'[^']*')
|(?P<dbl>(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)E[+-]?[0-9]+)
|(?P<dec>[0-9]+\.[0-9]*|\.[0-9]+)
|(?P<digid>[0-9]+[A-Za-z_][A-Za-z0-9_]*|[0-9]+(?=_)[A-Za-z0-9_]+)
|(?P<int>[0-9]+)
|(?P<word>[A-Za-z_][A-Za-z0-9_]*)
|(?P<str>'(?:[^']|'')*')
|(?P<qid>"(?:[^"]|"")*")
|(?P<bq>`(?:[^`]|``)*`)
|(?P<op>\{-|-\}|->|=>|<>|!=|<=|>=|\|\||[=<>+\-*/%?.,()\[\]{}|^$:])
|(?P<bad>(?:.|\n|\r))
""", re.X)


class Tok(tuple):
    __slots__ = ()


def lex(text):
    """Token list [(kind, text)], hidden-channel tokens removed. kind 'kw' has canonical upper-case name."""
    out, pos, n = [], 0, len(text)
    while pos < n:
        m = _RX.match(text, pos)
        kind = m.lastgroup
        s = m.group()
        # ANTLR takes the longest match: a number followed by letters is a digit identifier when that is longer
        if kind in ("dbl", "dec", "int"):
            m2 = re.compile(r"[0-9][A-Za-z0-9_]+").match(text, pos)
            if m2 and len(m2.group()) > len(s) and re.search(r"[A-Za-z_]", m2.group()):
                kind, s = "digid", m2.group()
        pos += len(s)
        if kind in ("ws", "sc", "bc"):
            continue
        if kind == "word":
            up = s.upper()
            key = _SPELL.get(up, up)
            if up == "TEXT_STRING":
                kind = "id"
            elif key in KEYWORDS and (s == up or (s == s.lower() and key not in _ONLY_UPPER and key != "TEXT_STRING")):
                out.append(("kw", key, s))
                continue
            else:
                kind = "id"
        if kind == "op" and s == "!=":
            out.append(("op", "<>", s))
            continue
        out.append((kind, s, s))
    return out


class Bad(Exception):
    """not in the language"""


def unescape_unicode(body, esc):
    out, i, n = [], 0, len(body)
    while i < n:
        c = body[i]
        if c != esc:
            out.append(c)
            i += 1
            continue
        if i + 1 < n and body[i + 1] == esc:
            out.append(esc)
            i += 2
            continue
        if i + 1 < n and body[i + 1] == "+":
            h, step = body[i + 2:i + 8], 8
            want = 6
        else:
            h, step = body[i + 1:i + 5], 5
            want = 4
        if len(h) != want or not re.fullmatch(r"[0-9A-Fa-f]+", h):
            raise Bad("bad unicode escape")
        cp = int(h, 16)
        if cp > 0x10FFFF or 0xD800 <= cp <= 0xDFFF:
            raise Bad("bad code point")
        out.append(chr(cp))
        i += step
    return "".join(out)


NOFRAME = ("RANGE", ("UP",), ("CR",))
# the same frame written out next to a referenced window: not the same text as leaving it out (see DESIGN.md)
EXPLICIT = NOFRAME + ("explicit",)
TYPE_ARITY = {  # name -> (min params, max params)
    **{t: (0, 0) for t in ("BOOLEAN INTEGER TINYINT SMALLINT BIGINT REAL DOUBLE VARBINARY JSON DATE IPADDRESS UUID "
                           "HYPERLOGLOG P4HYPERLOGLOG TDIGEST UNKNOWN").split()},
    "DECIMAL": (0, 2), "VARCHAR": (0, 1), "CHAR": (0, 1), "ARRAY": (1, 1), "MAP": (2, 2), "QDIGEST": (1, 1), "ROW": (1, 9),
}


def upper(name):
    """names of types and functions are compared without regard to the case of their (ASCII) letters; the upper case of e.g. a
    dotless i, a long s or a ligature is made of ASCII letters too, but Trino (which lowers names) takes them for something else"""
    return name.upper() if name.isascii() else name


def mk_type(name, params):
    """Validated generic type; raises Bad for anything Trino's rules do not allow."""
    name = upper(name)
    if name in ("TIME", "TIMESTAMP"):
        if len(params) > 1 or any(not isinstance(p, int) for p in params):
            raise Bad("time params")
        return mk_time(name, params[0] if params else None, False)
    if name not in TYPE_ARITY:
        raise Bad("unknown type " + name)
    lo, hi = TYPE_ARITY[name]
    if not lo <= len(params) <= hi:
        raise Bad("arity")
    if name == "DECIMAL":
        if any(not isinstance(p, int) for p in params):
            raise Bad("decimal params")
        p = params[0] if params else 38
        s = params[1] if len(params) > 1 else 0
        if not 0 < p <= 38 or not 0 <= s <= p:
            raise Bad("decimal range")
        return ("t", "DECIMAL", p, s)
    if name in ("VARCHAR", "CHAR"):
        if any(not isinstance(p, int) for p in params):
            raise Bad("char params")
        n = params[0] if params else (1 if name == "CHAR" else None)
        if n is not None and n > (65536 if name == "CHAR" else 2147483646):
            raise Bad("length")
        return ("t", name, n)
    if name in ("ARRAY", "QDIGEST"):
        if not isinstance(params[0], tuple):
            raise Bad("element type")
        return ("t", name, params[0])
    if name == "MAP":
        if any(not isinstance(p, tuple) for p in params):
            raise Bad("map types")
        return ("t", "MAP", params[0], params[1])
    if name == "ROW":
        if any(not isinstance(p, tuple) for p in params):
            raise Bad("row types")
        return ("t", "ROW", tuple(params))
    return ("t", name)


def mk_time(name, precision, tz):
    if precision is not None and (not isinstance(precision, int) or not 0 <= precision <= 12):
        raise Bad("time precision")
    return ("t", name, precision, tz)


class P:
    """Every rule returns the ordered list of (node, end) parses starting at a position (memoised)."""

    def __init__(self, text):
        self.toks = lex(text)
        self.n = len(self.toks)
        self.memo = {}

    # --- helpers -----------------------------------------------------------------------------------------------
    def kw(self, i, *names):
        return i < self.n and self.toks[i][0] == "kw" and self.toks[i][1] in names

    def op(self, i, *names):
        return i < self.n and self.toks[i][0] == "op" and self.toks[i][1] in names

    def kws(self, i, seq):
        for k, name in enumerate(seq):
            if not self.kw(i + k, name):
                return None
        return i + len(seq)

    def rule(self, name, i, *args):
        key = (name, i) + args
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = []  # guards accidental left recursion
            seen, r = set(), []
            for node, end in getattr(self, "r_" + name)(i, *args):
                if (node, end) not in seen:
                    seen.add((node, end))
                    r.append((node, end))
            self.memo[key] = r
        return r

    def seplist(self, name, i, *args):
        """one or more `name` separated by commas, greedy first; of several readings of the same words the first counts"""
        ends = set()
        for node, e in self.rule(name, i, *args):
            if e in ends:
                continue
            ends.add(e)
            if self.op(e, ","):
                for rest, e2 in self.seplist(name, e + 1, *args):
                    yield (node,) + rest, e2
            yield (node,), e

    # --- identifiers, strings ----------------------------------------------------------------------------------
    def r_ident(self, i):
        if i >= self.n:
            return
        k, s, raw = self.toks[i]
        if k == "id":
            yield raw, i + 1
        elif k == "qid" and len(raw) > 2:
            yield raw[1:-1].replace('""', '"'), i + 1
        elif k == "kw" and s in NONRESERVED:
            yield raw, i + 1
        elif k in ("bq", "digid"):
            yield ("unsup", "ident"), i + 1

    def r_string(self, i):
        if i >= self.n:
            return
        k, s, raw = self.toks[i]
        if k == "str":
            yield raw[1:-1].replace("''", "'"), i + 1
        elif k == "ustr":
            body = raw[3:-1].replace("''", "'")
            if self.kw(i + 1, "UESCAPE") and i + 2 < self.n and self.toks[i + 2][0] == "str":
                esc = self.toks[i + 2][1][1:-1].replace("''", "'")
                try:
                    if len(esc) != 1 or esc in "+'\" " or re.fullmatch("[0-9A-Fa-f]", esc):
                        raise Bad("escape")
                    yield unescape_unicode(body, esc), i + 3
                except Bad:
                    yield ("unsup", "unicode"), i + 3
            try:
                v = unescape_unicode(body, "\\")
            except Bad:
                v = ("unsup", "unicode")
            yield v, i + 1

    def r_qname(self, i):
        for a, e in self.rule("ident", i):
            if self.op(e, "."):
                for rest, e2 in self.rule("qname", e + 1):
                    yield (a,) + rest, e2
            yield (a,), e

    def paren(self, name, i, *args):
        if self.op(i, "("):
            for node, e in self.rule(name, i + 1, *args):
                if self.op(e, ")"):
                    yield node, e + 1

    def parenlist(self, name, i, empty=False):
        if self.op(i, "("):
            for node, e in self.seplist(name, i + 1):
                if self.op(e, ")"):
                    yield node, e + 1
            if empty and self.op(i + 1, ")"):
                yield (), i + 2

    # --- boolean expressions -----------------------------------------------------------------------------------
    def r_expr(self, i, prec=0):
        def tail(left, e):
            if self.kw(e, "AND") and prec <= 2:
                for r, e2 in self.rule("expr", e + 1, 3):
                    yield from tail(("and", left, r), e2)
            if self.kw(e, "OR") and prec <= 1:
                for r, e2 in self.rule("expr", e + 1, 2):
                    yield from tail(("or", left, r), e2)
            yield left, e

        if self.kw(i, "NOT"):
            for x, e in self.rule("expr", i + 1, 3):
                yield from tail(("not", x), e)
        for v, e in self.rule("val", i, 0):
            for pnode, e2 in self.predicate(v, e):
                yield from tail(pnode, e2)
            yield from tail(v, e)

    def predicate(self, v, e):
        if e >= self.n:
            return
        if self.op(e, "=", "<>", "<", "<=", ">", ">="):
            o = self.toks[e][1]
            for r, e2 in self.rule("val", e + 1, 0):
                yield ("cmp", o, v, r), e2
            if self.kw(e + 1, "ALL", "SOME", "ANY"):
                for q, e2 in self.paren("query", e + 2):
                    yield ("unsup", "quantified"), e2
            return
        neg = self.kw(e, "NOT")
        wrap = (lambda x: ("not", x)) if neg else (lambda x: x)
        b = e + 1 if neg else e
        if self.kw(b, "BETWEEN"):
            for lo, e2 in self.rule("val", b + 1, 0):
                if self.kw(e2, "AND"):
                    for hi, e3 in self.rule("val", e2 + 1, 0):
                        yield wrap(("btw", v, lo, hi)), e3
        if self.kw(b, "IN"):
            for xs, e2 in self.parenlist("expr", b + 1):
                yield wrap(("in", v, xs)), e2
            for q, e2 in self.paren("query", b + 1):
                yield wrap(("inq", v, q)), e2
        if self.kw(b, "LIKE"):
            for p, e2 in self.rule("val", b + 1, 0):
                if self.kw(e2, "ESCAPE"):
                    for x, e3 in self.rule("val", e2 + 1, 0):
                        yield wrap(("like", v, p, x)), e3
                yield wrap(("like", v, p, None)), e2
        if self.kw(e, "IS"):
            neg = self.kw(e + 1, "NOT")
            wrap = (lambda x: ("not", x)) if neg else (lambda x: x)
            b = e + 2 if neg else e + 1
            if self.kw(b, "NULL"):
                yield wrap(("isnull", v)), b + 1
            if self.kw(b, "DISTINCT") and self.kw(b + 1, "FROM"):
                for r, e2 in self.rule("val", b + 2, 0):
                    yield wrap(("dist", v, r)), e2

    # --- value expressions: precedence || =1, + - =2, * / % =3, unary =4, AT TIME ZONE =5 -------------------------
    def r_val(self, i, prec):
        def tail(left, e):
            if self.kw(e, "AT") and self.kw(e + 1, "TIME") and self.kw(e + 2, "ZONE") and prec <= 5:
                for _, e2 in self.rule("string", e + 3):
                    yield from tail(("unsup", "attz"), e2)
                for _, e2 in self.rule("interval", e + 3):
                    yield from tail(("unsup", "attz"), e2)
            for ops, p in ((("*", "/", "%"), 3), (("+", "-"), 2), (("||",), 1)):
                if self.op(e, *ops) and prec <= p:
                    o = self.toks[e][1]
                    for r, e2 in self.rule("val", e + 1, p + 1):
                        node = ("cat", (left, r)) if o == "||" else ("bin", o, left, r)
                        yield from tail(node, e2)
            yield left, e

        for v, e in self.rule("prim", i):
            yield from tail(v, e)
        if self.op(i, "+", "-"):
            for v, e in self.rule("val", i + 1, 4):
                yield from tail(("pos" if self.toks[i][1] == "+" else "neg", v), e)

    def r_number(self, i):
        neg = self.op(i, "-")
        b = i + 1 if neg else i
        if b >= self.n:
            return
        k, s, _ = self.toks[b]
        if k == "int":
            v = -int(s) if neg else int(s)
            # integers are 64 bits wide; an isolated 9223372036854775808 has to be reached with its sign
            yield (("int", v) if -2**63 <= v < 2**63 else ("unsup", "integer range")), b + 1
        elif k == "dec":
            d = canon_dec(("-" if neg else "") + s)
            yield (("dec", d) if len(d.lstrip("-")) <= 39 else ("unsup", "decimal precision")), b + 1
        elif k == "dbl":
            v = float(("-" if neg else "") + s)
            yield (("dbl", v) if abs(v) != float("inf") else ("unsup", "double range")), b + 1

    def r_interval(self, i):
        if not self.kw(i, "INTERVAL"):
            return
        sign = ""
        b = i + 1
        if self.op(b, "+", "-"):
            sign = self.toks[b][1]
            b += 1
        for s, e in self.rule("string", b):
            if self.kw(e, *IVF):
                f = self.toks[e][1]
                v = s if isinstance(s, tuple) else fold_interval(sign, s)
                if self.kw(e + 1, "TO") and self.kw(e + 2, *IVF):
                    yield ("iv", v, f, self.toks[e + 2][1]), e + 3
                yield ("iv", v, f, None), e + 1

    def r_prim(self, i):
        for base, e in self.rule("prim0", i):
            yield from self.primtail(base, e)

    def primtail(self, base, e):
        if self.op(e, "["):
            for x, e2 in self.rule("val", e + 1, 0):
                if self.op(e2, "]"):
                    yield from self.primtail(("sub", base, x), e2 + 1)
        if self.op(e, "."):
            for f, e2 in self.rule("ident", e + 1):
                if base[0] == "col":
                    node = ("col", f, base[1]) if base[2] is None else ("unsup", "deref")
                else:
                    node = ("col", f, base)
                yield from self.primtail(node, e2)
        yield base, e

    def r_prim0(self, i):
        if i >= self.n:
            return
        k, s, raw = self.toks[i]
        if self.kw(i, "NULL"):
            yield ("null",), i + 1
        yield from self.rule("interval", i)
        for name, e in self.rule("ident", i):
            for v, e2 in self.rule("string", e):
                yield mk_tc(name, v), e2
        if self.kw(i, "DOUBLE") and self.kw(i + 1, "PRECISION"):
            for v, e in self.rule("string", i + 2):
                yield mk_tc("DOUBLE", v), e
        yield from self.rule("number", i)
        if self.kw(i, "TRUE", "FALSE"):
            yield ("bool", s == "TRUE"), i + 1
        for v, e in self.rule("string", i):
            yield ("str", v), e
        if k == "bin":
            yield ("unsup", "binary"), i + 1
        if self.op(i, "?"):
            yield ("unsup", "param"), i + 1
        if self.kw(i, "POSITION") and self.op(i + 1, "("):
            for a, e in self.rule("val", i + 2, 0):
                if self.kw(e, "IN"):
                    for b, e2 in self.rule("val", e + 1, 0):
                        if self.op(e2, ")"):
                            yield ("unsup", "position"), e2 + 1
        if self.op(i, "("):
            for xs, e in self.parenlist("expr", i):
                if len(xs) > 1:
                    yield ("row", xs), e
        if self.kw(i, "ROW"):
            for xs, e in self.parenlist("expr", i + 1):
                yield ("row", xs), e
        if self.kw(i, "LISTAGG"):
            yield from self.listagg(i)
        yield from self.fncall(i)
        for name, e in self.rule("ident", i):
            for w, e2 in self.over(e):
                yield ("unsup", "measure"), e2
            if self.op(e, "->"):
                for b, e2 in self.rule("expr", e + 1):
                    yield mk_lambda((name,), b), e2
        if self.op(i, "("):
            for names, e in self.parenlist("ident", i, empty=True):
                if self.op(e, "->"):
                    for b, e2 in self.rule("expr", e + 1):
                        yield mk_lambda(names, b), e2
            for q, e in self.paren("query", i):
                yield ("q", q), e
        if self.kw(i, "EXISTS"):
            for q, e in self.paren("query", i + 1):
                yield ("unsup", "exists"), e
        if self.kw(i, "CASE"):
            for o, e in self.rule("expr", i + 1):
                yield from self.case(o, e)
            yield from self.case(None, i + 1)
        if self.kw(i, "CAST", "TRY_CAST") and self.op(i + 1, "("):
            for x, e in self.rule("expr", i + 2):
                if self.kw(e, "AS"):
                    for t, e2 in self.rule("type", e + 1):
                        if self.op(e2, ")"):
                            yield ("cast" if s == "CAST" else "trycast", x, t), e2 + 1
        if self.kw(i, "ARRAY") and self.op(i + 1, "["):
            for xs, e in self.seplist("expr", i + 2):
                if self.op(e, "]"):
                    yield ("arr", xs), e + 1
            if self.op(i + 2, "]"):
                yield ("unsup", "emptyarray"), i + 3
        for name, e in self.rule("ident", i):
            yield (name if isinstance(name, tuple) else ("col", name, None)), e
        if self.kw(i, "CURRENT_DATE"):
            yield ("curr", s, None), i + 1
        if self.kw(i, "CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"):
            if self.op(i + 1, "(") and i + 2 < self.n and self.toks[i + 2][0] == "int" and self.op(i + 3, ")"):
                yield ("curr", s, int(self.toks[i + 2][1])), i + 4
            yield ("curr", s, None), i + 1
        if self.kw(i, "CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"):
            yield ("curr", s, None), i + 1
        if self.kw(i, "TRIM", "SUBSTRING", "EXTRACT", "GROUPING", "JSON_EXISTS", "JSON_VALUE", "JSON_QUERY",
                   "JSON_OBJECT", "JSON_ARRAY") and self.op(i + 1, "("):
            # never supported; swallow a balanced parenthesis (precise validity is irrelevant: both must be refused)
            d, j = 0, i + 1
            while j < self.n:
                d += self.op(j, "(") - self.op(j, ")")
                j += 1
                if d == 0:
                    yield ("unsup", s.lower()), j
                    break
        if self.kw(i, "NORMALIZE") and self.op(i + 1, "("):
            for x, e in self.rule("val", i + 2, 0):
                if self.op(e, ",") and self.kw(e + 1, "NFC", "NFD", "NFKC", "NFKD") and self.op(e + 2, ")"):
                    yield ("normalize", x, self.toks[e + 1][1]), e + 3
                if self.op(e, ")"):
                    yield ("normalize", x, None), e + 1
        if self.op(i, "("):
            yield from self.paren("expr", i)

    def case(self, operand, i):
        def whens(j, acc):
            if self.kw(j, "WHEN"):
                for c, e in self.rule("expr", j + 1):
                    if self.kw(e, "THEN"):
                        for v, e2 in self.rule("expr", e + 1):
                            yield from whens(e2, acc + ((c, v),))
            if acc:
                if self.kw(j, "ELSE"):
                    for v, e in self.rule("expr", j + 1):
                        if self.kw(e, "END"):
                            yield ("case", operand, acc, v), e + 1
                if self.kw(j, "END"):
                    yield ("case", operand, acc, None), j + 1

        yield from whens(i, ())

    def listagg(self, i):
        if not self.op(i + 1, "("):
            return
        b, quant = i + 2, None
        starts = [(b, None)]
        if self.kw(b, "DISTINCT", "ALL"):
            starts.insert(0, (b + 1, self.toks[b][1]))
        for b, quant in starts:
            for x, e in self.rule("expr", b):
                seps = []
                if self.op(e, ","):
                    seps += list(self.rule("string", e + 1))
                seps.append((" ", e))
                for sep, e2 in seps:
                    for ov, e3 in self.overflow(e2):
                        if not self.op(e3, ")"):
                            continue
                        e4 = self.kws(e3 + 1, ("WITHIN", "GROUP"))
                        if e4 is None or not self.op(e4, "("):
                            continue
                        e5 = self.kws(e4 + 1, ("ORDER", "BY"))
                        if e5 is None:
                            continue
                        for ob, e6 in self.seplist("sort", e5):
                            if self.op(e6, ")"):
                                if quant == "DISTINCT":
                                    yield ("unsup", "listagg distinct"), e6 + 1
                                else:
                                    yield ("listagg", x, sep, ov, ob), e6 + 1

    def overflow(self, i):
        if self.kw(i, "ON") and self.kw(i + 1, "OVERFLOW"):
            if self.kw(i + 2, "ERROR"):
                yield None, i + 3
            if self.kw(i + 2, "TRUNCATE"):
                fs = list(self.rule("string", i + 3)) + [("...", i + 3)]
                for f, e in fs:
                    if self.kw(e, "WITH", "WITHOUT") and self.kw(e + 1, "COUNT"):
                        yield (f, self.toks[e][1] + " COUNT"), e + 2
        yield None, i

    def fncall(self, i):
        pm = False
        b = i
        if self.kw(i, "RUNNING", "FINAL"):
            for x in self.fncall0(i + 1):
                yield ("unsup", "processing mode"), x[1]
        yield from self.fncall0(b)

    def fncall0(self, i):
        for qn, e in self.rule("qname", i):
            if not self.op(e, "("):
                continue
            name = qn[0]
            bad = len(qn) > 1 or isinstance(name, tuple)
            # f(*) / f(t.*)
            stars = []
            if self.op(e + 1, "*") and self.op(e + 2, ")"):
                stars.append((None, e + 3))
            for lab, e1 in self.rule("ident", e + 1):
                if self.op(e1, ".") and self.op(e1 + 1, "*") and self.op(e1 + 2, ")"):
                    stars.append((lab, e1 + 3))
            for lab, e1 in stars:
                for f, e2 in self.filter(e1):
                    for w, e3 in self.optover(e2):
                        node = ("fn", upper(name), (("star", lab),), (), f, "RESPECT", w) if not bad else ("unsup", "fn")
                        yield node, e3
            argss = []
            a = e + 1
            if self.kw(a, "DISTINCT", "ALL"):
                for xs, e1 in self.seplist("expr", a + 1):
                    argss.append((xs, self.toks[a][1], e1))
            for xs, e1 in self.seplist("expr", a):
                argss.append((xs, None, e1))
            argss.append(((), None, a))
            for xs, quant, e1 in argss:
                obs = []
                if self.kw(e1, "ORDER") and self.kw(e1 + 1, "BY"):
                    obs += list(self.seplist("sort", e1 + 2))
                obs.append(((), e1))
                for ob, e2 in obs:
                    if not self.op(e2, ")"):
                        continue
                    for f, e3 in self.filter(e2 + 1):
                        outs = []
                        if self.kw(e3, "IGNORE", "RESPECT") and self.kw(e3 + 1, "NULLS"):
                            outs += [(self.toks[e3][1], w, e4) for w, e4 in self.over(e3 + 2)]
                        outs += [("RESPECT", w, e4) for w, e4 in self.over(e3)]
                        outs.append(("RESPECT", None, e3))
                        for nt, w, e4 in outs:
                            if bad or quant == "DISTINCT":
                                yield ("unsup", "fn"), e4
                            else:
                                yield ("fn", upper(name), xs, ob, f, nt, w), e4

    def filter(self, i):
        if self.kw(i, "FILTER") and self.op(i + 1, "(") and self.kw(i + 2, "WHERE"):
            for x, e in self.rule("expr", i + 3):
                if self.op(e, ")"):
                    yield x, e + 1
        yield None, i

    def optover(self, i):
        yield from self.over(i)
        yield None, i

    def over(self, i):
        if self.kw(i, "OVER"):
            for name, e in self.rule("ident", i + 1):
                yield ("win", name, (), (), NOFRAME), e
            if self.op(i + 1, "("):
                for w, e in self.rule("winspec", i + 2):
                    if self.op(e, ")"):
                        yield w, e + 1

    def r_winspec(self, i):
        names = list(self.rule("ident", i)) + [(None, i)]
        for name, e in names:
            parts = []
            if self.kw(e, "PARTITION") and self.kw(e + 1, "BY"):
                parts += list(self.seplist("expr", e + 2))
            parts.append(((), e))
            for p, e2 in parts:
                obs = []
                if self.kw(e2, "ORDER") and self.kw(e2 + 1, "BY"):
                    obs += list(self.seplist("sort", e2 + 2))
                obs.append(((), e2))
                for ob, e3 in obs:
                    for fr, e4 in self.frame(e3):
                        if name is not None and fr == NOFRAME:
                            fr = EXPLICIT
                        yield ("win", name, p, ob, fr), e4
                    yield ("win", name, p, ob, NOFRAME), e3

    def frame(self, i):
        if not self.kw(i, "RANGE", "ROWS", "GROUPS"):
            return
        ft = self.toks[i][1]
        for b, e in self.bound(i + 1):
            yield (ft, b, ("CR",)), e
        if self.kw(i + 1, "BETWEEN"):
            for a, e in self.bound(i + 2):
                if self.kw(e, "AND"):
                    for b, e2 in self.bound(e + 1):
                        yield (ft, a, b), e2

    def bound(self, i):
        if self.kw(i, "UNBOUNDED") and self.kw(i + 1, "PRECEDING"):
            yield ("UP",), i + 2
            return      # the same words also read as a column, which the grammar tries last
        if self.kw(i, "UNBOUNDED") and self.kw(i + 1, "FOLLOWING"):
            yield ("UF",), i + 2
            return
        if self.kw(i, "CURRENT") and self.kw(i + 1, "ROW"):
            yield ("CR",), i + 2
            return
        for x, e in self.rule("expr", i):
            if self.kw(e, "PRECEDING"):
                yield ("P", x), e + 1
            if self.kw(e, "FOLLOWING"):
                yield ("F", x), e + 1

    def r_sort(self, i):
        for x, e in self.rule("expr", i):
            os_ = []
            if self.kw(e, "ASC", "DESC"):
                os_.append((self.toks[e][1], e + 1))
            os_.append(("ASC", e))
            for o, e2 in os_:
                if self.kw(e2, "NULLS") and self.kw(e2 + 1, "FIRST", "LAST"):
                    yield (x, o, self.toks[e2 + 1][1]), e2 + 2
                yield (x, o, "LAST"), e2

    # --- types -------------------------------------------------------------------------------------------------
    def r_type(self, i):
        def tail(t, e):
            if self.kw(e, "ARRAY"):
                if self.op(e + 1, "[") and e + 2 < self.n and self.toks[e + 2][0] == "int" and self.op(e + 3, "]"):
                    yield from tail(("unsup", "sized array"), e + 4)
                yield from tail(("t", "ARRAY", t), e + 1)
            yield t, e

        for t, e in self.type0(i):
            yield from tail(t, e)

    def type0(self, i):
        if self.kw(i, "ROW"):
            for fs, e in self.parenlist("rowfield", i + 1):
                yield ("t", "ROW", fs), e
        if self.kw(i, "INTERVAL") and self.kw(i + 1, *IVF):
            f = self.toks[i + 1][1]
            if self.kw(i + 2, "TO") and self.kw(i + 3, *IVF):
                to = self.toks[i + 3][1]
                ok = (f, to) in (("YEAR", "MONTH"), ("DAY", "SECOND"))
                yield (("t", "INTERVAL", f, to) if ok else ("unsup", "interval type")), i + 4
            yield ("unsup", "interval type"), i + 2
        if self.kw(i, "TIMESTAMP", "TIME"):
            name = self.toks[i][1]
            precs = []
            if self.op(i + 1, "("):
                precs += [(p, e + 1) for p, e in self.rule("tparam", i + 2) if self.op(e, ")")]
            precs.append((None, i + 1))
            for p, e in precs:
                e2 = self.kws(e, ("WITHOUT", "TIME", "ZONE"))
                e3 = self.kws(e, ("WITH", "TIME", "ZONE"))
                for tz, end in ((False, e2), (True, e3), (False, e)):
                    if end is None:
                        continue
                    try:
                        yield mk_time(name, p, tz), end
                    except Bad:
                        yield ("unsup", "time"), end
        if self.kw(i, "DOUBLE") and self.kw(i + 1, "PRECISION"):
            yield ("t", "DOUBLE"), i + 2
        if self.kw(i, "ARRAY") and self.op(i + 1, "<"):
            for t, e in self.rule("type", i + 2):
                if self.op(e, ">"):
                    yield ("unsup", "legacy"), e + 1
        if self.kw(i, "MAP") and self.op(i + 1, "<"):
            for t, e in self.rule("type", i + 2):
                if self.op(e, ","):
                    for t2, e2 in self.rule("type", e + 1):
                        if self.op(e2, ">"):
                            yield ("unsup", "legacy"), e2 + 1
        for name, e in self.rule("ident", i):
            outs = []
            if self.op(e, "("):
                for ps, e2 in self.seplist("tparam", e + 1):
                    if self.op(e2, ")"):
                        outs.append((ps, e2 + 1))
            outs.append(((), e))
            for ps, e2 in outs:
                if isinstance(name, tuple) or any(has_unsup(p) for p in ps):
                    yield ("unsup", "type"), e2
                    continue
                try:
                    yield mk_type(name, list(ps)), e2
                except Bad:
                    yield ("unsup", "type"), e2

    def r_tparam(self, i):
        if i < self.n and self.toks[i][0] == "int":
            yield int(self.toks[i][1]), i + 1
        yield from self.rule("type", i)

    def r_rowfield(self, i):
        yield from self.rule("type", i)
        for name, e in self.rule("ident", i):
            for t, e2 in self.rule("type", e):
                yield ("unsup", "named row field"), e2

    # --- queries -----------------------------------------------------------------------------------------------
    def r_query(self, i):
        if self.kw(i, "WITH"):
            rec = self.kw(i + 1, "RECURSIVE")
            for nq, e in self.seplist("namedq", i + (2 if rec else 1)):
                for q, e2 in self.rule("qnw", e):
                    if rec:
                        yield ("unsup", "recursive"), e2
                    elif q[0] == "unsup":
                        yield q, e2
                    else:
                        yield ("query", nq) + q[2:], e2
        yield from self.rule("qnw", i)

    def r_namedq(self, i):
        for name, e in self.rule("ident", i):
            cols = list(self.parenlist("ident", e)) + [(None, e)]
            for c, e2 in cols:
                if self.kw(e2, "AS"):
                    for q, e3 in self.paren("query", e2 + 1):
                        yield (name, c, q), e3

    def r_rowcount(self, i):
        if i < self.n and self.toks[i][0] == "int":
            yield int(self.toks[i][1]), i + 1
        if self.op(i, "?"):
            yield ("unsup", "param"), i + 1

    def r_qnw(self, i):
        for body, e in self.rule("qterm", i, 0):
            obs = []
            if self.kw(e, "ORDER") and self.kw(e + 1, "BY"):
                obs += list(self.seplist("sort", e + 2))
            obs.append(((), e))
            for ob, e2 in obs:
                offs = []
                if self.kw(e2, "OFFSET"):
                    for n, e3 in self.rule("rowcount", e2 + 1):
                        if self.kw(e3, "ROW", "ROWS"):
                            offs.append((n, e3 + 1))
                        offs.append((n, e3))
                offs.append((None, e2))
                for off, e3 in offs:
                    lims = []
                    if self.kw(e3, "LIMIT"):
                        if self.kw(e3 + 1, "ALL"):
                            lims.append((None, e3 + 2))
                        lims += list(self.rule("rowcount", e3 + 1))
                    if self.kw(e3, "FETCH") and self.kw(e3 + 1, "FIRST", "NEXT"):
                        ns = list(self.rule("rowcount", e3 + 2)) + [(1, e3 + 2)]
                        for n, e4 in ns:
                            if self.kw(e4, "ROW", "ROWS"):
                                if self.kw(e4 + 1, "ONLY"):
                                    lims.append((("unsup", "fetch"), e4 + 2))
                                e5 = self.kws(e4 + 1, ("WITH", "TIES"))
                                if e5:
                                    lims.append((("unsup", "fetch"), e5))
                    lims.append((None, e3))
                    for lim, e4 in lims:
                        yield mk_query(body, ob, off, lim), e4

    def r_qterm(self, i, prec):
        """a body (select/table/values/setop) or ('nest', query)"""
        def tail(left, e):
            if self.kw(e, "INTERSECT") and prec <= 2:
                yield from ops(left, e, 3)
            if self.kw(e, "UNION", "EXCEPT") and prec <= 1:
                yield from ops(left, e, 2)
            yield left, e

        def ops(left, e, p):
            o = self.toks[e][1]
            qs = []
            if self.kw(e + 1, "DISTINCT", "ALL"):
                qs.append((self.toks[e + 1][1], e + 2))
            qs.append(("DISTINCT", e + 1))
            for quant, e2 in qs:
                for r, e3 in self.rule("qterm", e2, p):
                    body = ("setop", o, quant, mk_query(left), mk_query(r))
                    if quant == "ALL" and o != "UNION":
                        body = ("unsup", body)   # the library documents that it refuses these
                    yield from tail(body, e3)

        for b, e in self.rule("qprim", i):
            yield from tail(b, e)

    def r_qprim(self, i):
        if self.kw(i, "SELECT"):
            yield from self.rule("select", i)
        if self.kw(i, "TABLE"):
            for qn, e in self.rule("qname", i + 1):
                yield ("table", qn) if len(qn) <= 3 else ("unsup", "table name"), e
        if self.kw(i, "VALUES"):
            for xs, e in self.seplist("expr", i + 1):
                yield ("values", xs), e
        for q, e in self.paren("qnw", i):
            yield ("nest", q), e

    def r_select(self, i):
        starts = []
        if self.kw(i + 1, "DISTINCT", "ALL"):
            starts.append((self.toks[i + 1][1], i + 2))
        starts.append(("ALL", i + 1))
        for quant, b in starts:
            for items, e in self.seplist("item", b):
                froms = []
                if self.kw(e, "FROM"):
                    for rels, e2 in self.seplist("rel", e + 1):
                        froms.append((rels[0] if len(rels) == 1 else ("unsup", "from list"), e2))
                froms.append((None, e))
                for fr, e2 in froms:
                    for wh, e3 in self.optkw("WHERE", e2):
                        for gb, e4 in self.groupby(e3):
                            for hv, e5 in self.optkw("HAVING", e4):
                                for wd, e6 in self.windows(e5):
                                    yield ("select", quant, items, fr, wh, gb, hv, wd), e6

    def optkw(self, word, i):
        if self.kw(i, word):
            yield from self.rule("expr", i + 1)
        yield None, i

    def groupby(self, i):
        if self.kw(i, "GROUP") and self.kw(i + 1, "BY"):
            starts = []
            if self.kw(i + 2, "DISTINCT", "ALL"):
                starts.append((self.toks[i + 2][1], i + 3))
            starts.append(("ALL", i + 2))
            for quant, b in starts:
                for gs, e in self.seplist("gelem", b):
                    yield (quant, gs), e
        yield None, i

    def r_gset(self, i):
        for xs, e in self.parenlist("expr", i, empty=True):
            yield ("set", xs), e
        for x, e in self.rule("expr", i):
            yield ("set", (x,)), e

    def r_gelem(self, i):
        yield from self.rule("gset", i)
        if self.kw(i, "ROLLUP", "CUBE"):
            for xs, e in self.parenlist("expr", i + 1, empty=True):
                yield ((self.toks[i][1].lower(), xs) if xs else ("unsup", "empty rollup")), e
        if self.kw(i, "GROUPING") and self.kw(i + 1, "SETS"):
            for gs, e in self.parenlist("gset", i + 2):
                yield ("gsets", gs), e

    def windows(self, i):
        if self.kw(i, "WINDOW"):
            yield from self.seplist("windef", i + 1)
        yield (), i

    def r_windef(self, i):
        for name, e in self.rule("ident", i):
            if self.kw(e, "AS"):
                for w, e2 in self.paren("winspec", e + 1):
                    yield (name, w), e2

    def r_item(self, i):
        for x, e in self.rule("expr", i):
            if self.kw(e, "AS"):
                for a, e2 in self.rule("ident", e + 1):
                    yield ("item", x, a), e2
            for a, e2 in self.rule("ident", e):
                yield ("item", x, a), e2
            yield ("item", x, None), e
        for x, e in self.rule("prim", i):
            if self.op(e, ".") and self.op(e + 1, "*"):
                base = None
                if x[0] == "col" and x[2] is None:
                    base = x[1]
                elif x[0] in ("unsup", "col"):
                    base = ("unsup", "star base")
                else:
                    base = x
                if self.kw(e + 2, "AS"):
                    for c, e2 in self.parenlist("ident", e + 3):
                        yield ("astar", base, c), e2
                yield ("star", base), e + 2
        if self.op(i, "*"):
            yield ("star", None), i + 1

    def r_rel(self, i):
        def tail(left, e):
            if self.kw(e, "CROSS") and self.kw(e + 1, "JOIN"):
                for r, e2 in self.rule("srel", e + 2):
                    yield from tail(("join", "CROSS", False, left, r, None), e2)
            for jt, e2 in self.jointype(e):
                for r, e3 in self.rule("rel", e2):
                    for c, e4 in self.criteria(e3):
                        yield from tail(("join", jt, False, left, r, c), e4)
            if self.kw(e, "NATURAL"):
                for jt, e2 in self.jointype(e + 1):
                    for r, e3 in self.rule("srel", e2):
                        yield from tail(("join", jt, True, left, r, None), e3)
            yield left, e

        for r, e in self.rule("srel", i):
            yield from tail(r, e)

    def jointype(self, i):
        for words, jt in ((("INNER",), "INNER"), ((), "INNER"), (("LEFT", "OUTER"), "LEFT"), (("LEFT",), "LEFT"),
                          (("RIGHT", "OUTER"), "RIGHT"), (("RIGHT",), "RIGHT"), (("FULL", "OUTER"), "FULL"), (("FULL",), "FULL")):
            e = self.kws(i, words)
            if e is not None and self.kw(e, "JOIN"):
                yield jt, e + 1

    def criteria(self, i):
        if self.kw(i, "ON"):
            for x, e in self.rule("expr", i + 1):
                yield ("on", x), e
        if self.kw(i, "USING"):
            for c, e in self.parenlist("ident", i + 1):
                yield ("using", c), e

    def r_srel(self, i):
        for r, e in self.rule("arel", i):
            if self.kw(e, "MATCH_RECOGNIZE") and self.op(e + 1, "("):
                d, j = 0, e + 1
                while j < self.n:
                    d += self.op(j, "(") - self.op(j, ")")
                    j += 1
                    if d == 0:
                        yield ("unsup", "match_recognize"), j
                        break
            if self.kw(e, "TABLESAMPLE") and self.kw(e + 1, "BERNOULLI", "SYSTEM"):
                for x, e2 in self.paren("expr", e + 2):
                    yield ("sample", r, self.toks[e + 1][1], x), e2
            yield r, e

    def r_arel(self, i):
        for r, e in self.rule("prel", i):
            starts = [e + 1] if self.kw(e, "AS") else []
            starts.append(e)
            for b in starts:
                for a, e2 in self.rule("ident", b):
                    for c, e3 in self.parenlist("ident", e2):
                        yield ("alias", r, a, c), e3
                    yield ("alias", r, a, None), e2
            yield r, e

    def r_prel(self, i):
        for qn, e in self.rule("qname", i):
            if self.kw(e, "FOR") and self.kw(e + 1, "TIMESTAMP", "VERSION") and self.kw(e + 2, "AS") and self.kw(e + 3, "OF"):
                for x, e2 in self.rule("val", e + 4, 0):
                    yield ("unsup", "query period"), e2
            yield (("tbl", qn) if len(qn) <= 3 else ("unsup", "table name")), e
        for q, e in self.paren("query", i):
            yield ("subq", q), e
        if self.kw(i, "UNNEST"):
            for xs, e in self.parenlist("expr", i + 1):
                e2 = self.kws(e, ("WITH", "ORDINALITY"))
                if e2:
                    yield ("unnest", xs, True), e2
                yield ("unnest", xs, False), e
        if self.kw(i, "LATERAL"):
            for q, e in self.paren("query", i + 1):
                yield ("lateral", q), e
        if self.kw(i, "TABLE") and self.op(i + 1, "("):
            d, j = 0, i + 1
            while j < self.n:
                d += self.op(j, "(") - self.op(j, ")")
                j += 1
                if d == 0:
                    yield ("unsup", "table function"), j
                    break
        yield from self.paren("rel", i)


IVF = ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND")


def canon_dec(text):
    """Canonical decimal literal: sign, digits, scale are what decide value and type."""
    neg = text.startswith("-")
    body = text.lstrip("-")
    whole, _, frac = body.partition(".")
    whole = whole.lstrip("0")
    return ("-" if neg else "") + whole + "." + frac


def fold_interval(sign, s):
    """[+-]'value': a leading + inside is a no-op, an outside minus toggles the inner sign."""
    if s.startswith("+"):
        s = s[1:]
    if sign == "-":
        s = s[1:] if s.startswith("-") else "-" + s
    return s


def mk_tc(name, v):
    if isinstance(name, tuple) or isinstance(v, tuple):
        return ("unsup", "typed literal")
    if upper(name) not in TYPE_ARITY and upper(name) not in ("TIME", "TIMESTAMP"):
        return ("unsup", "unknown type")
    return ("tc", upper(name), v)


def mk_lambda(names, body):
    if any(isinstance(n, tuple) for n in names) or len(set(names)) != len(names):
        return ("unsup", "lambda")
    return ("lam", tuple(names), bind(body, frozenset(names)))


def bind(node, names):
    """Column references to the lambda's own variables become variables (already-bound inner ones are untouched)."""
    if not isinstance(node, tuple) or not node:
        return node
    if node[0] == "col" and len(node) == 3:
        if node[2] is None:
            return ("lvar", node[1]) if node[1] in names else node
        return ("col", node[1], node[2] if isinstance(node[2], str) else bind(node[2], names))
    if node[0] == "lam":
        return ("lam", node[1], bind(node[2], names - set(node[1])))
    return tuple(bind(x, names) for x in node)


def mk_query(body, ob=(), off=None, lim=None):
    """('query', with, body, orderby, offset, limit); redundant parentheses around a query vanish."""
    if body[0] == "unsup":
        return body
    if body[0] == "nest":
        inner = body[1]
        if inner[0] == "unsup":
            return inner
        if not ob and off is None and lim is None:
            return inner
        if not inner[3] and inner[4] is None and inner[5] is None:
            return ("query", inner[1], inner[2], ob, off, lim)
        return ("unsup", "nested constraints")
    return ("query", (), body, tuple(ob), off, lim)


def has_unsup(node):
    if isinstance(node, tuple):
        if node and node[0] == "unsup":
            return True
        return any(has_unsup(x) for x in node)
    return False


def parse(kind, text):
    """Neutral tree of the whole text, or raises Bad. kind: expr | query | type"""
    p = P(text)
    if kind == "query" and p.toks and p.toks[-1][1] == ";":
        p.toks.pop()
        p.n -= 1
    if any(t[0] == "bad" for t in p.toks):
        raise Bad("unrecognised character")
    rule = {"expr": ("expr", 0), "query": ("query", 0), "type": ("type", 0)}[kind]
    for node, e in p.rule(*rule):
        if e == p.n:
            if kind == "query" and node[0] == "nest":
                node = node[1]
            return node
    raise Bad("syntax error")


# --- canonical form used to compare meanings ---------------------------------------------------------------------
def fold_frames(node):
    if isinstance(node, tuple):
        return NOFRAME if node == EXPLICIT else tuple(fold_frames(x) for x in node)
    return node


def norm(node):
    """Documented meaning-preserving rewrites: NOT(a = b) is a <> b; a minus sign directly on an unsigned numeric
    literal is part of it."""
    if not isinstance(node, tuple):
        return node
    node = tuple(norm(x) for x in node)
    if not node:
        return node
    if len(node) < 2:
        return node
    if node[0] == "not" and isinstance(node[1], tuple) and node[1][:1] == ("cmp",) and node[1][1] in ("=", "<>"):
        return ("cmp", "<>" if node[1][1] == "=" else "=", node[1][2], node[1][3])
    if node[0] == "fn" and len(node) == 7 and node[1] == "CONCAT" and len(node[2]) > 1 and node[3:] == ((), None, "RESPECT", None):
        return ("cat", node[2])
    if node[0] == "curr" and len(node) == 3 and node[2] == 3 and "TIME" in node[1]:
        return ("curr", node[1], None)
    if node[0] == "iv" and len(node) == 4 and isinstance(node[1], str) and len(node[1]) > 1 and node[1][0] == "+":
        return ("iv", node[1][1:]) + node[2:]
    if node[0] == "sample" and len(node) == 4 and isinstance(node[3], tuple) and node[3][:1] == ("dbl",) and "e" not in repr(node[3][1]):
        # a sampling percentage is a double however it is written: it may stand there without an exponent
        t = repr(node[3][1])
        neg, t = ("-", t[1:]) if t[0] == "-" else ("", t)
        return node[:3] + (("dec", neg + (t[1:] if t.startswith("0.") else t)),)
    if node[0] == "normalize" and len(node) == 3 and node[2] is None:
        return ("normalize", node[1], "NFC")
    if node[0] == "neg" and isinstance(node[1], tuple):
        x = node[1]
        if x[:1] == ("int",) and x[1] >= 0:
            return ("int", -x[1])
        if x[:1] == ("dec",) and not x[1].startswith("-"):
            return ("dec", "-" + x[1])
        if x[:1] == ("dbl",) and not str(x[1]).startswith("-"):
            return ("dbl", -x[1])
    return node
