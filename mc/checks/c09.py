"""C09: whatever text is read, the result denotes all of it or there is an error."""
import itertools

from .. import bind, fnreg, gen, lang
from ..core import Family, main as run
from ..gen import A, Bc, I1, I2, S1, T1, T2, col, fn, item, lam, q1, query, sel, tbl, win
from .common import *


def check(case):
    kind, text = case
    step()
    try:
        obj = bind.lib_parse(kind, text)
    except Exception:
        bump("texts_refused")
        return
    bump("texts_accepted")
    try:
        n = ref(kind, text)
    except Bad as e:
        raise Violation("%r is not in the language (%s) but is read as %s" % (text, e, show(obj)))
    if has_unsup(n):
        raise Violation("%r has a construct the library has no tree for (%s) but is read as %s" % (text, why(n), show(obj)))
    same(want(n), norm(neutral(kind, obj)), "%r is read as a tree which denotes another text" % text)


def show(obj):
    try:
        return "%s %s" % (type(obj).__name__, obj)
    except Exception:
        return type(obj).__name__


def why(n):
    if isinstance(n, tuple):
        if n[:1] == ("unsup",):
            return n[1:]
        for x in n:
            w = why(x)
            if w is not None:
                return w
    return None


def toks(text):
    return [t[2] for t in lang.lex(text)]


def base_exprs():
    for n in list(gen.level1()) + [x for x in gen.LEAVES if x[0] != "col"]:
        if n[0] != "q":
            yield "expr", render("expr", n)
    for n in gen.types_cast():
        yield "expr", render("expr", n)
    yield "expr", "SUM(ALL a) FILTER (WHERE b) IGNORE NULLS OVER (w PARTITION BY c ORDER BY d DESC NULLS FIRST ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)"
    yield "expr", "LISTAGG(a, ',' ON OVERFLOW TRUNCATE '..' WITH COUNT) WITHIN GROUP (ORDER BY b)"
    yield "expr", "a NOT IN (1, 2) AND b NOT BETWEEN 1 AND 2 OR NOT c IS NOT NULL"
    yield "expr", "U&'a!0041' UESCAPE '!'"


def base_queries():
    C = gen.CRIT
    qs = [
        query(sel([item(A, "z"), ("star", None), ("astar", "t", ("p", "q"))], ("join", "LEFT", False, T1, T2, C[0]), ("and", A, Bc), "DISTINCT")),
        query(sel([item(fn("SUM", [A], win=win("w")))], T1, None, "ALL", ("DISTINCT", (("set", (A, Bc)), ("rollup", (A,)), ("gsets", (("set", ()), ("cube", (Bc,)))))),
                  ("cmp", ">", A, I1), (("w", win(None, [A], [(Bc, "DESC", "LAST")])), ("v", win("w")))), ((A, "DESC", "FIRST"), (I2, "ASC", "LAST")), 1, 2),
        query(("setop", "UNION", "ALL", q1(A), query(("setop", "INTERSECT", "DISTINCT", q1(Bc), q1(I1)))), ((A, "ASC", "LAST"),), None, 3),
        query(("values", (("row", (I1, S1)), I2)), lim=1),
        query(("table", ("s", "t")), off=2),
        query(sel([item(A)], ("join", "CROSS", False, ("alias", ("unnest", (("arr", (I1,)), Bc), True), "u", ("p", "q")), ("alias", ("lateral", q1(A)), "v", None), None))),
        query(sel([item(A)], ("sample", ("alias", tbl("c", "s", "t"), "x", None), "BERNOULLI", ("int", 10))), with_=[("w", ("a", "b"), q1(A)), ("v", None, query(("table", ("w",))))]),
        query(sel([item(("q", q1(A)), "s")], ("join", "FULL", False, ("join", "INNER", True, T1, T2, None), tbl("v"), C[1]), ("not", ("inq", A, q1(Bc, fr=T1))))),
    ]
    for n in qs:
        yield "query", render("query", n)
        yield "query", render("query", n, STYLES["words"])
    yield "query", "((SELECT a FROM (t)) LIMIT ALL)"
    yield "query", "SELECT a FROM ((t JOIN u ON a)) OFFSET 2 ROWS LIMIT ALL"


def base_types():
    for n in gen.TYPES + [("t", "TIME", None, True)]:
        yield "type", render("type", n)


TOKENS = ["a", "1", "'s'", '"q"', "(", ")", ",", ".", "*", "-", "=", "[", "]", "->", "?", ";", "NOT", "AND", "NULL", "ALL", "DISTINCT", "AS", "SELECT", "FROM", "ORDER BY a",
          "LIMIT 1", "WITH", "ROW", "OVER", "IN", "1.5"]
MORE = ["+", "/", "%", "||", "<>", "<", "=>", ":", "{-", "^", "$", "|", "@", "#", "~", "!", "\\", "`a`", "'", '"', "/*", "--", "\x00", "\u00e9", "1a", "X'00'", "U&'a'", "TRUE", "OR", "IS",
        "LIKE", "BETWEEN", "CASE", "WHEN", "THEN", "ELSE", "END", "CAST(", "WHERE", "GROUP BY", "HAVING", "UNION", "ON", "USING", "JOIN", "LEFT", "NATURAL", "VALUES", "TABLE", "EXISTS", "ANY",
        "AT TIME ZONE 'UTC'", "INTERVAL", "DAY", "DATE", "FILTER", "WINDOW", "PARTITION BY", "ROWS", "IGNORE NULLS", "ESCAPE 'x'", "TABLESAMPLE", "LATERAL", "UNNEST", "OFFSET 1", "FETCH FIRST",
        "RECURSIVE", "FOR", "EXTRACT(", "1E5", "ARRAY", "MAP"]


def mutations(bases, insert):
    def f(tier):
        ins = TOKENS + MORE if insert == "all" or tier == "thorough" else TOKENS
        for kind, text in bases():
            ts = toks(text)
            yield kind, text
            for i in range(len(ts)):
                j = lambda xs: (kind, " ".join(xs))
                yield j(ts[:i] + ts[i + 1:])                      # deletion
                yield j(ts[:i])                                   # truncation
                yield j(ts[i:])
                yield j(ts[:i + 1] + ts[i:])                      # duplication
                yield j(ts[:i] + ts[i + 2:])
                if i + 1 < len(ts):
                    yield j(ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])   # swap
                if i + 2 < len(ts):
                    yield j(ts[:i] + [ts[i + 2], ts[i + 1], ts[i]] + ts[i + 3:])
                for k in range(i + 2, min(len(ts), i + 5)):
                    yield j(ts[:i] + ["("] + ts[i:k] + [")"] + ts[k:])
                for x in ins:
                    yield j(ts[:i] + [x] + ts[i:])
                    yield j(ts[:i] + [x] + ts[i + 1:])
            for x in TOKENS + MORE + [";", "; ;", "; SELECT 1", ";;", ") ", "; -- c", "-- c", "/* c */", "SELECT 1", "a b"]:
                yield kind, text + " " + x
                yield kind, text + x
                yield kind, x + " " + text
    return f


# --- sequences of tokens ---------------------------------------------------------------------------------------------
def soup(tier):
    ea = ["a", "1", "'s'", "(", ")", ",", ".", "*", "-", "+", "=", "[", "]", "->", "NOT", "AND", "NULL", "IS", "IN", "LIKE", "DATE", "ROW", "ARRAY", "1.5", "DISTINCT", "SUM", "||", "?"]
    for n in (1, 2, 3):
        for t in itertools.product(ea, repeat=n):
            yield "expr", " ".join(t)
    few = ["a", "1", "(", ")", ",", ".", "-", "NOT", "=", "->", "[", "]"]
    for t in itertools.product(few, repeat=4 if tier == "quick" else 5):
        yield "expr", " ".join(t)
    qa = ["SELECT", "a", "1", "*", ",", "FROM", "(", ")", "WHERE", "JOIN", "AS", "UNION", "VALUES", "TABLE", "LIMIT", "ORDER BY", ".", "ALL", "GROUP BY", "WITH", ";"]
    for n in (1, 2, 3):
        for t in itertools.product(qa, repeat=n):
            yield "query", " ".join(t)
            if n < 3 or tier == "thorough":
                yield "query", "SELECT a FROM t " + " ".join(t)
                yield "query", "SELECT a " + " ".join(t)
                yield "query", "SELECT 1 FROM " + " ".join(t)
    ta = ["BIGINT", "DECIMAL", "VARCHAR", "TIMESTAMP", "ROW", "ARRAY", "MAP", "(", ")", ",", "1", "2", "a", "WITH TIME ZONE", "INTERVAL", "YEAR", "TO", "MONTH", "DOUBLE", "PRECISION", "'s'", "<", ">"]
    for n in (1, 2, 3):
        for t in itertools.product(ta, repeat=n):
            yield "type", " ".join(t)
    for t in itertools.product(["ARRAY", "ROW", "DECIMAL", "BIGINT", "(", ")", ",", "1"], repeat=4 if tier == "quick" else 6):
        yield "type", " ".join(t)


# --- the alternatives of the grammar, supported or not -----------------------------------------------------------------
EXPRS = """
a = ALL (SELECT 1) | a > ANY (SELECT 1) | a <> SOME (SELECT 1) | a < ALL (VALUES 1) | EXISTS (SELECT 1) | NOT EXISTS (SELECT 1) | a IS DISTINCT FROM b | a IS NOT DISTINCT FROM b
a AT TIME ZONE 'UTC' | a AT TIME ZONE INTERVAL '1' HOUR | a AT LOCAL | b + a AT TIME ZONE 'UTC' | ? | a = ? | (?) | f(?) | SUM(?) | ARRAY[?] | X'00' | X'' | x'0a' | a = X'00' | BINARY 'a'
POSITION('a' IN b) | SUBSTRING(a FROM 1) | SUBSTRING(a FROM 1 FOR 2) | SUBSTRING(a, 1) | SUBSTRING(a, 1, 2) | TRIM(a) | TRIM(BOTH FROM a) | TRIM(LEADING 'x' FROM a) | TRIM('x' FROM a) | TRIM(TRAILING FROM a)
EXTRACT(YEAR FROM a) | EXTRACT(a FROM b) | GROUPING(a) | GROUPING(a, b) | GROUPING() | NORMALIZE(a) | NORMALIZE(a, NFD) | NORMALIZE(a, NFX) | NORMALIZE(a, 'NFD')
CURRENT_USER | CURRENT_ROLE | CURRENT_CATALOG | CURRENT_SCHEMA | CURRENT_PATH | CURRENT_DATE | CURRENT_TIME | CURRENT_TIME(3) | CURRENT_TIMESTAMP(12) | CURRENT_TIMESTAMP(13) | LOCALTIME(0) | LOCALTIMESTAMP(6) | CURRENT_DATE(1) | LOCALTIME() | LOCALTIME(a)
JSON_EXISTS(a, 'strict $') | JSON_VALUE(a, 'strict $') | JSON_QUERY(a, 'strict $') | JSON_OBJECT() | JSON_OBJECT('a' : 1) | JSON_ARRAY() | JSON_ARRAY(1, 2) | JSON_OBJECT(KEY 'a' VALUE 1) | JSON_VALUE(a, 'lax $' RETURNING BIGINT)
COUNT(*) | COUNT(DISTINCT a) | COUNT(ALL a) | SUM(DISTINCT a) | SUM(DISTINCT a, b) | COUNT(DISTINCT *) | COUNT() | COUNT(t.*) | SUM(*) | nope(a) | nope() | s.f(a) | c.s.f(a) | SUM(a) FILTER (WHERE b) | SUM(a) FILTER (b) | SUM(a ORDER BY b)
SUM(a) OVER w | SUM(a) OVER () | SUM(a) OVER (w) | SUM(a) IGNORE NULLS OVER w | SUM(a) RESPECT NULLS OVER w | SUM(a) IGNORE NULLS | SUM(a) RESPECT NULLS | NOW() OVER w | a OVER w | m OVER (PARTITION BY a MEASURES b AS c)
FIRST(a) | FINAL LAST(a) | RUNNING LAST(a) | FINAL SUM(a) | RUNNING SUM(a) | CLASSIFIER() | MATCH_NUMBER() | PREV(a) | FINAL a
SUM(a) OVER (MEASURES a AS b ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING PATTERN (x) DEFINE x AS a) | SUM(a) OVER (ROWS CURRENT ROW PATTERN (A+) SUBSET u = (a) DEFINE a AS b) | SUM(a) OVER (ROWS CURRENT ROW AFTER MATCH SKIP PAST LAST ROW) | SUM(a) OVER (ROWS CURRENT ROW INITIAL) | SUM(a) OVER (ROWS CURRENT ROW SEEK) | SUM(a) OVER (ROWS BETWEEN CURRENT ROW AND 1 FOLLOWING PATTERN (a?))
SUM(a) OVER (ROWS 1 PRECEDING) | SUM(a) OVER (GROUPS UNBOUNDED PRECEDING) | SUM(a) OVER (ROWS BETWEEN a PRECEDING AND b FOLLOWING) | SUM(a) OVER (ROWS UNBOUNDED FOLLOWING) | SUM(a) OVER (RANGE CURRENT ROW) | SUM(a) OVER (ROWS BETWEEN 1 AND 2)
SUM(a) OVER (ROWS CURRENT ROW EXCLUDE TIES) | SUM(a) OVER (ORDER BY a ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING EXCLUDE CURRENT ROW)
LISTAGG(a, ',') WITHIN GROUP (ORDER BY b) | LISTAGG(DISTINCT a, ',') WITHIN GROUP (ORDER BY b) | LISTAGG(a) WITHIN GROUP (ORDER BY b) | LISTAGG(ALL a, ',') WITHIN GROUP (ORDER BY b) | LISTAGG(a, ',') | LISTAGG(a, b) WITHIN GROUP (ORDER BY c) | LISTAGG(a, ',' ON OVERFLOW ERROR) WITHIN GROUP (ORDER BY b)
LISTAGG(a, ',' ON OVERFLOW TRUNCATE WITH COUNT) WITHIN GROUP (ORDER BY b) | LISTAGG(a, ',' ON OVERFLOW TRUNCATE '..' WITHOUT COUNT) WITHIN GROUP (ORDER BY b) | LISTAGG(a, ',') WITHIN GROUP (ORDER BY b) OVER w | LISTAGG(a, ',') WITHIN GROUP (ORDER BY b) FILTER (WHERE c)
(a) | ((a)) | (a, b) | ROW(a) | ROW() | ROW(a, b) | () | (a, ) | ARRAY[] | ARRAY[a] | ARRAY[a,] | a[1] | a[1][2] | a[] | a[1, 2] | a[1:2] | x -> x | (x) -> x | (x, y) -> x | () -> 1 | (x, x) -> x | "x" -> x | (a.b) -> 1 | 1 -> 2 | x -> y -> x + y | ((x)) -> x
CASE a WHEN 1 THEN 2 END | CASE WHEN a THEN 1 ELSE 2 END | CASE END | CASE ELSE 1 END | CASE a END | CASE WHEN a END | CASE WHEN a THEN 1 ELSE 2 ELSE 3 END | CASE a b WHEN 1 THEN 2 END
CAST(a AS BIGINT) | TRY_CAST(a AS BIGINT) | CAST(a) | CAST(a, BIGINT) | CAST(a AS ROW(x BIGINT)) | CAST(a AS ROW(BIGINT)) | CAST(a AS NOPE) | CAST(a AS INTERVAL DAY TO SECOND) | CAST(a AS TIMESTAMP(p)) | CAST(a AS a.b) | a::BIGINT | CONVERT(a, BIGINT)
a LIKE b | a LIKE b ESCAPE c | a LIKE b ESCAPE | a ESCAPE b | a ILIKE b | a NOT LIKE b | a RLIKE b | a SIMILAR TO b | a IN (1) | a IN (1, 2) | a IN () | a IN 1 | a IN (SELECT 1) | a IN (SELECT 1, 2) | a IN ((SELECT 1)) | a IN ((SELECT 1), 2) | (a, b) IN (SELECT 1, 2) | a IN (TABLE t) | a IN (VALUES 1) | a IN ARRAY[1]
a BETWEEN 1 AND 2 | a BETWEEN SYMMETRIC 1 AND 2 | a BETWEEN 1 | a IS NULL | a IS NOT NULL | a IS TRUE | a IS NOT FALSE | a IS UNKNOWN | a ISNULL | a NOTNULL | a NOT NULL | a NOT IS NULL | a IS NULL IS NULL | a = b = c | a < b < c | a = b IS NULL | a LIKE b LIKE c | a IN (1) IN (2)
NOT a | NOT NOT a | !a | a != b | a <> b | a == b | a ^ b | a & b | a << b | a ** b | a // b | a || b | a || b || c | - a | + a | - - a | -- a | ~a | a % b | a MOD b | a DIV b | a AND | AND a | a && b | a XOR b
NULL | TRUE | FALSE | UNKNOWN | DEFAULT | * | t.* | a.b | a.b.c | a.b.c.d | a.* | "a"."b" | a."b".c | a..b | .a | a. | a.1 | (a).b | (a.b).c | ROW(1).f | f(a).b | a[1].b | 'x'.b | 1.b | (SELECT a) | (SELECT a).b | SELECT a | (TABLE t) | (VALUES 1) | ((SELECT a)) | (WITH x AS (SELECT 1) SELECT 2)
DATE '2020-01-01' | DATE 2020 | TIMESTAMP '2020-01-01' | TIME '01:02' | TIMESTAMP WITH TIME ZONE '2020' | DECIMAL '1.5' | DECIMAL(3,2) '1.5' | CHAR 'a' | VARCHAR 'a' | BIGINT '1' | DOUBLE '1' | DOUBLE PRECISION '1' | JSON '1' | ARRAY 'a' | nope 'a' | "BIGINT" '1' | a.b 'x' | ROW 'a'
INTERVAL '1' DAY | INTERVAL -'1' DAY | INTERVAL +'1' DAY | INTERVAL '-1' DAY | INTERVAL '1' DAYS | INTERVAL 1 DAY | INTERVAL '1 2' DAY TO HOUR | INTERVAL '1' HOUR TO DAY | INTERVAL '1' YEAR TO DAY | INTERVAL '1' WEEK | INTERVAL '1' QUARTER | INTERVAL '1' | INTERVAL '1' DAY(3) | INTERVAL --'1'
U&'a' | U&'\\0041' | U&'\\' | U&'!0041' UESCAPE '!' | U&'a' UESCAPE 'ab' | 'a' 'b' | 'a' UESCAPE '!' | "a" UESCAPE '!' | U&"a" | E'a' | N'a' | $$a$$ | 'a | "a | `a` | [a] | {a} | a; | ; | a:b | :a | @a | #a | $1 | %s | 1 2 | 1.2.3 | 0x10 | 1e5 | 1E5 | 1e | .5 | 5. | 1_000
TRY(a) | TRY(a, b) | IF(a, b) | IF(a, b, c) | IF(a) | IF() | COALESCE(a) | COALESCE() | NULLIF(a, b) | NULLIF(a) | CONCAT(a) | CONCAT() | CONCAT(a, b, c) | MAP(a, b) | MAP() | REDUCE(a, b, (x, y) -> x, z -> z) | FORMAT('%s', a) | UUID() | DATE(a) | DATE_TRUNC('day', a) | a.SUM(b) | SUM (a) | "sum"(a) | "SUM"(a) | sum(a) | Sum(a)
f(a => 1) | SUM(a => 1) | SUM(DISTINCT) | SUM(a,) | SUM(,a) | SUM(a b) | SUM(a AS b) | SUM((a)) | SUM(SELECT 1) | SUM((SELECT 1)) | PREPARE | TABLE(f(a)) | DESCRIPTOR(a) | CURRENT_TIMESTAMP() | CURRENT ROW | ROW | a b | a AS b | a, b | SUM(a) b | (a
"""
QUERIES = """
SELECT a, b | SELECT | SELECT a FROM t, u | SELECT a FROM t CROSS JOIN u | SELECT a FROM t, LATERAL (SELECT 1) | SELECT a FROM t, UNNEST(b) | SELECT FROM t | SELECT a, FROM t | SELECT a FROM | SELECT ALL a | SELECT DISTINCT a | SELECT DISTINCT ON (a) b FROM t | SELECT ALL DISTINCT a
SELECT * FROM t | SELECT t.* FROM t | SELECT *, a FROM t | SELECT * AS x | SELECT * AS (x) | SELECT t.* AS (x, y) FROM t | SELECT t.* x FROM t | SELECT t.*.* FROM t | SELECT (a, b).* FROM t | SELECT ROW(1, 2).* AS (x, y) | SELECT s.t.* FROM s.t | SELECT * EXCEPT (a) FROM t | SELECT a AS FROM t | SELECT a x y FROM t | SELECT a AS 'x' | SELECT a AS 1 | SELECT a "x"
SELECT a FROM t AS x | SELECT a FROM t x (p, q) | SELECT a FROM t AS x (p) | SELECT a FROM t x () | SELECT a FROM t (p) | SELECT a FROM t AS (p) | SELECT a FROM (t) | SELECT a FROM (t) x | SELECT a FROM ((t)) | SELECT a FROM (t x) y | SELECT a FROM (t JOIN u ON a) x | SELECT a FROM (SELECT 1) | SELECT a FROM (SELECT 1) x | SELECT a FROM ((SELECT 1)) | SELECT a FROM (SELECT 1) AS x (p)
SELECT a FROM a.b.c.d | SELECT a FROM a.b.c | SELECT a FROM "a"."b" | SELECT a FROM 'a' | SELECT a FROM 1 | SELECT a FROM f(a) | SELECT a FROM TABLE(f(a)) | SELECT a FROM TABLE(f(a => 1)) x | SELECT a FROM TABLE t | SELECT a FROM (TABLE t) | SELECT a FROM (VALUES 1) | SELECT a FROM VALUES 1 | SELECT a FROM t@x | SELECT a FROM t FOR VERSION AS OF 1 | SELECT a FROM t FOR TIMESTAMP AS OF 1 | SELECT a FROM t FOR SYSTEM_TIME AS OF 1
SELECT a FROM UNNEST(b) | SELECT a FROM UNNEST(b, c) WITH ORDINALITY | SELECT a FROM UNNEST() | SELECT a FROM UNNEST(b) WITH ORDINALITY x (p, q) | SELECT a FROM LATERAL (SELECT 1) | SELECT a FROM LATERAL (SELECT 1) x | SELECT a FROM LATERAL t | SELECT a FROM LATERAL (t) | SELECT a FROM LATERAL UNNEST(b) | SELECT a FROM UNNEST b
SELECT a FROM t TABLESAMPLE BERNOULLI (10) | SELECT a FROM t TABLESAMPLE SYSTEM (10) | SELECT a FROM t TABLESAMPLE (10) | SELECT a FROM t TABLESAMPLE RESERVOIR (10) | SELECT a FROM t TABLESAMPLE BERNOULLI (10) REPEATABLE (1) | SELECT a FROM t x TABLESAMPLE BERNOULLI (a + 1) | SELECT a FROM t TABLESAMPLE BERNOULLI (10) x | SELECT a FROM t TABLESAMPLE BERNOULLI 10 | SELECT a FROM t TABLESAMPLE BERNOULLI (10) TABLESAMPLE SYSTEM (1)
SELECT a FROM t MATCH_RECOGNIZE (PATTERN (x) DEFINE x AS a) | SELECT a FROM t MATCH_RECOGNIZE (PARTITION BY a ORDER BY b MEASURES c AS d ONE ROW PER MATCH AFTER MATCH SKIP TO NEXT ROW PATTERN (x+ y*) DEFINE x AS a) AS m | SELECT a FROM t MATCH_RECOGNIZE (ALL ROWS PER MATCH PATTERN (x) SUBSET u = (x) DEFINE x AS a) m (p)
SELECT a FROM t JOIN u ON b | SELECT a FROM t JOIN u | SELECT a FROM t JOIN u USING (b) | SELECT a FROM t JOIN u USING () | SELECT a FROM t JOIN u USING (b) x | SELECT a FROM t JOIN u USING b | SELECT a FROM t JOIN u USING (b, b) | SELECT a FROM t JOIN u USING (u.b) | SELECT a FROM t INNER JOIN u ON b | SELECT a FROM t LEFT OUTER JOIN u ON b | SELECT a FROM t OUTER JOIN u ON b | SELECT a FROM t FULL JOIN u ON b | SELECT a FROM t NATURAL JOIN u | SELECT a FROM t NATURAL LEFT JOIN u | SELECT a FROM t NATURAL JOIN u ON b | SELECT a FROM t NATURAL CROSS JOIN u
SELECT a FROM t CROSS JOIN u ON b | SELECT a FROM t LEFT JOIN u | SELECT a FROM t LEFT SEMI JOIN u ON b | SELECT a FROM t ANTI JOIN u ON b | SELECT a FROM t STRAIGHT_JOIN u | SELECT a FROM t JOIN u JOIN v ON a ON b | SELECT a FROM t JOIN (u JOIN v ON a) ON b | SELECT a FROM t JOIN u ON a JOIN v ON b | SELECT a FROM t JOIN u ON a, v | SELECT a FROM t x JOIN u y ON x.a = y.a | SELECT a FROM t ASOF JOIN u ON a | SELECT a FROM t JOIN LATERAL (SELECT 1) ON TRUE | SELECT a FROM t RIGHT JOIN u ON a WHERE b
SELECT a WHERE b | SELECT a FROM t WHERE | SELECT a FROM t WHERE a WHERE b | SELECT a FROM t GROUP BY a | SELECT a FROM t GROUP BY | SELECT a FROM t GROUP BY () | SELECT a FROM t GROUP BY (a, b) | SELECT a FROM t GROUP BY (a), b | SELECT a FROM t GROUP BY ALL a | SELECT a FROM t GROUP BY DISTINCT a | SELECT a FROM t GROUP BY ROLLUP (a, b) | SELECT a FROM t GROUP BY CUBE (a) | SELECT a FROM t GROUP BY ROLLUP () | SELECT a FROM t GROUP BY CUBE ()
SELECT a FROM t GROUP BY GROUPING SETS ((a), ()) | SELECT a FROM t GROUP BY GROUPING SETS (a, b) | SELECT a FROM t GROUP BY GROUPING SETS (ROLLUP (a), CUBE (b)) | SELECT a FROM t GROUP BY GROUPING SETS (GROUPING SETS (a)) | SELECT a FROM t GROUP BY GROUPING SETS () | SELECT a FROM t GROUP BY AUTO | SELECT a FROM t GROUP BY ALL | SELECT a FROM t GROUP BY 1 | SELECT a FROM t GROUP BY a WITH ROLLUP | SELECT a FROM t GROUP BY ROLLUP ((a, b), c) | SELECT a FROM t GROUP BY ((a, b), c)
SELECT a FROM t HAVING b | SELECT a FROM t HAVING b GROUP BY a | SELECT a FROM t QUALIFY b | SELECT a FROM t WINDOW w AS () | SELECT a FROM t WINDOW w AS (v) | SELECT a FROM t WINDOW w AS (PARTITION BY a ORDER BY b ROWS 1 PRECEDING), v AS (w) | SELECT a FROM t WINDOW w AS v | SELECT a FROM t WINDOW w AS (), w AS (ORDER BY a) | SELECT a FROM t WINDOW | SELECT a FROM t WINDOW w AS (MEASURES a AS b ROWS CURRENT ROW PATTERN (x) DEFINE x AS a)
SELECT a FROM t ORDER BY a | SELECT a FROM t ORDER BY a DESC NULLS FIRST | SELECT a FROM t ORDER BY a NULLS | SELECT a FROM t ORDER BY a ASC DESC | SELECT a FROM t ORDER BY ALL | SELECT a FROM t ORDER BY a USING > | SELECT a FROM t ORDER BY | SELECT a FROM t SORT BY a | SELECT a FROM t CLUSTER BY a | SELECT a FROM t ORDER BY a COLLATE x | SELECT a FROM t ORDER BY a, b DESC, 1
SELECT a FROM t LIMIT 1 | SELECT a FROM t LIMIT 0 | SELECT a FROM t LIMIT ALL | SELECT a FROM t LIMIT ? | SELECT a FROM t LIMIT -1 | SELECT a FROM t LIMIT 1.5 | SELECT a FROM t LIMIT a | SELECT a FROM t LIMIT (1) | SELECT a FROM t LIMIT 1, 2 | SELECT a FROM t LIMIT 1 OFFSET 2 | SELECT a FROM t OFFSET 2 LIMIT 1 | SELECT a FROM t OFFSET 2 | SELECT a FROM t OFFSET 2 ROW | SELECT a FROM t OFFSET 2 ROWS | SELECT a FROM t OFFSET ? | SELECT a FROM t OFFSET -1 | SELECT a FROM t OFFSET a ROWS | SELECT a FROM t LIMIT 1 LIMIT 2 | SELECT a FROM t LIMIT 1 + 1 | SELECT a FROM t LIMIT 99999999999999999999
SELECT a FROM t FETCH FIRST ROW ONLY | SELECT a FROM t FETCH FIRST 5 ROWS ONLY | SELECT a FROM t FETCH NEXT 5 ROWS WITH TIES | SELECT a FROM t OFFSET 1 FETCH FIRST 1 ROW ONLY | SELECT a FROM t ORDER BY a FETCH FIRST ? ROWS ONLY | SELECT a FROM t FETCH FIRST ROW WITH TIES | SELECT TOP 5 a FROM t | SELECT a FROM t FOR UPDATE | SELECT a INTO b FROM t
SELECT 1 UNION SELECT 2 | SELECT 1 UNION ALL SELECT 2 | SELECT 1 UNION DISTINCT SELECT 2 | SELECT 1 INTERSECT SELECT 2 | SELECT 1 INTERSECT ALL SELECT 2 | SELECT 1 INTERSECT DISTINCT SELECT 2 | SELECT 1 EXCEPT SELECT 2 | SELECT 1 EXCEPT ALL SELECT 2 | SELECT 1 MINUS SELECT 2 | SELECT 1 UNION | UNION SELECT 1 | SELECT 1 UNION SELECT 2 UNION SELECT 3 | SELECT 1 UNION (SELECT 2 UNION SELECT 3) | SELECT 1 EXCEPT SELECT 2 INTERSECT SELECT 3 | (SELECT 1) UNION (SELECT 2) | SELECT 1 LIMIT 1 UNION SELECT 2 | SELECT 1 ORDER BY 1 UNION SELECT 2
(SELECT 1 LIMIT 1) UNION SELECT 2 | SELECT 1 UNION SELECT 2 LIMIT 1 | SELECT 1 UNION (SELECT 2 LIMIT 1) LIMIT 2 | (SELECT 1) LIMIT 1 | (SELECT 1 LIMIT 1) LIMIT 2 | ((SELECT 1)) | (SELECT 1 ORDER BY 1) LIMIT 2 | (TABLE t) UNION (VALUES 1) | SELECT 1 UNION BY NAME SELECT 2 | SELECT 1 UNION CORRESPONDING SELECT 2 | (WITH x AS (SELECT 1) SELECT 2) UNION SELECT 3 | (WITH x AS (SELECT 1) SELECT 2) | (WITH x AS (SELECT 1) SELECT 2) LIMIT 1
VALUES 1 | VALUES 1, 2 | VALUES (1), (2) | VALUES (1, 2) | VALUES ROW(1, 2) | VALUES () | VALUES | VALUES (SELECT 1) | VALUES 1 LIMIT 1 | VALUES (1), 2 | TABLE t | TABLE a.b.c | TABLE t LIMIT 1 | TABLE (t) | TABLE | TABLE t x | TABLE t, u | TABLE a.b.c.d | FROM t | FROM t SELECT a
WITH x AS (SELECT 1) SELECT 2 | WITH RECURSIVE x AS (SELECT 1) SELECT 2 | WITH RECURSIVE x (a) AS (SELECT 1 UNION ALL SELECT a FROM x) TABLE x | WITH x AS (SELECT 1), y AS (SELECT 2) SELECT 3 | WITH x (a) AS (SELECT 1) SELECT 2 | WITH x () AS (SELECT 1) SELECT 2 | WITH x AS SELECT 1 SELECT 2 | WITH x SELECT 1 | WITH SELECT 1 | WITH x AS (SELECT 1) | WITH x AS (t) SELECT 1 | WITH x AS (TABLE t) SELECT 1 | WITH x AS (VALUES 1) TABLE x | WITH x AS MATERIALIZED (SELECT 1) SELECT 2 | WITH x AS (SELECT 1), x AS (SELECT 2) SELECT 3 | WITH x AS (WITH y AS (SELECT 1) SELECT 2) SELECT 3 | WITH x AS (SELECT 1) VALUES 1 | WITH FUNCTION f() RETURNS BIGINT RETURN 1 SELECT 1
SELECT 1; | SELECT 1;; | SELECT 1; SELECT 2 | ; | SELECT 1 SELECT 2 | SELECT 1) | (SELECT 1 | EXPLAIN SELECT 1 | DESCRIBE t | SHOW TABLES | INSERT INTO t SELECT 1 | INSERT INTO t VALUES 1 | DELETE FROM t | UPDATE t SET a = 1 | CREATE TABLE t AS SELECT 1 | CREATE VIEW v AS SELECT 1 | DROP TABLE t | USE s | SET SESSION a = 1 | PREPARE p FROM SELECT 1 | EXECUTE p | CALL f(1) | MERGE INTO t USING u ON a WHEN MATCHED THEN DELETE | START TRANSACTION | COMMIT | ANALYZE t | TRUNCATE TABLE t | GRANT SELECT ON t TO u | SELECT 1 -- c | /* c */ SELECT 1 | SELECT /*+ hint */ 1
"""
TYPES = """
BIGINT | INT | INTEGER | TEXT | STRING | DEC | NUMERIC | DECIMAL | DECIMAL(1) | DECIMAL(1,2) | DECIMAL(2,1) | FLOAT | DOUBLE | DOUBLE PRECISION | REAL | BOOLEAN | BOOL | VARCHAR | VARCHAR(1) | CHAR | CHAR(1) | CHARACTER VARYING(3) | VARBINARY | VARBINARY(1) | BYTEA | DATE | DATE(1) | TIME | TIME(1) | TIME WITH TIME ZONE | TIME(1) WITH TIME ZONE
TIMESTAMP | TIMESTAMP(13) | TIMESTAMP WITHOUT TIME ZONE | TIMESTAMP WITH TIME ZONE | TIMESTAMP WITH LOCAL TIME ZONE | TIMESTAMP(p) | TIMESTAMP(p) WITH TIME ZONE | DATETIME | INTERVAL YEAR TO MONTH | INTERVAL DAY TO SECOND | INTERVAL DAY TO HOUR | INTERVAL YEAR | INTERVAL MONTH TO YEAR | INTERVAL DAY | ARRAY(BIGINT) | ARRAY<BIGINT> | BIGINT ARRAY | BIGINT ARRAY[3] | BIGINT[] | ARRAY | ARRAY(1)
MAP(BIGINT, BIGINT) | MAP<BIGINT, BIGINT> | MAP(BIGINT) | MAP | ROW(BIGINT) | ROW(a BIGINT) | ROW(a BIGINT, b DOUBLE) | ROW(BIGINT, a DOUBLE) | ROW("a" BIGINT) | ROW() | ROW(a) | ROW(a b) | ROW(BIGINT BIGINT) | ROW(a TIMESTAMP WITH TIME ZONE) | STRUCT(a BIGINT) | QDIGEST(DOUBLE) | TDIGEST | TDIGEST(1) | SETDIGEST | COLOR | GEOMETRY | FUNCTION(BIGINT, BIGINT) | UNKNOWN | JSON | UUID | IPADDRESS | HYPERLOGLOG | nope | "BIGINT" | "nope" | a.b | BIGINT NOT NULL | BIGINT DEFAULT 1 | (BIGINT) | 1 | 'BIGINT' | BIGINT; | BIGINT() | BIGINT(1) | bigint | BigInt | VARCHAR('1') | VARCHAR(1, 2) | VARCHAR(-1) | VARCHAR(BIGINT) | ARRAY(ARRAY(ROW(MAP(BIGINT, VARCHAR(3))))) | DOUBLE(1) | DOUBLE PRECISION(1) | REAL PRECISION | MAP(ROW(BIGINT), DECIMAL(38, 38))
"""


def alts(s):
    return [x.strip().replace("\\|", "|") for line in s.replace(" || ", " \x01 ").strip().splitlines() for x in line.split(" | ")]


def alternatives(tier):
    es = [x.replace("\x01", "||") for x in alts(EXPRS)]
    qs = [x.replace("\x01", "||") for x in alts(QUERIES)]
    ts = alts(TYPES)
    for e in es:
        yield "expr", e
        for t in ("(%s)", "a + %s", "%s AND b", "NOT %s", "COALESCE(a, %s)", "CASE WHEN %s THEN 1 END", "ARRAY[%s]", "ROW(a, %s)", "x -> %s", "CAST(%s AS BIGINT)", "SUM(a) FILTER (WHERE %s)", "a IN (%s)"):
            yield "expr", t.replace("%s", e)
        for t in ("SELECT %s", "SELECT a FROM t WHERE %s", "SELECT a FROM t ORDER BY %s", "SELECT a FROM t GROUP BY %s", "SELECT a FROM t JOIN u ON %s", "VALUES %s", "SELECT a FROM t HAVING %s",
                  "SELECT a FROM UNNEST(%s)", "SELECT a FROM (SELECT %s)", "SELECT %s x FROM t"):
            yield "query", t.replace("%s", e)
        yield "type", e
    for q in qs:
        yield "query", q
        for t in ("SELECT a FROM (%s)", "SELECT a FROM (%s) x", "SELECT (%s)", "SELECT a IN (%s)", "WITH w AS (%s) SELECT 1", "(%s)", "(%s) UNION SELECT 1", "SELECT 1 EXCEPT (%s)", "SELECT a FROM LATERAL (%s)", "%s UNION SELECT 1", "%s LIMIT 3", "%s ORDER BY z",
                  "SELECT 1 UNION %s", "SELECT a FROM t WHERE EXISTS (%s)", "WITH w AS (SELECT 1) %s"):
            yield "query", t.replace("%s", q)
        yield "expr", "(%s)" % q
        yield "expr", q
        yield "type", q
    for t in ts:
        yield "type", t
        yield "expr", "CAST(a AS %s)" % t
        yield "expr", "TRY_CAST(a AS ARRAY(%s))" % t
        yield "type", "ARRAY(%s)" % t
        yield "type", "ROW(%s, BIGINT)" % t
        yield "type", "MAP(BIGINT, %s)" % t
        yield "expr", "%s '1'" % t
        yield "expr", t
        yield "query", t


# --- characters -------------------------------------------------------------------------------------------------------
CHARS = ["@", "#", "~", "!", "\\", "&", "\x00", "\u00e9", "'", '"', "`", ";", "(", "0", "a", "-", "/", "*", ".", "$", "\u00a0", "\u200b", "{", "\x0b"]


def characters(tier):
    bases = ["a + 1", "SUM(a) OVER w", "'x' || b", "CAST(a AS BIGINT)", "a.b[1]", "x -> 1.5E2", "a NOT IN (1,2)"]
    for kind, text in [("expr", b) for b in bases] + [("query", "SELECT a z FROM t x WHERE b"), ("query", "VALUES 1 LIMIT 1"), ("type", "DECIMAL(1,1)"), ("type", "TIME(3) WITH TIME ZONE")]:
        for i in range(len(text) + 1):
            yield kind, text[:i] + text[i + 1:]
            for c in CHARS:
                yield kind, text[:i] + c + text[i:]
                yield kind, text[:i] + c + text[i + 1:]
            if tier == "thorough":
                for c in CHARS:
                    for j in range(i + 1, len(text) + 1):
                        yield kind, text[:i] + c + text[i:j] + c + text[j:]


def lookalikes(tier):
    """names which become the one of a function or a type when their case is changed carelessly"""
    for f in sorted(fnreg.FUNCS) + sorted(fnreg.SPECIAL):
        for n in gen.lookalikes(f):
            for k in sorted({0, 1, 2} | set(fnreg.arities(f) if f in fnreg.FUNCS else ())):
                yield "expr", '"%s"(%s)' % (n, ",".join("abcdefg"[:k]))
    for t in TYPE_NAMES:
        for n in gen.lookalikes(t):
            for p in ("", "(1)", "(BIGINT)", "(BIGINT,BIGINT)"):
                yield "type", '"%s"%s' % (n, p)
                yield "expr", 'CAST(a AS "%s"%s)' % (n, p)
            yield "expr", '"%s" \'1\'' % n
            yield "expr", '"%s" \'2020-01-01\'' % n
    for w in ("UNNEST", "LATERAL", "ROW", "ARRAY", "CAST", "EXISTS", "GROUPING", "EXTRACT", "POSITION", "SUBSTRING", "TRIM", "INTERVAL"):
        for n in gen.lookalikes(w):
            for t in ('"%s"(a)', '%s(a)', '%s[a]', "%s '1' DAY"):
                yield "expr", t % n
            yield "query", "SELECT a FROM %s(a)" % n


def other_names(tier):
    """names which are made of the one of a function or a type"""
    for f in sorted(fnreg.FUNCS) + sorted(fnreg.SPECIAL):
        ns = [f + ".x", "x." + f, "x.y." + f, "x." + f + ".y", f + ".x.y", f + "." + f, "system.builtin." + f, '"%s.x"' % f, '"x.%s"' % f, f + "_", "_" + f, f + "1", f + "S", f[:-1], f[1:], f + f, '" %s"' % f, '"%s "' % f, '"%s("' % f,
              '""' + f, f + '""', f + ".", "." + f, f + " x", "x " + f, f.replace("_", ""), f.replace("_", " "), f.replace("_", "."), f[:len(f) // 2] + "_" + f[len(f) // 2:], '"%s\n"' % f, '"%s\x00"' % f, f.lower() + ".x", f.title()]
        for n in ns:
            for k in sorted({0, 1, 2} | set(fnreg.arities(f) if f in fnreg.FUNCS else ())):
                yield "expr", "%s(%s)" % (n, ",".join("abcdefg"[:k]))
            yield "expr", "%s(a) OVER ()" % n
            yield "expr", "%s(DISTINCT a)" % n
    for t in TYPE_NAMES:
        for n in (t + ".x", "x." + t, '"%s.x"' % t, t + "_", t + "1", t + "S", t[:-1], t[1:], '" %s"' % t, '"%s "' % t, t + " x", t + t, t.title(), '"%s"' % t, '"%s"' % t.lower(), '"%s(1)"' % t, '"%s\n"' % t):
            for p in ("", "(1)", "(1,1)", "(BIGINT)", "(BIGINT,BIGINT)"):
                yield "type", n + p
                yield "expr", "CAST(a AS %s%s)" % (n, p)
            yield "expr", "%s '1'" % n
            yield "expr", "%s '2020-01-01'" % n


TYPE_NAMES = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "DECIMAL", "VARCHAR", "CHAR", "VARBINARY", "JSON", "DATE", "TIME", "TIMESTAMP", "INTERVAL", "ARRAY", "MAP", "ROW",
              "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "QDIGEST", "TDIGEST", "UNKNOWN"]


FAMILIES = [
    Family("names that look alike", lookalikes, check),
    Family("names made of other names", other_names, check),
    Family("alternatives of the grammar", alternatives, check),
    Family("mutated expressions", mutations(base_exprs, "few"), check),
    Family("mutated queries", mutations(base_queries, "few"), check),
    Family("mutated types", mutations(base_types, "all"), check),
    Family("sequences of tokens", soup, check),
    Family("characters", characters, check),
]


def main():
    bind.load()
    return run("C09", FAMILIES)
