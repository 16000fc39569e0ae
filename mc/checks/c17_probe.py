"""What C17 looks at in every process: given module names are imported in the given order, then the library is used. Prints JSON.
Imports nothing of the library before the named modules."""
import importlib
import json
import os
import sys

TEXTS = [
    ("expression", "a NOT LIKE 'x' ESCAPE 'y' OR b BETWEEN -1 AND 2.50 AND NOT c IN (1, 2)"), ("expression", "(x, y) -> x + y * k[1] || 'z'"),
    ("expression", "CAST(TRY_CAST(a AS VARCHAR(3)) AS ROW(INTEGER,MAP(BIGINT,ARRAY(DOUBLE))))"), ("expression", "CASE a WHEN 1 THEN 1.5 ELSE 2E0 END"),
    ("expression", "DATE '2020-01-01' + INTERVAL '1-2' YEAR TO MONTH"), ("expression", "ARRAY_AGG(a ORDER BY b DESC) FILTER (WHERE c) OVER (PARTITION BY d ROWS 1 PRECEDING)"),
    ("expression", "LISTAGG(a, ',' ON OVERFLOW TRUNCATE WITH COUNT) WITHIN GROUP (ORDER BY b)"), ("expression", "CURRENT_TIMESTAMP(3)"), ("expression", "ARRAY[1, 2.5, 1E0]"), ("expression", "-(-a) - -1"),
    ("expression", "a IS NOT DISTINCT FROM b"), ("expression", "1 + 2.50"), ("expression", "TIMESTAMP '2020-01-01 00:00:00.123'"), ("expression", "NO_SUCH_FUNCTION(a)"), ("expression", "a b c"),
    ("type", "TIMESTAMP(3) WITH TIME ZONE"), ("type", "MAP(VARCHAR,DECIMAL(5,1))"), ("type", "INTERVAL DAY TO SECOND"),
    ("query", "SELECT 1 x, 'a' y, NULL z"), ("query", "WITH c(p, q) AS (SELECT 1, DATE '2020-01-01') SELECT * FROM c"),
    ("query", "SELECT l.*, r.q FROM (SELECT 1 k, 'x' p) l JOIN (SELECT 2.5 k, 1E0 q) r USING (k)"), ("query", "SELECT * FROM (SELECT 1 k, 2 m, 'x' p) l NATURAL JOIN (SELECT 2.5 m, 1 k, 1E0 q) r"),
    ("query", "VALUES (1, 'a'), (2.5, 'b')"), ("query", "SELECT 1 UNION SELECT 2.5"), ("query", "SELECT * FROM UNNEST(ARRAY[1, 2], MAP(ARRAY['a'], ARRAY[1.5])) WITH ORDINALITY AS t (a, b, c, n)"),
    ("query", "SELECT * FROM (SELECT 1 a) x CROSS JOIN LATERAL (SELECT a b, 2 c) y"), ("query", "SELECT DISTINCT a FROM t, u, v WHERE a = 1 GROUP BY CUBE (a, b), GROUPING SETS ((a), (b, c)) HAVING a > 1 ORDER BY a DESC NULLS FIRST OFFSET 1 ROWS LIMIT 2"),
    ("query", "TABLE a.b.c EXCEPT SELECT 1"), ("query", "SELECT * FROM t TABLESAMPLE BERNOULLI (10) AS s (x, y)"), ("query", "SELECT (SELECT 1), EXISTS (SELECT 2)"), ("query", "SELECT a FROM"),
    ("query", "SELECT * FROM (SELECT 1 p, 2 q, 3 r, 4 s) a JOIN (SELECT 1 s, 2 r, 3 q, 4 p) b USING (r, p, s, q) JOIN (SELECT 1 q, 2 s, 3 z) c USING (s, q)"),
    ("query", "SELECT x FROM (SELECT 1 x) a, (SELECT 2 x) b"),
]
TYPE_PAIRS = ["INTEGER", "BIGINT", "DECIMAL(10,2)", "DOUBLE", "VARCHAR(3)", "VARCHAR", "DATE", "TIMESTAMP(3)", "ROW(INTEGER,VARCHAR(2))", "ROW(BIGINT,VARCHAR)", "ARRAY(INTEGER)", "MAP(INTEGER,REAL)"]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:200])


def use(functions):
    """read, type and print with nothing but the reader imported by name"""
    convert = importlib.import_module("treeno.builder.convert")
    base = importlib.import_module("treeno.base")
    opts = [base.PrintOptions(), base.PrintOptions(mode=base.PrintMode.PRETTY, spaces=2)]
    out = {}
    for kind, text in TEXTS:
        def one():
            x = getattr(convert, kind + "_from_sql")(text)
            r = [type(x).__name__] + [x.sql(o) for o in opts] + [str(getattr(x, "data_type", None))]
            return r
        out[text] = attempt(one)
    for name, count in functions:
        def call():
            x = convert.expression_from_sql("%s(%s)" % (name, ",".join("abcdef"[:count])))
            return [type(x).__name__, x.sql(opts[0]), str(x.data_type)]
        out["%s/%d" % (name, count)] = attempt(call)
    return out


def more():
    """the other parts of the library"""
    convert = importlib.import_module("treeno.builder.convert")
    rel = importlib.import_module("treeno.relation")
    base = importlib.import_module("treeno.base")
    visitor = importlib.import_module("treeno.visitor")
    conv = importlib.import_module("treeno.datatypes.conversions")
    E = importlib.import_module("treeno.expression")
    out = {}

    class Rec(visitor.TreenoVisitor):
        pass
    log = []
    for name in dir(visitor.TreenoVisitor):
        if name.startswith("visit_"):
            setattr(Rec, name, lambda self, n, k=name: (log.append(k), n.visit(self))[0])
    out["handlers"] = sorted(n for n in dir(visitor.TreenoVisitor) if n.startswith("visit_"))
    for kind, text in TEXTS:
        if kind == "type":
            continue
        log.clear()
        out["visit " + text] = attempt(lambda: (Rec().visit(getattr(convert, kind + "_from_sql")(text)), list(log))[1])
        if kind == "query":
            def schema():
                q = convert.query_from_sql(text)
                s = q.resolve(rel.Schema.empty_schema())
                return [[f.name, str(f.data_type)] for f in s.fields] + [q.sql(base.PrintOptions())]
            out["schema " + text] = attempt(schema)
            log.clear()
    ts = [attempt(lambda: convert.type_from_sql(t)) for t in TYPE_PAIRS]
    for i, a in enumerate(ts):
        for j, b in enumerate(ts):
            out["common %d %d" % (i, j)] = attempt(lambda: str(conv.common_supertype(a, b)))
    out["operators"] = attempt(lambda: [str(x) for x in (E.Field("a") + 1 * E.Field("b"), (E.Field("a") == 1) & ~(E.Field("b") > 2.5), -E.Field("a") % E.Field("c") / 3)])
    return out


def cli(texts=TEXTS):
    from typer.testing import CliRunner
    app = importlib.import_module("treeno.cli").app
    out = {}
    for kind, text in texts:
        for cmd in (["format", kind, text], ["tree", kind, text], ["antlr-tree", kind, text]) + ((["schema", text],) if kind == "query" else ()):
            r = CliRunner().invoke(app, cmd)
            out[" ".join(cmd)] = [r.exit_code, r.output, type(r.exception).__name__]
    return out


def go(modules, functions, parts):
    out = {}
    for m in modules:
        out["import " + m] = attempt(lambda: importlib.import_module(m).__name__)
    out.update(use(functions))
    if "more" in parts:
        out.update(more())
    if "cli" in parts:
        out.update(cli())
    return out


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, spec["repo"])
    if spec.get("statement"):
        exec(spec["statement"], {})
    res = go(spec["modules"], spec["functions"], spec["parts"])
    sys.stdout.buffer.write(("RESULT" + json.dumps(res, sort_keys=True)).encode())
