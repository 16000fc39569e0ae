"""C22: the inspection commands - every enumerated text x tree, antlr-tree and schema; their output against drawings made here from the tree
and the parse tree, and against the columns of the reference resolver; refused texts x every command."""
import collections
import importlib
import io
import itertools
import re

import attr

from .. import bind, cli, gen, lang, resref
from ..core import Family, main as run
from ..gen import A, I1, INT, S1, col, fn, item, q1, query, sel
from . import c09, c12, c18
from .c01 import STY
from ..core import HarnessError
from .common import *

NLTK = GEN = None
GKIND = {"expr": "standaloneExpression", "query": "query", "type": "standaloneType"}
ANSI = re.compile("\x1b\\[[0-9;]*m")


def draw(t):
    out = io.StringIO()
    t.pretty_print(stream=out)
    return out.getvalue()


def picture(o):
    """what a drawing of an object shows"""
    T = NLTK.Tree
    if isinstance(o, (list, tuple, set, frozenset)):
        return T("<%s>" % type(o).__name__, [picture(x) for x in o])
    if isinstance(o, dict):
        return T("<%s>" % type(o).__name__, [T(k, [picture(v)]) for k, v in o.items()])
    if isinstance(o, bind.T.DataType) or not isinstance(o, bind.B.Sql):
        return str(o)
    kids = []
    for f in attr.fields(type(o)):
        v = getattr(o, f.name)
        if f.name.startswith("_") or v is None or default(v) or isinstance(v, (list, tuple, set, dict)) and not v:
            continue
        kids.append(T(f.name, [picture(v)]))
    return T(type(o).__name__, kids)


def default(v):
    return isinstance(v, bind.B.DefaultableEnum) and v == type(v).default()


def words(o, out):
    """kinds, names and literals of a tree, straight from its attributes"""
    if isinstance(o, bind.T.DataType):
        out[str(o)] += 1
    elif isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            words(x, out)
    elif isinstance(o, dict):
        for k, v in o.items():
            out[k] += 1
            words(v, out)
    elif isinstance(o, bind.B.Sql):
        out[type(o).__name__] += 1
        for f in attr.fields(type(o)):
            if not f.name.startswith("_"):
                words(getattr(o, f.name), out)
    elif o is not None and not default(o):
        out[str(o)] += 1


def simple(label):
    return len(label) <= 16 and re.fullmatch(r"[A-Za-z0-9.'+()<>=,-]+", label) and label.strip("_|.")


def shown(text, needed, what):
    have = collections.Counter(w for w in ANSI.sub("", text).split() if w.strip("_|"))
    for w, n in needed.items():
        if simple(w) and have[w] < n:
            raise Violation("%s shows %r %d times instead of %d:\n%s" % (what, w, have[w], n, text))


def succeeded(cmd, kind, text, res):
    rc, so, se, ex = res
    if rc != 0 or ex is not None:
        raise Violation("treeno %s fails (%s %r) for %s %r" % (cmd, rc, ex or se[-300:], kind, text))
    if se:
        raise Violation("treeno %s of %r writes %r to the error output" % (cmd, text, se))
    return so


def expect(cmd, kind, text, n, res=None):
    """one command on one text the library accepts"""
    res = cli.run(cli.argv(cmd, kind, text)) if res is None else res
    if res[0] != 0 and kind == "query" and cmd != "antlr-tree" and resref.ambiguous(n):
        if res[1]:
            raise Violation("treeno %s fails for %r but prints %r" % (cmd, text, res[1]))
        return
    so = succeeded(cmd, kind, text, res)
    what = "treeno %s of %s %r" % (cmd, kind, text)
    if cmd == "tree":
        obj = lib_read(kind, text)[0]
        if kind == "query":
            try:
                obj.resolve(c12.REL.Schema.empty_schema())
            except Exception as e:
                if resref.ambiguous(n):
                    return
                raise Violation("%r can't be resolved: %s: %s" % (text, type(e).__name__, e))
        need = collections.Counter()
        words(obj, need)
        shown(so, need, what)
        p = picture(obj)
        same(draw(p if isinstance(p, NLTK.Tree) else NLTK.Tree(p, [])) + "\n", so, what)
    elif cmd == "antlr-tree":
        need = collections.Counter(t[2] for t in lang.lex(text))
        shown(so, need, what)
        same(draw(parse_picture(kind, text)) + "\n", so, what)
    else:
        out = None
        try:
            out = resref.query(n, resref.Env(c12.cat(())))
        except resref.Ambiguous:
            return
        lines = ANSI.sub("", so).split("\n")
        if lines[-1] != "" or len(lines) != len(out.cols) + 1:
            raise Violation("%s shows %d lines for the columns %r:\n%s" % (what, len(lines) - 1, out.cols, so))
        for (name, t, known), line in zip(out.cols, lines):
            shown_name, _, shown_type = line.rpartition(" - ")
            same("<none>" if name is None else name, shown_name, "name of a column in %s (%r)" % (what, line))
            if t == resref.UNK:
                same("<unknown>", shown_type, "type of a column in %s (%r)" % (what, line))
            else:
                try:
                    got = ref("type", shown_type)
                except Bad:
                    raise Violation("%s shows the type %r" % (what, line))
                same(ref("type", render("type", t, MIN)), got, "type of a column in %s (%r)" % (what, line))


def parse_picture(kind, text):
    import antlr4
    from antlr4.error.ErrorListener import ErrorListener
    lexer, parser = GEN

    class Strict(ErrorListener):
        def syntaxError(self, *a):
            raise HarnessError("the grammar doesn't accept %r" % text)
    p = parser(antlr4.CommonTokenStream(lexer(antlr4.InputStream(text))))
    p.removeErrorListeners()
    p.addErrorListener(Strict())
    top = getattr(p, GKIND[kind])()

    def go(c):
        if isinstance(c, antlr4.TerminalNode):
            return c.getSymbol().text.replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")
        label = p.ruleNames[c.getRuleIndex()]
        return NLTK.Tree(label, [go(k) for k in c.getChildren()]) if c.getChildCount() else label
    return go(top)


def in_grammar(kind, text):
    """the generated parser takes all of the text"""
    import antlr4
    from antlr4.error.ErrorListener import ErrorListener

    class Strict(ErrorListener):
        def syntaxError(self, *a):
            raise Bad("syntax")
    lex = GEN[0](antlr4.InputStream(text))
    p = GEN[1](antlr4.CommonTokenStream(lex))
    for r in (lex, p):
        r.removeErrorListeners()
        r.addErrorListener(Strict())
    try:
        getattr(p, GKIND[kind])()
    except Bad:
        return False
    ts = p.getTokenStream()
    if kind == "query" and ts.LT(1).text == ";":
        ts.consume()
    return ts.LT(1).type == antlr4.Token.EOF


def commands(kind):
    return ("tree", "antlr-tree") + (("schema",) if kind == "query" else ())


def check(case):
    style, kind, n = case
    text = render(kind, n, STYLES[style])
    selfcheck(kind, n, text)
    for cmd in commands(kind):
        expect(cmd, kind, text, n)


def schema_only(n):
    expect("schema", "query", render("query", n, MIN), n)


def process(case):
    cmd, kind, n = case
    text = render(kind, n, MIN)
    expect(cmd, kind, text, n, cli.run_process(cli.argv(cmd, kind, text)))


def refused(case):
    kind, text = case
    try:
        n = ref(kind, text)
        outside = False
    except Bad:
        outside = not in_grammar(kind, text)
    try:
        bind.lib_parse(kind, text)
        accepted = True
    except Exception:
        accepted = False
    if accepted and not outside:
        return
    for cmd in ("format",) + commands(kind):
        if cmd == "antlr-tree" and not outside:
            continue
        rc, so, se, ex = cli.run(cli.argv(cmd, kind, text))
        if rc == 0 or so:
            raise Violation("treeno %s of the refused %s %r ends with status %s and prints %r" % (cmd, kind, text, rc, so[:300]))
        validated()
    bump("refused texts")


def refused_process(case):
    kind, text = case
    for cmd in ("format",) + commands(kind):
        rc, so, se, ex = cli.run_process(cli.argv(cmd, kind, text))
        if rc == 0 or so:
            raise Violation("treeno %s of the refused %s %r ends with status %s and prints %r" % (cmd, kind, text, rc, so[:300]))
        validated()


def usage(case):
    args, ok = case
    rc, so, se, ex = cli.run(list(args))
    if (rc == 0) != ok:
        raise Violation("treeno %s ends with status %s" % (" ".join(args), rc))
    if not ok and so:
        raise Violation("treeno %s fails but prints %r" % (" ".join(args), so))
    validated()


def styled(kind, it, k=1, only=None):
    for i, n in enumerate(it):
        if i % k == 0 and not (kind == "expr" and n[0] == "q"):
            yield ((only or STY)[i // k % len(only or STY)], kind, n)


def gen_expr(tier):
    yield from styled("expr", gen.LEAVES)
    yield from styled("expr", gen.level1())
    yield from styled("expr", gen.level1_leaves(), 1 if tier == "thorough" else 7)
    yield from styled("expr", gen.level2(), 2 if tier == "thorough" else 23)
    yield from styled("expr", gen.expr_lists(), 3 if tier == "thorough" else 11)


def gen_query(tier):
    yield from styled("query", gen.queries("quick"), 2 if tier == "thorough" else 11)


def gen_type(tier):
    from .c05 import types, leaves
    yield from styled("type", itertools.chain(gen.TYPES, leaves()))
    yield from styled("type", types("quick"), 5 if tier == "thorough" else 60)


def gen_schema(tier):
    """everything the resolver distinguishes, with what can be known without a catalogue"""
    vals = [I1, S1, ("null",), ("dec", "1.50"), ("dbl", 1.5), ("bool", True), A, ("tc", "DATE", "2020-01-01"), ("arr", (I1,)), ("row", (I1, S1))] + [("cast", A, t) for t in gen.TYPES]
    names = [None, "x", "A b", "select", "a-b", "x - y", "é", "q\"q"]
    for v in vals:
        for n in names:
            yield query(sel([item(v, n)]))
            yield query(sel([item(col("z"), n), item(v)]))
    base = query(sel([item(I1, "x"), item(S1, "y"), item(A)]))
    sub = ("alias", ("subq", base), "s", None)
    sub2 = ("alias", ("subq", query(sel([item(("dec", "2.5"), "x"), item(("null",), "z")]))), "r", ("x", "w"))
    rels = [sub, sub2, gen.T1, ("join", "CROSS", False, sub, sub2, None), ("join", "INNER", False, sub, sub2, ("using", ("x",))), ("join", "LEFT", True, sub, sub2, None), ("join", "FULL", False, sub, gen.T1, ("using", ("x",))),
            ("alias", ("unnest", (("arr", (I1,)), ("arr", (S1,))), True), "u", ("e", "f", "o")), ("unnest", (("arr", (("row", (I1, S1)),)),), False), ("alias", ("lateral", base), "l", None), ("sample", sub, "SYSTEM", ("int", 5)),
            ("subq", query(("values", (("row", (I1, S1)), ("row", (("dec", "2.5"), ("null",))))))), ("subq", query(("table", ("t",))))]
    for r in rels:
        for items in ([("star", None)], [("star", "s")], [("star", "r"), item(I1)], [item(col("x", "s"), "k"), item(col("y"))], [item(col("w")), ("star", "u")], [item(col("e", "u")), item(col("nope", "s"))], [("astar", "s", ("p", "q", "v"))]):
            yield query(sel(items, r))
            yield query(sel([("star", None)], ("alias", ("subq", query(sel(items, r))), "o", None)))
            yield query(("setop", "UNION", "ALL", query(sel(items, r)), query(sel(items, r))))
    yield query(sel([("star", None)], gen.tbl("c")), with_=[("c", ("p", "q", "o"), base)])
    yield query(("table", ("c",)), with_=[("c", None, base)])
    for k in (1, 2, 9, 30):
        yield query(("values", (("row", tuple(("int", i) for i in range(k))),) if k > 1 else (I1,)))
        yield query(sel([item(("int", i), "c%d" % i) for i in range(k)]))
    if tier == "thorough":
        for f in c12.FAMILIES:
            if f.name != "catalogs":
                for i, q in enumerate(f.gen("quick")):
                    if i % 3 == 0 and q[0] == "query":
                        yield q


def gen_refused(tier):
    k = 4 if tier == "thorough" else 60
    for f in c09.FAMILIES:
        for i, c in enumerate(f.gen("quick")):
            if i % k == 0 and "\x00" not in c[1]:
                yield c


BADTEXTS = [("query", "SELECT"), ("query", ""), ("query", "SELECT 1 FROM"), ("query", "SELECT 1; SELECT 2"), ("query", "SELECT 1 x y"), ("query", "SELECT a FROM t WHERE"), ("query", "SELECT 'a"), ("query", "DROP TABLE t"), ("expr", "a +"), ("expr", ""),
            ("expr", "a b"), ("expr", "(a"), ("expr", "'x"), ("expr", "a ? b"), ("type", "DECIMAL("), ("type", ""), ("type", "ARRAY()"), ("type", "INTEGER INTEGER"), ("expr", "a -- b\n c"), ("query", "\\")]


def gen_process(tier):
    es = [n for n in itertools.chain(gen.LEAVES, gen.level1()) if n[0] != "q"]
    qs = list(gen.bodies_tails())
    for n in es[::1 if tier == "thorough" else 16]:
        for cmd in commands("expr"):
            yield (cmd, "expr", n)
    for n in qs[::20 if tier == "thorough" else 300]:
        for cmd in commands("query"):
            yield (cmd, "query", n)


USAGE = [((), False), (("tree",), False), (("tree", "query"), False), (("tree", "nonsense", "a"), False), (("schema",), False), (("schema", "SELECT 1", "x"), False), (("antlr-tree", "expression"), False), (("antlr_tree", "expression", "a"), False),
         (("nonsense", "expression", "a"), False), (("format", "expression"), False), (("tree", "expression", "a"), True), (("antlr-tree", "type", "INTEGER"), True), (("schema", "SELECT 1"), True), (("schema", "a"), False), (("schema", "INTEGER"), False), (("tree", "type", "a + b"), False), (("tree", "query", "a"), False),
         (("tree", "expression", "SELECT 1"), False), (("antlr-tree", "query", "a"), False), (("antlr-tree", "expression", "SELECT 1"), False)]
FAMILIES = [
    Family("expressions", gen_expr, check),
    Family("queries", gen_query, check),
    Family("types", gen_type, check),
    Family("schemas", gen_schema, schema_only),
    Family("refused texts", gen_refused, refused),
    Family("refused texts, selected", lambda t: BADTEXTS, refused),
    Family("refused texts in a process", lambda t: BADTEXTS[::1 if t == "thorough" else 4], refused_process),
    Family("commands as processes", gen_process, process),
    Family("arguments", lambda t: USAGE[1:], usage),
]


def main():
    global NLTK, GEN
    bind.load()
    c12.REL = importlib.import_module("treeno.relation")
    NLTK = importlib.import_module("nltk")
    GEN = (importlib.import_module("treeno.grammar.gen.SqlBaseLexer").SqlBaseLexer, importlib.import_module("treeno.grammar.gen.SqlBaseParser").SqlBaseParser)
    return run("C22", FAMILIES)
