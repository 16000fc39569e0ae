"""C08: the formatter - meaning, stability, agreement of library and command line."""
import itertools

from .. import bind, cli, gen, resref
from ..core import Family, main as run
from ..gen import A, query, sel
from .c01 import STY
from .c03 import QFAMS
from .c05 import types, SMALL, leaves, text as type_text
from .c06 import ALPHA, LITERALS, NAMES, SHORT
from .common import *


def read_ref(kind, text, what):
    try:
        n = ref(kind, text)
    except Bad as e:
        raise Violation("%s gives %r which is not valid SQL (%s)" % (what, text, e))
    return fold_frames(norm(n))


def stable(kind, text):
    """library formatter: both layouts keep the meaning and are fixed points"""
    meaning = want(ref(kind, text))
    obj, got = lib_read(kind, text)
    out = {mode: lib_print(obj, mode) for mode in ("DEFAULT", "PRETTY")}
    for mode, o in out.items():
        same(meaning, read_ref(kind, o, "formatting %r" % text), "formatting %r gives %r, another meaning" % (text, o))
        again, _ = lib_read(kind, o)
        for m2 in (mode, "DEFAULT", "PRETTY"):     # the layouts may be applied in any order
            o2 = lib_print(again, m2)
            if o2 != out[m2]:
                raise Violation("%s layout of %r is %r, but of its %s layout it is %r" % (m2, text, out[m2], mode, o2))
    validated()
    return out["PRETTY"]


def text_of(kind, n, style):
    text = render(kind, n, STYLES[style])
    selfcheck(kind, n, text)
    return text


def check(case):
    style, kind, n = case
    stable(kind, text_of(kind, n, style))


def cli_ok(kind, text, out, res, n):
    rc, so, se, ex = res
    if rc != 0 and kind == "query" and resref.ambiguous(n):
        return      # an ambiguous column may be refused
    if rc != 0 or ex is not None:
        raise Violation("treeno format fails (%s %r) for %r" % (rc, ex or se[-300:], text))
    if so != out + "\n" or se:
        raise Violation("treeno format of %r prints %r (stderr %r) instead of %r" % (text, so, se, out))
    validated()


def cli_check(case):
    style, kind, n = case
    text = text_of(kind, n, style)
    out = stable(kind, text)
    cli_ok(kind, text, out, cli.run(cli.argv("format", kind, text)), n)
    cli_ok(kind, out, out, cli.run(cli.argv("format", kind, out)), n)


def process_check(case):
    style, kind, n = case
    text = text_of(kind, n, style)
    cli_ok(kind, text, lib_print(lib_read(kind, text)[0], "PRETTY"), cli.run_process(cli.argv("format", kind, text)), n)


def styled(kind, gens, only=None):
    for i, n in enumerate(gens):
        if kind == "expr" and n[0] == "q":
            continue
        yield ((only or STY)[i % len(only or STY)], kind, n)


def tfam(tier):
    for t in types(tier) if tier == "thorough" else list(leaves()) + list(gen.TYPES):
        yield t


def qs(tier, name=None):
    for n, f in QFAMS:
        if name is None or n == name:
            yield from f(tier)


def texts(tier):
    """white space, comments and unusual spellings in every place of one text of each construct"""
    base = [("query", gen.query(gen.sel([gen.item(A, "z"), ("star", "t")], ("join", "LEFT", False, gen.T1, gen.T2, gen.CRIT[0]), ("notin" and ("not", ("in", A, (gen.I1, gen.S1)))),
                                        "DISTINCT", ("ALL", (("set", (A,)),)), ("cmp", ">", gen.fn("SUM", [A]), gen.I1)), ((A, "DESC", "FIRST"),), 1, 2, gen.WITHS[1])),
            ("query", query(("setop", "UNION", "DISTINCT", gen.q1(A), query(sel([gen.item(gen.Bc)]), lim=1)))),
            ("query", query(sel([gen.item(gen.fn("SUM", [A], flt=gen.Bc, win=gen.win(None, [A], [(A, "ASC", "LAST")], ("ROWS", ("P", gen.I1), ("CR",)))))], gen.T1))),
            ("expr", ("case", A, ((gen.I1, ("cast", gen.Bc, ("t", "DECIMAL", 10, 2))), (gen.I2, ("str", "a\nb"))), ("neg", ("bin", "-", A, ("neg", gen.Bc))))),
            ("type", ("t", "MAP", ("t", "TIMESTAMP", 3, True), ("t", "ROW", (("t", "VARCHAR", 3), ("t", "DOUBLE")))))]
    for kind, n in base:
        toks = [t[2] for t in __import__("mc.lang", fromlist=["lex"]).lex(render(kind, n, MIN))]
        for i in range(len(toks) + 1):
            for sp in ("\n", "\r\n", "\t \t", "/* x */", "-- x\n", "/* ' */", "-- \"\n", "/**/", "  \n\n\n  "):
                yield kind, " ".join(toks[:i]) + sp + " " + " ".join(toks[i:])
        for t in (" ".join(toks).lower(), " ".join(toks) + (";" if kind == "query" else ""), " ".join(toks) + "--", "".join("\n" + t for t in toks)):
            if "DOUBLE" in t or "double" in t or True:
                yield kind, t


def raw(case):
    kind, text = case
    try:
        n = ref(kind, text)
    except Bad:
        raise HarnessError(text)
    if has_unsup(n):
        raise HarnessError(text)
    out = stable(kind, text)
    cli_ok(kind, text, out, cli.run(cli.argv("format", kind, text)), n)


CONTENTS = ["", "'", '"', "\\", "%", "\n", "\t", "\r", "\r\n", "a\r\nb", "a\rb", "\n\n", " \n ", "a  b", " a", "a ", "\u00e9", "\U0001f600", "e\u0301", ";", "--", "-- a", "/*", "*/",
            "/* a */", "(", ")", ",", ".", "`", "{}", "{0}", "%s", "$x", "\\n", "\x0c", "\x0b", "\u2028", "\x85", "\xa0", "\x00", "0", "_", "U&", "select", "SELECT", "from",
            "''", '""', "'\n'", "x" * 130, "x y " * 40, "a\n    b", "a\n\tb", "\ufeff", "\u200b", "\u0130", "I", "\u00df", "A", "a"]


def contents(tier):
    k = CONTENTS + ([a + b for a in SHORT for b in SHORT] if tier == "quick" else [a + b for a in ALPHA for b in ALPHA])
    for s in dict.fromkeys(k):
        for table in (LITERALS, NAMES):
            for p in table:
                if s or table is LITERALS:
                    n = table[p](s)
                    yield "min", "query" if n[0] == "query" else "expr", n


def process_cases(tier):
    es = list(styled("expr", list(gen.level1()) + gen.LEAVES, ["min", "lines"]))
    q = list(styled("query", list(gen.bodies_tails()) + list(gen.all_window_queries()) + list(gen.setops(2)), ["min", "comment"]))
    ty = list(styled("type", [t for t in gen.TYPES]))
    k = (6, 60) if tier == "quick" else (1, 9)
    yield from es[::k[0]]
    yield from q[::k[1]]
    yield from ty[::4]
    for s in ("\u00e9\u00df", "\U0001f600", "a\nb", "\t", "%s", "\\n", "$x", "\r", "--", "-", "\x7f", "\x1b[31m"):
        yield "min", "expr", ("cat", (("str", s), gen.col(s)))


FAMILIES = [
    Family("expressions", lambda t: styled("expr", gen.exprs("quick")), check),
    Family("deeper expressions", lambda t: styled("expr", itertools.chain(gen.level2_pairs(gen.CHAIN + ["btw", "likeesc"]), gen.chains(4))) if t == "thorough" else (), check),
    Family("queries", lambda t: styled("query", gen.queries(t)), check),
    Family("types", lambda t: styled("type", tfam(t)), cli_check),
    Family("command line: expressions", lambda t: styled("expr", gen.LEAVES + list(gen.level1()) + (list(gen.level1_leaves()) + list(gen.level2()) if t == "thorough" else [])), cli_check),
    Family("command line: queries", lambda t: styled("query", (n for i, n in enumerate(qs("quick")) if t == "thorough" or i % 3 == 0)), cli_check),
    Family("contents of literals and names", contents, cli_check),
    Family("layout of the input", texts, raw),
    Family("command line as a process", process_cases, process_check),
]


def main():
    bind.load()
    return run("C08", FAMILIES)
