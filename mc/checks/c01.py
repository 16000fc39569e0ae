"""C01: expression text -> tree, against the reference grammar."""
from .. import bind, gen
from ..core import Family, main as run
from .common import *

STY = list(STYLES)


def read_as(kind, n, styles):
    for s in styles:
        text = render(kind, n, STYLES[s])
        selfcheck(kind, n, text)
        _, got = lib_read(kind, text)
        same(want(n), got, "%r is read as a different tree" % text)


def check(case):
    styles, n = case
    read_as("expr", n, styles)


def cases(tier, gens):
    k = 0
    for n in gens:
        k += 1
        if tier == "thorough":
            yield (tuple(STY), n)
        else:
            yield (("min", STY[1 + k % (len(STY) - 1)]), n)


def few(tier, gens):
    k = 0
    for n in gens:
        k += 1
        yield ((STY[k % len(STY)],), n)


def text_check(text):
    """raw texts: the whole reading comes from the reference parser"""
    try:
        n = ref("expr", text)
    except Bad:
        return
    if has_unsup(n):
        return
    bump("texts_in_language")
    _, got = lib_read("expr", text)
    same(want(n), got, "%r is read as a different tree" % text)


OPS2 = ["+", "-", "*", "/", "%", "||", "=", "<>", "!=", "<", ">=", "AND", "OR", "IS DISTINCT FROM", "LIKE", "NOT LIKE", "IN (x) AND", "BETWEEN 1 AND"]
PRE = ["", "-", "+", "NOT", "- -", "NOT NOT", "-1 +", "- 1.5 *"]
POST = ["", "IS NULL", "IS NOT NULL", "[1]", "ESCAPE 'e'", ".f"]


def token_soup(tier):
    """flat (unparenthesised) operator sequences: every 2-operator (3 in thorough) sequence over every operator"""
    for p in PRE:
        for o1 in OPS2:
            for p2 in PRE[:5]:
                for s in POST:
                    yield " ".join(x for x in (p, "a", o1, p2, "b", s) if x)
    for p in ("", "-", "NOT"):
        for o1 in OPS2:
            for o2 in OPS2:
                for s in ("", "IS NULL"):
                    yield " ".join(x for x in (p, "a", o1, "b", o2, "c", s) if x)
    if tier == "thorough":
        for o1 in OPS2:
            for o2 in OPS2:
                for o3 in OPS2:
                    for p in ("", "-", "NOT"):
                        yield " ".join(x for x in ("a", o1, "b", o2, p, "c", o3, "d") if x)


FAMILIES = [
    Family("leaves", lambda t: cases(t, gen.LEAVES), check),
    Family("plain values in two slots", lambda t: cases(t, gen.leaf_pairs(gen.PLAIN if t == "thorough" else gen.PLAIN[:5])), check),
    Family("constructor x slot x leaf", lambda t: cases(t, gen.level1_leaves()), check),
    Family("types in casts", lambda t: cases(t, gen.types_cast()), check),
    Family("two constructors", lambda t: cases(t, gen.level2()), check),
    Family("lists of entries", lambda t: cases(t, gen.expr_lists()), check),
    Family("equal operands and towers", lambda t: cases(t, gen.repetition(t)), check),
    Family("precedence chains", lambda t: few(t, gen.chains(4 if t == "thorough" else 3)), check),
    Family("operator sequences", token_soup, text_check),
    Family("three constructors", lambda t: few(t, gen.level3()) if t == "thorough" else (), check),
    Family("two operands nested", lambda t: few(t, gen.level2_pairs(None if t == "thorough" else gen.CHAIN + ["btw", "likeesc"])), check),
]


def main():
    bind.load()
    return run("C01", FAMILIES)
