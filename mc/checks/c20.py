"""C20: function calls - every function x every argument count x every combination of modifiers, read from SQL and built in Python (by
attribute names and positionally), printed in both layouts and read back, against the documented signatures and the reference grammar."""
import itertools

from .. import bind, fnreg, gen
from ..core import Family, main as run
from ..gen import A, Bc, C, D, I1, I2, S1, col, fn, item, q1, query, sel, win
from .c02 import print_ok
from .common import *

AGGS = sorted(n for n in fnreg.FUNCS if fnreg.FUNCS[n][0])
PLAIN = sorted(n for n in fnreg.FUNCS if not fnreg.FUNCS[n][0])
ARGS = [col("a"), col("b", "t"), ("int", 3), ("str", "x"), ("bin", "+", col("c"), I1), col("d")]
# what Trino documents where the library's own signature says something else
ELSEWHERE = {"KURTOSIS": [1]}
OBS = [(), ((col("o"), "ASC", "LAST"),), ((col("o"), "DESC", "FIRST"), (("neg", col("p")), "ASC", "FIRST"))]
FLT = [None, ("cmp", ">", col("f"), I1), ("or", col("f"), ("isnull", col("g")))]
WIN = [None, win("w"), win(), win(None, [col("q")], [(col("r"), "DESC", "LAST")]), win("A w", [col("q"), ("bin", "*", col("s"), I2)], [(col("r"), "ASC", "FIRST")], ("RANGE", ("P", I1), ("F", col("u"))))]


def args_for(k):
    return ARGS[:k] if k <= len(ARGS) else ARGS + [col("z%d" % i) for i in range(k - len(ARGS))]


def text_of(name, args, quant="", ob=(), flt=None, nulls="", w=None):
    """an SQL text of a call, put together here (so that it can be one the library refuses)"""
    t = name + "(" + (quant + " " if quant else "") + ",".join(render("expr", a, MIN) for a in args)
    if ob:
        # the ordering as rendered in a call of which everything is known
        full = render("expr", fn("SUM", [A], ob), MIN)
        t += " " + full[full.index("ORDER"):-1]
    t += ")"
    if flt is not None:
        t += " FILTER (WHERE " + render("expr", flt, MIN) + ")"
    if nulls:
        t += " " + nulls + " NULLS"
    if w is not None:
        full = render("expr", fn("SUM", [A], win=w), MIN)
        t += " " + full[full.index("OVER"):]
    return t


def kept_or_refused(text, n, must=None):
    """must: True accepted, False refused, None either; whatever is accepted keeps everything"""
    step()
    try:
        obj = bind.lib_parse("expr", text)
    except Exception as e:
        if must is True:
            raise Violation("%r is refused: %s: %s" % (text, type(e).__name__, str(e)[:200]))
        validated()
        bump("refused calls")
        return None
    if must is False:
        raise Violation("%r is accepted as %r" % (text, lib_print(obj)))
    same(want(n), norm(neutral("expr", obj)), "%r is read as a different call" % text)
    for m in ("DEFAULT", "PRETTY"):
        sql = lib_print(obj, m, n=n)
        same(want(n), want(ref("expr", sql)), "%r, printed as %r, is a different call" % (text, sql))
        back, got = lib_read("expr", sql)
        same(want(n), got, "%r, printed as %r, reads back different" % (text, sql))
        step()
        if guarded("equals", back.equals, obj) is not True:
            raise Violation("%r, printed as %r, reads back unequal" % (text, sql))
    bump("accepted calls")
    return obj


def modifiers(c):
    name, k, ob, flt, nulls, w = c
    args = args_for(k)
    n = fn(name, args, ob, flt, nulls or "RESPECT", w)
    agg = fnreg.FUNCS[name][0]
    plain = not ob and flt is None and not nulls and w is None
    ok = k in fnreg.arities(name)
    text = text_of(name, args, "", ob, flt, nulls, w)
    if nulls and w is None:         # outside the grammar
        return kept_or_refused(text, n, False)
    obj = kept_or_refused(text, n, True if ok and (agg or plain) else None)
    if ok and (agg or plain):
        built = lib_build("expr", n)
        step()
        if guarded("equals", built.equals, obj) is not True or guarded("equals", obj.equals, built) is not True:
            raise Violation("%r read and built differ" % text)
        print_ok("expr", n, built)


def counts(c):
    name, k, how = c
    args = args_for(k)
    spelled = {"upper": name, "lower": name.lower(), "mixed": name.capitalize(), "quoted": '"%s"' % name, "quoted lower": '"%s"' % name.lower()}.get(how, name)
    ok = k in fnreg.arities(name)
    n = fn(name, args)
    if how == "distinct":
        return kept_or_refused(text_of(name, args, "DISTINCT"), n, False)
    if how == "all":
        if not k:
            return
        return kept_or_refused(text_of(name, args, "ALL"), n, None)
    if how in ("star", "label"):
        s = ("star", None if how == "star" else "t")
        return kept_or_refused("%s(%s*)" % (name, "" if how == "star" else "t."), fn(name, [s]), True if name == "COUNT" else None)
    if how == "qualified":
        return kept_or_refused("x." + text_of(name, args), n, False)
    if how == "processing":
        return kept_or_refused("RUNNING " + text_of(name, args), n, False)
    kept_or_refused(text_of(spelled, args), n, True if ok and how in ("upper", "lower") else None)
    if how == "upper":
        # the same call from Python, positionally
        step()
        cls = bind.FB.NAMES_TO_FUNCTIONS.get(name)
        if cls is None:
            raise Violation("%s isn't a function the library knows" % name)
        try:
            obj = cls.from_args(*[bind.build(a) for a in args])
        except Exception as e:
            if ok:
                raise Violation("%s.from_args refuses %d arguments: %s: %s" % (name, k, type(e).__name__, str(e)[:200]))
            return
        print_ok("expr", n, obj)


def documented(c):
    name, k = c
    text = text_of(name, args_for(k))
    step()
    try:
        obj = bind.lib_parse("expr", text)
    except Exception as e:
        raise Violation("%r, as documented by Trino, is refused: %s" % (text, str(e)[:100]), key="%s with %d argument" % (name, k))
    same(want(fn(name, args_for(k))), norm(neutral("expr", obj)), "%r is read differently" % text)


def named(c):
    """built from Python by attribute names: every argument is printed at its own place"""
    name, k, mods = c
    args = args_for(k)
    kw, lists = {}, {}
    for (a, i), v in zip(fnreg.attrs_for(name, k), args):
        if i is None:
            kw[a] = bind.build(v)
        else:
            lists.setdefault(a, []).append(bind.build(v))
    n = fn(name, args)
    if mods:
        ob, flt, nulls, w = mods
        n = fn(name, args, ob, flt, nulls, w)
        kw.update(orderby=bind.b_order(ob), filter_=bind.build(flt), null_treatment=bind.W.NullTreatment[nulls], window=bind.b_window(w))
    kw.update(lists)
    cls = bind.FB.NAMES_TO_FUNCTIONS[name]
    step()
    obj = guarded("%s built with %s" % (name, sorted(kw)), lambda: cls(**kw))
    same(want(n), norm(neutral("expr", obj)), "%s built with %s" % (name, sorted(kw)))
    print_ok("expr", n, obj)


def refused_in_python(c):
    """modifiers don't belong to other functions: never dropped"""
    name, k, mod = c
    cls = bind.FB.NAMES_TO_FUNCTIONS[name]
    kw = {"orderby": lambda: bind.b_order(OBS[1]), "filter_": lambda: bind.build(FLT[1]), "null_treatment": lambda: bind.W.NullTreatment.IGNORE, "window": lambda: bind.b_window(WIN[1]), "nonsense": lambda: 1}[mod]()
    step()
    try:
        obj = cls.from_args(*[bind.build(a) for a in args_for(k)], **{mod: kw})
    except Exception:
        validated()
        return
    raise Violation("%s.from_args(..., %s=...) is accepted and prints %r" % (name, mod, lib_print(obj)))


def tree_case(n):
    kept_or_refused(render("expr", n, MIN), n, True)
    print_ok("expr", n)


def text_case(c):
    text, n, must = c
    kept_or_refused(text, n, must)


def gen_modifiers(tier):
    for name in AGGS + PLAIN:
        ks = fnreg.arities(name)
        ks = ks if tier == "thorough" or name in PLAIN else [ks[-1]]
        agg = name in AGGS
        for k in ks:
            full = agg and (tier == "thorough" or name in ("SUM", "COUNT", "MAX_BY", "APPROX_PERCENTILE"))
            for ob, flt, nulls, w in itertools.product(OBS if full else OBS[::2], FLT if full else FLT[:2], ("", "IGNORE", "RESPECT"), WIN if full else [None, WIN[-1]]):
                yield (name, k, ob, flt, nulls, w)


def gen_counts(tier):
    for name in sorted(fnreg.FUNCS):
        top = max(fnreg.arities(name)) + 3
        for k in range(0, top if tier == "quick" else 9):
            for how in ("upper", "lower", "mixed", "quoted", "quoted lower", "distinct", "all", "qualified", "processing"):
                if k or how not in ("distinct",):
                    yield (name, k, how)
        for how in ("star", "label"):
            yield (name, 1, how)


def gen_named(tier):
    for name in sorted(fnreg.FUNCS):
        for k in fnreg.arities(name):
            yield (name, k, None)
            if name in AGGS:
                for ob, flt, nulls, w in itertools.product(OBS[1:], FLT[1:], ("RESPECT", "IGNORE"), WIN[1:]):
                    if tier == "thorough" or w is WIN[-1]:
                        yield (name, k, (ob, flt, nulls, w))


def gen_windows(tier):
    for name in AGGS if tier == "thorough" else ["SUM", "MAX_BY", "APPROX_DISTINCT"]:
        args = args_for(fnreg.arities(name)[0])
        for i, w in enumerate(gen.windows()):
            yield fn(name, args, (), FLT[i % 3], ("RESPECT", "IGNORE")[i % 2], w)


def gen_args(tier):
    """every kind of argument in every place"""
    pool = [k for k in gen.level1()] if tier == "thorough" else [k for i, k in enumerate(gen.level1()) if i % 3 == 0]
    for i, e in enumerate(pool):
        for name, place in (("SUM", 0), ("COALESCE", 1), ("IF", 0), ("IF", 2), ("MAX_BY", 1), ("CONCAT", 0), ("APPROX_PERCENTILE", 2), ("TRY", 0), ("REPLACE", 1), ("FROM_UNIXTIME", 2), ("DATE_ADD", 1)):
            if tier == "quick" and (i + place) % 2:
                continue
            args = args_for(max(fnreg.arities(name)))
            args[place] = e
            yield fn(name, args)
        yield fn("ARRAY_AGG", [A], ((e, "DESC", "FIRST"), (col("o"), "ASC", "LAST")))
        yield fn("ARRAY_AGG", [A], (), e)
        yield fn("ARRAY_AGG", [A], (), None, "IGNORE", win(None, [col("q"), e], [(e, "ASC", "FIRST")]))
        yield fn("SUM", [A], (), None, "RESPECT", win(None, [], [(col("o"), "ASC", "LAST")], ("ROWS", ("P", e), ("F", e))))


PLAINEST = [("null",), ("bool", True), ("bool", False), ("int", 0), ("int", 1), ("str", ""), ("str", "NULL"), ("dec", ".0"), ("curr", "CURRENT_DATE", None), col("null")]


def gen_plain(tier):
    """the plainest values (which are easily taken for nothing at all) in every place of every function"""
    for name in sorted(fnreg.FUNCS):
        ks = fnreg.arities(name)
        for k in ks if tier == "thorough" else sorted({ks[0], ks[-1]}):
            for v in PLAINEST if tier == "thorough" else PLAINEST[:6]:
                for i in range(min(k, 4)):
                    args = list(args_for(k))
                    args[i] = v
                    yield fn(name, args)
                if k > 1:
                    yield fn(name, [v] * k)
    for j, name in enumerate(AGGS):
        for i, v in enumerate(PLAINEST):
            if tier == "quick" and (i + j) % 3 and name not in ("SUM", "COUNT"):
                continue
            args = args_for(fnreg.arities(name)[-1])
            for ob in [((v, "ASC", "LAST"),), ((v, "DESC", "FIRST"), (v, "ASC", "LAST"))]:
                yield fn(name, args, ob)
            yield fn(name, args, (), v)
            yield fn(name, args, (), v, "IGNORE", win())
            yield fn(name, args, (), None, "RESPECT", win(None, [v]))
            yield fn(name, args, (), None, "RESPECT", win("w", [], [(v, "ASC", "LAST")]))
            for fr in ("ROWS", "RANGE", "GROUPS"):
                yield fn(name, args, (), None, "RESPECT", win(None, [], [(col("o"), "ASC", "LAST")], (fr, ("P", v), ("CR",))))
                yield fn(name, args, (), None, "RESPECT", win(None, [], [(col("o"), "ASC", "LAST")], (fr, ("UP",), ("F", v))))
    for v in PLAINEST:
        yield ("normalize", v, "NFC")
        yield ("listagg", v, ",", None, ((v, "ASC", "LAST"),))


def gen_repeated(tier):
    yield from gen.fn_towers(fnreg.FUNCS, fnreg.arities, (2, 3) if tier == "quick" else (2, 3, 4))
    for name in AGGS:
        n = fn(name, [A] * fnreg.arities(name)[-1], ((A, "ASC", "LAST"), (A, "ASC", "LAST")), A, "IGNORE", win(None, [A, A], [(A, "ASC", "LAST"), (A, "ASC", "LAST")], ("ROWS", ("P", A), ("F", A))))
        yield n
        yield fn(name, [n] * fnreg.arities(name)[-1], ((n, "ASC", "LAST"),), ("isnull", n), "RESPECT", win("w"))


def gen_special(tier):
    for sep in (" ", ",", "", "it's", ";\n"):
        for ov in (None, ("...", "WITH COUNT"), ("...", "WITHOUT COUNT"), ("..", "WITH COUNT"), ("", "WITHOUT COUNT"), ("a'b", "WITH COUNT")):
            for ob in OBS[1:]:
                for v in (A, ("bin", "+", A, I1), ("cat", (A, S1)), fn("TRY", [A])):
                    yield ("listagg", v, sep, ov, ob)
    for form in ("NFC", "NFD", "NFKC", "NFKD", None):
        for v in (A, ("cat", (A, S1)), ("bin", "*", A, Bc), fn("LOWER", [A])):
            yield ("normalize", v, form or "NFC")
    for name in ("CURRENT_DATE", "CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"):
        yield ("curr", name, None)
    for name in ("CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"):
        for p in range(1, 13):
            yield ("curr", name, p)


def gen_special_refused(tier):
    over = " OVER (PARTITION BY q)"
    for t in ("LISTAGG(a) WITHIN GROUP (ORDER BY b)", "NORMALIZE(a, NFC)", "CURRENT_DATE", "CURRENT_TIMESTAMP(3)", "CURRENT_USER"):
        for m in (" FILTER (WHERE f)", over, " IGNORE NULLS" + over, " FILTER (WHERE f)" + over):
            yield (t + m, None, False)
    for t in ("LISTAGG(DISTINCT a) WITHIN GROUP (ORDER BY b)", "LISTAGG(a)", "LISTAGG(a, ',')", "NORMALIZE(a, NFX)", "CURRENT_DATE(3)", "CURRENT_USER(1)", "CURRENT_TIME()", "NORMALIZE(a, b, c)", "NOW(1)", "LISTAGG(a, b) WITHIN GROUP (ORDER BY c)",
              '"LISTAGG"(a)', '"NORMALIZE"(a)', '"CURRENT_DATE"()', '"LOCALTIME"(3)', '"CURRENT_USER"()', "SUM(a) WITHIN GROUP (ORDER BY b)", "SUM(a) OVER", "SUM(a) OVER w x", "SUM(a, ) ", "SUM(ORDER BY a)", "SUM(DISTINCT a, b)",
              "NO_SUCH_FUNCTION(a)", "SUMM(a)", "COUNT(a, *)", "COUNT(* ORDER BY a)", "COUNT(DISTINCT *)", "COUNT(DISTINCT a) OVER ()", "SUM(a) FILTER (b)", "SUM(a) FILTER (WHERE b, c)", "SUM(a) RESPECT NULLS", "SUM(a) IGNORE NULLS"):
        yield (t, None, False)


FAMILIES = [
    Family("as Trino documents", lambda t: [(n, k) for n in ELSEWHERE for k in ELSEWHERE[n]], documented),
    Family("argument counts x spellings", gen_counts, counts),
    Family("combinations of modifiers", gen_modifiers, modifiers),
    Family("windows", gen_windows, tree_case),
    Family("arguments and modifiers of every kind", gen_args, tree_case),
    Family("the plainest values everywhere", gen_plain, tree_case),
    Family("repeated arguments and towers of calls", gen_repeated, tree_case),
    Family("functions with a syntax of their own", gen_special, tree_case),
    Family("refused forms", gen_special_refused, text_case),
    Family("built by attribute names", gen_named, named),
    Family("modifiers refused in Python", lambda t: [(n, fnreg.arities(n)[-1], m) for n in sorted(fnreg.FUNCS) for m in ("orderby", "filter_", "null_treatment", "window", "nonsense") if n in PLAIN or m == "nonsense"], refused_in_python),
]


def main():
    bind.load()
    return run("C20", FAMILIES)
