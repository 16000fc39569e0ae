"""C19: Python operators - every operator x every pair of operand kinds, and every Python expression text over three operators and
all placements of parentheses; oracle: Python's own parser for the grouping, reference typing for the literals."""
import ast
import copy
import itertools
from decimal import Decimal

from .. import bind, gen, lang, tyref
from ..core import Family, main as run
from ..gen import A, Bc, C, I1, S1, col, fn, query, sel
from ..snap import snap
from .common import *

BIN = {"+": "+", "-": "-", "*": "*", "/": "/", "%": "%"}
CMP = {"==": "=", "!=": "<>", "<": "<", "<=": "<=", ">": ">", ">=": ">="}
SWAP = {"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
OPS = list(BIN) + ["**"] + list(CMP) + ["&", "|"]
UN = ["+", "-", "~"]


def op2(o, a, b):
    if o in BIN:
        return ("bin", BIN[o], a, b)
    if o == "**":
        return fn("POWER", [a, b])
    if o in CMP:
        return ("cmp", CMP[o], a, b)
    return ("and" if o == "&" else "or", a, b)


def op1(o, a):
    return ({"+": "pos", "-": "neg", "~": "not"}[o], a)


def literal(v):
    """neutral literal of a plain Python value; None when there is none"""
    if v is True or v is False:
        return ("bool", v)
    if type(v) is int:
        return ("int", v) if -2 ** 63 <= v < 2 ** 63 else None
    if type(v) is float:
        return ("dbl", v) if v - v == 0 else None
    if type(v) is Decimal:
        if not v.is_finite():
            return None
        s, d, e = v.as_tuple()
        text = "{:f}".format(v)
        digits = text.lstrip("-").replace(".", "").lstrip("0") if "." not in text else text.lstrip("-").lstrip("0").replace(".", "")
        return ("dec", lang.canon_dec(text if "." in text else text + ".")) if len(digits) <= 38 else None
    if type(v) is str:
        return ("str", v)
    return None


# Python values by the text that gives them (cases have to be literals)
PY = ["0", "1", "-1", "2**31-1", "2**31", "-2**31", "-2**31-1", "2**63-1", "-2**63", "True", "False", "0.0", "-0.0", "1.5", "-2.5", "1e300", "5e-324", "''", "'a'", "\"it's\"", "'NULL'", "'1'", "Decimal('0')", "Decimal('1')",
      "Decimal('1.50')", "Decimal('-0.05')", "Decimal('1E+3')", "Decimal('0.000')", "Decimal('1' * 38)", "Decimal('-.' + '1' * 38)"]
BAD = ["2**63", "-2**63-1", "float('inf')", "float('nan')", "-float('inf')", "Decimal('NaN')", "Decimal('Infinity')", "Decimal('1' * 39)", "None", "[]", "[1]", "(1,)", "()", "{}", "{1: 2}", "{1}", "b'a'", "object()", "1j", "int", "len",
       "range(3)", "Ellipsis", "bytearray()", "frozenset()"]
SMALLPY = ["1", "-1", "1.5", "'a'", "True", "Decimal('1.50')"]


def pyval(text):
    return eval(text, {"Decimal": Decimal})


VALUES = [A, col("b", "t"), ("null",), I1, S1, ("bool", True), ("dec", "1.50"), ("bin", "+", A, Bc), ("neg", A), ("cmp", "=", A, Bc), ("and", A, Bc), ("not", A), fn("SUM", [A]), ("q", gen.q1(I1)), ("row", (A, Bc)), ("arr", (A,)),
          ("cast", A, gen.INT), ("case", None, ((A, Bc),), None), ("like", A, Bc, None), ("in", A, (Bc,)), ("lvar", "x"), ("iv", "1", "DAY", None), ("tc", "DATE", "2020-01-01"), ("curr", "CURRENT_DATE", None)]
SV = [A, Bc, C, gen.D]


def apply2(o, x, y):
    return eval("x %s y" % o, {"x": x, "y": y})


def apply1(o, x):
    return eval("%s x" % o, {"x": x})


def outcome(f, *a):
    step()
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("err", e)


def examine(exp, obj, what):
    got = neutral("expr", obj)
    same(exp, got, "tree of " + what)
    same(tyref.ty(exp), guarded("data_type", lambda: bind.r_type(obj.data_type)), "type of " + what)
    text = lib_print(obj, n=exp)
    if "lvar" not in repr(exp):
        try:
            back = ref("expr", text)
        except Bad as e:
            raise Violation("%s prints %r, which isn't SQL: %s" % (what, text, e))
        same(want(exp), fold_frames(norm(back)), "%s prints %r" % (what, text))


def values(case):
    """value op value, unary operators"""
    o, m, n = case
    a = lib_build("expr", m)
    before = snap(a)
    if n is None:
        r = outcome(apply1, o, a)
        exp = op1(o, m)
        what = "%s %r" % (o, m)
    else:
        b = lib_build("expr", n)
        bb = snap(b)
        r = outcome(apply2, o, a, b)
        exp = op2(o, m, n)
        what = "%r %s %r" % (m, o, n)
        if snap(b) != bb:
            raise Violation("%s changed its right operand" % what)
    if r[0] == "err":
        raise Violation("%s raised %r" % (what, r[1]))
    examine(exp, r[1], what)
    if snap(a) != before:
        raise Violation("%s changed its left operand" % what)


def plain(case):
    """value op plain, plain op value, in-place"""
    how, o, m, t = case
    v = pyval(t)
    a = lib_build("expr", m)
    before = snap(a)
    lit = literal(v)
    held = repr(v)
    if how == "right":
        r = outcome(apply2, o, a, v)
        exp = None if lit is None else op2(o, m, lit)
    elif how == "inplace":
        def f():
            ns = {"x": a, "v": v}
            exec("x %s= v" % o, ns)
            return ns["x"]
        r = outcome(f)
        exp = None if lit is None else op2(o, m, lit)
    else:
        r = outcome(apply2, o, v, a)
        # Python gives the operation to the right operand only for comparisons
        exp = None if lit is None else ("cmp", SWAP[CMP[o]], m, lit) if o in CMP else "refuse" if r[0] == "err" else op2(o, lit, m)
    what = "%r %s %s (%s)" % (m, o, t, how)
    if snap(a) != before or repr(v) != held:
        raise Violation("%s changed an operand" % what)
    if exp is None or exp == "refuse":
        if r[0] == "ok":
            raise Violation("%s is accepted: %r" % (what, neutral("expr", r[1])))
        if not isinstance(r[1], (TypeError, ValueError, NotImplementedError, AssertionError, ArithmeticError)):
            raise Violation("%s raised %r" % (what, r[1]))
        validated()
        return
    if r[0] == "err":
        raise Violation("%s raised %r" % (what, r[1]))
    examine(exp, r[1], what)


def to_neutral(e):
    if isinstance(e, ast.BinOp):
        o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}[type(e.op)]
        return op2(o, to_neutral(e.left), to_neutral(e.right))
    if isinstance(e, ast.Compare):
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(e.ops[0])]
        if isinstance(e.left, ast.Constant):
            return ("cmp", SWAP[CMP[o]], to_neutral(e.comparators[0]), to_neutral(e.left))
        return op2(o, to_neutral(e.left), to_neutral(e.comparators[0]))
    if isinstance(e, ast.UnaryOp):
        return op1({ast.UAdd: "+", ast.USub: "-", ast.Invert: "~"}[type(e.op)], to_neutral(e.operand))
    if isinstance(e, ast.Name):
        return dict(zip("abcd", SV))[e.id]
    return literal(ast.literal_eval(e))


def chained(e):
    return any(isinstance(n, ast.Compare) and len(n.ops) > 1 for n in ast.walk(e))


def plain_left(e):
    """a plain value left of an arithmetic operator: Python gives that operation to the plain value"""
    return any(isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) for n in ast.walk(e))


def source(text):
    e = ast.parse(text, mode="eval").body
    exp = to_neutral(e)
    ns = {k: lib_build("expr", n) for k, n in zip("abcd", SV)}
    before = {k: snap(v) for k, v in ns.items()}
    r = outcome(eval, text, {}, ns)
    if r[0] == "err":
        if isinstance(r[1], TypeError) and plain_left(e):
            validated()
            return
        raise Violation("%s raised %r" % (text, r[1]))
    examine(exp, r[1], text)
    if before != {k: snap(v) for k, v in ns.items()}:
        raise Violation("%s changed its operands" % text)


def sources(tier):
    ops = OPS if tier == "thorough" else ["+", "-", "/", "**", "==", "<", "&", "|"]
    un = ["", "-", "~"]
    out = []
    for o1, o2 in itertools.product(OPS, repeat=2):
        for u1, u2, u3 in itertools.product(un, repeat=3):
            for t in ("{1}a {4} {2}b {5} {3}c", "({1}a {4} {2}b) {5} {3}c", "{1}a {4} ({2}b {5} {3}c)", "{1}(a {4} {2}b {5} {3}c)", "{1}a {4} {2}(b {5} {3}c)"):
                out.append(t.format(None, u1, u2, u3, o1, o2))
            out.append("{}a {} {}b {} 2".format(u1, o1, u2, o2))
            out.append("{}a {} 1.5 {} {}b".format(u1, o1, o2, u3))
    for o1, o2, o3 in itertools.product(ops, repeat=3):
        for t in ("a {} b {} c {} d", "(a {} b) {} (c {} d)", "a {} (b {} c) {} d", "a {} (b {} (c {} d))", "((a {} b) {} c) {} d", "a {} b {} -c {} ~d"):
            out.append(t.format(o1, o2, o3))
    for text in dict.fromkeys(out):
        if not chained(ast.parse(text, mode="eval").body):
            yield text


def two(tier):
    for o in OPS:
        for m, n in itertools.product(VALUES, repeat=2):
            yield (o, m, n)
    for o in UN:
        for m in VALUES + list(gen.level1()):
            yield (o, m, None)
    for m in gen.level1():
        for o in OPS if tier == "thorough" else ("-", "==", "|", "**", "%"):
            yield (o, m, A)
            yield (o, A, m)
    if tier == "thorough":
        l2 = list(gen.level2_pairs(gen.CHAIN))
        for o in OPS:
            for m in l2:
                yield (o, m, A)
                yield (o, A, m)


def plains(tier):
    for o in OPS:
        for how in ("right", "left"):
            for m in VALUES if tier == "thorough" else VALUES[:4] + VALUES[7:12:2]:
                for t in PY + BAD:
                    if how == "left" and o == "%" and t.startswith(("'", '"', "b'", "bytearray")):
                        continue    # formats the text
                    yield (how, o, m, t)
        if o in BIN or o in ("**", "&", "|"):
            for t in PY + BAD:
                yield ("inplace", o, A, t)


FAMILIES = [
    Family("values", two, values),
    Family("plain values", plains, plain),
    Family("python expressions", sources, source),
]


def main():
    bind.load()
    return run("C19", FAMILIES)
