"""C02: expression tree -> text, against the reference grammar, and back through the library's reader."""
import itertools

from .. import bind, gen
from ..core import Family, main as run
from .common import *


def print_ok(kind, n, obj=None):
    obj = lib_build(kind, n) if obj is None else obj
    sql = lib_print(obj, n=n)
    try:
        m = ref(kind, sql)
    except Bad as e:
        raise Violation("prints %r which is not valid SQL (%s) for tree %r" % (sql, e, n))
    same(norm(n), norm(m), "prints %r which denotes another tree" % sql)
    back, got = lib_read(kind, sql)
    same(want(n), got, "%r (printed) is read back as a different tree" % sql)
    if norm(n) == n:
        step()
        if guarded("equals", back.equals, obj) is not True:
            raise Violation("tree %r printed as %r reads back unequal" % (n, sql))
    return sql


def check(n):
    if n[0] == "q":
        print_ok("query", n[1])     # a subquery printed on its own is a query
    else:
        print_ok("expr", n)


def check_shared(n):
    """equal operands being the same object"""
    if n[0] == "q":
        return      # printed on its own, it is a query
    plain, obj = lib_build("expr", n), lib_shared("expr", n)
    for m in ("DEFAULT", "PRETTY"):
        same(lib_print(plain, m, n=n), lib_print(obj, m, n=n), "the SQL of %r built from shared parts" % (n,))
    step(2)
    if guarded("equals", plain.equals, obj) is not True or guarded("equals", obj.equals, plain) is not True:
        raise Violation("%r built from shared parts isn't equal to one built from separate parts" % (n,))
    print_ok("expr", n, obj)


FAMILIES = [
    Family("leaves", lambda t: gen.LEAVES, check),
    Family("plain values in two slots", lambda t: gen.leaf_pairs(), check),
    Family("constructor x slot x leaf", lambda t: gen.level1_leaves(), check),
    Family("types in casts", lambda t: gen.types_cast(), check),
    Family("two constructors", lambda t: gen.level2(), check),
    Family("lists of entries", lambda t: gen.expr_lists(), check),
    Family("equal operands and towers", lambda t: gen.repetition(t), check),
    Family("shared operands", lambda t: itertools.chain(gen.equal_operands(), gen.towers((3,)), gen.level1()), check_shared),
    Family("precedence chains", lambda t: gen.chains(4 if t == "thorough" else 3), check),
    Family("two operands nested", lambda t: gen.level2_pairs(None if t == "thorough" else gen.CHAIN + ["btw", "likeesc"]), check),
    Family("three constructors", lambda t: gen.level3() if t == "thorough" else (), check),
]


def main():
    bind.load()
    return run("C02", FAMILIES)
