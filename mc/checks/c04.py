"""C04: query tree -> text, against the reference grammar, and back through the library's reader."""
from .. import bind, gen
from ..core import Family, main as run
from .c02 import print_ok
from .c03 import QFAMS
from .common import *


def check(n):
    print_ok("query", n)


def rel_check(r):
    """a relation printed on its own is what stands after FROM"""
    obj = guarded("building %r" % (r,), bind.b_rel, r)
    sql = lib_print(obj, n=r)
    if r[0] == "subq":
        same(r[1], guarded_ref("query", sql), "relation printed alone %r" % sql)
        return
    m = guarded_ref("query", "SELECT * FROM " + sql)
    same(norm(gen.query(gen.sel([("star", None)], r))), norm(m), "relation printed alone as %r denotes another relation" % sql)


def guarded_ref(kind, sql):
    try:
        return ref(kind, sql)
    except Bad as e:
        raise Violation("prints %r which is not valid SQL (%s)" % (sql, e))


def check_shared(n):
    plain, obj = lib_build("query", n), lib_shared("query", n)
    for m in ("DEFAULT", "PRETTY"):
        same(lib_print(plain, m, n=n), lib_print(obj, m, n=n), "the SQL of %r built from shared parts" % (n,))
    step(2)
    if guarded("equals", plain.equals, obj) is not True or guarded("equals", obj.equals, plain) is not True:
        raise Violation("%r built from shared parts isn't equal to one built from separate parts" % (n,))
    print_ok("query", n, obj)


def shareable(tier):
    yield from gen.twins()
    yield from gen.query_lists()
    yield from gen.query_towers()
    if tier == "thorough":
        yield from gen.queries("quick")


FAMILIES = [Family(n, f, check) for n, f in QFAMS] + [Family("parts shared between places", shareable, check_shared), Family("relations printed alone", lambda t: gen.relations(2), rel_check)]


def main():
    bind.load()
    return run("C04", FAMILIES)
