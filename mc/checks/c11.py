"""C11: common supertypes - every pair and every triple of a type universe on the real common_supertype: totality, symmetry,
idempotence, upper bound, existence (reference lattice), grouping, arguments untouched."""
import importlib
import itertools

from .. import bind, tyref
from ..core import Family, main as run
from . import c05
from .common import *

CONV = None
UNK = tyref.UNK
NUMRANK = {"REAL": 1, "DOUBLE": 2}


def holds(a, b):
    """can type b hold every value of type a (within the maximum lengths and precisions)?"""
    if b == UNK or a == b:
        return True
    x, y = a[1], b[1]
    if x in tyref.INTS and y in tyref.INTS:
        return tyref.INTS[x] <= tyref.INTS[y]
    if y in NUMRANK:
        return x in tyref.INTS or x == "DECIMAL" or x in NUMRANK and NUMRANK[x] <= NUMRANK[y]
    if y == "DECIMAL" and (x == y or x in tyref.INTS):
        (p1, s1), (p2, s2) = tyref.as_dec(a), (b[2], b[3])
        return s1 <= s2 and (p1 - s1 <= p2 - s2 or p2 == 38)
    if x == y == "VARCHAR":
        return b[2] is None or a[2] is not None and a[2] <= b[2]
    if y == "CHAR" and x in ("CHAR", "VARCHAR"):
        return min(65536, 65536 if a[2] is None else a[2]) <= b[2]
    if y == "TIMESTAMP" and x == "DATE":
        return True
    if x == y and x in ("TIME", "TIMESTAMP"):
        return (b[2] is None or a[2] is not None and a[2] <= b[2]) and (b[3] or not a[3])
    if (x, y) == ("P4HYPERLOGLOG", "HYPERLOGLOG"):
        return True
    if x == y == "ARRAY":
        return holds(a[2], b[2])
    if x == y == "MAP":
        return holds(a[2], b[2]) and holds(a[3], b[3])
    if x == y == "ROW":
        return len(a[2]) == len(b[2]) and all(holds(p, q) for p, q in zip(a[2], b[2]))
    return False


MEMO = {}


def T(t):
    """library object of a type; the object is shared by many cases, so that a modification shows"""
    if t not in MEMO:
        MEMO[t] = bind.b_type(t)
    return MEMO[t]


def com(a, b):
    step()
    r = guarded("common_supertype(%s, %s)" % (a, b), CONV.common_supertype, T(a), T(b))
    return guarded("inspecting the common type of %s and %s" % (a, b), bind.r_type, r)


def untouched(*ts):
    for t in ts:
        if bind.r_type(T(t)) != t:
            raise Violation("%s became %s" % (t, bind.r_type(T(t))))


def pair(c):
    a, b = c
    exp = tyref.common(a, b)
    if not (holds(a, exp) and holds(b, exp)) or exp != tyref.common(b, a):
        raise HarnessError("reference is no upper bound for %s and %s: %s" % (a, b, exp))
    r = com(a, b)
    if a == b and r != a:
        raise Violation("the common type of %s with itself is %s" % (a, r))
    if not (holds(a, r) and holds(b, r)):
        raise Violation("%s can't hold every value of %s and %s" % (r, a, b))
    same(exp, r, "common type of %s and %s" % (a, b))
    same(r, com(b, a), "common type of %s and %s depends on their order" % (a, b))
    untouched(a, b)


def triple(c):
    a, b, d = c
    exp = tyref.common(tyref.common(a, b), d)
    if exp != tyref.common(a, tyref.common(b, d)):
        raise HarnessError("reference isn't associative for %s" % (c,))
    for x, y, z in ((a, b, d), (a, d, b), (b, d, a)):
        l = com(com(x, y), z)
        r = com(z, com(y, x))
        same(exp, l, "common type of %s, %s and %s in this grouping" % (x, y, z))
        same(l, r, "common type of %s, %s and %s depends on the order" % (x, y, z))
    m = com(a, com(b, d))
    same(exp, m, "common type of %s, %s and %s depends on the grouping" % c)
    untouched(a, b, d)


def unordered(xs, n=2):
    return itertools.combinations_with_replacement(xs, n)


def universe():
    yield from c05.leaves()
    yield ("t", "VARCHAR", 65534)


REPR = [("t", n) for n in ("BOOLEAN", "TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE", "DATE", "VARBINARY", "JSON", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN", "UUID",
                                  "IPADDRESS")] + \
       [("t", "DECIMAL", p, s) for p, s in ((1, 0), (1, 1), (3, 0), (4, 2), (5, 5), (10, 0), (18, 9), (19, 0), (20, 19), (38, 0), (38, 19), (38, 38))] + \
       [("t", "VARCHAR", n) for n in (None, 0, 3, 65536, 70000, 2147483646)] + [("t", "CHAR", n) for n in (0, 3, 9, 65536)] + \
       [("t", "TIME", p, z) for p in (None, 0, 3) for z in (False, True)] + [("t", "TIMESTAMP", p, z) for p in (None, 0, 6, 12) for z in (False, True)] + \
       [tyref.D2S, tyref.Y2M] + [("t", "QDIGEST", ("t", n)) for n in ("BIGINT", "REAL")]
BRIEF = [("t", n) for n in ("TINYINT", "BIGINT", "REAL", "DATE", "BOOLEAN", "UNKNOWN")] + [("t", "DECIMAL", 4, 2), ("t", "DECIMAL", 38, 0), ("t", "VARCHAR", 3), ("t", "VARCHAR", None),
                                                                                         ("t", "CHAR", 5), ("t", "TIMESTAMP", 3, True), ("t", "TIMESTAMP", None, False)]


def nest(xs, few):
    for x in xs:
        yield ("t", "ARRAY", x)
        yield ("t", "ROW", (x,))
        for y in few:
            yield ("t", "MAP", x, y)
            yield ("t", "MAP", y, x)
            yield ("t", "ROW", (x, y))
            yield ("t", "ROW", (y, x))


def uniq(xs):
    return list(dict.fromkeys(xs))


def nested_pairs(tier):
    d1 = uniq(nest(REPR, BRIEF[:3]))
    yield from unordered(d1)
    d2 = uniq(nest(uniq(nest(BRIEF[1:9], BRIEF[1:3])), BRIEF[2:3]))
    yield from unordered(d2 if tier == "thorough" else d2[::3])
    for a in d1 if tier == "thorough" else d1[::3]:
        for b in REPR + d2[::9]:
            yield (a, b)
    rows = [("t", "ROW", c) for n in (1, 2, 3) for c in itertools.product(BRIEF[:6] if n == 3 else BRIEF, repeat=n)]
    if tier != "thorough":
        rows = rows[:len(BRIEF)] + rows[len(BRIEF)::5]
    yield from unordered(rows)


def nested_triples(tier):
    base = BRIEF if tier == "thorough" else BRIEF[::2]
    xs = uniq(nest(base, BRIEF[6:7])) + [("t", "ARRAY", ("t", "ROW", (x, BRIEF[1]))) for x in base] + base[:3] + [("t", "ROW", (BRIEF[0],) * 3)]
    yield from unordered(xs, 3)


def decimal_triples(tier):
    ps = (1, 2, 3, 5, 18, 19, 20, 30, 37, 38) if tier == "thorough" else (1, 3, 19, 20, 38)
    xs = [("t", "DECIMAL", p, s) for p in ps for s in sorted({0, 1, 2, p // 2, p - 1, p}) if s <= p] + [("t", n) for n in ("TINYINT", "BIGINT", "REAL")]
    yield from unordered(xs, 3)


FAMILIES = [
    Family("all pairs of leaf types", lambda t: unordered(uniq(universe())), pair),
    Family("pairs of nested types", nested_pairs, pair),
    Family("triples of leaf types", lambda t: unordered(REPR, 3), triple),
    Family("triples of decimals", decimal_triples, triple),
    Family("triples of nested types", nested_triples, triple),
]


def main():
    global CONV
    bind.load()
    CONV = importlib.import_module("treeno.datatypes.conversions")
    return run("C11", FAMILIES)
