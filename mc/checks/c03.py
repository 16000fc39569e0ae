"""C03: query text -> tree, against the reference grammar."""
from .. import bind, gen
from ..core import Family, main as run
from .c01 import STY, read_as
from .common import *


def check(case):
    styles, n = case
    read_as("query", n, styles)


def cases(gens):
    k = 0
    for n in gens:
        k += 1
        yield (("min", STY[1 + k % (len(STY) - 1)]), n)


def wrap(gens):
    for r in gens:
        yield gen.query(gen.sel([("star", None)], r))


def fam(name, f):
    return Family(name, lambda t: cases(f(t)), check)


TH = "thorough"
QFAMS = [
    ("select clause subsets", lambda t: (gen.query(b) for b in gen.select_clauses())),
    ("bodies x WITH x ORDER/OFFSET/LIMIT", lambda t: gen.bodies_tails()),
    ("set-operation trees", lambda t: gen.setops(3 if t == TH else 2)),
    ("set-operation operands", lambda t: gen.setop_operands()),
    ("group by forms", lambda t: (gen.query(gen.sel([gen.item(gen.A)], gen.T1, gb=g)) for g in gen.groupbys())),
    ("windows and frames", lambda t: gen.all_window_queries()),
    ("relation trees", lambda t: wrap(gen.relations(3 if t == TH else 2))),
    ("expressions in clauses", lambda t: (q for e in (gen.level1_leaves() if t == TH else gen.level1()) for q in gen.expr_positions(e))),
    ("leaves in clauses", lambda t: gen.leaf_positions()),
    ("lists of entries", lambda t: gen.query_lists()),
    ("row counts", lambda t: gen.row_counts()),
    ("the same part in several places", lambda t: gen.twins()),
    ("towers of relations and queries", lambda t: gen.query_towers((3, 8) if t != TH else (2, 3, 4, 8, 12))),
    ("queries in positions", lambda t: (p for b in (list(gen.bodies()) if t != TH else list(gen.bodies()) + list(gen.select_clauses())[::5])
                                        for tl in gen.TAILS[::4 if t != TH else 2] for w in gen.WITHS[:2 if t != TH else 3]
                                        for p in gen.query_positions(gen.query(b, *tl, w)))),
]
FAMILIES = [fam(n, f) for n, f in QFAMS]


def main():
    bind.load()
    return run("C03", FAMILIES)
