"""C13: resolving changes nothing but data types and can be repeated: every query x every sequence of resolve and print
operations, the tree and the caller's schema watched through snapshots."""
import importlib
import itertools

from .. import bind, gen, resref
from ..core import Family, main as run
from ..gen import I1, INT, S1, col, item, query, sel
from ..snap import snap
from . import c12
from .c03 import QFAMS
from .common import *

V = ("t", "VARCHAR", None)
CATS = {
    "empty": [],
    "one": [(("t",), [("a", INT), ("B c", V), ("c", ("t", "DOUBLE")), ("x", ("t", "DECIMAL", 9, 2)), ("y", V), ("k", INT)])],
    "two": [(("t",), [("a", ("t", "ARRAY", INT)), ("x", ("t", "BIGINT")), ("y", ("t", "VARCHAR", 3)), ("k", INT)]),
            (("u",), [("a", ("t", "ARRAY", ("t", "BIGINT"))), ("b", V), ("x", ("t", "DOUBLE")), ("z", ("t", "DATE"))]),
            (("s", "t"), [("a", ("t", "MAP", V, INT))])],
}


def schema_of(s):
    return (tuple((f.name, bind.r_type(f.data_type)) for f in s.fields), tuple(sorted(map(str, s.relation_ids))))


def run_ops(q, ops, text, cats=CATS):
    sql = render("query", q, MIN)
    obj = lib_shared("query", q) if text == "shared" else lib_read("query", sql)[0] if text else lib_build("query", q)
    plain = snap(obj, False)
    out = {m: lib_print(obj, m, n=q) for m in ("DEFAULT", "PRETTY")}
    given = {}
    for i, op in enumerate(ops):
        what = "after %s of %r" % (", ".join(ops[:i + 1]), sql)
        if op in out:
            same(out[op], lib_print(obj, op, n=q), "the printed SQL " + what)
            continue
        cat = c12.lib_catalog(cats[op])
        before = snap(cat)
        step()
        amb = False
        try:
            res = obj.resolve(cat)
        except Exception as e:
            try:
                resref.query(q, resref.Env(c12.cat(cats[op])))
            except resref.Ambiguous:
                amb = True
            if not amb:
                raise Violation("resolving failed %s: %s: %s" % (what, type(e).__name__, str(e)[:300]))
        same(before, snap(cat), "the caller's schema " + what)
        same(plain, snap(obj, False), "the tree (without data types) " + what)
        if amb:
            break       # such a query isn't meant to be resolved; it still has to print the same
        now = (schema_of(res), snap(obj))
        if op in given and len(set(o for o in ops[:i + 1] if o not in out)) == 1:
            same(given[op][0], now[0], "schema " + what)
            same(given[op][1], now[1], "the tree " + what)
        given[op] = now
    for m in out:
        same(out[m], lib_print(obj, m, n=q), "the printed SQL after %s of %r" % (", ".join(ops), sql))
    return given


def check(c):
    text, ops, q = c
    run_ops(q, ops, text)


SEQ = [("empty", "PRETTY", "empty", "DEFAULT"), ("one", "one", "PRETTY"), ("two", "DEFAULT", "two", "two"), ("one", "two", "empty")]


def all_seq():
    for n in range(1, 5):
        yield from itertools.product(("empty", "one", "two", "DEFAULT", "PRETTY"), repeat=n)


def clauses(tier):
    for i, q in enumerate(gen.queries("quick" if tier == "quick" else "thorough")):
        if tier == "thorough":
            yield (True, SEQ[i % 4], q)
            if i % 2:
                yield (True, SEQ[(i + 1) % 4], q)
        else:
            yield (i % 2 == 0, SEQ[i % len(SEQ)], q)


def scopes(tier):
    for f in c12.FAMILIES:
        if f.name in ("catalogs",):
            continue
        k = {"joins and laterals x names": 5, "correlated subqueries": 3, "three relations x names": 3}.get(f.name, 2)
        for i, q in enumerate(f.gen("quick")):
            if tier == "thorough" or i % k == 0:
                yield (i // k % 2 == 0, ("two", "two", "PRETTY"), q)


def shareable(tier):
    for i, q in enumerate(itertools.chain(gen.twins(), gen.query_lists())):
        for s in SEQ if tier == "thorough" else SEQ[i % 4:][:1] + SEQ[2:3]:
            yield ("shared", s, q)
    for f in c12.FAMILIES:
        if f.name == "catalogs":
            continue
        for i, q in enumerate(f.gen("quick")):
            if i % (3 if tier == "thorough" or "WITH" in f.name else 25) == 0:
                yield ("shared", ("two", "two", "PRETTY"), q)


def some_queries():
    yield query(sel([item(col("x")), ("star", "t"), item(col("a", "u"), "z")], ("join", "INNER", False, gen.T1, gen.T2, ("using", ("x",))), col("y"), "DISTINCT",
                    ("ALL", (("set", (col("x"),)),)), col("k"), (("w", gen.win(None, [col("x")])),)), ((col("x"), "ASC", "LAST"),), 1, 2, [("c", ("p",), gen.q1(I1))])
    yield query(sel([item(("q", query(sel([item(col("x")), item(col("z", "u"))], gen.tbl("c")))))], ("alias", gen.T1, "u", None)), with_=[("c", None, query(sel([("star", None)], gen.T1)))])
    yield query(("setop", "UNION", "ALL", query(("table", ("t",))), query(("values", (("row", (I1, col("x"), S1)),)))))
    yield query(sel([item(col("e")), ("astar", "n", ("r",))], ("join", "CROSS", False, gen.T2, ("alias", ("unnest", (col("a"),), True), "n", ("e", "o")), None)))
    yield query(sel([("star", None)], ("join", "LEFT", True, ("sample", gen.T1, "SYSTEM", ("int", 1)), ("lateral", query(sel([("star", None)], gen.T2))), None)))
    yield query(sel([item(gen.lam(["x"], ("bin", "+", ("lvar", "x"), col("k")))), item(("q", query(("table", ("t",)))))], gen.T1))


def sequences(tier):
    for q in some_queries():
        for s in all_seq():
            yield (True, s, q)
            if tier == "thorough":
                yield (False, s, q)


FAMILIES = [
    Family("every clause", clauses, check),
    Family("scopes", scopes, check),
    Family("one object in several places", shareable, check),
    Family("operation sequences", sequences, check),
]


def main():
    bind.load()
    c12.REL = importlib.import_module("treeno.relation")
    return run("C13", FAMILIES)
