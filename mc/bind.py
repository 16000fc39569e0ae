"""Binding between neutral trees and the library's public classes: build() constructs through public constructors,
read() inspects public attributes.  Nothing here looks at how the library is written."""
import importlib
from decimal import Decimal

from .fnreg import FUNCS
from .lang import NOFRAME, canon_dec

E = R = W = O = G = T = B = AGG = STR = CV = FB = COMMON = None
LOADED = False
FROM_BODY = False


def load():
    """Import the library once (the working tree of /repo through the installed package path)."""
    global E, R, W, O, G, T, B, AGG, STR, CV, FB, COMMON, LOADED
    if LOADED:
        return
    CV = importlib.import_module("treeno.builder.convert")
    E = importlib.import_module("treeno.expression")
    R = importlib.import_module("treeno.relation")
    W = importlib.import_module("treeno.window")
    O = importlib.import_module("treeno.orderby")
    G = importlib.import_module("treeno.groupby")
    T = importlib.import_module("treeno.datatypes.types")
    B = importlib.import_module("treeno.base")
    AGG = importlib.import_module("treeno.functions.aggregate")
    STR = importlib.import_module("treeno.functions.string")
    FB = importlib.import_module("treeno.functions.base")
    COMMON = importlib.import_module("treeno.functions.common")
    for m in ("math", "datetime", "conditional", "session"):
        importlib.import_module("treeno.functions." + m)
    LOADED = True


def opts(mode="DEFAULT", spaces=4):
    return B.PrintOptions(mode=B.PrintMode[mode], spaces=spaces)


READERS = {"expr": "expression_from_sql", "query": "query_from_sql", "type": "type_from_sql"}


def lib_parse(kind, text):
    return getattr(CV, READERS[kind])(text)


# ----------------------------------------------------------------------------------------------------------- build
def dec_value(text):
    """canonical decimal text -> Decimal with the same scale (or int-like Decimal for scale 0)"""
    neg = text.startswith("-")
    w, _, f = text.lstrip("-").partition(".")
    return Decimal(("-" if neg else "") + (w or "0") + ("." + f if f else ""))


def lit(v, dtype=None):
    return E.wrap_literal(v)


def b_type(t):
    name = t[1]
    if name == "DECIMAL":
        return T.DataType("DECIMAL", {"precision": t[2], "scale": t[3]})
    if name in ("VARCHAR", "CHAR"):
        return T.DataType(name, {"max_chars": t[2]} if t[2] is not None else {})
    if name in ("TIME", "TIMESTAMP"):
        p = {"timezone": t[3]}
        if t[2] is not None:
            p["precision"] = t[2]
        return T.DataType(name, p)
    if name in ("ARRAY", "QDIGEST"):
        return T.DataType(name, {"dtype": b_type(t[2])})
    if name == "MAP":
        return T.DataType(name, {"from_dtype": b_type(t[2]), "to_dtype": b_type(t[3])})
    if name == "ROW":
        return T.DataType(name, {"dtypes": [b_type(x) for x in t[2]]})
    if name == "INTERVAL":
        return T.DataType(name, {"from_interval": t[2], "to_interval": t[3]})
    return T.DataType(name)


BIN = {"+": "Add", "-": "Minus", "*": "Multiply", "/": "Divide", "%": "Modulus"}
CMP = {"=": "Equal", "<>": "NotEqual", "<": "LessThan", "<=": "LessThanOrEqual", ">": "GreaterThan", ">=": "GreaterThanOrEqual"}
CURR = {"CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"}


def b_tab(t):
    return t if t is None or isinstance(t, str) else build(t)


def b_order(ob):
    return [O.OrderTerm(build(x), O.OrderType[o], O.NullOrder[n]) for x, o, n in ob]


def b_bound(b):
    if b[0] == "UP":
        return W.UnboundedFrameBound(bound_type=W.BoundType.PRECEDING)
    if b[0] == "UF":
        return W.UnboundedFrameBound(bound_type=W.BoundType.FOLLOWING)
    if b[0] == "CR":
        return W.CurrentFrameBound()
    return W.BoundedFrameBound(bound_type=W.BoundType.PRECEDING if b[0] == "P" else W.BoundType.FOLLOWING, offset=build(b[1]))


def b_window(w):
    if w is None:
        return None
    _, parent, parts, ob, fr = w
    kw = {}
    if parent is not None:
        kw["parent_window"] = parent
    if parts:
        kw["partitions"] = [build(p) for p in parts]
    if ob:
        kw["orderby"] = b_order(ob)
    if fr != NOFRAME:
        kw.update(frame_type=W.FrameType[fr[0]], start_bound=b_bound(fr[1]), end_bound=b_bound(fr[2]))
    return W.Window(**kw)


def b_group(g):
    if g[0] == "set":
        return G.GroupingSet([build(x) for x in g[1]])
    if g[0] == "rollup":
        return G.Rollup([build(x) for x in g[1]])
    if g[0] == "cube":
        return G.Cube([build(x) for x in g[1]])
    return G.GroupingSetList([b_group(x) for x in g[1]])


def b_item(it):
    if it[0] == "item":
        return build(it[1]) if it[2] is None else E.AliasedValue(build(it[1]), it[2])
    if it[0] == "star":
        return E.Star(b_tab(it[1]))
    return E.AliasedStar(E.Star(b_tab(it[1])), list(it[2]))


def b_rel(r):
    k = r[0]
    if k == "tbl":
        p = list(reversed(r[1]))
        return R.Table(**dict(zip(("name", "schema", "catalog"), p)))
    if k == "subq":
        return build(r[1])
    if k == "unnest":
        return R.Unnest(arrays=[build(x) for x in r[1]], with_ordinality=r[2])
    if k == "lateral":
        return R.Lateral(subquery=build(r[1]))
    if k == "alias":
        return R.AliasedRelation(b_rel(r[1]), r[2], list(r[3]) if r[3] is not None else None)
    if k == "sample":
        return R.TableSample(b_rel(r[1]), R.SampleType[r[2]], build(r[3]))
    if k == "join":
        _, jt, nat, l, rr, c = r
        crit = None
        if c is not None:
            crit = R.JoinOnCriteria(build(c[1])) if c[0] == "on" else R.JoinUsingCriteria(list(c[1]))
        jt = R.JoinType["OUTER" if jt == "FULL" else jt]
        return R.Join(b_rel(l), b_rel(rr), config=R.JoinConfig(join_type=jt, natural=nat, criteria=crit))
    raise KeyError(k)


def b_query(q):
    _, with_, body, ob, off, lim = q
    kw = {}
    if with_:
        kw["with_"] = [R.AliasedRelation(b_query(x), n, list(c) if c is not None else None) for n, c, x in with_]
    if ob:
        kw["orderby"] = b_order(ob)
    if off is not None:
        kw["offset"] = off
    if lim is not None:
        kw["limit"] = lim
    k = body[0]
    if k == "select":
        _, quant, items, fr, wh, gb, hv, wd = body
        if quant != "ALL":
            kw["select_quantifier"] = B.SetQuantifier[quant]
        if fr is not None:
            kw["from_"] = b_rel(fr)
        if wh is not None:
            kw["where"] = build(wh)
        if gb is not None:
            kw["groupby"] = G.GroupBy([b_group(g) for g in gb[1]], **({"groupby_quantifier": B.SetQuantifier[gb[0]]} if gb[0] != "ALL" else {}))
        if hv is not None:
            kw["having"] = build(hv)
        if wd:
            kw["window"] = {n: b_window(w) for n, w in wd}
        return R.SelectQuery(select=[b_item(i) for i in items], **kw)
    if k == "table":
        return R.TableQuery(table=b_rel(("tbl", body[1])), **kw)
    if k == "values":
        return R.ValuesQuery(exprs=[build(x) for x in body[1]], **kw)
    if k == "setop":
        cls = {"UNION": R.UnionQuery, "EXCEPT": R.ExceptQuery, "INTERSECT": R.IntersectQuery}[body[1]]
        return cls(b_query(body[3]), b_query(body[4]), set_quantifier=B.SetQuantifier[body[2]], **kw)
    raise KeyError(k)


def build(n):
    k = n[0]
    if k == "int":
        return E.wrap_literal(n[1])
    if k == "dec":
        return E.wrap_literal(dec_value(n[1]))
    if k in ("dbl", "str", "bool"):
        return E.wrap_literal(n[1])
    if k == "null":
        return E.NULL
    if k == "tc":
        return E.TypeConstructor(value=n[2], type_name=n[1])
    if k == "iv":
        return E.Interval(value=n[1], from_interval=n[2], **({"to_interval": n[3]} if n[3] else {}))
    if k == "col":
        return E.Field(n[1], b_tab(n[2])) if n[2] is not None else E.Field(n[1])
    if k == "lvar":
        return E.Lambda.Variable(n[1])
    if k == "star":
        return E.Star(b_tab(n[1]))
    if k == "bin":
        return getattr(E, BIN[n[1]])(build(n[2]), build(n[3]))
    if k == "cmp":
        return getattr(E, CMP[n[1]])(build(n[2]), build(n[3]))
    if k == "cat":
        return COMMON.Concatenate(values=[build(x) for x in n[1]])
    if k in ("neg", "pos", "not", "isnull"):
        return getattr(E, {"neg": "Negative", "pos": "Positive", "not": "Not", "isnull": "IsNull"}[k])(build(n[1]))
    if k in ("and", "or"):
        return (E.And if k == "and" else E.Or)(build(n[1]), build(n[2]))
    if k == "btw":
        return E.Between(build(n[1]), lower=build(n[2]), upper=build(n[3]))
    if k == "in":
        return E.InList(value=build(n[1]), exprs=[build(x) for x in n[2]])
    if k == "inq":
        return E.InQuery(value=build(n[1]), query=build(n[2]))
    if k == "like":
        return E.Like(value=build(n[1]), pattern=build(n[2]), escape=build(n[3]) if n[3] is not None else None)
    if k == "dist":
        return E.DistinctFrom(build(n[1]), build(n[2]))
    if k == "case":
        return E.Case(branches=[E.When(condition=build(c), value=build(v)) for c, v in n[2]],
                      else_=E.Else(build(n[3])) if n[3] is not None else None,
                      value=build(n[1]) if n[1] is not None else None)
    if k in ("cast", "trycast"):
        return (E.Cast if k == "cast" else E.TryCast)(expr=build(n[1]), data_type=b_type(n[2]))
    if k == "arr":
        return E.Array([build(x) for x in n[1]])
    if k == "row":
        return E.RowConstructor([build(x) for x in n[1]])
    if k == "sub":
        return E.Subscript(build(n[1]), build(n[2]))
    if k == "lam":
        if FROM_BODY:       # the body names columns; the lambda is to find its own variables among them
            return E.Lambda.from_generic_expr([E.Lambda.Variable(x) for x in n[1]], build(n[2]))
        return E.Lambda([E.Lambda.Variable(x) for x in n[1]], build(n[2]))
    if k == "fn":
        cls = FB.NAMES_TO_FUNCTIONS[n[1]]
        kw = {}
        if n[3]:
            kw["orderby"] = b_order(n[3])
        if n[4] is not None:
            kw["filter_"] = build(n[4])
        if n[5] != "RESPECT":
            kw["null_treatment"] = W.NullTreatment[n[5]]
        if n[6] is not None:
            kw["window"] = b_window(n[6])
        return cls.from_args(*[build(a) for a in n[2]], **kw)
    if k == "listagg":
        kw = {"orderby": b_order(n[4])}
        if n[2] != " ":
            kw["separator"] = n[2]
        if n[3] is not None:
            kw["overflow_filler"] = AGG.OverflowFiller(count_indication=AGG.CountIndication(n[3][1]), filler=n[3][0])
        return AGG.ListAgg(build(n[1]), **kw)
    if k == "curr":
        cls = FB.NAMES_TO_FUNCTIONS[n[1]]
        return cls(n[2]) if n[2] is not None else cls()
    if k == "normalize":
        return STR.Normalize(build(n[1]), STR.NormalForm[n[2]]) if n[2] else STR.Normalize(build(n[1]))
    if k == "q":
        return b_query(n[1])
    if k == "query":
        return b_query(n)
    if k == "t":
        return b_type(n)
    raise KeyError(k)


# ------------------------------------------------------------------------------------------------------------ read
def r_type(d):
    p = dict(d.parameters)
    n = d.type_name
    if n == "DECIMAL":
        return ("t", n, p.get("precision"), p.get("scale"))
    if n in ("VARCHAR", "CHAR"):
        return ("t", n, p.get("max_chars"))
    if n in ("TIME", "TIMESTAMP"):
        return ("t", n, p.get("precision"), bool(p.get("timezone")))
    if n in ("ARRAY", "QDIGEST"):
        return ("t", n, r_type(p["dtype"]))
    if n == "MAP":
        return ("t", n, r_type(p["from_dtype"]), r_type(p["to_dtype"]))
    if n == "ROW":
        return ("t", n, tuple(r_type(x) for x in p["dtypes"]))
    if n == "INTERVAL":
        return ("t", n, p["from_interval"], p["to_interval"])
    if p:
        return ("t", n, tuple(sorted(p.items())))
    return ("t", n)


RBIN = {v: k for k, v in BIN.items()}
RCMP = {v: k for k, v in CMP.items()}


def r_tab(t):
    return t if t is None or isinstance(t, str) else read(t)


def r_order(ob):
    return tuple((read(t.value), t.order_type.name, t.null_order.name) for t in (ob or ()))


def r_bound(b):
    c = type(b).__name__
    if c == "CurrentFrameBound":
        return ("CR",)
    if c == "UnboundedFrameBound":
        return ("UP",) if b.bound_type.name == "PRECEDING" else ("UF",)
    if c == "BoundedFrameBound":
        return ("P" if b.bound_type.name == "PRECEDING" else "F", read(b.offset))
    return ("?", c)


def r_window(w):
    if w is None:
        return None
    if type(w).__name__ != "Window":
        return ("?", type(w).__name__)
    return ("win", w.parent_window, tuple(read(p) for p in (w.partitions or ())), r_order(w.orderby),
            (w.frame_type.name, r_bound(w.start_bound), r_bound(w.end_bound)))


def r_group(g):
    c = type(g).__name__
    if c == "GroupingSet":
        return ("set", tuple(read(x) for x in g.values))
    if c in ("Rollup", "Cube"):
        return (c.lower(), tuple(read(x) for x in g.values))
    if c == "GroupingSetList":
        return ("gsets", tuple(r_group(x) for x in g.groups))
    return ("?", c)


def r_item(v):
    c = type(v).__name__
    if c == "AliasedValue":
        return ("item", read(v.value), v.alias)
    if c == "Star":
        return ("star", r_tab(v.table))
    if c == "AliasedStar":
        return ("astar", r_tab(v.star.table), tuple(v.aliases))
    return ("item", read(v), None)


def r_rel(r):
    c = type(r).__name__
    if c == "Table":
        return ("tbl", tuple(x for x in (r.catalog, r.schema, r.name) if x is not None))
    if c == "Unnest":
        return ("unnest", tuple(read(x) for x in r.arrays), r.with_ordinality)
    if c == "Lateral":
        return ("lateral", r_query(r.subquery))
    if c == "AliasedRelation":
        return ("alias", r_rel(r.relation), r.alias, tuple(r.column_aliases) if r.column_aliases is not None else None)
    if c == "TableSample":
        return ("sample", r_rel(r.relation), r.sample_type.name, read(r.percentage))
    if c == "Join":
        k = r.config
        crit = None
        if k.criteria is not None:
            cc = type(k.criteria).__name__
            crit = ("on", read(k.criteria.constraint)) if cc == "JoinOnCriteria" else ("using", tuple(k.criteria.column_names))
        jt = k.join_type.name
        return ("join", "FULL" if jt == "OUTER" else jt, bool(k.natural), r_rel(r.left_relation), r_rel(r.right_relation), crit)
    if c in ("SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery"):
        return ("subq", r_query(r))
    return ("?", c)


def r_with(ws):
    return tuple((w.alias, tuple(w.column_aliases) if w.column_aliases is not None else None, r_query(w.relation)) for w in (ws or ()))


def r_query(q):
    c = type(q).__name__
    if c == "SelectQuery":
        gb = None
        if q.groupby is not None:
            gb = (q.groupby.groupby_quantifier.name, tuple(r_group(g) for g in q.groupby.groups))
        body = ("select", q.select_quantifier.name, tuple(r_item(i) for i in q.select),
                r_rel(q.from_) if q.from_ is not None else None, read(q.where) if q.where is not None else None, gb,
                read(q.having) if q.having is not None else None, tuple((n, r_window(w)) for n, w in (q.window or {}).items()))
    elif c == "TableQuery":
        body = ("table", r_rel(q.table)[1])
    elif c == "ValuesQuery":
        body = ("values", tuple(read(x) for x in q.exprs))
    elif c in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
        body = ("setop", c[:-5].upper(), q.set_quantifier.name, r_query(q.left_query), r_query(q.right_query))
    else:
        return ("?", c)
    return ("query", r_with(q.with_), body, r_order(q.orderby), q.offset, q.limit)


QUERIES = ("SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery")
RELS = ("Table", "Unnest", "Lateral", "AliasedRelation", "TableSample", "Join")
UN = {"Negative": "neg", "Positive": "pos", "Not": "not", "IsNull": "isnull"}
SPECIAL_DT = ("CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP")


def fn_name(v):
    for name, cls in FB.NAMES_TO_FUNCTIONS.items():
        if cls is type(v):
            return name
    return None


def read(v):
    """library tree -> neutral tree ('?', ...) where it is not something a tree may contain"""
    c = type(v).__name__
    if c in QUERIES:
        return ("q", r_query(v))
    if c in RELS:
        return ("?", "relation in expression")
    if c == "DataType":
        return r_type(v)
    if c == "Literal":
        x = v.value
        if x is None:
            return ("null",)
        if isinstance(x, bool):
            return ("bool", x)
        if isinstance(x, int):
            return ("int", x)
        if isinstance(x, float):
            return ("dbl", x)
        if isinstance(x, Decimal):
            if not x.is_finite():
                return ("?", "decimal")
            return ("dec", canon_dec(format(x, "f")))
        if isinstance(x, str):
            return ("str", x)
        return ("?", "literal")
    if c == "Field":
        return ("col", v.name, r_tab(v.table))
    if c == "Variable":
        return ("lvar", v.name)
    if c == "Star":
        return ("star", r_tab(v.table))
    if c in RBIN:
        return ("bin", RBIN[c], read(v.left), read(v.right))
    if c in RCMP:
        return ("cmp", RCMP[c], read(v.left), read(v.right))
    if c in ("And", "Or"):
        return (c.lower(), read(v.left), read(v.right))
    if c == "Concatenate":
        return ("cat", tuple(read(x) for x in v.values))
    if c in UN:
        return (UN[c], read(v.value))
    if c == "Between":
        return ("btw", read(v.value), read(v.lower), read(v.upper))
    if c == "InList":
        return ("in", read(v.value), tuple(read(x) for x in v.exprs))
    if c == "InQuery":
        return ("inq", read(v.value), r_query(v.query))
    if c == "Like":
        return ("like", read(v.value), read(v.pattern), read(v.escape) if v.escape is not None else None)
    if c == "DistinctFrom":
        return ("dist", read(v.left), read(v.right))
    if c == "Case":
        return ("case", read(v.value) if v.value is not None else None,
                tuple((read(b.condition), read(b.value)) for b in v.branches),
                read(v.else_.value) if v.else_ is not None else None)
    if c == "Cast":
        return ("cast", read(v.expr), r_type(v.data_type))
    if c == "TryCast":
        return ("trycast", read(v.expr), r_type(v.data_type))
    if c == "Array":
        return ("arr", tuple(read(x) for x in v.values))
    if c == "RowConstructor":
        return ("row", tuple(read(x) for x in v.values))
    if c == "Subscript":
        return ("sub", read(v.value), read(v.index))
    if c == "TypeConstructor":
        return ("tc", v.type_name, v.value)
    if c == "Interval":
        return ("iv", v.value, v.from_interval, v.to_interval)
    if c == "Lambda":
        return ("lam", tuple(x.name for x in v.inputs), read(v.expr))
    if c == "ListAgg":
        ov = v.overflow_filler
        return ("listagg", read(v.value), v.separator, (ov.filler, ov.count_indication.value) if ov is not None else None, r_order(v.orderby))
    if c == "Normalize":
        return ("normalize", read(v.string), v.normal_form.name if v.normal_form is not None else None)
    if isinstance(v, FB.Function):
        name = fn_name(v)
        if name in CURR or name in SPECIAL_DT:
            return ("curr", name, getattr(v, "precision", None))
        args = fn_args(name, v)
        if isinstance(v, AGG.AggregateFunction):
            return ("fn", name, args, r_order(v.orderby), read(v.filter_) if v.filter_ is not None else None,
                    v.null_treatment.name, r_window(v.window))
        return ("fn", name, args, (), None, "RESPECT", None)
    return ("?", c)


def fn_args(name, v):
    vals = []
    for a in FUNCS[name][1].split():
        x = getattr(v, a.rstrip("?*"), None)
        vals.extend(x if isinstance(x, (list, tuple)) else [x])
    return tuple(read(x) for x in vals if x is not None)


class shared:
    """within it, equal parts of a tree are built as one object"""
    NAMES = ("build", "b_query", "b_rel", "b_item", "b_group", "b_window", "b_bound", "b_order", "b_type")

    def __enter__(self):
        g = globals()
        self.old = {k: g[k] for k in self.NAMES}
        memo = {}

        def keep(name, f):
            def h(x):
                k = (name, repr(x))
                if k not in memo:
                    memo[k] = f(x)
                return memo[k]
            return h

        for k, f in self.old.items():
            g[k] = keep(k, f)

    def __exit__(self, *a):
        globals().update(self.old)


def build_shared(n):
    with shared():
        return globals()["build"](n)
