"""Reference resolver: SQL scoping over neutral trees, independent of the library."""
from . import tyref
from .tyref import BIG, UNK, common, ty


class Ambiguous(Exception):
    pass


def same(a, b):
    return a is not None and b is not None and a.lower() == b.lower()


class Scope:
    """columns of the relations in FROM: cols [(qualifier, name, type, known)], partial: qualifiers of relations with columns
    nobody told us about; a column with known=False stands for any number of unknown columns"""

    def __init__(self, cols=(), partial=(), outer=None):
        self.cols, self.partial, self.outer = list(cols), list(partial), outer

    def lookup(self, name, qual):
        s = self
        while s is not None:
            m = [c for c in s.cols if same(c[1], name) and (qual is None or same(c[0], qual))]
            if len(m) > 1:
                raise Ambiguous(name)
            if m:
                return m[0][2]
            if s.partial or any(same(c[1], qual) for c in s.cols):
                return UNK
            s = s.outer
        return UNK


class Out:
    """output of a query: cols [(name, type, known)]"""

    def __init__(self, cols, dtype):
        self.cols, self.dtype = cols, dtype
        self.partial = any(not c[2] for c in cols)


HOLE = (None, UNK, False)


def walk(n, f):
    """every column, star and query below an expression, outermost queries only"""
    if not isinstance(n, tuple) or not n:
        return
    if n[0] in ("col", "star", "astar") and len(n) > 1:
        f(n)
        walk(n[2] if n[0] == "col" else n[1], f)
        return
    if n[0] == "query":
        f(("q", n))
        return
    if n[0] == "t" and len(n) > 1 and isinstance(n[1], str) and n[1].isupper():
        return
    for x in n:
        walk(x, f)


class Env:
    def __init__(self, catalog, ctes=()):
        self.catalog, self.ctes = catalog, tuple(ctes)

    def add(self, name, cols):
        return Env(self.catalog, [(n, c) for n, c in self.ctes if not same(n, name)] + [(name, cols)])

    def table(self, names):
        """-> cols or None"""
        if len(names) == 1:
            for n, c in self.ctes:
                if same(n, names[0]):
                    return c
        hits = [(k, c) for k, c in self.catalog if same(k[-1], names[-1])]
        exact = [h for h in hits if h[0] == tuple(names)]
        if len(exact) == 1:
            return exact[0][1]

        def fits(k):
            return all(same(p, q) for p, q in zip(reversed(k), reversed(names)))

        near = [h for h in hits if fits(h[0])]
        return near[0][1] if len(near) == 1 else None


def typed(n, scope, env):
    """type of an expression, all its names looked up"""
    def names(x):
        if x[0] == "q":
            return query(x[1], env, scope).dtype
        if x[0] == "col":
            return scope.lookup(x[1], x[2]) if not isinstance(x[2], tuple) else UNK
        return UNK

    walk(n, names)
    return ty(n, names)


def rel(r, env, outer):
    """-> Scope of a relation (its outer is not set)"""
    k = r[0]
    if k == "tbl":
        c = env.table(r[1])
        q = r[1][-1]
        if c is None:
            return Scope([(q,) + HOLE], [q])
        return Scope([(q, n, t, kn) for n, t, kn in c], [q] if any(not x[2] for x in c) else [])
    if k == "subq":
        o = query(r[1], env, outer)
        return Scope([(None,) + c for c in o.cols], [None] if o.partial else [])
    if k == "lateral":
        return rel(("subq", r[1]), env, outer)
    if k == "sample":
        return rel(r[1], env, outer)
    if k == "alias":
        s = rel(r[1], env, outer)
        cols = renamed([c[1:] for c in s.cols], r[3])
        return Scope([(r[2],) + c for c in cols], [r[2]] if s.partial and not r[3] else [])
    if k == "unnest":
        cols, part = [], False
        for a in r[1]:
            t = typed(a, outer or Scope(), env)
            if t[1] == "MAP":
                cols += [(None, None, t[2], True), (None, None, t[3], True)]
            elif t[1] != "ARRAY":
                cols.append((None,) + HOLE)
                part = True
            elif t[2][1] == "ROW":
                cols += [(None, None, x, True) for x in t[2][2]]
            else:
                cols.append((None, None, t[2], True))
        if r[2]:
            cols.append((None, None, BIG, True))
        return Scope(cols, [None] if part else [])
    if k == "join":
        _, jt, nat, l, rr, crit = r
        ls = rel(l, env, outer)
        base = rr
        while base[0] == "alias":
            base = base[1]
        sees = outer
        if base[0] in ("unnest", "lateral"):
            sees = Scope(ls.cols, ls.partial, outer)
        rs = rel(rr, env, sees)
        part = ls.partial + rs.partial
        names = []
        if crit is not None and crit[0] == "using":
            names = list(crit[1])
        elif nat:
            if part:
                return Scope([(None,) + HOLE], [None])
            names = [c[1] for c in ls.cols if any(same(c[1], d[1]) for d in rs.cols)]
        out = []
        for n in names:
            ts = []
            for s in (ls, rs):
                m = [c for c in s.cols if same(c[1], n)]
                if len(m) > 1:
                    raise Ambiguous(n)
                ts += [c[2] for c in m]
            out.append((None, n, common(*ts) if len(ts) == 2 else UNK, True))
        return Scope(out + [c for c in ls.cols + rs.cols if not any(same(c[1], n) for n in names)], part)
    raise KeyError(k)


def known(cols):
    """leading columns before any unknown ones"""
    out = []
    for c in cols:
        if not c[2]:
            break
        out.append(c)
    return out


def renamed(cols, names):
    """columns after an alias with (or without) column aliases"""
    if not names:
        return cols
    kn = known(cols)
    return [(n, kn[i][1] if i < len(kn) else UNK, True) for i, n in enumerate(names)]


def one(ts):
    return ts[0] if len(ts) == 1 else ("t", "ROW", tuple(ts))


def query(q, env, outer=None):
    _, with_, body, _, _, _ = q
    for n, c, x in with_:
        env = env.add(n, renamed(query(x, env, outer).cols, c))
    k = body[0]
    if k == "table":
        s = rel(("tbl", body[1]), env, outer)
        cols = [c[1:] for c in s.cols]
        return Out(cols, UNK if s.partial else one([c[1] for c in cols]))
    if k == "values":
        sc = Scope(outer=outer)
        for e in body[1]:
            typed(e, sc, env)
        t = tyref.body_columns(body, lambda x: typed(x, sc, env))
        ts = [UNK] if t is None else t
        return Out([(None, x, True) for x in ts], one(ts))
    if k == "setop":
        l, r = query(body[3], env, outer), query(body[4], env, outer)
        kn = list(zip(known(l.cols), known(r.cols)))
        cols = [(c[0], common(kn[i][0][1], kn[i][1][1]) if i < len(kn) else UNK, c[2]) for i, c in enumerate(l.cols)]
        return Out(cols, UNK if UNK in (l.dtype, r.dtype) else common(l.dtype, r.dtype))
    sc = Scope(outer=outer)
    if body[3] is not None:
        s = rel(body[3], env, outer)
        sc = Scope(s.cols, s.partial, outer)
    cols, ok = [], True
    for it in body[2]:
        if it[0] == "item":
            t = typed(it[1], sc, env)
            cols.append((it[2] if it[2] is not None else it[1][1] if it[1][0] == "col" else None, t, True))
            continue
        base = it[1]
        if isinstance(base, tuple):
            t = typed(base, sc, env)
            got = [(None, x, True) for x in t[2]] if t[1] == "ROW" else None
        elif base is None:
            got = None if sc.partial or not sc.cols else [c[1:] for c in sc.cols]
        else:
            got = [c[1:] for c in sc.cols if same(c[0], base)]
            if not got or any(same(p, base) for p in sc.partial):
                got = None
        if got is None:
            cols.append(HOLE)
            ok = False
            continue
        if it[0] == "astar":
            got = [(it[2][i] if i < len(it[2]) else None,) + c[1:] for i, c in enumerate(got)]
        cols += got
    return Out(cols, one([c[1] for c in cols]) if ok else UNK)


def ambiguous(q):
    """does a query, nothing known about its tables, reference a column which two relations in scope provide?"""
    try:
        query(q, Env([]))
    except Ambiguous:
        return True
    return False
