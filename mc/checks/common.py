"""Pieces used by several checks."""
from .. import bind, lang
from ..core import HarnessError, Violation, bump, step, validated
from ..lang import Bad, fold_frames, has_unsup, norm
from ..render import MIN, STYLES, Style, render

KIND = {"e": "expr", "q": "query", "t": "type"}


def want(n):
    """canonical meaning of a neutral tree"""
    return fold_frames(norm(n))


def ref(kind, text):
    """reference reading of a text; Bad when it is not in the language"""
    n = lang.parse(kind, text)
    return n[1] if kind == "query" and n[0] == "q" else n


def selfcheck(kind, n, text):
    """the renderer and the reference parser agree about every text we feed to the library"""
    try:
        m = ref(kind, text)
    except Bad as e:
        raise HarnessError("reference parser rejects its own rendering %r of %r: %s" % (text, n, e))
    if fold_frames(m) != fold_frames(n):
        raise HarnessError("rendering %r of %r reads as %r" % (text, n, m))


def guarded(what, f, *a, **kw):
    try:
        return f(*a, **kw)
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def lib_read(kind, text):
    step()
    obj = guarded("reading %r" % text, bind.lib_parse, kind, text)
    return obj, norm(neutral(kind, obj))


def neutral(kind, obj):
    try:
        if kind == "query":
            return bind.r_query(obj)
        if kind == "type":
            return bind.r_type(obj)
        return bind.read(obj)
    except Exception as e:
        raise Violation("tree %s cannot be inspected: %s: %s" % (type(obj).__name__, type(e).__name__, e))


def lib_build(kind, n):
    step()
    return guarded("building %r" % (n,), bind.build, n)


def lib_shared(kind, n):
    """as lib_build, with equal parts being one object"""
    step()
    return guarded("building %r from shared parts" % (n,), bind.build_shared, n)


def lib_print(obj, mode="DEFAULT", spaces=4, n=None):
    step()
    return guarded("printing %r" % (n if n is not None else type(obj).__name__,), lambda: obj.sql(bind.opts(mode, spaces)))


def same(a, b, msg):
    if a != b:
        raise Violation("%s\n      expected %r\n      got      %r" % (msg, a, b))
    validated()
