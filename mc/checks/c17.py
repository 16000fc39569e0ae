"""C17: configurations - the library imported in every order of two (three) modules in processes where none of it was imported before, and
under every combination of process settings; what it reads, types, prints and resolves compared with one reference process."""
import importlib
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile
import traceback

from .. import fnreg
from ..core import Family, HarnessError, main as run
from . import c17_probe
from .common import Violation, bump, step, validated

REPO = os.environ.get("VERIF_REPO", "/repo")
FUNCTIONS = [(n, k) for n in sorted(fnreg.FUNCS) for k in fnreg.arities(n)]
CLEAN = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "PYTHONPYCACHEPREFIX", "LANG", "TMPDIR")}
CLEAN["PYTHONDONTWRITEBYTECODE"] = "1"


def modules():
    """every module of the library, found on disk"""
    out = []
    for d, subs, files in os.walk(os.path.join(REPO, "treeno")):
        subs[:] = sorted(s for s in subs if s != "__pycache__" and os.path.exists(os.path.join(d, s, "__init__.py")))
        for f in sorted(files):
            if f.endswith(".py") and f != "__main__.py":
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(m for m in out if not m.startswith("treeno.grammar.gen"))


def child(f, bootstrap=lambda: None):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = ("ok", f())
        except BaseException:
            out = ("err", traceback.format_exc())
        with os.fdopen(w, "wb") as fh:
            pickle.dump(out, fh)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(data)
    if kind == "err":
        raise HarnessError(val)
    return val


def spawn(mods, parts, flags=(), env=(), cwd=None, statement=None):
    spec = json.dumps({"repo": REPO, "modules": list(mods), "functions": FUNCTIONS, "parts": list(parts), "statement": statement})
    e = dict(CLEAN)
    for k, v in env:
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    with tempfile.TemporaryDirectory(dir=os.environ.get("MC_TMP")) as tmp:
        p = subprocess.run([sys.executable, *flags, c17_probe.__file__, spec], env=e, cwd=tmp if cwd == "scratch" else cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = p.stdout.decode("utf-8", "replace")
    at = out.rfind("RESULT")
    if p.returncode or at < 0:
        raise Violation("a process importing %s (%s; flags %s, environment %s, directory %s) fails:\n%s" % (list(mods), statement, list(flags), dict(env), cwd, p.stderr.decode("utf-8", "replace")[-900:]))
    return json.loads(out[at + 6:])


REF = {}


def reference(parts):
    if parts not in REF:
        REF[parts] = spawn(["treeno"] + MODULES, parts, env=(("PYTHONHASHSEED", "0"),), cwd="/")
    return REF[parts]


def compare(got, parts, what):
    ref = reference(parts)
    step()
    for m, r in got.items():
        if m.startswith("import "):
            if r != m[7:]:
                raise Violation("%s: importing %s gives %r" % (what, m[7:], r))
        elif ref.get(m) != r:
            raise Violation("%s: %s\n      reference process %r\n      here              %r" % (what, m, ref.get(m), r))
        validated()
    miss = [m for m in ref if m not in got and not m.startswith("import ")]
    if miss:
        raise HarnessError("nothing known about %s" % miss[:3])


def first():
    sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m.split(".")[0] == "treeno" and not m.startswith("treeno.grammar.gen.")]:
        del sys.modules[m]


def order(c):
    """modules imported first, then only what reading needs"""
    def go():
        first()
        return c17_probe.go(c, FUNCTIONS, ())
    compare(json.loads(json.dumps(child(go))), (), "after importing %s first" % ", ".join(c))


def every(c):
    """two modules first, then everything"""
    def go():
        first()
        return c17_probe.go(c, FUNCTIONS, ("more",))
    compare(json.loads(json.dumps(child(go))), ("more",), "after importing %s first" % ", ".join(c))


def names_recognised(c):
    """the complete set"""
    ref = reference(())
    missing = ["%s with %d arguments: %s" % (n, k, ref["%s/%d" % (n, k)]) for n, k in FUNCTIONS if not isinstance(ref["%s/%d" % (n, k)], list) and n != "KURTOSIS"]
    if missing:
        raise Violation("functions which are not recognised: %s" % missing[:5])
    validated(len(FUNCTIONS))


def settings(c):
    env, flags, cwd, parts = c
    compare(spawn((), parts, flags, env, cwd), parts, "environment %s, flags %s, directory %s" % (dict(env), flags, cwd))


def style(c):
    statement, = c
    compare(spawn((), ("more",), statement=statement), ("more",), "after the statement %r" % statement)


def gen_pairs(tier):
    for m in MODULES:
        yield (m,)
    for a, b in itertools.permutations(MODULES, 2):
        yield (a, b)
    if tier == "thorough":
        key = [m for m in MODULES if m.count(".") and (m.startswith("treeno.functions") or m in ("treeno.expression", "treeno.relation", "treeno.visitor", "treeno.builder.convert", "treeno.datatypes.inference", "treeno.window", "treeno.cli"))]
        yield from itertools.permutations(key, 3)


def gen_every(tier):
    if tier == "thorough":
        yield from itertools.permutations(MODULES, 2)
    else:
        for i, a in enumerate(MODULES):
            yield (a, MODULES[(i * 7 + 3) % len(MODULES)])
            yield (MODULES[(i * 5 + 1) % len(MODULES)], a)
        yield tuple(reversed(MODULES))
        yield tuple(MODULES)


def gen_settings(tier):
    seeds = [str(i) for i in range(8 if tier == "quick" else 64)] + ["random", "4294967295"]
    for s in seeds:
        yield ((("PYTHONHASHSEED", s),), (), "scratch", ("more", "cli"))
    envs = [(), (("LC_ALL", "C"), ("LANG", "C")), (("LC_ALL", "POSIX"),), (("PYTHONUTF8", "1"),), (("TZ", "Pacific/Kiritimati"),), (("TZ", "America/New_York"),), (("HOME", None),), (("PATH", "/nonexistent"),), (("USER", "nobody"),),
            (("PYTHONDONTWRITEBYTECODE", None),), (("PYTHONMALLOC", "debug"),), (("PYTHONFAULTHANDLER", "1"),), (("PYTHONNODEBUGRANGES", "1"),), (("PYTHONINTMAXSTRDIGITS", "0"),), (("LANG", None),), (("LINES", "3"), ("COLUMNS", "20"))]
    flagsets = [(), ("-B",), ("-s",), ("-E",), ("-I",), ("-u",), ("-q",), ("-X", "utf8"), ("-X", "dev"), ("-W", "ignore"), ("-X", "importtime"), ("-X", "no_debug_ranges"), ("-P",), ("-b",)]
    cwds = ["/", "scratch", REPO, os.path.join(REPO, "treeno"), os.path.join(REPO, "treeno", "functions")]
    if tier == "thorough":
        for e in envs:
            for f in flagsets:
                for d in cwds[:2]:
                    yield (e, f, d, ("more",))
    else:
        for e in envs:
            yield (e, (), "scratch", ("more",))
        for f in flagsets:
            yield ((), f, "/", ("more",))
    for d in cwds:
        yield ((), (), d, ("more",))


def gen_styles(tier):
    for m in MODULES:
        yield ("import " + m,)
        yield ("from %s import *" % m,)
        if "." in m:
            yield ("from %s import %s" % tuple(m.rsplit(".", 1)),)
    yield ("import threading\nts = [threading.Thread(target=__import__, args=(m,)) for m in ('treeno.builder.convert', 'treeno.functions', 'treeno.relation', 'treeno.visitor')]\n[t.start() for t in ts]\n[t.join() for t in ts]",)
    yield ("import sys\nsys.setrecursionlimit(4000)",)
    yield ("import gc\ngc.disable()",)
    yield ("import decimal\ndecimal.getcontext().prec = 5",)
    yield ("import decimal\ndecimal.setcontext(decimal.ExtendedContext)",)


FAMILIES = [
    Family("functions recognised", lambda tier: [("all",)], names_recognised),
    Family("import orders", gen_pairs, order, seconds=120),
    Family("import orders, every part used", gen_every, every, seconds=120),
    Family("process settings", gen_settings, settings, seconds=200),
    Family("import statements", gen_styles, style, seconds=120),
]
MODULES = []


def main():
    MODULES.extend(modules())
    # (this also leaves the compiled modules in the scratch folder of this run, PYTHONPYCACHEPREFIX)
    # what the library needs from elsewhere, and the generated parser, are imported once; the library itself only in the children
    third = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import treeno.cli, typer.testing; print(' '.join(sorted(m for m in sys.modules if m.split('.')[0] != 'treeno')))" % REPO],
                           env=dict(CLEAN, PYTHONDONTWRITEBYTECODE=""), stdout=subprocess.PIPE, cwd="/").stdout.decode().split()
    for m in third:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    try:
        heat()
    except Exception:
        pass
    for m in [m for m in sys.modules if m.split(".")[0] == "treeno" and not m.startswith("treeno.grammar.gen.")]:
        del sys.modules[m]
    for parts in ((), ("more",), ("more", "cli")):
        try:
            reference(parts)
        except Violation:
            pass
    return run("C17", FAMILIES)


def heat():
    import antlr4
    lex = importlib.import_module("treeno.grammar.gen.SqlBaseLexer").SqlBaseLexer
    par = importlib.import_module("treeno.grammar.gen.SqlBaseParser").SqlBaseParser
    for kind, text in c17_probe.TEXTS + [("expression", "%s(%s)" % (n, ",".join("abcdef"[:k]))) for n, k in FUNCTIONS]:
        try:
            p = par(antlr4.CommonTokenStream(lex(antlr4.InputStream(text))))
            p.removeErrorListeners()
            getattr(p, {"expression": "standaloneExpression", "query": "query", "type": "standaloneType"}[kind])()
        except Exception:
            pass
