"""Inputs taken from the library itself: the constants its source mentions are tried as contents, names, counts and lengths. What code treats
specially it has to mention, so these are the values for which it is most likely to behave differently. (Only inputs: nothing is judged by them.)"""
import ast
import functools
import importlib.util
import os
import re


@functools.lru_cache(None)
def constants():
    spec = importlib.util.find_spec("treeno")
    strings, ints = set(), set()
    for root in spec.submodule_search_locations:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("gen", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except (SyntaxError, ValueError, OSError):
                    continue
                skip = set()
                for n in ast.walk(tree):
                    body = getattr(n, "body", None)
                    if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                        skip.add(id(body[0].value))     # documentation
                    if isinstance(n, (ast.Raise, ast.Assert)):
                        for x in ast.walk(n.exc or n) if isinstance(n, ast.Raise) else ast.walk(n.msg) if n.msg is not None else ():
                            skip.add(id(x))             # messages
                    if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
                        skip.update(map(id, ast.walk(n.annotation)))
                for n in ast.walk(tree):
                    if not isinstance(n, ast.Constant) or id(n) in skip:
                        continue
                    if isinstance(n.value, str) and n.value and len(n.value) <= 40:
                        strings.add(n.value)
                        strings.update(re.findall(r"\{\w*\}|%\(\w+\)s|%[sdr]|\\\d", n.value))
                        strings.update(x for x in n.value.split() if len(x) > 1)
                    elif type(n.value) is int:
                        ints.add(n.value)
    return sorted(strings), sorted(ints)


def strings():
    return constants()[0]


def ints(low, high):
    """the numbers mentioned and their neighbours"""
    return sorted({k for n in constants()[1] for k in (n - 1, n, n + 1) if low <= k <= high})
