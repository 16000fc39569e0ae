"""Running the command line: in this process through typer's runner, or as a real process."""
import importlib
import os
import subprocess
import sys

from .core import step

RUNNER = None


def run(args):
    """-> (exit code, stdout, stderr, exception)"""
    global RUNNER
    if RUNNER is None:
        import inspect
        from typer.testing import CliRunner
        kw = {"mix_stderr": False} if "mix_stderr" in inspect.signature(CliRunner.__init__).parameters else {}
        RUNNER = CliRunner(**kw)
    step()
    app = importlib.import_module("treeno.cli").app
    r = RUNNER.invoke(app, args)
    # the bytes that were written: the runner's own text properties turn \r\n into \n
    return r.exit_code, (r.stdout_bytes or b"").decode("utf-8"), (r.stderr_bytes or b"").decode("utf-8"), r.exception


def run_process(args, env=None, cwd=None, flags=()):
    step()
    repo = os.environ.get("VERIF_REPO", "/repo")
    code = "import sys; sys.path.insert(0, %r); sys.argv = ['treeno'] + sys.argv[1:]; from treeno.cli import app; app()" % repo
    e = dict(os.environ)
    if e.get("PYTHONPYCACHEPREFIX"):
        e.pop("PYTHONDONTWRITEBYTECODE", None)      # the compiled modules stay in the scratch folder of this run
    e.update(env or {})
    p = subprocess.run([sys.executable, *flags, "-c", code] + args, stdin=subprocess.DEVNULL, capture_output=True, env=e, cwd=cwd, timeout=25)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8"), None


def argv(command, kind, sql):
    a = [command] + ([{"expr": "expression", "query": "query", "type": "type"}[kind]] if command != "schema" else [])
    return a + (["--"] if sql.startswith("-") else []) + [sql]
