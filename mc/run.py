"""python -m mc.run C01 [--quick|--thorough] [--replay FILE] [--only=family,...]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def go():
    pid = sys.argv[1]
    mod = importlib.import_module("mc.checks." + pid.lower())
    return mod.main()


if __name__ == "__main__":
    try:
        rc = go()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2      # the machinery failed: neither "held" nor "violated"
    sys.exit(rc)
