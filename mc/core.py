"""Explorer shared by all checks: enumerates every case of every family on all cores, runs the property on the real
library, collects counts, writes evidence and replay files, applies the known-findings file."""
import ast
import gc
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
MAX_VIOL = 25
CASE_SECONDS = 30


class Violation(Exception):
    """raised by a case check: message; key identifies the failing input"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class HarnessError(Exception):
    """the machinery itself is wrong (never reported as a violation)"""


class Family:
    """One exhaustively enumerated family of cases."""

    def __init__(self, name, gen, check, rule="", whole=False, seconds=CASE_SECONDS):
        self.name, self.gen, self.check, self.rule, self.whole, self.seconds = name, gen, check, rule, whole, seconds


class Counts:
    """filled by case checks: transitions = calls into the library compared with the model"""

    def __init__(self):
        self.trans = 0
        self.validated = 0
        self.extra = {}

    def bump(self, what, n=1):
        self.extra[what] = self.extra.get(what, 0) + n


COUNTS = Counts()


def step(n=1):
    COUNTS.trans += n


def validated(n=1):
    COUNTS.validated += n


def bump(what, n=1):
    COUNTS.bump(what, n)


NO_ANSWER = "no answer within %d s"


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def known_keys(pid):
    """lines 'known: property=<id> key=<key> | <what>'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def raised_in_library(e):
    """an exception nobody expected: it came out of the code under test when that is where it was raised"""
    tb, lib = e.__traceback__, False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(ROOT + os.sep + "mc"):
            lib = False
        elif "treeno" in f.split(os.sep):
            lib = True
        tb = tb.tb_next
    return lib


def run_case(fam, case):
    """-> None or (key, message)"""
    signal.setitimer(signal.ITIMER_REAL, fam.seconds)
    try:
        fam.check(case)
        return None
    except Violation as v:
        return (v.key or fam.name + ":" + repr(case), v.msg)
    except HarnessError:
        raise
    except CaseTimeout:
        return (fam.name + ":" + repr(case), NO_ANSWER % fam.seconds)
    except Exception as e:
        what = "the library raised " if raised_in_library(e) else "the result can't be interpreted: "
        return (fam.name + ":" + repr(case), what + "".join(traceback.format_exception(e))[-700:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(rank, nproc, families, tier, conn):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        sys.setrecursionlimit(3000)
        res = []
        hung = 0
        for fi, fam in enumerate(families):
            viol, n, seen = [], 0, set()
            sample = []
            t0 = time.time()
            slowest = 0.0
            for idx, case in enumerate(fam.gen(tier)):
                if hung >= 3:
                    break   # the library hangs: that is reported, the rest can't be explored in time
                if fam.whole:
                    if rank != fi % nproc:
                        break
                elif idx % nproc != rank:
                    continue
                n += 1
                seen.add(digest(case))
                if len(sample) < 2 and (idx // nproc) in (3, 50):
                    sample.append(repr(case)[:300])
                t1 = time.time()
                v = run_case(fam, case)
                slowest = max(slowest, time.time() - t1)
                if v is not None:
                    viol.append((idx, fam.name, case, v[0], v[1]))
                    hung += v[1] == NO_ANSWER % fam.seconds
                    if len(viol) >= MAX_VIOL:
                        break
            res.append((fam.name, n, seen, viol, sample, time.time() - t0, slowest))
        conn.send(("ok", res, COUNTS.trans, COUNTS.validated, COUNTS.extra))
    except BaseException:
        conn.send(("err", traceback.format_exc(), 0, 0, {}))
    conn.close()
    os._exit(0)


def explore(families, tier, nproc=None):
    nproc = nproc or min(8, os.cpu_count() or 8)
    ctx = mp.get_context("fork")
    procs = []
    gc.freeze()
    for r in range(nproc):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(r, nproc, families, tier, b))
        p.start()
        b.close()
        procs.append((p, a))
    out = []
    for p, a in procs:
        try:
            out.append(a.recv())
        except EOFError:
            out.append(("err", "worker died", 0, 0, {}))
        p.join()
    errs = [o[1] for o in out if o[0] == "err"]
    if errs:
        raise HarnessError(errs[0])
    return out


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []   # (family, case, key, msg)
        self.families = {}
        self.trans = self.val = self.states = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()

    def merge(self, out):
        allseen = {}
        viol = []
        for _, res, tr, val, extra in out:
            self.trans += tr
            self.val += val
            for k, v in extra.items():
                self.extra[k] = self.extra.get(k, 0) + v
            for name, n, seen, vs, sample, secs, slowest in res:
                f = self.families.setdefault(name, {"cases": 0, "distinct": 0, "cpu_s": 0, "slowest_case_s": 0})
                f["cases"] += n
                f["cpu_s"] = round(f["cpu_s"] + secs, 1)
                f["slowest_case_s"] = max(f["slowest_case_s"], round(slowest, 1))
                allseen.setdefault(name, set()).update(seen)
                viol += vs
                if len(self.samples) < 24:
                    self.samples += [name + ": " + s for s in sample[:1]]
        for name, s in allseen.items():
            self.families[name]["distinct"] += len(s)
            self.states += len(s)
        viol.sort(key=lambda v: (list(self.families).index(v[1]), v[0]))
        self.violations += [(n, c, k, m) for _, n, c, k, m in viol]

    def finish(self, level="model_checking", verbose=True):
        known = known_keys(self.pid)
        hit, new = {}, []
        for name, case, key, msg in self.violations:
            if key in known:
                hit[key] = msg
            else:
                new.append((name, case, key, msg))
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        for key in known:
            if key in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
            else:
                print("note: listed finding not reproduced on this tree: %s" % known[key])
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.val,
               "samples": self.samples[:24], "families": self.families, "exhaustive": True}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: states=%d transitions=%d validated=%d known=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.trans, self.val, len(hit), time.time() - self.t0))
        if verbose:
            for n, f in self.families.items():
                print("   %-28s cases=%-8d distinct=%-8d cpu=%.1fs slowest=%.1fs" % (n, f["cases"], f["distinct"], f["cpu_s"], f["slowest_case_s"]))
        if new:
            count, ranked = {}, []
            for v in new:   # one of each family first
                count[v[0]] = count.get(v[0], 0) + 1
                ranked.append((count[v[0]], len(ranked), v))
            new = [v for _, _, v in sorted(ranked, key=lambda x: x[:2])]
            for i, (name, case, key, msg) in enumerate(new[:int(os.environ.get("VERIF_SHOW", "5"))]):
                path = os.path.join(OUT, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "family": name, "case": repr(case), "key": key, "message": msg}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("    [%s] %s" % (name, msg[:1500]))
            print("%d violations in total" % len(new))
            return 1
        return 0


def main(pid, families, level="model_checking", assumptions=(), pre=None, post=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if "--thorough" in args:
        tier = "thorough"
    if "--quick" in args:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in args:
        d = json.load(open(args[args.index("--replay") + 1]))
        signal.signal(signal.SIGALRM, _alarm)
        fam = [f for f in families if f.name == d["family"]][0]
        v = run_case(fam, ast.literal_eval(d["case"]))
        print("VIOLATION property=%s replay=%s\n    %s" % (pid, args[args.index("--replay") + 1], v[1]) if v else "holds on this case")
        return 1 if v else 0
    only = [a[7:] for a in args if a.startswith("--only=")]
    if only:
        families = [f for f in families if f.name in only[0].split(",")]
    rep = Report(pid, tier, seed)
    rep.assumptions = list(assumptions)
    rep.merge(explore(families, tier))
    if post:
        post(rep, tier)
    return rep.finish(level)
