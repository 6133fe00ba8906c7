"""Property-based runner shared by all checks.

A check is a list of `Sub`s.  A `Sub` is a Hypothesis strategy producing plain
JSON-able cases plus a function `test(case, rec)` that raises `Violation` when
the observed behaviour contradicts the property.  The runner

* first runs the explicit regression cases of the sub,
* then drives the strategy with Hypothesis, split over deterministic shards
  (each shard is a pure function of VERIF_SEED, property, sub and shard number),
* on failure lets Hypothesis shrink, writes the minimal case to a replay file
  and prints `VIOLATION property=<id> replay=<file>`,
* writes the evidence file from its own counters.

Exit codes: 0 held on everything explored, 1 violation, 2 error of the harness,
3 no answer (time limit, worker lost).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import multiprocessing as mp_
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zipfile
import zlib

warnings.filterwarnings("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


SCRATCH = tempfile.mkdtemp(prefix="verif_hyp_")
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "store")


def cleanup():
    shutil.rmtree(SCRATCH, True)


def _find_hypothesis():
    """hypothesis is not in the library's venv: expose it from the tooling venv, or
    unpack the offline wheels (appended to the path, so that nothing of the venv in
    which the library is tested is shadowed)."""
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    d = os.path.join(SCRATCH, "site")
    os.makedirs(d)
    sys.path.append(d)
    try:
        for f in os.listdir(p):
            if f.startswith(("hypothesis", "_hypothesis", "sortedcontainers", "attr")) \
                    and not f.startswith(("hypothesis_graphql", "hypothesis_jsonschema")):
                os.symlink(os.path.join(p, f), os.path.join(d, f))
        import hypothesis  # noqa
        return
    except (ImportError, OSError):
        pass
    for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        for w in glob.glob("/opt/veriftools/wheels/" + pat):
            zipfile.ZipFile(w).extractall(os.path.join(SCRATCH, "wheels"))
    sys.path.append(os.path.join(SCRATCH, "wheels"))
    import hypothesis  # noqa


_find_hypothesis()
import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
from hypothesis import given, settings, HealthCheck, Phase  # noqa: E402


class Violation(Exception):
    pass


class HarnessError(Exception):
    """the oracle itself failed (reported as an error of the check)"""


class Abort(KeyboardInterrupt):
    """leaves the Hypothesis engine at once (not caught by it)"""


class Rec:
    def __init__(self):
        self.labels = []
        self.nt = False
        self.n = 0

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)

    def obs(self, n=1):
        """count individual comparisons (numbers checked against the oracle)"""
        self.n += int(n)


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, explicit=(), shards=8,
                 shrink_s=60, share=1.0):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.explicit = list(explicit)
        self.shards = shards
        self.shrink_s = shrink_s


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg if not callable(msg) else msg())


def lib(f, *a, **kw):
    """Call into the code under test on a valid input: raising is a violation."""
    try:
        return f(*a, **kw)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation("%s raised %s: %s" % (getattr(f, "__name__", f), type(e).__name__, str(e)[:300]))


def must_raise(f, *a, **kw):
    """Call with an invalid input: must be rejected with an ordinary exception."""
    try:
        r = f(*a, **kw)
    except Exception:
        return
    raise Violation("%s accepted an invalid input" % getattr(f, "__name__", f))


# ---------------------------------------------------------------- shard worker
def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def _digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


_SUBS = {}


def _run_shard(args):
    pid, subname, shard, n, seed, budget, tier = args
    sub = _SUBS[subname]
    t0 = time.time()
    out = dict(sub=subname, shard=shard, evals=0, nt=set(), labels={}, samples=[], comparisons=0,
               fail=None, error=None, truncated=False)
    state = dict(first_fail=None)

    def one(case):
        if out["fail"] is None and time.time() - t0 > budget:
            out["truncated"] = True
            raise Abort()
        if state["first_fail"] and time.time() - state["first_fail"] > sub.shrink_s:
            raise Abort()
        rec = Rec()
        counting = out["fail"] is None
        try:
            sub.test(case, rec)
        except Violation as e:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            out["fail"] = (case, str(e))
            if counting:
                out["evals"] += 1
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except hypothesis.errors.StopTest:
            raise
        except (ImportError, MemoryError, OSError, HarnessError):
            out["error"] = "case: %s\n%s" % (canon(case)[:2000], traceback.format_exc())
            raise Abort()
        except Exception as e:
            # results the oracle code cannot digest (wrong type, shape, missing entry)
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            msg = "result could not be evaluated: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], tb.filename, tb.lineno)
            out["fail"] = (case, msg)
            if counting:
                out["evals"] += 1
            raise Violation(msg)
        if counting:
            out["evals"] += 1
            out["comparisons"] += rec.n
            for l in rec.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if rec.nt:
                d = _digest(case)
                if d not in out["nt"]:
                    out["nt"].add(d)
                    if len(out["samples"]) < 2:
                        out["samples"].append(case)

    try:
        if shard == 0:
            for case in sub.explicit:
                try:
                    one(case)
                except Violation:
                    return out
        if n <= 0 or sub.strategy is None:
            return out
        dseed = zlib.crc32(("%s/%s/%s/%d" % (seed, pid, subname, shard)).encode())
        f = given(sub.strategy)(one)
        f = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                     report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate, Phase.shrink),
                     verbosity=hypothesis.Verbosity.quiet)(f)
        f = hypothesis.seed(dseed)(f)
        try:
            f()
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            # failed, then passed on the same input: the library is not deterministic
            if out["fail"] is None:
                out["error"] = traceback.format_exc()
    except Abort:
        pass
    except BaseException:
        if out["fail"] is None:
            out["error"] = traceback.format_exc()
    return out


# ---------------------------------------------------------------- driver
def load_known():
    fixed, known = [], []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    known.append(line)
                elif line.startswith("fixed:"):
                    fixed.append(line)
    except FileNotFoundError:
        pass
    return known, fixed


def main(pid, subs, rule, assumptions, argv):
    import torch
    torch.set_num_threads(1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    for s in subs:
        _SUBS[s.name] = s

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rp = json.load(f)
        rec = Rec()
        try:
            _SUBS[rp["sub"]].test(rp["case"], rec)
        except Violation as e:
            print("replay fails: %s" % e)
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
            return 1
        print("replay passes")
        return 0

    only = None
    if "--sub" in argv:
        only = argv[argv.index("--sub") + 1].split(",")
    scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.0
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    tasks = []
    for s in subs:
        if only and s.name not in only:
            continue
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        k = max(1, min(s.shards, n))
        for i in range(k):
            tasks.append((pid, s.name, i, n // k + (1 if i < n % k else 0), seed, budget, tier))
    # round robin over subs so long ones start early
    tasks.sort(key=lambda t: t[2])
    nproc = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    results = []
    timeout = 820 if tier == "quick" else 6 * 3600
    ctx = mp_.get_context("fork")
    ex = cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx)
    futs = [ex.submit(_run_shard, t) for t in tasks]
    try:
        for fu in cf.as_completed(futs, timeout=timeout):
            results.append(fu.result())
    except (cf.TimeoutError, cf.process.BrokenProcessPool) as e:
        # a violation that was already found and shrunk still counts
        print("no answer: %s %s" % (type(e).__name__, e), file=sys.stderr)
        if not any(r["fail"] for r in results):
            for p in list((ex._processes or {}).values()):
                p.kill()
            os._exit(3)
        for p in list((ex._processes or {}).values()):
            p.kill()
    ex.shutdown(wait=False, cancel_futures=True)

    wall = time.time() - t0
    errors = [r for r in results if r["error"]]
    per = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        if not rs:
            continue
        nt = set().union(*[r["nt"] for r in rs])
        lab = {}
        for r in rs:
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
        per[s.name] = dict(evaluations=sum(r["evals"] for r in rs), distinct_nontrivial=len(nt),
                           comparisons=sum(r["comparisons"] for r in rs),
                           truncated_shards=sum(r["truncated"] for r in rs),
                           explicit_cases=len(s.explicit),
                           classes=dict(sorted(lab.items(), key=lambda kv: -kv[1])[:40]))
    fails = {}
    for r in results:
        if r["fail"]:
            c, m = r["fail"]
            cur = fails.get(r["sub"])
            if cur is None or len(canon(c)) < len(canon(cur[0])):
                fails[r["sub"]] = (c, m)
    samples = []
    for s in subs:
        for r in results:
            if r["sub"] == s.name and r["samples"]:
                js = canon(r["samples"][0])
                samples.append(dict(sub=s.name, case=r["samples"][0] if len(js) < 1500 else js[:1500] + "..."))
                break
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()),
                            distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per.values()),
                            rule=rule, samples=samples, per_sub=per,
                            comparisons=sum(p["comparisons"] for p in per.values())),
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if errors:
        print("HARNESS ERROR in %s/%s:\n%s" % (pid, errors[0]["sub"], errors[0]["error"]), file=sys.stderr)
    code = 0
    if fails:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for sname, (c, m) in fails.items():
            path = os.path.join(d, "%s-%s.json" % (pid, sname))
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=sname, message=m, case=c, seed=seed), f, indent=1, default=str)
            print("%s/%s: %s" % (pid, sname, m))
            print("   case: %s" % canon(c)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    elif errors:
        code = 2
    elif any(r["truncated"] for r in results) and not per:
        code = 3
    for name, p in per.items():
        print("%s/%-22s evals=%-6d nontrivial=%-6d comparisons=%-8d%s" % (
            pid, name, p["evaluations"], p["distinct_nontrivial"], p["comparisons"],
            " TRUNCATED" if p["truncated_shards"] else ""))
    print("%s %s seed=%d wall=%.1fs -> %s" % (pid, tier, seed, wall, {0: "held", 1: "VIOLATED", 2: "error", 3: "no answer"}[code]))
    sys.stdout.flush()
    return code
