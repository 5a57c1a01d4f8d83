"""Runner shared by all checks: job distribution, evidence, violations, known findings, replays.

A property module (mc/props/cXX.py) defines
    jobs(tier)          -> list of picklable job descriptors (dicts / tuples)
    run_job(job, R)     -> explores the bounded space of that job on the real code, recording in R
Optionally
    LEVEL, ASSUMPTIONS (list of str), SERIAL (run jobs in this process), finish(total) -> extra coverage
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")
JOB_TIMEOUT = int(os.environ.get("MC_JOB_TIMEOUT", "400"))
MAX_VIOL_PER_JOB = 5


class JobTimeout(BaseException):
    pass


def h64(obj):
    """Stable 64-bit hash of a canonical (repr-able) state."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def canon(x, nd=7):
    """Canonical form of numbers/arrays for state identity (rounded)."""
    import numpy as np

    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, dict):
        return tuple((canon(k, nd), canon(v, nd)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        return tuple(canon(v, nd) for v in x.tolist())
    if isinstance(x, (float, np.floating)):
        v = round(float(x), nd)
        if v != v:
            return "nan"
        return 0.0 if v == 0 else v
    if isinstance(x, np.integer):
        return int(x)
    return x


class Stop(Exception):
    """Raised to abandon a job after enough violations."""


class R:
    """Result recorder of one job."""

    def __init__(self, job):
        self.job = job
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.viol = []
        self.err = None

    def state(self, *key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def fail(self, what, **details):
        """Record a violation; `what` is short text, key identifies the failing case."""
        key = details.pop("key", None)
        self.viol.append({"what": what, "key": key, "details": jsonable(details)})
        if len(self.viol) >= MAX_VIOL_PER_JOB:
            raise Stop()

    def check(self, cond, what, **details):
        if not cond:
            self.fail(what, **details)
        return cond

    def close(self, a, b, tol, what, **details):
        import numpy as np

        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            same = a_.shape == b_.shape and bool(np.all((np.abs(a_ - b_) <= tol) | (a_ == b_)))
        except (TypeError, ValueError):
            same = False
        if not same:
            self.fail(what, got=a, expected=b, tol=tol, **details)
        return same


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        v = float(x)
        return v if v == v and abs(v) != float("inf") else repr(v)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return repr(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)


def from_repo(tb):
    """True if the exception was raised in (or below) the code under test, called by a harness frame."""
    scratch = os.environ.get("MC_SCRATCH", "\0")
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(REPO + "/") or fn.startswith(scratch + "/"):
            return True
    return False


def _alarm(signum, frame):
    raise JobTimeout()


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def exec_job(args):
    modname, job = args
    quiet()
    mod = importlib.import_module(modname)
    r = R(job)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run_job(job, r)
    except Stop:
        pass
    except JobTimeout:
        r.viol.append({"what": "the code under test did not terminate within %d s" % JOB_TIMEOUT, "key": "timeout",
                       "details": {"traceback": traceback.format_exc()[-3000:]}})
    except BaseException as e:  # noqa: B902 - classified below
        if isinstance(e, KeyboardInterrupt):
            raise
        text = traceback.format_exc()[-4000:]
        if from_repo(e.__traceback__):
            r.viol.append({"what": "unexpected %s raised by the code under test: %s" % (type(e).__name__, str(e)[:300]),
                           "key": "exception:" + type(e).__name__, "details": {"traceback": text}})
        elif isinstance(e, (MemoryError, OSError, SystemExit)):
            r.err = text
        else:
            # On the unchanged tree no harness exception occurs: the code's outputs lost their documented shape.
            r.viol.append({"what": "the outputs of the code under test could not be interpreted: %s: %s" % (
                type(e).__name__, str(e)[:300]), "key": "uninterpretable:" + type(e).__name__,
                "details": {"traceback": text}})
    finally:
        signal.alarm(0)
    return {"job": job, "states": r.states, "transitions": r.transitions, "traces": r.traces,
            "outcomes": r.outcomes, "samples": r.samples, "viol": r.viol, "err": r.err, "t": time.time() - t0}


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def run(pid, tier, seed, replay=None, jobs_override=None, verbose=False):
    t0 = time.time()
    modname = "mc.props." + pid.lower()
    mod = importlib.import_module(modname)
    if replay:
        with open(replay) as f:
            art = json.load(f)
        jobs = [j for j in mod.jobs(art.get("tier", tier)) if jsonable(j) == art["job"]]
        if not jobs:
            print("replay: job not found in", tier)
            return 2
    else:
        jobs = mod.jobs(tier)
    serial = getattr(mod, "SERIAL", False)
    n_proc = min(int(os.environ.get("MC_PROCS", "8")), max(1, len(jobs)))
    results = []
    work = [(modname, j) for j in jobs]
    if serial or n_proc == 1:
        for w in work:
            results.append(exec_job(w))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(n_proc) as pool:
            for res in pool.imap_unordered(exec_job, work, chunksize=1):
                results.append(res)
    errs = [r for r in results if r["err"]]
    states = set()
    trans = traces = 0
    outcomes, samples, viols = {}, [], []
    for r in sorted(results, key=lambda r: repr(r["job"])):
        states |= r["states"]
        trans += r["transitions"]
        traces += r["traces"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        samples += r["samples"]
        for v in r["viol"]:
            viols.append((r["job"], v))
    known = load_known(pid)
    new = []
    seen_known = {}
    for job, v in viols:
        k = next((k for k in known if k["key"] == v["key"] and v["key"] is not None), None)
        if k is not None:
            seen_known[k["key"]] = k
        else:
            new.append((job, v))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    step = max(1, len(samples) // 8)
    cov = {"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
           "jobs": len(jobs), "outcomes": outcomes, "exhaustive": not viols and not errs,
           "samples": jsonable(samples[::step][:8])}
    if hasattr(mod, "BOUNDS"):
        cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: states=%d transitions=%d traces_validated=%d jobs=%d outcomes=%s wall=%.1fs" % (
        pid, tier, len(states), trans, traces, len(jobs), json.dumps(outcomes, sort_keys=True), time.time() - t0))
    if verbose:
        for r in sorted(results, key=lambda r: -r["t"])[:12]:
            print("   job %.1fs %s" % (r["t"], str(r["job"])[:150]))
    for r in errs[:3]:
        print("HARNESS-ERROR in job %r\n%s" % (r["job"], r["err"]), file=sys.stderr)
    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (job, v) in enumerate(new[:5]):
            path = os.path.join(d, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "job": jsonable(job), "what": v["what"], "key": v["key"],
                           "details": v["details"], "rerun": "./check.sh %s --replay %s" % (pid, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   %s | job=%s | %s" % (v["what"], str(job)[:200], json.dumps(v["details"])[:600]))
        if len(new) > 5:
            print("   ... and %d more violations" % (len(new) - 5))
        return 1
    if errs:
        return 2
    if not states or not trans:
        print("HARNESS-ERROR: vacuous run", file=sys.stderr)
        return 2
    return 0
