"""C10: a collapsed network is an absorbing terminal state until the next reset."""
import copy
import itertools

import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all sequences of up to 4 operations from {2 safe actions, 2 collapsing actions, reset, refused action} on 3 observation "
                   "kinds; 19 reward configurations; deterministic and stochastic tasks; "
                   "130 steps in the terminal state, episodes of 100 steps",
          "thorough": "all sequences of up to 6 operations; all (clipping, gamma) configurations with 2 collapse causes"}
ASSUMPTIONS = ["whether an operation collapses the network is decided by C03; here its consequences are checked"]
SCEN = [{1: -2, 2: 5}, {1: -4, 2: 10}]
OBS = {"state": "state", "list": [("bus_v_magn", "all"), ("dev_p", [3, 1], "pu"), ("aux", "all"), ("branch_s", [(0, 1)])],
       "call": lambda s: np.concatenate([s[:3], [7.0, s[-1]]])}
GC = [(g, c) for g in (0, 0.5, 0.9, 0.995, 1) for c in (None, 0, 3.5, 100) if not (g == 1 and c == 0)]


def jobs(tier):
    out = []
    for o in OBS:
        for first in range(5):
            for K in ((1,) if tier == "quick" else (0, 1, 2)):
                if o == "list" and K == 0:
                    continue
                out.append({"kind": "tree", "obs": o, "first": first, "depth": 4 if tier == "quick" else 6, "K": K})
    for k in range(len(GC)):
        out.append({"kind": "reward", "gc": k})
    for seed in range(4 if tier == "quick" else 12):
        out.append({"kind": "stoch", "seed": seed})
    for o in OBS:
        out.append({"kind": "deep", "obs": o, "n": 130 if tier == "quick" else 1000})
    return out


RN = RNet(zoo.NETS["weak"]["raw"])


def actions():
    # P gen, Q gen, P storage, Q storage
    return {"s1": np.array([8.0, 0.0, 0.0, 0.0]), "s2": np.array([20.0, 3.0, 5.0, -1.0]),
            "c1": np.array([0.0, -15.0, -30.0, -10.0]), "c2": np.array([0.0, 0.0, -30.0, 0.0])}


OPS = ["s1", "c1", "s2", "c2", "reset", "bad"]
BAD = [np.array([0.0, 0.0, -31.0, 0.0]), np.array([0.0, np.nan, 0.0, 0.0]), np.zeros(3)]


def make(obs, K, **k):
    return zoo.env("weak", scen=SCEN, observation=OBS[obs], K=K, soc_frac=0.3, **k)


def apply(env, op):
    """Execute an operation; returns a canonical result."""
    if op == "reset":
        o, i = env.reset()
        return ("reset", canon(o, 9), i == {})
    if op == "bad":
        for b in BAD:
            try:
                env.step(b)
            except Exception:
                continue
            return ("accepted",)
        return ("refused",)
    o, r, term, trunc, info = env.step(actions()[op])
    return ("step", canon(o, 9), canon(r, 9), bool(term), bool(trunc), info == {})


def rng(env):
    return repr(env.np_random.bit_generator.state)


def tree(job, R):
    c2, gamma = 40.0, 0.9
    base = make(job["obs"], job["K"], gamma=gamma, costs_clipping=(5, c2))
    base.reset(seed=1)
    clean = {(): (copy.deepcopy(base), None)}  # behaviour of an environment that was never collapsed before its last reset

    def clean_result(suffix):
        if suffix not in clean:
            env, _ = clean_env(suffix[:-1])
            env = copy.deepcopy(env)
            clean[suffix] = (env, apply(env, suffix[-1]))
        return clean[suffix][1]

    def clean_env(suffix):
        if suffix not in clean:
            clean_result(suffix)
        return clean[suffix]

    def rec(env, hist, suffix, dead):
        todo = [OPS[job["first"]]] if not hist else OPS
        for op in todo:
            e = copy.deepcopy(env)
            h = hist + [op]
            n0, g0, s0, t0 = e.n_next, rng(e), np.array(e.state, float), e.timestep
            res = apply(e, op)
            R.step()
            suf, dd = suffix, dead
            ctx = dict(history=h, result=res)
            if op == "reset":
                suf, dd = (), False
                R.check(e.timestep == 0 and not e.terminated, "a reset does not start a fresh episode", **ctx)
            elif op == "bad":
                R.check(res == ("refused",), "an invalid action was accepted", **ctx)
                R.check(e.n_next == n0 and rng(e) == g0 and np.array_equal(np.array(e.state, float), s0), "a refused action changed the environment", **ctx)
            elif dead:
                R.check(res[3] is True, "a step after a collapse does not report termination", **ctx)
                R.check(res[2] == 0, "a step after a collapse has a non-zero reward", **ctx)
                R.check(all(v == 0 for v in res[1]) and len(res[1]) == e.observation_N, "the observation after a collapse is not zero", **ctx)
                R.check(e.n_next == n0 and rng(e) == g0, "a step after a collapse samples internal variables", **ctx)
                R.check(not np.any(np.asarray(e.state, float)) and len(e.state) == e.state_N, "the state after a collapse is not zero", **ctx)
                R.check(e.timestep == t0, "a step after a collapse advances the step count", **ctx)
            else:
                suf = suffix + (op,)
                want = clean_result(suf)
                R.check(res == want, "behaviour after a reset depends on what happened before it", expected=want, **ctx)
                if res[3]:
                    dd = True
                    R.check(abs(res[2] + c2 / (1 - gamma)) < 1e-9 * c2 / (1 - gamma), "wrong reward of the collapsing step", **ctx)
                    R.check(all(v == 0 for v in res[1]) and len(res[1]) == e.observation_N, "the observation of a collapse is not zero", **ctx)
                    R.check(not np.any(np.asarray(e.state, float)) and len(e.state) == e.state_N, "the state of a collapse is not zero", **ctx)
                    R.outcome("collapse")
                else:
                    R.check(op[0] == "s", "a collapsing action did not collapse (harness)", **ctx)
                    R.outcome("alive")
                R.check(e.n_next == n0 + 1, "a step does not sample the internal variables exactly once", **ctx)
            R.check(bool(e.terminated) == dd, "the termination status is wrong", **ctx)
            R.state(job["obs"], job["K"], dd, suf, res)
            if len(h) < job["depth"]:
                rec(e, h, suf, dd)
            else:
                R.trace()

    rec(base, [], (), False)
    R.sample({"observation": job["obs"], "first": OPS[job["first"]], "depth": job["depth"]})


def run_job(job, R):
    if job["kind"] == "tree":
        return tree(job, R)
    if job["kind"] == "stoch":
        return stoch(job, R)
    if job["kind"] == "deep":
        return deep(job, R)
    gamma, c2 = GC[job["gc"]]
    for cause, k in itertools.product(("c1", "c2"), range(3)):
        env = make("state", 1, gamma=gamma, costs_clipping=(None, c2) if k else ((2, c2) if c2 is not None else None))
        env.reset()
        for _ in range(k):
            _, r, term, _, _ = env.step(actions()["s1"])
            R.check(not term and np.isfinite(r), "a safe step terminates or has an infinite reward", gamma=gamma, c2=c2)
            R.step()
        o, r, term, _, _ = env.step(actions()[cause])
        R.step()
        big = np.inf if c2 is None else c2
        want = -np.inf if gamma == 1 or c2 is None else -big / (1 - gamma)
        ok = term and (r == want or abs(r - want) <= 1e-9 * abs(want))
        R.check(ok, "the reward of a collapse is not -c2 / (1 - gamma)", reward=r, expected=want, gamma=gamma, c2=c2)
        for a in ("c1", "s2", "s1"):
            o, r, term, _, _ = env.step(actions()[a])
            R.step()
            R.check(term and r == 0 and not np.any(o), "an absorbed step is not (0, 0, terminated)", reward=r, gamma=gamma, c2=c2)
        R.state(gamma, c2, cause, k)
        R.trace()
    R.outcome("reward configurations")


def deep(job, R):
    """A long time in the terminal state, then long episodes."""
    env, twin = (make(job["obs"], 1, gamma=0.9, costs_clipping=(5, 40.0)) for _ in range(2))
    env.reset(seed=1)
    twin.reset(seed=1)
    for rnd in range(3):
        for i in range((3, 100, 0)[rnd]):
            op = ("s1", "s2", "s2", "bad")[i % 4]
            a = apply(env, op)
            R.step()
            R.check(a[0] == "refused" or not a[3], "an episode terminates without a collapse", step=i)
        R.check(apply(env, "c1")[3] is True, "a collapsing action did not collapse (harness)")
        n0, g0, t0 = env.n_next, rng(env), env.timestep
        for i in range(job["n"]):
            res = apply(env, ("s1", "c1", "s2", "c2", "bad")[i % 5])
            R.step()
            ok = res == ("refused",) if i % 5 == 4 else res[3] is True and res[2] == 0 and all(v == 0 for v in res[1]) and len(res[1]) == env.observation_N
            R.check(ok, "a step long after a collapse is not absorbed", result=res, steps_after=i)
            R.check(env.n_next == n0 and rng(env) == g0 and env.timestep == t0 and not np.any(np.asarray(env.state, float)),
                    "a step long after a collapse changes the environment", steps_after=i)
        env.reset()
        twin.reset()
        for i in range(60):
            op = ("s1", "s2", "s2", "bad", "s1")[i % 5]
            a, b = apply(env, op), apply(twin, op)
            R.step()
            R.check(a == b, "behaviour after a reset depends on what happened before it", expected=b, result=a, step=i)
            R.state(job["obs"], "deep", rnd, i, a)
        env.reset()
        twin.reset()
        R.trace()
    R.outcome("long terminal phases")


def stoch(job, R):
    """The number of absorbed steps does not influence the random stream of the following episodes."""
    seqs = []
    for n in (0, 1, 2, 5):
        env = make("state", 1, stochastic=True)
        env.reset(seed=job["seed"])
        env.step(actions()["s1"])
        for _ in range(6):  # collapse (from any scenario)
            _, _, term, _, _ = env.step(actions()["c1"])
            R.step()
            if term:
                break
        R.check(term, "the network did not collapse (harness)")
        for k in range(n):
            env.step(actions()[("s1", "c2", "s2")[k % 3]])
            R.step()
        log = []
        o, _ = env.reset()
        log.append(canon(o, 9))
        for a in ("s1", "s2", "s1"):
            o, r, term, _, _ = env.step(actions()[a])
            R.step()
            log.append((canon(o, 9), canon(r, 9), bool(term)))
        o, _ = env.reset()
        log.append(canon(o, 9))
        seqs.append(log)
        R.state(job["seed"], n, log)
        R.check(log == seqs[0], "episodes after a collapse depend on the steps taken in the terminal state", absorbed=n)
        R.trace()
    R.outcome("stochastic")
