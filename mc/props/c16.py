"""C16: sampled demand, generation and auxiliary variables reach the right places."""
import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks x K in {0, 1, 3}: orthogonal arrays (strength 2) of 7 values per internal variable, 3 observation kinds; every wrong "
                   "size from 0 to N + 3 of both functions at each of 4 positions",
          "thorough": "11 values per variable, several histories, all K from 0 to 4"}
ASSUMPTIONS = ["tolerance 1e-9 p.u.: no optimizer is involved for these quantities"]
F = [0.3, 0.9, -0.5, 1.6, 0.0, 1.0, 0.62, 0.11, -3.0, 0.47, 5.0]


def jobs(tier):
    out = []
    for n in zoo.NETS:
        for K in ((0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
            for o in ("state", "list", "call"):
                if o == "list" and K == 0 and n in ("passive",):
                    pass
                out.append({"kind": "values", "net": n, "K": K, "obs": o, "m": 7 if tier == "quick" else 11, "thin": 2 if tier == "quick" else 1})
            out.append({"kind": "sizes", "net": n, "K": K})
    return out


def lim(v, d):
    return v if np.isfinite(v) else d


def vector(rn, r, c, m, K):
    """Internal variables (MW) of row r, column c of the orthogonal array, and what is expected in the state (MW)."""
    out, want = [], []
    items = rn.loads + rn.gens
    for i, d in enumerate(items):
        f = F[(r + (i + 1) * c) % m]
        lo, hi = lim(d.pmin, -1.1), lim(d.pmax, 1.1)
        p = lo + f * (hi - lo)
        out.append(p * rn.base)
        want.append(min(max(p, d.pmin), d.pmax) * rn.base)
    aux = [100.0 * (k + 1) + 7 * r - 3.5 * c for k in range(K)]
    return np.array(out + aux, float), want, aux


def make(name, K, obs, log):
    """Environment whose internal variables are given by log['next'] and which records its calls."""
    from gym_anm.envs import ANMEnv
    net = zoo.NETS[name]
    rn = RNet(net["raw"])
    if obs == "list":
        spec = []
        if rn.gens:
            spec.append(("gen_p_max", "all", "MW"))
        if K:
            spec.append(("aux", "all"))
        spec.append(("dev_p", "all", "MW"))
        if K:
            spec.append(("aux", [K - 1, 0]))
    elif obs == "call":
        spec = lambda s: np.array(s, float)[::-1].copy()  # noqa: E731
    else:
        spec = "state"

    class E(ANMEnv):
        def init_state(self):
            log["init"] += 1
            s = zoo.s0(rn, net["scen"][0], 0.4, [1.0 + k for k in range(K)])
            return s if log["size0"] is None else np.resize(s, log["size0"])

        def next_vars(self, s_t):
            log["calls"].append(np.array(s_t, float).copy())
            v = log["next"]
            return v.copy() if log["size"] is None else np.resize(v, log["size"])

    env = E(zoo.arrays(net["raw"]), spec, K, net["dt"], 0.9, net["lamb"], None, None, 1)
    return env, rn


def new_log():
    return {"init": 0, "calls": [], "next": None, "size": None, "size0": None}


def state_pos(rn, K):
    names = rn.state_names(K)
    return ([names.index(("dev_p", d.id)) for d in rn.loads], [names.index(("gen_p_max", d.id)) for d in rn.gens],
            [names.index(("aux", k)) for k in range(K)])


def job_values(job, R):
    K, m = job["K"], job["m"]
    log = new_log()
    env, rn = make(job["net"], K, job["obs"], log)
    obs, _ = env.reset()
    R.check(log["init"] == 1, "a reset samples more than one initial state", calls=log["init"])
    R.close(np.asarray(env.state, float)[len(env.state) - K:] if K else [], [1.0 + k for k in range(K)], 0, "initial auxiliary variables are misplaced")
    lo, hi = env.action_space.low, env.action_space.high
    acts = X.env_actions(rn, env, "two", 5)
    pl, pg, pa = state_pos(rn, K)
    k = 0
    for r in range(m):
        for c in range(m):
            k += 1
            if (r + c) % job["thin"]:
                continue
            v, want, aux = vector(rn, r, c, m, K)
            log["next"] = v
            before, calls = np.array(env.state, float), len(log["calls"])
            o, rew, term, _, _ = env.step(acts[k % len(acts)])
            R.step()
            ctx = dict(net=job["net"], K=K, variables=v, array=(r, c))
            R.check(len(log["calls"]) == calls + 1, "the internal variables are not sampled exactly once per step", calls=len(log["calls"]) - calls, **ctx)
            R.close(log["calls"][-1], before, 0, "the state passed to next_vars is not the current state vector", **ctx)
            R.state(job["net"], K, job["obs"], r, c)
            if term:
                env.reset()
                R.outcome("collapsed")
                continue
            s = np.array(env.state, float)
            t = 1e-9 * rn.base
            nl = len(rn.loads)
            R.close(s[pl], want[:nl], t, "a demand is not at its place in the state", **ctx)
            R.close(s[pg], want[nl:], t, "an available generation is not at its place in the state", **ctx)
            R.close(s[pa], aux, 0, "an auxiliary variable is not at its place in the state", **ctx)
            st = env.simulator.state
            R.close([st["dev_p"]["MW"][d.id] for d in rn.loads], want[:nl], t, "the simulator does not apply the sampled demand", **ctx)
            R.close([st["dev_q"]["MVAr"][d.id] for d in rn.loads], [w * d.qp for w, d in zip(want, rn.loads)], t * 10, "reactive demand is not at the fixed ratio", **ctx)
            R.close([st["gen_p_max"]["MW"][d.id] for d in rn.gens], want[nl:], t, "the simulator does not apply the sampled generation", **ctx)
            names = rn.state_names(K)
            full = [st["dev_p"]["MW"][d.id] for d in rn.devs] + [st["dev_q"]["MVAr"][d.id] for d in rn.devs] + \
                   [st["des_soc"]["MWh"][d.id] for d in rn.des] + [st["gen_p_max"]["MW"][d.id] for d in rn.gens] + list(aux)
            R.close(s, full, t, "the state vector is not [P, Q, charge, available generation, auxiliaries] of the devices by id", names=names, **ctx)
            o = np.asarray(o, float)
            if job["obs"] == "list":
                exp = want[nl:] + aux + [st["dev_p"]["MW"][d.id] for d in rn.devs] + ([aux[-1], aux[0]] if K else [])
                w = np.clip(np.array(exp, float), env.observation_space.low, env.observation_space.high)
                R.close(o, w, t, "the observation does not hold the sampled variables", **ctx)
            elif job["obs"] == "call":
                R.close(o, s[::-1], 0, "the observation function is not applied to the current state", **ctx)
            else:
                R.close(o, np.clip(s, env.observation_space.low, env.observation_space.high), 0, "the observation is not the state", **ctx)
            R.outcome("placed")
    R.trace()
    R.sample({"net": job["net"], "K": K, "variables": log["next"], "state": env.state})


def snap(env):
    return (canon(np.asarray(env.state, float), 13), env.timestep, bool(env.terminated), canon(env.e_loss, 13), canon(env.penalty, 13),
            repr(env.np_random.bit_generator.state),
            canon({q: {u: list(v.values()) for u, v in d.items()} for q, d in env.simulator.state.items()}, 13))


def job_sizes(job, R):
    from gym_anm.errors import EnvInitializationError, EnvNextVarsError
    K = job["K"]

    def run(poke):
        log = new_log()
        env, rn = make(job["net"], K, "state", log)
        n0 = 2 * len(rn.devs) + len(rn.des) + len(rn.gens) + K
        n1 = len(rn.loads) + len(rn.gens) + K
        out = []
        acts = X.env_actions(rn, env, "two", 4)
        for size in list(range(0, n0 + 4)) if poke else []:
            if size == n0:
                continue
            log["size0"] = size
            try:
                env.reset(seed=size)
                R.fail("an initial state of the wrong size is accepted", size=size, expected=n0, net=job["net"], K=K)
            except EnvInitializationError:
                R.outcome("initial state refused")
            R.step()
            R.state(job["net"], K, "init", size)
        log["size0"] = None
        o, _ = env.reset(seed=3)
        out.append(canon(o, 13))
        for pos in range(4):
            log["next"] = vector(rn, 4, pos, 7, K)[0]
            if poke and not env.terminated:
                for size in range(0, n1 + 4):
                    if size == n1:
                        continue
                    log["size"] = size
                    b = snap(env)
                    try:
                        env.step(acts[pos % len(acts)])
                        R.fail("internal variables of the wrong size are accepted", size=size, expected=n1, net=job["net"], K=K, position=pos)
                    except EnvNextVarsError:
                        R.outcome("variables refused")
                    R.step()
                    R.state(job["net"], K, pos, size)
                    R.check(snap(env) == b, "refused internal variables change the episode", size=size, net=job["net"], position=pos)
                log["size"] = None
            o, r, t, _, _ = env.step(acts[pos % len(acts)])
            R.step()
            out.append((canon(o, 13), canon(r, 13), bool(t), env.timestep))
        if poke:  # failing resets in mid-episode, then a normal one
            for size in (0, n0 - 1, n0 + 1):
                log["size0"] = size
                try:
                    env.reset()
                    R.fail("an initial state of the wrong size is accepted", size=size, expected=n0)
                except EnvInitializationError:
                    pass
            log["size0"] = None
        o, _ = env.reset(seed=8)
        out.append(canon(o, 13))
        o, r, t, _, _ = env.step(acts[0])
        out.append((canon(o, 13), canon(r, 13), bool(t), env.timestep))
        return out

    a, b = run(False), run(True)
    R.check(a == b, "refused vectors change the behaviour of the environment", net=job["net"], K=K, got=b, expected=a)
    R.trace()


def run_job(job, R):
    {"values": job_values, "sizes": job_sizes}[job["kind"]](job, R)
