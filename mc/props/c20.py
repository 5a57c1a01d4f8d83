"""C20: MPC forecasts are aligned with the future the environment will realize."""
import copy

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
H_QUICK = (1, 2, 3, 4, 7, 24, 48, 95, 96, 97, 98, 191, 192, 193, 200)
BOUNDS = {"quick": "perfect forecasts: every time of day (whole-day trajectories from several starts, and directly after 100 seeded resets) x horizons %s, compared "
                   "with the next 200 realized steps; constant forecasts: 10 networks x scenarios x 2 charges x walks x horizons 1-6" % (H_QUICK,),
          "thorough": "every time of day x every horizon 1-200 and 300, 500; 400 seeded resets; longer walks"}
ASSUMPTIONS = ["forecasts of the available generation may be given before or after clipping to the generator's limits (as the optimization clips them)"]
LIM = {"gen": (30.0, 50.0)}


def jobs(tier):
    out = [("day", s, tier) for s in range(7 if tier == "quick" else 20)]
    out += [("resets", k, tier) for k in range(8)]
    for n in zoo.NETS:
        out.append(("constant", n, tier))
    return out


def agent(kind, env, n, margin=0.9):
    from gym_anm.agents import MPCAgentConstant, MPCAgentPerfect

    return (MPCAgentPerfect if kind == "perfect" else MPCAgentConstant)(env.simulator, env.action_space, env.gamma, margin, n)


def horizons(tier):
    return H_QUICK if tier == "quick" else tuple(range(1, 201)) + (300, 500)


ZERO6 = np.zeros(6)


def realize(env, n):
    """The demands and available generations of the next n steps (p.u.), by running a copy of the environment's task."""
    out = []
    for _ in range(n):
        obs, _, term, _, _ = env.step(ZERO6)
        if term:
            return None
        out.append([obs[1], obs[3], obs[5], obs[15], obs[16]])
    return np.array(out).T / 100.0


def check_forecast(R, got, want, t, N, info):
    """got: (loads, gens) forecasts; want: realized (5, >= N)."""
    L, G = (np.asarray(x, float) for x in got)
    R.step()
    R.trace()
    if L.shape != (3, N) or G.shape != (2, N):
        R.fail("forecasts have the wrong shape", shapes=(L.shape, G.shape), horizon=N, **info)
        return
    w = want[:, :N]
    if np.abs(L - w[:3]).max() > 1e-9:
        R.fail("forecast demand differs from what the task realizes", t=t, horizon=N, got=L, expected=w[:3], **info)
    lim = np.array([[0.3], [0.5]])
    if np.abs(np.minimum(G, lim) - w[3:]).max() > 1e-9:
        R.fail("forecast generation differs from what the task realizes", t=t, horizon=N, got=G, expected=w[3:], **info)


def run_day(seed, tier, R):
    from gym_anm.envs import ANM6Easy

    env, twin = ANM6Easy(), ANM6Easy()
    o1, _ = env.reset(seed=seed)
    o2, _ = twin.reset(seed=seed)
    hs = [h for h in horizons(tier)]
    agents = {h: agent("perfect", env, h) for h in hs}
    const = agent("constant", env, 5)
    series = []  # realized p.u. values of each step
    pending = []
    T = 97 + max(h for h in hs if h <= 200)
    for k in range(T + 1):
        t = int(o1[-1])
        R.state("day", seed, k, t)
        series.append(np.array([o1[1], o1[3], o1[5], o1[15], o1[16]]) / 100.0)
        if k <= 97:
            for h in hs:
                if h > 200:
                    continue
                f = agents[h].forecast(env)
                pending.append((k, t, h, [np.array(x, float) for x in f]))
                for x in f:  # a caller may scribble on the forecast
                    try:
                        x[...] = 777.0
                    except (ValueError, TypeError):
                        pass
            L, G = const.forecast(env)
            R.check(np.abs(np.asarray(L, float) - series[-1][:3, None]).max() < 1e-9 and np.abs(np.asarray(G, float) - series[-1][3:, None]).max() < 1e-9,
                    "constant forecast differs from the observed values", t=t, step=k)
        if k < T:
            o1, r1, d1, _, _ = env.step(ZERO6)
            o2, r2, d2, _, _ = twin.step(ZERO6)
            R.step()
            R.check(np.array_equal(o1, o2) and r1 == r2 and d1 == d2, "forecasting changed the environment's behaviour", step=k, seed=seed)
            if d1:
                R.fail("the idle day terminated", step=k, seed=seed)
                return
    S = np.array(series).T
    for k, t, h, f in pending:
        check_forecast(R, f, S[:, k + 1:k + 1 + h], t, h, {"seed": seed, "step": k})
    R.outcome("times of day", 97)
    R.sample("day from seed %d: t=%d horizon=%d load forecast %s..." % (seed, pending[7][1], pending[7][2], np.round(pending[7][3][0][:, :3], 4).tolist()))


def run_resets(part, tier, R):
    from gym_anm.envs import ANM6Easy

    env = ANM6Easy()
    ref = ANM6Easy()
    # The realized cycle, as observed on a separate environment: value at each time of day.
    o, _ = ref.reset(seed=1)
    cyc = {}
    for _ in range(97):
        cyc[int(o[-1])] = np.array([o[1], o[3], o[5], o[15], o[16]]) / 100.0
        o, _, _, _, _ = ref.step(ZERO6)
    R.check(len(cyc) == 96, "a day does not visit 96 quarter-hours", got=len(cyc))
    hs = (1, 5, 96, 97, 200, 500) if tier == "quick" else (1, 2, 5, 50, 95, 96, 97, 200, 300, 500)
    agents = {h: agent("perfect", env, h) for h in hs}
    for s in range(part, 104 if tier == "quick" else 400, 8):
        o, _ = env.reset(seed=s)
        t = int(o[-1])
        R.state("reset", s, t)
        for h in hs:
            want = np.array([cyc[(t + 1 + j) % 96] for j in range(h)]).T
            check_forecast(R, agents[h].forecast(env), want, t, h, {"seed": s, "after": "reset"})
        R.outcome("resets")


def run_constant(name, tier, R):
    nt = zoo.NETS[name]
    rn = RNet(zoo.get(name))
    acts = None
    for start in range(len(nt["scen"])):
        scen = nt["scen"][start:] + nt["scen"][:start]
        for frac in (0.2, 1.0):
            env = zoo.env(name, scen=scen, soc_frac=frac)
            twin = zoo.env(name, scen=scen, soc_frac=frac)
            obs, _ = env.reset(seed=0)
            twin.reset(seed=0)
            acts = X.env_actions(rn, env, "two", 3 if tier == "quick" else 8)
            ags = [agent("constant", env, n) for n in (1, 2, 3, 6)]
            for k in range(3 if tier == "quick" else 10):
                nd, ng = len(rn.devs), len(rn.gens)
                ids = [d.id for d in rn.devs]
                loads = np.array([obs[ids.index(d.id)] for d in rn.loads]) / rn.base
                gens = np.array([obs[2 * nd + len(rn.des) + j] for j in range(ng)]) / rn.base
                R.state("constant", name, start, frac, canon(obs))
                for a in ags:
                    L, G = (np.array(x, float) for x in a.forecast(env))
                    N = a.planning_steps
                    R.step()
                    R.trace()
                    for what, got, want in (("demand", L, loads), ("generation", G, gens)):
                        if got.size != want.size * N or (want.size and (got.shape != (want.size, N) or np.abs(got - want[:, None]).max() > 1e-9)):
                            R.fail("constant %s forecast differs from the observed values" % what, net=name, horizon=N, got=got, expected=want)
                a = acts[k % len(acts)]
                obs, r1, d1, _, _ = env.step(a)
                o2, r2, d2, _, _ = twin.step(a)
                R.step()
                R.check(np.array_equal(obs, o2) and r1 == r2 and d1 == d2, "forecasting changed the environment's behaviour", net=name, step=k)
                if d1:
                    break
    R.outcome("networks with constant forecasts")


def run_job(job, R):
    if job[0] == "day":
        run_day(job[1], job[2], R)
    elif job[0] == "resets":
        run_resets(job[1], job[2], R)
    else:
        run_constant(job[1], job[2], R)
