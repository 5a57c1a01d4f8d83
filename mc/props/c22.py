"""C22: the ANM6Easy task follows its fixed 24-hour cycle exactly."""
import copy
import itertools

import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all 96 start times; from each, a full day plus one step (wrap-around) under a rotating set of 6 extreme and idle actions, in lock-step with an "
                   "independently specified copy of the task; resets in mid-episode; 12 corners of the action space with a charged unit "
                   "applied twice at each time of day; an episode of 800 steps",
          "thorough": "as quick, with 3 action patterns per start time and two-day episodes"}
ASSUMPTIONS = ["the published time series and network are transcribed in this file and in zoo.py"]


def seg(a, b, n):
    return [a + (b - a) * k / (n - 1) for k in range(n)]


def day(*parts):
    """night 25, rise 7, plateau 13, rise 7, peak 13, fall 7, plateau 13, fall 7, night 4 quarter-hours."""
    n, r1, m, r2, p = parts
    return [n] * 25 + r1 + [m] * 13 + r2 + [p] * 13 + r2[::-1] + [m] * 13 + r1[::-1] + [n] * 4


SERIES = {1: day(-1.0, seg(-1.5, -4.5, 7), -5.0, seg(-4.625, -2.375, 7), -2.0),
          3: day(-4.0, seg(-4.75, -9.25, 7), -10.0, seg(-11.25, -18.75, 7), -20.0),
          5: day(0.0, seg(-3.125, -21.875, 7), -25.0, seg(-21.875, -3.125, 7), 0.0),
          2: day(0.0, seg(0.5, 3.5, 7), 4.0, seg(7.25, 36.75, 7), 30.0),
          4: day(40.0, seg(36.375, 14.625, 7), 11.0, seg(14.725, 36.375, 7), 40.0)}
PMAX = {2: 30.0, 4: 50.0}
QP = 0.2
TOL = 1e-6
QTOL = 2e-2  # MW, accuracy of the projections (1e-4 p.u. of 100 MVA)


def jobs(tier):
    return [("long", 0, tier), ("constants", 0, tier)] + [("day", k, tier) for k in range(32)]


def patterns(env, k):
    lo, hi = np.asarray(env.action_space.low, float), np.asarray(env.action_space.high, float)
    mid = (lo + hi) / 2
    alt = np.where(np.arange(6) % 2, lo, hi)
    acts = [np.zeros(6), 0.4 * hi, 0.3 * lo, mid, 0.3 * alt, 0.3 * (lo + hi - alt), 0.5 * hi + 0.1 * lo]
    s = (1, 3, 5)[k % 3]
    # extreme actions (which may make the network collapse) at the very end
    return lambda i: acts[(i * s + k) % len(acts)] if i < 97 or i % 97 > 3 else (hi, lo, alt)[(i + k) % 3]


def check_vars(R, obs, t, info):
    for d in (1, 3, 5):
        if abs(obs[d] - SERIES[d][t]) > TOL or abs(obs[7 + d] - QP * SERIES[d][t]) > TOL:
            R.fail("the demand differs from the published series", dev=d, t=t, got=(obs[d], obs[7 + d]), expected=(SERIES[d][t], QP * SERIES[d][t]), **info)
    for j, d in ((15, 2), (16, 4)):
        if abs(obs[j] - min(SERIES[d][t], PMAX[d])) > TOL:
            R.fail("the available generation differs from the published series", dev=d, t=t, got=obs[j], expected=min(SERIES[d][t], PMAX[d]), **info)
    R.check(obs[17] == t, "the time of day is wrong", t=t, got=obs[17], **info)
    R.check(-QTOL <= obs[14] <= 100 + QTOL, "the state of charge is out of its limits", got=obs[14], **info)
    for d, q in ((2, 30), (4, 50)):
        R.check(-QTOL <= obs[d] <= min(SERIES[d][t], PMAX[d]) + QTOL and abs(obs[7 + d]) <= q + QTOL, "a generator injection is out of its limits", dev=d,
                got=(obs[d], obs[7 + d]), t=t, **info)
    R.check(len(obs) == 18, "the observation is not the full state", got=len(obs), **info)


def full(sim_state):
    return canon({q: {i: {u: sim_state[q][i][u] for u in sim_state[q][i]} for i in sim_state[q]} for q in sim_state}, 4)


def flat(st):
    out = []
    for q in sorted(st):
        for i in st[q]:
            for u in sorted(st[q][i], key=str):
                out.append((q, i, u, float(st[q][i][u])))
    return out


def corners(env, found, R):
    """From each start time, after charging the unit for three steps: every combination of extreme active set-points, twice in a row; the cycle goes on whatever the state of the grid."""
    lo, hi = np.asarray(env.action_space.low, float), np.asarray(env.action_space.high, float)
    for t0, s in sorted(found.items()):
        env.reset(seed=s)
        for k in (1, 2, 3):
            obs, r, term, _, _ = env.step(np.array([hi[0], hi[1], 0, 0, 0.9 * lo[4], 0]))
            R.step()
            check_vars(R, obs, (t0 + k) % 96, {"seed": s, "t0": t0, "charging": k})
        R.check(obs[14] > 20, "three steps of charging leave the unit empty", t0=t0, soc=obs[14])
        for n, (g2, g4, d) in enumerate(itertools.product((0, 1), (0, 1), (0, 0.5, 1))):
            e = copy.deepcopy(env)
            a = np.array([g2 * hi[0], g4 * hi[1], 0, 0, lo[4] + d * (hi[4] - lo[4]), 0])
            a[2], a[3], a[5] = (hi, lo)[n % 2][2] * (n % 3) / 4, (lo, hi)[n % 2][3] * (n % 5) / 8, (hi, lo)[n % 2][5] * (n % 4) / 8
            for k in (1, 2, 3):
                obs, r, term, _, _ = e.step(a)
                R.step()
                if term:
                    R.outcome("collapse in a corner")
                    break
                check_vars(R, obs, (t0 + 3 + k) % 96, {"seed": s, "t0": t0, "action": a, "step": k})
                R.state("corner", t0, n, k, canon(obs, 5))
                if k == 2:
                    a = np.zeros(6)
            R.trace()
    R.outcome("corners")


def run_job(job, R):
    from gym_anm.envs import ANM6Easy

    kind, part, tier = job
    env = ANM6Easy()
    if kind == "constants":
        for _ in range(2):
            R.step()
            R.state("constants", env.delta_t)
            R.trace()
            R.check(env.delta_t == 0.25 and env.gamma == 0.995 and env.lamb == 100 and env.K == 1 and tuple(env.costs_clipping) == (1, 100),
                    "the parameters of the task are wrong", got=(env.delta_t, env.gamma, env.lamb, env.K, env.costs_clipping))
            lo, hi = env.action_space.low, env.action_space.high
            R.close(lo, [0, 0, -30, -50, -50, -50], 1e-9, "action bounds of the task")
            R.close(hi, [30, 50, 30, 50, 50, 50], 1e-9, "action bounds of the task")
            inf = np.inf
            R.close(env.observation_space.low, [-200, -10, 0, -30, 0, -30, -50, -200, -2, -30, -6, -50, -6, -50, 0, 0, 0, 0], 1e-9, "observation bounds of the task")
            R.close(env.observation_space.high, [200, 0, 30, 0, 50, 0, 50, 200, 0, 30, 0, 50, 0, 50, 100, 30, 50, 95], 1e-9, "observation bounds of the task")
            env.reset(seed=3)
        return
    if kind == "long":
        n = 800 if tier == "quick" else 3000
        obs, _ = env.reset(seed=11)
        t0 = int(round(obs[17]))
        hi = np.asarray(env.action_space.high, float)
        for k in range(1, n + 1):
            a = np.array([0.3, 0.2, 0.1, -0.1, (0.2, -0.3, 0.1)[k % 3], 0.05]) * hi
            obs, r, term, trunc, _ = env.step(a)
            R.step()
            if term:
                R.fail("a gentle episode ends", step=k)
                return
            check_vars(R, obs, (t0 + k) % 96, {"t0": t0, "step": k, "kind": "long"})
            R.state("long", k, canon(obs, 5))
        R.trace()
        R.outcome("long")
        return
    # All start times t0 = part (mod 32), each reached by some seeded reset.
    want = set(range(part, 96, 32))
    found = {}
    for s in range(3000):
        obs, _ = env.reset(seed=s)
        t = int(round(obs[17]))
        R.step()
        if t in want and t not in found:
            found[t] = s
        if len(found) == len(want):
            break
        if not (obs[17] == int(obs[17]) and 0 <= obs[17] <= 95):
            R.fail("the start time is not one of the 96 quarter-hours", got=obs[17], seed=s)
    missing = want - set(found)
    if missing:
        R.fail("start times never drawn in 3000 seeded resets", missing=sorted(missing))
    rn = RNet(zoo.get("anm6"))
    sim = zoo.sim("anm6")
    corners(env, found, R)
    for t0, s in sorted(found.items()):
        for pat in range(1 if tier == "quick" else 3):
            obs, _ = env.reset(seed=s)
            info = {"seed": s, "t0": t0, "pattern": pat, "step": 0}
            check_vars(R, obs, t0, info)
            for d in (2, 4):
                R.check(abs(obs[d] - min(SERIES[d][t0], PMAX[d])) < 15.01 + QTOL, "generator injections do not start near the available generation", got=obs[d], t=t0, **info)
            sim.reset(np.asarray(obs, float)[:17])
            act = patterns(env, t0 + pat)
            T = 100 if tier == "quick" else 194
            for k in range(1, T):
                a = act(k)
                obs, r, term, trunc, _ = env.step(a)
                t = (t0 + k) % 96
                info["step"] = k
                R.step()
                R.state(t0, k, pat, canon(obs, 5))
                # lock-step with the independently specified network
                _, r2, e2, p2, ok = sim.transition({d: SERIES[d][t] for d in (1, 3, 5)}, {d: SERIES[d][t] for d in (2, 4)},
                                                   {2: a[0], 4: a[1], 6: a[4]}, {2: a[2], 4: a[3], 6: a[5]})
                if term != (not ok):
                    R.fail("termination differs from that of the published network", got=term, expected=not ok, **info)
                if term:
                    R.outcome("collapse")
                    break
                check_vars(R, obs, t, info)
                e2, p2 = float(np.clip(e2, -1, 1)), min(p2, 100.0)
                R.close([env.e_loss, env.penalty, r], [e2, p2, -(e2 + p2)], 1e-3 * (1 + abs(p2)), "costs differ from those of the published network", **info)
                A, B = flat(env.simulator.state), flat(sim.state)
                keys = {x[:3]: x[3] for x in B}
                for q, i, u, v in A:
                    if q != "aux" and (q, i, u) in keys and abs(v - keys[(q, i, u)]) > 0.02 + 1e-3 * abs(v) and "ang" not in q:
                        R.fail("the state differs from that of the published network", quantity=q, id=i, unit=u, got=v, expected=keys[(q, i, u)], **info)
                        break
                R.trace()
            R.outcome("days")
            R.sample("seed %d starts at t=%d, after %d steps t=%d, soc=%.3f" % (s, t0, k, t, obs[14]))
    # a reset in mid-episode starts a new cycle
    for s in range(part * 3, part * 3 + 3):
        env.reset(seed=s)
        t1 = int(env.state[-1])
        for k in range(5):
            env.step(np.zeros(6))
        obs, _ = env.reset()
        t2 = int(obs[17])
        check_vars(R, obs, t2, {"seed": s, "after": "second reset"})
        obs, *_ = env.step(np.zeros(6))
        check_vars(R, obs, (t2 + 1) % 96, {"seed": s, "after": "second reset"})
        R.state("mid", s, t1, t2)
        R.step()
