"""C21: MPC actions are first stages of optimal plans of the N-stage DC optimal power flow."""
import itertools

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "11 networks (meshed, gapped ids, without loads / generators / storage) x states (scenarios x 4 charges, and their successors under extreme actions) "
                   "x 6 configurations (stages 1-5, margins 1/0.9/0.5, discounts 0-1), with constant and with varying forecasts; perfect forecasts at times of day "
                   "of the daily task; an overload at stage 2..8 only, worth or not worth storing energy for at that stage's discount",
          "thorough": "24 configurations, more states, all 96 times of day"}
ASSUMPTIONS = ["the optimum is computed by scipy's HiGHS on an independent formulation; simultaneous charging and discharging is relaxed as documented in the "
               "convex formulation", "storage units with an efficiency of 0 are not planned"]
CONF = [(1, 0.9, 0.9), (2, 1.0, 0.5), (3, 0.5, 1.0), (5, 0.9, 0.99), (2, 0.7, 0.0), (4, 0.8, 0.8)]
CONF_T = [(n, m, g) for n in (1, 2, 4, 8) for m in (1.0, 0.9, 0.4) for g in (0.3, 0.995)]


def dcopf(rn, dt, lamb, margin, gamma, soc, loads, gens, fix=None, tol=0.0):
    """Optimal cost of the N-stage DC OPF (None if infeasible); fix: {dev id: p} of the first stage."""
    from scipy.optimize import linprog
    from scipy.sparse import lil_matrix

    nb, nd, ns, nl = len(rn.buses), len(rn.devs), len(rn.des), len(rn.branches)
    N = loads.shape[1] if loads.size else gens.shape[1]
    w = nb + nd + 2 * ns + nl
    nv = w * N
    bi = {b.id: i for i, b in enumerate(rn.buses)}
    di = {d.id: i for i, d in enumerate(rn.devs)}
    c = np.zeros(nv)
    lo, hi = np.full(nv, -np.inf), np.full(nv, np.inf)
    Aeq, beq, Aub, bub = [], [], [], []
    Y = rn.Y
    for k in range(N):
        th, pd, ch, dis, ov = k * w, k * w + nb, k * w + nb + nd, k * w + nb + nd + ns, k * w + nb + nd + 2 * ns
        for b in rn.buses:
            lo[th + bi[b.id]], hi[th + bi[b.id]] = (0, 0) if b.slack else (-np.pi, np.pi)
        li = gi = si = 0
        for d in rn.devs:
            v = pd + di[d.id]
            if d.is_load:
                lo[v] = hi[v] = loads[li, k]
                li += 1
            elif d.is_gen and not d.slack:
                lo[v], hi[v] = d.pmin, min(d.pmax, gens[gi, k])
                gi += 1
            elif d.is_des:
                lo[v], hi[v] = d.pmin, d.pmax
                Aeq.append({v: 1, dis + si: -1, ch + si: 1})
                beq.append(0.0)
                row = {}
                for j in range(k + 1):
                    row[j * w + nb + nd + si] = dt * d.eff
                    row[j * w + nb + nd + ns + si] = -dt / d.eff
                Aub.append(row)
                bub.append(d.socmax - soc[d.id])
                Aub.append({a: -x for a, x in row.items()})
                bub.append(soc[d.id] - d.socmin)
                si += 1
            if d.is_gen and not d.is_rer:
                c[v] += gamma ** k
        lo[ch:ch + 2 * ns] = 0
        for b in rn.buses:  # balance
            row = {}
            for d in rn.devs:
                if d.bus == b.id:
                    row[pd + di[d.id]] = row.get(pd + di[d.id], 0) - 1
            for br in rn.branches:
                for i, j in ((br.f, br.t), (br.t, br.f)):
                    if i == b.id:
                        B = Y[bi[i], bi[j]].imag
                        row[th + bi[i]] = row.get(th + bi[i], 0) + B
                        row[th + bi[j]] = row.get(th + bi[j], 0) - B
            Aeq.append(row)
            beq.append(0.0)
        for m, br in enumerate(rn.branches):
            lo[ov + m] = 0
            c[ov + m] = lamb * gamma ** k
            if np.isfinite(br.rate):
                B = Y[bi[br.f], bi[br.t]].imag
                for s in (1, -1):
                    Aub.append({th + bi[br.f]: s * B, th + bi[br.t]: -s * B, ov + m: -1})
                    bub.append(margin * br.rate)
    if fix:
        for i, p in fix.items():
            v = nb + di[i]
            lo[v], hi[v] = max(lo[v], p - tol), min(hi[v], p + tol)
            if lo[v] > hi[v]:
                return None

    def mat(rows):
        m = lil_matrix((len(rows), nv))
        for i, r in enumerate(rows):
            for j, x in r.items():
                m[i, j] = x
        return m.tocsr()

    res = linprog(c, A_ub=mat(Aub) if Aub else None, b_ub=bub or None, A_eq=mat(Aeq), b_eq=beq, bounds=np.column_stack((lo, hi)), method="highs")
    return res.fun if res.status == 0 else None


def verify(R, rn, env, agent, action, loads, gens, margin, gamma, info):
    """The action is inside the space, has idle reactive set-points, and starts an optimal plan."""
    base = rn.base
    sp = env.action_space
    action = np.asarray(action, float)
    R.step()
    if action.shape != sp.shape or not np.all(np.isfinite(action)) or np.any(action < sp.low - 1e-9) or np.any(action > sp.high + 1e-9):
        R.fail("the MPC action is outside the action space", action=action, low=sp.low, high=sp.high, **info)
        return
    g, s = [d.id for d in rn.gens], [d.id for d in rn.des]
    ng, ns = len(g), len(s)
    q = np.concatenate((action[ng:2 * ng], action[2 * ng + ns:]))
    ql, qh = np.concatenate((sp.low[ng:2 * ng], sp.low[2 * ng + ns:])), np.concatenate((sp.high[ng:2 * ng], sp.high[2 * ng + ns:]))
    R.check(np.all(np.abs(q - np.clip(0, ql, qh)) < 1e-9), "reactive set-points of the MPC action are not zero", action=action, **info)
    nd = len(rn.devs)
    st = np.asarray(env.state, float)
    soc = {i: st[2 * nd + k] / base for k, i in enumerate(s)}
    for d in rn.des:
        soc[d.id] = min(max(soc[d.id], d.socmin), d.socmax)
    args = (rn, env.delta_t, env.lamb, margin, gamma, soc, loads, gens)
    best = dcopf(*args)
    if best is None:
        R.outcome("infeasible plan")
        return
    p = {i: action[k] / base for k, i in enumerate(g)}
    p.update({i: action[2 * ng + k] / base for k, i in enumerate(s)})
    tolp = 2e-6
    mine = dcopf(*args, fix=p, tol=tolp)
    R.trace()
    N = loads.shape[1] if loads.size else gens.shape[1]
    tol = 2e-5 * (1 + abs(best)) + 1e-6 * (1 + env.lamb * len(rn.branches)) * N
    if mine is None:
        R.fail("the first stage of the MPC plan is infeasible in the DC optimal power flow", action=action, loads=loads, gens=gens, soc=soc, **info)
    elif mine - best > tol:
        R.fail("the MPC action is not part of an optimal plan", action=action, cost=mine, optimum=best, loads=loads, gens=gens, soc=soc, **info)
    R.outcome("optimal plan")


def snapshot(env):
    return (canon(env.state, 12), canon(env.simulator.state, 12), env.timestep, repr(env.np_random.bit_generator.state), canon(env.e_loss, 12), canon(env.penalty, 12))


def jobs(tier):
    nets = [n for n in zoo.NETS]
    conf = CONF if tier == "quick" else CONF_T
    out = []
    for n in nets:
        for c in conf:
            out.append(("const", n, c, tier))
        for c in conf[1:5] if tier == "quick" else [c for c in conf if c[0] > 1]:
            out.append(("vary", n, c, tier))
    for k in range(8):
        out.append(("perfect", k, tier))
    for k in range(1, 8 if tier == "quick" else 13):
        out.append(("late", k, tier))
    return out


def states(name, tier, K=1):
    """Reached environment states: (env, observation index of the scenario)."""
    nt = zoo.NETS[name]
    fr = (0.0, 0.3, 0.7, 1.0) if tier == "quick" else (0.0, 0.05, 0.3, 0.5, 0.7, 0.95, 1.0)
    for start in range(len(nt["scen"])):
        for f in fr:
            yield start, f


def forecaster(rn, scen, n):
    """A user-defined agent: the forecast follows the scenarios from the current one on."""
    from gym_anm.agents.mpc import MPCAgent

    class A(MPCAgent):
        def forecast(self, env):
            k = int(round(env.state[-1]))
            seq = [scen[(k + 1 + j) % len(scen)] for j in range(n)]
            clip = {d.id: (d.pmin, d.pmax) for d in rn.devs}

            def val(d, sc):
                return float(np.clip(sc.get(d.id, 0.0) / rn.base, *clip[d.id]))

            return (np.array([[val(d, sc) for sc in seq] for d in rn.loads]), np.array([[val(d, sc) for sc in seq] for d in rn.gens]))

    return A


def run_job(job, R):
    if job[0] == "perfect":
        return run_perfect(job, R)
    if job[0] == "late":
        return run_late(job, R)
    kind, name, (N, margin, gamma), tier = job
    nt = zoo.NETS[name]
    rn = RNet(zoo.get(name))
    reused = None
    info0 = {"net": name, "stages": N, "margin": margin, "gamma": gamma, "forecast": kind}
    for start, f in states(name, tier):
        scen = nt["scen"][start:] + nt["scen"][:start]
        env = zoo.env(name, scen=scen, soc_frac=f)
        env.reset(seed=0)
        if kind == "const":
            from gym_anm.agents import MPCAgentConstant as A
        else:
            A = forecaster(rn, scen, N)
        acts = X.env_actions(rn, env, "two", 2)
        if reused is None or kind == "vary":
            reused = A(env.simulator, env.action_space, gamma, safety_margin=margin, planning_steps=N)
        for k in range(3 if tier == "quick" else 5):
            info = dict(info0, scenario=start, charge=f, step=k)
            before = snapshot(env)
            agents = [("reused", reused)] + ([("fresh", A(env.simulator, env.action_space, gamma, margin, N))] if k == 2 else [])
            nd = len(rn.devs)
            st = env.state
            if kind == "const":
                ids = [d.id for d in rn.devs]
                loads = np.repeat(np.array([[st[ids.index(d.id)] / rn.base] for d in rn.loads]).reshape(len(rn.loads), 1), N, axis=1)
                gens = np.repeat(np.array([[st[2 * nd + len(rn.des) + j] / rn.base] for j in range(len(rn.gens))]).reshape(len(rn.gens), 1), N, axis=1)
            else:
                loads, gens = reused.forecast(env)
                loads, gens = np.array(loads).reshape(len(rn.loads), N), np.array(gens).reshape(len(rn.gens), N)
            a = None
            for label, ag in agents:
                a = ag.act(env)
                verify(R, rn, env, ag, a, loads, gens, margin, gamma, dict(info, agent=label))
            R.state(name, kind, N, margin, gamma, canon(st), start)
            R.check(snapshot(env) == before, "acting changed the environment", **info)
            # alternate the agent's own decision and extreme actions
            a = a if k % 2 == 0 else acts[k % len(acts)]
            _, _, term, _, _ = env.step(np.asarray(a))
            R.step()
            if term:
                break
    R.sample("%s %s N=%d margin=%s gamma=%s scenario %d charge %s -> %s" % (kind, name, N, margin, gamma, start, f, np.round(np.asarray(a, float), 4).tolist()))


def run_late(job, R):
    """An overload at one late stage: whether storing energy now pays for it depends on that stage's discount alone."""
    from gym_anm.agents.mpc import MPCAgent

    _, late, tier = job
    eff = 0.9
    raw = zoo.raw(1, [[0, 0, 10, 1.0, 1.0], [1, 1, 10, 1.2, 0.8]],
                  [[0, 0, 0, None, 100, -100, 100, -100] + [None] * 7, [1, 1, -1, 0.0, 0, -3, None, None] + [None] * 7,
                   [2, 1, 3, None, 3, -0.2, 1, -1, None, None, None, None, 30, 0, eff]],
                  [[0, 1, 1e-3, 0.01, 0, 1.0, 1, 0]])
    rn = RNet(raw)

    class A(MPCAgent):
        def forecast(self, env):
            loads = np.zeros((1, self.planning_steps))
            loads[0, late] = -2.5
            return loads, np.zeros((0, self.planning_steps))

    for gamma in (0.6, 0.85):
        for factor in (0.85, 1.2):
            lamb = factor / (gamma ** late * eff * eff) - 1
            for extra in (1, 3):
                N = late + extra
                for soc in (0.0, 0.01):
                    env = zoo.make_env(raw, [{1: -0.1}], 1.0, lamb, soc_frac=soc)
                    env.reset(seed=0)
                    ag = A(env.simulator, env.action_space, gamma, safety_margin=0.9, planning_steps=N)
                    loads, gens = ag.forecast(env)
                    a = ag.act(env)
                    info = {"net": "late", "stages": N, "event": late, "gamma": gamma, "lambda": lamb, "charge": soc}
                    verify(R, rn, env, ag, a, loads, gens, 0.9, gamma, info)
                    R.state("late", late, gamma, factor, extra, soc)
                    R.outcome("stores" if float(np.asarray(a, float)[0]) < -1e-3 else "does not store")


def run_perfect(job, R):
    from gym_anm.agents import MPCAgentPerfect
    from gym_anm.envs import ANM6Easy

    _, part, tier = job
    rn = RNet(zoo.get("anm6"))
    env = ANM6Easy()
    ref = ANM6Easy()
    o, _ = ref.reset(seed=1)
    cyc = {}
    for _ in range(97):
        cyc[int(o[-1])] = np.array([o[1], o[3], o[5], o[15], o[16]]) / 100.0
        o, _, _, _, _ = ref.step(np.zeros(6))
    confs = [(1, 0.9), (4, 0.96), (16, 0.8)] if tier == "quick" else [(1, 0.9), (4, 0.96), (16, 0.8), (96, 0.9), (100, 0.9)]
    for N, margin in confs:
        ag = MPCAgentPerfect(env.simulator, env.action_space, env.gamma, safety_margin=margin, planning_steps=N)
        o, _ = env.reset(seed=part)
        for k in range(8 if tier == "quick" else 96 if N < 50 else 12):
            t = int(o[-1])
            f = np.array([cyc[(t + 1 + j) % 96] for j in range(N)]).T
            before = snapshot(env)
            a = ag.act(env)
            verify(R, rn, env, ag, a, f[:3], f[3:], margin, env.gamma, {"net": "ANM6Easy", "stages": N, "margin": margin, "t": t, "seed": part, "forecast": "perfect"})
            R.check(snapshot(env) == before, "acting changed the environment", t=t)
            R.state("perfect", N, margin, canon(o))
            o, _, term, _, _ = env.step(a)
            R.step()
            if tier == "quick":  # spread over the day
                for _ in range(3):
                    if not term:
                        o, _, term, _, _ = env.step(np.zeros(6))
            if term:
                break
