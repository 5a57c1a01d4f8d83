"""C09: reported states and observations stay inside the advertised bounds, which are those of the specification."""
import math

import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "bounds of 10 networks x 3 base powers, all quantities x ids x units; all states of lattices and pair-covering walks; "
                   "environment walks observing every quantity in every unit",
          "thorough": "denser lattices, longer walks, more base powers"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u. (relative to the size of the request when it exceeds 1 p.u.)",
               "the injections of the slack device, hence of its bus, are not enforced by design"]
INF = math.inf
UNITS = {"bus_p": ("MW", "pu"), "bus_q": ("MVAr", "pu"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("degree", "rad"),
         "bus_i_magn": ("pu", "kA"), "bus_i_ang": ("degree", "rad"), "dev_p": ("MW", "pu"), "dev_q": ("MVAr", "pu"),
         "des_soc": ("MWh", "pu"), "gen_p_max": ("MW", "pu"), "branch_p": ("MW", "pu"), "branch_q": ("MVAr", "pu"),
         "branch_s": ("MVA", "pu"), "branch_i_magn": ("pu",), "branch_i_ang": ("degree", "rad")}


def jobs(tier):
    out = [{"kind": "bounds", "net": n, "base": b} for n in zoo.NETS for b in ((None, 0.7, 350) if tier == "quick" else (None, 0.1, 0.7, 5, 350))]
    out += [{"kind": "env", "net": n, "aux": a, "n": 8 if tier == "quick" else 40} for n in zoo.NETS for a in (0, 1)]
    return out + X.lattice_jobs(tier) + X.walk_jobs(tier)


def ref_bounds(rn):
    """{quantity: {id: (lo, hi)}} in p.u. / rad."""
    B = {q: {} for q in UNITS}
    for b in rn.buses:
        here = [d for d in rn.devs if d.bus == b.id]
        B["bus_p"][b.id] = (sum(d.pmin for d in here), sum(d.pmax for d in here))
        B["bus_q"][b.id] = (sum(d.qmin for d in here), sum(d.qmax for d in here))
        B["bus_v_magn"][b.id] = (b.vmax, b.vmax) if b.slack else (-INF, INF)
        B["bus_v_ang"][b.id] = (0.0, 0.0) if b.slack else (-math.pi, math.pi)
        B["bus_i_magn"][b.id] = (-INF, INF)
        B["bus_i_ang"][b.id] = (-math.pi, math.pi)
    for d in rn.devs:
        B["dev_p"][d.id], B["dev_q"][d.id] = (d.pmin, d.pmax), (d.qmin, d.qmax)
        if d.is_des:
            B["des_soc"][d.id] = (d.socmin, d.socmax)
    for d in rn.gens:
        B["gen_p_max"][d.id] = (d.pmin, d.pmax)
    for br in rn.branches:
        for q in ("branch_p", "branch_q", "branch_s", "branch_i_magn"):
            B[q][(br.f, br.t)] = (-INF, INF)
        B["branch_i_ang"][(br.f, br.t)] = (-math.pi, math.pi)
    return B


def factor(rn, q, u, i):
    if u in ("pu", "rad"):
        return 1.0
    if u == "degree":
        return 180 / math.pi
    if u == "kV":
        return rn.bus[i].kv
    if u == "kA":
        return rn.base / rn.bus[i].kv
    return rn.base


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def loose(q, got, want):
    """Bounds on magnitudes may also be advertised as non-negative."""
    return same(got, want) or (q in ("bus_v_magn", "bus_i_magn", "branch_s") and want == -INF and got == 0)


def spec_all(rn, K):
    out = []
    for q, us in UNITS.items():
        ids = {"bus": [b.id for b in rn.buses], "dev": [d.id for d in rn.devs], "des": [d.id for d in rn.des],
               "gen": [d.id for d in rn.gens], "bra": [(b.f, b.t) for b in rn.branches]}[q[:3]]
        if ids:
            out += [(q, ids, u) for u in us]
    if K:
        out.append(("aux", list(range(K)), None))
    return out


def job_bounds(job, R):
    raw = zoo.get(job["net"])
    if job["base"] is not None:
        raw = zoo.rebase(raw, job["base"])
    rn = RNet(raw)
    B = ref_bounds(rn)
    got = zoo.sim(raw, 0.5, 10).state_bounds
    for q, us in UNITS.items():
        R.check(set(got[q]) == set(B[q]), "bounds do not cover exactly the existing ids", quantity=q, got=list(got[q]))
        for i, (lo, hi) in B[q].items():
            for u in us:
                if u not in got[q][i]:
                    R.fail("bounds are missing a unit", quantity=q, id=i, unit=u)
                    continue
                f = factor(rn, q, u, i)
                g = got[q][i][u]
                R.step()
                R.state(job["net"], job["base"], q, i, u)
                R.check(loose(q, float(g[0]), lo * f) and same(float(g[1]), hi * f),
                        "an advertised bound is not the one of the network specification", quantity=q, id=i, unit=u,
                        got=g, expected=(lo * f, hi * f), base=rn.base)
    R.trace()
    R.outcome("bounds")


def check_state(R, rn, B, st, req, label):
    for q, us in UNITS.items():
        for i, (lo, hi) in B[q].items():
            if (q in ("dev_p", "dev_q") and i == rn.slack_dev.id) or (q in ("bus_p", "bus_q") and i == rn.slack_bus.id):
                continue
            t = 1e-9
            if q in ("dev_p", "dev_q"):
                t = 1e-4 * max(1.0, req.get(i, 0.0))
            elif q in ("bus_p", "bus_q"):
                t = 1e-4 * sum(max(1.0, req.get(d.id, 0.0)) for d in rn.devs if d.bus == i) + 1e-9
            for u in us:
                f = factor(rn, q, u, i)
                v = float(st[q][u][i])
                R.check(lo * f - t * f <= v <= hi * f + t * f, "a reported quantity is outside its advertised bounds", quantity=q,
                        id=i, unit=u, value=v, bounds=(lo * f, hi * f), step=label)


def job_env(job, R):
    n = zoo.NETS[job["net"]]
    rn = RNet(n["raw"])
    B = ref_bounds(rn)
    K = 3
    auxb = np.array([[-0.5, 1.5], [0.0, 35.0], [-INF, INF]]) if job["aux"] else None
    spec = spec_all(rn, K)
    lo, hi, names = [], [], []
    for q, ids, u in spec:
        for i in ids:
            names.append((q, i, u))
            if q == "aux":
                l, h = auxb[i] if job["aux"] else (-INF, INF)
            else:
                f = factor(rn, q, u, i)
                l, h = B[q][i][0] * f, B[q][i][1] * f
            lo.append(l)
            hi.append(h)
    for which in ("list", "state"):
        env = zoo.env(job["net"], observation=spec if which == "list" else "state", K=K, aux_bounds=auxb)
        sp = env.observation_space
        if which == "list":
            idx = list(range(len(names)))
        else:
            idx = [names.index((q, i, {"dev_p": "MW", "dev_q": "MVAr", "des_soc": "MWh", "gen_p_max": "MW", "aux": None}[q]))
                   for q, i in rn.state_names(K)]
        R.check(sp.shape == (len(idx),), "the observation space has the wrong size", got=sp.shape, expected=len(idx))
        for k, j in enumerate(idx):
            R.check(loose(names[j][0], float(sp.low[k]), lo[j]) and same(float(sp.high[k]), hi[j]),
                    "the observation space does not have the advertised bounds", entry=names[j], got=(sp.low[k], sp.high[k]),
                    expected=(lo[j], hi[j]))
        acts = X.env_actions(rn, env, "two" if len(rn.gens + rn.des) > 2 else "few")
        obs, _ = env.reset(seed=3)
        for t in range(job["n"]):
            R.step()
            R.check(bool(sp.contains(obs)) and bool(np.all(obs >= sp.low)) and bool(np.all(obs <= sp.high)),
                    "an observation is outside the observation space", obs=obs, step=t, spec=which)
            R.state(job["net"], which, t, [round(float(v), 5) for v in obs[:40]])
            a = acts[(t * 7 + 1) % len(acts)]
            obs, r, term, _, _ = env.step(a)
            if term:
                R.outcome("collapse")
                obs, _ = env.reset()
            else:
                check_state(R, rn, B, env.simulator.state, {}, [job["net"], which, t])
                R.outcome("step")
        R.trace()
    R.sample({"net": job["net"], "entries": len(names), "aux bounds": auxb})


def run_job(job, R):
    if job["kind"] == "bounds":
        return job_bounds(job, R)
    if job["kind"] == "env":
        return job_env(job, R)
    B = None
    for s in X.steps(job, R):
        X.key_state(R, s)
        B = B or ref_bounds(s.rn)
        if not s.conv:
            continue
        req = {}
        if s.kind != "reset":
            req = {i: max(abs(s.p_set[i]), abs(s.q_set[i])) / s.rn.base for i in s.p_set}
        check_state(R, s.rn, B, s.st, req, s.label)
        R.outcome(s.kind)
        R.trace()
