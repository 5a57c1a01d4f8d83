"""C04: every quantity is consistent across all its units, in states and in bounds."""
import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks x base powers {given, 0.1, 1, 7.5, 1000}: bounds, rendering limits, action spaces; all states of "
                   "lattices (1 step) and pair-covering walks, all quantities x ids x units",
          "thorough": "denser set-points, more base powers"}
ASSUMPTIONS = ["the p.u. value (rad for angles) is taken as the reference of each quantity"]
BASES = {"quick": (None, 0.1, 1, 7.5, 1000), "thorough": (None, 0.1, 0.5, 1, 2, 7.5, 33, 100, 1000)}
POWER = {"bus_p": "MW", "bus_q": "MVAr", "dev_p": "MW", "dev_q": "MVAr", "des_soc": "MWh", "gen_p_max": "MW",
         "branch_p": "MW", "branch_q": "MVAr", "branch_s": "MVA"}
ANGLE = ("bus_v_ang", "bus_i_ang", "branch_i_ang")


def jobs(tier):
    out = [{"kind": "bounds", "net": n, "base": b} for n in zoo.NETS for b in BASES[tier]]
    out += [{"kind": "walk", "net": n, "ops": 5, "base": b} for n in zoo.NETS for b in (0.1, 250)]
    return out + X.lattice_jobs(tier) + X.walk_jobs(tier)


def pairs(rn):
    """(quantity, unit, reference unit, {id: factor})"""
    ids = {"bus": [b.id for b in rn.buses], "dev": [d.id for d in rn.devs], "des": [d.id for d in rn.des],
           "gen": [d.id for d in rn.gens], "branch": [(b.f, b.t) for b in rn.branches]}
    for q, u in POWER.items():
        yield q, u, "pu", {i: rn.base for i in ids[q.split("_")[0]]}
    yield "bus_v_magn", "kV", "pu", {b.id: b.kv for b in rn.buses}
    yield "bus_i_magn", "kA", "pu", {b.id: rn.base / b.kv for b in rn.buses}
    for q in ANGLE:
        yield q, "degree", "rad", {i: 180 / np.pi for i in ids[q.split("_")[0]]}


def same(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or a == b


def check_state(s, R):
    X.key_state(R, s)
    R.outcome("converged" if s.conv else "collapsed")
    if not s.conv:
        return
    for q, u, ref, fac in pairs(s.rn):
        d, e = s.st[q][u], s.st[q][ref]
        R.check(set(d) == set(fac) and set(e) == set(fac), "quantity is not reported for exactly the existing ids", quantity=q,
                unit=u, step=s.label)
        for i, f in fac.items():
            R.check(same(float(d[i]), float(e[i]) * f), "units of a reported quantity disagree", quantity=q, id=i, unit=u,
                    value=d[i], reference=e[i], factor=f, step=s.label)
    R.trace()


def both(R, x, y, f, what, **k):
    for n in (0, 1):
        R.check(same(float(x[n]), float(y[n]) * f), what, got=x, reference=y, factor=f, **k)
        R.step()


def job_bounds(job, R):
    raw = zoo.get(job["net"])
    if job["base"] is not None:
        raw = zoo.rebase(raw, job["base"])
    rn = RNet(raw)
    sim = zoo.sim(raw, 0.5, 10)
    R.state(job["net"], job["base"])
    b = sim.state_bounds
    for q, u, ref, fac in pairs(rn):
        R.check(set(b[q]) == set(fac), "bounds do not cover exactly the existing ids", quantity=q)
        for i, f in fac.items():
            R.state(job["net"], job["base"], q, u, i)
            both(R, b[q][i][u], b[q][i][ref], f, "bounds of a quantity disagree between units", quantity=q, id=i, unit=u)
    spec = sim.get_rendering_specs()
    for bus in rn.buses:
        if bus.vmin is None:
            continue
        both(R, spec["bus_v"][bus.id]["pu"], (bus.vmin, bus.vmax), 1, "rendered voltage limits are not the specified ones", bus=bus.id)
        both(R, spec["bus_v"][bus.id]["kV"], (bus.vmin, bus.vmax), bus.kv, "rendered voltage limits in kV are wrong", bus=bus.id)
    for br in rn.branches:
        i = (br.f, br.t)
        both(R, spec["branch_s"][i]["pu"], (0, br.rate), 1, "rendered branch rating is wrong", branch=i)
        both(R, spec["branch_s"][i]["MVA"], (0, br.rate), rn.base, "rendered branch rating in MVA is wrong", branch=i)
    for q in ("bus_p", "bus_q", "dev_p", "dev_q", "des_soc"):
        for i in spec[q]:
            both(R, spec[q][i][POWER[q]], spec[q][i]["pu"], rn.base, "rendered limits disagree between units", quantity=q, id=i)
    A = sim.get_action_space()
    want = [{d.id: (d.pmin, d.pmax) for d in rn.gens}, {d.id: (d.qmin, d.qmax) for d in rn.gens},
            {d.id: (d.pmin, d.pmax) for d in rn.des}, {d.id: (d.qmin, d.qmax) for d in rn.des}]
    for k in range(4):
        R.check(set(A[k]) == set(want[k]), "action bounds do not cover the controllable devices", block=k)
        for i in want[k]:
            both(R, A[k][i], want[k][i], rn.base, "action bounds are not the limits in MW / MVAr", block=k, id=i)
    R.trace()
    R.outcome("bounds")
    R.sample({"net": job["net"], "base": job["base"]})


def run_job(job, R):
    if job["kind"] == "bounds":
        return job_bounds(job, R)
    for s in X.steps(job, R):
        check_state(s, R)
