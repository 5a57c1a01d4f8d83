"""C13: physical results do not depend on the choice of base power."""
import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks x 2 other base powers x (1-step lattice of one charge, pair-covering walk, initial states and set-points at 4 scales x 4 signs), in lockstep with the original base; "
                   "environments observing every quantity",
          "thorough": "5 other base powers, denser set-points, longer walks"}
ASSUMPTIONS = ["accuracy: 5e-5 of the largest of both base powers and the request on injections (optimizer), 1e-5 p.u. on balances (solver)"]
FACT = {"quick": (0.2, 3.0), "thorough": (0.05, 0.2, 0.5, 3.0, 12.0)}
ENVNETS = ("duo", "gap", "asym", "anm6")


def jobs(tier):
    out = []
    for i, n in enumerate(zoo.NETS):
        b0 = zoo.NETS[n]["raw"]["baseMVA"]
        for f in FACT[tier]:
            if n in ("gap", "none") and tier == "quick":
                ks = "two"
            else:
                ks = X.KINDS[tier][n]
            for k in range(len(zoo.NETS[n]["scen"])):
                out.append({"kind": "lattice", "net": n, "scen": k, "soc": (0.5, 0.0, 1.0)[k % 3], "set": ks, "base": b0 * f})
            out.append({"kind": "scales", "net": n, "base": b0 * f})
            out.append({"kind": "walk", "net": n, "ops": 5 if tier == "quick" else 12, "base": b0 * f})
            if n in ENVNETS:
                out.append({"kind": "env", "net": n, "base": b0 * f, "n": 6 if tier == "quick" else 30})
        out.append({"kind": "bounds", "net": n, "bases": [b0 * f for f in FACT["thorough"]]})
    return out


PHYS = (("dev_p", "MW"), ("dev_q", "MVAr"), ("bus_p", "MW"), ("bus_q", "MVAr"), ("branch_p", "MW"), ("branch_q", "MVAr"), ("branch_s", "MVA"),
        ("des_soc", "MWh"), ("gen_p_max", "MW"), ("bus_i_magn", "kA"))


def compare(a, b, R):
    """Steps a (original base) and b (other base)."""
    rn = a.rn
    ctx = dict(step=a.label, bases=(a.rn.base, b.rn.base))
    X.key_state(R, b)
    if not R.check(a.conv == b.conv, "termination depends on the base power", converged=(a.conv, b.conv), **ctx):
        return
    R.outcome("converged" if a.conv else "collapsed")
    if not a.conv:
        return
    big = max(a.rn.base, b.rn.base)
    if a.kind != "reset":
        big = max([big] + [abs(v) for v in list(a.p_set.values()) + list(a.q_set.values())])
    n = len(rn.devs)
    t = 5e-5 * big * n
    for q, u in PHYS:
        x, y = a.st[q][u], b.st[q][u]
        R.check(list(x) == list(y), "identifiers depend on the base power", quantity=q, **ctx)
        for i in x:
            tol = t / rn.bus[i].kv if u == "kA" else t
            if q == "gen_p_max":
                tol = 1e-7 * big
            if q in ("dev_p", "dev_q") and not rn.dev[i].slack:
                tol = 5e-5 * big
            R.check(abs(float(x[i]) - float(y[i])) <= tol, "a physical quantity depends on the base power", quantity=q, id=i, unit=u,
                    values=(x[i], y[i]), tol=tol, **ctx)
    # voltages: sensitivity of at most |Z| * dS
    z = sum(abs(1 / br.y) for br in rn.branches) / rn.base  # p.u. per MVA
    tv = min(0.02, 3 * z * t) + 1e-6
    for q, u in (("bus_v_magn", "pu"), ("bus_v_magn", "kV"), ("bus_v_ang", "degree"), ("bus_v_ang", "rad")):
        for i in a.st[q][u]:
            k = rn.bus[i].kv if u == "kV" else (60 if u == "degree" else 1)
            R.check(abs(float(a.st[q][u][i]) - float(b.st[q][u][i])) <= 2 * tv * k, "a voltage depends on the base power", quantity=q, id=i,
                    values=(a.st[q][u][i], b.st[q][u][i]), tol=2 * tv * k, **ctx)
    if a.kind == "reset":
        return
    R.close(a.e_loss * a.rn.base, b.e_loss * b.rn.base, t * a.dt * 2, "the energy loss in MWh depends on the base power", **ctx)

    def branch_penalty(s):
        v = 0.0
        for bus in rn.buses:
            m = float(s.st["bus_v_magn"]["pu"][bus.id])
            v += max(0.0, m - bus.vmax) + (0.0 if bus.vmin is None else max(0.0, bus.vmin - m))
        return (s.penalty - v * s.dt * s.lamb) * s.rn.base

    if a.lamb:
        R.close(branch_penalty(a), branch_penalty(b), (2 * t * len(rn.branches) + 1e-6 * big) * a.dt * a.lamb,
                "the rating penalty in MVAh depends on the base power", **ctx)
    R.trace()


def run_job(job, R):
    if job["kind"] == "bounds":
        return job_bounds(job, R)
    if job["kind"] == "scales":
        return job_scales(job, R)
    if job["kind"] == "env":
        return job_env(job, R)
    ref = {k: v for k, v in job.items() if k != "base"}
    for a, b in zip(X.steps(ref, R), X.steps(job, R)):
        assert a.label[1:] == b.label[1:]
        compare(a, b, R)
    R.sample(job)


SCALES = (1.0, 0.2, 0.03, 0.004)


def job_scales(job, R):
    """Initial states and set-points from full scale down to a few thousandths of each limit, with all signs of (load, generator, storage)."""
    net = zoo.NETS[job["net"]]
    raws = (net["raw"], zoo.rebase(net["raw"], job["base"]))
    rns = [RNet(r) for r in raws]
    sims = [zoo.sim(r, net["dt"], net["lamb"]) for r in raws]
    rn = rns[0]
    lim = lambda v, dflt: (v if np.isfinite(v) and v else dflt) * rn.base
    for scale in SCALES:
        for sg in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            P, Q, S, M, ps, qs, pl, pp = [], [], [], [], {}, {}, {}, {}
            for k, d in enumerate(rn.devs):
                s = sg[k % 2]
                p, q = s * scale * min(lim(abs(d.pmax), 0.3), lim(abs(d.pmin), 0.3)) * 0.9, -s * scale * 0.2 * rn.base
                if d.is_load:
                    p = scale * 0.3 * lim(d.pmin, -0.3)
                    q = p * d.qp
                    pl[d.id] = p
                elif d.is_des:
                    S.append((0.5 * d.socmin + 0.5 * d.socmax) * rn.base)
                elif not d.slack:
                    p = abs(p)
                    pp[d.id] = 1.5 * p
                    M.append(1.5 * p)
                if not d.is_load and not d.slack:
                    ps[d.id], qs[d.id] = p, q
                P.append(p)
                Q.append(q)
            init = np.array(P + Q + S + M)
            out = []
            for sim, r in zip(sims, rns):
                conv = sim.reset(init.copy())
                R.step()
                a = X.Step(sim=sim, rn=r, kind="reset", st=sim.state, conv=bool(conv), dt=net["dt"], lamb=net["lamb"], label=[job["net"], "init", scale, sg], init=init)
                soc = dict(a.st["des_soc"]["pu"])
                res = sim.transition(dict(pl), dict(pp), dict(ps), dict(qs))
                R.step()
                b = X.Step(sim=sim, rn=r, kind="transition", soc=soc, p_load=pl, p_pot=pp, p_set=ps, q_set=qs, st=res[0], reward=res[1], e_loss=res[2], penalty=res[3],
                           conv=bool(res[4]), dt=net["dt"], lamb=net["lamb"], label=[job["net"], "scaled", scale, sg])
                out.append((a, b))
            compare(out[0][0], out[1][0], R)
            compare(out[0][1], out[1][1], R)
    R.outcome("scales")
    R.sample(job)


def flat(b):
    out = {}
    for q, d in b.items():
        for i, u in d.items():
            for k, v in u.items():
                if k not in ("pu", "rad") or q in ("bus_v_magn", "bus_v_ang"):
                    out[q, i, k] = tuple(float(x) for x in v)
    return out


def job_bounds(job, R):
    raw = zoo.NETS[job["net"]]["raw"]
    sims = [zoo.sim(r, 0.5, 10) for r in [raw] + [zoo.rebase(raw, b) for b in job["bases"]]]
    ref, ra = flat(sims[0].state_bounds), sims[0].get_action_space()
    for b, s in zip(job["bases"], sims[1:]):
        got, ga = flat(s.state_bounds), s.get_action_space()
        R.check(set(got) == set(ref), "bounds depend on the base power")
        for k in ref:
            R.step()
            R.state(job["net"], b, k)
            if k[2] == "kA":
                continue
            for x, y in zip(ref[k], got[k]):
                R.check(x == y or abs(x - y) <= 1e-9 * max(1, abs(x)), "a physical bound depends on the base power", entry=k, base=b,
                        got=got[k], expected=ref[k])
        for k in range(4):
            for i in ra[k]:
                for x, y in zip(ra[k][i], ga[k][i]):
                    R.check(x == y or abs(x - y) <= 1e-9 * max(1, abs(x)), "action bounds depend on the base power", block=k, id=i, base=b)
        R.trace()
    R.outcome("bounds")


def job_env(job, R):
    from .c09 import spec_all
    net = zoo.NETS[job["net"]]
    rn = RNet(net["raw"])
    spec = [(q, ids, u) for q, ids, u in spec_all(rn, 1) if u not in ("pu",) or q == "bus_v_magn"]
    e = [zoo.make_env(r, net["scen"], net["dt"], net["lamb"], observation=spec, K=1) for r in (net["raw"], zoo.rebase(net["raw"], job["base"]))]
    R.close(e[0].action_space.low, e[1].action_space.low, 1e-9, "the action space depends on the base power", base=job["base"])
    R.close(e[0].action_space.high, e[1].action_space.high, 1e-9, "the action space depends on the base power", base=job["base"])
    R.close(e[0].observation_space.low, e[1].observation_space.low, 1e-6, "the observation space depends on the base power", base=job["base"])
    R.close(e[0].observation_space.high, e[1].observation_space.high, 1e-6, "the observation space depends on the base power", base=job["base"])
    acts = X.env_actions(rn, e[0], "few", 9)
    r = [x.reset(seed=1)[0] for x in e]
    kinds = [q for q, ids, u in spec for _ in ids]
    big = max(rn.base, job["base"]) * 5e-5 * len(rn.devs)
    z = sum(abs(1 / br.y) for br in rn.branches) / rn.base
    tol = np.array([1e-7 if q in ("aux", "gen_p_max") else (min(0.02, 3 * z * big) * 60 + big if "v_" in q else big + 1e-6) for q in kinds])
    skip = np.array([q in ("bus_i_ang", "branch_i_ang") for q in kinds])
    for t in range(job["n"]):
        d = np.abs(np.asarray(r[0], float) - np.asarray(r[1], float))
        bad = np.where((d > tol) & ~skip)[0]
        R.check(len(bad) == 0, "an observation depends on the base power", entries=[(kinds[k], r[0][k], r[1][k]) for k in bad[:4]], step=t, base=job["base"])
        R.state(job["net"], job["base"], t)
        s = [x.step(acts[(5 * t + 1) % len(acts)]) for x in e]
        R.step(2)
        R.check(s[0][2] == s[1][2], "termination depends on the base power", step=t)
        if s[0][2]:
            break
        r = [x[0] for x in s]
    R.trace()
    R.outcome("environment")
