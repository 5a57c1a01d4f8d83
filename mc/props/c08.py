"""C08: the reward equals the documented energy-loss and constraint-violation costs."""
import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks: 1-step lattices and pair-covering walks of the simulator with varied lambda and time step; environment "
                   "walks x 7 clipping configurations x lambda in {0, 0.5, 1000}; "
                   "every network re-expressed in per-unit bases 100 x smaller and 200 x larger",
          "thorough": "denser set-points, more charges, longer walks"}
ASSUMPTIONS = ["voltages, flows and injections reported by the simulator are right (C01, C02, C05)"]
CLIPS = [None, (None, None), (1, 100), (0.02, 0.05), (None, 0.01), (0.005, None), (0, 0)]


def jobs(tier):
    out = []
    for i, j in enumerate(X.lattice_jobs(tier)):
        out.append(dict(j, lamb=(100, 0, 2.5, 1)[i % 4], dt=(0.5, 0.1, 3.0)[i % 3]))
    out += X.walk_jobs(tier)
    for n in zoo.NETS:
        for c in range(len(CLIPS)):
            for lamb in (0, 0.5, 1000) if tier == "quick" else (0, 0.5, 1, 50, 1000):
                out.append({"kind": "env", "net": n, "clip": c, "lamb": lamb})
    for n in zoo.NETS:
        for b in (0.01, 200) if tier == "quick" else (0.01, 0.1, 30, 200, 5000):
            out.append({"kind": "base", "net": n, "scale": b, "lamb": 100})
    return out


def ref_costs(rn, st, dt, lamb):
    return rn.costs({d.id: float(st["dev_p"]["pu"][d.id]) for d in rn.devs}, {d.id: float(st["gen_p_max"]["pu"][d.id]) for d in rn.gens},
                    {b.id: float(st["bus_v_magn"]["pu"][b.id]) for b in rn.buses},
                    [abs(float(st["branch_s"]["pu"][(br.f, br.t)])) for br in rn.branches], dt, lamb)


def tol(*v):
    return 1e-9 * max(1.0, *(abs(x) for x in v))


def run_job(job, R):
    if job["kind"] == "env":
        return env_job(job, R)
    if job["kind"] == "base":
        return base_job(job, R)
    for s in X.steps(job, R):
        X.key_state(R, s)
        if s.kind == "reset" or not s.conv:
            continue
        e, p = ref_costs(s.rn, s.st, s.dt, s.lamb)
        R.close(s.e_loss, e, tol(e), "energy loss differs from its definition", step=s.label, lamb=s.lamb, dt=s.dt)
        R.close(s.penalty, p, tol(p), "penalty differs from its definition", step=s.label, lamb=s.lamb, dt=s.dt)
        R.close(s.reward, -(e + p), tol(e, p), "the simulator's reward is not minus the sum of its costs", step=s.label)
        R.outcome(("gain" if e < 0 else "loss") + (" with violation" if p > 0 else " without violation"))
        R.trace()


def base_job(job, R):
    """The same physical network in other per-unit bases: all quantities become very small or very large numbers."""
    n = zoo.NETS[job["net"]]
    base = n["raw"]["baseMVA"] * job["scale"]
    raw = zoo.rebase(n["raw"], base)
    rn = RNet(raw)
    dt, lamb = 0.5, job["lamb"]
    for soc in (0.0, 0.5, 1.0):
        sim = zoo.sim(raw, dt, lamb)
        sim.reset(zoo.s0(rn, n["scen"][0], soc))
        R.step()
        for i, scen in enumerate(n["scen"]):
            for j, (ps, qs) in enumerate(zoo.product_setpoints(RNet(n["raw"]), "two")):
                if j >= 40:
                    break
                pl, pp = zoo.split_scen(rn, scen)
                st, r, e1, p1, conv = sim.transition(pl, pp, dict(ps), dict(qs))
                R.step()
                if not conv:
                    sim.reset(zoo.s0(rn, n["scen"][0], soc))
                    continue
                e, p = ref_costs(rn, st, dt, lamb)
                ctx = dict(net=job["net"], base=base, scen=i, set=j)
                t = 1e-9 * min(1.0, 1 / job["scale"])
                R.close(e1, e, t + 1e-9 * abs(e), "energy loss differs from its definition", **ctx)
                R.close(p1, p, t * lamb + 1e-9 * abs(p), "penalty differs from its definition", **ctx)
                R.close(r, -(e + p), (1 + lamb) * t + 1e-9 * (abs(e) + abs(p)), "the simulator's reward is not minus the sum of its costs", **ctx)
                R.state(job["net"], job["scale"], soc, i, j)
                R.outcome("re-based " + ("gain" if e < 0 else "loss"))
    R.trace()


def env_job(job, R):
    clip = CLIPS[job["clip"]]
    name = job["net"]
    dt = (0.25, 1.0, 0.6)[job["clip"] % 3]
    rn = RNet(zoo.NETS[name]["raw"])
    env = zoo.env(name, lamb=job["lamb"], dt=dt, costs_clipping=clip)
    env.reset(seed=0)
    R.step()
    c1 = np.inf if clip is None or clip[0] is None else clip[0]
    c2 = np.inf if clip is None or clip[1] is None else clip[1]
    acts = X.env_actions(rn, env, "two", 6)
    for i, a in enumerate(acts):
        o, r, term, trunc, info = env.step(a)
        R.step()
        if term:
            env.reset()
            R.step()
            continue
        e, p = ref_costs(rn, env.simulator.state, dt, job["lamb"])
        ec, pc = float(np.sign(e) * min(abs(e), c1)), min(max(p, 0.0), c2)
        ctx = dict(net=name, clip=clip, lamb=job["lamb"], dt=dt, action=a, e_loss=e, penalty=p, step=i)
        R.close(r, -(ec + pc), tol(ec, pc), "the reward is not minus the sum of the clipped costs", **ctx)
        R.close(env.e_loss, ec, tol(ec), "the clipped energy loss is wrong", **ctx)
        R.close(env.penalty, pc, tol(pc), "the clipped penalty is wrong", **ctx)
        R.state(name, job["clip"], job["lamb"], i, round(r, 7))
        R.outcome("%s%s%s" % ("gain" if e < 0 else "loss", " clipped" if ec != e else "", " penalty clipped" if pc != p else ""))
    R.trace()
    R.sample({"net": name, "clipping": clip, "lambda": job["lamb"], "dt": dt, "actions": len(acts)})
