"""C15: each action entry drives exactly its device, and invalid actions are refused without any effect."""
import copy

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet, project

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks: action space layout; every single-entry perturbation to 3 levels of 2 base actions plus all-distinct actions; every "
                   "invalid value (above, below, NaN, infinite) of every entry, wrong sizes, shapes and types at each of 5 positions of an episode "
                   "(fresh, mid-episode, terminal, after reset)",
          "thorough": "9 levels per entry, 4 base actions, all pairs of perturbed entries, longer episodes"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u.; actions are finite numbers"]


def jobs(tier):
    out = []
    for n in zoo.NETS:
        rn = RNet(zoo.NETS[n]["raw"])
        out.append({"kind": "space", "net": n})
        for k in range(2 * len(rn.gens + rn.des)):
            out.append({"kind": "map", "net": n, "entry": k, "tier": tier})
        out.append({"kind": "invalid", "net": n, "tier": tier})
    return out


def layout(rn):
    return ([("p", d) for d in rn.gens] + [("q", d) for d in rn.gens] + [("p", d) for d in rn.des] + [("q", d) for d in rn.des])


def limits(rn):
    lo = [(d.pmin if k == "p" else d.qmin) * rn.base for k, d in layout(rn)]
    hi = [(d.pmax if k == "p" else d.qmax) * rn.base for k, d in layout(rn)]
    return np.array(lo, float), np.array(hi, float)


def finite(rn):
    lo, hi = limits(rn)
    return np.where(np.isfinite(lo), lo, -1.3 * rn.base), np.where(np.isfinite(hi), hi, 1.3 * rn.base)


def check_applied(R, env, rn, soc, a, pot, dt, label):
    st = env.simulator.state
    req = {}
    for (k, d), v in zip(layout(rn), a):
        req.setdefault(d.id, {})[k] = float(v) / rn.base
    for d in rn.gens + rn.des:
        p, q = req[d.id]["p"], req[d.id]["q"]
        H = d.halfplanes(ppot=pot[d.id] / rn.base) if d.is_gen else d.halfplanes(soc=soc[d.id], dt=dt)
        w = project(H, p, q)
        got = (float(st["dev_p"]["pu"][d.id]), float(st["dev_q"]["pu"][d.id]))
        R.check(np.hypot(got[0] - w[0], got[1] - w[1]) <= 1e-4 * max(1, abs(p), abs(q)), "an action entry does not drive its device", device=d.id,
                setpoint=(p, q), got=got, expected=w, action=a, case=label)


def job_map(job, R):
    net = zoo.NETS[job["net"]]
    rn = RNet(net["raw"])
    # available generation and charge leave every device free to follow its set-point
    scen = [{**net["scen"][0], **{d.id: (d.pmax if np.isfinite(d.pmax) else 1.3) * rn.base for d in rn.gens}}]
    env = zoo.make_env(net["raw"], scen, net["dt"], net["lamb"], K=0, soc_frac=0.5)
    lo, hi = finite(rn)
    m = len(lo)
    lev = (0.0, 0.33, 1.0) if job["tier"] == "quick" else (0.0, 0.08, 0.2, 0.33, 0.5, 0.66, 0.8, 0.95, 1.0)
    bases = [lo + 0.55 * (hi - lo), lo + (hi - lo) * np.array([(0.2 + 0.61 * k) % 0.9 for k in range(m)])]
    if job["tier"] != "quick":
        bases += [lo + 0.3 * (hi - lo), lo + (hi - lo) * np.array([(0.7 + 0.37 * k) % 0.95 for k in range(m)])]
    k = job["entry"]
    others = [None] if job["tier"] == "quick" else [None] + [j for j in range(m) if j != k]
    for bi, b in enumerate(bases):
        for f in lev:
            for j in others:
                a = b.copy()
                a[k] = lo[k] + f * (hi[k] - lo[k])
                if j is not None:
                    a[j] = lo[j] + (1 - f) * (hi[j] - lo[j])
                a = np.clip(a, env.action_space.low, env.action_space.high)
                env.reset(seed=0)
                soc = {d.id: float(env.simulator.state["des_soc"]["pu"][d.id]) for d in rn.des}
                o, r, term, _, _ = env.step(a)
                R.step(2)
                R.state(job["net"], k, f, bi, j)
                if not term:
                    check_applied(R, env, rn, soc, a, {d.id: scen[0][d.id] for d in rn.gens}, net["dt"], [job["net"], k, f, bi])
                R.outcome("collapsed" if term else "driven")
                R.trace()
    R.sample({"net": job["net"], "entry": [layout(rn)[k][0], layout(rn)[k][1].id], "actions": len(bases) * len(lev)})


def invalid(env, rn):
    """(label, value) of everything that is not in the action space."""
    sp = env.action_space
    mid = np.clip(np.zeros(sp.shape), sp.low, sp.high)
    out = [("short", mid[:-1]), ("long", np.append(mid, 0.0)), ("empty" if len(mid) else "long1", np.zeros(0) if len(mid) else np.zeros(1)),
           ("2d", mid.reshape(1, -1)), ("column", mid.reshape(-1, 1)), ("scalar", 0.5), ("none", None), ("string", "idle"),
           ("complex", mid.astype(complex) + 0j), ("dict", {0: 1.0})]
    if not len(mid):
        return [(n, v) for n, v in out if n in ("long", "long1", "scalar", "none", "string")]
    for k in range(len(mid)):
        for label, v in (("above", np.nextafter(sp.high[k], np.inf)), ("far above", sp.high[k] + 1e3), ("below", np.nextafter(sp.low[k], -np.inf)),
                         ("far below", sp.low[k] - 1e3), ("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf)):
            if sp.low[k] <= v <= sp.high[k]:
                continue
            a = mid.copy()
            a[k] = v
            out.append(("%s %d" % (label, k), a))
    a = mid.copy()
    a[:] = np.nan
    out.append(("all nan", a))
    return out


def snap(env):
    return (canon(np.asarray(env.state, float), 13), repr(env.np_random.bit_generator.state), env.n_next, env.n_init, env.timestep, bool(env.terminated),
            canon(env.e_loss, 13), canon(env.penalty, 13),
            canon({q: {u: list(v.values()) for u, v in d.items()} for q, d in env.simulator.state.items()}, 13))


def job_invalid(job, R):
    name = job["net"]
    net = zoo.NETS[name]
    rn = RNet(net["raw"])

    def run(poke):
        env = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=1, stochastic=True)
        log = []
        acts = X.env_actions(rn, env, "two")
        if name == "weak":
            plan = [np.array([8.0, 0, 0, 0]), np.array([0, -15.0, -30.0, -10.0]), np.array([20.0, 3, 5, -1])]
        else:
            plan = [acts[0], acts[-1], acts[len(acts) // 2]]
        o, _ = env.reset(seed=4)
        log.append(canon(o, 13))
        for pos in range(5):
            if poke:
                for label, v in invalid(env, rn):
                    before = snap(env)
                    keep = copy.deepcopy(v)
                    try:
                        env.step(v)
                        R.fail("an action outside the action space is accepted", net=name, action=v, case=label, position=pos)
                    except Exception as e:
                        R.outcome(type(e).__name__)
                    R.step()
                    R.state(name, pos, label)
                    R.check(snap(env) == before, "a refused action changes the environment", net=name, action=v, case=label, position=pos)
                    R.check(repr(v) == repr(keep), "a refused action is modified", case=label)
            if pos == 3:
                o, _ = env.reset()
                log.append(canon(o, 13))
            else:
                o, r, t, _, _ = env.step(plan[pos % 3])
                log.append((canon(o, 13), canon(r, 13), bool(t)))
            R.step()
        return log

    a, b = run(False), run(True)
    R.check(a == b, "refused actions change the future of the environment", net=name, got=b, expected=a)
    # everything inside (including the very bounds) is accepted
    env = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=1)
    lo, hi = finite(rn)
    for f in (0.0, 1.0, 0.5):
        env.reset()
        x = np.clip(lo + f * (hi - lo), env.action_space.low, env.action_space.high)
        env.step(x)
        env.reset()
        env.step(np.clip(x, env.action_space.low, env.action_space.high).astype(int) if name in ("weak", "gens") else x)
        R.step(4)
    R.trace()
    R.sample({"net": name, "invalid actions": len(invalid(env, rn))})


def job_space(job, R):
    net = zoo.NETS[job["net"]]
    for base in (None, 0.4, 70):
        raw = net["raw"] if base is None else zoo.rebase(net["raw"], base)
        rn = RNet(raw)
        env = zoo.make_env(raw, net["scen"], net["dt"], net["lamb"])
        lo, hi = limits(rn)
        sp = env.action_space
        R.step()
        R.state(job["net"], base)
        R.check(sp.shape == lo.shape, "the action space has the wrong size", got=sp.shape, expected=lo.shape)
        for k, (kind, d) in enumerate(layout(rn)):
            for got, want in ((float(sp.low[k]), lo[k]), (float(sp.high[k]), hi[k])):
                R.check(got == want or abs(got - want) <= 1e-9 * max(1, abs(want)), "an action bound is not the limit of its device", entry=k,
                        quantity=kind, device=d.id, got=got, expected=want, base=base)
    R.trace()
    R.outcome("space")


def run_job(job, R):
    {"space": job_space, "map": job_map, "invalid": job_invalid}[job["kind"]](job, R)
