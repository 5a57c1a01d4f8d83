"""C11: reset reproduces the initial state, erases all history, and the state vector is sufficient."""
import copy

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "orthogonal arrays (strength 2) of 7 initial conditions per device on 9 networks; all histories of up to 2 operations out of 9 "
                   "before a reset, on 4 networks; periodic histories of 120 operations; all states reached by up to 3 operations out of 3, replayed from a reset and continued",
          "thorough": "11 initial conditions per device; histories of up to 4 operations; states reached by up to 4 operations"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u. on injections; comparisons between identical runs are exact"]
NETS = ["duo", "mesh", "gap", "none", "asym", "passive", "gens", "store", "anm6"]


def jobs(tier):
    out = []
    m = 7 if tier == "quick" else 11
    for n in NETS:
        for part in range(2 if tier == "quick" else 4):
            out.append({"kind": "init", "net": n, "m": m, "part": [part, 2 if tier == "quick" else 4]})
        out.append({"kind": "mid", "net": n, "depth": 3 if tier == "quick" else 4, "acts": 3})
    for n in ("weak", "duo", "gap", "asym"):
        for first in range(9):
            out.append({"kind": "hist", "net": n, "first": first, "depth": 2 if tier == "quick" else 3})
        for ops in ((0, 1, 2), (0,), (2, 2, 0), tuple(range(9)), (7, 0), (8,)):
            out.append({"kind": "deep", "net": n, "ops": ops, "n": 120 if tier == "quick" else 600})
    for t in range(0, 96, 16 if tier == "quick" else 4):
        out.append({"kind": "easy", "t": t})
    return out


# -- (a) the initial state is reproduced ----------------------------------------------------------------
FR = [(0.5004, 0.4996, 0.6), (0.1, 0.9, 1.0), (1.0, 0.0, 0.0), (0.8, 1.0, 0.3), (-0.4, 0.3, 0.9), (1.5, -0.2, 1.4), (0.3, 1.3, -0.3),
      (0.0, 0.7, 0.5), (0.62, 0.1, 0.05), (0.95, 0.5, 0.99), (0.5, 0.5, 0.45)]


def lim(v, dflt):
    return v if np.isfinite(v) else dflt


def initial(rn, r, c, m, K):
    """State vector r, c of the orthogonal array, with the expected applied quantities (p.u.)."""
    P, Q, S, M = [], [], [], []
    want = {}
    for i, d in enumerate(rn.devs):
        fp, fq, fx = FR[(r + (i + 1) * c) % m]
        lo, hi = lim(d.pmin, -1.2), lim(d.pmax, 1.2)
        p = lo + fp * (hi - lo)
        if d.is_load:
            P.append(p)
            Q.append(p * d.qp if fq < 0.6 else 0.37)
            pa = min(max(p, d.pmin), d.pmax)
            want[d.id] = (pa, pa * d.qp)
            continue
        q = lim(d.qmin, -0.8) + fq * (lim(d.qmax, 0.8) - lim(d.qmin, -0.8))
        P.append(p)
        Q.append(q)
        if d.is_des:
            s = d.socmin + fx * (d.socmax - d.socmin)
            S.append(s)
            want["soc", d.id] = min(max(s, d.socmin), d.socmax)
            want[d.id] = (d, p, q, d.socmin if p <= 0 else d.socmax)
        elif not d.slack:
            x = lo + fx * (hi - lo)
            M.append(x)
            want["pot", d.id] = d.clip_pot(x)
            want[d.id] = (d, p, q, x)
    return np.array([v * rn.base for v in P + Q + S + M] + [float(r % 2), 3.5 + c][:K]), want


def job_init(job, R):
    from ..ref import project
    net = zoo.NETS[job["net"]]
    rn = RNet(net["raw"])
    K = 2
    for r in range(job["m"]):
        if r % job["part"][1] != job["part"][0]:
            continue
        for c in range(job["m"]):
            s0, want = initial(rn, r, c, job["m"], K)
            keep = s0.copy()
            env = zoo.env(job["net"], K=K, s0_vec=s0, scen=[net["scen"][0]])
            if not zoo.sim(job["net"]).reset(s0.copy()):
                R.outcome("initial state collapses")
                continue
            obs, _ = env.reset(seed=r)
            R.step()
            st = env.simulator.state
            ctx = dict(net=job["net"], initial=keep, array=(r, c))
            for d in rn.devs:
                if d.slack:
                    continue
                got = (float(st["dev_p"]["pu"][d.id]), float(st["dev_q"]["pu"][d.id]))
                w = want[d.id]
                if d.is_load:
                    R.close(got, w, 1e-9, "an initial load demand is not reproduced", device=d.id, **ctx)
                    continue
                _, p, q, x = w
                H = d.halfplanes(ppot=x) if d.is_gen else d.halfplanes(soc=x, dt=net["dt"])
                e = project(H, p, q)
                R.check(np.hypot(got[0] - e[0], got[1] - e[1]) <= 1e-4 * max(1, abs(p), abs(q)),
                        "an initial injection is not reproduced (or projected to the closest possible one)", device=d.id,
                        requested=(p, q), got=got, expected=e, **ctx)
                R.outcome("feasible" if abs(e[0] - p) + abs(e[1] - q) < 1e-9 else "projected")
            for d in rn.des:
                R.close(float(st["des_soc"]["pu"][d.id]), want["soc", d.id], 1e-9, "an initial charge is not reproduced", device=d.id, **ctx)
            for d in rn.gens:
                R.close(float(st["gen_p_max"]["pu"][d.id]), want["pot", d.id], 1e-9, "an initial available generation is not reproduced",
                        device=d.id, **ctx)
            R.close(np.array(env.state[-K:], float), keep[-K:], 1e-12, "the auxiliary variables are not reproduced", **ctx)
            vec = [st["dev_p"]["MW"][d.id] for d in rn.devs] + [st["dev_q"]["MVAr"][d.id] for d in rn.devs] + \
                  [st["des_soc"]["MWh"][d.id] for d in rn.des] + [st["gen_p_max"]["MW"][d.id] for d in rn.gens] + list(keep[-K:])
            R.close(np.array(env.state, float), np.array(vec, float), 1e-9 * rn.base, "the state vector is not the current state", **ctx)
            # the slack completes the balance
            inj = X.inj_reported(st, rn)
            V = X.volt(st, rn)
            k = rn.pos[rn.slack_bus.id]
            need = (V * np.conj(rn.Y @ V))[k] - sum(complex(*inj[d.id]) for d in rn.devs if d.bus == rn.slack_bus.id and not d.slack)
            R.close(inj[rn.slack_dev.id], (need.real, need.imag), 2e-5, "the slack does not balance the initial state", **ctx)
            R.state(job["net"], canon(obs, 5))
            R.trace()
    R.sample({"net": job["net"], "initial": s0, "reported": env.state})


# -- (b) no history survives -------------------------------------------------------------------------------
class Hist:
    """A controllable environment: initial states and next variables can be made to fail."""

    def __init__(self, name):
        from gym_anm.errors import EnvInitializationError, EnvNextVarsError
        self.refusals = (AssertionError, EnvInitializationError, EnvNextVarsError)
        self.name = name
        net = zoo.NETS[name]
        self.rn = RNet(net["raw"])
        env = zoo.env(name, K=1, soc_frac=0.35)
        base_init, base_next = env.init_state, env.next_vars
        self.inits = {"a": zoo.s0(self.rn, net["scen"][0], 0.35, [0]), "b": zoo.s0(self.rn, net["scen"][-1], 0.8, [len(net["scen"]) - 1])}
        env.hist_mode = "a"
        cls = type(env)
        inits = self.inits

        class E(cls):
            def init_state(self):
                if self.hist_mode == "short":
                    return inits["a"][:-1].copy()
                return inits[self.hist_mode].copy()

            def next_vars(self, s_t):
                v = cls.next_vars(self, s_t)
                return v[:-1] if self.hist_mode == "short" else v

        env.__class__ = E
        self.env = env
        acts = X.env_actions(self.rn, env, "two")
        self.acts = [acts[0], acts[-1], acts[len(acts) // 2]]
        if name == "weak":
            self.acts = [np.array([8.0, 0, 0, 0]), np.array([0, -15.0, -30.0, -10.0]), np.array([20.0, 3, 5, -1])]

    def op(self, k):
        env = self.env
        try:
            if k < 3:
                return env.step(self.acts[k])
            if k == 3:  # refused action
                env.step(self.acts[0][:-1])
            elif k == 4:  # refused action
                env.step(self.acts[0] * np.nan)
            elif k == 5:  # next variables of a wrong size
                env.hist_mode = "short"
                try:
                    env.step(self.acts[0])
                finally:
                    env.hist_mode = "a"
            elif k == 6:  # initial state of a wrong size
                env.hist_mode = "short"
                try:
                    env.reset()
                finally:
                    env.hist_mode = "a"
            elif k == 7:  # reset to another state
                env.hist_mode = "b"
                env.reset()
                env.hist_mode = "a"
            elif k == 8:  # reset with a seed
                env.hist_mode = "b"
                env.reset(seed=123)
                env.hist_mode = "a"
                env.step(self.acts[2])
        except self.refusals as e:
            return type(e).__name__
        return None


def probe(env, acts):
    out = []
    o, i = env.reset(seed=5)
    out.append((canon(o, 12), dict(i), canon(env.e_loss, 12), canon(env.penalty, 12), env.timestep))
    for a in (acts[2], acts[0], acts[1]):
        o, r, t, tr, _ = env.step(a)
        out.append((canon(o, 12), canon(r, 12), bool(t), canon(env.e_loss, 12), canon(env.penalty, 12), env.timestep,
                    canon({q: {u: list(v.values()) for u, v in d.items()} for q, d in env.simulator.state.items()}, 12) if not t else None))
    return out


def job_hist(job, R):
    h = Hist(job["net"])
    h.env.reset(seed=1)
    clean = probe(copy.deepcopy(h).env, h.acts)
    n = 9

    def rec(h, hist):
        for k in ([job["first"]] if not hist else range(n)):
            g = copy.deepcopy(h)
            res = g.op(k)
            R.step()
            hh = hist + [k]
            p = probe(copy.deepcopy(g).env, g.acts)
            R.step(4)
            R.check(p == clean, "the behaviour after a reset depends on what happened before it", history=hh, got=p[:2], expected=clean[:2])
            R.state(job["net"], hh, canon(p[0][0], 6))
            R.outcome(res if isinstance(res, str) else ("step" if k < 3 else "reset"))
            R.trace()
            if len(hh) < job["depth"]:
                rec(g, hh)

    rec(h, [])


def job_deep(job, R):
    """Long histories."""
    h = Hist(job["net"])
    h.env.reset(seed=1)
    clean = probe(copy.deepcopy(h).env, h.acts)
    for i in range(job["n"]):
        h.op(job["ops"][i % len(job["ops"])])
        R.step()
        if i % 24 == 23 or i in (49, 98, 99, 100):
            p = probe(copy.deepcopy(h).env, h.acts)
            R.step(4)
            R.check(p == clean, "the behaviour after a reset depends on what happened before it", operations=job["ops"], length=i + 1, got=p[:2], expected=clean[:2])
            R.state(job["net"], job["ops"], i)
    R.outcome("long histories")
    R.trace()


# -- (c) the state vector is sufficient ----------------------------------------------------------------------
def everything(env, term):
    if term:
        return None
    st = env.simulator.state
    out = []
    for q in ("dev_p", "dev_q", "bus_p", "bus_q", "branch_p", "branch_q", "branch_s", "des_soc", "gen_p_max", "bus_v_magn", "bus_v_ang"):
        u = "rad" if "ang" in q else "pu"
        out += [float(v) for v in st[q][u].values()]
    return np.array(out)


def job_mid(job, R):
    name = job["net"]
    net = zoo.NETS[name]
    rn = RNet(net["raw"])
    env = zoo.env(name, K=2, soc_frac=0.4)
    env.reset(seed=2)
    acts = X.env_actions(rn, env, "few")
    acts = [acts[0], acts[-1], acts[len(acts) // 3]][:job["acts"]]
    tol = 5e-4

    def rec(env, hist):
        if hist:
            vec = np.array(env.state, float).copy()
            other = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=2, s0_vec=vec)
            o, _ = other.reset()
            R.step()
            ctx = dict(net=name, history=hist, state=vec)
            R.close(np.array(o, float), vec, 2e-4 * rn.base, "resetting to a reached state does not reproduce it", **ctx)
            R.close(everything(other, False), everything(env, False), tol, "a reset to a reached state has different electrical quantities", **ctx)
            for k, a in enumerate(acts[:2]):
                x, y = copy.deepcopy(env), copy.deepcopy(other)
                rx, ry = x.step(a), y.step(a)
                R.step(2)
                R.check(bool(rx[2]) == bool(ry[2]), "continuing from a reset to a reached state terminates differently", action=k, **ctx)
                if not rx[2]:
                    R.close(everything(x, False), everything(y, False), tol, "an environment reset to a reached state continues differently",
                            action=k, **ctx)
                    R.close(rx[1], ry[1], tol * max(1, net["lamb"]), "rewards differ after a reset to a reached state", action=k, **ctx)
            R.trace()
            R.state(name, canon(vec, 4))
            R.outcome("replayed state")
        if len(hist) < job["depth"]:
            for k, a in enumerate(acts):
                e = copy.deepcopy(env)
                _, _, term, _, _ = e.step(a)
                R.step()
                if not term:
                    rec(e, hist + [k])
                else:
                    R.outcome("collapse")

    rec(env, [])


def job_easy(job, R):
    from gym_anm.envs import ANM6Easy

    class E(ANM6Easy):
        vec = None

        def init_state(self):
            return super().init_state() if self.vec is None else self.vec.copy()

    import datetime
    env = E()
    s = None
    for seed in range(400):
        o, _ = env.reset(seed=seed)
        if int(round(o[-1])) == job["t"]:
            break
    lo, hi = env.action_space.low, env.action_space.high
    acts = [lo + f * (hi - lo) for f in (0.2, 0.9, 0.5)]
    for k in range(5):
        vec = np.array(env.state, float).copy()
        other = E()
        other.vec = vec
        o, _ = other.reset()
        ctx = dict(t=job["t"], step=k, state=vec)
        R.close(np.array(o, float), vec, 2e-2, "resetting ANM6Easy to a reached state does not reproduce it", **ctx)
        for a in acts:
            x = copy.deepcopy(env)
            y = copy.deepcopy(other)
            rx, ry = x.step(a), y.step(a)
            R.step(2)
            R.close(np.array(rx[0], float), np.array(ry[0], float), 2e-2, "ANM6Easy continues differently from a reset to a reached state", **ctx)
            R.close(rx[1], ry[1], 5e-2, "ANM6Easy rewards differ after a reset to a reached state", **ctx)
            R.trace()
        env.step(acts[k % 3])
        R.step()
        R.state("easy", canon(vec, 4))
    R.outcome("easy")


def run_job(job, R):
    {"init": job_init, "hist": job_hist, "deep": job_deep, "mid": job_mid, "easy": job_easy}[job["kind"]](job, R)
