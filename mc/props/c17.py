"""C17: observations contain exactly the requested quantities, in the requested order and units."""
import itertools

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet
from .c09 import UNITS, factor, ref_bounds, same, loose

LEVEL = "model_checking"
BOUNDS = {"quick": "4 networks: every quantity x id selection (all, each id, reversed, subset, repeated) x unit (default and each), every ordered pair of "
                   "quantities on one network, long mixed specifications, full state, 6 functions of the state; reset and 2 steps each",
          "thorough": "all networks, all ordered pairs on 3 networks, triples, longer histories"}
ASSUMPTIONS = ["the p.u. / rad values of the simulator are right (C01, C02, C05); conversions are recomputed here"]
DEFAULT = {q: u[0] for q, u in UNITS.items()}
INF = float("inf")


def tight_slack():
    """duo with a slack device whose limits are exceeded in operation: observations are clipped there."""
    r = zoo.get("duo")
    r["device"][0][4:8] = [1.0, -1.0, 0.5, -0.5]
    return r


def rawnet(name):
    return tight_slack() if name == "tight" else zoo.get(name)


def scens(name):
    return zoo.NETS["duo" if name == "tight" else name]["scen"]


def ids_of(rn, q, K):
    if q == "aux":
        return list(range(K))
    return {"bus": [b.id for b in rn.buses], "dev": [d.id for d in rn.devs], "des": [d.id for d in rn.des], "gen": [d.id for d in rn.gens],
            "bra": [(b.f, b.t) for b in rn.branches]}[q[:3]]


def selections(ids):
    out = ["all"] + [[i] for i in ids]
    if len(ids) > 1:
        out += [list(reversed(ids)), ids[1:] + ids[:1], ids[::2], [ids[-1], ids[0], ids[-1]]]
    return out


def singles(rn, K):
    for q in list(UNITS) + ["aux"]:
        ids = ids_of(rn, q, K)
        if not ids:
            continue
        for s in selections(ids):
            for u in (("default",) + (UNITS[q] if q != "aux" else (None,))):
                yield [(q, s) if u == "default" else (q, s, u)]


def pairs(rn, K):
    qs = [q for q in list(UNITS) + ["aux"] if ids_of(rn, q, K)]
    for k, (a, b) in enumerate(itertools.product(qs, qs)):
        ia, ib = ids_of(rn, a, K), ids_of(rn, b, K)
        ua = (UNITS[a] if a != "aux" else (None,))
        ub = (UNITS[b] if b != "aux" else (None,))
        e1 = (a, selections(ia)[k % len(selections(ia))], ua[k % len(ua)])
        e2 = (b, selections(ib)[(k // 2) % len(selections(ib))]) if k % 3 else (b, "all", ub[(k // 3) % len(ub)])
        yield [e1, e2]


def longs(rn, K, n):
    """Specifications made of every quantity, rotated and with alternating units."""
    qs = [q for q in list(UNITS) + ["aux"] if ids_of(rn, q, K)]
    for k in range(n):
        spec = []
        for j in range(len(qs)):
            q = qs[(j * (1 if k % 2 else -1) + k) % len(qs)]
            us = UNITS[q] if q != "aux" else (None,)
            sel = selections(ids_of(rn, q, K))
            e = [q, sel[(j + k) % len(sel)]]
            if (j + k) % 3:
                e.append(us[(j + k) % len(us)])
            spec.append(tuple(e) if k % 3 else list(e))
        yield spec


def specs(name, tier, kind):
    rn = RNet(rawnet(name))
    K = 2
    if kind == "single":
        return list(singles(rn, K))
    if kind == "pair":
        return list(pairs(rn, K))
    return list(longs(rn, K, 24 if tier == "quick" else 120))


def jobs(tier):
    out = []
    nets = ("duo", "gap", "tight", "store") if tier == "quick" else tuple(zoo.NETS) + ("tight",)
    pn = ("gap",) if tier == "quick" else ("gap", "duo", "mesh", "anm6")
    for n in nets:
        for kind in ("single", "long") + (("pair",) if n in pn else ()):
            m = len(specs(n, tier, kind))
            for a in range(0, m, 40):
                out.append({"kind": kind, "net": n, "from": a, "to": min(m, a + 40), "tier": tier})
        out.append({"kind": "call", "net": n, "tier": tier})
        out.append({"kind": "state", "net": n, "tier": tier})
    return out


AUXB = np.array([[-0.5, 0.5], [-INF, 11.0]])


def expand(rn, K, spec):
    """[(quantity, id, unit)] in order."""
    out = []
    for e in spec:
        q, s = e[0], e[1]
        u = e[2] if len(e) == 3 else (DEFAULT[q] if q != "aux" else None)
        for i in (ids_of(rn, q, K) if isinstance(s, str) else s):
            out.append((q, i, u))
    return out


def expected(rn, K, entries, st, aux):
    out = []
    for q, i, u in entries:
        if q == "aux":
            out.append(float(aux[i]))
        else:
            ref = "rad" if q.endswith("ang") else "pu"
            out.append(float(st[q][ref][i]) * factor(rn, q, u, i))
    return np.array(out, float)


def bounds(rn, entries, B, auxb):
    lo, hi = [], []
    for q, i, u in entries:
        if q == "aux":
            l, h = (-INF, INF) if auxb is None else auxb[i]
        else:
            f = factor(rn, q, u, i)
            l, h = (v * f for v in B[q][i])
        lo.append(l)
        hi.append(h)
    return np.array(lo, float), np.array(hi, float)


def play(R, name, spec, entries, auxb, label, acts_n=2, K=2):
    raw = rawnet(name)
    rn = RNet(raw)
    B = ref_bounds(rn)
    keep = repr(spec)
    net = zoo.NETS["duo" if name == "tight" else name]
    env = zoo.make_env(raw, net["scen"], net["dt"], net["lamb"], observation=spec, K=K, aux_bounds=auxb)
    R.check(repr(spec) == keep, "the observation specification of the caller is modified", spec=keep)
    lo, hi = bounds(rn, entries, B, auxb)
    sp = env.observation_space
    ctx = dict(net=name, spec=keep)
    if not R.check(sp.shape == lo.shape, "the observation space has the wrong size", got=sp.shape, expected=lo.shape, **ctx):
        return
    for k, e in enumerate(entries):
        R.check(loose(e[0], float(sp.low[k]), lo[k]) and same(float(sp.high[k]), hi[k]), "an observation bound is not the advertised one",
                entry=e, got=(sp.low[k], sp.high[k]), expected=(lo[k], hi[k]), **ctx)
    acts = X.env_actions(rn, env, "two")
    o, _ = env.reset(seed=2)
    aux = [0.0, 10.0]
    for t in range(acts_n + 1):
        R.step()
        st = env.simulator.state
        want = np.clip(expected(rn, K, entries, st, aux), lo, hi)
        got = np.asarray(o, float)
        if R.check(got.shape == want.shape, "an observation has the wrong size", got=got.shape, expected=want.shape, step=t, **ctx):
            bad = np.where(np.abs(got - want) > 1e-9 * np.maximum(1, np.abs(want)))[0]
            R.check(len(bad) == 0, "an observation entry is not the requested quantity in the requested unit", step=t,
                    entries=[(entries[k], got[k], want[k]) for k in bad[:4]], **ctx)
        R.state(name, keep, t)
        R.outcome(label)
        if t == acts_n:
            break
        o, _, term, _, _ = env.step(acts[(3 * t + 1) % len(acts)])
        if term:
            break
        aux = [float((int(aux[0]) + 1) % len(net["scen"])), aux[1] + 1]
    R.trace()


FUNS = {
    "first": lambda s: s[:3],
    "reverse": lambda s: s[::-1],
    "sum": lambda s: np.array([np.sum(s), s[-1]]),
    "same": lambda s: s.copy(),
    "consts": lambda s: np.array([1.0, -2.0, s[0] * s[0]]),
    "one": lambda s: s[-2:-1] * 1.0,
}


def job_call(job, R):
    from gymnasium import spaces
    from gym_anm.envs import ANMEnv
    name = job["net"]
    raw = rawnet(name)
    rn = RNet(raw)
    net = zoo.NETS["duo" if name == "tight" else name]

    class Bounded(ANMEnv):
        def observation_bounds(self):
            return spaces.Box(-1e6, 1e6, shape=(self.want,), dtype=np.float64)

    for label, f in FUNS.items():
        for own in (False, True):
            cls = None
            if own:
                cls = type("B", (Bounded,), {"want": len(f(np.zeros(len(rn.state_names(2)))))})
            env = zoo.make_env(raw, net["scen"], net["dt"], net["lamb"], observation=f, K=2, cls=cls)
            acts = X.env_actions(rn, env, "two")
            o, _ = env.reset(seed=1)
            for t in range(3):
                R.step()
                want = f(np.asarray(env.state, float).copy())
                R.close(np.asarray(o, float), want, 0, "an observation is not the function of the current state", function=label, step=t, net=name)
                R.check(env.observation_space.shape == want.shape and bool(env.observation_space.contains(o)),
                        "the observation space of a function does not match", function=label, got=env.observation_space)
                b = 1e6 if own else INF
                R.check(bool(np.all(env.observation_space.low == -b) and np.all(env.observation_space.high == b)),
                        "the bounds of the observation space of a function are wrong", function=label, own=own)
                # the state handed over is the true one
                st = env.simulator.state
                full = [st["dev_p"]["MW"][d.id] for d in rn.devs] + [st["dev_q"]["MVAr"][d.id] for d in rn.devs] + \
                       [st["des_soc"]["MWh"][d.id] for d in rn.des] + [st["gen_p_max"]["MW"][d.id] for d in rn.gens]
                R.close(np.asarray(env.state, float)[:-2], full, 1e-9 * rn.base, "the state vector is not the current state", function=label)
                R.state(name, label, own, t, canon(o, 5))
                R.outcome("function")
                o, _, term, _, _ = env.step(acts[t % len(acts)])
                if term:
                    break
            R.trace()


def run_job(job, R):
    if job["kind"] == "call":
        return job_call(job, R)
    rn = RNet(rawnet(job["net"]))
    n = 2 if job["tier"] == "quick" else 4
    if job["kind"] == "state":
        for K, auxb in ((2, None), (2, AUXB), (0, None), (1, AUXB[:1])):
            ents = expand(rn, K, [("dev_p", "all", "MW"), ("dev_q", "all", "MVAr"), ("des_soc", "all", "MWh"), ("gen_p_max", "all", "MW"), ("aux", "all", None)])
            play(R, job["net"], "state", ents, auxb, "state", 4, K)
        return
    for k, spec in enumerate(specs(job["net"], job["tier"], job["kind"])[job["from"]:job["to"]]):
        play(R, job["net"], spec, expand(rn, 2, spec), AUXB if k % 2 else None, job["kind"], n)
    R.sample({"net": job["net"], "spec": str(spec)})
