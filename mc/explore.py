"""Shared drivers: exhaustive one-step lattices and pair-covering walks on the real Simulator."""
import itertools

import numpy as np

from . import zoo
from .ref import RNet


class Step:
    """One executed transition (or reset) of the real simulator."""
    __slots__ = ("sim", "rn", "kind", "soc", "p_load", "p_pot", "p_set", "q_set", "st", "reward", "e_loss",
                 "penalty", "conv", "dt", "lamb", "label", "init")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


KINDS = {
    "quick": {"duo": "out", "mesh": "few", "gap": "three", "none": "few", "asym": "two", "passive": "few",
              "gens": "few", "store": "out", "weak": "few", "anm6": "few"},
    "thorough": {"duo": "out", "mesh": "out", "gap": "few", "none": "out", "asym": "few", "passive": "out",
                 "gens": "out", "store": "out", "weak": "out", "anm6": "out"},
}
SOCS = {"quick": (0.0, 0.5, 1.0), "thorough": (0.0, 0.02, 0.3, 0.5, 0.9, 1.0)}


def lattice_jobs(tier, nets=None, chunks=1):
    out = []
    for name in nets or zoo.NETS:
        n = zoo.NETS[name]
        rn = RNet(n["raw"])
        socs = SOCS[tier] if rn.des else (0.5,)
        for k in range(len(n["scen"])):
            for f in socs:
                for c in range(chunks):
                    out.append({"kind": "lattice", "net": name, "scen": k, "soc": f, "set": KINDS[tier][name],
                                "chunk": [c, chunks]})
    return out


def walk_jobs(tier, nets=None, size=None):
    out = []
    for name in nets or zoo.NETS:
        out.append({"kind": "walk", "net": name, "ops": size or (7 if tier == "quick" else 16)})
    return out


def run_reset(sim, rn, scen, soc, dt, lamb, label, R=None):
    s = zoo.s0(rn, scen, soc)
    conv = sim.reset(s)
    if R is not None:
        R.step()
    return Step(sim=sim, rn=rn, kind="reset", st=sim.state, conv=bool(conv), dt=dt, lamb=lamb, label=label, init=s)


def run_transition(sim, rn, scen, ps, qs, dt, lamb, label, R=None):
    pl, pp = zoo.split_scen(rn, scen)
    soc = {d.id: float(sim.state["des_soc"]["pu"][d.id]) for d in rn.des}
    st, r, e, pen, conv = sim.transition(dict(pl), dict(pp), dict(ps), dict(qs))
    if R is not None:
        R.step()
    return Step(sim=sim, rn=rn, kind="transition", soc=soc, p_load=pl, p_pot=pp, p_set=ps, q_set=qs, st=st,
                reward=r, e_loss=e, penalty=pen, conv=bool(conv), dt=dt, lamb=lamb, label=label)


def euler_ops(n):
    """Sequence of operation indices in which every ordered pair (i, j) occurs consecutively (de Bruijn, order 2)."""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n):
            seq += [i, j]
    # seq is the standard FKM concatenation for k=n, n=2
    return seq + seq[:1]


def steps(job, R):
    """Generator of the Steps of a lattice/walk job."""
    name = job["net"]
    n = zoo.NETS[name]
    rn0 = RNet(n["raw"])  # set-points are those of the original network, in MW
    if job.get("base"):
        n = dict(n, raw=zoo.rebase(n["raw"], job["base"]))
    dt, lamb = job.get("dt", n["dt"]), job.get("lamb", n["lamb"])
    rn = RNet(n["raw"])
    sim = zoo.sim(n["raw"], dt, lamb)
    if job["kind"] == "lattice":
        scen = n["scen"][job["scen"]]
        c, m = job.get("chunk", (0, 1))
        for i, (ps, qs) in enumerate(zoo.product_setpoints(rn0, job["set"])):
            if i % m != c:
                continue
            if i == c or rn.des:  # without storage the simulator has no memory the reset could restore
                yield run_reset(sim, rn, scen, job["soc"], dt, lamb, [name, "reset", job["scen"], job["soc"]], R)
            yield run_transition(sim, rn, scen, ps, qs, dt, lamb,
                                 [name, job["scen"], job["soc"], ps, qs], R)
    elif job["kind"] == "walk":
        ops = walk_ops(rn0, n["scen"], job["ops"])
        yield run_reset(sim, rn, n["scen"][0], 0.5, dt, lamb, [name, "reset"], R)
        hist = []
        for i in euler_ops(len(ops)):
            hist.append(i)
            scen, ps, qs = ops[i]
            yield run_transition(sim, rn, scen, ps, qs, dt, lamb, [name, "walk", list(hist[-3:]), len(hist)], R)
        R.trace()
    else:
        raise KeyError(job["kind"])


def walk_ops(rn, scens, size):
    """`size` operations spread over scenarios x set-points (deterministic)."""
    sp = list(zoo.product_setpoints(rn, "few"))
    allops = [(s, p, q) for s in scens for p, q in sp]
    if len(allops) <= size:
        return allops
    stride = len(allops) / size
    return [allops[int(i * stride + (i * 7919) % max(1, int(stride)))] for i in range(size)]


def num(st, quantity, unit, ids):
    d = st[quantity][unit]
    return np.array([float(d[i]) for i in ids])


def volt(st, rn):
    return np.array([complex(float(st["bus_v_magn"]["pu"][b.id]) * np.exp(1j * float(st["bus_v_ang"]["rad"][b.id])))
                     for b in rn.buses])


def inj_reported(st, rn):
    return {d.id: (float(st["dev_p"]["pu"][d.id]), float(st["dev_q"]["pu"][d.id])) for d in rn.devs}


def key_state(R, s):
    from .core import canon
    rn = s.rn
    R.state(s.label[0], s.conv, canon([float(s.st["dev_p"]["pu"][d.id]) for d in rn.devs], 5),
            canon([float(s.st["dev_q"]["pu"][d.id]) for d in rn.devs], 5),
            canon([float(s.st["des_soc"]["pu"][d.id]) for d in rn.des], 5),
            canon([float(s.st["bus_v_magn"]["pu"][b.id]) for b in rn.buses] if s.conv else [], 5))


def connected_graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(1, 2 ** len(pairs)):
        es = [p for i, p in enumerate(pairs) if k >> i & 1]
        comp = {0}
        grew = True
        while grew:
            grew = False
            for a, b in es:
                if (a in comp) != (b in comp):
                    comp |= {a, b}
                    grew = True
        if len(comp) == n:
            yield es


def env_actions(rn, env, kind="few", n=None):
    """Valid actions (clipped to the action space) spread over the set-point product."""
    acts = []
    for ps, qs in zoo.product_setpoints(rn, kind):
        a = np.clip(zoo.action_vector(rn, ps, qs), env.action_space.low, env.action_space.high)
        acts.append(a)
    if n is not None and len(acts) > n:
        stride = len(acts) / n
        acts = [acts[int(i * stride + (i * 7919) % max(1, int(stride)))] for i in range(n)]
    return acts
