"""C07: storage obeys energy conservation with efficiency losses and its charge limits, over all action histories."""
import copy
import itertools

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "7 networks with 1-3 storage units: every sequence of up to 3-4 operations from 5-9 set-point vectors, from 2-3 initial "
                   "charges; long charge / discharge / mixed histories; one day of ANM6Easy",
          "thorough": "sequences of up to 5-6 operations, more initial charges, 3 time steps"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u. on injections, hence 2e-4 * dt / efficiency on the charge next to a limit"]

NETS = {"duo": 1, "mesh": 1, "gap": 2, "none": 1, "asym": 3, "store": 2, "anm6": 1}


def jobs(tier):
    out = []
    for n, k in NETS.items():
        depth = {1: 4, 2: 3, 3: 2}[k] if tier == "quick" else {1: 6, 2: 4, 3: 4}[k]
        for f in ((0.1, 0.9) if tier == "quick" else (0.0, 0.1, 0.5, 0.9, 1.0)):
            for first in range(len(ops(RNet(zoo.NETS[n]["raw"])))):
                for dt in ((None,) if tier == "quick" else (None, 0.1, 3.0)):
                    out.append({"kind": "dfs", "net": n, "soc": f, "first": first, "depth": depth, "dt": dt})
        for pat in ("charge", "discharge", "cycle", "tiny", "nibble"):
            out.append({"kind": "long", "net": n, "pattern": pat, "n": 120 if tier == "quick" else 500})
    for k in range(2):
        out.append({"kind": "easy", "seed": k, "n": 48 if tier == "quick" else 300})
    return out


def levels(d, base, rich):
    hi = (d.pmax if np.isfinite(d.pmax) else 1.5) * base
    lo = (d.pmin if np.isfinite(d.pmin) else -1.5) * base
    out = [(1.3 * lo - 0.1 * base, 0.3 * base), (1.3 * hi + 0.1 * base, -0.2 * base)]
    if rich:
        out += [(0.11 * lo, 0.0), (0.13 * hi, 0.1 * base), (0.0, 0.4 * base)]
    else:
        out += [(0.12 * hi + 0.07 * lo, 0.1 * base)]
    return out


def ops(rn):
    """Operations: scenario index + set-points of all controllable devices."""
    out = []
    combos = itertools.product(*[levels(d, rn.base, len(rn.des) == 1) for d in rn.des])
    for k, c in enumerate(combos):
        ps, qs = {}, {}
        for d in rn.gens:
            ps[d.id], qs[d.id] = zoo.setpoints(d, rn.base, "two")[k % 2]
        for d, (p, q) in zip(rn.des, c):
            ps[d.id], qs[d.id] = float(p), float(q)
        out.append((k, ps, qs))
    return out


class Ledger:
    """Energy account of one unit along a history (p.u. hours)."""

    def __init__(self, d, soc):
        self.d, self.soc0, self.soc, self.inn, self.out, self.slack = d, soc, soc, 0.0, 0.0, 0.0

    def fork(self):
        return copy.copy(self)

    def step(self, R, p, soc, dt, label):
        d = self.d
        want = RNet.next_soc(d, self.soc, p, dt)
        raw = self.soc - dt * p * d.eff if p <= 0 else (self.soc - dt * p / d.eff if d.eff > 0 else self.soc)
        near = raw > d.socmax - 1e-9 or raw < d.socmin + 1e-9
        tol = 2e-4 * dt * max(1.0, 1 / d.eff if d.eff else 1.0) if near else 1e-9
        ctx = dict(unit=d.id, before=self.soc, injection=p, after=soc, eff=d.eff, dt=dt, step=label)
        R.check(abs(soc - want) <= tol, "the charge does not change by the energy exchanged net of losses", expected=want, **ctx)
        R.check(abs(soc - raw) <= 2e-4 * dt * max(1.0, 1 / d.eff if d.eff else 1.0) + 1e-9,
                "energy is created or destroyed at a charge limit", expected=raw, **ctx)
        R.check(d.socmin - 1e-9 <= soc <= d.socmax + 1e-9, "the charge leaves its limits", **ctx)
        self.slack += abs(soc - raw)
        self.soc = soc
        if p < 0:
            self.inn += -p * dt
        else:
            self.out += p * dt
        if d.eff > 0:
            R.check(self.out / d.eff <= self.soc0 - d.socmin + self.inn * d.eff + self.slack + 1e-7,
                    "a unit returned more energy than it stored plus absorbed, net of losses", out=self.out, inn=self.inn, **ctx)
        elif p > 1e-4:
            R.fail("a unit with zero efficiency returned energy", **ctx)


def soc_of(st, rn):
    return {d.id: float(st["des_soc"]["pu"][d.id]) for d in rn.des}


def advance(R, sim, rn, led, op, scen, dt, label):
    _, ps, qs = op
    pl, pp = zoo.split_scen(rn, scen)
    st, _, _, _, conv = sim.transition(dict(pl), dict(pp), dict(ps), dict(qs))
    R.step()
    s = soc_of(st, rn)
    for d in rn.des:
        led[d.id].step(R, float(st["dev_p"]["pu"][d.id]), s[d.id], dt, label)
        R.close(float(st["des_soc"]["MWh"][d.id]), s[d.id] * rn.base, 1e-9 * rn.base, "charge in MWh is inconsistent", unit=d.id)
    R.state(label[0], label[1], len(label[2]), canon(s, 6))
    R.outcome("converged" if conv else "collapsed")
    return conv


def start(R, net, f, dt):
    n = zoo.NETS[net]
    rn = RNet(n["raw"])
    sim = zoo.sim(n["raw"], dt or n["dt"], n["lamb"])
    sim.reset(zoo.s0(rn, n["scen"][0], f))
    R.step()
    s = soc_of(sim.state, rn)
    for d in rn.des:
        R.close(s[d.id], d.socmin + f * (d.socmax - d.socmin), 1e-9, "the initial charge is not the requested one", unit=d.id)
    return n, rn, sim, {d.id: Ledger(d, s[d.id]) for d in rn.des}


def run_job(job, R):
    if job["kind"] == "easy":
        return easy(job, R)
    net = job["net"]
    if job["kind"] == "long":
        n, rn, sim, led = start(R, net, 0.5, None)
        dt = n["dt"]
        for i in range(job["n"]):
            ps, qs = {}, {}
            for d in rn.gens:
                ps[d.id], qs[d.id] = 0.0, 0.0
            for j, d in enumerate(rn.des):
                hi = (d.pmax if np.isfinite(d.pmax) else 1.5) * rn.base
                lo = (d.pmin if np.isfinite(d.pmin) else -1.5) * rn.base
                rate = {"charge": lo, "discharge": hi, "cycle": (lo, hi)[(i // 3 + j) % 2], "tiny": 1e-3 * (hi, lo)[(i + j) % 2],
                        "nibble": (0.21 * lo, 0.17 * hi, 0.05 * lo)[(i + j) % 3]}[job["pattern"]]
                ps[d.id], qs[d.id] = float(rate), 0.0
            advance(R, sim, rn, led, (0, ps, qs), n["scen"][i % len(n["scen"])], dt, [net, job["pattern"], [i]])
        R.trace()
        R.sample({"net": net, "pattern": job["pattern"], "final charge": {i: L.soc for i, L in led.items()}})
        return
    n, rn, sim, led = start(R, net, job["soc"], job["dt"])
    dt = job["dt"] or n["dt"]
    alphabet = ops(rn)

    def rec(sim, led, hist):
        todo = [job["first"]] if not hist else range(len(alphabet))
        for k in todo:
            s2 = copy.deepcopy(sim)
            l2 = {i: L.fork() for i, L in led.items()}
            advance(R, s2, rn, l2, alphabet[k], n["scen"][(k + len(hist)) % len(n["scen"])], dt, [net, job["soc"], hist + [k]])
            if len(hist) + 1 < job["depth"]:
                rec(s2, l2, hist + [k])
            else:
                R.trace()

    rec(sim, led, [])
    R.sample({"net": net, "initial": job["soc"], "first": alphabet[job["first"]]})


def easy(job, R):
    from gym_anm.envs import ANM6Easy
    env = ANM6Easy()
    o, _ = env.reset(seed=11 + job["seed"])
    rn = RNet(zoo.anm6_raw())
    led = {6: Ledger(rn.dev[6], float(o[14]) / rn.base)}
    lo, hi = env.action_space.low, env.action_space.high
    for i in range(job["n"]):
        a = 0.5 * (lo + hi)
        a[4] = (lo, hi)[(i // (5 + job["seed"])) % 2][4] * (0.3 + 0.2 * (i % 4))
        a[5] = (hi[5], -3.0, lo[5])[i % 3]
        o, r, term, _, _ = env.step(a)
        R.step()
        if term:
            break
        led[6].step(R, float(o[6]) / rn.base, float(o[14]) / rn.base, 0.25, ["easy", i])
        R.state("easy", canon(o, 5))
    R.trace()
