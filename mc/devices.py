"""Exhaustive device-level lattice: many specifications, all driven through Simulator.transition."""
import itertools

import numpy as np

from . import zoo
from .ref import RDev, RNet

N = None


def gen_specs(tier):
    """(type, P limits, Q limits, P+, Q+, Q-) in MW on base 10."""
    PR = [(10, 0), (10, 4), (6, 6), (N, N), (10, N)]
    QR = [(5, -3), (5, 2), (-1, -4), (N, N), (0, 0), (N, -3), (5, N)]
    out = []
    for (pmax, pmin), (qmax, qmin) in itertools.product(PR, QR):
        lo, hi = pmin or 0, pmax if pmax is not None else 15
        PP = {N, 0.4 * lo + 0.6 * hi, lo, hi}
        ql, qh = -6 if qmin is None else qmin, 7 if qmax is None else qmax
        QQ = {(N, N), (0.7 * qh + 0.3 * ql, 0.8 * ql + 0.2 * qh), (0.5 * (qh + ql), 0.5 * (qh + ql)), (0.6 * qh + 0.4 * ql, N),
              (N, 0.6 * ql + 0.4 * qh)}
        for pp, (qp, qm) in itertools.product(sorted(PP, key=str), sorted(QQ, key=str)):
            if pp is None and qp is not None and qm is not None and tier == "quick" and pmax != 10:
                continue
            out.append([pmax, pmin, qmax, qmin, pp, N, qp, qm])
    return out


def des_specs(tier):
    """(P limits, Q limits, P+, P-, Q+, Q-, SoC limits, efficiency)."""
    PR = [(6, -5), (6, 0), (0, -5), (N, N)]
    QR = [(4, -3), (4, 1), (N, N), (0, 0)]
    SH = ["none", "both", "plus", "minus", "point"]
    EF = [N, 0.5, 0.9] if tier == "quick" else [N, 0.0, 0.25, 0.5, 0.9, 1.0]
    out = []
    for (pmax, pmin), (qmax, qmin), sh, eff in itertools.product(PR, QR, SH, EF):
        hi, lo = 8 if pmax is None else pmax, -8 if pmin is None else pmin
        qh, ql = 5 if qmax is None else qmax, -5 if qmin is None else qmin
        pp = pm = qp = qm = N
        if sh in ("both", "plus"):
            pp, qp, qm = 0.6 * hi + 0.4 * lo, 0.7 * qh + 0.3 * ql, 0.8 * ql + 0.2 * qh
        if sh in ("both", "minus"):
            pm, qp, qm = 0.3 * hi + 0.7 * lo, 0.7 * qh + 0.3 * ql, 0.8 * ql + 0.2 * qh
        if sh == "point":
            pp = pm = 0.5 * (hi + lo)
            qp, qm = 0.6 * qh + 0.4 * ql, 0.6 * qh + 0.4 * ql
        out.append([pmax, pmin, qmax, qmin, pp, pm, qp, qm, 9, 1.5, eff])
    return out


def grid(d, kind):
    """Set-points (MW, MVAr) covering every face, vertex, inside and outside of device d's box."""
    b = 10.0
    pl = d.pmin * b if np.isfinite(d.pmin) else (-12.0 if d.is_des else 0.0)
    ph = d.pmax * b if np.isfinite(d.pmax) else 15.0
    ql, qh = (d.qmin * b if np.isfinite(d.qmin) else -6.0), (d.qmax * b if np.isfinite(d.qmax) else 7.0)
    P = [pl - 7, pl, 0.8 * pl + 0.2 * ph, 0.45 * pl + 0.55 * ph, 0.15 * pl + 0.85 * ph, ph, ph + 3]
    Q = [ql - 4, ql, 0.75 * ql + 0.25 * qh, 0.3 * ql + 0.7 * qh, qh, qh + 9]
    if kind == "thorough":
        P += [0.0, 0.6 * pl + 0.4 * ph, 1e3, -1e3]
        Q += [0.0, 0.5 * (ql + qh), 1e3, -1e3]
    return list(itertools.product(P, Q)) + [(0.0, 0.0), (200.0, -150.0)]


def jobs(tier):
    g, s = len(gen_specs(tier)), len(des_specs(tier))
    m = 8
    out = [{"kind": "gen", "from": i, "to": min(g, i + m), "tier": tier} for i in range(0, g, m)]
    out += [{"kind": "des", "from": i, "to": min(s, i + m), "tier": tier} for i in range(0, s, m)]
    out.append({"kind": "load", "tier": tier})
    return out


def network(devs):
    """Slack + one bus behind a very strong line carrying the given device rows."""
    dev = [[0, 0, 0, N, N, N, N, N] + [N] * 7] + devs
    return zoo.raw(10, [[0, 0, 20, 1.0, 1.0], [1, 1, 20, 1.2, 0.8]], dev, [[0, 1, 1e-4, 1e-3, N, N, N, N]])


def cases(job, R):
    """Yields (kind, RDev, halfplanes or None, requested (p, q), applied (p, q), label), everything in p.u."""
    tier = job["tier"]
    if job["kind"] == "load":
        yield from load_cases(R)
        return
    if job["kind"] == "gen":
        specs = gen_specs(tier)[job["from"]:job["to"]]
        rows = [[3 * k + 2, 1, 1 + (k % 2), N] + s + [N, N, N] for k, s in enumerate(specs)]
    else:
        specs = des_specs(tier)[job["from"]:job["to"]]
        rows = [[3 * k + 2, 1, 3, N] + s for k, s in enumerate(specs)]
    raw = network(rows)
    rn = RNet(raw)
    devs = rn.gens + rn.des
    grids = {d.id: grid(d, tier) for d in devs}
    n = len(next(iter(grids.values())))
    if job["kind"] == "gen":
        sim = zoo.sim(raw, 1.0, 1)
        fracs = (0.35, 1.2, -0.1) if tier == "quick" else (0.35, 0.0, 0.7, 1.2, -0.1)
        for fi, f in enumerate(fracs):
            for k in range(n):
                if tier == "quick" and fi and k % 3 != fi:
                    continue
                pot = {}
                for d in devs:
                    lo, hi = d.pmin, d.pmax if np.isfinite(d.pmax) else 1.5
                    pot[d.id] = 10 * (lo + f * (hi - lo if hi > lo else 1.0))
                ps, qs = {d.id: grids[d.id][k][0] for d in devs}, {d.id: grids[d.id][k][1] for d in devs}
                st = sim.transition({}, pot, ps, qs)[0]
                R.step()
                for d in devs:
                    yield ("gen", d, d.halfplanes(ppot=pot[d.id] / 10), (ps[d.id] / 10, qs[d.id] / 10),
                           (st["dev_p"]["pu"][d.id], st["dev_q"]["pu"][d.id]), [rows[devs.index(d)], f, k], pot[d.id] / 10)
    else:
        for dt, f in [(0.5, 0.0), (0.5, 0.3), (2.0, 0.6), (0.25, 1.0), (0.02, 0.02)] if tier == "quick" else \
                itertools.product((0.01, 0.05, 0.5, 2.0), (0.0, 0.01, 0.3, 0.6, 0.99, 1.0)):
            sim = zoo.sim(raw, dt, 1)
            for k in range(n):
                if tier == "quick" and (dt, f) in ((0.5, 0.3), (0.25, 1.0), (0.02, 0.02)) and k % 3 != int(f):
                    continue
                s0 = zoo.s0(rn, {}, f)
                # the reset drives the devices to rest; SoC is then exactly the requested one
                sim.reset(s0)
                soc = {d.id: float(sim.state["des_soc"]["pu"][d.id]) for d in devs}
                ps, qs = {d.id: grids[d.id][k][0] for d in devs}, {d.id: grids[d.id][k][1] for d in devs}
                st = sim.transition({}, {}, ps, qs)[0]
                R.step(2)
                for d in devs:
                    yield ("des", d, d.halfplanes(soc=soc[d.id], dt=dt), (ps[d.id] / 10, qs[d.id] / 10),
                           (st["dev_p"]["pu"][d.id], st["dev_q"]["pu"][d.id]), [rows[devs.index(d)], dt, f, k], soc[d.id])


def load_cases(R):
    specs = list(itertools.product((N, 0, -2), (N, -10, -2), (0.3, 0, -0.7, 2)))
    rows = [[3 * k + 2, 1, -1, qp, pmax, pmin] + [N] * 9 for k, (pmax, pmin, qp) in enumerate(specs)]
    raw = network(rows)
    rn = RNet(raw)
    sim = zoo.sim(raw, 1.0, 1)
    for p in (-1000, -11, -10, -5, -2, -1, 0, 1, 50):
        st = sim.transition({d.id: float(p) for d in rn.loads}, {}, {}, {})[0]
        R.step()
        for d in rn.loads:
            yield ("load", d, None, (p / 10, None), (st["dev_p"]["pu"][d.id], st["dev_q"]["pu"][d.id]),
                   [rows[(d.id - 2) // 3], p], None)
