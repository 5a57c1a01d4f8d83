"""C01: power-flow equations hold in every converged state."""
import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks x scenarios x SoC x set-point products (1 step), pair-covering walks of 7 operations, "
                   "all connected graphs on 2-4 labelled buses x slack positions",
          "thorough": "as quick with 5 set-points per device, 6 charges, 16-operation walks, 5-bus graphs"}
ASSUMPTIONS = ["tolerance 2e-5 p.u. on power balances (the documented solver tolerance is 1e-5)"]
TOL = 2e-5
IDMAPS = {0: None, 1: [40, 7, 12, 3, 25], 2: [2, 3, 9, 30, 31]}


def jobs(tier):
    out = X.lattice_jobs(tier) + X.walk_jobs(tier)
    for n in (2, 3, 4):
        for slack in range(n):
            for part in range(1 if n < 4 else 3):
                out.append({"kind": "graph", "n": n, "slack": slack, "part": [part, 1 if n < 4 else 3]})
    if tier == "thorough":
        for slack in (0, 2, 4):
            for part in range(8):
                out.append({"kind": "graph", "n": 5, "slack": slack, "part": [part, 8]})
    return out


BR = [(0.02, 0.05, 0.03, None, None), (0.01, 0.08, None, 1.03, None), (0.03, 0.04, 0.1, 0.96, 3), (None, 0.06, 0, 1.0, 358),
      (0.05, None, 0.02, None, 2)]


def graph_net(n, edges, slack, idmap):
    ids = idmap or list(range(n))
    bus = [[ids[i], 0 if i == slack else 1, 20, 1.03 if i == slack else 1.2, 0.8] for i in range(n)]
    br = []
    for k, (a, b) in enumerate(edges):
        r, x, c, tap, sh = BR[(k + a) % len(BR)]
        f, t = (a, b) if (a + b + k) % 2 == 0 else (b, a)
        br.append([ids[f], ids[t], r, x, c, 5, tap, sh])
    dev = [[0, ids[slack], 0, None, 99, -99, 99, -99] + [None] * 7]
    did = 1
    for i in range(n):
        dev.append([did, ids[i], -1, 0.3 - 0.2 * i, 0, -9] + [None] * 9)
        did += 1
        if i % 2 == 1:
            dev.append([did, ids[i], 1, None, 9, 0, 5, -5] + [None] * 7)
            did += 1
    if idmap:
        bus = bus[::-1]
        dev = dev[1:] + dev[:1]
    return zoo.raw(10, bus, dev, br)


def check_step(s, R):
    """All invariants of C01 on one executed step."""
    rn, st = s.rn, s.st
    X.key_state(R, s)
    R.outcome("%s %s" % (s.kind, "converged" if s.conv else "collapsed"))
    if not s.conv:
        return
    ctx = dict(step=s.label)
    V = X.volt(st, rn)
    P, Q = [X.num(st, q, "pu", [b.id for b in rn.buses]) for q in ("bus_p", "bus_q")]
    inj = X.inj_reported(st, rn)
    tot = rn.bus_injections(inj)
    grid = V * np.conj(rn.Y @ V)
    k = rn.pos[rn.slack_bus.id]
    R.close(P, tot.real, 1e-7, "bus P is not the sum of the injections of its devices", **ctx)
    R.close(Q, tot.imag, 1e-7, "bus Q is not the sum of the injections of its devices", **ctx)
    R.close(P, grid.real, TOL, "active power balance violated in a converged state", **ctx)
    R.close(Q, grid.imag, TOL, "reactive power balance violated in a converged state", **ctx)
    R.close(abs(V[k]), rn.slack_bus.vmax, 1e-9, "slack bus voltage magnitude is not its specified value", **ctx)
    R.close(np.angle(V[k]), 0.0, 1e-9, "slack bus voltage angle is not zero", **ctx)
    sl = rn.slack_dev
    rest = sum(complex(*inj[d.id]) for d in rn.devs if d.bus == sl.bus and d is not sl)
    need = grid[k] - rest
    R.close(inj[sl.id], (need.real, need.imag), TOL, "slack device does not balance the grid", **ctx)
    cur = np.conj((P + 1j * Q) / V)
    mag = X.num(st, "bus_i_magn", "pu", [b.id for b in rn.buses])
    ang = X.num(st, "bus_i_ang", "rad", [b.id for b in rn.buses])
    scale = 1.0 / np.minimum(1.0, np.abs(V))
    if np.any(np.abs(mag * np.exp(1j * ang) - cur) > 2 * TOL * scale):
        R.fail("bus currents are not those of the injections at the voltages", got=mag * np.exp(1j * ang), expected=cur, **ctx)


def run_job(job, R):
    if job["kind"] != "graph":
        for s in X.steps(job, R):
            check_step(s, R)
            R.sample({"step": s.label, "conv": s.conv})
        return
    part, m = job["part"]
    for g, edges in enumerate(X.connected_graphs(job["n"])):
        if g % m != part:
            continue
        for im in (0, 1, 2):
            raw = graph_net(job["n"], edges, job["slack"], IDMAPS[im])
            rn = RNet(raw)
            sim = zoo.sim(raw, 1.0, 10)
            for lv in ((-0.5, 0.4), (-2.0, 1.5)):
                scen = {d.id: lv[0] * (1 + 0.3 * i) for i, d in enumerate(rn.loads)}
                scen.update({d.id: lv[1] * (1 + 0.5 * i) for i, d in enumerate(rn.gens)})
                s = zoo.s0(rn, scen)
                for i, d in enumerate(rn.devs):
                    if d.is_gen and not d.slack:
                        s[i], s[len(rn.devs) + i] = scen[d.id], 0.3
                conv = bool(sim.reset(s))
                R.step()
                step = X.Step(sim=sim, rn=rn, kind="reset", st=sim.state, conv=conv, dt=1.0, lamb=10,
                              label=["graph", edges, job["slack"], im, lv])
                check_step(step, R)
                R.trace()
