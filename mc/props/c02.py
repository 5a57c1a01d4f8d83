"""C02: truthful convergence verdicts, on both sides of the loadability limit."""
import itertools

import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "2-bus grids: 5 impedances x 2 charging x 3 taps x 2 slack voltages x 2 orientations x 7 directions x 6 "
                   "multiples of the loadability limit (closed form); stars of 3 independent feeders; 10 networks x scale lattice",
          "thorough": "as quick with 10 multiples of the limit, more impedances and more scale factors"}
ASSUMPTIONS = ["no verdict is demanded between 0.93 and 1.02 times the loadability limit",
               "grids with phase shifts above 5 degrees, and operating points above 1.4 p.u. or 50 degrees, are only checked for truthful convergence"]
ZS = [(0.01, 0.1), (0.1, 0.1), (0.2, 0.02), (0.0, 0.3), (0.05, 0.0)]
DIRS = [("load", 0.0), ("load", 0.4), ("load", -0.6), ("load", 3.0), ("gen", 0.0), ("gen", 0.5), ("gen", -1.0)]
MULT = {"quick": (0.1, 0.5, 0.8, 0.92, 1.03, 3.0), "thorough": (0.02, 0.1, 0.3, 0.5, 0.7, 0.8, 0.92, 1.03, 1.2, 3.0, 20.0)}


def jobs(tier):
    out = []
    zs = ZS + ([(0.02, 0.02), (0.5, 0.8), (0.001, 0.004)] if tier == "thorough" else [])
    for z, v0, flip in itertools.product(zs, (1.0, 1.06) if tier == "quick" else (1.0, 0.95, 1.06), (0, 1)):
        out.append({"kind": "two", "z": z, "v0": v0, "flip": flip, "mult": MULT[tier]})
    for pos in (0, 1, 3):
        for im in (0, 1):
            out.append({"kind": "star", "pos": pos, "im": im})
    for name in zoo.NETS:
        out.append({"kind": "scale", "net": name, "fac": (0.1, 0.5, 1, 2, 4, 8) if tier == "quick" else
                    (0.05, 0.1, 0.25, 0.5, 1, 1.5, 2, 3, 4, 6, 8, 12, 20)})
    out.append({"kind": "env"})
    return out


def thevenin(rn, i):
    """Open-circuit voltage and impedance seen at bus index i of a grid where it is only joined to the slack bus."""
    k = rn.pos[rn.slack_bus.id]
    return -rn.Y[i, k] * rn.slack_bus.vmax / rn.Y[i, i], 1 / rn.Y[i, i]


def nose(vth, z, s):
    a = (np.conj(z) * s).real
    d = abs(z) * abs(s) - a
    return np.inf if d <= 1e-15 else abs(vth) ** 2 / (2 * d)


def high(vth, z, s):
    """High-voltage solution of u - V conj(Vth) = conj(z) S, u = |V|^2 (assumes solvable)."""
    a, w = (np.conj(z) * s).real, abs(vth) ** 2
    b = 2 * a + w
    u = (b + np.sqrt(max(0.0, b * b - 4 * abs(z * s) ** 2))) / 2
    return (u - np.conj(z) * s) / np.conj(vth)


def normal(v):
    """Operating points for which convergence is promised: below 1.4 p.u. and within 50 degrees of the slack bus."""
    return bool(np.all(np.abs(v) < 1.4) and np.all(np.abs(np.angle(v)) < np.radians(50)))


def two_bus(z, b, tap, sh, v0, flip):
    br = [0, 1, z[0], z[1], b, 5, tap, sh]
    if flip:
        br[0], br[1] = 1, 0
    dev = [[0, 0, 0, None, 99, -99, 99, -99] + [None] * 7]
    for k, (kind, q) in enumerate(DIRS):
        if kind == "load":
            dev.append([k + 1, 1, -1, q] + [None] * 11)
    dev.append([50, 1, 1] + [None] * 12)
    return zoo.raw(10, [[0, 0, 20, v0, v0], [1, 1, 20, 1.1, 0.9]], dev, [br])


def jump(sim, rn, p, q):
    """One transition with given per-unit injections {load: p}, {gen/des: (p, q)}."""
    pl = {d.id: p.get(d.id, 0.0) * rn.base for d in rn.loads}
    pot = {d.id: 1e4 for d in rn.gens}
    ps = {d.id: p.get(d.id, 0.0) * rn.base for d in rn.gens + rn.des}
    qs = {d.id: q.get(d.id, 0.0) * rn.base for d in rn.gens + rn.des}
    return sim.transition(pl, pot, ps, qs)


def verdict(R, st, conv, rn, lam, feeders, label):
    """feeders: {bus index: (vth, z, s)}; lam: largest fraction of the limit over feeders."""
    R.state(label, conv)
    R.step()
    if conv:
        V = X.volt(st, rn)
        res = rn.residual(V, X.inj_reported(st, rn))
        R.check(res < 2e-5, "a step is reported as converged although the power-flow equations do not hold",
                residual=res, case=label)
    if lam > 1.02:
        R.outcome("beyond the limit")
        R.check(not conv, "an operating point beyond the maximum power transfer is reported as converged", case=label, ratio=lam)
    elif lam < 0.93 and all(normal(high(*f)) for f in feeders.values()):
        R.outcome("solvable")
        if R.check(conv, "a solvable operating point is reported as a collapse", case=label, ratio=lam):
            V = X.volt(st, rn)
            for i, (vth, z, s) in feeders.items():
                h = high(vth, z, s)
                R.check(abs(V[i] - h) < 2e-3 * max(1, abs(h)), "the reported voltage is not the high-voltage solution", case=label,
                        got=V[i], expected=h, ratio=lam)
    R.trace()


def run_job(job, R):
    globals()["job_" + job["kind"]](job, R)


def job_two(job, R):
    for b, (tap, sh) in itertools.product((0.0, 0.1), ((None, None), (0.95, 0), (1.05, 5))):
        raw = two_bus(job["z"], b, tap, sh, job["v0"], job["flip"])
        rn = RNet(raw)
        sim = zoo.sim(raw, 1.0, 1)
        vth, z = thevenin(rn, 1)
        for k, (kind, q) in enumerate(DIRS):
            d = -complex(1, q) if kind == "load" else complex(1, q)
            lim = nose(vth, z, d)
            if not np.isfinite(lim):
                lim = 10.0
                real = False
            else:
                real = True
            for m in job["mult"]:
                if not real and m > 0.93:
                    continue
                s = d * lim * m
                if kind == "gen" and abs(s) > 40:
                    continue
                st, _, _, _, conv = jump(sim, rn, {(k + 1 if kind == "load" else 50): s.real},
                                         {50: s.imag if kind == "gen" else 0.0})
                got = complex(*X.inj_reported(st, rn)[50 if kind == "gen" else k + 1])
                # judge the injection that was really applied (projection accuracy)
                lam = abs(got) / (lim * abs(d)) if real else 0.5
                verdict(R, st, bool(conv), rn, lam, {1: (vth, z, got)},
                        [job["z"], b, tap, sh, job["v0"], job["flip"], kind, q, m])
                R.sample({"case": [job["z"], b, tap, sh, kind, q, m], "converged": bool(conv)})


def job_star(job, R):
    """Slack in the middle of three independent feeders: closed form per feeder."""
    ids = [[0, 1, 2, 3], [31, 4, 18, 9]][job["im"]]
    ids = ids[:job["pos"]][::1] + ids[job["pos"]:]
    order = [job["pos"]] + [i for i in range(4) if i != job["pos"]]
    sl, fe = order[0], order[1:]
    zz = [(0.02, 0.1), (0.1, 0.05), (0.05, 0.3)]
    bus = [[ids[i], 0 if i == sl else 1, 20, 1.02 if i == sl else 1.1, 0.9] for i in range(4)]
    br, dev = [], [[0, ids[sl], 0, None, 99, -99, 99, -99] + [None] * 7]
    for k, i in enumerate(fe):
        e = [ids[sl], ids[i]] if k % 2 == 0 else [ids[i], ids[sl]]
        br.append(e + [zz[k][0], zz[k][1], 0.02 * k, 5, [None, 0.97, 1.04][k], None])
        dev.append([k + 1, ids[i], -1, 0.3] + [None] * 11)
    raw = zoo.raw(10, bus, dev, br)
    rn = RNet(raw)
    sim = zoo.sim(raw, 1.0, 1)
    lims = []
    for k, i in enumerate(fe):
        p = rn.pos[ids[i]]
        vth, z = thevenin(rn, p)
        lims.append((p, vth, z, nose(vth, z, -complex(1, 0.3))))
    for ms in itertools.product((0.0, 0.5, 0.9, 1.05), repeat=3):
        p = {k + 1: -ms[k] * lims[k][3] for k in range(3)}
        st, _, _, _, conv = jump(sim, rn, p, {})
        fd = {lims[k][0]: (lims[k][1], lims[k][2], p[k + 1] * complex(1, 0.3)) for k in range(3)}
        verdict(R, st, bool(conv), rn, max(ms), fd, ["star", job["pos"], job["im"], ms])


def job_scale(job, R):
    name = job["net"]
    raw = zoo.get(name)
    for row in raw["device"]:  # remove the injection limits: the requested injections are then applied as they are
        for c in (4, 5, 6, 7, 8, 9, 10, 11):
            row[c] = None
        if row[2] == 3:
            row[12], row[13], row[14] = 1e6, 0, 1.0
    rn = RNet(raw)
    sim = zoo.sim(raw, 0.01, 1)
    big_shift = any((r[7] or 0) > 5 and (r[7] or 0) < 355 for r in raw["branch"])
    sim.reset(zoo.s0(rn, {}, 0.5))
    ctrl = rn.gens + rn.des
    for k, sc in enumerate(zoo.NETS[name]["scen"]):
        for sign, f in itertools.product((1, -0.3, 0), job["fac"]):
            p = {d.id: f * sc.get(d.id, 0.0) / rn.base for d in rn.loads}
            g = {d.id: sign * f * 0.3 * max(abs(v) for v in list(sc.values()) + [1.0]) / rn.base for d in ctrl}
            p.update({d.id: max(0.0, g[d.id]) if d.is_gen else g[d.id] for d in ctrl})
            st, _, _, _, conv = jump(sim, rn, p, {d.id: 0.2 * p[d.id] for d in ctrl})
            conv = bool(conv)
            inj = X.inj_reported(st, rn)
            R.state(name, k, sign, f, conv)
            R.step()
            if conv:
                V = X.volt(st, rn)
                res = rn.residual(V, inj)
                R.check(res < 2e-5, "a step is reported as converged although the power-flow equations do not hold",
                        residual=res, case=[name, k, sign, f])
            if big_shift:
                continue
            inj = {i: v for i, v in inj.items() if i != rn.slack_dev.id}
            ref = rn.solve({i: (1.1 * a, 1.1 * b) for i, (a, b) in inj.items()}, steps=np.linspace(0.02, 1, 50))
            R.trace()
            h = rn.solve(inj, steps=np.linspace(0.02, 1, 50))
            if ref is not None and normal(h):
                R.outcome("%s solvable" % name)
                if R.check(conv, "a solvable operating point is reported as a collapse", case=[name, k, sign, f]):
                    R.check(np.max(np.abs(X.volt(st, rn) - h)) < 2e-3, "the reported voltages are not the high-voltage solution",
                            case=[name, k, sign, f], got=X.volt(st, rn), expected=h)
            else:
                R.outcome("%s no reference %s" % (name, "converged" if conv else "collapsed"))


def job_env(job, R):
    """terminated == beyond the limit, at the environment level."""
    raw = zoo.get("weak")
    rn = RNet(raw)
    vth, z = thevenin(rn, 1)
    loads = [-0.5, -2, -4, -6, -8, -10, -12, -14, -18, -25, -30]
    for first in (-1.0, -25.0):
        for x in loads:
            e = zoo.make_env(raw, [{1: -1, 2: 5}, {1: x, 2: 0}], 0.5, 100, K=1)
            e.reset()
            a = zoo.action_vector(rn, {2: 0, 3: 0}, {2: 0, 3: 0})
            o, r, term, tr, info = e.step(a)
            lam = abs(complex(x / 10, 0.2 * x / 10)) / (nose(vth, z, -complex(1, 0.2)) * abs(complex(1, 0.2)))
            R.state("env", x, bool(term))
            R.step(2)
            R.trace()
            R.outcome("env terminated" if term else "env goes on")
            if lam > 1.02:
                R.check(term is True or bool(term), "the environment does not terminate beyond the maximum power transfer", load=x)
            if lam < 0.93:
                R.check(not term, "the environment terminates at a solvable operating point", load=x)
