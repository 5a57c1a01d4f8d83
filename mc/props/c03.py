"""C03: branch flows follow the pi-model of each line."""
import itertools

import numpy as np

from .. import explore as X, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "10 networks (lattice and walks as C01); 2-bus grids over r x X x b x tap x shift x orientation x 12 injections",
          "thorough": "as quick with denser set-points and injections"}
ASSUMPTIONS = ["flows are compared with the pi-model evaluated at the reported voltages (1e-8 relative)",
               "signs are only demanded when the deciding component exceeds 1e-7 p.u."]
RS, XS, BS, TAPS, SH = (None, 0.0, 0.03), (None, 0.0, 0.05), (None, 0.0, 0.2), (None, 0.9, 1.07), (None, 0, 12, 350, 360)
INJ = [(0, 0), (-0.4, 0), (0.5, 0), (0, 0.3), (0, -0.3), (-0.3, -0.2), (-0.3, 0.25), (0.4, 0.2), (0.4, -0.3), (-1, -0.1),
       (0.02, -0.5), (-0.02, 0.5)]


def jobs(tier):
    out = X.lattice_jobs(tier) + X.walk_jobs(tier)
    for r, x in itertools.product(RS, XS):
        if (r or 0) == 0 and (x or 0) == 0:
            continue
        for b in BS:
            out.append({"kind": "param", "r": r, "x": x, "b": b, "inj": 1 if tier == "quick" else 3})
    return out


def check_step(s, R):
    if not s.conv:
        R.outcome("collapsed")
        return
    X.key_state(R, s)
    rn, st = s.rn, s.st
    V = {b.id: v for b, v in zip(rn.buses, X.volt(st, rn))}
    keys = list(st["branch_p"]["pu"].keys())
    R.check(keys == [(b.f, b.t) for b in rn.branches], "branches are not listed as specified", got=keys, step=s.label)
    for br in rn.branches:
        i = (br.f, br.t)
        c_f, c_t = br.currents(V[br.f], V[br.t])
        s_f, s_t = V[br.f] * np.conj(c_f), V[br.t] * np.conj(c_t)
        tol = 1e-8 * (1 + abs(br.y))
        ctx = dict(branch=i, step=s.label)
        g = lambda q, u="pu": float(st[q][u][i])  # noqa: E731
        R.close(g("branch_p"), s_f.real, tol, "active flow is not the one entering at the sending end", **ctx)
        R.close(g("branch_q"), s_f.imag, tol, "reactive flow is not the one entering at the sending end", **ctx)
        m = max(abs(s_f), abs(s_t))
        if abs(s_f.real) > 1e-7:
            R.close(g("branch_s"), m * np.sign(s_f.real), tol, "signed apparent power is wrong", **ctx)
            R.outcome("P>0" if s_f.real > 0 else "P<0")
            R.outcome("larger at sending end" if abs(s_f) > abs(s_t) else "larger at receiving end")
        elif s_f.real != 0 or s_f.imag != 0:
            R.outcome("P~0")
        if abs(c_f.real) > 1e-7:
            R.close(g("branch_i_magn"), abs(c_f) * np.sign(c_f.real), tol, "signed current magnitude is wrong", **ctx)
            R.outcome("I>0" if c_f.real > 0 else "I<0")
        elif abs(c_f) > 1e-6:
            R.close(abs(g("branch_i_magn")), abs(c_f), 1e-6, "current magnitude is wrong", **ctx) if abs(c_f.real) > 1e-9 else None
        if abs(c_f) > 1e-6:
            d = abs(np.exp(1j * g("branch_i_ang", "rad")) - c_f / abs(c_f))
            R.check(d < 1e-6 + 1e-8 * (1 + abs(br.y)) / abs(c_f), "current angle is wrong", got=g("branch_i_ang", "rad"),
                    expected=np.angle(c_f), **ctx)
    R.trace()


def run_job(job, R):
    if job["kind"] != "param":
        for s in X.steps(job, R):
            check_step(s, R)
            R.sample({"step": s.label})
        return
    for tap, sh, flip in itertools.product(TAPS, SH, (0, 1)):
        br = [4, 9, job["r"], job["x"], job["b"], 2, tap, sh]
        if flip:
            br[0], br[1] = 9, 4
        # a second branch and bus, so that the flow of the first is not the slack injection
        raw = zoo.raw(10, [[4, 0, 20, 1.04, 1.0], [9, 1, 20, 1.3, 0.7], [6, 1, 20, 1.3, 0.7]],
                      [[0, 4, 0, None, 99, -99, 99, -99] + [None] * 7, [1, 9, 1] + [None] * 12,
                       [2, 9, -1, 0.2] + [None] * 11, [3, 6, -1, -0.3] + [None] * 11],
                      [br, [9, 6, 0.02, 0.03, 0.01, 5, None, None]])
        rn = RNet(raw)
        sim = zoo.sim(raw, 1.0, 1)
        pats = [[(p, q, l) for p, q in INJ] for l in (0.0, -0.1, -0.6)[:job["inj"]]]
        for p, q, l in itertools.chain(*pats):
            scen = {1: 10.0 * max(p, 0), 2: 10.0 * min(p, 0), 3: 10.0 * l}
            st, _, _, _, conv = sim.transition({2: scen[2], 3: scen[3]}, {1: 20.0}, {1: scen[1]}, {1: 10 * q})
            R.step()
            check_step(X.Step(sim=sim, rn=rn, st=st, conv=bool(conv), label=["param", job["r"], job["x"], job["b"], tap, sh, flip, p, q, l]), R)
