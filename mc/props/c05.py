"""C05: applied injections never leave a device's physical operating region."""
import numpy as np

from .. import devices, explore as X
from ..ref import worst_violation

LEVEL = "model_checking"
BOUNDS = {"quick": "all generator / storage / load specifications of a lattice x 44 set-points x available generation or charge; "
                   "10 networks: 1-step lattices and pair-covering walks",
          "thorough": "more specifications, efficiencies and charges, set-points up to 100 p.u., longer walks"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u. (relative to the size of the request when it exceeds 1 p.u.)"]


def jobs(tier):
    return devices.jobs(tier) + X.lattice_jobs(tier) + X.walk_jobs(tier)


def tol(req):
    return 1e-4 * max(1.0, *(abs(v) for v in req if v is not None))


def check_dev(R, d, H, req, got, label):
    p, q = float(got[0]), float(got[1])
    if not R.check(np.isfinite(p) and np.isfinite(q), "an applied injection is undefined", got=got, case=label):
        return
    if d.is_load:
        R.check(d.pmin - 1e-9 <= p <= d.pmax + 1e-9, "a load draws a demand outside its limits", got=got, case=label)
        R.close(q, p * d.qp, 1e-9, "the reactive power of a load is not at its fixed ratio", case=label)
        return
    w = worst_violation(H, p, q)
    R.check(w <= tol(req), "an applied injection is outside the feasible region of the device", got=got, request=req,
            violation=w, type=d.type, case=label)


def check_step(s, R):
    X.key_state(R, s)
    if s.kind == "reset":
        return
    for d in s.rn.devs:
        if d.slack:
            continue
        got = (s.st["dev_p"]["pu"][d.id], s.st["dev_q"]["pu"][d.id])
        if d.is_load:
            check_dev(R, d, None, (0,), got, s.label)
        else:
            req = (s.p_set[d.id] / s.rn.base, s.q_set[d.id] / s.rn.base)
            H = d.halfplanes(ppot=s.p_pot[d.id] / s.rn.base) if d.is_gen else d.halfplanes(soc=s.soc[d.id], dt=s.dt)
            check_dev(R, d, H, req, got, s.label)
        R.outcome("network %d" % d.type)
    R.trace()


def run_job(job, R):
    if job["kind"] in ("lattice", "walk"):
        for s in X.steps(job, R):
            check_step(s, R)
        return
    for kind, d, H, req, got, label, x in devices.cases(job, R):
        R.state(kind, label)
        check_dev(R, d, H, req, got, label)
        R.outcome(kind)
        R.trace()
        R.sample({"device": label, "request": req, "applied": got})
