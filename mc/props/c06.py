"""C06: a set-point is mapped to the closest feasible injection."""
import numpy as np

from .. import devices, explore as X
from ..ref import project

LEVEL = "model_checking"
BOUNDS = {"quick": "all generator / storage / load specifications of a lattice x 44 set-points x available generation or charge; "
                   "10 networks: 1-step lattices and pair-covering walks",
          "thorough": "more specifications, efficiencies and charges, set-points up to 100 p.u., longer walks"}
ASSUMPTIONS = ["accuracy of the optimizer: 1e-4 p.u. (relative to the size of the request when it exceeds 1 p.u.)"]


def jobs(tier):
    nets = ("gap", "mesh", "asym") if tier == "quick" else None
    return devices.jobs(tier) + X.lattice_jobs(tier, nets) + X.walk_jobs(tier)


def tol(req):
    return 1e-4 * max(1.0, *(abs(v) for v in req if v is not None))


def check_dev(R, d, H, req, got, label):
    if d.is_load:
        R.close(float(got[0]), min(max(req[0], d.pmin), d.pmax), 1e-9, "a load's demand is not the requested one clipped", case=label)
        return
    want = project(H, *req)
    dist = np.hypot(float(got[0]) - want[0], float(got[1]) - want[1])
    R.check(dist <= tol(req), "the applied injection is not the closest feasible one", got=got, expected=want, request=req,
            type=d.type, case=label)
    moved = np.hypot(want[0] - req[0], want[1] - req[1])
    R.outcome("feasible request" if moved < 1e-9 else "projected request")


def check_step(s, R):
    X.key_state(R, s)
    if s.kind == "reset":
        return
    b = s.rn.base
    for d in s.rn.devs:
        if d.slack:
            continue
        got = (s.st["dev_p"]["pu"][d.id], s.st["dev_q"]["pu"][d.id])
        if d.is_load:
            check_dev(R, d, None, (s.p_load[d.id] / b,), got, s.label)
        else:
            H = d.halfplanes(ppot=s.p_pot[d.id] / b) if d.is_gen else d.halfplanes(soc=s.soc[d.id], dt=s.dt)
            check_dev(R, d, H, (s.p_set[d.id] / b, s.q_set[d.id] / b), got, s.label)
            if d.is_gen:
                R.close(float(s.st["gen_p_max"]["pu"][d.id]), d.clip_pot(s.p_pot[d.id] / b), 1e-9,
                        "the available generation is not the requested one clipped to the limits", case=s.label)
    R.trace()


def run_job(job, R):
    if job["kind"] in ("lattice", "walk"):
        for s in X.steps(job, R):
            check_step(s, R)
        return
    for kind, d, H, req, got, label, x in devices.cases(job, R):
        R.state(kind, label)
        check_dev(R, d, H, req, got, label)
        R.trace()
        R.sample({"device": label, "request": req, "applied": got})
