"""Catalogue of networks used by the checks (raw tables in MW / MVAr / MVA / MWh, impedances in p.u. of the base)."""
import copy
import itertools

import numpy as np

N = None
BUSCOLS, DEVCOLS, BRCOLS = 5, 15, 8


def raw(base, bus, device, branch):
    return {"baseMVA": base, "bus": [list(r) for r in bus], "device": [list(r) for r in device],
            "branch": [list(r) for r in branch]}


def arrays(r):
    """Raw lists -> the dict of numpy arrays gym-anm takes."""
    def arr(rows, n):
        if any(v is None for row in rows for v in row):
            a = np.empty((len(rows), n), dtype=object)
            for i, row in enumerate(rows):
                for j, v in enumerate(row):
                    a[i, j] = v
            return a
        return np.array(rows, dtype=float).reshape(len(rows), n)

    return {"baseMVA": r["baseMVA"], "bus": arr(r["bus"], BUSCOLS), "device": arr(r["device"], DEVCOLS),
            "branch": arr(r["branch"], BRCOLS)}


def rebase(r, base):
    """Same physical network on another base power: z' = z * base'/base, b' = b * base/base'."""
    out = copy.deepcopy(r)
    k = base / r["baseMVA"]
    out["baseMVA"] = base
    for row in out["branch"]:
        row[2] = None if row[2] is None else row[2] * k
        row[3] = None if row[3] is None else row[3] * k
        row[4] = None if row[4] is None else row[4] / k
    return out


def rename(r, busmap=None, devmap=None):
    out = copy.deepcopy(r)
    bm = busmap or {}
    dm = devmap or {}
    for row in out["bus"]:
        row[0] = bm.get(row[0], row[0])
    for row in out["branch"]:
        row[0], row[1] = bm.get(row[0], row[0]), bm.get(row[1], row[1])
    for row in out["device"]:
        row[0], row[1] = dm.get(row[0], row[0]), bm.get(row[1], row[1])
    return out


# ---------------------------------------------------------------------------------------------------------
NETS = {}


def net(name, *a, dt=0.5, lamb=100, scen=None, **k):
    """scen: list of {load_id: MW, gen_id: max MW} scenarios of the internal variables."""
    NETS[name] = {"raw": raw(*a), "dt": dt, "lamb": lamb, "scen": scen, **k}


SLACK0 = [0, 0, 0, N, 200, -200, 200, -200, N, N, N, N, N, N, N]

# Two buses; a load, a renewable generator and a storage unit with sloped regions behind one line.
net("duo", 10,
    [[0, 0, 20, 1.0, 1.0], [1, 1, 20, 1.05, 0.95]],
    [SLACK0,
     [1, 1, -1, 0.3, 0, -10, N, N, N, N, N, N, N, N, N],
     [2, 1, 2, N, 12, 0, 6, -5, 8, N, 3, -2, N, N, N],
     [3, 1, 3, N, 6, -5, 4, -3, 4, -3, 2, -1.5, 8, 1, 0.8]],
    [[0, 1, 0.02, 0.06, 0.04, 8, N, N]],
    dt=0.5, scen=[{1: -2, 2: 10}, {1: -9, 2: 3}, {1: 0, 2: 0}, {1: -5, 2: 14}])

# Meshed, shuffled rows, taps, phase shifts, charging; devices at the slack bus; a bus without device.
net("mesh", 100,
    [[2, 1, 33, 1.06, 0.94], [0, 0, 110, 1.02, 1.02], [3, 1, 33, 1.04, 0.97], [1, 1, 66, 1.05, 0.95]],
    [[4, 1, 1, N, 60, 5, 20, -10, 40, N, 10, -5, N, N, N],
     [2, 3, -1, -0.2, -2, -50, N, N, N, N, N, N, N, N, N],
     [0, 0, 0, N, 150, -150, 100, -100, N, N, N, N, N, N, N],
     [1, 0, -1, 0.4, 0, -30, N, N, N, N, N, N, N, N, N],
     [3, 3, 2, N, 45, 0, 15, -20, 30, N, 8, -6, N, N, N],
     [5, 0, 3, N, 25, -20, 15, -15, 15, -10, 6, -9, 40, 4, 0.9]],
    [[0, 1, 0.01, 0.05, 0.06, 40, 0.98, N], [2, 1, 0.03, 0.08, 0.1, 15, N, N], [2, 3, 0.02, 0.09, N, 30, 1.02, 355],
     [3, 0, 0.015, 0.07, 0.05, 35, 1.03, 4], [1, 3, 0.04, 0.11, 0.02, 20, N, 2]],
    dt=0.25, lamb=50, scen=[{1: -10, 2: -20, 3: 30, 4: 50}, {1: 0, 2: -50, 3: 5, 4: 20}, {1: -30, 2: -2, 3: 45, 4: 60}])

# Gapped bus and device ids, slack bus neither first nor lowest, voltage levels, two generators and two storage
# units whose ids are interleaved, different efficiencies and charge ranges.
net("gap", 1,
    [[12, 1, 10, 1.08, 0.92], [7, 0, 20, 1.04, 1.0], [3, 1, 0.4, 1.1, 0.9], [5, 1, 10, 1.07, 0.93]],
    [[9, 3, 3, N, 0.3, -0.4, 0.2, -0.25, 0.2, -0.25, 0.1, -0.1, 0.5, 0.05, 0.7],
     [20, 7, 0, N, 5, -5, 5, -5, N, N, N, N, N, N, N],
     [4, 12, 2, N, 0.6, 0, 0.3, -0.3, 0.4, N, 0.1, -0.15, N, N, N],
     [11, 5, -1, 0.25, 0, -0.5, N, N, N, N, N, N, N, N, N],
     [2, 5, 3, N, 0.25, -0.2, 0.15, -0.1, 0.15, -0.1, 0.1, -0.05, 0.6, 0, 0.95],
     [13, 3, 1, N, 0.5, 0.1, 0.2, -0.2, 0.3, N, 0.15, -0.1, N, N, N],
     [6, 3, -1, 0, 0, -0.4, N, N, N, N, N, N, N, N, N]],
    [[7, 12, 0.03, 0.08, 0.01, 0.5, 1.0, 0], [3, 7, 0.02, 0.05, N, 0.4, 0.97, N], [12, 5, 0.04, 0.06, 0.02, 0.3, N, N]],
    dt=1.0, lamb=1000, scen=[{6: -0.1, 11: -0.4, 4: 0.5, 13: 0.3}, {6: -0.4, 11: -0.05, 4: 0.1, 13: 0.5}, {6: 0, 11: -0.5, 4: 0.6, 13: 0.05}])

# As many absent values as the format allows.
net("none", 50,
    [[0, 0, 30, 1.01, N], [1, 1, 30, 1.05, 0.95], [2, 1, 30, 1.05, 0.95]],
    [[0, 0, 0, N, N, N, N, N, N, N, N, N, N, N, N],
     [1, 1, -1, 0.1, N, N, N, N, N, N, N, N, N, N, N],
     [2, 2, 2, N, N, N, N, N, N, N, N, N, N, N, N],
     [3, 2, 3, N, N, N, N, N, N, N, N, N, 60, N, N],
     [4, 1, 1, N, 20, N, N, -8, 12, N, N, -4, N, N, N]],
    [[0, 1, N, 0.1, N, N, N, N], [1, 2, 0.05, N, N, 20, N, N]],
    dt=0.75, lamb=10, scen=[{1: -10, 2: 20, 4: 15}, {1: -30, 2: 0, 4: 5}, {1: 0, 2: 45, 4: 20}])

# Degenerate and asymmetric regions: regions excluding Q = 0, must-run, charge-only, discharge-only, fixed points.
net("asym", 20,
    [[1, 0, 15, 1.0, 1.0], [2, 1, 15, 1.05, 0.95], [3, 1, 15, 1.05, 0.95]],
    [[1, 1, 0, N, 50, -50, 50, -50, N, N, N, N, N, N, N],
     [2, 2, -1, 0.5, -3, -3, N, N, N, N, N, N, N, N, N],
     [3, 2, 1, N, 10, 4, 9, 2, 7, N, 6, 3, N, N, N],
     [4, 3, 2, N, 12, 0, 5, 5, N, N, N, N, N, N, N],
     [5, 3, 3, N, 0, -8, 4, -4, N, -5, 2, -1, 6, 2, 0.5],
     [6, 2, 3, N, 7, 0, 3, -1, 4, N, 1, -0.5, 10, 0, 1.0],
     [7, 3, 3, N, 3, -3, 2, -2, N, N, N, N, 5, 5, 0.9]],
    [[1, 2, 0.05, 0.1, 0.02, 10, N, N], [2, 3, 0.05, 0.1, 0.02, 6, 1.05, N]],
    dt=2.0, lamb=1, scen=[{2: -3, 3: 8, 4: 10}, {2: -10, 3: 2, 4: 3}])

# Nothing to control.
net("passive", 5,
    [[0, 0, 20, 1.03, 0.9], [1, 1, 20, 1.02, 0.98], [2, 1, 20, 1.02, 0.98]],
    [[0, 0, 0, N, 200, -200, 200, -200, N, N, N, N, N, N, N],
     [1, 1, -1, 0.3, 0, -2, N, N, N, N, N, N, N, N, N], [2, 2, -1, -0.6, 0, -3, N, N, N, N, N, N, N, N, N]],
    [[0, 1, 0.01, 0.04, 0.3, 2, 1.05, 3], [2, 0, 0.02, 0.03, 0.1, 2.5, 0.95, 357]],
    dt=0.1, lamb=20, scen=[{1: -1, 2: -2}, {1: -2, 2: 0}, {1: 0, 2: -3}])

# Only generators (exporting, over-voltage).
net("gens", 25,
    [[4, 1, 10, 1.02, 0.98], [9, 0, 10, 1.0, 1.0]],
    [[7, 9, 0, N, 200, -200, 200, -200, N, N, N, N, N, N, N],
     [3, 4, 2, N, 20, 0, 10, -10, 12, N, 5, -5, N, N, N], [8, 4, 1, N, 15, 0, 8, -8, N, N, N, N, N, N, N],
     [5, 9, 2, N, 10, 2, 4, -4, N, N, N, N, N, N, N]],
    [[4, 9, 0.06, 0.09, 0.0, 15, N, N]],
    dt=0.2, lamb=100, scen=[{3: 18, 8: 10, 5: 9}, {3: 5, 8: 15, 5: 1}])

# Only storage.
net("store", 2,
    [[0, 0, 5, 1.0, 1.0], [1, 1, 5, 1.01, 0.99]],
    [[0, 0, 0, N, 20, -20, 20, -20, N, N, N, N, N, N, N],
     [2, 1, 3, N, 2, -1.5, 1, -1, 1.2, -1, 0.5, -0.4, 3, 0.5, 0.6],
     [1, 1, 3, N, 1, -1, 1, -1, N, N, N, N, 1.5, 0, 1.0]],
    [[0, 1, 0.01, 0.02, 0.0, 1.5, N, N]],
    dt=0.5, lamb=10, scen=[{}])

# A long line: collapses for large injections.
net("weak", 10,
    [[0, 0, 20, 1.0, 1.0], [1, 1, 20, 1.1, 0.9]],
    [SLACK0,
     [1, 1, -1, 0.2, 0, -30, N, N, N, N, N, N, N, N, N],
     [2, 1, 2, N, 20, 0, 15, -15, N, N, N, N, N, N, N],
     [3, 1, 3, N, 10, -30, 10, -10, N, N, N, N, 50, 0, 0.9]],
    [[0, 1, 0.05, 0.35, 0.0, 12, N, N]],
    dt=0.5, scen=[{1: -2, 2: 5}, {1: -4, 2: 10}])


def anm6_raw():
    """The published ANM6 network (copied from the documentation of the task)."""
    return raw(100,
               [[0, 0, 132, 1.0, 1.0], [1, 1, 33, 1.1, 0.9], [2, 1, 33, 1.1, 0.9], [3, 1, 33, 1.1, 0.9],
                [4, 1, 33, 1.1, 0.9], [5, 1, 33, 1.1, 0.9]],
               [[0, 0, 0, N, 200, -200, 200, -200, N, N, N, N, N, N, N],
                [1, 3, -1, 0.2, 0, -10, N, N, N, N, N, N, N, N, N],
                [2, 3, 2, N, 30, 0, 30, -30, 20, N, 15, -15, N, N, N],
                [3, 4, -1, 0.2, 0, -30, N, N, N, N, N, N, N, N, N],
                [4, 4, 2, N, 50, 0, 50, -50, 35, N, 20, -20, N, N, N],
                [5, 5, -1, 0.2, 0, -30, N, N, N, N, N, N, N, N, N],
                [6, 5, 3, N, 50, -50, 50, -50, 30, -30, 25, -25, 100, 0, 0.9]],
               [[0, 1, 0.0036, 0.1834, 0.0, 32, 1, 0], [1, 2, 0.03, 0.022, 0.0, 25, 1, 0],
                [1, 3, 0.0307, 0.0621, 0.0, 18, 1, 0], [2, 4, 0.0303, 0.0611, 0.0, 18, 1, 0],
                [2, 5, 0.0159, 0.0502, 0.0, 18, 1, 0]])


NETS["anm6"] = {"raw": anm6_raw(), "dt": 0.25, "lamb": 100,
                "scen": [{1: -1, 3: -4, 5: 0, 2: 0, 4: 40}, {1: -5, 3: -10, 5: -25, 2: 4, 4: 11},
                         {1: -2, 3: -20, 5: 0, 2: 30, 4: 40}]}


def get(name):
    return copy.deepcopy(NETS[name]["raw"])


def sim(name_or_raw, dt=None, lamb=None):
    from gym_anm.simulator import Simulator

    if isinstance(name_or_raw, str):
        n = NETS[name_or_raw]
        r, dt, lamb = n["raw"], dt or n["dt"], n["lamb"] if lamb is None else lamb
    else:
        r = name_or_raw
    return Simulator(arrays(r), dt, lamb)


def setpoints(d, base, kind="few"):
    """Alphabet of (P, Q) set-points in MW/MVAr for a controllable reference device d."""
    big = 1.5 * base
    pl, ph = (d.pmin if np.isfinite(d.pmin) else -1.5) * base, (d.pmax if np.isfinite(d.pmax) else 1.5) * base
    ql, qh = (d.qmin if np.isfinite(d.qmin) else -1.5) * base, (d.qmax if np.isfinite(d.qmax) else 1.5) * base
    pm, qm = 0.6 * ph + 0.4 * pl, 0.7 * qh + 0.3 * ql
    if kind == "two":
        return [(ph, qh), (pl, ql)]
    if kind == "three":
        return [(ph, ql), (pl, qh), (pm, qm)]
    if kind == "few":
        return [(ph, qh), (pl, ql), (pm, 0.0), (0.0, qm)]
    if kind == "out":
        return [(ph, qh), (pl, ql), (ph + big, ql - big), (pl - big, qh + 0.3 * big), (pm, qm)]
    raise ValueError(kind)


def s0(rn, scen, soc_frac=0.5, aux=()):
    """Initial state vector (MW, MVAr, MWh) with idle controllable devices."""
    b = rn.base
    P, Q, soc, pm = [], [], [], []
    for d in rn.devs:
        if d.is_load:
            p = scen.get(d.id, 0.0)
            P.append(p)
            Q.append(p * d.qp)
        else:
            P.append(0.0)
            Q.append(0.0)
        if d.is_des:
            soc.append((d.socmin + soc_frac * (d.socmax - d.socmin)) * b)
        if d.is_gen and not d.slack:
            pm.append(scen.get(d.id, 0.0))
    return np.array(P + Q + soc + pm + list(aux), float)


def split_scen(rn, scen):
    return ({d.id: scen.get(d.id, 0.0) for d in rn.loads}, {d.id: scen.get(d.id, 0.0) for d in rn.gens})


def product_setpoints(rn, kind="few"):
    """All combinations of the per-device alphabets: yields (p_set, q_set) dicts."""
    ctrl = [d for d in rn.devs if (d.is_gen and not d.slack) or d.is_des]
    for combo in itertools.product(*[setpoints(d, rn.base, kind) for d in ctrl]):
        yield ({d.id: float(c[0]) for d, c in zip(ctrl, combo)}, {d.id: float(c[1]) for d, c in zip(ctrl, combo)})


def action_vector(rn, p_set, q_set):
    g, s = [d.id for d in rn.gens], [d.id for d in rn.des]
    return np.array([p_set[i] for i in g] + [q_set[i] for i in g] + [p_set[i] for i in s] + [q_set[i] for i in s], float)


def make_env(raw_net, scen, dt, lamb, observation="state", K=1, gamma=0.9, costs_clipping=None, aux_bounds=None,
             s0_vec=None, soc_frac=0.5, seed=None, cls=None, stochastic=False, arrs=None):
    """A Markov test environment: aux[0] is the index of the scenario that holds at the current time."""
    from gym_anm.envs import ANMEnv
    from .ref import RNet

    rn = RNet(raw_net)

    class ScenEnv(cls or ANMEnv):
        rnet = rn
        n_next = 0
        n_init = 0

        def init_state(self):
            self.n_init += 1
            if s0_vec is not None:
                return np.array(s0_vec, float)
            k = int(self.np_random.integers(0, len(scen))) if stochastic else 0
            f = float(self.np_random.uniform(0, 1)) if stochastic else soc_frac
            return s0(rn, scen[k], f, [k] + [10.0 * (j + 1) for j in range(self.K - 1)] if self.K else [])

        def next_vars(self, s_t):
            self.n_next += 1
            if stochastic:
                k = int(self.np_random.integers(0, len(scen)))
            elif self.K:
                k = (int(round(s_t[-self.K])) + 1) % len(scen)
            else:
                k = 0
            sc = scen[k]
            aux = [k] + [s_t[j - self.K] + j for j in range(1, self.K)] if self.K else []
            return np.array([sc.get(d.id, 0.0) for d in rn.loads] + [sc.get(d.id, 0.0) for d in rn.gens] + aux, float)

    return ScenEnv(arrays(raw_net) if arrs is None else arrs, observation, K, dt, gamma, lamb, aux_bounds, costs_clipping, seed)


def env(name, **k):
    n = NETS[name]
    return make_env(n["raw"], k.pop("scen", n["scen"]), k.pop("dt", n["dt"]), k.pop("lamb", n["lamb"]), **k)
