"""Independent reference model of an ANM network, written from the documentation (paper, docs, docstrings).

Nothing here imports gym_anm.  A network is given as the same raw tables that gym-anm takes; every quantity is
re-derived here.  Power system conventions: injections > 0 into the grid; pi-model with the tap at the sending side.
"""
import math

import numpy as np

INF = float("inf")


class RBus:
    def __init__(self, row):
        self.id = int(row[0])
        self.slack = int(row[1]) == 0
        self.kv = float(row[2])
        self.vmax = float(row[3])
        self.vmin = None if row[4] is None else float(row[4])


class RBranch:
    def __init__(self, row, base):
        self.f, self.t = int(row[0]), int(row[1])
        r = 0.0 if row[2] is None else float(row[2])
        x = 0.0 if row[3] is None else float(row[3])
        b = 0.0 if row[4] is None else float(row[4])
        self.rate = INF if row[5] is None else float(row[5]) / base
        a = 1.0 if row[6] is None else float(row[6])
        sh = 0.0 if row[7] is None else float(row[7])
        self.y = 1 / complex(r, x)
        self.ysh = complex(0, b / 2)
        self.t_cplx = a * complex(math.cos(math.radians(sh)), math.sin(math.radians(sh)))

    def currents(self, vf, vt):
        """Currents entering the branch at both ends: ideal transformer vf : vf/t, then a pi section."""
        vp = vf / self.t_cplx  # voltage behind the transformer
        ip = vp * self.ysh + (vp - vt) * self.y
        return ip / self.t_cplx.conjugate(), vt * self.ysh + (vt - vp) * self.y


class RDev:
    def __init__(self, row, base):
        row = list(row)
        self.id, self.bus, self.type = int(row[0]), int(row[1]), int(row[2])
        self.slack = self.type == 0
        self.is_load = self.type == -1
        self.is_gen = self.type in (0, 1, 2)
        self.is_rer = self.type == 2
        self.is_des = self.type == 3
        g = lambda k, d: d if row[k] is None else float(row[k]) / base  # noqa: E731
        self.qp = None if row[3] is None else float(row[3])
        if self.is_load:
            self.pmax = g(4, 0.0)
            self.pmin = g(5, -INF)
            e = [0.0 if self.qp == 0 else v * self.qp for v in (self.pmin, self.pmax)]
            self.qmin, self.qmax = min(e), max(e)
            return
        self.pmax = g(4, INF)
        self.pmin = g(5, 0.0 if (self.is_gen and not self.slack) else -INF)
        self.qmax, self.qmin = g(6, INF), g(7, -INF)
        self.pplus = g(8, self.pmax)
        self.qplus, self.qminus = g(10, self.qmax), g(11, self.qmin)
        if self.is_des:
            self.pminus = g(9, self.pmin)
            self.socmax, self.socmin = g(12, None), g(13, 0.0)
            self.eff = 1.0 if row[14] is None else float(row[14])

    # -- feasible region ------------------------------------------------------------------------------
    def halfplanes(self, ppot=None, soc=None, dt=None):
        """List of (a, b, c): a*p + b*q <= c describing the region of feasible injections (p.u.)."""
        H = [(-1, 0, -self.pmin), (1, 0, self.pmax), (0, -1, -self.qmin), (0, 1, self.qmax)]

        def above(p0, q0, p1, q1):  # q below the line through (p0, q0) and (p1, q1), p0 < p1
            if all(map(math.isfinite, (p0, q0, p1, q1))) and p0 != p1 and q0 != q1:
                s = (q1 - q0) / (p1 - p0)
                H.append((-s, 1, q0 - s * p0))

        def below(p0, q0, p1, q1):
            if all(map(math.isfinite, (p0, q0, p1, q1))) and p0 != p1 and q0 != q1:
                s = (q1 - q0) / (p1 - p0)
                H.append((s, -1, -(q0 - s * p0)))

        above(self.pplus, self.qmax, self.pmax, self.qplus)
        below(self.pplus, self.qmin, self.pmax, self.qminus)
        if self.is_des:
            above(self.pmin, self.qplus, self.pminus, self.qmax)
            below(self.pmin, self.qminus, self.pminus, self.qmin)
            room = self.socmax - soc
            avail = soc - self.socmin
            if self.eff > 0:
                H.append((-1, 0, room / (dt * self.eff)))
            H.append((1, 0, avail * self.eff / dt))
        elif ppot is not None:
            H.append((1, 0, self.clip_pot(ppot)))
        return [(a, b, c) for a, b, c in H if math.isfinite(c)]

    def clip_pot(self, ppot):
        return min(max(ppot, self.pmin), self.pmax)


def worst_violation(H, p, q):
    """Largest signed distance by which (p, q) is outside a halfplane (<= 0 when inside)."""
    return max([(a * p + b * q - c) / math.hypot(a, b) for a, b, c in H], default=-INF)


def project(H, p, q, eps=1e-10):
    """Exact Euclidean projection of (p, q) on the polygon given by halfplanes H."""
    def feas(x, y):
        return all(a * x + b * y <= c + eps * max(1.0, abs(c)) for a, b, c in H)

    if feas(p, q):
        return p, q
    cands = []
    for a, b, c in H:
        n = a * a + b * b
        d = (a * p + b * q - c) / n
        cands.append((p - d * a, q - d * b))
    for i in range(len(H)):
        for j in range(i):
            a, b, c = H[i]
            d, e, f = H[j]
            det = a * e - b * d
            if abs(det) > 1e-13:
                cands.append(((c * e - b * f) / det, (a * f - c * d) / det))
    best = None
    for x, y in cands:
        if feas(x, y):
            dist = (x - p) ** 2 + (y - q) ** 2
            if best is None or dist < best[0]:
                best = (dist, x, y)
    if best is None:
        raise ValueError("empty region")
    return best[1], best[2]


class RNet:
    def __init__(self, raw):
        self.base = float(raw["baseMVA"])
        self.buses = sorted((RBus(r) for r in raw["bus"]), key=lambda b: b.id)
        self.branches = [RBranch(r, self.base) for r in raw["branch"]]
        self.devs = sorted((RDev(r, self.base) for r in raw["device"]), key=lambda d: d.id)
        self.bus = {b.id: b for b in self.buses}
        self.dev = {d.id: d for d in self.devs}
        self.loads = [d for d in self.devs if d.is_load]
        self.gens = [d for d in self.devs if d.is_gen and not d.slack]
        self.des = [d for d in self.devs if d.is_des]
        self.slack_bus = next(b for b in self.buses if b.slack)
        self.slack_dev = next(d for d in self.devs if d.slack)
        self.pos = {b.id: i for i, b in enumerate(self.buses)}
        n = len(self.buses)
        Y = np.zeros((n, n), complex)
        for br in self.branches:
            f, t = self.pos[br.f], self.pos[br.t]
            for vf, vt, col in ((1, 0, f), (0, 1, t)):
                i_f, i_t = br.currents(vf, vt)
                Y[f, col] += i_f
                Y[t, col] += i_t
        self.Y = Y

    def state_names(self, K=0):
        return ([("dev_p", d.id) for d in self.devs] + [("dev_q", d.id) for d in self.devs]
                + [("des_soc", d.id) for d in self.des] + [("gen_p_max", d.id) for d in self.gens]
                + [("aux", k) for k in range(K)])

    # -- device model ------------------------------------------------------------------------------------
    def apply(self, soc, p_load, p_pot, p_set, q_set, dt):
        """Feasible injections {id: (p, q)}, available generation and new SoC (all p.u.)."""
        inj, pot, new = {}, {}, {}
        for d in self.devs:
            if d.slack:
                continue
            if d.is_load:
                p = min(max(p_load[d.id], d.pmin), d.pmax)
                inj[d.id] = (p, p * d.qp)
            elif d.is_gen:
                pot[d.id] = d.clip_pot(p_pot[d.id])
                inj[d.id] = project(d.halfplanes(ppot=pot[d.id]), p_set[d.id], q_set[d.id])
            else:
                p, q = project(d.halfplanes(soc=soc[d.id], dt=dt), p_set[d.id], q_set[d.id])
                inj[d.id] = (p, q)
                new[d.id] = self.next_soc(d, soc[d.id], p, dt)
        return inj, pot, new

    @staticmethod
    def next_soc(d, soc, p, dt):
        s = soc - dt * p * d.eff if p <= 0 else (soc - dt * p / d.eff if d.eff > 0 else soc)
        return min(max(s, d.socmin), d.socmax)

    def bus_injections(self, inj):
        S = np.zeros(len(self.buses), complex)
        for d in self.devs:
            if d.id in inj:
                S[self.pos[d.bus]] += complex(*inj[d.id])
        return S

    # -- power flow ------------------------------------------------------------------------------------
    def solve(self, inj, steps=(1.0,), tol=1e-11, v0=None):
        """Power flow by homotopy on the injections (high-voltage branch). Returns V or None."""
        n = len(self.buses)
        s = self.pos[self.slack_bus.id]
        rest = [i for i in range(n) if i != s]
        S = self.bus_injections(inj)
        V = self._noload() if v0 is None else v0.copy()
        if V is None:
            return None
        for lam in steps:
            V = self._newton(V, lam * S, s, rest, tol)
            if V is None:
                return None
        return V

    def _noload(self):
        """Voltages with zero injections (linear)."""
        n = len(self.buses)
        s = self.pos[self.slack_bus.id]
        rest = [i for i in range(n) if i != s]
        V = np.zeros(n, complex)
        V[s] = self.slack_bus.vmax
        if rest:
            try:
                V[rest] = np.linalg.solve(self.Y[np.ix_(rest, rest)], -self.Y[np.ix_(rest, [s])][:, 0] * V[s])
            except np.linalg.LinAlgError:
                return None
        return V

    def _newton(self, V, S, s, rest, tol, itmax=60):
        """Newton in rectangular coordinates."""
        V = V.copy()
        m = len(rest)
        if m == 0:
            return V
        Yr = self.Y[rest, :]
        for _ in range(itmax):
            I = Yr @ V
            F = V[rest] * np.conj(I) - S[rest]
            if not np.all(np.isfinite(F)):
                return None
            if np.max(np.abs(F)) < tol:
                return V
            # dS = dV conj(I) + V conj(Y dV)
            A = np.diag(np.conj(I))
            B = np.diag(V[rest]) @ np.conj(self.Y[np.ix_(rest, rest)])
            J = np.block([[(A + B).real, (-A.imag + B.imag)], [(A + B).imag, (A.real - B.real)]])
            try:
                dx = np.linalg.solve(J, np.concatenate([F.real, F.imag]))
            except np.linalg.LinAlgError:
                return None
            V[rest] -= dx[:m] + 1j * dx[m:]
        return None

    def residual(self, V, inj):
        """Max mismatch at non-slack buses."""
        S = self.bus_injections(inj)
        M = V * np.conj(self.Y @ V) - S
        rest = [i for i in range(len(self.buses)) if not self.buses[i].slack]
        return np.max(np.abs(np.concatenate([M[rest].real, M[rest].imag])), initial=0.0)

    # -- costs -----------------------------------------------------------------------------------------
    def costs(self, p_dev, p_pot, vmag, smag, dt, lamb):
        """(e_loss, penalty); p_dev {id: p}, p_pot {id: p}, vmag {bus: |V|}, smag [per branch] in p.u."""
        e = sum(p_dev[d.id] for d in self.devs if d.is_gen or d.is_load)
        e += sum(max(0.0, p_pot[d.id] - p_dev[d.id]) for d in self.gens if d.is_rer)
        phi = 0.0
        for b in self.buses:
            phi += max(0.0, vmag[b.id] - b.vmax) + (0.0 if b.vmin is None else max(0.0, b.vmin - vmag[b.id]))
        for br, s in zip(self.branches, smag):
            phi += max(0.0, s - br.rate)
        return e * dt, phi * dt * lamb
