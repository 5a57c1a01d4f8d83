"""C18: exactly the well-formed network descriptions are accepted, with documented defaults and error classes."""
import copy
import itertools

import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet
from .c09 import UNITS, factor, loose, ref_bounds, same

LEVEL = "model_checking"
BOUNDS = {"quick": "2 base networks x (all single-cell mutations over a 4-9 value alphabet per cell; full lattices of the P, Q, charge and type columns of each "
                   "device kind, of bus rows and of branch rows; all pairs of structural edits; pairs of single mutations within a row and, thinned, across rows)",
          "thorough": "all pairs of single mutations, denser lattices, products of the P and Q lattices"}
ASSUMPTIONS = ["ids are integers; numbers are not NaN; the voltage lower limit of the slack bus (whose voltage is fixed) is not constrained",
               "an unknown device type may be refused with DeviceSpecError or the NotImplementedError documented in Simulator"]
N = None

FULL = zoo.raw(10,
               [[2, 1, 33, 1.1, 0.9], [0, 0, 110, 1.0, 1.0], [5, 1, 20, 1.05, 0.95]],
               [[0, 0, 0, N, 20, -20, 20, -20, N, N, N, N, N, N, N],
                [1, 2, -1, 0.2, 0, -10, N, N, N, N, N, N, N, N, N],
                [2, 5, 1, N, 6, 1, 5, -5, 4, N, 3, -3, N, N, N],
                [4, 2, 2, N, 6, 0, 5, -5, 4, N, 3, -3, N, N, N],
                [7, 5, 3, N, 6, -6, 5, -5, 4, -4, 3, -3, 5, 1, 0.9]],
               [[0, 2, 0.01, 0.05, 0.02, 10, 1.0, 0], [2, 5, 0.02, 0.06, 0.01, 5, 1.02, 5]])
SPARSE = zoo.get("none")
NETS = {"full": FULL, "sparse": SPARSE}

LEV = {"P": [N, -6, -2, 0, 2, 6], "Q": [N, -6, -2, 0, 2, 6]}
BUS_ALPH = [[9, 2], [N, -1, 0, 1, 2, 0.5], [N, -1, 0, 10], [N, -0.1, 0, 0.9, 1.0, 1.2], [N, -0.1, 0, 0.9, 1.0, 1.2]]
DEV_ALPH = [[N, 9, 1], [N, 2, 0, 1, 77], [N, -2, -1, 0, 1, 2, 3, 4, 1.5], [N, -0.3, 0, 0.2],
            LEV["P"], LEV["P"], LEV["Q"], LEV["Q"], LEV["P"], LEV["P"], LEV["Q"], LEV["Q"],
            [N, -1, 0, 1, 5], [N, -1, 0, 1, 6], [N, -0.01, 0, 0.5, 1, 1.01]]
BR_ALPH = [[N, 0, 2, 5, 1, 77], [N, 0, 2, 5, 1, 77], [N, -0.1, 0, 0.1], [N, -0.1, 0, 0.1], [N, -0.1, 0, 0.1], [N, -1, 0, 5],
           [N, -0.5, 0, 0.9, 1], [N, -1, 0, 10, 360, 361]]
ALPH = {"bus": BUS_ALPH, "device": DEV_ALPH, "branch": BR_ALPH}


# -- the independent validator: set of error classes of the offending parts (empty: well-formed) ------------------------

def limits(lo, hi, plus, minus, bad):
    """Capability points inside the limits."""
    inf = float("inf")
    lo, hi = -inf if lo is None else lo, inf if hi is None else hi
    plus, minus = hi if plus is None else plus, lo if minus is None else minus
    if lo > hi or plus > hi or plus < minus or minus < lo:
        bad.append(1)
    return lo, hi, plus, minus


def offences(r):
    out = set()
    if not r["baseMVA"] > 0:
        out.add("BaseMVAError")
    ids = [b[0] for b in r["bus"]]
    if len(set(ids)) != len(ids):
        out.add("BusSpecError")
    slack = [b[0] for b in r["bus"] if b[1] == 0]
    if len(slack) != 1:
        out.add("BusSpecError")
    for _, t, kv, vmax, vmin in r["bus"]:
        if t not in (0, 1) or kv is None or kv <= 0 or vmax is None or vmax < 0:
            out.add("BusSpecError")
        elif t == 1 and (vmin is None or vmin < 0 or vmin > vmax):
            out.add("BusSpecError")
    dids = [d[0] for d in r["device"]]
    if len(set(dids)) != len(dids) or None in dids:
        out.add("DeviceSpecError")
    sdev = [d for d in r["device"] if d[2] == 0]
    if len(sdev) != 1 or [sdev[0][1]] != slack:
        out.add("DeviceSpecError")
    for d in r["device"]:
        _, bus, t, qp, pmax, pmin, qmax, qmin, pp, pm, qq, qm, smax, smin, eff = d
        if bus not in ids:
            out.add("DeviceSpecError")
        bad = []
        if t == -1:
            if qp is None or (pmax is not None and pmax > 0) or (pmin is not None and pmin > (0 if pmax is None else pmax)):
                out.add("LoadSpecError")
        elif t in (0, 1, 2):
            if t != 0:
                if (pmax is not None and pmax < 0) or (pmin is not None and pmin < 0):
                    bad.append(1)
                pmin = 0 if pmin is None else pmin
            limits(pmin, pmax, pp, None, bad)
            limits(qmin, qmax, qq, qm, bad)
            if bad:
                out.add("GenSpecError")
        elif t == 3:
            limits(pmin, pmax, pp, pm, bad)
            limits(qmin, qmax, qq, qm, bad)
            if (pmax is not None and pmax < 0) or (pmin is not None and pmin > 0):
                bad.append(1)
            if smax is None or smax < 0 or (smin is not None and (smin < 0 or smin > smax)):
                bad.append(1)
            if eff is not None and not 0 <= eff <= 1:
                bad.append(1)
            if bad:
                out.add("StorageSpecError")
        else:
            out |= {"DeviceSpecError", "NotImplementedError"}
    ends = set()
    for f, t, rr, x, b, rate, tap, shift in r["branch"]:
        if f not in ids or t not in ids or f == t or frozenset((f, t)) in ends:
            out.add("BranchSpecError")
        ends.add(frozenset((f, t)))
        if any(v is not None and v < 0 for v in (rr, x, b, rate)) or not (rr or x):
            out.add("BranchSpecError")
        if (tap is not None and tap <= 0) or (shift is not None and not 0 <= shift <= 360):
            out.add("BranchSpecError")
    return out


# -- running one description on the real code ------------------------------------------------------------------------

def attempt(r, via="sim"):
    from gym_anm.simulator import Simulator

    a = zoo.arrays(r)
    if via == "sim":
        return Simulator(a, 0.5, 10)
    from gym_anm.envs import ANMEnv
    return ANMEnv(a, "state", 0, 0.5, 0.9, 10)


def verdict(r, R, what, via="sim", deep=False):
    exp = offences(r)
    R.state(via, what, canon(r))
    R.step()
    key = "%s %s" % (via, what)
    try:
        obj = attempt(r, via)
    except Exception as e:  # noqa
        names = {c.__name__ for c in type(e).__mro__}
        R.outcome("refused" if exp else "wrongly refused")
        if not exp:
            R.fail("a well-formed network description was refused with %s: %s" % (type(e).__name__, str(e)[:200]), mutation=what, network=r, key="refused " + key)
        elif not (names & exp):
            R.fail("a malformed network description raised %s instead of one of %s" % (type(e).__name__, sorted(exp)), error=str(e)[:300],
                   mutation=what, network=r, key="class " + key)
        R.trace()
        return False
    R.outcome("accepted")
    if exp:
        R.fail("a malformed network description (expected %s) was accepted" % sorted(exp), mutation=what, network=r, key="accepted " + key)
        return False
    if via == "sim":
        bounds_ok(r, obj, R, what)
        if deep:
            behaves(r, obj, R, what)
    R.trace()
    return True


def bounds_ok(r, sim, R, what):
    rn = RNet(r)
    exp = ref_bounds(rn)
    got = sim.state_bounds
    for q in exp:
        for i in exp[q]:
            for u in UNITS[q]:
                want = [0.0 if v == 0 else v * (factor(rn, q, u, i)) for v in exp[q][i]]
                if not all(loose(q, g, w) for g, w in zip(got[q][i][u], want)):
                    R.fail("the limits (with defaults) of an accepted description are wrong", quantity=q, id=i, unit=u, got=got[q][i][u],
                           expected=want, mutation=what, network=r)
    spec = sim.get_rendering_specs()
    for b in rn.branches:
        R.check(same(spec["branch_s"][(b.f, b.t)]["pu"][1], b.rate), "the rating (with default) of an accepted description is wrong",
                branch=(b.f, b.t), got=spec["branch_s"][(b.f, b.t)]["pu"], expected=b.rate, mutation=what)


def explicit(r):
    """The same description with every documented default written out (infinities stay absent)."""
    r = copy.deepcopy(r)
    for d in r["device"]:
        t = d[2]
        if t == -1 and d[4] is None:
            d[4] = 0.0
        if t in (1, 2) and d[5] is None:
            d[5] = 0.0
        if t in (0, 1, 2, 3):
            d[8] = d[4] if d[8] is None else d[8]
            d[10] = d[6] if d[10] is None else d[10]
            d[11] = d[7] if d[11] is None else d[11]
        if t == 3:
            d[9] = d[5] if d[9] is None else d[9]
            d[13] = 0.0 if d[13] is None else d[13]
            d[14] = 1.0 if d[14] is None else d[14]
    for b in r["branch"]:
        for j, v in ((2, 0.0), (3, 0.0), (4, 0.0), (6, 1.0), (7, 0.0)):
            b[j] = v if b[j] is None else b[j]
    return r


def behaves(r, sim, R, what):
    """A description with absent values behaves like the one with the defaults written out."""
    e = explicit(r)
    if e == r:
        return
    other = attempt(e)
    rn = RNet(e)
    ctrl = [d for d in rn.devs if (d.is_gen and not d.slack) or d.is_des]
    outs = []
    for s in (sim, other):
        s.reset(zoo.s0(rn, {d.id: -0.5 for d in rn.loads}))
        out = []
        for p, q in ((3.0, 2.5), (-3.0, -2.5), (5.5, -4.5)):
            _, reward, e_loss, pen, ok = s.transition({d.id: -1.0 for d in rn.loads}, {d.id: 5.0 for d in rn.gens}, {d.id: p for d in ctrl}, {d.id: q for d in ctrl})
            out.append((reward, e_loss, pen, bool(ok), s.state))
            R.step()
        outs.append(canon(out, 6))
    R.check(outs[0] == outs[1], "a description with absent optional values behaves differently from one with the documented defaults", mutation=what,
            network=r, got=str(outs[0])[:400], expected=str(outs[1])[:400])
    R.outcome("defaults compared")


# -- mutations -------------------------------------------------------------------------------------------------------------

def singles(r):
    out = []
    for tab in ("bus", "device", "branch"):
        for i, row in enumerate(r[tab]):
            for c, vals in enumerate(ALPH[tab]):
                out += [(tab, i, c, v) for v in vals if not (v is row[c] or v == row[c])]
    out += [("base", 0, 0, v) for v in (-1, -0.0, 0, 1e-6, 1, 2.5)]
    return out


def apply(r, muts):
    r = copy.deepcopy(r)
    for tab, i, c, v in muts:
        if tab == "base":
            r["baseMVA"] = v
        else:
            r[tab][i][c] = v
    return r


def skip(r):
    """Descriptions outside the property's scope."""
    return any(b[0] is None for b in r["bus"])


def edits(r):
    """Structural edits of the tables."""
    out = []
    for tab in ("bus", "device", "branch"):
        n = len(r[tab])
        out += [("del", tab, i) for i in range(n)] + [("dup", tab, i) for i in range(n)] + [("new", tab, i) for i in range(n)]
        out.append(("reverse rows", tab, 0))
    out += [("swap ends", "branch", i) for i in range(len(r["branch"]))] + [("dup reversed", "branch", i) for i in range(len(r["branch"]))]
    out += [("self loop", "branch", i) for i in range(len(r["branch"]))]
    out += [("slack to", "bus", i) for i in range(len(r["bus"]))] + [("also slack", "bus", i) for i in range(len(r["bus"]))]
    out += [("slack device to", "bus", i) for i in range(len(r["bus"]))] + [("also slack", "device", i) for i in range(len(r["device"]))]
    return out


def edit(r, e):
    r = copy.deepcopy(r)
    op, tab, i = e
    rows = r[tab]
    if op != "reverse rows" and i >= len(rows):
        return r
    if op == "del":
        del rows[i]
    elif op == "dup":
        rows.append(list(rows[i]))
    elif op == "new":
        row = list(rows[i])
        if tab == "branch":
            k = [b[0] for b in r["bus"]]
            row[0], row[1] = k[0], k[-1]
        else:
            row[0] = max(x[0] for x in rows) + 3
        rows.append(row)
    elif op == "reverse rows":
        rows.reverse()
    elif op == "swap ends":
        rows[i][0], rows[i][1] = rows[i][1], rows[i][0]
    elif op == "dup reversed":
        row = list(rows[i])
        row[0], row[1], row[3] = row[1], row[0], 0.2
        rows.append(row)
    elif op == "self loop":
        rows[i][1] = rows[i][0]
    elif op == "slack to":
        for b in rows:
            b[1] = 1
            b[4] = 0.5 if b[4] is None else b[4]
        rows[i][1] = 0
    elif op == "also slack":
        rows[i][1 if tab == "bus" else 2] = 0
    elif op == "slack device to":
        for d in r["device"]:
            if d[2] == 0:
                d[1] = rows[i][0]
    return r


def usable(r):
    return len(r["bus"]) and len(r["device"]) and len(r["branch"])


# -- jobs ------------------------------------------------------------------------------------------------------------------

def row_of(r, t):
    return next(i for i, d in enumerate(r["device"]) if d[2] == t)


def jobs(tier):
    out = []
    for n in NETS:
        out.append(("singles", n, "sim"))
        out.append(("singles", n, "env"))
        out.append(("edits", n))
        k = len(singles(NETS[n]))
        w = 8 if tier == "quick" else 40
        out += [("pairs", n, i, w, tier) for i in range(w)]
    for t in (-1, 0, 1, 2, 3):
        out.append(("lattice", "P", t, tier))
        out.append(("lattice", "Q", t, tier))
        if tier != "quick":
            out.append(("lattice", "PQ", t, tier))
        out.append(("lattice", "type", t, tier))
    out += [("lattice", "soc", 3, tier), ("lattice", "bus", 0, tier), ("lattice", "bus", 2, tier), ("lattice", "bus", 1, tier)]
    out += [("lattice", "branch", i, tier) for i in range(2)]
    return out


def lattice(kind, t, tier):
    """Yields lists of (table, row, column, value)."""
    if kind in ("P", "Q"):
        i = row_of(FULL, t)
        cols = [4, 5, 8, 9] if kind == "P" else [6, 7, 10, 11]
        if t == -1:
            cols = [3, 4, 5] if kind == "P" else [6, 7, 10, 11]
        small = [N, -2, 2]  # reactive limits of loads are ignored
        lev = [small] * 4 if kind == "Q" and t == -1 else [LEV[kind]] * 4 if kind == "Q" or t != -1 else [DEV_ALPH[3], LEV["P"] + [-1], LEV["P"] + [-1]]
        for vals in itertools.product(*[lev[k] for k in range(len(cols))]):
            yield [("device", i, c, v) for c, v in zip(cols, vals)]
    elif kind == "PQ":
        i = row_of(FULL, t)
        for vals in itertools.product([N, -2, 0, 2], repeat=4):
            for v2 in itertools.product([N, -2, 2], repeat=4):
                yield [("device", i, c, v) for c, v in zip([4, 5, 8, 9, 6, 7, 10, 11], vals + v2)]
    elif kind == "type":
        i = row_of(FULL, t)
        for ty, qp, bus, pmax, pmin in itertools.product(DEV_ALPH[2], [N, 0.2], [2, 0, 77], [N, -2, 0, 2], [N, -6, 0]):
            yield [("device", i, 2, ty), ("device", i, 3, qp), ("device", i, 1, bus), ("device", i, 4, pmax), ("device", i, 5, pmin)] + (
                [("device", i, 12, 5)] if ty == 3 and pmin != 0 else [])
    elif kind == "soc":
        i = row_of(FULL, 3)
        for a, b, e in itertools.product([N, -1, -0.01, 0, 0.5, 1, 5], [N, -1, -0.01, 0, 0.5, 1, 6], DEV_ALPH[14]):
            yield [("device", i, 12, a), ("device", i, 13, b), ("device", i, 14, e)]
    elif kind == "bus":
        for vals in itertools.product(*BUS_ALPH[1:]):
            yield [("bus", t, c + 1, v) for c, v in enumerate(vals)]
    elif kind == "branch":
        dense = itertools.product(*BR_ALPH[2:]) if tier != "quick" else itertools.product(*[a[1:] if k in (2, 3) else a for k, a in enumerate(BR_ALPH[2:])])
        for vals in dense:
            yield [("branch", t, c + 2, v) for c, v in enumerate(vals)]
        for f, to, rr, x in itertools.product(BR_ALPH[0], BR_ALPH[1], [N, 0, 0.1], [N, 0, 0.1]):
            yield [("branch", t, 0, f), ("branch", t, 1, to), ("branch", t, 2, rr), ("branch", t, 3, x)]


def run_job(job, R):
    kind = job[0]
    if kind == "singles":
        base = NETS[job[1]]
        verdict(base, R, "unmodified", job[2], deep=True)
        for m in singles(base):
            r = apply(base, [m])
            if not skip(r):
                verdict(r, R, repr(m), job[2], deep=m[3] is None)
                R.sample("%s %s -> %s" % (job[1], m, sorted(offences(r)) or "accepted"))
    elif kind == "edits":
        base = NETS[job[1]]
        es = edits(base)
        for e in es:
            r = edit(base, e)
            if usable(r):
                verdict(r, R, repr(e))
        for e, f in itertools.product(es, es):
            r = edit(edit(base, e), f)
            if usable(r):
                verdict(r, R, repr((e, f)))
        R.sample("edits %s" % (es[5:8],))
    elif kind == "pairs":
        _, n, i, w, tier = job
        base = NETS[n]
        ms = singles(base)
        k = 0
        for a, b in itertools.combinations(ms, 2):
            if a[:3] == b[:3]:
                continue
            k += 1
            near = a[0] == b[0] and a[1] == b[1]
            if k % w != i or (tier == "quick" and (k // w) % (4 if near else 60)):
                continue
            r = apply(base, [a, b])
            if not skip(r):
                verdict(r, R, repr((a, b)))
    elif kind == "lattice":
        _, what, t, tier = job
        for k, ms in enumerate(lattice(what, t, tier)):
            r = apply(FULL, ms)
            verdict(r, R, repr(ms), deep=(k % 17 == 0) if tier == "quick" else True)
        R.sample("lattice %s %s e.g. %s" % (what, t, ms))
