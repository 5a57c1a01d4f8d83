"""C14: results do not depend on row order or on the numbering of buses and devices."""
import itertools

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "5 small networks: all permutations of all rows; 5 larger ones: all transpositions, rotations and reversals of each table; "
                   "8 bus renamings x 6 device renamings of each network; each compared on a reset and 2-3 transitions, and in an environment",
          "thorough": "all permutations of tables of up to 5 rows, 4-operation histories, all bijective renamings of up to 4 buses on two id sets"}
ASSUMPTIONS = ["tolerance 1e-6 p.u. (rounding of reordered sums)"]
SMALL = ("duo", "passive", "gens", "store", "weak")


def perms(n, full):
    if full:
        return list(itertools.permutations(range(n)))
    out = [tuple(range(n)), tuple(reversed(range(n)))]
    for k in range(1, n):
        out.append(tuple((i + k) % n for i in range(n)))
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = p[j], p[i]
        out.append(tuple(p))
    return sorted(set(out))


def idmaps(ids, slack, kind):
    """Renamings of sorted ids."""
    n = len(ids)
    pool = {"bus": [[3, 1, 4, 15, 92, 65], [100, 7, 55, 8, 0, 23], [0, 1, 2, 3, 4, 5], [9, 8, 7, 6, 5, 4], [1, 2, 3, 4, 5, 6], [50, 0, 1000, 2, 31, 12]],
            "dev": [[11, 3, 27, 0, 50, 8, 19], [6, 5, 4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 6, 7], [70, 10, 60, 20, 50, 30, 40]]}[kind]
    out = [dict(zip(ids, p[:n])) for p in pool]
    k = ids.index(slack)
    rest = [i for i in ids if i != slack]
    out.append(dict(zip(rest + [slack], range(n))))  # slack last
    out.append(dict(zip(rest[:1] + [slack] + rest[1:], [5 * i + 2 for i in range(n)])))
    assert k >= 0
    return out


def bijections(ids, tier):
    if tier != "thorough" or len(ids) > 4:
        return []
    return [dict(zip(ids, p)) for s in (range(len(ids)), [13, 2, 40, 7][:len(ids)]) for p in itertools.permutations(s)]


def variants(name, tier):
    raw = zoo.NETS[name]["raw"]
    rn = RNet(raw)
    nb, nd, nr = len(raw["bus"]), len(raw["device"]), len(raw["branch"])
    ib, idv, ir = (tuple(range(k)) for k in (nb, nd, nr))
    full = name in SMALL
    lim = 4 if tier == "quick" else 5
    out = []
    if full and nb <= 3 and nd <= 4:
        for p, q, r in itertools.product(perms(nb, 1), perms(nd, 1), perms(nr, 1)):
            out.append((p, q, r, None, None))
    else:
        out += [(p, idv, ir, None, None) for p in perms(nb, nb <= lim)]
        out += [(ib, q, ir, None, None) for q in perms(nd, nd <= lim)]
        out += [(ib, idv, r, None, None) for r in perms(nr, nr <= lim)]
        for k in range(1, 6):
            out.append((ib[k % nb:] + ib[:k % nb], tuple(reversed(idv[k % nd:] + idv[:k % nd])), ir[k % nr:] + ir[:k % nr], None, None))
    bm = idmaps([b.id for b in rn.buses], rn.slack_bus.id, "bus") + bijections([b.id for b in rn.buses], tier)
    dm = idmaps([d.id for d in rn.devs], rn.slack_dev.id, "dev")
    out += [(ib, idv, ir, m, None) for m in bm]
    out += [(ib, idv, ir, None, m) for m in dm]
    for i, m in enumerate(bm[:8]):
        k = i + 1
        out.append((tuple(reversed(ib)), idv[k % nd:] + idv[:k % nd], tuple(reversed(ir)), m, dm[i % len(dm)]))
    return out


def jobs(tier):
    out = []
    for n in zoo.NETS:
        m = len(variants(n, tier))
        for a in range(0, m, 15):
            out.append({"net": n, "from": a, "to": min(m, a + 15), "tier": tier})
    return out


def history(rn, net, n):
    """Operations in terms of the original ids."""
    sp = list(zoo.product_setpoints(rn, "few"))
    return [(net["scen"][(k + 1) % len(net["scen"])],) + sp[(5 * k + 1) % len(sp)] for k in range(n)]


def play(raw, net, ops, bm, dm, R):
    """List of (kind, sim state, e_loss, penalty, conv)."""
    rn = RNet(raw)
    f = lambda d: {dm.get(i, i): v for i, v in d.items()}  # noqa: E731
    sim = zoo.sim(raw, net["dt"], net["lamb"])
    out = []
    conv = sim.reset(zoo.s0(rn, f(net["scen"][0]), 0.45))
    R.step()
    out.append((sim.state, 0.0, 0.0, bool(conv)))
    for scen, ps, qs in ops:
        pl, pp = zoo.split_scen(rn, f(scen))
        st, r, e, p, conv = sim.transition(pl, pp, f(ps), f(qs))
        R.step()
        out.append((st, e, p, bool(conv)))
    return out


QU = {"bus": "bus", "dev": "dev", "des": "dev", "gen": "dev", "bra": "br"}
TOL = 1e-6


def angle(q):
    return q in ("bus_v_ang", "bus_i_ang", "branch_i_ang")


def run_job(job, R):
    name = job["net"]
    net = zoo.NETS[name]
    raw = net["raw"]
    rn = RNet(raw)
    ops = history(rn, net, 2 if job["tier"] == "quick" else 4)
    ref = play(raw, net, ops, {}, {}, R)
    for v in variants(name, job["tier"])[job["from"]:job["to"]]:
        p, q, r, bm, dm = v
        bm, dm = bm or {}, dm or {}
        x = zoo.raw(raw["baseMVA"], [raw["bus"][i] for i in p], [raw["device"][i] for i in q], [raw["branch"][i] for i in r])
        x = zoo.rename(x, bm, dm)
        mp = {"bus": lambda i: bm.get(i, i), "dev": lambda i: dm.get(i, i), "br": lambda i: (bm.get(i[0], i[0]), bm.get(i[1], i[1]))}
        got = play(x, net, ops, bm, dm, R)
        for k, (a, b) in enumerate(zip(ref, got)):
            ctx = dict(net=name, variant=v, step=k)
            if not R.check(a[3] == b[3], "termination depends on row order or numbering", **ctx):
                break
            R.state(name, v, k)
            if not a[3]:
                R.outcome("collapsed")
                break
            for qn, units in a[0].items():
                m = mp[QU[qn[:3]]]
                for u, vals in units.items():
                    other = b[0][qn][u]
                    R.check(set(other) == {m(i) for i in vals}, "a quantity is not reported for exactly the existing ids", quantity=qn, **ctx)
                    for i, val in vals.items():
                        w = float(other[m(i)])
                        d = abs(float(val) - w)
                        if angle(qn):
                            if qn != "bus_v_ang" and abs(float(a[0][qn.replace("ang", "magn")]["pu"][i])) < 1e-4:
                                continue
                            d = min(d, 360 - d if u == "degree" else 2 * np.pi - d) * (1 if qn == "bus_v_ang" else 1e-2)
                        R.check(d <= TOL * max(1, abs(w)), "a reported quantity depends on row order or numbering", quantity=qn, unit=u, id=i,
                                got=w, expected=val, **ctx)
            R.close(b[1], a[1], TOL, "the energy loss depends on row order or numbering", **ctx)
            R.close(b[2], a[2], TOL * max(1, net["lamb"]), "the penalty depends on row order or numbering", **ctx)
            R.outcome("renamed" if bm or dm else "permuted")
        env_variant(R, name, net, rn, x, bm, dm, v)
        R.trace()
    R.sample({"net": name, "variant": v})


def env_variant(R, name, net, rn, x, bm, dm, v):
    """State vectors, observations and actions of environments, entry by entry, in increasing (new) ids."""
    rx = RNet(x)
    inv = {dm.get(d.id, d.id): d.id for d in rn.devs}
    scx = [{dm.get(i, i): val for i, val in s.items()} for s in net["scen"]]
    e = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=1)
    g = zoo.make_env(x, scx, net["dt"], net["lamb"], K=1)
    names, nx = rn.state_names(1), rx.state_names(1)
    order = [names.index((q, inv[i] if q != "aux" else i)) for q, i in nx]
    blocks = [("pg", d.id) for d in rn.gens] + [("qg", d.id) for d in rn.gens] + [("ps", d.id) for d in rn.des] + [("qs", d.id) for d in rn.des]
    bx = [("pg", d.id) for d in rx.gens] + [("qg", d.id) for d in rx.gens] + [("ps", d.id) for d in rx.des] + [("qs", d.id) for d in rx.des]
    ao = [blocks.index((k, inv[i])) for k, i in bx]
    ctx = dict(net=name, variant=v)
    R.close(g.action_space.low, e.action_space.low[ao], 1e-9, "action bounds are attached to the wrong device after renaming", **ctx)
    R.close(g.action_space.high, e.action_space.high[ao], 1e-9, "action bounds are attached to the wrong device after renaming", **ctx)
    R.close(g.observation_space.low, e.observation_space.low[order], 1e-9, "observation bounds are attached to the wrong device", **ctx)
    R.close(g.observation_space.high, e.observation_space.high[order], 1e-9, "observation bounds are attached to the wrong device", **ctx)
    o, h = e.reset(seed=0)[0], g.reset(seed=0)[0]
    R.close(h, o[order], 1e-5 * rn.base, "the initial observation depends on row order or numbering", **ctx)
    acts = X.env_actions(rn, e, "two")
    a = acts[len(acts) // 3]
    s, t = e.step(a), g.step(a[ao])
    R.step(2)
    R.check(s[2] == t[2], "termination depends on row order or numbering", **ctx)
    R.close(t[0], s[0][order], 1e-5 * rn.base, "an observation depends on row order or numbering", action=a, **ctx)
    R.close(t[1], s[1], 1e-5 * max(1, net["lamb"]), "the reward depends on row order or numbering", action=a, **ctx)
    R.state(name, v, "env", canon(s[0], 5))
