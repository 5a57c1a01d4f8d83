"""C19: exactly the valid environment arguments are accepted, others are refused with the documented error class."""
import itertools

import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet
from .c09 import UNITS
from .c17 import ids_of

LEVEL = "model_checking"
BOUNDS = {"quick": "full product of the number of auxiliary variables, time step, discount, lambda, auxiliary bounds and kind of observation (boundary values); "
                   "all observation entries over the grammar quantity x ids x unit x length (valid and invalid), alone and at each position of longer "
                   "specifications; 4 networks",
          "thorough": "all networks, all ordered pairs of entry representatives, pairs of offences"}
ASSUMPTIONS = ["ids are given in lists (or 'all'); empty specifications and empty id lists are not considered"]
NAN = float("nan")
QUICK_NETS = ("duo", "gap", "passive", "store")
ALLU = sorted({u for us in UNITS.values() for u in us})


class Bad:
    """Not a specification of anything."""

    def __repr__(self):
        return "<object>"


BAD = Bad()


def jobs(tier):
    nets = QUICK_NETS if tier == "quick" else tuple(zoo.NETS)
    out = []
    for n in nets:
        out += [("scalars", n, i, tier) for i in range(4)]
        out += [("entries", n, i, tier) for i in range(4)]
        out += [("lists", n, i, tier) for i in range(2 if tier == "quick" else 8)]
    return out


# -- the independent validator -----------------------------------------------------------------------------------------

def entry_offences(rn, K, e):
    if not isinstance(e, (tuple, list)) or len(e) not in (2, 3):
        return {"ObsSpaceError"}
    out = set()
    q = e[0]
    if q not in list(UNITS) + ["aux"]:
        return {"ObsNotSupportedError"} | ({"ObsSpaceError"} if not nodes_ok(None, e[1]) else set()) | ({"UnitsNotSupportedError"} if len(e) == 3 else set())
    if not nodes_ok(ids_of(rn, q, K), e[1]):
        out.add("ObsSpaceError")
    if len(e) == 3 and e[2] not in (UNITS[q] if q != "aux" else (None,)):
        out.add("UnitsNotSupportedError")
    return out


def nodes_ok(ids, sel):
    if isinstance(sel, str):
        return sel == "all"
    return isinstance(sel, list) and (ids is None or all(i in ids for i in sel))


def offences(rn, a):
    out = set()
    if not a["K"] >= 0 or not a["delta_t"] > 0 or not a["lamb"] >= 0 or not 0 <= a["gamma"] <= 1:
        out.add("ArgsError")
    if a["aux_bounds"] is not None and len(a["aux_bounds"]) != a["K"]:
        out.add("ArgsError")
    o = a["observation"]
    if isinstance(o, list):
        for e in o:
            out |= entry_offences(rn, a["K"], e)
    elif not (isinstance(o, str) and o == "state") and not callable(o):
        out.add("ArgsError")
    return out


def attempt(name, rn, a, R, what):
    from gym_anm.envs import ANMEnv

    scen = zoo.NETS[name]["scen"][0]

    class E(ANMEnv):
        def init_state(self):
            return zoo.s0(rn, scen, 0.5, [0.0] * self.K)

        def next_vars(self, s_t):
            return np.array([scen.get(d.id, 0.0) for d in rn.loads + rn.gens] + [0.0] * self.K)

    exp = offences(rn, a)
    show = {k: (v if not callable(v) else "function") for k, v in a.items()}
    R.state(name, repr(show))
    R.step()
    try:
        env = E(zoo.arrays(zoo.get(name)), a["observation"], a["K"], a["delta_t"], a["gamma"], a["lamb"], a["aux_bounds"])
    except Exception as e:  # noqa
        R.outcome("refused" if exp else "wrongly refused")
        mro = {c.__name__ for c in type(e).__mro__}
        if not exp:
            R.fail("valid arguments were refused with %s: %s" % (type(e).__name__, str(e)[:200]), args=show, key="refused " + what)
        elif not (mro & exp):
            R.fail("invalid arguments raised %s instead of one of %s" % (type(e).__name__, sorted(exp)), args=show, error=str(e)[:200], key="class " + what)
        elif exp == {"ObsSpaceError"} and type(e).__name__ != "ObsSpaceError":
            R.fail("invalid arguments raised %s instead of ObsSpaceError" % type(e).__name__, args=show, key="class " + what)
        R.trace()
        return None
    R.outcome("accepted")
    if exp:
        R.fail("invalid arguments (expected %s) were accepted" % sorted(exp), args=show, key="accepted " + what)
    return env


def works(name, rn, a, env, R):
    """An accepted environment is usable and its observations have the requested size."""
    obs, _ = env.reset(seed=0)
    o = a["observation"]
    if isinstance(o, list):
        n = sum(len(ids_of(rn, e[0], a["K"])) if isinstance(e[1], str) else len(e[1]) for e in o)
        R.check(len(obs) == n, "an accepted observation specification yields observations of another size", args=repr(a), got=len(obs), expected=n)
    R.trace()


def base(**k):
    a = {"K": 2, "delta_t": 0.5, "gamma": 0.9, "lamb": 10, "aux_bounds": None, "observation": "state"}
    a.update(k)
    return a


def bounds(n):
    return None if n is None else np.array([[0.0, 10.0 + i] for i in range(n)]).reshape(n, 2)


# -- entries ------------------------------------------------------------------------------------------------------------

def entries(rn, K):
    """Every entry of the grammar, valid and invalid."""
    for q in list(UNITS) + ["aux", "bus", "bus_P", "soc", "", None, 3]:
        valid = q in UNITS or q == "aux"
        ids = ids_of(rn, q, K) if valid else [0]
        sels = ["all", "ALL", "", None, 1, BAD] + [[i] for i in ids]
        miss = (99, 98) if valid and q.startswith("branch") else 99
        sels += [[miss], ids + [miss], [-1], [None], ["all"]]
        if K and q == "aux":
            sels += [[K], [0, K], [-K], [0, -1]]
        if valid and q.startswith("branch"):
            sels += [[(t, f)] for f, t in ids if (t, f) not in ids] + [[0]]
        if len(ids) > 1:
            sels += [list(ids), list(reversed(ids)), [ids[0], ids[0]]]
        if valid and q[:3] in ("des", "gen"):  # ids of devices of another kind
            sels += [[d.id] for d in rn.devs if d.id not in ids]
        if valid and q[:3] == "bus":
            sels += [[d.id] for d in rn.devs if d.id not in ids][:1]
        for s in sels:
            if isinstance(s, list) and q == "aux" and any(not isinstance(i, int) for i in s):
                continue
            for u in ["<absent>"] + ALLU + [None, "", "mw", BAD]:
                e = (q, s) if u == "<absent>" else (q, s, u)
                yield e
        yield (q,)
        yield (q, "all", "pu", "pu")
    yield ()
    for e in (BAD, 3, None):
        yield e


def run_job(job, R):
    kind, name, part, tier = job
    rn = RNet(zoo.get(name))
    if kind == "scalars":
        obs = ["state", lambda s: s[:1], [("dev_p", "all")], "State", "", None, 5, BAD, {"dev_p": "all"}, (("dev_p", "all"),)]
        n = 0
        for k, dt, g, lam, ab, o in itertools.product([-1, 0, 1, 3], [NAN, -1, 0, 1e-3, 0.25, 2], [NAN, -1e-9, 0, 0.5, 1, 1.000001, 2], [NAN, -1, -1e-9, 0, 1, 1e6],
                                                      [None, 0, 1, 2, 3, 4], range(len(obs))):
            n += 1
            bad = (k < 0) + (not dt > 0) + (not 0 <= g <= 1) + (not lam >= 0) + (ab is not None and ab != k) + (o > 2)
            if bad > 2 or (bad == 2 and tier == "quick" and n % 5) or (bad == 0 and tier == "quick" and n % 3) or n % 4 != part:
                continue
            a = base(K=k, delta_t=dt, gamma=g, lamb=lam, aux_bounds=bounds(ab), observation=obs[o])
            env = attempt(name, rn, a, R, "scalars")
            if env is not None and n % 16 == part:
                works(name, rn, a, env, R)
        R.sample("scalars of %s: e.g. K=%s dt=%s gamma=%s lamb=%s aux_bounds of %s" % (name, k, dt, g, lam, ab))
    elif kind == "entries":
        for n, e in enumerate(entries(rn, 2)):
            if n % 4 != part:
                continue
            a = base(observation=[e])
            env = attempt(name, rn, a, R, "entry %r" % (e,))
            if env is not None:
                works(name, rn, a, env, R)
        if part == 0:
            for K in (0, 1):
                for s in ("all", [0], [1], [-1], [0, 1]):
                    if not (K == 0 and s == "all"):
                        attempt(name, rn, base(K=K, observation=[("dev_p", "all"), ("aux", s)]), R, "aux K=%d %s" % (K, s))
        R.sample("entry of %s: %r -> %s" % (name, e, sorted(entry_offences(rn, 2, e)) or "accepted"))
    else:
        es = list(entries(rn, 2))
        good = [e for e in es if not entry_offences(rn, 2, e)]
        bads = {}
        for e in es:
            o = entry_offences(rn, 2, e)
            if o:
                bads.setdefault((frozenset(o), e[0] if isinstance(e, tuple) and e else None, len(e) if isinstance(e, tuple) else 0), e)
        reps = list(bads.values())
        step = max(1, len(good) // (12 if tier == "quick" else 60))
        good = good[::step]
        n = 0
        mod = 2 if tier == "quick" else 8
        for g, h in itertools.product(good, good):
            n += 1
            if n % mod == part:
                a = base(observation=[g, h])
                env = attempt(name, rn, a, R, "pair of valid entries")
                if env is not None:
                    works(name, rn, a, env, R)
        for b in reps:
            for k, g in enumerate(good[::3]):
                n += 1
                if n % mod == part:
                    for spec in ([b, g], [g, b], [g, b, g], [g, g, g, b]):
                        attempt(name, rn, base(observation=spec), R, "list with %r" % (b,))
        if tier != "quick":
            for b, c in itertools.product(reps, reps):
                n += 1
                if n % mod == part:
                    attempt(name, rn, base(observation=[b, c]), R, "two offences %r %r" % (b, c))
