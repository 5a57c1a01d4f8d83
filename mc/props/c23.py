"""C23: callers' data and returned arrays are never shared with the environment."""
import copy

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "6 networks x 7 observation specifications x 10 kinds of caller-side modification (and all at once) injected after each operation of a history "
                   "of resets, steps and a collapse; every object passed in or returned is snapshotted and compared after every operation; agents and "
                   "simulators likewise",
          "thorough": "all networks, every pair of modifications, longer histories"}
ASSUMPTIONS = ["the state vector passed to next_vars and the environment's own attributes are not modified by the caller"]
QUICK = ("duo", "gap", "none", "weak", "anm6", "store")
KINDS = ("last obs", "all obs", "action", "network", "aux bounds", "s0", "vars", "spec", "costs", "state entry")


def obs_kinds(rn):
    ids = [d.id for d in rn.devs]
    bus = [b.id for b in rn.buses]
    return {
        "state": lambda: "state",
        "list": lambda: [("dev_p", list(ids[:2]), "MW"), ("bus_v_magn", list(bus), "pu"), ("aux", "all")],
        "list of lists": lambda: [["bus_p", list(bus[::-1])], ["aux", [1, 0]], ["dev_q", "all", "pu"]],
        "identity": lambda: (lambda s: s),
        "view": lambda: (lambda s: s[1:]),
        "reversed view": lambda: (lambda s: s[::-1]),
        "function": lambda: (lambda s: s * 2.0),
    }


def jobs(tier):
    nets = QUICK if tier == "quick" else tuple(zoo.NETS)
    out = []
    for n in nets:
        for k in range(7):
            out.append(("env", n, k, tier))
        out.append(("sim", n, 0, tier))
        out.append(("agent", n, 0, tier))
    return out


def build(name, ospec):
    """An environment whose init_state / next_vars return arrays that the caller keeps."""
    from gym_anm.envs import ANMEnv

    nt = zoo.NETS[name]
    rn = RNet(zoo.get(name))
    arrs = zoo.arrays(zoo.get(name))
    scen = nt["scen"]
    K = 2
    h = {"network": arrs, "aux": np.array([[-5.0, 1000.0], [-7.0, 2000.0]]), "s0": zoo.s0(rn, scen[0], 0.6, [3.0, 4.0]),
         "vars": [np.array([s.get(d.id, 0.0) for d in rn.loads + rn.gens] + [5.0 + k, 6.0 + k], float) for k, s in enumerate(scen)],
         "spec": ospec, "costs": [50.0, 500.0]}
    # values out of their ranges: the environment limits what it uses, not the caller's array
    out = h["vars"][0].copy()
    out[: len(rn.loads)] = [0.01 * (i + 1) for i in range(len(rn.loads))]
    out[len(rn.loads) : len(rn.loads) + len(rn.gens)] = [(-0.01, 1e4)[i % 2] for i in range(len(rn.gens))]
    out[-2:] = [5e3, -5e3]
    h["vars"].insert(1, out)
    master = h["given"] = copy.deepcopy({"s0": h["s0"], "vars": h["vars"]})

    class E(ANMEnv):
        n = 0

        def init_state(self):
            h["s0"][:] = master["s0"]  # the caller refills and hands out the same array every time
            self.n = 0
            return h["s0"]

        def next_vars(self, s_t):
            k = self.n % len(h["vars"])
            self.n += 1
            h["vars"][k][:] = master["vars"][k]
            h["vars"][k][-1] += s_t[-1]
            h["seen"] = np.array(s_t)
            return h["vars"][k]

    env = E(h["network"], h["spec"], K, nt["dt"], 0.9, nt["lamb"], h["aux"], h["costs"])
    return env, h, rn


def scribble(a):
    """Overwrites an array the caller holds."""
    try:
        if isinstance(a, np.ndarray) and a.size:
            if a.dtype == object:
                for idx in np.ndindex(a.shape):
                    a[idx] = 77.5 if a[idx] is not None else None
            else:
                a[...] = 77.5
    except ValueError:
        pass  # read-only: protected


def mutate(kind, h, held, last_action):
    if kind == "last obs" and held:
        scribble(held[-1])
    elif kind == "all obs":
        for o in held:
            scribble(o)
    elif kind == "state entry" and held and held[-1].size:
        try:
            held[-1][-1] += 1.0
            held[-1][0] -= 3.0
        except ValueError:
            pass
    elif kind == "action" and last_action is not None:
        scribble(last_action)
    elif kind == "network":
        for t in ("bus", "device", "branch"):
            scribble(h["network"][t])
        h["network"]["baseMVA"] = 3
    elif kind == "aux bounds":
        scribble(h["aux"])
    elif kind == "s0":
        scribble(h["s0"])
    elif kind == "vars":
        for v in h["vars"]:
            scribble(v)
    elif kind == "spec" and isinstance(h["spec"], list):
        for e in h["spec"]:
            if isinstance(e[1], list):
                e[1].reverse()
                e[1][:] = e[1][:1]
        h["spec"].append(("dev_p", "all"))
    elif kind == "costs":
        h["costs"][:] = [0.001, 0.001]


def history(rn, env, n):
    acts = X.env_actions(rn, env, "three", 3)
    big = np.asarray(env.action_space.low, float)
    ops = [("reset", 1)]
    ops += [("step", a) for a in acts[:2]] or [("step", big)] * 2
    ops += [("step", np.where(np.isfinite(big), big, -1000.0))] * 2  # collapses the weak network
    ops += [("reset", 2)] + [("step", a) for a in (acts[1:3] or [big])]
    return ops[:n]


def play(name, make_spec, inject, R, n=8):
    """Runs the history, applying `inject` = {position: [kinds]} after the operation at that position."""
    env, h, rn = build(name, make_spec())
    ref_inputs = {"network": canon(h["network"], 12), "aux": canon(h["aux"], 12), "spec": repr(h["spec"]) if not callable(h["spec"]) else "f",
                  "costs": repr(h["costs"])}
    held, snaps, trace = [], [], []
    touched = set()
    mutated_obs = set()
    for kind in inject.get(-1, ()):
        mutate(kind, h, held, None)
        touched.add(kind)
    for pos, (op, arg) in enumerate(history(rn, env, n)):
        act = None
        if op == "reset":
            obs, _ = env.reset(seed=arg)
            out = (obs,)
            R.check(canon(h["s0"], 12) == canon(zoo.s0(rn, zoo.NETS[name]["scen"][0], 0.6, [3.0, 4.0]), 12), "reset() modified the initial-state vector", net=name,
                    got=h["s0"])
        else:
            act = np.array(arg, float)
            before = act.copy()
            vbefore = None
            obs, r, d, t, _ = env.step(act)
            out = (obs, r, d, t)
            R.check(np.array_equal(act, before), "step() modified the action array", net=name, got=act, expected=before)
        R.step()
        trace.append(canon(out, 12))
        R.state(name, str(inject), pos, trace[-1])
        # what was returned earlier keeps its values
        for k, (o, s) in enumerate(zip(held, snaps)):
            if k not in mutated_obs and not np.array_equal(o, s):
                R.fail("an observation returned earlier changed when the environment moved on", net=name, returned_at=k, changed_at=pos, got=o, expected=s)
        # the caller's own data are unchanged (unless the caller changed them)
        if "network" not in touched and canon(h["network"], 12) != ref_inputs["network"]:
            R.fail("the environment modified the caller's network description", net=name, op=op)
        if "aux bounds" not in touched and canon(h["aux"], 12) != ref_inputs["aux"]:
            R.fail("the environment modified the caller's auxiliary bounds", net=name, op=op)
        if "spec" not in touched and not callable(h["spec"]) and repr(h["spec"]) != ref_inputs["spec"]:
            R.fail("the environment modified the caller's observation specification", net=name, op=op, got=repr(h["spec"]), expected=ref_inputs["spec"])
        if "costs" not in touched and repr(h["costs"]) != ref_inputs["costs"]:
            R.fail("the environment modified the caller's clipping values", net=name, op=op)
        if op == "step" and "vars" not in touched and not (env.terminated):
            for k, v in enumerate(h["given"]["vars"]):
                want = v[:-1]
                R.check(np.array_equal(h["vars"][k][:-1], want), "step() modified the vector returned by next_vars", net=name, got=h["vars"][k], expected=want)
        held.append(obs)
        snaps.append(np.array(obs))
        for kind in inject.get(pos, ()):
            mutate(kind, h, held, act)
            touched.add(kind)
            if kind in ("last obs", "state entry"):
                mutated_obs.add(len(held) - 1)
            if kind == "all obs":
                mutated_obs.update(range(len(held)))
    return trace


def run_env(name, k, tier, R):
    rn = RNet(zoo.get(name))
    oname = list(obs_kinds(rn))[k]
    make_spec = obs_kinds(rn)[oname]
    n = 8
    base = play(name, make_spec, {}, R, n)
    again = play(name, make_spec, {}, R, n)
    R.check(base == again, "the same history gave different results", net=name, obs=oname)
    plans = [{-1: (kind,)} for kind in ("network", "aux bounds", "spec", "costs", "s0", "vars")]
    poss = range(n - 1)
    for p in poss:
        kinds = KINDS if tier != "quick" or p in (0, 2, 4) else ("all obs", "state entry", "network", "vars")
        plans += [{p: (kind,)} for kind in kinds]
    plans.append({p: KINDS for p in range(-1, n - 1)})
    plans.append({p: ("all obs", "action", "s0", "vars") for p in range(0, n - 1)})
    if tier != "quick":
        plans += [{0: (a,), q: (b,)} for a in KINDS for b in KINDS for q in (1, 3)]
    for plan in plans:
        got = play(name, make_spec, plan, R, n)
        R.trace()
        if got != base:
            pos = next(i for i, (x, y) in enumerate(zip(got, base)) if x != y)
            R.fail("a modification of the caller's arrays changed the environment's behaviour", net=name, observation=oname, modified=str(plan), first_difference_at=pos,
                   got=str(got[pos])[:300], expected=str(base[pos])[:300], key="%s %s" % (oname, plan))
    R.outcome("histories with modifications", len(plans))
    R.sample("%s, observation %s: %s leaves the 8-operation history unchanged" % (name, oname, plans[7]))


def run_sim(name, tier, R):
    """Direct use of the simulator: its inputs are not modified, results of earlier transitions are kept."""
    rn = RNet(zoo.get(name))
    arrs = zoo.arrays(zoo.get(name))
    ref_net = canon(arrs, 12)
    from gym_anm.simulator import Simulator

    nt = zoo.NETS[name]
    sim = Simulator(arrs, nt["dt"], nt["lamb"])
    twin = zoo.sim(name)
    held = []
    n = 0
    for scen in nt["scen"]:
        s0 = zoo.s0(rn, scen, 0.5)
        s0c = s0.copy()
        sim.reset(s0)
        twin.reset(s0.copy())
        R.check(np.array_equal(s0, s0c), "Simulator.reset() modified the initial state", net=name)
        scribble(s0)
        held.append((sim.state, copy.deepcopy(sim.state)))
        for ps, qs in list(zoo.product_setpoints(rn, "two"))[:4]:
            pl, pp = zoo.split_scen(rn, scen)
            args = [dict(pl), dict(pp), dict(ps), dict(qs)]
            cp = copy.deepcopy(args)
            res = sim.transition(*args)
            ref = twin.transition(*cp)
            R.step()
            R.trace()
            n += 1
            R.check(args == [dict(pl), dict(pp), dict(ps), dict(qs)], "Simulator.transition() modified its arguments", net=name)
            R.check(canon(res, 10) == canon(ref, 10), "the simulator's results depend on modifications of the caller's data", net=name, step=n)
            for d in args:
                for i in d:
                    d[i] = 99.0
            held.append((res[0], copy.deepcopy(res[0])))
            R.state(name, n, canon(res[1:], 8))
            if n == 2:
                for t in ("bus", "device", "branch"):
                    scribble(arrs[t])
            elif n < 2:
                R.check(canon(arrs, 12) == ref_net, "the simulator modified the caller's network description", net=name)
            for st, snap in held:
                if canon(st, 12) != canon(snap, 12):
                    R.fail("a state returned by the simulator earlier changed", net=name, step=n)
    R.outcome("simulators")


def run_agent(name, tier, R):
    from gym_anm.agents import MPCAgentConstant

    nt = zoo.NETS[name]
    env, h, rn = build(name, "state")
    twin, h2, _ = build(name, "state")
    ref = canon(h["network"], 12)
    lo, hi = env.action_space.low.copy(), env.action_space.high.copy()
    obs, _ = env.reset(seed=0)
    o2, _ = twin.reset(seed=0)
    ag = MPCAgentConstant(env.simulator, env.action_space, env.gamma, 0.9, 3)
    ag2 = MPCAgentConstant(twin.simulator, twin.action_space, twin.gamma, 0.9, 3)
    last = None
    for k in range(3):
        snap = obs.copy()
        a = ag.act(env)
        b = ag2.act(twin)
        R.step()
        R.check(np.array_equal(obs, snap), "acting modified a returned observation", net=name)
        R.check(canon(h["network"], 12) == ref, "acting modified the network description", net=name)
        R.check(np.array_equal(lo, env.action_space.low) and np.array_equal(hi, env.action_space.high), "acting modified the action space", net=name)
        R.check(np.array_equal(a, b), "a modification of an earlier returned action changed the agent's decisions", net=name, got=a, expected=b)
        if last is not None:
            R.check(last[0] is not a, "the agent returns the same array object again", net=name)
        obs, r, d, _, _ = env.step(a)
        o2, r2, d2, _, _ = twin.step(b)
        R.check(np.array_equal(obs, o2) and r == r2 and d == d2, "a modification of returned actions changed the environment", net=name)
        R.state(name, "agent", k, canon(obs))
        last = (a, a.copy())
        scribble(a)
        if d:
            break
    R.trace()
    R.outcome("agents")


def run_job(job, R):
    kind, name, k, tier = job
    if kind == "env":
        run_env(name, k, tier, R)
    elif kind == "sim":
        run_sim(name, tier, R)
    else:
        run_agent(name, tier, R)
