"""C12: seeded runs are reproducible and instances do not influence each other."""
import itertools
import os
import random
import subprocess
import sys

import numpy as np

from .. import explore as X, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all interleavings of the operation sequences of two instances (70 each) for 12 pairs of environments, simulators and agents, "
                   "triples (90 interleavings); all seeds 0-7 x 8 disturbances on 6 tasks; 2 networks x every column of the description and every argument changed: "
                   "all interleavings of each such twin with the original, compared with each alone in a fresh process",
          "thorough": "longer operation sequences, all pairs of kinds, 64 seeds"}
ASSUMPTIONS = ["interleavings are at the granularity of operations (the library is documented as single-threaded)"]


# -- scripts: each is a generator; every `yield` is the log entry of one operation ---------------------------
def snap(sim):
    st = sim.state
    return canon({q: {u: list(v.values()) for u, v in d.items()} for q, d in st.items()}, 13)


def envlog(env, o, r=0.0, term=False):
    return (canon(o, 13), canon(r, 13), bool(term), str(getattr(env, "date", None)), getattr(env, "year_count", None),
            canon(env.e_loss, 13), canon(env.penalty, 13), env.timestep, None if term else snap(env.simulator),
            canon(env.observation_space.low, 9), canon(env.action_space.high, 9))


SHARED = {}


def shared(name):
    """The same network description object is given to every instance."""
    if name not in SHARED:
        SHARED[name] = zoo.arrays(zoo.NETS[name]["raw"])
    return SHARED[name]


def easy(seed, n=2, gym=False):
    if gym:
        import gymnasium
        import gym_anm  # noqa: F401
        env = gymnasium.make("ANM6Easy-v0").unwrapped
    else:
        from gym_anm.envs import ANM6Easy
        env = ANM6Easy()
    yield ("made",)
    o, _ = env.reset(seed=seed)
    yield envlog(env, o)
    lo, hi = env.action_space.low, env.action_space.high
    for k in range(n):
        o, r, t, _, _ = env.step(lo + (0.2 + 0.6 * ((seed + k) % 2)) * (hi - lo))
        yield envlog(env, o, r, t)


def agent(seed, kind, steps=2, n=2):
    from gym_anm.agents import MPCAgentConstant, MPCAgentPerfect
    from gym_anm.envs import ANM6Easy
    env = ANM6Easy()
    ag = (MPCAgentConstant if kind == "constant" else MPCAgentPerfect)(env.simulator, env.action_space, env.gamma, planning_steps=steps)
    yield ("made",)
    o, _ = env.reset(seed=seed)
    yield envlog(env, o)
    for k in range(n):
        a = ag.act(env)
        o, r, t, _, _ = env.step(a)
        yield (canon(a, 13),) + envlog(env, o, r, t)


def scen(name, seed, ctor=True, n=2, obs="state"):
    net = zoo.NETS[name]
    env = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], observation=obs, K=1, stochastic=True,
                       seed=seed if ctor else None, arrs=shared(name))
    yield ("made",)
    o, _ = env.reset() if ctor else env.reset(seed=seed)
    yield envlog(env, o)
    rn = RNet(net["raw"])
    acts = X.env_actions(rn, env, "two")
    for k in range(n - 1):
        o, r, t, _, _ = env.step(acts[(seed + k) % len(acts)])
        yield envlog(env, o, r, t)
    o, _ = env.reset()
    o, r, t, _, _ = env.step(acts[(3 * seed + 1) % len(acts)])
    yield envlog(env, o, r, t)


def simu(name, k):
    from gym_anm.simulator import Simulator
    net = zoo.NETS[name]
    rn = RNet(net["raw"])
    sim = Simulator(shared(name), net["dt"], net["lamb"])
    yield (canon({q: {i: dict(x) for i, x in d.items()} for q, d in sim.state_bounds.items()}),)
    sim.reset(zoo.s0(rn, net["scen"][k % len(net["scen"])], 0.3 + 0.2 * k))
    yield snap(sim)
    sp = list(zoo.product_setpoints(rn, "two"))
    for j in range(2):
        ps, qs = sp[(k + 3 * j) % len(sp)]
        pl, pp = zoo.split_scen(rn, net["scen"][(k + j) % len(net["scen"])])
        st, r, e, p, c = sim.transition(pl, pp, ps, qs)
        yield (snap(sim), canon((r, e, p), 13), bool(c))


def collapse(seed):
    net = zoo.NETS["weak"]
    env = zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=1, seed=seed, arrs=shared("weak"), soc_frac=0.4)
    yield ("made",)
    o, _ = env.reset()
    yield envlog(env, o)
    for a in ([8.0, 0, 0, 0], [0.0, -15.0, -30.0, -10.0]):
        o, r, t, _, _ = env.step(np.array(a))
        yield envlog(env, o, r, t)


SCRIPTS = {
    "easy1": lambda: easy(1), "easy2": lambda: easy(2), "gym1": lambda: easy(1, gym=True),
    "mpcC": lambda: agent(3, "constant"), "mpcP": lambda: agent(4, "perfect", 3), "mpcP1": lambda: agent(4, "perfect", 1),
    "duo1": lambda: scen("duo", 1), "duo2": lambda: scen("duo", 2, ctor=False), "gap1": lambda: scen("gap", 1), "gap2": lambda: scen("gap", 2),
    "mesh": lambda: scen("mesh", 3, obs=[("bus_p", "all"), ("branch_s", "all")]),
    "callo": lambda: scen("duo", 5, obs=lambda s: s[:4].copy()),
    "sduo": lambda: simu("duo", 0), "sduo2": lambda: simu("duo", 1), "sgap": lambda: simu("gap", 1), "weak": lambda: collapse(1),
    "anm6": lambda: scen("anm6", 2),
}
PAIRS = [("easy1", "easy2"), ("easy1", "gym1"), ("easy1", "mpcP"), ("mpcC", "mpcP"), ("mpcP", "mpcP1"), ("duo1", "duo2"), ("duo1", "sduo"),
         ("sduo", "sduo2"), ("gap1", "gap2"), ("weak", "duo1"), ("mesh", "gap1"), ("callo", "duo1"), ("anm6", "easy1")]
TRIPLES = [("easy1", "sduo", "duo1"), ("weak", "callo", "easy2")]


def solo(name):
    return list(SCRIPTS[name]())


def orders(n, m):
    """All interleavings of two sequences of lengths n and m, as tuples of 0/1."""
    for c in itertools.combinations(range(n + m), n):
        yield tuple(0 if i in c else 1 for i in range(n + m))


def orders3(n):
    return sorted(set(itertools.permutations((0,) * n + (1,) * n + (2,) * n)))


def jobs(tier):
    out = []
    pairs = PAIRS if tier == "quick" else list(itertools.combinations_with_replacement(SCRIPTS, 2))
    for p in pairs:
        for part in range(2):
            out.append({"kind": "pair", "names": p, "part": [part, 2]})
    for t in TRIPLES:
        for part in range(2):
            out.append({"kind": "triple", "names": t, "part": [part, 2], "thin": 3 if tier == "quick" else 1})
    tw = twins()
    for name in sorted({t[0] for t in tw}):
        mine = [t for t in tw if t[0] == name]
        out += [{"kind": "twin", "twins": mine[k::4]} for k in range(4)]
    for task in ("easy", "gym", "duo", "gap", "anm6", "asym"):
        n = 6 if tier == "quick" else 48
        for s in range(0, n, 3):
            out.append({"kind": "seed", "task": task, "seeds": list(range(s, min(n, s + 3)))})
        out.append({"kind": "process", "task": task})
    return out


# -- almost identical instances: a difference in any single parameter must not be lost ---------------------------
ARGS = {"dt": 0.7, "lamb": 33, "gamma": 0.5, "clip": (0.01, 0.02), "obs": [("dev_p", "all"), ("bus_v_magn", "all", "kV")], "K": 2, "aux": 5.0}


def twin_raw(name, table, col):
    """The network with every value of one column changed a little (None if nothing changes)."""
    r = zoo.NETS[name]["raw"]
    new = {k: ([list(x) for x in v] if isinstance(v, list) else v) for k, v in r.items()}
    if table == "baseMVA":
        new["baseMVA"] = r["baseMVA"] * 1.25
        return new
    for i, row in enumerate(new[table]):
        v = row[col]
        if table == "branch" and col >= 4 and v is None:
            row[col] = {4: 0.03, 5: 25.0, 6: 0.96, 7: 3.0}[col]
        elif v is None:
            continue
        elif table == "bus" and col >= 3 and row[1] == 0:
            row[3], row[4] = row[3] * 0.99, row[4] * 0.99
        else:
            row[col] = v * (0.9 - 0.01 * i)
    return new if new != r else None


def twins():
    out = []
    for name in ("duo", "asym"):
        out += [(name, "arg", a) for a in ARGS] + [(name, "baseMVA", 0)]
        out += [(name, "bus", c) for c in (2, 3, 4)] + [(name, "device", c) for c in range(3, 15)] + [(name, "branch", c) for c in range(2, 8)]
    return out


def twin_script(name, table, col, seed=1):
    net = zoo.NETS[name]
    raw, kw = net["raw"], dict(dt=net["dt"], lamb=net["lamb"], gamma=0.9, clip=None, obs="state", K=1, aux=None)
    if table == "arg":
        kw[col] = ARGS[col]
        if col == "aux":
            kw["aux"], kw["obs"] = np.array([[-5.0, 5.0]]), "state"
    elif table is not None:
        raw = twin_raw(name, table, col)
    env = zoo.make_env(raw, net["scen"], kw["dt"], kw["lamb"], observation=kw["obs"], K=kw["K"], gamma=kw["gamma"], costs_clipping=kw["clip"],
                       aux_bounds=kw["aux"], stochastic=True)
    sim = env.simulator
    o, _ = env.reset(seed=seed)
    yield (canon({q: {i: dict(x) for i, x in d.items()} for q, d in sim.state_bounds.items()}), canon(sim.get_rendering_specs()), envlog(env, o))
    lo, hi = env.action_space.low, env.action_space.high
    out = []
    for f in (0.25, 0.85):
        o, r, t, _, _ = env.step(lo + f * (hi - lo))
        out.append(envlog(env, o, r, t))
    yield tuple(out)
    if name == "duo":
        from gym_anm.agents import MPCAgentConstant
        ag = MPCAgentConstant(sim, env.action_space, env.gamma, planning_steps=2)
        a = ag.act(env)
        o, r, t, _, _ = env.step(a)
        yield (canon(a, 9),) + envlog(env, o, r, t)[:3]


def twin_solo(t):
    try:
        return list(twin_script(*t))
    except Exception as e:  # a changed description may be invalid: refused in the same way whatever was created before
        return "refused: " + type(e).__name__


def pristine_main():
    """Every script alone, each in a fork of an interpreter that never created an environment."""
    import pickle
    out = {}
    for t in pickle.load(sys.stdin.buffer):
        r, w = os.pipe()
        if os.fork() == 0:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(twin_solo(t), f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.wait()
        out[t] = pickle.loads(data) if data else "died"
    sys.stdout.write("TWINS" + pickle.dumps(out).hex() + "\n")


def pristine(ts):
    import pickle
    from ..core import REPO, VERIF
    code = "import sys; sys.path[:0] = [%r, %r]; from mc import core; core.quiet(); from mc.props import c12; import gym_anm; c12.pristine_main()" % (REPO, VERIF)
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=pickle.dumps(ts), capture_output=True, cwd="/")
    line = [x for x in out.stdout.decode().splitlines() if x.startswith("TWINS")]
    if not line:
        raise RuntimeError("a run of single environments failed: " + out.stderr.decode()[-1500:])
    return pickle.loads(bytes.fromhex(line[-1][5:]))


def job_twin(job, R):
    ts = [tuple(t) for t in job["twins"]]
    base = (ts[0][0], None, None)
    ref = pristine([base] + ts)
    R.step(sum(len(v) for v in ref.values()))
    for t in ts:
        if isinstance(ref[t], str):
            R.check(twin_solo(t) == ref[t], "creating an environment is refused or not depending on what was created before", twin=t, alone=ref[t])
            R.outcome("twin refused")
            continue
        R.outcome("twin differs" if ref[t] != ref[base] else "twin behaves alike")
        for who in orders(2, 2):
            gens, pos = [twin_script(*base), twin_script(*t)], [0, 0]
            names = (base, t)
            try:
                # the last operation of an interleaving runs its script to the end
                for n, k in enumerate(who):
                    left = who[n:].count(k)
                    es = [next(gens[k])] if left > 1 else list(gens[k])
                    for e in es:
                        R.step()
                        want = ref[names[k]][pos[k]]
                        R.check(e == want, "an environment behaves differently when an almost identical one is used in between", twin=t, interleaving=who,
                                who=names[k], operation=pos[k], got=e[:3], expected=want[:3])
                        pos[k] += 1
            except Exception as e:
                from ..core import Stop
                if isinstance(e, Stop):
                    raise
                R.fail("an environment fails when an almost identical one is used in between", twin=t, interleaving=who, error=repr(e)[:300])
            R.state("twin", t, who)
            R.trace()
    R.sample({"twins": ts, "interleavings": 6})


def run_job(job, R):
    if job["kind"] == "twin":
        return job_twin(job, R)
    if job["kind"] == "seed":
        return job_seed(job, R)
    if job["kind"] == "process":
        return job_process(job, R)
    names = job["names"]
    ref = [solo(n) for n in names]
    R.step(sum(map(len, ref)))
    if job["kind"] == "pair":
        allo = list(orders(len(ref[0]), len(ref[1])))
    else:
        allo = orders3(2)[:: job["thin"]]
    for k, o in enumerate(allo):
        if k % job["part"][1] != job["part"][0]:
            continue
        gens = [SCRIPTS[n]() for n in names]
        pos = [0] * len(gens)
        for who in o:
            e = next(gens[who])
            R.step()
            R.check(e == ref[who][pos[who]], "an instance behaves differently when another one is used in between", instances=names,
                    interleaving=o, who=names[who], operation=pos[who], got=e[:3], expected=ref[who][pos[who]][:3])
            R.state(names, tuple(pos), o)
            pos[who] += 1
        R.trace()
        R.outcome(job["kind"])
    R.sample({"instances": names, "interleavings": len(allo), "operations": [len(r) for r in ref]})


# -- same seed, same run -------------------------------------------------------------------------------------
def make(task, seed=None):
    if task == "easy":
        from gym_anm.envs import ANM6Easy
        return ANM6Easy()
    if task == "gym":
        import gymnasium
        import gym_anm  # noqa: F401
        return gymnasium.make("ANM6Easy-v0")
    net = zoo.NETS[task]
    return zoo.make_env(net["raw"], net["scen"], net["dt"], net["lamb"], K=1, stochastic=True, seed=seed)


def rollout(env, first, n=3):
    """first: options of the first reset; then steps, unseeded resets, steps."""
    u = env.unwrapped
    acts = [u.action_space.low + f * (u.action_space.high - u.action_space.low) if np.all(np.isfinite(u.action_space.high)) else
            np.clip(np.full(u.action_space.shape, 10.0 * f), u.action_space.low, u.action_space.high) for f in (0.3, 0.8)]
    log = []
    o, _ = env.reset(**first)
    log.append(envlog(u, o))
    for k in range(n):
        o, r, t, _, _ = env.step(acts[k % 2])
        log.append(envlog(u, o, r, t))
        if k % 2:
            o, _ = env.reset()
            log.append(envlog(u, o))
    return log


def disturb(k, env):
    """Things that must not matter."""
    if k == 1:
        np.random.seed(k)
        random.seed(k)
    elif k == 2:
        np.random.seed(77)
        np.random.rand(1000)
        random.random()
    elif k == 3:
        env.reset(seed=999)
        env.step(np.clip(np.zeros(env.unwrapped.action_space.shape), env.unwrapped.action_space.low, env.unwrapped.action_space.high))
    elif k == 4:
        env.reset()
        env.reset()
    elif k == 5:
        env.reset(seed=5)
        try:
            env.step(np.full(env.unwrapped.action_space.shape, np.nan))
        except Exception:
            pass
    elif k == 6:
        env.action_space.seed(3)
        env.action_space.sample()
        env.observation_space.seed(4)
    elif k == 7:
        make("easy").reset(seed=31)
        np.random.default_rng(1).random()


def job_seed(job, R):
    for seed in job["seeds"]:
        ref = None
        for k in range(8):
            np.random.seed(1234 + k)
            env = make(job["task"])
            disturb(k, env)
            log = rollout(env, {"seed": seed})
            R.step(len(log))
            ref = ref or log
            R.check(log == ref, "two runs with the same seed and actions differ", task=job["task"], seed=seed, disturbance=k,
                    first_difference=next((i for i, (a, b) in enumerate(zip(log, ref)) if a != b), None))
            R.trace()
            R.state(job["task"], seed, k, log[0][0])
        # a seed given at construction and consecutive unseeded resets
        if job["task"] not in ("easy", "gym"):
            for k in (0, 2, 7):
                env = make(job["task"], seed)
                disturb(k, env)
                log = rollout(env, {})
                R.step(len(log))
                if k == 0:
                    first = log
                R.check(log == first, "two environments created with the same seed differ", task=job["task"], seed=seed, disturbance=k)
                R.trace()
        # the second identical reset(seed) of one instance restarts the stream
        again = rollout(env, {"seed": seed})
        R.check(again == ref, "re-seeding an environment does not restart the same random stream", task=job["task"], seed=seed)
        # seeds matter where the task is stochastic
        R.outcome("seed")
    R.sample({"task": job["task"], "seeds": job["seeds"]})




def process_main(task):
    from ..core import h64
    print("ROLLOUT", [h64(e) for e in rollout(make(task), {"seed": 3})])


def job_process(job, R):
    """Separate interpreters with different hash seeds: no dependence on set / hash order or on the process."""
    from ..core import REPO, VERIF
    ref = None
    for k in range(3):
        env = dict(os.environ, PYTHONHASHSEED=str(17 * k), PYTHONDONTWRITEBYTECODE="1")
        code = "import sys; sys.path[:0] = [%r, %r]; from mc import core; core.quiet(); from mc.props import c12; c12.process_main(%r)" % (
            REPO, VERIF, job["task"])
        out = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env=env, cwd="/")
        line = [x for x in out.stdout.splitlines() if x.startswith("ROLLOUT")]
        R.check(bool(line), "a seeded run fails in a separate process", stderr=out.stderr[-1500:], task=job["task"])
        ref = ref or line
        R.check(line == ref, "two processes running the same seed and actions differ", task=job["task"], hashseed=17 * k)
        R.step(6)
        R.state("process", job["task"], k, line)
        R.trace()
    R.outcome("process")
