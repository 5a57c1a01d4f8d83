"""C28: environments honour the Gymnasium interface in every reachable situation."""
import copy
import itertools
import math

import numpy as np

from .. import explore as X, zoo
from ..core import canon, from_repo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all sequences of up to 2 (3 on two networks) operations out of 8 {seeded / plain / optioned reset, idle / extreme / mixed actions, refused action} after each of 2 "
                   "resets, on 10 networks x 5 observation kinds, alternating over 6 reward configurations; all sequences of up to 4 operations on the registered environment, in lock-step with a "
                   "directly constructed one, and 120-step episodes; every unsupported operation at every position of bounded histories",
          "thorough": "sequences of up to 3 (4 on two networks, 5 on the registered environment) operations, all reward configurations"}
ASSUMPTIONS = ["the observation of a terminal state is the documented all-zeros vector, which may lie outside the observation space"]
OBS = ("state", "list", "call", "bounded", "method")
CONF = [(0.9, None), (0.99, (5.0, 50.0)), (1.0, None), (0.0, (0.0, 0.0)), (1.0, (3.0, 0.0)), (0.5, (None, 7.0))]
OPS = ("seed", "plain", "opts", "idle", "hi", "lo", "mix", "bad")


def jobs(tier):
    out = []
    for n in zoo.NETS:
        for k, o in enumerate(OBS):
            deep = n in ("weak", "duo")
            confs = [(k + len(n)) % 6, (k + len(n) + 3) % 6][:1 if deep else 2] if tier == "quick" else range(6)
            for c in confs:
                out.append(("tree", n, o, c, (3 if deep else 2) if tier == "quick" else (4 if deep else 3)))
    for first in range(6):
        out.append(("registered", first, 4 if tier == "quick" else 5))
    out += [("long", k, 120 if tier == "quick" else 400) for k in range(4)]
    out += [("unsupported", n, tier) for n in ("duo", "gap", "passive", "anm6")]
    return out


def make(name, kind, conf):
    from gym_anm.envs import ANMEnv
    from gymnasium import spaces

    gamma, clip = CONF[conf]
    rn = RNet(zoo.get(name))
    K = 2
    spec = {"state": "state", "list": [("bus_v_magn", "all", "kV"), ("aux", "all"), ("dev_p", [rn.devs[-1].id, rn.devs[0].id])], "bounded": "state",
            "call": (lambda s: np.tanh(s[: len(s) // 2]) * 3.0), "method": "state"}[kind]
    if kind == "list" and rn.branches:
        spec = spec + [["branch_s", "all", "pu"], ("bus_i_magn", [rn.buses[0].id], "kA")]

    class E(ANMEnv):
        if kind == "bounded":
            def observation_bounds(self):
                return spaces.Box(low=-np.ones(3) * 1e6, high=np.ones(3) * 1e6, dtype=np.float64)

            def observation(self, s_t):
                return np.array(s_t[[0, -1, 1]], float)
        if kind == "method":
            def observation_bounds(self):
                return None

            def observation(self, s_t):
                return np.concatenate([s_t, [float(self.timestep)]])

    bounds = np.array([[0.0, 3.0], [5.0, 11.0]]) if kind == "list" else None
    return zoo.make_env(zoo.get(name), zoo.NETS[name]["scen"], zoo.NETS[name]["dt"], zoo.NETS[name]["lamb"], observation=spec, K=K, gamma=gamma,
                        costs_clipping=clip, aux_bounds=bounds, cls=E)


def actions(rn, env):
    lo, hi = np.asarray(env.action_space.low, float), np.asarray(env.action_space.high, float)
    lo, hi = np.where(np.isfinite(lo), lo, -40.0), np.where(np.isfinite(hi), hi, 40.0)
    out = {"idle": np.clip(np.zeros(lo.shape), lo, hi), "hi": hi, "lo": lo, "mix": np.where(np.arange(len(lo)) % 2 == 0, hi, lo)}
    return out


def bad_action(env, k):
    n = env.action_space.shape[0]
    if n == 0:
        return np.zeros(1)
    cands = [np.zeros(n + 1), np.full(n, np.nan), np.clip(np.zeros(n), env.action_space.low, env.action_space.high).astype(float)]
    c = cands[k % 3]
    if k % 3 == 2:
        if not np.isfinite(env.action_space.high).any():
            return np.zeros(n - 1)
        i = int(np.argmax(np.isfinite(env.action_space.high)))
        c[i] = env.action_space.high[i] + abs(env.action_space.high[i]) + 1.0
    return c


def space_sig(sp):
    return None if sp is None else (type(sp).__name__, sp.shape, str(sp.dtype), canon(np.asarray(sp.low, float), 12), canon(np.asarray(sp.high, float), 12))


def check_obs(R, env, obs, terminal, ctx):
    sp = env.observation_space
    R.check(isinstance(obs, np.ndarray) and obs.dtype.kind == "f" and obs.ndim == 1, "an observation is not a one-dimensional float array", got=repr(type(obs)), **ctx)
    R.check(obs.shape == sp.shape, "an observation does not have the shape of the observation space", got=obs.shape, space=sp.shape, **ctx)
    R.check(env.observation_N == sp.shape[0], "observation_N is not the size of the observation space", **ctx)
    if terminal:
        R.check(not np.any(obs), "the observation of a terminal state is not zero", got=obs, **ctx)
    elif not sp.contains(obs):
        R.fail("an observation is not contained in the observation space", got=obs, low=sp.low, high=sp.high, **ctx)


def contract(R, env, out, op, model, ctx):
    """Checks one returned value; model = {"dead": bool, "t": int} is the reference automaton."""
    if op in ("seed", "plain", "opts"):
        R.check(isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], dict), "reset does not return (observation, info)", got=repr(out)[:200], **ctx)
        model["dead"], model["t"] = False, 0
        check_obs(R, env, out[0], False, ctx)
    else:
        R.check(isinstance(out, tuple) and len(out) == 5 and isinstance(out[4], dict), "step does not return a 5-tuple ending with an info dict", got=repr(out)[:200], **ctx)
        obs, r, term, trunc, info = out
        R.check(isinstance(term, (bool, np.bool_)), "terminated is not a bool", got=repr(term), **ctx)
        R.check(isinstance(trunc, (bool, np.bool_)) and not trunc, "truncated is not False", got=repr(trunc), **ctx)
        R.check(isinstance(r, (float, np.floating)), "the reward is not a float", got=repr(type(r)), **ctx)
        R.check(not math.isnan(float(r)), "the reward is NaN", **ctx)
        was = model["dead"]
        if was:
            R.check(bool(term), "the environment leaves a terminal state without a reset", **ctx)
        if not was:
            model["t"] += 1
        model["dead"] = bool(term)
        if not term:
            R.check(math.isfinite(r), "an infinite reward in a non-terminal state", reward=r, **ctx)
        check_obs(R, env, obs, bool(term), ctx)
        R.outcome("absorbed" if was else "collapse" if term else "step")
    R.check(env.timestep == model["t"], "the step count is wrong", got=env.timestep, expected=model["t"], **ctx)
    R.check(bool(env.terminated) == model["dead"], "the terminated attribute is wrong", **ctx)


def apply(env, op, acts, k):
    if op == "seed":
        return env.reset(seed=k + 3)
    if op == "plain":
        return env.reset()
    if op == "opts":
        return env.reset(seed=None, options={})
    return env.step(acts[op].copy())


def tree(job, R):
    _, name, kind, conf, depth = job
    rn = RNet(zoo.get(name))
    base = make(name, kind, conf)
    acts = actions(rn, base)
    sig_a = space_sig(base.action_space)
    R.check(base.action_space.shape == (2 * len(rn.gens) + 2 * len(rn.des),), "the action space has the wrong size", net=name)
    before = space_sig(base.observation_space)

    def rec(env, hist, model, sig_o):
        for op in (OPS if hist else ("seed", "plain")):
            e = copy.deepcopy(env)
            m = dict(model)
            h = hist + [op]
            ctx = dict(net=name, obs=kind, config=CONF[conf], history=h)
            if op == "bad":
                try:
                    e.step(bad_action(e, len(h) + len(hist)))
                    R.fail("an action outside the action space is accepted", **ctx)
                except Exception as ex:
                    if not from_repo(ex.__traceback__):
                        raise
                R.step()
                R.check(e.timestep == m["t"] and bool(e.terminated) == m["dead"], "a refused action advances the step count", **ctx)
            else:
                out = apply(e, op, acts, len(h))
                R.step()
                contract(R, e, out, op, m, ctx)
            s = space_sig(e.observation_space)
            R.check(s is not None and (sig_o is None or s == sig_o), "the observation space changes", got=s, expected=sig_o, **ctx)
            R.check(space_sig(e.action_space) == sig_a, "the action space changes", **ctx)
            R.state(name, kind, conf, tuple(h), m["dead"], canon(np.asarray(e.state, float), 7))
            if len(h) <= depth:
                rec(e, h, m, s)
            else:
                R.trace()

    rec(base, [], {"dead": False, "t": 0}, before)
    R.sample({"net": name, "observation": kind, "reward configuration": CONF[conf]})


def easy():
    from gym_anm.envs import ANM6Easy

    return ANM6Easy()


def registered_env():
    import gymnasium as gym
    import gym_anm  # noqa: F401

    return gym.make("ANM6Easy-v0")


def compare(R, a, b, ctx):
    u = a.unwrapped
    R.check(u.timestep == b.timestep and canon(np.asarray(u.state, float), 12) == canon(np.asarray(b.state, float), 12) and u.date == b.date,
            "the registered environment is in another state than the directly constructed one", got=u.state, expected=b.state, **ctx)
    R.check(space_sig(a.observation_space) == space_sig(b.observation_space) and space_sig(a.action_space) == space_sig(b.action_space),
            "the registered environment has other spaces than the directly constructed one", **ctx)


def registered(job, R):
    _, first, depth = job
    b0 = easy()
    acts = actions(None, b0)
    ops = ("seed", "plain", "idle", "hi", "lo", "mix")
    R.check(type(registered_env().unwrapped) is type(b0), "ANM6Easy-v0 is not an ANM6Easy environment")

    def rec(a, b, hist, model):
        for op in ([ops[first]] if len(hist) == 1 else ops if hist else ("seed",)):
            x, y = copy.deepcopy(a), copy.deepcopy(b)
            m = dict(model)
            h = hist + [op]
            ctx = dict(history=h)
            k = len(h)
            p, q = apply(x, op, acts, k), apply(y, op, acts, k)
            R.step(2)
            contract(R, y, q, op, m, ctx)
            same = len(p) == len(q) and all(canon(u, 12) == canon(v, 12) for u, v in zip(p, q))
            if not same:
                R.fail("the registered environment behaves differently from the directly constructed one", got=p, expected=q, **ctx)
            compare(R, x, y, ctx)
            R.state("registered", tuple(h), canon(q[0], 7))
            if len(h) <= depth - (1 if first in (0, 1) else 0):
                rec(x, y, h, m)
            else:
                R.trace()

    rec(registered_env(), b0, [], {"dead": False, "t": 0})
    R.outcome("registered")


def long(job, R):
    """A long episode: no truncation, no drift, spaces constant (several action patterns)."""
    _, k, n = job
    a, b = registered_env(), easy()
    acts = list(actions(None, b).values())
    model = {"dead": False, "t": 0}
    p, q = a.reset(seed=k), b.reset(seed=k)
    for t in range(n):
        act = acts[(t * (k + 1) + t // 7) % 4]
        p, q = a.step(act.copy()), b.step(act.copy())
        R.step(2)
        contract(R, b, q, "step", model, dict(step=t, pattern=k))
        R.state("long", k, t, canon(q[0], 7))
        if any(canon(u, 12) != canon(v, 12) for u, v in zip(p, q)):
            R.fail("the registered environment behaves differently from the directly constructed one", got=p, expected=q, step=t)
            break
    R.trace()


def refuses(R, f, what, ctx):
    try:
        f()
    except NotImplementedError:
        R.outcome("not implemented")
        R.step()
        return
    except Exception as e:
        if not from_repo(e.__traceback__):
            raise
        R.fail("%s: %s instead of NotImplementedError" % (what, type(e).__name__), error=str(e)[:200], **ctx)
        return
    R.fail("%s does not raise NotImplementedError" % what, **ctx)


def unsupported(job, R):
    from gym_anm import MPCAgentConstant
    from gym_anm.agents.mpc import MPCAgent
    from gym_anm.envs import ANM6, ANMEnv, ANM6Easy
    from gym_anm.envs.anm6_env.rendering.py import rendering

    _, name, tier = job
    net, rn = zoo.NETS[name], RNet(zoo.get(name))
    started = []
    rendering.start = lambda *a, **k: started.append(a) or (None, None)
    arr = lambda: zoo.arrays(zoo.get(name))  # noqa: E731
    n_next = len(rn.loads) + len(rn.gens) + 1

    # abstract functions, on the base class and on classes that implement only some of them
    class Init(ANMEnv):
        def init_state(self):
            return zoo.s0(rn, net["scen"][0], 0.5, [1.0])

    class Next(ANMEnv):
        def next_vars(self, s_t):
            return np.zeros(n_next)

    for cls in (ANMEnv, Init, Next):
        env = cls(arr(), "state", 1, net["dt"], 0.9, net["lamb"])
        ctx = dict(cls=cls.__name__, net=name)
        for round_ in range(2):
            refuses(R, lambda: env.render(), "render() of a custom environment", ctx)
            refuses(R, lambda: env.render(mode="human"), "render('human') of a custom environment", ctx)
            refuses(R, lambda: env.close(), "close() of a custom environment", ctx)
            if cls is not Init:
                refuses(R, lambda: env.init_state(), "the abstract init_state", ctx)
                refuses(R, lambda: env.reset(), "reset() without init_state", ctx)
                refuses(R, lambda: env.reset(seed=3), "reset(seed) without init_state", ctx)
            if cls is not Next:
                refuses(R, lambda: env.next_vars(None), "the abstract next_vars", ctx)
            if cls is Init:
                o, _ = env.reset(seed=round_)
                s = np.array(env.state, float)
                acts = actions(rn, env)
                for a in acts.values():
                    refuses(R, lambda: env.step(a), "step() without next_vars", ctx)
                    R.check(env.timestep == 0 and not env.terminated and np.array_equal(s, np.asarray(env.state, float)), "a step that is not implemented changes the episode", **ctx)
                    R.state(name, cls.__name__, round_, canon(s, 7))
    # rendering of a fully implemented custom environment at every position of an episode does not disturb it
    logs = []
    for disturb in (False, True):
        env = zoo.env(name)
        acts = list(actions(rn, env).values())
        log = []
        for pos in range(8):
            if disturb:
                for mode in ("human", "rgb_array", None):
                    refuses(R, lambda: env.render(mode=mode), "render() of a custom environment", dict(net=name))
                refuses(R, lambda: env.render(), "render() of a custom environment", dict(net=name))
                refuses(R, lambda: env.close(), "close() of a custom environment", dict(net=name))
            out = env.reset(seed=pos) if pos in (0, 5) else env.step(acts[pos % 4])
            R.step()
            log.append(canon(out, 12))
        logs.append(log)
    R.check(logs[0] == logs[1], "refused rendering changes the behaviour of the environment", net=name)
    R.trace(2)
    # agents without forecasts
    env = zoo.env(name)
    env.reset(seed=1)
    agent = MPCAgent(env.simulator, env.action_space, 0.9, 0.9, 2)
    ref = MPCAgentConstant(env.simulator, env.action_space, 0.9, 0.9, 2)
    for k in range(2):
        refuses(R, lambda: agent.forecast(env), "the abstract forecast", dict(net=name))
        refuses(R, lambda: agent.act(env), "act() without forecast", dict(net=name))
    R.check(env.action_space.contains(ref.act(env)), "an agent does not work", net=name)
    if name != "anm6":
        return
    # 6-bus environments: abstract functions and rendering modes
    env = ANM6("state", 1, 0.25, 0.9, 100)
    refuses(R, lambda: env.init_state(), "the abstract init_state of ANM6", {})
    refuses(R, lambda: env.reset(), "reset() of ANM6 without init_state", {})
    refuses(R, lambda: env.next_vars(None), "the abstract next_vars of ANM6", {})
    updates = []
    rendering.update = lambda *a, **k: updates.append(a)
    rendering.close = lambda *a, **k: None

    class Ws:
        address = "recorder"

    rendering.start = lambda *a, **k: started.append(a) or (Ws(), Ws())
    logs = []
    for disturb, active in itertools.product((False, True), (False, True)):
        env = ANM6Easy()
        log = []
        started.clear()
        updates.clear()
        acts = list(actions(None, env).values())
        for pos in range(8):
            if disturb and pos:
                for mode in ("rgb_array", "ansi", "HUMAN", "", None, "human "):
                    n = len(updates)
                    refuses(R, lambda: env.render(mode=mode), "render() with an unsupported mode", dict(mode=mode, active=active, position=pos))
                    refuses(R, lambda: env.render(mode, 2), "render() with an unsupported mode", dict(mode=mode, active=active, position=pos))
                    R.check(len(updates) == n, "an unsupported rendering mode updates the viewer", mode=mode)
            if active and pos:
                env.render()
            R.check(len(started) == (1 if active and pos else 0), "an unsupported rendering mode starts the viewer", active=active, started=len(started))
            out = env.reset(seed=pos) if pos in (0, 5) else env.step(acts[pos % 4])
            R.step()
            log.append(canon(out, 12))
            R.state("modes", disturb, active, pos)
        logs.append(log)
        R.check(len(updates) == (7 if active else 0), "refused rendering changes what is displayed", updates=len(updates), active=active)
        R.trace()
    R.check(all(x == logs[0] for x in logs), "refused rendering changes the behaviour of the environment")


def run_job(job, R):
    {"tree": tree, "registered": registered, "long": long, "unsupported": unsupported}[job[0]](job, R)
