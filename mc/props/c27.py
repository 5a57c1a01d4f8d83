"""C27: reset keeps trying initial states and fails cleanly when none is feasible."""
import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
POS_QUICK = (1, 2, 3, 4, 6, 13, 50, 98, 99, 100, 101, 150, None)
BOUNDS = {"quick": "first feasible candidate at positions %s (None: never) x 5 kinds of rejected candidates x 3 observation kinds x 4 preceding histories (thinned "
                   "beyond position 6), each followed by a continuation compared with a twin that draws the accepted state at once; all sequences of 3 successive "
                   "resets with first feasible candidates at 1, 2 or 4; sequences of resets that fail or need 60 or 100 candidates; the daily task's base class" % (POS_QUICK,),
          "thorough": "all positions 1 to 101; sequences of 4 resets with positions 1-4"}
ASSUMPTIONS = ["whether a candidate has a power-flow solution is clear-cut here (far from the nose of the curve)"]
RAW = zoo.NETS["weak"]["raw"]
RN = RNet(RAW)
OBS = {"state": lambda: "state", "list": lambda: [("bus_v_magn", "all"), ("des_soc", "all", "MWh"), ("gen_p_max", "all"), ("aux", "all"), ("dev_p", [3, 1], "pu")],
       "call": lambda: (lambda s: np.concatenate([s[:4] * 2.0, s[-2:]]))}
HIST = ("fresh", "steps", "collapse", "reset")
# [P0 P1 P2 P3 Q0 Q1 Q2 Q3 SoC Pmax aux0 aux1] in MW, MVAr, MWh: infeasible candidates, with traces that must not survive
BAD = {"charge": [0, -1, 3, -30, 0, 0.1, 2, -10, 49, 17, 901, 902], "load": [0, -30, 0, 0, 0, 0, 0, 0, 1, 2, -901, 55],
       "both": [5, -30, 7, -30, 3, 1, -4, -10, 0, 9, 77, 78], "full": [0, -28, 20, -25, 0, 0, -15, 0, 50, 20, 1, 1],
       "mix": None}
GOOD = [[0, -2, 5, 1, 0, -0.4, 1, 0.5, 20, 8, 3, 4], [0, -1, 0, -2, 0, 0, 0, 0, 35, 1, 5, 6], [0, 0, 6, 2, 0, 0, 1, 1, 7, 15, 7, 8]]


def jobs(tier):
    out = []
    pos = POS_QUICK if tier == "quick" else tuple(range(1, 102)) + (150, None)
    for p in pos:
        big = p is None or p > 6
        for b in BAD:
            if big and b not in ("mix",) and not (p in (99, 100) and b == "charge"):
                continue
            hists = HIST if not big else (HIST[0], HIST[2]) if p in (99, 100, None) else HIST[:1]
            for h in hists:
                out.append(("position", p, b, h, tier))
    out += [("patterns", k, tier) for k in range(8)]
    out += [("long", k, tier) for k in range(len(LONG))]
    out += [("anm6", p, tier) for p in (1, 2, 5, 100, None)]
    return sorted(out, key=lambda j: -(1000 if j[1] is None else j[1]))


# Long sequences: neither failures nor many rejected candidates may count in a later reset.
LONG = [(None, 60, 2), (60, 60, 3), (100, 100), (None, None, 5)]


def bad(kind, k):
    names = [n for n in BAD if n != "mix"]
    return np.array(BAD[names[k % len(names)] if kind == "mix" else kind], float)


def make(obs, plan):
    """plan(k) -> initial state of the k-th draw (counted from 1 since the last time plan was armed)."""
    from gym_anm.envs import ANMEnv

    class E(ANMEnv):
        draws = 0
        total = 0

        def init_state(self):
            self.draws += 1
            self.total += 1
            self.np_random.integers(0, 1000)
            s = self.plan(self.draws)
            if len(s) != 12:
                raise ValueError("harness")
            return s

        def next_vars(self, s_t):
            x = self.np_random.uniform(-1, 0, 2)
            return np.array([-2.0 + x[0], 9.0 + x[1], s_t[-2] + 1, s_t[-1] + 2])

    env = E(zoo.arrays(RAW), OBS[obs](), 2, 0.5, 0.9, 100, None, (100, 1000))
    env.plan = plan
    return env


ACT = [np.array([6.0, 1.0, 3.0, 1.0]), np.array([2.0, -3.0, -4.0, 0.0]), np.array([9.0, 0.0, 2.0, 0.0])]
KILL = np.array([0.0, -15.0, -30.0, -10.0])


def full(env):
    return (canon(np.asarray(env.state, float), 12), env.timestep, bool(env.terminated), canon(env.e_loss, 12), canon(env.penalty, 12),
            canon({q: {u: list(v.values()) for u, v in d.items()} for q, d in env.simulator.state.items()}, 12))


def continuation(env, n=3):
    out = []
    for a in ACT[:n]:
        o, r, t, tr, i = env.step(a)
        out.append((canon(o, 12), canon(r, 12), bool(t), bool(tr), full(env)))
    return out


def precede(env, hist):
    env.plan = lambda k: np.array(GOOD[2], float)
    if hist == "fresh":
        return
    env.reset(seed=4)
    if hist == "reset":
        return
    for a in ACT:
        env.step(a)
    if hist == "collapse":
        for _ in range(3):
            _, _, t, _, _ = env.step(KILL)
        if not t:
            raise AssertionError("harness: the network did not collapse")
    env.draws = 0


def attempt(env, plan, seed, options=None):
    """Arms the plan and resets; returns the observation or the exception."""
    env.plan, env.draws = plan, 0
    try:
        return env.reset(seed=seed, options=options)
    except Exception as e:
        from ..core import from_repo

        if not from_repo(e.__traceback__):
            raise
        return e


def twin(obs, state, draws, seed):
    """An environment that never saw a rejected candidate (but drew as many random numbers)."""
    env = make(obs, None)

    def plan(k):
        for _ in range(draws - 1):
            env.np_random.integers(0, 1000)
        return np.array(state, float)

    o, i = attempt(env, plan, seed)
    return env, o


def verify(R, env, out, p, good, obs, seed, ctx):
    """The reset that met its first feasible candidate at draw p (None: never within 100) had the outcome `out`."""
    from gym_anm.errors import EnvInitializationError

    if p is None or p > 100:
        ok = isinstance(out, EnvInitializationError)
        R.check(ok, "a reset whose hundred first candidates are infeasible does not raise EnvInitializationError", got=repr(out)[:200], **ctx)
        R.check(env.draws == 100, "a failing reset does not draw one hundred initial states", draws=env.draws, **ctx)
        R.outcome("failed as documented")
        return False
    if isinstance(out, Exception):
        R.fail("reset fails although a candidate among the first hundred is feasible", got=repr(out)[:300], **ctx)
        return False
    R.check(env.draws == p, "the number of initial states drawn is not the position of the first feasible one", draws=env.draws, **ctx)
    tw, o2 = twin(obs, good, p, seed)
    o, info = out
    R.check(isinstance(info, dict), "no info dict", **ctx)
    if canon(o, 12) != canon(o2, 12):
        R.fail("the observation after rejected initial states differs from that of the accepted state alone", got=o, expected=o2, **ctx)
    a, b = full(env), full(tw)
    if a != b:
        R.fail("the state after rejected initial states differs from that of the accepted state alone", got=a[:5], expected=b[:5], **ctx)
    want = np.array(good, float)
    got = np.asarray(env.state, float)
    R.close(got[8:], want[8:], 1e-9, "the episode does not start in the accepted initial state (charge, generation, auxiliaries)", **ctx)
    R.close(got[[1, 2, 3]], want[[1, 2, 3]], 2e-3, "the episode does not start in the accepted initial state (injections)", **ctx)
    R.check(not env.terminated and env.timestep == 0, "a successful reset does not start a fresh episode", **ctx)
    x, y = continuation(env), continuation(tw)
    R.step(2 * len(x))
    for k, (u, v) in enumerate(zip(x, y)):
        R.state(ctx["obs"], ctx["position"], u)
        if u != v:
            R.fail("rejected initial states influence the episode", step=k, got=u[:3], expected=v[:3], **ctx)
            break
    R.outcome("started in the first feasible state")
    return True


def run_job(job, R):
    if job[0] == "position":
        return position(job, R)
    if job[0] == "patterns":
        return patterns(job, R)
    if job[0] == "long":
        return sequence(LONG[job[1]], job[1], R)
    return anm6(job, R)


def position(job, R):
    _, p, kind, hist, tier = job
    for n, obs in enumerate(OBS):
        if p is not None and p > 6 and tier == "quick" and n != (p + len(hist)) % 3:
            continue
        if p is None and tier == "quick" and n == 1:
            continue
        ctx = dict(position=p, rejected=kind, history=hist, obs=obs)
        env = make(obs, None)
        precede(env, hist)
        good = GOOD[(p or 0) % 2]
        plan = lambda k: np.array(good, float) if k == p else (np.array(GOOD[2], float) if p is not None and k > p else bad(kind, k))  # noqa: E731
        out = attempt(env, plan, 7)
        R.step(env.draws)
        ok = verify(R, env, out, p, good, obs, 7, ctx)
        R.state(obs, p, kind, hist, ok)
        if not ok:  # recovery
            for q, seed in ((2, 9), (1, 10), (3, 11)):
                c2 = dict(ctx, recovery=q)
                good = GOOD[q % 2]
                out = attempt(env, lambda k: np.array(good, float) if k >= q else bad(kind, k), seed)
                verify(R, env, out, q, good, obs, seed, c2)
        R.trace()
    R.sample({"position": p, "rejected": kind, "history": hist})


def patterns(job, R):
    """Successive resets of one environment, each with its own pattern of infeasible candidates (positions 1-4)."""
    import itertools

    combos = list(itertools.product((1, 2, 4) if job[2] == "quick" else (1, 2, 3, 4), repeat=3 if job[2] == "quick" else 4))
    for n, combo in enumerate(combos):
        if n % 8 != job[1]:
            continue
        sequence(combo, n, R)


def sequence(combo, n, R):
    obs = list(OBS)[n % 3]
    env = make(obs, None)
    for k, p in enumerate(combo):
        good = GOOD[(k + (p or 0)) % 3]
        ctx = dict(position=p, obs=obs, sequence=combo[:k + 1])
        out = attempt(env, lambda d: np.array(good, float) if p is not None and d >= p else bad("mix", d + k), 3 + k)
        R.step(env.draws)
        ok = verify(R, env, out, p, good, obs, 3 + k, ctx)
        if k % 2 and ok:
            env.step(KILL)
    R.trace()
    R.state("patterns", combo)


def anm6(job, R):
    """The 6-bus base class (on lines too long for extreme injections): rejected candidates change neither the date nor anything else."""
    import datetime as dtm

    from gym_anm.envs.anm6_env.anm6 import ANM6
    from gym_anm.envs.anm6_env.network import network
    from gym_anm.errors import EnvInitializationError

    p = job[1]

    class E(ANM6):
        draws = 0
        pos = None

        def __init__(self):
            super().__init__("state", 1, 0.25, 0.995, 100, np.array([[0, 95]]), (1, 100))

        def init_state(self):
            self.draws += 1
            s = np.zeros(18)
            s[[1, 3, 5]] = (-1, -4, -2) if self.pos is not None and self.draws >= self.pos else (-10, -30, -30)
            s[[2, 4]] = (1, 2) if self.pos is not None and self.draws >= self.pos else (0, 0)
            s[6] = 0 if self.pos is not None and self.draws >= self.pos else -50
            s[14] = 10 + self.draws
            s[15:17] = (20, 30)
            s[17] = self.draws % 96
            return s

        def next_vars(self, s_t):
            return np.array([-1, -4, -2, 10, 10, 5.0])

    old = network["branch"].copy()
    network["branch"][:, 2:4] *= 12
    try:
        env = E()
        twin = E()
    finally:
        network["branch"][:] = old
    env.pos = p
    date = dtm.datetime(2021, 5, 6)
    try:
        obs, _ = env.reset(seed=5, options={"date_init": date})
    except EnvInitializationError:
        R.check(p is None, "reset of the 6-bus task fails although a candidate is feasible", position=p)
        R.check(env.draws == 100, "a failing reset does not draw one hundred initial states", draws=env.draws)
        R.step(env.draws)
        env.pos, env.draws, p = 1, 0, 1
        obs, _ = env.reset(seed=5, options={"date_init": date})
    R.check(env.draws == p, "the number of initial states drawn is not the position of the first feasible one", draws=env.draws, position=p)
    R.step(env.draws)
    R.check(env.date == date and env.year_count == 0, "rejected initial states change the date", date=str(env.date))
    R.close(np.asarray(obs, float), np.asarray(env.state, float), 1e-9, "the observation is not the state")
    twin.draws = p - 1
    twin.pos = p
    o2, _ = twin.reset(seed=5, options={"date_init": date})
    R.check(canon(obs, 12) == canon(o2, 12) and full(env) == full(twin), "rejected initial states leave traces in the 6-bus task", got=obs, expected=o2)
    for a in (np.zeros(6), np.array([5, 5, 1, 1, 2, 1.0])):
        x, y = env.step(a), twin.step(a)
        R.step(2)
        R.check(canon(x[:2], 12) == canon(y[:2], 12) and full(env) == full(twin), "rejected initial states influence the 6-bus task", got=x[0], expected=y[0])
    R.check(env.date == date + dtm.timedelta(minutes=30), "rejected initial states change the date", date=str(env.date))
    R.state("anm6", p, canon(obs, 9))
    R.trace()
    R.outcome("6-bus base class")
