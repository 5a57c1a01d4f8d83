"""C25: the displayed date and year count advance exactly with simulated time."""
import datetime as dtm
import itertools

import numpy as np

from .. import zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all sequences of length 4 over {step, extreme step, reset(seed), reset(date), reset()} for 5 time steps; walks over year boundaries for 26 time steps "
                   "(0.3 s to 366 days, including fractions of minutes and seconds) x initial dates around leap days and year ends; daily task likewise",
          "thorough": "sequences of length 5 for 12 time steps, longer walks"}
ASSUMPTIONS = ["a time step of h hours lasts h hours to the microsecond (tolerance 1 ms per step)"]
DTS = {"30 s": 1 / 120, "1 min": 1 / 60, "5 min": 1 / 12, "6 min": 0.1, "15 min": 0.25, "20 min": 1 / 3, "21 min": 0.35, "30 min": 0.5, "1 h": 1.0, "90 min": 1.5,
       "123 min": 123 / 60, "2.05 h": 2.05, "245 min": 245 / 60, "7.5 h": 7.5, "1 d": 24.0, "1.5 d": 36.0, "30 d": 720.0, "91.25 d": 2190.0, "182 d": 4368.0, "364 d": 8736.0,
       "365 d": 8760.0, "366 d": 8784.0, "100 s": 100 / 3600, "0.7 h": 0.7, "1/7 h": 1 / 7, "0.3 s": 0.3 / 3600}
DATES = [dtm.datetime(2019, 12, 31, 23, 45), dtm.datetime(2020, 2, 28, 12, 0), dtm.datetime(2020, 2, 29), dtm.datetime(2021, 1, 1, 0, 0, 1), dtm.datetime(1999, 7, 4, 3, 2, 1),
         dtm.datetime(2020, 1, 1)]
OPS = ("step", "extreme", "seed", "date", "plain")


def jobs(tier):
    out = []
    few = ("15 min", "123 min", "1 d", "365 d", "30 s") if tier == "quick" else ("15 min", "123 min", "1 d", "365 d", "30 s", "6 min", "1 h", "2.05 h", "182 d", "366 d", "0.7 h", "21 min")
    for d in few:
        for first in ("seed", "date", "plain"):
            out.append(("seq", d, first, tier))
    for first in ("seed", "date", "plain"):
        out.append(("seq", "easy", first, tier))
    out += [("walk", d, k, tier) for k, d in enumerate(DTS)]
    out += [("easy walk", s, 0, tier) for s in range(3)]
    out += [("seeds", 0, 0, tier), ("reset_date", 0, 0, tier)]
    return out


_cls = {}


def make(dname):
    from gym_anm.envs import ANM6, ANM6Easy

    if dname == "easy":
        return ANM6Easy()
    rn = RNet(zoo.get("anm6"))
    scen = {1: -1.0, 3: -4.0, 5: -2.0, 2: 10.0, 4: 20.0}

    class Task(ANM6):
        def __init__(self, h):
            super().__init__("state", 1, h, 0.9, 10)

        def init_state(self):
            return zoo.s0(rn, scen, 0.5, [0.0])

        def next_vars(self, s_t):
            return np.array([-1.0, -4.0, -2.0, 10.0, 20.0, s_t[-1] + 1])

    return Task(DTS[dname])


def hours(dname):
    return 0.25 if dname == "easy" else DTS[dname]


class Model:
    """Reference clock."""

    def __init__(self, h):
        self.h, self.n, self.init = h, 0, None

    def date(self):
        return self.init + dtm.timedelta(hours=self.h) * self.n

    def exact(self):
        """Exact simulated time in seconds since the initial date."""
        return self.h * 3600.0 * self.n

    def years(self):
        return self.exact() / 86400 / 365


def compare(R, env, m, info):
    el = (env.date - m.init).total_seconds()
    if abs(el - m.exact()) > 1e-3 * (m.n + 1):
        R.fail("the displayed date is not the initial date plus the simulated time", elapsed=el, expected=m.exact(), date=str(env.date), initial=str(m.init), steps=m.n, **info)
    y = m.years()
    if abs(y - round(y)) > 1e-6 or m.n == 0 or abs(el - m.exact()) < 1e-9:
        if env.year_count != int(y + 1e-12):
            R.fail("the year count is wrong", got=env.year_count, expected=int(y + 1e-12), steps=m.n, initial=str(m.init), date=str(env.date), **info)


def start(R, env, easy, m, op, arg, info):
    """Performs a reset and initializes the model with the documented initial date."""
    if op == "date":
        opts = {"date_init": arg}
        obs, _ = env.reset(seed=5, options=opts)
        R.check(opts == {"date_init": arg}, "reset() modified the options", **info)
        base = arg
    else:
        obs, _ = env.reset(seed=arg) if op == "seed" else env.reset()
        base = None
    t = int(obs[-1]) if easy else 0
    d = env.date
    if base is not None:
        want = base + dtm.timedelta(minutes=15 * t)
        R.check(d == want, "the initial date is not the requested one", got=str(d), expected=str(want), t=t, **info)
    else:
        mid = d - dtm.timedelta(minutes=15 * t)
        R.check(mid.year == 2020 and mid == dtm.datetime(mid.year, mid.month, mid.day), "the initial date is not midnight of a day of 2020 (plus the time of day of the task)",
                got=str(d), t=t, **info)
    m.init, m.n = d, 0
    R.check(env.year_count == 0, "the year count does not restart at a reset", got=env.year_count, **info)
    return obs


def run_job(job, R):
    kind, dname, first, tier = job
    if kind == "seq":
        depth = 4 if tier == "quick" else 5
        env = make(dname)
        easy = dname == "easy"
        acts = {"step": np.zeros(6), "extreme": np.asarray(env.action_space.low, float)}
        for seq in itertools.product(OPS, repeat=depth - 1):
            if tier == "quick" and sum(o in acts for o in seq) == 0:
                continue
            m = Model(hours(dname))
            info = {"delta_t": dname, "sequence": (first,) + seq}
            for k, op in enumerate((first,) + seq):
                if op in acts:
                    obs, *_ = env.step(acts[op])
                    m.n += 1
                else:
                    start(R, env, easy, m, op, {"seed": 11 + k, "date": DATES[k % len(DATES)], "plain": None}[op], info)
                R.step()
                compare(R, env, m, info)
                R.state(dname, first, seq[:k], str(env.date), env.year_count)
            R.trace()
        R.sample("%s: %s -> %s, year %d" % (dname, (first,) + seq, env.date, env.year_count))
    elif kind == "walk":
        for d0 in (DATES[first % len(DATES)], None):
            env = make(dname)
            m = Model(hours(dname))
            info = {"delta_t": dname, "walk": str(d0)}
            start(R, env, False, m, "date" if d0 else "seed", d0 or 3, info)
            per_year = 8760 / hours(dname)
            n = int(min(max(2.5 * per_year, 40), 120 if tier == "quick" else 1500))
            for k in range(n):
                env.step(np.zeros(6))
                m.n += 1
                R.step()
                compare(R, env, m, info)
                R.state(dname, str(d0), k)
            R.trace()
        R.sample("%s: %d steps from %s -> %s, year %d" % (dname, n, m.init, env.date, env.year_count))
    elif kind == "easy walk":
        env = make("easy")
        m = Model(0.25)
        obs = start(R, env, True, m, "seed", dname, {})
        for k in range(110):
            obs, _, term, _, _ = env.step(np.zeros(6))
            m.n += 1
            R.step()
            compare(R, env, m, {"seed": dname})
            t = env.date.hour * 4 + env.date.minute / 15
            R.check(term or t == obs[-1], "the time of day of the date differs from that of the task", got=str(env.date), t=obs[-1])
            R.state("easy", dname, k)
        R.trace()
    elif kind == "seeds":
        seen = {}
        for s in range(80 if tier == "quick" else 400):
            ds = []
            for name in ("15 min", "easy"):
                a, b = make(name), make(name)
                a.reset(seed=s)
                b.reset(seed=99)
                b.step(np.zeros(6))
                b.reset(seed=s)
                R.step(2)
                R.check(a.date == b.date and a.date_init == b.date_init, "the random initial date is not reproducible from the seed", seed=s, got=(str(a.date), str(b.date)))
                a.reset()
                b.reset()
                R.check(a.date == b.date, "the random initial date of the next reset is not reproducible", seed=s, got=(str(a.date), str(b.date)))
                ds.append(str(a.date))
                seen.setdefault(name, set()).add(a.date.date())
            R.state("seed", s, tuple(ds))
        R.check(all(len(v) > 20 for v in seen.values()), "the initial date is not random", distinct={k: len(v) for k, v in seen.items()})
        R.trace()
    else:  # a date set by hand restarts the date and the year count
        for h in ("1 d", "365 d", "15 min"):
            for d0 in DATES:
                env = make(h)
                env.reset(seed=1)
                for n1, n2 in ((0, 2), (3, 0), (3, 2)):
                    for _ in range(n1):
                        env.step(np.zeros(6))
                    env.reset_date(d0)
                    m = Model(hours(h))
                    m.init = d0
                    compare(R, env, m, {"after": "reset_date", "delta_t": h})
                    for _ in range(n2):
                        env.step(np.zeros(6))
                        m.n += 1
                        R.step()
                        compare(R, env, m, {"after": "reset_date", "delta_t": h})
                    R.state("reset_date", h, str(d0), n1, n2)
        R.trace()
