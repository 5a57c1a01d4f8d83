"""C29: rendering shows the current state at the requested cadence, with no side effect."""
import copy
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np

from .. import core, scratch, zoo
from ..core import canon
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "all sequences of up to 5 operations from {render, two steps, reset, failed reset, close} after a reset, for each number of skipped frames 0-3, in lock-step "
                   "with an environment that is never rendered; 26 renderings with 0-7 skipped frames; refused connections and unready pages up to 3 times; collapses; 8 "
                   "cost-clipping configurations; every message decoded and compared with the state of the twin; 64 histories with the real servers, the real page and browser-like "
                   "viewers that open, join and leave",
          "thorough": "sequences of up to 6 operations, skipped frames 0-5"}
ASSUMPTIONS = ["processes, sockets, HTTP requests and the browser are replaced by recorders, except in the histories with real servers (only the browser is)", "non-finite quantities of a collapsed network may be displayed as any number",
               "the number of skipped frames is constant between two starts of the viewer"]
OPS = ("render", "up", "down", "reset", "failreset", "close")
FLOATS = ("pInjections", "qInjections", "sFlows", "socStorage", "pPotential", "vMagn", "reward")


def jobs(tier):
    scratch.prepare()
    out = []
    for skip in range(4 if tier == "quick" else 6):
        for first in range(6):
            out.append(("tree", skip, first, 5 if tier == "quick" else 6))
    out += [("cadence", k, tier) for k in range(8)]
    out += [("faults", 0, tier), ("collapse", 0, tier), ("collapse", 1, tier), ("costs", 0, tier), ("easy", 0, tier), ("easy", 1, tier), ("several", 0, tier)]
    return [("live", 0, tier)] + out


def make_class():
    from gym_anm.envs import ANM6

    class Grid6(ANM6):
        fail = False

        def __init__(self, clip=(1, 100), delta_t=0.25):
            super().__init__([("bus_v_magn", "all"), ("dev_p", "all")], 1, delta_t, 0.995, 1000, None, clip)

        def init_state(self):
            s = np.zeros(18)
            s[[1, 3, 5]] = (-1, -4, -2)
            s[[2, 4]] = (10, 20)
            s[[9, 11]] = (3, -4)
            s[14] = float(self.np_random.uniform(10, 90))
            s[15:17] = (20, 30)
            return s[:-1] if self.fail else s

        def next_vars(self, s_t):
            k = int(round(s_t[-1]))
            x = self.np_random.uniform(0, 1)
            return np.array([-1 - (k % 5) - x, -4 - 3 * (k % 7), -(k % 3) * 9, 5 + (k * 7) % 25, 2 + (k * 11) % 45, k + 1], float)

    return Grid6


UP = np.array([22.0, 35.0, 7.0, -11.0, -17.0, 9.0])
DOWN = np.array([4.0, 11.0, -6.0, 10.0, 31.0, -13.0])


def strict(msg):
    def bad(x):
        raise ValueError("invalid JSON constant " + x)

    return json.loads(msg, parse_constant=bad)


def expected_update(env, rn):
    """What an update must contain, from an environment that is never rendered."""
    st = env.simulator.state
    ids = sorted(d.id for d in rn.devs)
    br = [b.key for b in rn.branches] if hasattr(rn.branches[0], "key") else list(st["branch_s"]["MVA"].keys())
    return {"messageLabel": "update", "time": [env.date.month, env.date.day, env.date.hour, env.date.minute], "yearCount": env.year_count,
            "pInjections": [float(st["dev_p"]["MW"][i]) for i in ids], "qInjections": [float(st["dev_q"]["MVAr"][i]) for i in ids],
            "sFlows": [float(st["branch_s"]["MVA"][b]) for b in br], "socStorage": [float(st["des_soc"]["MWh"][d.id]) for d in rn.des],
            "pPotential": [float(st["gen_p_max"]["MW"][d.id]) for d in rn.gens], "vMagn": [float(st["bus_v_magn"]["pu"][b.id]) for b in rn.buses],
            "reward": [float(env.e_loss), float(env.penalty)] if env.timestep else [0.0, 0.0], "networkCollapsed": bool(not env.simulator.pfe_converged)}


def expected_init(env, rn, clip):
    raw = zoo.get("anm6")
    c1 = 100 if clip is None or clip[0] is None else clip[0]
    c2 = 10000 if clip is None or clip[1] is None else clip[1]
    b = rn.base
    return {"messageLabel": "init", "deviceType": [d.type for d in rn.devs], "pMax": [max(abs(d.pmin), abs(d.pmax)) * b for d in rn.devs],
            "qMax": [max(abs(d.qmin), abs(d.qmax)) * b for d in rn.devs], "sRate": [float(r[5]) for r in raw["branch"]],
            "vMagnMin": [float(r[4]) for r in raw["bus"]], "vMagnMax": [float(r[3]) for r in raw["bus"]], "socMax": [d.socmax * b for d in rn.des],
            "energyLossMax": c1, "penaltyMax": c2, "title": type(env).__name__}


def compare(R, got, want, what, ctx):
    if sorted(got) != sorted(want):
        R.fail(what + ": wrong fields", got=sorted(got), expected=sorted(want), **ctx)
        return
    for k, w in want.items():
        g = got[k]
        if isinstance(w, str) or isinstance(w, bool):
            ok = g == w and type(g) is type(w)
        elif isinstance(w, list):
            ok = isinstance(g, list) and len(g) == len(w) and all(not np.isfinite(y) or (isinstance(x, (int, float)) and abs(x - y) <= 1e-9 * max(1, abs(y))) for x, y in zip(g, w))
        else:
            ok = isinstance(g, (int, float)) and (not np.isfinite(w) or abs(g - w) <= 1e-9 * max(1, abs(w)))
        if not ok:
            R.fail("%s: wrong %s" % (what, k), got=g, expected=w, **ctx)


class Model:
    """Reference automaton of the viewer."""

    def __init__(self):
        self.on, self.count, self.starts, self.live = False, 0, 0, 0


def obs_out(out):
    return canon(out, 12)


def act(env, op, k, render=True, skip=0):
    if op == "render":
        if render:
            return ("render", env.render("human", skip) if k % 2 else env.render(skip_frames=skip))
        return ("render", None)
    if op == "close":
        return ("close", env.close() if render else None)
    if op == "reset":
        return obs_out(env.reset(seed=k))
    if op == "failreset":
        env.fail = True
        try:
            env.reset()
            return ("accepted",)
        except Exception as e:
            return (type(e).__name__,)
        finally:
            env.fail = False
    return obs_out(env.step(UP if op == "up" else DOWN))


def watch(R, W, env, twin, rn, m, op, skip, clip, mark, ctx):
    """Compares what the operation did to the outside world with the reference automaton; mark: lengths before."""
    conns = W.connections[mark["conns"]:]
    sent = [(c, s) for c in conns for s in c.sent]
    for c in W.connections[:mark["conns"]]:
        R.check(len(c.sent) == mark["sent"][id(c)], "a message is sent over an old connection", **ctx)
    procs = W.processes[mark["procs"]:]
    if op == "render":
        want = []
        if not m.on:
            m.on, m.count = True, 0
            m.starts += 1
            m.current = procs
            want = ["init", "update"]
            R.check(len(procs) == 2 and all(p.started and not p.terminated for p in procs), "starting the viewer does not start its two servers", started=len(procs), **ctx)
            R.check(len(W.opened) == mark["opened"] + 1, "starting the viewer does not open exactly one window", opened=W.opened[mark["opened"]:], **ctx)
        else:
            m.count += 1
            if m.count % (skip + 1) == 0:
                want = ["update"]
            R.check(not procs, "rendering starts the servers again", **ctx)
            R.check(len(W.opened) == mark["opened"], "rendering opens another window", **ctx)
        try:
            msgs = [strict(s) for _, s in sent]
        except ValueError as e:
            R.fail("the viewer is sent invalid JSON", error=str(e), message=[s for _, s in sent][-1][:600], **ctx)
            return
        labels = [x.get("messageLabel") for x in msgs]
        if labels != want:
            R.fail("rendering does not send the expected messages", got=labels, expected=want, **ctx)
            return
        R.check(all(c.closed for c in conns), "a connection is left open", **ctx)
        R.check(len({c.address for c in conns}) <= 1, "messages are sent to different servers", **ctx)
        for x in msgs:
            if x["messageLabel"] == "init":
                m.address = conns[0].address
                compare(R, x, expected_init(env, rn, clip), "the initialization message", ctx)
            else:
                compare(R, x, expected_update(twin, rn), "the update message", ctx)
                R.outcome("update")
                if x["networkCollapsed"]:
                    R.outcome("update of a collapsed network")
        R.check(not conns or conns[0].address == m.address, "messages are sent to another server than the one started", **ctx)
        if not want:
            R.outcome("frame skipped")
    else:
        R.check(not sent, "an operation other than render() sends messages", op=op, **ctx)
        R.check(not procs, "an operation other than render() starts servers", op=op, **ctx)
        if op == "close" and m.on:
            m.on = False
            R.check(all(p.terminated for p in m.current), "closing does not stop the servers", **ctx)
            R.outcome("closed")
        elif m.on:
            R.check(not any(p.terminated for p in m.current), "an operation other than close() stops the servers", op=op, **ctx)
    R.check(len(W.processes) == 2 * m.starts, "the number of servers started is not two per start of the viewer", got=len(W.processes), **ctx)


def mark(W):
    return {"conns": len(W.connections), "procs": len(W.processes), "opened": len(W.opened), "sent": {id(c): len(c.sent) for c in W.connections}}


def play(R, W, env, twin, rn, ops, skip, clip, ctx):
    """Runs a whole sequence on env (rendered) and twin (never rendered)."""
    W.reset()
    m = Model()
    for k, op in enumerate(ops):
        mk = mark(W)
        c = dict(ctx, history=list(ops[:k + 1]), skip_frames=skip)
        a, b = act(env, op, k, True, skip), act(twin, op, k, False)
        R.step(2)
        if a != b:
            R.fail("rendering changes the behaviour of the environment", got=a, expected=b, **c)
        watch(R, W, env, twin, rn, m, op, skip, clip, mk, c)
        same = (env.date == twin.date and env.year_count == twin.year_count and np.array_equal(np.asarray(env.state, float), np.asarray(twin.state, float))
                and repr(env.np_random.bit_generator.state) == repr(twin.np_random.bit_generator.state))
        if not same:
            R.fail("rendering changes the state of the environment", date=str(env.date), expected=str(twin.date), **c)
        R.state(str(ctx), skip, tuple(ops[:k + 1]), canon(np.asarray(env.state, float), 6), m.on)
    R.trace()


def tree(job, R):
    _, skip, first, depth = job
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    for n in range(1, depth):
        for rest in itertools.product(OPS, repeat=n):
            ops = (OPS[first],) + rest
            if "render" not in ops:
                continue
            if n < depth - 1 and ops[-1] != "render":
                continue
            if len(ops) == depth:
                # longer histories: at least two renderings, otherwise subsumed by shorter ones
                if ops.count("render") < 2 or ops[-1] != "render":
                    continue
                if ops.count("up") + ops.count("down") > 2:
                    continue
            play(R, W, cls(), cls(), rn, ("reset",) + ops, skip, (1, 100), {"kind": "tree"})
    R.sample({"skip_frames": skip, "first": OPS[first], "depth": depth})


def cadence(job, R):
    _, skip, tier = job
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    ops = ["reset"]
    for k in range(26 if tier == "quick" else 80):
        ops += ["render"] + (["up", "down"][k % 2:][:1])
        if k in (9, 17):
            ops += ["reset"]
        if k == 13:
            ops += ["failreset", "reset"]
    play(R, W, cls(), cls(), rn, ops, skip, (1, 100), {"kind": "cadence"})
    # several starts
    ops = (["reset"] + ["render", "up"] * 5 + ["close"]) * 3
    play(R, W, cls(), cls(), rn, ops, skip, (1, 100), {"kind": "restarts"})
    ops = ["reset", "close"] + ["render", "down"] * 3 + ["close", "close", "up"] + ["render", "up"] * 4 + ["close", "reset"] + ["render"] * 3
    play(R, W, cls(), cls(), rn, ops, skip, (1, 100), {"kind": "closes"})


def faults(job, R):
    """The servers need some time: connections are refused and pages unavailable at first."""
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    for refuse, unready, skip in itertools.product(range(4), range(4), (0, 2)):
        env, twin = cls(), cls()
        W.reset()
        m = Model()
        for k, op in enumerate(("reset", "render", "up", "render", "render", "close", "render")):
            if op == "render" and not m.on:
                W.refuse, W.unready = refuse, unready
            mk = mark(W)
            c = dict(refused=refuse, unready=unready, position=k)
            a, b = act(env, op, k, True, skip), act(twin, op, k, False)
            R.step(2)
            R.check(a == b, "rendering changes the behaviour of the environment", got=a, expected=b, **c)
            watch(R, W, env, twin, rn, m, op, skip, (1, 100), mk, c)
            R.check(not W.refuse and not W.unready, "the viewer is started before its servers answer", **c)
            R.state("faults", refuse, unready, skip, k)
        R.trace()
    R.outcome("slow servers")


def weak_env(cls, *a, **k):
    """An environment on the 6-bus network with lines so long that it collapses."""
    from gym_anm.envs.anm6_env.network import network

    old = network["branch"].copy()
    network["branch"][:, 2:4] *= k.pop("factor")
    try:
        return cls(*a, **k)
    finally:
        network["branch"][:] = old


def collapse(job, R):
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    for factor, clip, skip in itertools.product((3.0, 5.0, 7.0), ((1, 100), (None, None), None, (None, 5)), (0, 1)):
        if (clip is None or clip[0] is None) != bool(job[1]):
            continue
        mk = lambda: weak_env(cls, **({"clip": clip} if clip is not None else {"clip": (None, None)}), factor=factor)  # noqa: E731
        env, twin = mk(), mk()
        ops = ["reset", "render", "up", "render", "down", "render", "down", "render", "up", "render", "reset", "render", "up", "render"]
        try:
            play(R, W, env, twin, rn, ops, skip, clip, {"factor": factor, "clip": clip})
        except Exception as e:
            if type(e).__name__ == "EnvInitializationError":
                R.outcome("no initial state")
                continue
            raise
    R.check(R.outcomes.get("update of a collapsed network", 0) > 0, "no collapse occurred (harness)")


def costs(job, R):
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    for clip in ((1, 100), (None, None), (2.5, None), (None, 7), (0.001, 0.002), (50, 1e6), (3, 30.5), (10, 1)):
        play(R, W, cls(clip), cls(clip), rn, ["reset", "render", "up", "render", "down", "render", "up", "up", "render"], 0, clip, {"clip": clip})
    for dt in (1.0, 12.0, 2190.0, 1 / 3):
        play(R, W, cls(delta_t=dt), cls(delta_t=dt), rn, ["reset", "render"] + ["up", "render", "down", "render"] * 4, 0, (1, 100), {"delta_t": dt})
    R.outcome("configurations")


def easy(job, R):
    from itertools import cycle

    W = scratch.load()
    from gym_anm.envs import ANM6Easy

    rn = RNet(zoo.get("anm6"))
    env, twin = ANM6Easy(), ANM6Easy()
    env.fail = twin.fail = False
    ops = ["reset"]
    for k, op in zip(range(40), cycle(["render", "up", "render", "down", "down"])):
        ops.append(op)
    ops += ["reset", "render", "up", "render"]
    play(R, W, env, twin, rn, ops, job[1] * 3, (1, 100), {"kind": "easy"})


def several(job, R):
    """Two rendered environments do not disturb each other."""
    W = scratch.load()
    rn = RNet(zoo.get("anm6"))
    cls = make_class()
    for order in itertools.product((0, 1), repeat=6):
        envs, twins = [cls(), cls((2, 20))], [cls(), cls((2, 20))]
        clips = [(1, 100), (2, 20)]
        W.reset()
        ms = [Model(), Model()]
        total = 0
        for i in (0, 1):
            envs[i].reset(seed=i)
            twins[i].reset(seed=i)
        for k, i in enumerate(order):
            for op in ("render", "up"):
                mk = mark(W)
                a, b = act(envs[i], op, k, True, i), act(twins[i], op, k, False)
                R.step(2)
                R.check(a == b, "rendering changes the behaviour of the environment", got=a, expected=b, order=order)
                was = ms[i].starts
                other = ms[1 - i].starts
                ms[i].starts += other  # servers of the other environment
                watch(R, W, envs[i], twins[i], rn, ms[i], op, i, clips[i], mk, dict(order=order, env=i))
                ms[i].starts -= other
                total += ms[i].starts - was
                R.state("several", order[:k + 1], op)
        R.trace()
    R.outcome("two environments")


def live(job, R):
    """The real servers: a browser-like viewer loads the page and must show what the environment rendered; all histories of few operations."""
    depth = 2 if job[2] == "quick" else 3
    todo = ["r" + "".join(x) for n in range(depth + 1) for x in itertools.product("uRvqc", repeat=n)]
    # the page file is shared: with two rendered environments, viewers open the page before the second one starts
    todo += [first + "".join(x) for first in ("r2r", "rv2r") for x in itertools.product(("u", "2u", "c", "2d"), repeat=2)]
    todo += ["ruduvdRuqdcudv"]
    total = len(todo)
    scratch.prepare()
    d = tempfile.mkdtemp(prefix="live", dir=scratch.ROOT)
    try:
        shutil.copytree(os.path.join(core.REPO, "gym_anm"), os.path.join(d, "gym_anm"), ignore=shutil.ignore_patterns("__pycache__"))
        driver = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "live.py")
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
        os.mkdir(os.path.join(d, "cwd"))

        def run(hists, limit):
            p = subprocess.Popen([sys.executable, "-W", "ignore", driver] + hists, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 cwd=os.path.join(d, "cwd"), env=env, start_new_session=True)
            late = False
            try:
                out, err = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                late = True
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if late:
                out, err = p.communicate()
            return [json.loads(x) for x in out.splitlines() if x.startswith("{")], err[-600:], late

        done, err, late = run(todo, 220)
        while done and done[-1]["problems"]:
            res = done[-1]
            again = [run([res["history"]], 60) for _ in range(2)]  # a busy machine may delay a process: only what always fails counts
            if all(not r[0] or r[0][0]["problems"] for r in again):
                R.fail("what a browser shows is not what the environment rendered", problem=res["problems"][0], history=res["history"], key=res["history"])
                return
            R.outcome("live: repeated")
            res["problems"] = []
            todo = todo[todo.index(res["history"]) + 1 :]
            more, err, late = run(todo, 100) if todo else ([], "", False)
            done += more
        for res in done:
            R.step(res["operations"])
            R.state("live", res["history"])
            R.trace()
        if len(done) < total:
            assert late, "harness: the driver stopped: " + err
            next_ = todo[-(total - len(done))]
            if all(r[2] for r in [run([next_], 40) for _ in range(2)]):
                R.fail("rendering does not come to an end", history=next_)
                return
            R.outcome("live: out of time on a busy machine")
        R.outcome("live histories", len(done))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_job(job, R):
    {"live": live, "tree": tree, "cadence": cadence, "faults": faults, "collapse": collapse, "costs": costs, "easy": easy, "several": several}[job[0]](job, R)
