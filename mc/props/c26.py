"""C26: the web viewer (the real page and scripts, in a minimal browser) displays exactly the last state received."""
import calendar
import datetime
import itertools
import json
import math
import os
import re
import subprocess
import xml.etree.ElementTree as ET

import numpy as np

from .. import core, scratch, zoo
from ..ref import RNet

LEVEL = "model_checking"
BOUNDS = {"quick": "3 initializations; 60 states in which every displayed quantity takes every class of its values (zero, signs, below / at / above each limit, magnitudes that change "
                   "the number format), 450 more that vary one quantity; all ordered pairs of the 60, all ordered pairs of values of each single quantity, all triples of 12 states; "
                   "messages of 60 steps of real trajectories. The complete final document is compared with that of a page that only received the last update",
          "thorough": "8 initializations, 120 states and all ordered pairs, all triples of 24 states, longer trajectories"}
ASSUMPTIONS = ["the browser is a minimal document model (attributes, styles that ignore invalid values, text, transforms) built from network.svg",
               "generators inject between 0 and their limit, and their potential is between 0 and the limit",
               "a number is displayed with 3 significant digits, 2 if its magnitude is below 1 or at least 1000, 1 if below 0.1 or above 1e10"]

# Elements of network.svg that show each quantity (transcribed from the published drawing).
DEV = [dict(zip(("pTick", "qTick", "p", "q", "pTxt", "qTxt", "arrow", "pot"), x.split())) for x in (
    "text4219 text4450 rect4223 rect4227 text4267 text4271 g2863", "text1129 text4479 rect1121 rect1094 text1183 text1206 g2899",
    "text1223 text4509 rect1227 rect1231 text3968 text3972 g2935 rect4394", "text3978 text4539 rect3982 rect3986 text4038 text4042 g3007",
    "text4048 text4569 rect4052 rect4056 text4081 text4085 g2971 rect4421", "text4103 text4599 rect4107 rect4111 text4129 text4133 g3079",
    "text4177 text4628 rect4181 rect4185 text4201 text4205 g3043")]
LINE = [("rect1326", "text1338", ("path1591", "path1593"), ("g3151", "g2613")), ("rect1232", "text1324", ("path8986", "path8988"), ("g2325", "g3115")),
        ("rect1226", "text1270", ("path1623", "path1625"), ("g2541", "g2577")), ("rect1272", "text1284", ("path1615", "path1617"), ("g2469", "g2505")),
        ("rect1286", "text1298", ("path1631", "path1633"), ("g2361", "g2397", "g2433"))]
DES = [("text1215", "text4215", "rect1607")]
BUS = [("text1153", ("path1131", "path1133")), ("text1159", ("path1123", "path1125")), ("text1165", ("path1105", "path1108")),
       ("text1077", ("path1098", "path1100")), ("text1141", ("path1107", "path1109")), ("text1147", ("path1115", "path1117"))]
H_DEV, H_LINE, H_DES, W_COST = 19.8, 24.6, 19.8, 93.8
GEN, LOAD, POT, SOC, RED, BLACK, GREEN = "#31b620", "#4960fb", "#ff0000", "#f17741", "#ff0000", "#000000", "#31b620"
TYPES = [0, -1, 2, -1, 2, -1, 3]


def configs(tier):
    base = dict(title="ANM6Easy", dev_type=TYPES, p_max=[1000.0, 10.0, 30.0, 30.0, 50.0, 30.0, 50.0], q_max=[1000.0, 3.0, 30.0, 10.0, 50.0, 10.0, 50.0],
                s_rate=[32.0, 25.0, 18.0, 18.0, 18.0], v_magn_min=[1.0, 0.9, 0.9, 0.9, 0.9, 0.9], v_magn_max=[1.0, 1.1, 1.1, 1.1, 1.1, 1.1], soc_max=[100.0],
                costs_range=(1, 100))
    out = [base,
           dict(base, title="Task-7", p_max=[0.4, 7.7, 3.3, 12.6, 0.25, 2.5, 61.0], q_max=[5.0, 0.6, 2.2, 1.5, 9.0, 101.0, 3.4], s_rate=[2.5, 60.0, 0.5, 333.0, 7.0],
                v_magn_min=[0.95, 0.8, 0.92, 0.97, 1.01, 0.5], v_magn_max=[1.02, 1.3, 0.99, 1.05, 1.04, 2.0], soc_max=[3.5], costs_range=(100, 10000)),
           dict(base, title="X", dev_type=[0, -1, 1, -1, 1, -1, 3], s_rate=[10.0, 10.0, 10.0, 10.0, 10.0], soc_max=[0.4], costs_range=(0.5, 2.5))]
    if tier == "thorough":
        for k in range(5):
            out.append(dict(base, title="T%d" % k, p_max=[float(x) for x in np.round(1.7 ** np.arange(k, k + 7), 3)], q_max=[float(x) for x in np.round(90 / 1.5 ** np.arange(k, k + 7), 3)],
                            s_rate=[float(3 + 11 * ((k + i) % 5)) for i in range(5)], v_magn_min=[0.9 + 0.01 * ((k + i) % 6) for i in range(6)],
                            v_magn_max=[1.0 + 0.02 * ((2 * k + i) % 6) for i in range(6)], soc_max=[10.0 ** (k - 1)], costs_range=(k + 1, 10 ** k)))
    return out


def classes(c):
    """For each displayed quantity its classes of values."""
    out = {}
    for i, (t, M) in enumerate(zip(c["dev_type"], c["p_max"])):
        if t in (1, 2):
            out["p", i] = [0.0, M, 0.5 * M, 1e-6 * M, 0.97 * M, 0.33 * M]
            out["pot", i] = [0.0, M, 0.5 * M, 0.51 * M, 0.2 * M, 0.9999 * M]
        else:
            out["p", i] = [0.0, M, -M, 0.5 * M, -0.5 * M, 1.3 * M, -1.3 * M, 1e-6, -1e-6, 0.0972, 0.1, -0.963, 12.345, -999.4, 1013.0, 3.2e10, -0.0]
    for i, M in enumerate(c["q_max"]):
        out["q", i] = [0.0, M, -M, 0.5 * M, -0.5 * M, 1.3 * M, -1.3 * M, 2e-6, -3e-6, -0.0972, 0.1, 0.963, -12.345, 999.4, -1013.0, 3.2e10]
    for i, M in enumerate(c["s_rate"]):
        out["s", i] = [0.0, 0.004 * M, -0.004 * M, 0.5 * M, -0.5 * M, M, -M, 1.0001 * M, -1.2 * M, 0.994 * M, 0.006 * M, 50 * M, -0.0]
    for i, M in enumerate(c["soc_max"]):
        out["soc", i] = [0.0, 0.5 * M, M, 0.013 * M, 0.9 * M]
    for i, (a, b) in enumerate(zip(c["v_magn_min"], c["v_magn_max"])):
        out["v", i] = [a, b, (a + b) / 2, a - 1e-6, b + 1e-6, 0.0, 3.7, 0.899, 1.1001]
    out["month", 0] = list(range(1, 13))
    out["day", 0] = [1, 9, 10, 28]
    out["hour", 0] = [0, 9, 10, 23, 12]
    out["min", 0] = [0, 1, 9, 10, 45, 59]
    out["year", 0] = [0, 1, 2, 12]
    a, b = c["costs_range"]
    out["loss", 0] = [0.0, 0.5 * a, a, -0.5 * a, -a, 3.0 * a, -3.0 * a, 0.004, -0.006]
    out["penalty", 0] = [0.0, 0.25 * b, b, 2.0 * b, 0.008, 1.236]
    out["collapsed", 0] = [False, True]
    return out


def orthogonal(cl, n):
    """n states in which every quantity takes every class of its values, in different combinations."""
    out = []
    for s in range(n):
        st = {}
        for j, (k, vals) in enumerate(cl.items()):
            m = len(vals)
            st[k] = vals[(s + (s // m) * (j + 1) + 3 * j) % m]
        out.append(st)
    for k, vals in cl.items():
        assert {repr(s[k]) for s in out} == {repr(v) for v in vals}, k
    return out


BASE_CLASS = {"p": 3, "q": 4, "s": 3, "pot": 3, "soc": 1, "v": 2, "month": 3, "day": 2, "hour": 2, "min": 4, "year": 0, "loss": 1, "penalty": 1, "collapsed": 0}


def base_state(cl):
    return {k: vals[BASE_CLASS[k[0]] % len(vals)] for k, vals in cl.items()}


def jobs(tier):
    scratch.prepare()
    out = []
    for k in range(len(configs(tier))):
        n = 60 if tier == "quick" else 120
        out += [("pairs", k, n, part) for part in range(4)]
        out += [("single", k, part) for part in range(4)]
        out += [("triples", k, 12 if tier == "quick" else 24, part) for part in range(1 if tier == "quick" else 4)]
    out += [("real", k, 60 if tier == "quick" else 400) for k in range(3)]
    return out


def svg(folder):
    """The drawing, as a table of elements."""
    out, root = {}, None

    def strip(n):
        return re.sub(r"\{.*\}", "", n)

    def walk(e, parent):
        nonlocal root
        i = e.get("id")
        if parent is None:
            root = i
        if i:
            out[i] = {"tag": strip(e.tag), "attrs": {strip(k): v for k, v in e.attrib.items() if strip(k) != "id"}, "text": "".join(e.itertext()), "children": []}
            if parent:
                out[parent]["children"].append(i)
        for c in e:
            walk(c, i or parent)

    walk(ET.parse(os.path.join(folder, "envs", "anm6", "network.svg")).getroot(), None)
    return out, root


def number(text, unit):
    if unit and not text.endswith(" " + unit):
        return None
    t = text[:len(text) - len(unit) - 1] if unit else text
    try:
        return float(t)
    except ValueError:
        return None


def close_number(text, unit, v):
    x = number(text, unit)
    if x is None or not math.isfinite(x):
        return False
    m = abs(v)
    digits = 1 if m > 1e10 or m < 0.1 else 2 if m >= 1000 or m < 1 else 3
    if v == 0:
        return x == 0
    ulp = 10.0 ** (math.floor(math.log10(m)) - digits + 1)
    return abs(x - v) <= 0.5000001 * ulp


def hexrgb(c):
    return tuple(int(c[i:i + 2], 16) for i in (1, 3, 5)) if re.fullmatch(r"#[0-9a-fA-F]{6}", c or "") else None


def judge(R, dump, conf, st, ctx):
    """Compares the document after an initialization and one update with what is to be shown."""
    bad = []

    def el(i):
        return dump.get(i) or {"attrs": {}, "style": {}, "text": None, "angle": None, "about": [], "box": None}

    def attr(i, n, want, what):
        got = el(i)["attrs"].get(n)
        try:
            ok = got is not None and abs(float(got) - want) <= 1e-6 * max(1.0, abs(want))
        except ValueError:
            ok = False
        if not ok:
            bad.append((what, i, n, got, want))

    def color(i, n, want, what):
        got = el(i)["style"].get(n, el(i)["attrs"].get(n))
        if (got or "").lower() != want:
            bad.append((what, i, n, got, want))

    def num(i, unit, want, what, prefix=""):
        t = el(i)["text"]
        if t is None or not t.startswith(prefix) or not close_number(t[len(prefix):], unit, want):
            bad.append((what, i, "text", t, "%s%r %s" % (prefix, want, unit)))

    def text(i, want, what):
        if el(i)["text"] != want:
            bad.append((what, i, "text", el(i)["text"], want))

    def arrow(i, turned, what):
        e = el(i)
        b = e["box"]
        at_center = b and all(a[0] == 4 and abs(a[1] - b["x"] - b["width"] / 2) < 1e-9 and abs(a[2] - b["y"] - b["height"] / 2) < 1e-9 for a in e["about"])
        if e["angle"] != (180 if turned else 0) or not at_center:
            bad.append((what, i, "rotation", [e["angle"], e["about"]], 180 if turned else 0))

    def cross(ids, shown, what):
        for i in ids:
            color(i, "stroke", RED if shown else "none", what)

    for k, d in enumerate(DEV):
        t, p, q, pm, qm = conf["dev_type"][k], st["p", k], st["q", k], conf["p_max"][k], conf["q_max"][k]
        name = "device %d" % k
        bar = min(H_DEV, H_DEV * abs(p) / pm)
        attr(d["p"], "height", bar, "P bar of " + name)
        attr(d["q"], "height", min(H_DEV, H_DEV * abs(q) / qm), "Q bar of " + name)
        if p != 0:
            color(d["p"], "fill", GEN if p > 0 else LOAD, "P colour of " + name)
            arrow(d["arrow"], p > 0 if t < 0 else p < 0, "arrow of " + name)
        if q != 0:
            color(d["q"], "fill", GEN if q > 0 else LOAD, "Q colour of " + name)
        num(d["pTxt"], "MW", p, "P of " + name)
        num(d["qTxt"], "MVAr", q, "Q of " + name)
        for i, m in ((d["pTick"], pm), (d["qTick"], qm)):
            x = number(el(i)["text"] or "", "")
            if x is None or abs(x - m) > 0.5 + 1e-9:
                bad.append(("limit of " + name, i, "text", el(i)["text"], m))
        if t in (1, 2):
            pot = st["pot", k]
            up = pot > p
            attr(d["pot"], "height", H_DEV * pot / pm - bar if up else 0, "potential of " + name)
            color(d["pot"], "fill", POT, "colour of the potential of " + name)
            if up:
                attr(d["pot"], "y", Y0[d["pot"]] + bar, "position of the potential of " + name)
    for k, (rect, txt, cr, arrows) in enumerate(LINE):
        s, r = st["s", k], conf["s_rate"][k]
        name = "line %d" % k
        pc = 100 * abs(s) / r
        attr(rect, "height", min(H_LINE, H_LINE * pc / 100), "bar of " + name)
        num(txt, "%", pc, "loading of " + name)
        cross(cr, pc > 100, "overload cross of " + name)
        c = hexrgb(el(rect)["style"].get("fill", ""))
        f = min(1.0, pc / 100)
        if c is None or abs(c[0] - 255 * f) > 6 or abs(c[2] - 255 * (1 - f)) > 6 or c[1] > 2:
            bad.append(("colour of " + name, rect, "fill", el(rect)["style"].get("fill"), f))
        if s != 0:
            for a in arrows:
                arrow(a, s < 0, "arrow of " + name)
    for k, (tick, txt, rect) in enumerate(DES):
        s, m = st["soc", k], conf["soc_max"][k]
        attr(rect, "height", H_DES * s / m, "storage bar")
        color(rect, "fill", SOC, "storage colour")
        num(txt, "MWh", s, "storage level")
        x = number(el(tick)["text"] or "", "")
        if x is None or abs(x - m) > 1e-9 * m:
            bad.append(("storage limit", tick, "text", el(tick)["text"], m))
    for k, (txt, cr) in enumerate(BUS):
        v = st["v", k]
        num(txt, "pu", v, "voltage of bus %d" % k, "|V| = ")
        cross(cr, v < conf["v_magn_min"][k] or v > conf["v_magn_max"][k], "voltage cross of bus %d" % k)
    text("tspan5951", "%s %d" % (calendar.month_name[st["month", 0]], st["day", 0]), "date")
    text("tspan5955", "%02d:%02d" % (st["hour", 0], st["min", 0]), "time")
    text("tspan1071", "Year count: %d" % st["year", 0], "year count")
    text("text5968", conf["title"], "title")
    a, b = conf["costs_range"]
    loss, pen = st["loss", 0], st["penalty", 0]
    attr("rect5879", "width", min(W_COST, W_COST * abs(loss) / a), "energy loss bar")
    attr("rect5903", "width", min(W_COST, W_COST * pen / b), "penalty bar")
    if loss != 0:
        color("rect5879", "fill", RED if loss > 0 else GREEN, "energy loss colour")
    color("rect5903", "fill", RED, "penalty colour")
    for i, x, n in (("text3028", loss, "energy loss"), ("text3034", pen, "penalty")):
        g = number(el(i)["text"] or "", "")
        if g is None or abs(g - x) > 0.00500001:
            bad.append((n, i, "text", el(i)["text"], x))
    for i, x, n in (("text3022", a, "energy loss limit"), ("text2992", b, "penalty limit")):
        g = number(el(i)["text"] or "", "")
        if g is None or abs(g - x) > 1e-9 * x:
            bad.append((n, i, "text", el(i)["text"], x))
    text("text6301", "\u2713" if st["collapsed", 0] else "", "collapse indicator")
    for i in ("text1128", "text6301"):
        color(i, "fill", RED if st["collapsed", 0] else BLACK, "collapse colour")
    for b in bad[:3]:
        R.fail("the viewer does not show the last state: " + b[0], element=b[1], property=b[2], shown=b[3], expected=b[4],
               state={"%s%d" % k: v for k, v in st.items()}, config=conf, **ctx)
    return not bad


Y0 = {}
READY = {}


def world():
    if not READY:
        scratch.load()
        from gym_anm.envs.anm6_env.rendering.py import rendering

        READY["mod"] = rendering
        READY["dir"] = os.path.join(os.path.dirname(os.path.dirname(rendering.__file__)))
        READY["svg"], READY["root"] = svg(READY["dir"])
        for d in DEV:
            if "pot" in d:
                Y0[d["pot"]] = float(READY["svg"][d["pot"]]["attrs"]["y"])
    scratch.WORLD.reset()
    return READY["mod"]


def init_message(conf):
    """The initialization as the real sender composes it."""
    rendering = world()
    _, ws = rendering.start(conf["title"], conf["dev_type"], conf["p_max"], conf["q_max"], conf["s_rate"], conf["v_magn_min"], conf["v_magn_max"], conf["soc_max"],
                            conf["costs_range"])
    sent = scratch.WORLD.sent()
    assert len(sent) == 1
    READY["address"] = ws.address
    return sent[0]


def update_message(conf, st):
    rendering = READY["mod"]
    scratch.WORLD.reset()
    order = lambda n, m: [st[n, i] for i in range(m)]  # noqa: E731
    rendering.update(READY["address"], datetime.datetime(2021, st["month", 0], st["day", 0], st["hour", 0], st["min", 0]), st["year", 0], order("p", 7), order("q", 7),
                     order("s", 5), order("soc", 1), [st["pot", i] for i, t in enumerate(conf["dev_type"]) if t in (1, 2)], order("v", 6),
                     [st["loss", 0], st["penalty", 0]], st["collapsed", 0])
    sent = scratch.WORLD.sent()
    assert len(sent) == 1
    return sent[0]


def browse(messages, tasks):
    js = os.path.join(core.VERIF, "mc", "js", "viewer.js")
    inp = json.dumps({"dir": READY["dir"], "svg": READY["svg"], "root": READY["root"], "messages": messages, "tasks": tasks})
    p = subprocess.run(["node", js], input=inp, capture_output=True, text=True, timeout=380)
    if p.returncode:
        raise RuntimeError("the viewer harness failed: " + p.stderr[-1500:])
    return json.loads(p.stdout)


def report(R, out, ctx):
    for e in out["errors"][:3]:
        R.fail("the viewer's scripts fail", **dict(ctx, **e))
    for m in out["mismatches"][:3]:
        R.fail("something of an earlier update remains visible", **dict(ctx, sequence=m["seq"], differences=m["diff"]))
    if out["address"] is not None and out["address"].rstrip("/") != READY["address"].rstrip("/"):
        R.fail("the page connects to another address than the server's", page=out["address"], server=READY["address"])
    R.step(out["messages"])
    R.trace(out["count"])


def run(R, conf, states, singles, seqs, ctx):
    """messages: 0 the initialization, 1.. the states."""
    messages = [init_message(conf)] + [update_message(conf, s) for s in states]
    out = browse(messages, [{"dump": True, "seqs": [[0, 1 + i] for i in singles]}, {"dump": False, "seqs": [[0] + [1 + i for i in q] for q in seqs]}])
    report(R, out, ctx)
    for i, d in zip(singles, out["dumps"]):
        if d is not None and judge(R, d, conf, states[i], ctx):
            R.outcome("states displayed as expected")
        R.state(json.dumps(conf, sort_keys=True), sorted((k, repr(v)) for k, v in states[i].items()))
    R.outcome("sequences of updates", len(seqs))
    for q in seqs:
        R.state(ctx, q)
    R.sample({"config": conf, "state": {"%s%d" % k: v for k, v in states[singles[0]].items()}})


def pairs(job, R):
    _, k, n, part = job
    world()
    conf = configs("thorough")[k]
    states = orthogonal(classes(conf), n)
    run(R, conf, states, range(n), [(a, b) for a in range(part, n, 4) for b in range(n)], {"config number": k})


def single(job, R):
    _, k, part = job
    world()
    conf = configs("thorough")[k]
    cl = classes(conf)
    base = base_state(cl)
    states, seqs = [base], []
    for key in list(cl)[part::4]:
        at = {}
        for i, v in enumerate(cl[key]):
            at[i] = len(states)
            states.append(dict(base, **{}) | {key: v})
        seqs += [(a, b) for a in at.values() for b in at.values()] + [(a, 0) for a in at.values()] + [(0, a) for a in at.values()]
    # generators: every combination of power and potential
    for g in [i for i, t in enumerate(conf["dev_type"]) if t in (1, 2)][part % 2:part % 2 + 1]:
        for p in cl["p", g]:
            for q in cl["pot", g]:
                states.append(dict(base) | {("p", g): p, ("pot", g): q})
    run(R, conf, states, range(len(states)), seqs, {"config number": k, "part": part})


def triples(job, R):
    _, k, n, part = job
    world()
    conf = configs("thorough")[k]
    states = orthogonal(classes(conf), 60)[::60 // n][:n]
    todo = list(itertools.product(range(len(states)), repeat=3))
    m = 1 if n <= 12 else 4
    run(R, conf, states, range(len(states)), todo[part::m], {"config number": k})


def real(job, R):
    """Messages of real trajectories of the six-bus tasks."""
    _, k, n = job
    world()
    from .c29 import make_class, UP, DOWN

    scratch.WORLD.reset()
    if k == 0:
        from gym_anm.envs import ANM6Easy

        env = ANM6Easy()
        env.reset(seed=3)
    else:
        env = make_class()(clip=(1, 100) if k == 1 else (0.5, 2))
        env.reset(seed=k)
    env.render("human")
    states = []

    def snap():
        st = env.simulator.state
        s = {}
        for i, d in enumerate(sorted(st["dev_p"]["MW"])):
            s["p", i], s["q", i] = float(st["dev_p"]["MW"][d]), float(st["dev_q"]["MVAr"][d])
            if d in st["gen_p_max"]["MW"] and i in (2, 4):
                s["pot", i] = float(st["gen_p_max"]["MW"][d])
        for i, v in enumerate(st["branch_s"]["MVA"].values()):
            s["s", i] = float(v)
        s["soc", 0] = float(list(st["des_soc"]["MWh"].values())[0])
        for i, v in enumerate(st["bus_v_magn"]["pu"].values()):
            s["v", i] = float(v)
        dt = env.date
        s.update({("month", 0): dt.month, ("day", 0): dt.day, ("hour", 0): dt.hour, ("min", 0): dt.minute, ("year", 0): env.year_count,
                  ("loss", 0): float(env.e_loss), ("penalty", 0): float(env.penalty), ("collapsed", 0): not env.simulator.pfe_converged})
        return s

    conf = dict(configs("quick")[0], title=type(env).__name__)
    raw = zoo.get("anm6")
    rn = RNet(raw)
    b = rn.base
    conf["p_max"] = [max(abs(d.pmin), abs(d.pmax)) * b for d in rn.devs]
    conf["q_max"] = [max(abs(d.qmin), abs(d.qmax)) * b for d in rn.devs]
    conf["s_rate"] = [float(r[5]) for r in raw["branch"]]
    conf["v_magn_min"], conf["v_magn_max"] = [float(r[4]) for r in raw["bus"]], [float(r[3]) for r in raw["bus"]]
    conf["soc_max"] = [d.socmax * b for d in rn.des]
    conf["costs_range"] = (1, 100) if k < 2 else (0.5, 2)
    states.append(snap())
    mid = (UP + DOWN) / 2
    acts = [UP, DOWN, mid, 0.8 * UP, 1.2 * DOWN]
    for i in range(n):
        env.step(acts[(i * i + i // 5) % 5])
        env.render()
        states.append(snap())
        if states[-1]["collapsed", 0]:
            break
    msgs = scratch.WORLD.sent()
    init, ups = msgs[0], msgs[1:]
    if len(ups) != len(states):
        R.fail("not every state was sent to the viewer", messages=len(ups), states=len(states))
        return
    READY["address"] = env.ws_server.address
    out = browse([init] + ups, [{"dump": True, "seqs": [[0, 1 + i] for i in range(len(ups))]},
                                {"dump": False, "seqs": [[0] + list(range(1, i + 2)) for i in range(1, len(ups))]}])
    report(R, out, {"real": k})
    for i, d in enumerate(out["dumps"]):
        if states[i]["collapsed", 0]:
            continue
        if d is not None and judge(R, d, conf, states[i], {"real": k, "step": i}):
            R.outcome("states of trajectories displayed as expected")
        R.state("real", k, i)


def run_job(job, R):
    {"pairs": pairs, "single": single, "triples": triples, "real": real}[job[0]](job, R)
