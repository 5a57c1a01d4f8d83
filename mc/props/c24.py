"""C24: every viewer gets the initialization first, then every later update, in order."""
import itertools
import json
import math
import os
import socket
import sys
import threading
import time

from .. import scratch, sched

LEVEL = "model_checking"
BOUNDS = {"quick": "events as wholes: all interleavings of the environment's connections (initialization and up to 5 updates, 3 events each) with up to 3 viewers that join, leave "
                   "gracefully or abruptly, and rejoin (configurations with at most 120 000 interleavings). Threads: all schedules with at most 2 preemptions (at every line of the server's and the library's handlers) of one to "
                   "three concurrent connections in 16 scenarios. 24 interleavings executed with real sockets; addresses of four servers of each kind side by side",
          "thorough": "configurations with at most 2.1 million interleavings; 3 preemptions on two-thread scenarios"}
ASSUMPTIONS = ["messages of the environment are processed one after the other (each of its connections is closed, and the server has processed that, before the next is opened)",
               "a thread switch happens between source lines; a message handed to a socket that is not closed is delivered"]
INIT = json.dumps({"messageLabel": "init", "deviceType": [0, -1], "title": "\u00e9 \"x\"", "pMax": [1.5, 2]}, separators=(",", ":"))


def update(k):
    return json.dumps({"messageLabel": "update", "time": [1, k, 2, 3], "vMagn": [1.0, 0.98 + k / 100], "networkCollapsed": bool(k % 2)})


MSG = [INIT] + [update(k) for k in range(1, 6)]
AGAIN = {}  # sequences in which the environment initializes the viewers a second time


def messages(kinds):
    """The messages of a sequence of initializations (I) and updates (U)."""
    if kinds not in AGAIN:
        AGAIN[kinds] = [INIT if k == 0 else INIT.replace("1.5", "1.5,%d" % k) if c == "I" else update(k) for k, c in enumerate(kinds)]
    return AGAIN[kinds]


# viewers: list of life cycles; "j" join, "l" graceful leave, "a" abrupt leave (the socket breaks, the server notices later: two events)
VIEWERS = [
    ("j",), ("j", "l"), ("j", "a"), ("j", "l", "j"), ("j", "a", "j", "l"),
]


def count(cs):
    """How many interleavings the chains have."""
    n = math.factorial(sum(map(len, cs)))
    for c in cs:
        n //= math.factorial(len(c))
    return n


def jobs(tier):
    scratch.prepare()
    limit = 120000 if tier == "quick" else 2100000
    configs = []
    for c in itertools.combinations_with_replacement(VIEWERS, 2):
        configs += [(c, u, loose) for loose in (False, True) for u in ((1, 2) if tier == "quick" else (1, 2, 3))]
    for c in [(("j",), ("j", "l"), ("j", "a")), (("j",), ("j",), ("j", "a")), (("j", "l"), ("j", "l"), ("j",))]:
        configs += [(c, u, False) for u in ((1,) if tier == "quick" else (1, 2))]
    configs += [((("j",),), 5, False), ((("j", "l", "j"),), 3, True)]
    out = []
    # the environment initializes the viewers a second time
    for c in [(("j",),), (("j", "l"),), (("j", "l", "j"),), (("j", "a"),), (("j",), ("j",)), (("j",), ("j", "l"))]:
        for u in ("IUI", "IUIU", "IIU", "IUUIU") if tier == "quick" else ("IUI", "IUIU", "IIU", "IUUIU", "IUIUI"):
            configs.append((c, u, False))
    for viewers, updates, loose in configs:
        cs = chains(viewers, updates, loose)
        n = count(cs)
        if n > limit:
            continue
        depth = 0
        while n / len(cs) ** depth > 60000:
            depth += 1
        out += [("events", viewers, updates, loose, pre) for pre in itertools.product(range(len(cs)), repeat=depth)]
    for k in range(len(THREADS)):
        out.append(("threads", k, 3 if tier == "thorough" and len(THREADS[k][1]) == 2 else 2))
    out.append(("sockets", 24 if tier == "quick" else 80))
    out.append(("ports", 0))
    return out


class Handler:
    """Stands in for the library's connection handler."""

    def __init__(self, world, name):
        self.world, self.name, self.inbox, self.broken = world, name, [], False
        self.client_address = ("127.0.0.1", 1000 + len(world.handlers))
        self.request = self
        world.handlers.append(self)

    def send_message(self, msg):
        if sched.ACTIVE:
            sched.ACTIVE.point()
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")
        self.inbox.append(msg)
        self.world.note("recv", self.name, msg)

    send_text = send_message

    def send_close(self, *a, **k):
        pass


def patch_library():
    """The server neither binds a port nor runs, but is handed to the check."""
    import websocket_server

    cls = websocket_server.WebsocketServer

    def init(self, port, host="127.0.0.1", *a, **k):
        self.port, self.host, self.clients, self.id_counter = port, host, [], 0

    def run_forever(self, *a, **k):
        patch_library.captured.append(self)

    cls.__init__, cls.run_forever = init, run_forever
    patch_library.captured = []


ENVIRONMENT = {}


def prepare():
    """Imports the server module (from the scratch copy) with controlled locks."""
    if "mod" in ENVIRONMENT:
        return
    import requests  # noqa: F401
    import websocket  # noqa: F401
    import websocket_server
    import cvxpy  # noqa: F401
    import gymnasium  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import scipy.optimize  # noqa: F401

    ENVIRONMENT["real"] = (websocket_server.WebsocketServer.__init__, websocket_server.WebsocketServer.run_forever, websocket.create_connection)
    with sched.patched_locks():
        scratch.load()
        from gym_anm.envs.anm6_env.rendering.py import servers

    ENVIRONMENT["mod"] = servers
    os.makedirs(servers.RENDERING_LOGS, exist_ok=True)
    patch_library()
    # only the handlers are traced: the rest of the library's code runs in no interleaved thread here
    ENVIRONMENT["files"] = {servers.__file__, websocket_server.websocket_server.__file__ if hasattr(websocket_server, "websocket_server") else websocket_server.__file__}


REAL_SOCKET = socket.socket


class ports:
    """While active, probing a port finds it used (or free); free ports are selected by the system (or invented)."""

    def __init__(self, used):
        class Probe(REAL_SOCKET if used else object):
            def __init__(self, *a, **k):
                if used:
                    super().__init__(*a, **k)

            def connect_ex(self, *a):
                return 0 if used else 111

            if not used:
                def connect(self, *a):
                    raise ConnectionRefusedError(111, "Connection refused")

                def bind(self, *a):
                    pass

                listen = close = settimeout = setsockopt = bind

                def getsockname(self):
                    return ("127.0.0.1", 54321)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

        self.probe = Probe

    def __enter__(self):
        socket.socket = self.probe

    def __exit__(self, *a):
        socket.socket = REAL_SOCKET


class World:
    def __init__(self, msgs=MSG):
        self.msgs = msgs
        self.handlers, self.log = [], []
        patch_library.captured.clear()
        scratch.WORLD.reset()
        servers = ENVIRONMENT["mod"]
        out = sys.stdout
        with sched.patched_locks(), ports(False):  # no port is bound here
            self.ws = servers.WsServer()
            scratch.WORLD.processes[-1].run_target()
        sys.stdout = out
        self.server = patch_library.captured[-1]

    def note(self, *a):
        self.log.append(a)

    def guard(self, f, *a):
        """The library's thread of a connection dies if a handler raises (and then the connection is closed)."""
        try:
            f(*a)
            return True
        except Exception as e:
            self.note("error", type(e).__name__, str(e)[:100])
            return False

    # events of a viewer
    def join(self, name):
        h = Handler(self, name)
        self.note("join", name)
        self.guard(self.server._new_client_, h)
        self.note("joined", name)
        return h

    def leave(self, h):
        self.note("leave", h.name)
        h.broken = True
        self.guard(self.server._client_left_, h)
        self.note("left", h.name)

    def cut(self, h):
        self.note("leave", h.name)
        h.broken = True

    def gone(self, h):
        self.guard(self.server._client_left_, h)
        self.note("left", h.name)

    # events of the environment
    def connect(self, k):
        h = Handler(self, ("env", k))
        self.guard(self.server._new_client_, h)
        return h

    def send(self, h, k):
        self.note("send", k)
        self.guard(self.server._message_received_, h, self.msgs[k])
        self.note("sent", k)

    def disconnect(self, h):
        h.broken = True
        self.guard(self.server._client_left_, h)


def oracle(R, log, handlers, ctx, msgs=MSG):
    """Judges what each viewer received from the order of events."""
    pos = {}
    for i, e in enumerate(log):
        pos.setdefault(e[:2], i)
    INF = len(log) + 1
    for h in handlers:
        if isinstance(h.name, tuple) and h.name[0] == "env":
            continue
        j0, j1 = pos[("join", h.name)], pos.get(("joined", h.name), INF)
        l0, l1 = pos.get(("leave", h.name), INF), pos.get(("left", h.name), INF)
        got = []
        for m in h.inbox:
            if m not in msgs:
                R.fail("a viewer received a message that was not sent, or modified", got=m[:300], viewer=h.name, **ctx)
                return False
            got.append(msgs.index(m))
        must, may = [], []
        inits = [k for k in range(len(msgs)) if "init" in msgs[k]]
        for k in range(len(msgs)):
            s, e = pos.get(("send", k)), pos.get(("sent", k), INF)
            if s is None:
                continue
            if k in inits:
                later = [i for i in inits if i > k and ("send", i) in pos]
                if s < l0 and not any(pos.get(("sent", i), INF) < j0 for i in later):
                    may.append(k)
                    if max(e, j1) < l0 and (s > j1 or not any(pos[("send", i)] < j1 for i in later)):
                        must.append(k)
                continue
            if e < j0 or s > l1:
                continue
            may.append(k)
            if s > j1 and e < l0:
                must.append(k)
        if not wrong(got, may, must, inits):
            R.outcome("viewer with %d messages" % len(got))
            continue
        d = dict(viewer=h.name, received=got, must=must, may=may, events=[list(map(str, x[:2])) for x in log if x[0] != "recv"], **ctx)
        if any(k not in may for k in got):
            R.fail("a viewer received a message sent before it joined or after it left", **d)
            return False
        if any(k not in got for k in must):
            R.fail("a connected viewer missed a message", **d)
            return False
        if len(set(got)) != len(got):
            R.fail("a viewer received a message more than once", **d)
            return False
        if got != sorted(got):
            R.fail("a viewer received messages in another order than they were sent, or an update before the initialization", **d)
            return False
        if got and got[0] not in inits:
            R.fail("a viewer received an update before the initialization", **d)
            return False
    return True


def wrong(got, may, must, inits):
    return any(k not in may for k in got) or any(k not in got for k in must) or len(set(got)) != len(got) or got != sorted(got) or (got and got[0] not in inits)


def chains(viewers, updates, loose):
    """The event chains of a configuration: each chain is a list of event descriptors executed in order."""
    env, extra = [], []
    for k in range(updates + 1 if isinstance(updates, int) else len(updates)):
        env += [("connect", k), ("send", k)]
        if loose and k == 0:
            extra.append([("after", 1), ("disconnect", 0)])  # the first connection's end is noticed late
        else:
            env.append(("disconnect", k))
    out = [env]
    for i, v in enumerate(viewers):
        c, n = [], 0
        for e in v:
            if e == "j":
                n += 1
                c.append(("join", "%s%d" % ("ABCD"[i], n)))
            elif e == "l":
                c.append(("leave", "%s%d" % ("ABCD"[i], n)))
            else:
                c += [("cut", "%s%d" % ("ABCD"[i], n)), ("gone", "%s%d" % ("ABCD"[i], n))]
        out.append(c)
    for e in extra:
        out.append([x for x in e if x[0] != "after"])
    return out


def interleavings(cs, pre=()):
    """All interleavings of the chains (that begin with `pre`), as tuples of chain numbers; a late disconnect comes after its message."""
    n = [len(c) for c in cs]

    def rec(idx, acc):
        if idx == n:
            yield tuple(acc)
            return
        for c in range(len(cs)) if len(acc) >= len(pre) else (pre[len(acc)],):
            if idx[c] < n[c]:
                ev = cs[c][idx[c]]
                if ev[0] == "disconnect" and c != 0 and idx[0] < 2:
                    continue
                idx[c] += 1
                acc.append(c)
                yield from rec(idx, acc)
                acc.pop()
                idx[c] -= 1

    yield from rec([0] * len(cs), [])


def execute(w, ev, live):
    op, x = ev
    if op == "join":
        live[x] = w.join(x)
    elif op == "connect":
        live["env", x] = w.connect(x)
    elif op == "send":
        w.send(live["env", x], x)
    elif op == "disconnect":
        w.disconnect(live["env", x])
    else:
        getattr(w, op)(live[x])


def events(job, R):
    _, viewers, updates, loose, pre = job
    prepare()
    cs = chains(viewers, updates, loose)
    msgs = messages(updates) if isinstance(updates, str) else MSG
    for order in interleavings(cs, pre):
        w, live, idx = World(msgs), {}, [0] * len(cs)
        for c in order:
            execute(w, cs[c][idx[c]], live)
            idx[c] += 1
            R.step()
        oracle(R, w.log, w.handlers, dict(order=order), msgs)
        R.state(viewers, updates, loose, order)
        R.trace()
    R.sample({"viewers": viewers, "updates": updates, "late disconnect": loose})


# Thread scenarios: (prologue events, [thread = list of events]) - each thread is a connection of the server.
THREADS = [
    ([], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("join", "A1")]]),
    ([("join", "A1")], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("leave", "A1")]]),
    ([("join", "A1")], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("join", "B1")]]),
    ([("init", 0)], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("join", "A1")]]),
    ([("init", 0), ("join", "A1")], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("join", "B1")]]),
    ([("init", 0), ("join", "A1"), ("join", "B1")], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("leave", "A1")]]),
    ([("init", 0), ("join", "A1"), ("join", "B1")], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("cut", "A1"), ("gone", "A1")]]),
    ([("join", "A1"), ("join", "B1")], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("cut", "A1"), ("gone", "A1")]]),
    ([("init", 0)], [[("join", "A1")], [("join", "B1")]]),
    ([("init", 0), ("join", "A1")], [[("leave", "A1")], [("join", "B1")]]),
    ([("init", 0), ("join", "A1"), ("join", "B1"), ("join", "C1")], [[("leave", "A1")], [("leave", "C1")]]),
    ([], [[("connect", 0), ("send", 0), ("disconnect", 0), ("connect", 1), ("send", 1), ("disconnect", 1)], [("join", "A1")]]),
    ([("init", 0)], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("join", "A1")], [("join", "B1")]]),
    ([("init", 0), ("join", "A1"), ("join", "B1")], [[("connect", 1), ("send", 1), ("disconnect", 1)], [("leave", "A1")], [("join", "C1")]]),
    ([], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("join", "A1"), ("leave", "A1")], [("join", "B1")]]),
    ([("join", "A1")], [[("connect", 0), ("send", 0), ("disconnect", 0)], [("leave", "A1")], [("join", "B1")]]),
]


def threads(job, R):
    _, k, bound = job
    prepare()
    prologue, ths = THREADS[k]
    if len(ths) > 2:
        bound = min(bound, 1 if sum(len(t) for t in ths) > 4 else 2)
    box = {}

    def make():
        w, live = World(), {}
        box["w"] = w
        for op, x in prologue:
            if op == "init":
                for e in ("connect", "send", "disconnect"):
                    execute(w, (e, x), live)
            else:
                execute(w, (op, x), live)

        def runner(evs):
            def f():
                for e in evs:
                    execute(w, e, live)
            return f

        return [runner(t) for t in ths]

    n = 0
    for run in sched.explore(make, ENVIRONMENT["files"], bound):
        n += 1
        w = box["w"]
        for t, e in run.errors.items():
            if isinstance(e, sched.Deadlock):
                R.fail("the server's threads block each other", scenario=k, decisions=[c for _, c in run.decisions])
            else:
                raise e
        # afterwards, a further update must reach exactly the viewers still connected
        live = {}
        last = 1 + max([x for op, x in prologue + sum(ths, []) if op in ("send", "init")], default=-1)
        if last > 0:
            for e in ("connect", "send", "disconnect"):
                execute(w, (e, last), live)
        oracle(R, w.log, w.handlers, dict(scenario=k, decisions=[c for _, c in run.decisions]))
        R.step(len(run.decisions) + 1)
        R.state("threads", k, [c for _, c in run.decisions])
        R.trace()
    R.outcome("schedules of threads", n)
    R.sample({"scenario": k, "prologue": prologue, "threads": ths, "schedules": n})


def sockets(job, R):
    """Replays interleavings with the real server, over the loopback interface."""
    prepare()
    import websocket
    import websocket_server

    init, run_forever, connect = ENVIRONMENT["real"]
    servers = ENVIRONMENT["mod"]
    cls = websocket_server.WebsocketServer
    box = []

    def run_and_keep(self, *a, **k):
        box.append(self)
        return run_forever(self, *a, **k)

    cls.__init__, cls.run_forever = init, run_and_keep
    cls.handle_error = lambda self, *a: None  # abrupt ends of connections are expected
    configs = [chains(v, u, l) for v, u, l in (((("j",), ("j", "l")), 2, False), ((("j", "l", "j"), ("j", "a")), 1, False), ((("j",), ("j",), ("j", "l")), 2, False))]
    todo = []
    for cs in configs:
        allo = list(interleavings(cs)) if sum(map(len, cs)) < 14 else list(itertools.islice(interleavings(cs), 0, 60000, 61))
        m = job[1] // len(configs)
        todo += [(cs, allo[i * len(allo) // m]) for i in range(m)]
    for cs, order in todo:
        box.clear()
        cls.clients = []  # a class attribute in this version of the library
        scratch.WORLD.reset()
        with ports(True):
            ws = servers.WsServer()
        proc = scratch.WORLD.processes[-1]
        th = threading.Thread(target=quiet_target(proc), daemon=True)
        th.start()
        log, socks, inbox, handlers, idx = [], {}, {}, [], [0] * len(cs)

        def poll(cond, what):
            t = time.time() + 20
            while not cond():
                if time.time() > t:
                    raise AssertionError("harness: " + what)
                time.sleep(0.002)

        poll(lambda: box, "the server does not start")
        server = box[0]

        def open_():
            t = time.time() + 20
            n = server.id_counter
            while True:
                try:
                    s = connect(ws.address, timeout=10)
                    break
                except (OSError, ValueError, websocket.WebSocketException) as e:
                    if time.time() > t or not isinstance(e, ConnectionRefusedError):
                        R.fail("the server cannot be reached at its address", address=ws.address, error=repr(e))
                        raise AssertionError("harness: no connection")
                    time.sleep(0.005)
            poll(lambda: server.id_counter > n, "the server does not register a connection")
            poll(lambda: len(server.clients) == expected[0] + 1, "the server does not list a connection")
            expected[0] += 1
            return s

        expected = [0]

        def drop(s, abrupt=False):
            if abrupt:
                s.sock.close()
                s.sock = None
            else:
                s.close()
            expected[0] -= 1
            poll(lambda: len(server.clients) == expected[0], "the server does not notice the end of a connection")

        for c in order:
            op, x = cs[c][idx[c]]
            idx[c] += 1
            R.step()
            if op == "join":
                log.append(("join", x))
                socks[x] = open_()
                log.append(("joined", x))
                inbox[x] = []
            elif op in ("leave", "gone"):
                if op == "leave":
                    drain(socks[x], inbox[x], 0.15)
                    log.append(("leave", x))
                drop(socks.pop(x), op == "gone")
                log.append(("left", x))
            elif op == "cut":
                drain(socks[x], inbox[x], 0.15)
                log.append(("leave", x))
            elif op == "connect":
                socks["env", x] = open_()
            elif op == "send":
                log.append(("send", x))
                socks["env", x].send(MSG[x])
                # the broadcast includes the sender for updates; otherwise give the server time
                wait_idle(server)
                log.append(("sent", x))
            elif op == "disconnect":
                drop(socks.pop(("env", x)))
        for x in list(socks):
            drain(socks[x], inbox[x], 0.3)
            drop(socks.pop(x))
        server.shutdown()
        server.server_close()

        class H:
            pass

        hs = []
        for x, got in inbox.items():
            h = H()
            h.name, h.inbox = x, got
            hs.append(h)
        oracle(R, log, hs, dict(order=order, sockets=True))
        R.state("sockets", str(cs), order)
        R.trace()
        R.outcome("real sockets")


def occupied(port, held):
    """Makes sure that something listens on the port."""
    s = REAL_SOCKET(socket.AF_INET, socket.SOCK_STREAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    held.append(s)
    try:
        s.bind(("127.0.0.1", port))
        s.listen(8)
    except OSError:
        pass  # in use already


def port_choice(job, R):
    """Several rendered environments: each server gets an address on which no other listens."""
    prepare()
    servers = ENVIRONMENT["mod"]
    held = []
    try:
        for scheme, cls, default in (("ws", servers.WsServer, 9001), ("http", servers.HttpServer, 8000)):
            seen = set()
            occupied(default, held)
            for k in range(4):
                scratch.WORLD.reset()
                s = cls()
                R.step()
                addr = s.address.rstrip("/")
                R.check(addr.startswith(scheme + "://") and addr.rsplit(":", 1)[1].isdigit(), "a server's address is not a URL with a port", address=s.address)
                port = int(addr.rsplit(":", 1)[1])
                R.check(port not in seen and port != default, "two servers get the same address", address=s.address, taken=sorted(seen) + [default])
                seen.add(port)
                with REAL_SOCKET(socket.AF_INET, socket.SOCK_STREAM) as probe:
                    probe.settimeout(5)
                    R.check(probe.connect_ex(("127.0.0.1", port)) != 0, "the server's address is in use already", address=s.address)
                occupied(port, held)
                R.state("ports", scheme, k)
        R.trace()
        R.outcome("ports")
    finally:
        for s in held:
            s.close()
        scratch.WORLD.reset()


def quiet_target(proc):
    def f():
        try:
            proc.run_target()
        except Exception:
            pass
    return f


def wait_idle(server):
    time.sleep(0.05)


def drain(s, box, quiet):
    import websocket

    s.settimeout(quiet)
    try:
        while True:
            m = s.recv()
            if m == "" or m is None:
                return
            box.append(m)
    except (websocket.WebSocketTimeoutException, websocket.WebSocketConnectionClosedException, OSError):
        return


def run_job(job, R):
    {"events": events, "threads": threads, "sockets": sockets, "ports": port_choice}[job[0]](job, R)
