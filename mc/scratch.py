"""Imports gym_anm from a scratch copy of the package (rendering writes files into its own package directory) with the libraries that
reach outside the process - processes, sockets, HTTP requests, browser - replaced by recorders."""
import atexit
import os
import shutil
import sys
import tempfile

from . import core

ROOT = None


def prepare():
    """Called in the parent process (from jobs()): creates the scratch root, removed when that process exits."""
    global ROOT
    if ROOT is None:
        ROOT = tempfile.mkdtemp(prefix="mc-scratch-")
        os.environ["MC_SCRATCH"] = ROOT
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(ROOT, ignore_errors=True)

        atexit.register(clean)
    return ROOT


class World:
    """What the code under test did to the outside world, and how the outside world answers."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.processes = []     # FakeProcess in order of creation
        self.connections = []   # FakeConnection in order of creation
        self.opened = []        # urls opened in the browser
        self.requests = []      # urls fetched
        self.log = []           # all events in order
        self.refuse = 0         # number of connection attempts still to be refused
        self.unready = 0        # number of HTTP requests still to be answered with 503
        return self

    def sent(self):
        return [m for c in self.connections for m in c.sent]


class FakeProcess:
    world = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, dict(kwargs or {})
        self.started = self.terminated = False
        self.name, self.daemon, self.pid, self.exitcode = name, daemon, None, None
        self.world.processes.append(self)

    def start(self):
        self.started = True
        self.world.log.append(("start", len(self.world.processes)))

    def terminate(self):
        self.terminated = True
        self.world.log.append(("terminate", self.world.processes.index(self)))

    kill = close = terminate

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return self.started and not self.terminated

    def run_target(self):
        return self.target(*self.args, **self.kwargs)


class FakeConnection:
    def __init__(self, world, address):
        self.world, self.address, self.sent, self.closed = world, address, [], False
        world.connections.append(self)

    def send(self, msg, *a, **k):
        if self.closed:
            raise OSError("connection is closed")
        self.sent.append(msg)
        self.world.log.append(("send", msg))
        return len(msg)

    send_text = send

    def recv(self, *a, **k):
        return ""

    def close(self, *a, **k):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


WORLD = World()
FakeProcess.world = WORLD
LOADED = None


def load():
    """Imports (once per worker process) a private copy of the package; returns the World."""
    global LOADED
    if LOADED:
        return WORLD
    if "gym_anm" in sys.modules:
        raise RuntimeError("gym_anm was imported before the scratch copy")
    prepare()
    d = os.path.join(ROOT, str(os.getpid()))
    shutil.copytree(os.path.join(core.REPO, "gym_anm"), os.path.join(d, "gym_anm"), ignore=shutil.ignore_patterns("__pycache__"))
    sys.path.insert(0, d)
    import multiprocessing
    import webbrowser

    import requests
    import websocket

    multiprocessing.Process = FakeProcess
    multiprocessing.process.Process = FakeProcess

    def create_connection(address, *a, **k):
        WORLD.log.append(("connect", address))
        if WORLD.refuse:
            WORLD.refuse -= 1
            raise ConnectionRefusedError("not yet listening")
        return FakeConnection(WORLD, address)

    websocket.create_connection = create_connection

    class Page:
        def __init__(self, code):
            self.status_code, self.ok, self.text = code, code == 200, ""

    def get(url, *a, **k):
        WORLD.requests.append(url)
        WORLD.log.append(("get", url))
        if WORLD.unready:
            WORLD.unready -= 1
            return Page(503)
        return Page(200)

    requests.get = get

    def open_(url, *a, **k):
        WORLD.opened.append(url)
        WORLD.log.append(("browser", url))
        return True

    webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = open_
    import gym_anm

    if not gym_anm.__file__.startswith(d + os.sep):
        raise RuntimeError("the scratch copy was not imported: " + gym_anm.__file__)
    LOADED = os.path.join(d, "gym_anm")
    return WORLD
