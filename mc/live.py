"""Driver (own process, scratch copy of the package): renders environments with the real servers and reads the page as a browser would.

usage: live.py HISTORY...   one letter per operation:
  r render, u/d step and render, R reset and render, v another viewer opens the page, q a viewer leaves, c close, 2 the second environment's turn (toggle)
Prints one JSON line per history: {"history", "problems", "messages"}.
"""
import html.parser
import json
import multiprocessing
import os
import re
import socket
import sys
import time
import urllib.error
import urllib.parse
import urllib.request
import webbrowser

import numpy as np
import websocket

LIMIT = 20.0  # generous: the machine may be busy
UP = np.array([22.0, 35.0, 7.0, -11.0, -17.0, 9.0])
DOWN = np.array([4.0, 11.0, -6.0, 10.0, 31.0, -13.0])
opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))


class Refs(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.refs, self.script, self.inline = [], False, ""

    def handle_starttag(self, tag, attrs):
        for k, v in attrs:
            if v and k in ("src", "href", "data") and not v.startswith(("http:", "https:", "data:", "#")):
                self.refs.append(v)
        self.script = tag == "script"

    def handle_endtag(self, tag):
        self.script = False

    def handle_data(self, data):
        if self.script:
            self.inline += data


def fetch(url):
    try:
        with opener.open(url, timeout=LIMIT) as r:
            return r.status, r.read()
    except urllib.error.HTTPError as e:
        return e.code, b""
    except (OSError, ValueError) as e:
        return repr(e), b""


class Viewer:
    """A browser that opens a page, follows its references, and connects to the address that the page contains."""

    def __init__(self, url, folder, problems, known):
        self.inbox, self.ws = [], None
        code, body = fetch(url)
        if code != 200:
            problems.append("the page at the announced address is not served: %s %s" % (url, code))
            return
        p = Refs()
        p.feed(body.decode())
        if not p.refs:
            problems.append("the page refers to no script")
        for ref in p.refs:
            if ref in known:
                continue
            known.add(ref)
            code, body = fetch(urllib.parse.urljoin(url if url.endswith(("/", ".html")) else url + "/", ref))
            f = os.path.join(folder, *ref.split("/"))
            if code != 200 or not os.path.isfile(f) or open(f, "rb").read() != body:
                problems.append("a file of the page is not served: %s %s" % (ref, code))
        m = re.search(r"wss?://[^\s\"']+", p.inline)
        if not m:
            problems.append("the page does not contain the address of the message server")
            return
        try:
            self.ws = websocket.create_connection(m.group(0), timeout=LIMIT)
        except (OSError, ValueError, websocket.WebSocketException) as e:
            problems.append("the page cannot reach the message server: %s %r" % (m.group(0), e))

    def receive(self, n):
        """Waits for the n-th message."""
        end = time.time() + LIMIT
        while self.ws is not None and len(self.inbox) < n and time.time() < end:
            try:
                self.ws.settimeout(max(0.1, end - time.time()))
                msg = self.ws.recv()
                if msg:
                    self.inbox.append(json.loads(msg))
            except (OSError, ValueError, websocket.WebSocketException):
                break
        return len(self.inbox) >= n

    def rest(self):
        if self.ws is not None:
            n = len(self.inbox)
            self.ws.settimeout(0.05)
            try:
                msg = self.ws.recv()
                if msg:
                    self.inbox.append(json.loads(msg))
            except (OSError, ValueError, websocket.WebSocketException):
                pass
            return len(self.inbox) - n
        return 0


class Session:
    """One environment and what its viewers must have received."""

    def __init__(self, cls, folder, problems, known):
        self.env, self.folder, self.problems, self.known = cls(), folder, problems, known
        self.env.reset(seed=4)
        self.url, self.viewers = None, []

    def values(self):
        s = self.env.simulator.state
        d = self.env.date
        return [float(v) for v in s["dev_p"]["MW"].values()], [d.month, d.day, d.hour, d.minute]

    def render(self):
        URLS.clear()
        PAGE[:] = [self]
        new = self.url is None
        if new:
            self.env.render()
            if len(URLS) != 1:
                self.problems.append("the browser was opened %d times" % len(URLS))
                return
        else:
            self.env.render()
            if URLS:
                self.problems.append("the browser was opened again")
        p, t = self.values()
        for v in self.viewers:
            v.want.append((p, t))
            if not v.receive(1 + len(v.want)):
                self.problems.append("a viewer did not receive an update")
        self.settle()

    def settle(self):
        for v in self.viewers:
            labels = [m.get("messageLabel") for m in v.inbox]
            if not labels or labels[0] != "init":
                self.problems.append("a viewer received %s" % labels)
            got = [(m["pInjections"], m["time"]) for m in v.inbox if m["messageLabel"] == "update"]
            ok = len(got) == len(v.want) and all(np.allclose(a[0], b[0], atol=1e-9) and list(a[1]) == list(b[1]) for a, b in zip(got, v.want))
            if not ok:
                self.problems.append("a viewer shows %s, the environment rendered %s" % (str(got[-2:])[:160], str(v.want[-2:])[:160]))

    def opened(self, url):
        self.url = url
        v = Viewer(url, self.folder, self.problems, self.known)
        v.want = []
        self.viewers.append(v)
        time.sleep(0.3)  # the server registers the viewer

    def join(self):
        if self.url is None:
            return
        v = Viewer(self.url, self.folder, self.problems, self.known)
        v.want = []
        if not v.receive(1):
            self.problems.append("a new viewer did not receive the initial message")
        self.viewers.append(v)

    def leave(self):
        if self.viewers:
            v = self.viewers.pop(0)
            if v.ws is not None:
                v.ws.close()

    def close(self):
        url = self.url
        self.env.close()
        self.url = None
        for v in self.viewers:
            if v.rest():
                self.problems.append("a viewer received a message after the last rendering: %s" % str(v.inbox[-1])[:120])
            if v.ws is not None:
                try:
                    v.ws.close()
                except (OSError, websocket.WebSocketException):
                    pass
        self.viewers = []
        return url


URLS, PAGE = [], []


def browser(url, *a, **k):
    URLS.append(url)
    PAGE[0].opened(url)
    return True


def listens(url):
    u = urllib.parse.urlparse(url)
    with socket.socket() as s:
        s.settimeout(2)
        return s.connect_ex((u.hostname, u.port)) == 0


def main():
    webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = browser
    import gym_anm
    from gym_anm.envs import ANM6Easy

    folder = os.path.join(os.path.dirname(gym_anm.__file__), "envs", "anm6_env", "rendering")
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    known = set()
    for hist in sys.argv[1:]:
        problems, n = [], 0
        try:
            known.clear()
            ss = [Session(ANM6Easy, folder, problems, known) for _ in range(1 + ("2" in hist))]
            cur = 0
            for op in hist:
                s = ss[cur]
                if op == "2":
                    cur = 1 - cur
                elif op == "c":
                    url = s.close()
                    end = time.time() + LIMIT
                    while url and listens(url) and time.time() < end:
                        time.sleep(0.02)
                    if url and listens(url):
                        problems.append("the page is still served after close()")
                elif op == "v":
                    s.join()
                elif op == "q":
                    s.leave()
                else:
                    if op in "ud":
                        s.env.step(UP if op == "u" else DOWN)
                    elif op == "R":
                        s.env.reset(seed=7)
                    s.render()
                n += 1
                if problems:
                    break
            for s in ss:
                s.close()
            end = time.time() + LIMIT
            while multiprocessing.active_children() and time.time() < end:
                time.sleep(0.01)
            if multiprocessing.active_children():
                problems.append("processes are left running after close()")
        except Exception as e:  # noqa: BLE001
            import traceback

            problems.append("unexpected %r: %s" % (e, traceback.format_exc()[-700:]))
        for c in multiprocessing.active_children():
            c.kill()
            c.join()
        real.write(json.dumps({"history": hist, "problems": problems, "operations": n}) + "\n")
        real.flush()
        if problems:
            break


if __name__ == "__main__":
    main()
