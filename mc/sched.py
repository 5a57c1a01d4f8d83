"""Controlled scheduler: runs real threads one at a time, with a scheduling decision at every line of the traced source files,
and explores all schedules within a preemption bound (stateless, by re-execution)."""
import _thread
import sys
import threading

ACTIVE = None
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock


class Aborted(BaseException):
    pass


class Deadlock(Exception):
    pass


class SchedLock:
    """Stands in for threading.Lock / RLock in the code under test."""

    def __init__(self, recursive=False):
        self.recursive, self.owner, self.count = recursive, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.current if s else "main"
        if s:
            s.point()
        while self.owner is not None and not (self.recursive and self.owner == me):
            if not blocking or s is None:
                return False
            s.block(self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if ACTIVE:
                ACTIVE.unblock(self)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == (ACTIVE.current if ACTIVE else "main")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def lock_factories():
    return (lambda: SchedLock(False)), (lambda *a, **k: SchedLock(True))


class patched_locks:
    """While active, locks created by the code under test are controlled by the scheduler."""

    def __enter__(self):
        threading.Lock, threading.RLock = lock_factories()

    def __exit__(self, *a):
        threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK


class Run:
    """One execution under a fixed prefix of decisions."""

    def __init__(self, fns, prefix, files, bound):
        self.n = len(fns)
        self.fns = fns
        self.prefix = prefix
        self.files = files
        self.bound = bound
        self.decisions = []     # (enabled list with default first, chosen index, preemptions used before)
        self.preemptions = 0
        self.current = None
        self.sem = [_thread.allocate_lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.done_sem = _thread.allocate_lock()
        self.done_sem.acquire()
        self.alive = set(range(self.n))
        self.waiting = {}       # thread -> lock
        self.errors = {}
        self.dead = False
        self.started = [False] * self.n

    # -- called by the running thread ---------------------------------------------------------------
    def enabled(self):
        return [t for t in sorted(self.alive) if t not in self.waiting]

    def pick(self, me, preemptive):
        en = self.enabled()
        if not en:
            return None
        if me in en:
            order = [me] + [t for t in en if t != me]
        else:
            order = en
            preemptive = False
        if preemptive and self.preemptions >= self.bound:
            return order[0]
        if len(order) == 1:
            return order[0]
        k = len(self.decisions)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.decisions.append((len(order), c))
        if preemptive and c:
            self.preemptions += 1
        return order[c]

    def switch(self, nxt):
        me = self.current
        if nxt == me:
            return
        self.current = nxt
        self.sem[nxt].release()
        if me is not None:
            self.sem[me].acquire()
            if self.dead:
                raise Aborted()

    def point(self):
        me = self.current
        self.switch(self.pick(me, True))

    def block(self, lock):
        me = self.current
        self.waiting[me] = lock
        nxt = self.pick(me, False)
        if nxt is None:
            self.errors[me] = Deadlock("all threads are blocked")
            self.dead = True
            raise Aborted()
        self.switch(nxt)

    def unblock(self, lock):
        for t in [t for t, k in self.waiting.items() if k is lock]:
            del self.waiting[t]

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def body(self, t):
        self.sem[t].acquire()
        try:
            if not self.dead:
                sys.settrace(self.tracer)
                self.fns[t]()
        except Aborted:
            pass
        except BaseException as e:  # noqa: B902
            self.errors[t] = e
        finally:
            sys.settrace(None)
            self.alive.discard(t)
            last = not self.alive  # decided before another thread may run
            if self.dead:
                rest = [x for x in self.alive]
            else:
                rest = []
                if self.alive:
                    nxt = self.pick(t, False)
                    if nxt is None:
                        self.errors[t] = Deadlock("all threads are blocked")
                        self.dead = True
                        rest = list(self.alive)
                    else:
                        self.current = nxt
                        self.sem[nxt].release()
            if rest:
                self.current = rest[0]
                self.sem[rest[0]].release()
            if last:
                self.done_sem.release()

    def execute(self):
        global ACTIVE
        ACTIVE = self
        for t in range(self.n):
            _thread.start_new_thread(self.body, (t,))
        first = self.pick(None, False)
        self.current = first
        self.sem[first].release()
        self.done_sem.acquire()
        ACTIVE = None
        return self


def explore(make, files, bound, limit=None):
    """make() -> list of thread functions (with fresh state). Yields each completed Run; DFS over all decisions."""
    prefix = []
    n = 0
    while True:
        run = Run(make(), prefix, files, bound).execute()
        yield run
        n += 1
        d = run.decisions
        k = len(d) - 1
        while k >= 0 and d[k][1] + 1 >= d[k][0]:
            k -= 1
        if k < 0:
            return
        prefix = [c for _, c in d[:k]] + [d[k][1] + 1]
        if limit and n >= limit:
            raise RuntimeError("exploration limit reached")
