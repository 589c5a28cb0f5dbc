"""Seeded cooperative scheduler over real threads.

Exactly one simulated thread runs at a time.  It can lose the processor at every traced line (or bytecode
instruction) of the package under test, at every simulated I/O operation and at every lock operation.  Which
thread runs next is decided by a seeded policy, or by an explicit list of switches when a run is replayed.
"""
import random
import sys
import threading
import _thread

from .world import PKG, REAL_LOCK, REAL_RLOCK, Violation

MAX_STEPS = 4_000_000


class SchedAbort(BaseException):
    """The run is over; unwind this thread."""


class SimLock:
    """Non-reentrant lock known to the scheduler."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        s = Sched.current
        t = s.me() if s is not None else None
        return ("sim", t) if t is not None else ("os", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = self._me()
        sim = me[0] == "sim"
        if sim:
            s.point()
        if self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if not sim:
                raise RuntimeError("lock contended outside the simulation")
            tries = 0
            while self.owner is not None and not (self.reentrant and self.owner == me):
                if timeout is not None and timeout >= 0:
                    tries += 1
                    if tries > 50:
                        return False
                    s.switch_any()
                else:
                    s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = Sched.current
            if s is not None:
                s.wake(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._me()


class Sched:
    current = None

    def __init__(self, plan):
        """plan: {"seed":, "pol": rand|pct|rr|fresh|stall, "p":, "k":, "d":, "gran": line|op} or {"list": [[step, tid]..]}"""
        self.plan = plan
        self.gran = plan.get("gran") or "line"
        self.step = 0
        self.record = []
        self.switches = 0
        self.threads = []
        self.done = []
        self.blocked = {}
        self.cur = None
        self.aborting = None
        self.ident = {}
        self.main_wake = _thread.allocate_lock()
        self.main_wake.acquire()
        self._files = {}
        self.lines = set()
        self.inter = set()          # (line where a thread was preempted, line where the next one resumed)
        self.list = plan.get("list")
        self.li = 0
        if self.list is None:
            self.rng = random.Random(plan["seed"])
            self.pol = plan.get("pol", "rand")
            self.p = plan.get("p", 0.05)
            if self.pol == "pct":
                k = plan.get("k", 3000)
                self.points = sorted(self.rng.randrange(1, k) for _ in range(plan.get("d", 3)))
            elif self.pol == "rr":
                self.next = plan.get("q", 50)
            else:
                self.next = self._gap()
        self.last = {}
        self.stalled = {}           # thread -> step before which it is not chosen while another one can run

    def _gap(self):
        # geometric distribution with success probability p
        import math
        u = self.rng.random()
        return 1 + int(math.log(1.0 - u) / math.log(1.0 - self.p)) if self.p < 1 else 1

    # ------------------------------------------------------------------ identity
    def me(self):
        return self.ident.get(_thread.get_ident())

    # ------------------------------------------------------------------ tracing
    def _want(self, fn):
        r = self._files.get(fn)
        if r is None:
            r = self._files[fn] = fn.startswith(PKG)
        return r

    def _glob(self, frame, event, arg):
        if not self._want(frame.f_code.co_filename):
            return None
        if self.gran == "op":
            frame.f_trace_opcodes = True
        return self._loc

    def _loc(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.gran == "op" and event == "line":
                return self._loc
            self.where = (frame.f_code.co_filename, frame.f_lineno)
            self.point()
        return self._loc

    where = None

    # ------------------------------------------------------------------ switch points
    def io_point(self):
        if self.me() is not None:
            self.where = ("io", 0)
            self.point()

    def point(self):
        t = self.me()
        if t is None:
            return
        if self.aborting:
            raise SchedAbort()
        self.step += 1
        if self.step > MAX_STEPS:
            self.abort(Violation("no-progress", "more than %d steps" % MAX_STEPS))
            raise SchedAbort()
        if self.list is not None:
            n = self.list
            while self.li < len(n) and n[self.li][0] < self.step:
                self.li += 1
            if self.li < len(n) and n[self.li][0] == self.step:
                to = n[self.li][1]
                self.li += 1
                if to != t and self.runnable(to):
                    self.go(t, to)
            return
        sw = False
        if self.pol == "pct":
            while self.points and self.points[0] <= self.step:
                self.points.pop(0)
                sw = True
        elif self.pol == "stall":
            # a place seen for the first time: with some probability this thread stops here for a long while
            key = self.where if not self.where or self.where[0] != "io" else ("io", t, self.step)
            if self.stalled.get(t, 0) > self.step:
                sw = True
            elif key not in self.lines:
                self.lines.add(key)
                if self.rng.random() < (self.plan.get("pio") if key and key[0] == "io" else self.p):
                    self.stalled[t] = self.step + self.rng.choice([30, 300, 3000, 10 ** 9])
                    sw = True
        elif self.pol == "fresh":
            key = self.where
            if key not in self.lines:
                self.lines.add(key)
                sw = self.rng.random() < 0.5
            else:
                self.next -= 1
                if self.next <= 0:
                    self.next = self._gap()
                    sw = True
        else:
            self.next -= 1
            if self.next <= 0:
                self.next = self.plan.get("q", 50) if self.pol == "rr" else self._gap()
                sw = True
        if sw:
            to = self.pick(t)
            if to is not None:
                self.go(t, to)

    def runnable(self, t):
        return 0 <= t < len(self.threads) and not self.done[t] and t not in self.blocked

    def pick(self, t, exclude=True):
        c = [i for i in range(len(self.threads)) if self.runnable(i) and not (exclude and i == t)]
        if not c:
            return None
        if self.list is not None:
            # forced switch: use the recorded choice for this step if there is one
            n = self.list
            while self.li < len(n) and n[self.li][0] < self.step:
                self.li += 1
            if self.li < len(n) and n[self.li][0] == self.step and n[self.li][1] in c:
                to = n[self.li][1]
                self.li += 1
                return to
            return c[0]
        if self.stalled:
            awake = [i for i in c if self.stalled.get(i, 0) <= self.step]
            if not awake and exclude and self.runnable(t):
                return None
            c = awake or c
        if self.pol == "rr":
            later = [i for i in c if i > t]
            return (later or c)[0]
        return self.rng.choice(c)

    def go(self, t, to):
        """Hand the processor from t to `to` and wait for it to come back."""
        self.record.append([self.step, to])
        self.switches += 1
        self.inter.add((self.where, self.last.get(to)))
        self.last[t] = self.where
        self.cur = to
        self.threads[to][1].release()
        self.threads[t][1].acquire()
        if self.aborting:
            raise SchedAbort()

    def switch_any(self):
        t = self.me()
        self.step += 1
        self.stalled.clear()
        to = self.pick(t)
        if to is not None:
            self.go(t, to)

    # ------------------------------------------------------------------ locks
    def block(self, lock):
        t = self.me()
        self.blocked[t] = lock
        self.step += 1
        to = self.pick(t)
        if to is None:
            self.abort(Violation("deadlock", "all threads are blocked: %s" % sorted(self.blocked)))
            raise SchedAbort()
        self.go(t, to)

    def wake(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    def abort(self, v):
        if self.aborting is None:
            self.aborting = v

    # ------------------------------------------------------------------ running
    def run(self, bodies):
        """Run the bodies to completion. Returns a list of (value, exception)."""
        n = len(bodies)
        res = [None] * n
        self.done = [False] * n
        self.threads = []

        def make(i, fn):
            sem = _thread.allocate_lock()
            sem.acquire()

            def body():
                sem.acquire()
                self.ident[_thread.get_ident()] = i
                try:
                    if self.aborting:
                        return
                    sys.settrace(self._glob)
                    try:
                        res[i] = (fn(), None)
                    finally:
                        sys.settrace(None)
                except SchedAbort:
                    res[i] = (None, None)
                except BaseException as e:
                    res[i] = (None, e)
                finally:
                    sys.settrace(None)
                    self.done[i] = True
                    del self.ident[_thread.get_ident()]
                    self.finish(i)
            th = threading.Thread(target=body, daemon=True)
            return [th, sem]
        for i, fn in enumerate(bodies):
            self.threads.append(make(i, fn))
        Sched.current = self
        try:
            for th, sem in self.threads:
                th.start()
            self.cur = 0
            first = self.pick(-1, False)
            self.record.append([0, first])
            with patched_locks():
                self.threads[first][1].release()
                self.main_wake.acquire()
            for th, sem in self.threads:
                th.join(5)
        finally:
            Sched.current = None
        if isinstance(self.aborting, Violation):
            raise self.aborting
        return res

    def finish(self, i):
        self.step += 1
        if self.aborting:
            for k, (th, sem) in enumerate(self.threads):
                if not self.done[k]:
                    self.blocked.pop(k, None)
                    sem.release()
                    return
            self.main_wake.release()
            return
        to = self.pick(i)
        if to is None:
            if all(self.done):
                self.main_wake.release()
                return
            self.abort(Violation("deadlock", "threads blocked for ever: %s" % sorted(self.blocked)))
            for k, (th, sem) in enumerate(self.threads):
                if not self.done[k]:
                    sem.release()
                    return
            return
        self.record.append([self.step, to])
        self.cur = to
        self.threads[to][1].release()


class patched_locks:
    """Locks created by the package while this is active are simulation locks."""

    def __enter__(self):
        threading.Lock = SimLock
        threading.RLock = SimRLock
        return self

    def __exit__(self, *a):
        threading.Lock = REAL_LOCK
        threading.RLock = REAL_RLOCK
        return False


class real_locks:
    """The simulator's own threads are built with real locks."""

    def __enter__(self):
        self.was = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.was
        return False


def policies(r):
    x = r.random()
    gran = "op" if r.random() < 0.3 else "line"
    s = {"seed": r.getrandbits(48), "gran": gran}
    if x < 0.3:
        s.update(pol="stall", p=r.choice([0.001, 0.005, 0.02, 0.1]), pio=r.choice([0.02, 0.1, 0.4]))
    elif x < 0.5:
        s.update(pol="rand", p=r.choice([0.5, 0.2, 0.05, 0.01, 0.003]))
    elif x < 0.7:
        s.update(pol="pct", d=r.choice([1, 2, 3, 5, 8]), k=r.choice([100, 400, 1500, 6000, 25000]))
    elif x < 0.77:
        s.update(pol="rr", q=r.choice([1, 3, 10, 50, 300]))
    else:
        s.update(pol="fresh", p=r.choice([0.001, 0.01, 0.05]))
    return s
