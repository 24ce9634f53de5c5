"""Line-level fault injection and the cooperative thread scheduler."""
from __future__ import annotations

import ast
import queue
import sys
import threading
from time import sleep as _sleep

from .core import HarnessError, Violation
from .seams import Seam, make_fault
from .world import REPO, _real_lock, _real_rlock

_PFX = REPO.rstrip("/") + "/"


_cleanup: dict = {}


def cleanup_lines(path):
    """Lines where no exception is injected: the headers of with and try
    statements (the interpreter leaves a window there no program can close) and
    the bodies of handlers and finally blocks."""
    if path not in _cleanup:
        bad = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.update(range(n.lineno, n.body[0].lineno))
                bad.add(n.lineno)
            elif isinstance(n, ast.Try):
                bad.add(n.lineno)
                for h in n.handlers:
                    bad.update(range(h.lineno, h.end_lineno + 1))
                for st in n.finalbody:
                    bad.update(range(st.lineno, st.end_lineno + 1))
        _cleanup[path] = bad
    return _cleanup[path]


def in_cleanup():
    """Whether a library frame on this thread's stack is at such a line."""
    fr = sys._getframe(1)
    while fr is not None:
        path = fr.f_code.co_filename
        if path.startswith(_PFX) and fr.f_lineno in cleanup_lines(path):
            return True
        fr = fr.f_back
    return False


class LineTracer:
    """Counts source-line events of the library; may raise at the k-th."""

    def __init__(self, ctx=None, fault=None, on_line=None):
        self.ctx = ctx
        self.fault = fault
        self.on_line = on_line
        self.n = 0
        self.fired = False

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if (self.fault is not None and not self.fired and self.n >= self.fault[1]
                    and frame.f_lineno not in cleanup_lines(frame.f_code.co_filename) and not in_cleanup()):
                self.fired = True
                self.ctx.faults[self.fault[0] + "@line"] += 1
                raise make_fault(self.fault[0])
            if self.on_line is not None:
                self.on_line()
        return self._local

    def _global(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(_PFX):
            return self._local
        return None

    def __enter__(self):
        self.saved = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.saved)


class _Abort(BaseException):
    """Unwinds a simulated thread when the run is over."""


class Sched:
    """Real threads, one running at a time; who runs is decided here.

    decisions: explicit list of [step, tid] (replay), or None with rng/policy.
    policy: ("rand", p) switch with probability p at every point;
            ("pct", [steps]) switch only at the given steps;
            ("stall", [p, tid, step]) as rand, but thread tid stands still from
            that step until no other thread can run.
    """

    MAX_STEPS = 400_000

    def __init__(self, ctx, rng=None, policy=None, decisions=None):
        self.ctx = ctx
        self.rng = rng
        self.policy = policy
        self.explicit = {int(s): int(t) for s, t in decisions} if decisions is not None else None
        self.trace: list[list[int]] = []       # switches that happened
        self.step = 0
        self.cur = -1
        self.n = 0
        self.state: list[str] = []
        self.sems = []
        self.ident = {}
        self.error = None
        self.abort = False
        self.results = []
        self.done = threading.Event()

    # -- decisions
    def _runnable(self):
        return [i for i, s in enumerate(self.state) if s == "run"]

    def _choose(self, must: bool):
        """Next thread; `must`: the current one cannot go on."""
        cand = self._runnable()
        if must:
            cand = [c for c in cand if c != self.cur]
            if not cand:
                return None
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t is not None and t in cand:
                return t
            return cand[0] if must else self.cur
        if must:
            return cand[self.rng.randrange(len(cand))]
        kind, arg = self.policy
        if kind == "stall":
            p, tid, frm = arg
            if self.step >= frm and len(cand) > 1 and tid in cand:
                cand = [c for c in cand if c != tid]
                if self.cur == tid:
                    self.ctx.faults["stalled_thread"] += 1
                    return cand[self.rng.randrange(len(cand))]
            if self.rng.random() >= p:
                return self.cur
        elif kind == "rand":
            if self.rng.random() >= arg:
                return self.cur
        elif self.step not in arg:
            return self.cur
        return cand[self.rng.randrange(len(cand))]

    def point(self):
        """Called by the running thread at every yield point."""
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        if self.abort:
            raise _Abort()
        self.step += 1
        if self.step > self.MAX_STEPS:
            self._fail(Violation("no-progress", f"{self.step} steps without finishing"))
            raise _Abort()
        t = self._choose(False)
        if t != me:
            self._switch(me, t)

    def _switch(self, me, t):
        self.trace.append([self.step, t])
        self.cur = t
        self.sems[t].release()
        self._park(me)

    def _park(self, me):
        if not self.sems[me].acquire(timeout=120):
            self._fail(HarnessError("scheduler: thread never resumed"))
        if self.abort:
            raise _Abort()

    def _fail(self, e):
        if self.error is None:
            self.error = e
        self.abort = True
        for s in self.sems:
            s.release()
        self.done.set()

    # -- blocking (locks created by the library)
    def block(self, waiting_for):
        me = self.ident.get(threading.get_ident())
        if me is None:
            raise HarnessError("lock blocks outside the scheduler")
        self.state[me] = "block"
        self.step += 1
        t = self._choose(True)
        if t is None:
            self._fail(Violation("deadlock", "every thread waits for a lock"))
            raise _Abort()
        self.trace.append([self.step, t])
        self.cur = t
        self.sems[t].release()
        self._park(me)

    def wake_blocked(self):
        for i, s in enumerate(self.state):
            if s == "block":
                self.state[i] = "run"

    # -- running
    def _body(self, i, fn, seam_kw):
        self.ident[threading.get_ident()] = i
        try:
            self._park(i)
            kw = dict(seam_kw[i] if isinstance(seam_kw, list) else seam_kw)
            line_fault = kw.pop("line_fault", None)
            seam = Seam(self.ctx, on_op=self.point, **kw)
            tr = LineTracer(self.ctx, fault=line_fault, on_line=self.point)
            with seam, tr:
                self.results[i] = ("ok", fn())
        except _Abort:
            self.results[i] = ("abort", None)
        except BaseException as e:
            self.results[i] = ("exc", e)
        finally:
            self.state[i] = "done"
            self.ident.pop(threading.get_ident(), None)
            if not self.abort:
                self.step += 1
                t = self._choose(True)
                if t is not None:
                    self.trace.append([self.step, t])
                    self.cur = t
                    self.sems[t].release()
                elif any(s == "block" for s in self.state):
                    self._fail(Violation("deadlock", "a thread waits for a lock nobody holds"))
                else:
                    self.done.set()

    def run(self, fns, seam_kw=None):
        self.n = len(fns)
        self.state = ["run"] * self.n
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.results = [None] * self.n
        ths = [threading.Thread(target=self._body, args=(i, f, seam_kw or {}), daemon=True)
               for i, f in enumerate(fns)]
        with LockPatch(self):
            for t in ths:
                t.start()
            if self.explicit is not None:
                first = self.explicit.get(0, 0)
            else:
                first = self.rng.randrange(self.n)
            self.trace.append([0, first])
            self.cur = first
            self.sems[first].release()
            if not self.done.wait(timeout=300):
                self._fail(HarnessError("scheduler: run did not finish"))
            for t in ths:
                t.join(timeout=10)
        self.ctx.steps += self.step
        self.ctx.sched_traces.append(self.trace)
        self.ctx.state(str(self.trace))
        if self.error is not None:
            raise self.error
        return self.results


# ---------------------------------------------------------------------- locks


class SimLock:
    """Stands in for a lock created by library code."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if not self._free(me) and not (blocking and _wait(lambda: self._free(me), None if timeout is None or timeout < 0 else timeout)):
            return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.count = 0
            self.owner = None
            _wake()

    def locked(self):
        return self.owner is not None

    # what threading.Condition asks of its lock
    def _is_owned(self):
        return self.owner == threading.get_ident() or (not self.reentrant and self.owner is not None)

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        _wake()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class SimCondition:
    """Stands in for a condition created by library code (events, semaphores,
    barriers and queues are made of these)."""

    def __init__(self, lock=None):
        self._lock = SimLock(True) if lock is None else lock
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *exc):
        return self._lock.__exit__(*exc)

    def _is_owned(self):
        return self._lock._is_owned()

    def wait(self, timeout=None):
        if not self._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        token = [False]
        self._waiters.append(token)
        saved = self._lock._release_save()
        try:
            return _wait(lambda: token[0], timeout)
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            self._lock._acquire_restore(saved)

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for t in self._waiters[:n]:
            t[0] = True
        del self._waiters[:n]
        _wake()

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


def _wake():
    if _current[0] is not None:
        _current[0].wake_blocked()


def _wait(ready, timeout):
    """Until `ready()`; with a timeout, which passes when nothing else runs."""
    s = _current[0]
    tries = 0
    while not ready():
        if s is None or threading.get_ident() not in s.ident:
            if timeout is not None:
                return False
            if threading.active_count() > 1 and tries < 2000:   # threads the library started itself
                tries += 1
                _sleep(0.005)
                continue
            raise Violation("deadlock", "a call waits for a lock or condition that an earlier call left behind, and nothing else runs")
        if timeout is not None:
            tries += 1
            if tries > 200 or len(s._runnable()) < 2:
                return False
            s.point()
        else:
            s.block(None)
    return True


_current = [None]


class LockPatch:
    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        _current[0] = self.sched

    def __exit__(self, *exc):
        _current[0] = None


def _by_library():
    """Whether the caller's caller is library code, directly or through an
    event, semaphore, barrier or queue it creates."""
    fr = sys._getframe(2)
    while fr is not None and fr.f_code.co_filename in (threading.__file__, queue.__file__):
        if isinstance(fr.f_locals.get("self"), threading.Thread):
            return False
        fr = fr.f_back
    return fr is not None and fr.f_code.co_filename.startswith(_PFX)


def _factory(real, reentrant):
    def make(*a, **k):
        return SimLock(reentrant) if _by_library() else real(*a, **k)
    return make


class _Condition(threading.Condition):
    def __new__(cls, lock=None):
        if cls is _Condition and (isinstance(lock, SimLock) or lock is None and _by_library()):
            return SimCondition(lock)
        return super().__new__(cls)


threading.Lock = _factory(_real_lock, False)
threading.RLock = _factory(_real_rlock, True)
threading.Condition = _Condition
