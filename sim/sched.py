"""Deterministic thread scheduler: real threads, exactly one runs at a time, the simulator decides which.

Threads may be switched at *points*: source lines (or bytecodes) of the library under test, seen through sys.settrace, and
simulated file operations. The schedule is an explicit list of [gap, pick] pairs: after `gap` points, switch to the pick-th
of the other runnable threads. When the list is exhausted threads run to completion in order.
"""
import os
import sys
import threading
import _thread

from . import core

_alloc = _thread.allocate_lock
_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = {}  # real thread id -> SimThread


class Killed(BaseException):
    pass


class SimThread:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = _alloc()
        self.sem.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.blocked_on = None


class Sched:
    def __init__(self, ctx, switches=(), prefixes=(), grain="line", max_points=8_000_000, real_timeout=60.0, start=0):
        self.ctx = ctx
        self.switches = [tuple(s) for s in switches]
        self.si = 0
        self.countdown = self.switches[0][0] if self.switches else None
        self.prefixes = tuple(prefixes)
        self.grain = grain
        self.points = 0
        self.max_points = max_points
        self.real_timeout = real_timeout
        self.threads = []
        self.current = None
        self.n_switch = 0
        self.finished = _alloc()
        self.finished.acquire()
        self.abort = None
        self.start = start
        self._cache = {}
        self.where = {}

    # ------------------------------------------------------------------ running
    def run(self, fns):
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        ths = []
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        first = self.threads[self.start % len(self.threads)]
        self.current = first
        first.sem.release()
        ok = self.finished.acquire(timeout=self.real_timeout)
        if not ok:
            self.abort = "stuck"
            raise core.Stuck(f"threads blocked outside the simulator's control; last seen at {self.where}")
        for th in ths:
            th.join(timeout=5)
        self.ctx.steps += self.points
        self.ctx.probe("thread-switches", self.n_switch)
        if self.abort == "deadlock":
            raise core.Violation("deadlock", f"all threads wait for locks: {[(t.idx, str(t.blocked_on)) for t in self.threads if not t.done]}")
        if self.abort:
            raise core.Stuck(self.abort)
        return self.threads

    def _body(self, t):
        t.sem.acquire()
        ident = _thread.get_ident()
        _current[ident] = (self, t)
        try:
            if self.abort:
                raise Killed()
            if self.prefixes:
                sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            _current.pop(ident, None)
            t.done = True
            self.ctx.ev("end", t.idx)
            nxt = self._runnable(None)
            if nxt:
                self.current = nxt[0]
                nxt[0].sem.release()
            elif any(not x.done for x in self.threads):
                if not self.abort:
                    self.abort = "deadlock"
                for x in self.threads:  # release everybody: they see abort and end
                    if not x.done:
                        x.blocked_on = None
                        self.current = x
                        x.sem.release()
                        break
            else:
                self.finished.release()

    def _runnable(self, me):
        return [x for x in self.threads if not x.done and x is not me and x.blocked_on is None]

    # ------------------------------------------------------------------ points
    def _trace(self, frame, event, arg):
        code = frame.f_code
        ok = self._cache.get(code)
        if ok is None:
            fn = code.co_filename
            ok = fn.startswith(self.prefixes) and code.co_name not in ("<module>",) and not _class_body(code)
            self._cache[code] = ok
        if not ok:
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self._local

    def point(self, frame=None):
        """Called by the running thread."""
        if self.abort:
            raise Killed()
        self.points += 1
        if self.points > self.max_points:
            self.abort = "too many steps"
            raise Killed()
        if self.countdown is None:
            return
        if self.countdown > 0:
            self.countdown -= 1
            return
        _, pick = self.switches[self.si]
        self.si += 1
        self.countdown = self.switches[self.si][0] if self.si < len(self.switches) else None
        me = self.current
        others = self._runnable(me)
        if not others:
            return
        nxt = others[pick % len(others)]
        self._switch(me, nxt, frame)

    def _switch(self, me, nxt, frame=None):
        self.n_switch += 1
        if frame is not None and not isinstance(frame, str):
            w = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno}"
        else:
            w = str(frame)
        self.where[me.idx] = w
        self.ctx.ev("switch", me.idx, nxt.idx, w)
        self.ctx.state(("switch", me.idx, nxt.idx, w, tuple(sorted(self.where.items()))))
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()
        if self.abort:
            raise Killed()

    def block(self, lock):
        """The running thread cannot get a simulated lock: let another thread run."""
        if self.abort:
            raise Killed()
        me = self.current
        me.blocked_on = lock
        others = self._runnable(me)
        if not others:
            self.abort = "deadlock"
            raise Killed()
        self._switch(me, others[0], "lock")

    def unblock(self, lock):
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None


def _class_body(code):
    # class bodies have neither arguments nor the OPTIMIZED flag; functions always have it
    return not (code.co_flags & 0x1)


def yield_point(label="fs"):
    """Switch point for simulated devices; no effect outside simulated threads."""
    c = _current.get(_thread.get_ident())
    if c:
        c[0].point(label)


def current_thread():
    c = _current.get(_thread.get_ident())
    return c[1] if c else None


class SimLock:
    """Wraps a real lock; in simulated threads contention yields to the scheduler instead of blocking."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        c = _current.get(_thread.get_ident())
        if c is None:
            return self._real.acquire(blocking, timeout)
        sch = c[0]
        while True:
            if self._real.acquire(False):
                return True
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                sch.ctx.probe("lock-timeout")
                return False
            sch.block(self)

    __enter__ = acquire

    def release(self):
        self._real.release()
        c = _current.get(_thread.get_ident())
        if c is not None:
            c[0].unblock(self)

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(object.__getattribute__(self, "_real"), n)


class SimLocks:
    """While active, locks created by threading.Lock()/RLock() are simulated ones."""

    def __enter__(self):
        threading.Lock = lambda: SimLock(_RealLock())
        threading.RLock = lambda *a: SimLock(_RealRLock())
        return self

    def __exit__(self, *a):
        threading.Lock = _RealLock
        threading.RLock = _RealRLock
        return False


def gen_switches(rng, n_max=60, mean=None):
    mean = mean or rng.choice([1, 2, 5, 10, 30, 100, 400])
    return [[int(rng.expovariate(1.0 / mean)), rng.randint(0, 2)] for _ in range(rng.randint(1, n_max))]
