"""Clock and console seams."""
import datetime as _dt
import errno
import io
import os
import sys
import time

_CLOCKS = ("time", "perf_counter", "monotonic", "process_time", "thread_time")
CLOCK_MODES = ["real", "still", "forward", "backward", "random", "huge-jumps", "zero", "far-future"]


class Clock:
    """All clocks of the time module, read from a script decided by (mode, seed)."""

    def __init__(self, mode, seed=0):
        self.mode, self.reads = mode, 0
        import random
        self.rng = random.Random(seed)
        self.now = {"zero": 0.0, "far-future": 4e10}.get(mode, 1.7e9)
        self.span = 0.0

    def tick(self):
        self.reads += 1
        m, r = self.mode, self.rng
        step = {"real": 1e-3, "still": 0.0, "zero": 0.0, "forward": r.choice([0.0, 1e-6, 0.5, 86400.0]), "backward": -r.choice([0.0, 1e-6, 1.0, 3600.0]),
                "random": r.uniform(-10, 10), "huge-jumps": r.choice([-1e8, 1e8, 0.0]), "far-future": 1.0}[m]
        self.now += step
        self.span += abs(step)
        return self.now

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in _CLOCKS}
        self.old_ns = {n: getattr(time, n + "_ns") for n in _CLOCKS}
        if self.mode != "real":
            for n in _CLOCKS:
                setattr(time, n, self.tick)
                setattr(time, n + "_ns", lambda: int(self.tick() * 1e9))
        self.old_sleep = time.sleep
        time.sleep = lambda s: setattr(self, "now", self.now + s)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        for n, f in self.old_ns.items():
            setattr(time, n + "_ns", f)
        time.sleep = self.old_sleep


class Console(io.TextIOBase):
    """A console that records what is written and fails as scripted: mode, and the number of the first failing write."""

    MODES = ["ok", "closed", "epipe", "enospc", "ascii", "eio", "ebadf", "flush", "interrupt"]
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, mode="ok", first=0):
        self.mode, self.first, self.n, self.text, self.failed = mode, first, 0, [], 0
        if mode == "ascii":
            self.encoding = "ascii"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def _fail(self):
        self.failed += 1
        m = self.mode
        if m == "closed":
            raise ValueError("I/O operation on closed file.")
        if m == "interrupt":
            raise KeyboardInterrupt
        no = {"epipe": errno.EPIPE, "enospc": errno.ENOSPC, "eio": errno.EIO, "ebadf": errno.EBADF}[m]
        raise OSError(no, os.strerror(no))

    def write(self, s):
        self.n += 1
        self.text.append(s)
        if self.mode in ("ok", "flush"):
            return len(s)
        if self.mode == "ascii":
            try:
                s.encode("ascii")
            except UnicodeEncodeError:
                self.failed += 1
                raise
            return len(s)
        if self.n > self.first:
            self._fail()
        return len(s)

    def flush(self):
        if self.mode == "flush" and self.n > self.first:
            self.failed += 1
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    @property
    def written(self):
        return "".join(self.text)


class Consoles:
    """sys.stdout and sys.stderr replaced"""

    def __init__(self, out, err=None):
        self.out, self.err = out, err

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = self.out
        if self.err is not None:
            sys.stderr = self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old
