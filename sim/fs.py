"""Simulated file system: real files under a scratch root, every operation a numbered point.

While installed, every way Python code has to touch files (open, os.*, pathlib, tempfile, glob, shutil, os.system,
subprocess) passes through here when the path lies under the root. Each operation is a *point*: the fault plan may turn it
into an error, a crash of the simulated process, or a short/torn transfer; the scheduler may switch threads there.
Operations on paths outside the root are passed through unless `strict`, in which case mutating ones are recorded as escapes
and refused.
"""
import builtins
import errno
import io
import os
import subprocess
import fnmatch
import shlex

_real = {}
_OS_NAMES = ["open", "stat", "lstat", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "listdir", "scandir",
             "chdir", "system", "popen", "fsync", "truncate", "link", "symlink", "utime", "chmod", "access", "makedirs", "getpid",
             "close", "write", "read", "getcwd", "fdopen"]


class SimCrash(BaseException):
    """The simulated process is killed here."""


class Plan:
    """Decides what happens at each point. Faults: list of dicts
    {"at": n, "kind": "crash"|"error"|"torn"|"short", "errno": "ENOSPC", "k": bytes, "op": optional filter}
    `at` counts points (optionally only those matching op prefix), 0-based."""

    def __init__(self, faults=(), persistent=()):
        self.faults = [dict(f, n=0) for f in faults]
        self.persistent = list(persistent)  # [{"op": "write", "errno": "ENOSPC"}] every matching op fails

    def decide(self, op):
        for f in self.faults:
            if f.get("done"):
                continue
            flt = f.get("op")
            if flt and not op.startswith(flt):
                continue
            if f["n"] == f["at"]:
                f["done"] = True
                return f
            f["n"] += 1
        for p in self.persistent:
            if op.startswith(p["op"]):
                return {"kind": "error", "errno": p["errno"], "persistent": True}
        return None


class Proc:
    """One incarnation of a simulated process."""

    def __init__(self, pid):
        self.pid = pid
        self.dead = False
        self.fds = set()


class FS:
    def __init__(self, root, ctx, plan=None, bufsize=64, strict=True, yield_cb=None):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.plan = plan or Plan()
        self.bufsize = bufsize
        self.strict = strict
        self.yield_cb = yield_cb
        self.proc_of = lambda: self.proc
        self.proc = Proc(1000)
        self.names = {}
        self.points = 0
        self.open_files = set()
        self.escapes = []
        self.fired = []
        self.quiet = 0
        self.commands = []
        self.op_count = {}
        self.simfds = {}

    # ---- path handling
    def inside(self, path):
        if isinstance(path, int):
            return path in self.simfds
        try:
            p = os.fsdecode(path)
        except TypeError:
            return False
        p = os.path.join(_real["getcwd"](), p)
        p = os.path.normpath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def name(self, path):
        p = os.path.normpath(os.path.join(_real["getcwd"](), os.fsdecode(path)))
        return self.names.setdefault(p, f"p{len(self.names)}")

    # ---- points
    def point(self, op, path=None):
        """Returns a fault dict the caller must honour (torn/short) or None."""
        if self.quiet:
            return None
        proc = self.proc_of()
        if proc.dead:
            raise SimCrash()
        if self.yield_cb:
            self.yield_cb(op)
        self.points += 1
        self.op_count[op] = self.op_count.get(op, 0) + 1
        self.ctx.steps += 1
        f = self.plan.decide(op)
        self.ctx.ev("fs", op, self.name(path) if path is not None and not isinstance(path, int) else None,
                    f["kind"] if f else None)
        if f is None:
            return None
        kind = f["kind"]
        self.fired.append(dict(f, op_hit=op))
        self.ctx.fault(f"{kind}:{f.get('errno', '')}:{op}" if kind == "error" else f"{kind}:{op}")
        if kind == "crash":
            proc.dead = True
            raise SimCrash()
        if kind == "error":
            e = getattr(errno, f["errno"])
            raise OSError(e, os.strerror(e), os.fspath(path) if path is not None and not isinstance(path, int) else None)
        return f  # torn / short: only meaningful for write

    def crashed(self):
        return self.proc_of().dead

    # ---- quiet section (harness access)
    class _Quiet:
        def __init__(self, fs):
            self.fs = fs

        def __enter__(self):
            self.fs.quiet += 1

        def __exit__(self, *a):
            self.fs.quiet -= 1

    def harness(self):
        return FS._Quiet(self)


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, flags, closefd_fd=None, mode="r"):
        self.fs = fs
        self.path = path
        self.proc = fs.proc_of()
        self._mode = mode
        self.name = path
        if closefd_fd is None:
            self.fd = _real["open"](path, flags, 0o666)
        else:
            self.fd = closefd_fd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        fs.open_files.add(self)

    @property
    def mode(self):
        return self._mode.replace("t", "")

    def fileno(self):
        return self.fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.fs.point("truncate", self.path)
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        if self.proc.dead:
            raise SimCrash()
        f = self.fs.point("read", self.path)
        n = len(b)
        if f and f["kind"] == "short":
            n = max(1, min(n, int(f.get("k", 1))))
        data = _real["read"](self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.proc.dead:
            return len(b)  # the process is gone: its buffers are lost
        data = bytes(b)
        f = self.fs.point("write", self.path)
        if f and f["kind"] == "torn":  # part of the data reaches the disk, then the process dies
            k = min(len(data), int(f.get("k", 0)))
            if k:
                _real["write"](self.fd, data[:k])
            self.proc.dead = True
            raise SimCrash()
        if f and f["kind"] == "short":  # part of the data is written, then the disk is full
            k = min(len(data), int(f.get("k", 0)))
            if k:
                _real["write"](self.fd, data[:k])
            e = getattr(errno, f.get("errno", "ENOSPC"))
            raise OSError(e, os.strerror(e))
        return _real["write"](self.fd, data)

    def close(self):
        if self.closed:
            return
        self.fs.open_files.discard(self)
        try:
            if not self.proc.dead and not self.fs.quiet and self._w:
                self.fs.point("close", self.path)
        finally:
            try:
                os.close(self.fd) if "close" not in _real else _real["close"](self.fd)
            except OSError:
                pass
            super().close()

    def __del__(self):
        try:
            if not self.closed:
                self.fs.open_files.discard(self)
                _real["close"](self.fd)
                io.RawIOBase.close(self)
        except Exception:
            pass


_FLAGS = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
          "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def _wrap(fs, raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    if buffering == 0:
        return raw
    size = fs.bufsize if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    t.mode = mode
    return t


class Installed:
    """Context manager replacing the file functions by simulated ones for one FS."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        fs = self.fs
        if not _real:
            for n in _OS_NAMES:
                _real[n] = getattr(os, n)
            _real["builtin_open"] = io.open
            _real["Popen"] = subprocess.Popen
        R = _real
        self.saved = []

        def patch(obj, name, val):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if fs.quiet or (isinstance(file, int) and file not in fs.simfds) or (not isinstance(file, int) and not fs.inside(file)):
                if not fs.quiet and not isinstance(file, int) and fs.strict and any(c in mode for c in "wax+") \
                        and not os.fsdecode(file).startswith("/dev/"):
                    fs.escapes.append(("open " + mode, os.fsdecode(file)))
                    raise PermissionError(errno.EACCES, "outside the simulated file system", os.fsdecode(file))
                return R["builtin_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if isinstance(file, int):
                fd = file
                path = fs.simfds.pop(fd)
                raw = SimRaw(fs, path, 0, closefd_fd=fd, mode=mode)
                return _wrap(fs, raw, mode, buffering, encoding, errors, newline)
            path = os.fspath(file)
            base = next((c for c in "rwax" if c in mode), "r")
            if opener is None:  # otherwise it opens a file by itself
                fs.point("open-r" if base == "r" and "+" not in mode else "open-w", path)
            flags = _FLAGS[base] | os.O_CLOEXEC
            if "+" in mode:
                flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
            if opener is not None:
                fd = opener(file, flags)
                path = fs.simfds.pop(fd, path)  # may have opened another file, as NamedTemporaryFile does
                raw = SimRaw(fs, path, flags, closefd_fd=fd, mode=mode)
            else:
                raw = SimRaw(fs, path, flags, mode=mode)
            try:
                if os.path.isdir(path):
                    raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            except BaseException:
                raw.close()
                raise
            return _wrap(fs, raw, mode, buffering, encoding, errors, newline)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if fs.quiet or not fs.inside(path):
                if not fs.quiet and fs.strict and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    fs.escapes.append(("os.open", os.fsdecode(path)))
                    raise PermissionError(errno.EACCES, "outside the simulated file system", os.fsdecode(path))
                return R["open"](path, flags, mode, dir_fd=dir_fd)
            fs.point("open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open-r", path)
            fd = R["open"](path, flags, mode, dir_fd=dir_fd)
            fs.simfds[fd] = os.fspath(path)
            return fd

        def os_write(fd, data):
            if fd in fs.simfds and not fs.quiet:
                f = fs.point("write", fs.simfds[fd])
                if f:
                    k = min(len(data), int(f.get("k", 0)))
                    if k:
                        R["write"](fd, bytes(data)[:k])
                    if f["kind"] == "torn":
                        fs.proc_of().dead = True
                        raise SimCrash()
                    e = getattr(errno, f.get("errno", "ENOSPC"))
                    raise OSError(e, os.strerror(e))
            return R["write"](fd, data)

        def os_read(fd, n):
            if fd in fs.simfds and not fs.quiet:
                fs.point("read", fs.simfds[fd])
            return R["read"](fd, n)

        def os_close(fd):
            fs.simfds.pop(fd, None)
            return R["close"](fd)

        def os_fsync(fd):
            if not fs.quiet:
                fs.point("fsync")
            if fs.crashed() or fd < 0:
                return None
            return R["fsync"](fd)

        def one(name, op, mutating):
            real = R[name]

            def f(path, *a, **k):
                if fs.quiet or (isinstance(path, int)):
                    return real(path, *a, **k)
                if not fs.inside(path):
                    if mutating and fs.strict:
                        fs.escapes.append((name, os.fsdecode(path)))
                        raise PermissionError(errno.EACCES, "outside the simulated file system", os.fsdecode(path))
                    return real(path, *a, **k)
                fs.point(op, path)
                return real(path, *a, **k)
            f.__name__ = name
            return f

        def two(name, op):
            real = R[name]

            def f(src, dst, *a, **k):
                if fs.quiet:
                    return real(src, dst, *a, **k)
                if not (fs.inside(src) and fs.inside(dst)):
                    if fs.strict:
                        fs.escapes.append((name, f"{os.fsdecode(src)} -> {os.fsdecode(dst)}"))
                        raise PermissionError(errno.EACCES, "outside the simulated file system")
                    return real(src, dst, *a, **k)
                fs.point(op, dst)
                return real(src, dst, *a, **k)
            f.__name__ = name
            return f

        def listdir(path="."):
            if fs.quiet or isinstance(path, int) or not fs.inside(path):
                return sorted(R["listdir"](path)) if not isinstance(path, int) else R["listdir"](path)
            fs.point("listdir", path)
            return sorted(R["listdir"](path))

        class SortedScan:
            """scandir in a fixed order"""

            def __init__(self, it):
                with it:
                    self.l = sorted(it, key=lambda e: e.name)
                self.i = iter(self.l)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.i)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        def scandir(path="."):
            if fs.quiet or isinstance(path, int) or not fs.inside(path):
                return R["scandir"](path)
            fs.point("listdir", path)
            return SortedScan(R["scandir"](path))

        def system(cmd):
            """Stand-in for the shell: records the command; interprets plain `rm -rf` of names and patterns inside the root."""
            fs.point("system")
            fs.commands.append(cmd)
            return shell_standin(fs, cmd)

        class PopenStandin:
            def __init__(self, args, *a, **k):
                fs.point("system")
                fs.commands.append(args)
                cmd = args if isinstance(args, str) else " ".join(shlex.quote(str(x)) for x in args)
                self.returncode = shell_standin(fs, cmd, glob_=isinstance(args, str))
                self.stdout = self.stderr = self.stdin = None
                self.pid = 4242

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def communicate(self, *a, **k):
                return (b"", b"")

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def kill(self):
                pass

        import _io
        patch(builtins, "open", sim_open)
        patch(io, "open", sim_open)
        patch(_io, "open", sim_open)
        patch(os, "open", os_open)
        patch(os, "fdopen", lambda fd, *a, **k: sim_open(fd, *a, **k))
        patch(os, "write", os_write)
        patch(os, "read", os_read)
        patch(os, "close", os_close)
        patch(os, "fsync", os_fsync)
        for n, op, mut in [("stat", "stat", False), ("lstat", "stat", False), ("mkdir", "mkdir", True), ("rmdir", "rmdir", True),
                           ("unlink", "unlink", True), ("remove", "unlink", True), ("chdir", "chdir", False),
                           ("truncate", "truncate", True), ("utime", "utime", True), ("chmod", "chmod", True),
                           ("access", "stat", False)]:
            patch(os, n, one(n, op, mut))
        for n, op in [("rename", "rename"), ("replace", "rename"), ("link", "rename"), ("symlink", "rename")]:
            patch(os, n, two(n, op))
        patch(os, "listdir", listdir)

        def getcwd():
            if not fs.quiet and fs.inside("."):
                fs.point("getcwd", ".")
            return R["getcwd"]()
        patch(os, "getcwd", getcwd)
        patch(os, "scandir", scandir)
        patch(os, "system", system)
        patch(subprocess, "Popen", PopenStandin)
        patch(os, "getpid", lambda: fs.proc_of().pid)

        # os.path functions resolve os.stat at call time, except C accelerated isdir/isfile/exists
        import genericpath
        import posixpath
        import stat as st

        def exists(p):
            try:
                os.stat(p)
            except (OSError, ValueError):
                return False
            return True

        def isdir(p):
            try:
                return st.S_ISDIR(os.stat(p).st_mode)
            except (OSError, ValueError):
                return False

        def isfile(p):
            try:
                return st.S_ISREG(os.stat(p).st_mode)
            except (OSError, ValueError):
                return False
        for n, f in (("exists", exists), ("isdir", isdir), ("isfile", isfile)):
            patch(os.path, n, f)
            patch(genericpath, n, f)
        import shutil
        patch(shutil, "_use_fd_functions", False)
        import itertools
        import tempfile
        patch(tempfile, "_name_sequence", (f"t{n:06d}" for n in itertools.count()))
        return fs

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        for f in list(self.fs.open_files):
            try:
                f.proc.dead = True
                f.close()
            except BaseException:
                pass
        for fd in list(self.fs.simfds):
            try:
                _real["close"](fd)
            except OSError:
                pass
        self.fs.simfds.clear()
        return False


def shell_standin(fs, cmd, glob_=True):
    """What the shell would do for `rm [-rf] patterns`, limited to the root; anything else is only recorded."""
    with fs.harness():
        # shell metacharacters outside quotes make it more than one simple command
        try:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
            lex.whitespace_split = True
            toks = list(lex)
        except ValueError:
            fs.escapes.append(("shell", cmd))
            return 2
        if any(set(t) <= set("();<>|&") for t in toks if t) or "`" in cmd or "$(" in cmd:
            fs.escapes.append(("shell", cmd))
            return 2
        if not toks or toks[0] != "rm":
            fs.escapes.append(("shell", cmd))
            return 127
        import shutil
        for t in toks[1:]:
            if t.startswith("-"):
                continue
            matches = _glob(t) if glob_ else [t]
            for m in matches:
                if not fs.inside(m):
                    fs.escapes.append(("rm", m))
                    continue
                try:
                    if os.path.isdir(m) and not os.path.islink(m):
                        shutil.rmtree(m)
                    else:
                        _real["unlink"](m)
                except OSError:
                    pass
    return 0


def _glob(pat):
    import glob
    r = glob.glob(pat)
    return r or [pat]
