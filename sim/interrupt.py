"""Exceptions that arrive between two source lines of the library: interrupts, memory errors."""
import ast
import dis
import os
import sys

from . import core

EXCS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit, "recursion": RecursionError, "oserror": OSError}
_cleanup = {}
_with_exit = {}


def library_prefixes():
    import dolang
    return (os.path.join(core.REPO, "dolo") + os.sep, os.path.dirname(dolang.__file__) + os.sep)


def _cleanup_lines(filename):
    """lines of finally blocks: an exception there defeats any program"""
    if filename not in _cleanup:
        lines = set()
        try:
            with open(filename, encoding="utf8") as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    for st in node.finalbody:
                        lines.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _cleanup[filename] = lines
    return _cleanup[filename]


def _with_exits(code):
    """offsets at which a with statement calls __exit__"""
    if code not in _with_exit:
        ins = list(dis.get_instructions(code))
        out = set()
        for i, x in enumerate(ins):
            if x.opname == "LOAD_CONST" and x.argval is None and [y.opname for y in ins[i + 1:i + 4]] == ["LOAD_CONST", "LOAD_CONST", "CALL"]:
                out.add(x.offset)
            if x.opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START"):
                out.add(x.offset)
        _with_exit[code] = out
    return _with_exit[code]


class Interrupt:
    """Raises exc before the n-th source line executed in the library (n counts from 1). n=None only counts."""

    def __init__(self, n=None, exc="interrupt", prefixes=None, record=False):
        self.lines = {} if record else None  # (file, line) -> counts at which it was reached
        self.n, self.exc = n, EXCS[exc] if isinstance(exc, str) else exc
        self.prefixes = prefixes or library_prefixes()
        self.count, self.fired, self.where = 0, False, None
        self._ok = {}

    def _trace(self, frame, event, arg):
        code = frame.f_code
        ok = self._ok.get(code)
        if ok is None:
            ok = self._ok[code] = code.co_filename.startswith(self.prefixes) and code.co_name != "<module>" and bool(code.co_flags & 1)
        return self._local if ok else None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.count += 1
            if self.lines is not None:
                at = self.lines.setdefault((frame.f_code.co_filename, frame.f_lineno), [])
                if len(at) < 40 or self.count % 7 == 0 and len(at) < 200:
                    at.append(self.count)
            if self.n is not None and self.count >= self.n:
                code = frame.f_code
                if frame.f_lasti not in _with_exits(code) and frame.f_lineno not in _cleanup_lines(code.co_filename):
                    self.fired = True
                    self.where = f"{os.path.basename(code.co_filename)}:{code.co_name}:{frame.f_lineno}"
                    raise self.exc("injected")
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
