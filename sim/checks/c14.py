"""C14: a computation stopped midway leaves everything usable."""
import os
import tempfile
import warnings

import numpy as np

from .. import core, models, ops, rng as simrng
from ..canon import canon, diff, flat_digest
from ..interrupt import EXCS, Interrupt

READS = ["symbols", "variables", "equations", "definitions", "calibration", "domain", "exogenous", "functions", "x_bounds", "endo_grid"]
VARIANTS = {"mc3": lambda: models.text("mc3"), "ar1-old": lambda: models.text("ar1m", style="old"), "product": lambda: models.text("product"), "normal": lambda: models.text("normal", defs=False),
            "nonuniform": lambda: models.text("mc").replace("grid: !Cartesian\n        orders: [8]", "grid: !NonUniformCartesian\n        - [k*0.3, k*0.6, k, k*1.5, k*1.9]")}


class Boom(Exception):
    """raised by a user's hook or by a model function"""


class Kaboom(BaseException):
    """an interruption raised by a user's hook or function"""


class Fails:
    """A function that raises in its n-th call."""

    def __init__(self, fn, n, exc):
        self.fn, self.n, self.exc, self.calls = fn, n, exc, 0

    def __call__(self, *a, **kw):
        self.calls += 1
        if self.calls == self.n:
            raise self.exc("injected")
        return self.fn(*a, **kw) if self.fn else None


def read(m, what):
    return value(getattr(m, what), what)


def value(v, what):
    if what == "functions":
        return tuple(sorted(v.keys()))
    if what == "x_bounds":
        return v is None
    if what == "endo_grid":
        return canon(np.array(v.nodes))
    if what == "domain":
        return ("domain", tuple(v.states), np.array(v.min), np.array(v.max))
    return canon(dict(v)) if what in ("symbols", "equations", "definitions") else canon(v)


def reaches(e, injected):
    """is e the injected exception, or (for errors a program may translate) raised because of it?"""
    seen = set()
    direct = True
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if type(e) is injected and str(e) == "injected":
            return direct or issubclass(injected, Exception)
        direct = False
        e = e.__cause__ or e.__context__
    return False


def third_party(e):
    """raised by other code than dolo's (dolang answers anything its callees raise by errors of its own)"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and os.sep + "dolang" + os.sep in tb.tb_frame.f_code.co_filename


class C14(core.Check):
    ID = "C14"
    RULE = ("A run stops one operation (any solver, simulation, evaluation, discretization, draw or numerical tool; the first read of a model's data; the import of a file) by an exception raised before a chosen source line of dolo, "
            "in a chosen call of a user's hook, or in a chosen call of one of the model's functions or of a supplied rule. The exception must reach the caller, every object passed in must equal the deep copy taken before, "
            "and the operation repeated on the same objects, then another one using them, must give exactly what they give on new objects. Non-trivial when the exception was raised.")
    REAL = ["all solvers and simulations, models, processes, distributions, grids, decision rules, importer and compiled functions (compiled once per distinct code)"]
    STUBS = ["moment of the exception, through sys.settrace, hooks and wrapped functions", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 4000, "thorough": 80000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (operation, source line or call at which it was stopped) pairs"
    ASSUMPTIONS = ["An exception can arrive before any source line of dolo, except in finally blocks and while a with statement is being left; dolang, compiled code, lark, yaml, numpy and scipy are atomic.",
                   "An error (not an interrupt) may be translated into another one that refers to it, and one arriving at a line or in a supplied rule may be dealt with, if the result is then the right one."]

    def setup(self, tier):
        self.names = list(ops.setup_library())
        self.refs, self.counts, self.calls = {}, {}, {}
        for n in self.names:
            ops.reference(n)
        for n in self.names:
            self.reference(n)
        self.names = [n for n in self.names if not (isinstance(self.refs[n], tuple) and self.refs[n][:1] == ("raised",))]
        self.model_refs = {v: {w: read(models.load_text(f()), w) for w in READS} for v, f in VARIANTS.items()}
        shared = lambda a: {u for u in ops.USES[a] if ":" in u}
        self.related = {n: [m for m in self.names if shared(n) & shared(m)] or self.names for n in self.names}
        self.hooked = [n for n in self.names if ops.OPS[n].hook]
        self.modeled = [n for n in self.names if any(u.startswith("model:") for u in ops.USES[n])]
        self.dred = [n for n in self.names if any(u.startswith(("dr:", "fdr:", "pdr:", "result:", "cdr:", "vdr:", "dr-linear:")) for u in ops.USES[n])]

    def reference(self, n):
        if n not in self.refs:
            simrng.set_all(5)
            self.refs[n] = ops.reference(n)
        return self.refs[n]

    def prepared(self, name):
        B = ops.Bench()
        for u in ops.USES[name]:
            B[u]
        return B

    def fixed(self, tier):
        out = []
        for n in self.names:
            for k in (1, 2, 3, 5, 8, 13, 21, 34, 55):
                out.append({"op": n, "stop": ["line", k, "interrupt"]})
        return out

    def positions(self, name):
        if name not in self.counts:
            with ops.quiet():
                if name.startswith("read:"):
                    _, v, w = name.split(":")
                    m = models.load_text(VARIANTS[v](), check=False)
                    with self.interrupt(None, record=True) as it:
                        getattr(m, w)
                elif name.startswith("import:"):
                    with self.file(name[7:]) as f, self.interrupt(None, record=True) as it:
                        self.imported(f)
                else:
                    B = self.prepared(name)
                    with self.interrupt(None, record=True) as it:
                        ops.run(name, B)
            self.counts[name] = sorted(it.lines.items()) or [(("", 0), [1])]
        return self.counts[name]

    def interrupt(self, n, exc="interrupt", record=False):
        # only dolo's own lines: dolang answers some errors of its own (AttributeError, numba's) with other ones
        return Interrupt(n, exc, (os.path.join(core.REPO, "dolo") + os.sep,), record)

    class file:
        def __init__(self, variant):
            self.variant = variant

        def __enter__(self):
            self.dir = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
            self.path = os.path.join(self.dir, "model.yaml")
            with open(self.path, "w", encoding="utf8") as f:
                f.write(VARIANTS[self.variant]())
            return self.path

        def __exit__(self, *a):
            os.unlink(self.path)
            os.rmdir(self.dir)

    def imported(self, path):
        from dolo.compiler.model_import import yaml_import
        return yaml_import(path)

    def generate(self, rng, tier):
        kind = rng.choice(["line"] * 6 + ["hook", "function", "function", "rule", "read", "import"])
        exc = rng.choice(["interrupt", "interrupt", "memory", "exit", "recursion", "oserror"])
        if kind == "line":
            n = rng.choice(self.names)
            return {"op": n, "stop": ["line", rng.choice(rng.choice(self.positions(n))[1]), exc], "then": self.follow(rng, n, 0.5)}
        if kind == "read":
            v, w = rng.choice(list(VARIANTS)), rng.choice(READS)
            n = f"read:{v}:{w}"
            return {"op": n, "stop": ["line", rng.choice(rng.choice(self.positions(n))[1]), exc], "order": rng.sample(READS, len(READS))}
        if kind == "import":
            n = "import:" + rng.choice(list(VARIANTS))
            return {"op": n, "stop": ["line", rng.choice(rng.choice(self.positions(n))[1]), exc]}
        pool = {"hook": self.hooked, "function": self.modeled, "rule": self.dred}[kind]
        n = rng.choice(pool)
        return {"op": n, "stop": [kind, int(rng.expovariate(1 / rng.choice([2, 8, 40]))) + 1, rng.choice(["boom", "kaboom", "interrupt", "memory"])], "which": rng.randrange(100),
                "then": self.follow(rng, n, 0.3)}

    def follow(self, rng, name, p):
        """another operation, mostly one using the same objects"""
        if rng.random() < p:
            return rng.choice(self.related[name] if rng.random() < 0.7 else self.names)

    def shrink(self, sc):
        if sc.get("then"):
            yield dict(sc, then=None)
        if sc["stop"][1] > 1:
            for k in (1, sc["stop"][1] // 2, sc["stop"][1] - 1):
                yield dict(sc, stop=[sc["stop"][0], k, sc["stop"][2]])

    def stopped(self, sc, fn, exc, fired, what, tolerant=True, expected=None):
        """run fn expecting the injected exception"""
        try:
            got = fn()
        except (Exception, KeyboardInterrupt, SystemExit, Kaboom) as e:
            if not fired():
                raise
            if not reaches(e, exc) and not third_party(e):
                raise core.Violation("another-exception", f"{what}: {type(e).__name__}: {str(e)[:300]} reached the caller instead of {exc.__name__}")
            return True
        if fired():
            if not (tolerant and issubclass(exc, Exception)):
                raise core.Violation("exception-lost", f"{what}: the {exc.__name__} was swallowed")
            d = expected and expected(got)
            if d:
                raise core.Violation("wrong-result", f"{what}: the {exc.__name__} was swallowed and the result differs: {d}")
            return True
        return False

    def run(self, sc, ctx):
        simrng.set_all(5)
        name, (kind, n, excname) = sc["op"], sc["stop"]
        exc = {"boom": Boom, "kaboom": Kaboom}.get(excname) or EXCS[excname]
        with ops.quiet():
            if name.startswith("read:"):
                return self.run_read(sc, ctx, exc)
            if name.startswith("import:"):
                return self.run_import(sc, ctx, exc)
            B = self.prepared(name)
            snap = B.snapshot()
            hook, undo = None, []
            if kind == "line":
                it = self.interrupt(n, exc)

                def go():
                    with it:
                        return ops.OPS[name].fn(B)
                fired = lambda: it.fired
                at = lambda: it.where
            elif kind == "hook":
                f = Fails(None, n, exc)
                go = lambda: ops.OPS[name].fn(B, hook=f)
                fired = lambda: f.calls >= f.n
                at = lambda: "hook"
            elif kind == "function":
                ms = [u for u in ops.USES[name] if u.startswith("model:")]
                funs = B[ms[sc["which"] % len(ms)]].functions
                extra = models.raw_functions(B[ms[sc["which"] % len(ms)]])
                fs = []
                for table, key in [(funs, k) for k in sorted(funs.keys())] + [(extra, k) for k in sorted(extra)]:
                    if hash_pick(key, sc["which"]):
                        old = table[key]
                        f = Fails(old, n, exc)
                        fs.append(f)
                        undo.append((table, key, old))
                        table[key] = f
                go = lambda: ops.OPS[name].fn(B)
                fired = lambda: any(f.calls >= f.n for f in fs)
                at = lambda: "model function"
            else:
                drs = [u for u in ops.USES[name] if u.startswith(("dr:", "fdr:", "pdr:", "result:", "cdr:", "vdr:", "dr-linear:"))]
                d = B[drs[sc["which"] % len(drs)]]
                d = getattr(d, "dr", d)
                fs = []
                for meth in ("eval_is", "eval_ms", "eval_s", "eval_ijs"):
                    if hasattr(d, meth):
                        f = Fails(getattr(d, meth), n, exc)
                        fs.append(f)
                        setattr(d, meth, f)
                undo.append((d, None, None))
                go = lambda: ops.OPS[name].fn(B)
                fired = lambda: any(f.calls >= f.n for f in fs)
                at = lambda: "decision rule"
            try:
                hit = self.stopped(sc, go, exc, fired, f"{name} stopped at {kind} {n}", kind in ("line", "rule"), lambda got: diff(canon(got), self.reference(name), ops.OPS[name].rtol))
            finally:
                for table, key, old in undo:
                    if key is None:
                        for meth in ("eval_is", "eval_ms", "eval_s", "eval_ijs"):
                            vars(table).pop(meth, None)
                    else:
                        table[key] = old
            where = at() if hit else None
            ctx.ev("stop", name, kind, n, excname, where)
            if hit:
                ctx.nontrivial = True
                ctx.fault(f"{kind}-{excname}")
                ctx.state((name, where, n if kind != "line" else 0))
            d = B.snapshot_diff(snap)
            if d:
                raise core.Violation("input-changed", f"{name} stopped at {where} by {excname} (point {n}) left {d[0]} changed: {d[1]}")
            for again in [name] + ([sc["then"]] if sc.get("then") else []):
                try:
                    val = ops.run(again, B)
                except Exception as e:
                    raise core.Violation("repeat-fails", f"after {name} was stopped at {where} by {excname} (point {n}), {again} raised {e!r}")
                d = diff(val, self.reference(again), ops.OPS[again].rtol)
                if d:
                    raise core.Violation("repeat-differs", f"after {name} was stopped at {where} by {excname} (point {n}), {again} gives another result: {d}")
                ctx.ev("again", again, flat_digest(val) if not ops.OPS[again].rtol else "")

    def run_read(self, sc, ctx, exc):
        _, v, w = sc["op"].split(":")
        m = models.load_text(VARIANTS[v](), check=False)
        it = self.interrupt(sc["stop"][1], exc)

        def go():
            with it:
                return getattr(m, w)
        hit = self.stopped(sc, go, exc, lambda: it.fired, f"{w} of {v}, stopped at line {sc['stop'][1]}", expected=lambda got: diff(value(got, w), self.model_refs[v][w]))
        ctx.ev("read", v, w, it.where)
        if hit:
            ctx.nontrivial = True
            ctx.fault("read-" + sc["stop"][2])
            ctx.state((v, w, it.where))
        for x in sc["order"]:
            try:
                val = read(m, x)
            except Exception as e:
                raise core.Violation("read-fails", f"after the first read of {w} of {v} was stopped at {it.where}, {x} raised {e!r}")
            d = diff(val, self.model_refs[v][x])
            if d:
                raise core.Violation("read-differs", f"after the first read of {w} of {v} was stopped at {it.where}, {x} differs: {d}")

    def run_import(self, sc, ctx, exc):
        v = sc["op"][7:]
        with self.file(v) as path:
            it = self.interrupt(sc["stop"][1], exc)

            def go():
                with it:
                    self.imported(path)
            hit = self.stopped(sc, go, exc, lambda: it.fired, f"import of {v}, stopped at line {sc['stop'][1]}")
            ctx.ev("import", v, it.where)
            if hit:
                ctx.nontrivial = True
                ctx.fault("import-" + sc["stop"][2])
                ctx.state((v, it.where))
            try:
                m = self.imported(path)
                vals = {x: read(m, x) for x in READS}
            except Exception as e:
                raise core.Violation("import-fails", f"after an import of {v} was stopped at {it.where}, importing it raised {e!r}")
            for x in READS:
                d = diff(vals[x], self.model_refs[v][x])
                if d:
                    raise core.Violation("import-differs", f"after an import of {v} was stopped at {it.where}, {x} differs: {d}")


def hash_pick(key, which):
    import zlib
    return which % 5 == 0 or zlib.crc32(f"{key}{which}".encode()) % 3 == 0


CHECK = C14()
