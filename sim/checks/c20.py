"""C20: results do not depend on the clock, verbosity or console."""
import os
import tempfile
import warnings

from .. import core, env, models, ops, rng as simrng
from ..canon import diff
from .c14 import READS, VARIANTS, read

MODES = [m for m in env.Console.MODES if m != "ok"]


class C20(core.Check):
    ID = "C20"
    RULE = ("A run executes 1 to 5 operations (solvers, simulations, evaluations, discretizations, draws, numerical tools, first reads of a model, imports) on shared objects, each quiet, verbose or fully verbose, under a clock that stands still, runs, jumps "
            "forward or backward, is at zero or far ahead, with a console that works, is closed, or fails from a chosen write on (broken pipe, full disk, I/O error, unencodable characters, failing flush, interrupt). Every result must be that of the quiet, undisturbed "
            "operation on new objects; quiet operations must write nothing, to sys.stdout, sys.stderr or the file descriptors; a verbose one may only raise if its console failed, and leaves its inputs as they were. Non-trivial when a clock was read, output was written or a console would have failed.")
    REAL = ["all solvers and simulations, models, processes, distributions, grids, decision rules, importer and compiled functions (compiled once per distinct code), printing of iterations"]
    STUBS = ["clocks of the time module", "sys.stdout and sys.stderr", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)"]
    RUNS = {"quick": 4000, "thorough": 80000}
    SOFT_S = {"quick": 40, "thorough": 900}
    STATE_MEASURE = "distinct (operation, verbosity, clock, console, outcome) combinations"
    ASSUMPTIONS = ["Warnings (python's warnings module) are not console output.", "Fields that measure elapsed time: the results have none; the columns printed are not compared."]

    def setup(self, tier):
        self.names = list(ops.setup_library())
        self.refs = {}
        for n in self.names:
            simrng.set_all(5)
            self.refs[n] = ops.reference(n)
        self.names = [n for n in self.names if not (isinstance(self.refs[n], tuple) and self.refs[n][:1] == ("raised",))]
        self.talk = [n for n in self.names if ops.OPS[n].verbose]
        with ops.quiet():
            self.model_refs = {v: {w: read(models.load_text(f()), w) for w in READS} for v, f in VARIANTS.items()}
        self.fds = None

    def worker_setup(self):
        # what is written to the descriptors, behind python's back
        f = tempfile.TemporaryFile(dir=os.environ["DOLO_SIM_RUNDIR"])
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        self.fds = f

    def fixed(self, tier):
        out = []
        for i, n in enumerate(self.names):
            v = ops.OPS[n].verbose
            out.append({"ops": [{"op": n, "verbose": False, "clock": "backward", "seed": i, "console": "closed", "first": 0}]})
            if v:
                out.append({"ops": [{"op": n, "verbose": [True, "full"][i % 2], "clock": ["zero", "huge-jumps", "still"][i % 3], "seed": i, "console": "ok", "first": 0}]})
                out.append({"ops": [{"op": n, "verbose": ["full", True][i % 2], "clock": "real", "seed": i, "console": MODES[i % len(MODES)], "first": i % 7}]})
        return out

    def generate(self, rng, tier):
        todo = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            r = rng.random()
            if r < 0.08:
                o = {"op": f"read:{rng.choice(list(VARIANTS))}:{rng.choice(READS)}"}
            elif r < 0.12:
                o = {"op": f"import:{rng.choice(list(VARIANTS))}"}
            else:
                o = {"op": rng.choice(self.talk if rng.random() < 0.6 else self.names)}
            o["verbose"] = rng.choice([False, False, True, "full"]) if o["op"] in self.talk else False
            o["clock"], o["seed"] = rng.choice(env.CLOCK_MODES), rng.randrange(1000)
            o["console"] = rng.choice(["ok"] + MODES) if o["verbose"] is not False else rng.choice(["ok"] + MODES * 2)
            o["first"] = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, 40, 80])
            todo.append(o)
        return {"ops": todo}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("ops",))
        for i, o in enumerate(sc["ops"]):
            for k, v in (("clock", "real"), ("console", "ok"), ("first", 0)):
                if o[k] != v:
                    yield {"ops": [x if j != i else dict(o, **{k: v}) for j, x in enumerate(sc["ops"])]}

    def call(self, name, B, verbose):
        if name.startswith("read:"):
            _, v, w = name.split(":")
            return read(models.load_text(VARIANTS[v](), check=False), w), self.model_refs[v][w], 0.0
        if name.startswith("import:"):
            from dolo.compiler.model_import import yaml_import
            v = name[7:]
            with tempfile.TemporaryDirectory(dir=os.environ["DOLO_SIM_RUNDIR"]) as d:
                path = os.path.join(d, "m.yaml")
                with open(path, "w", encoding="utf8") as f:
                    f.write(VARIANTS[v]())
                m = yaml_import(path)
            return read(m, "calibration"), self.model_refs[v]["calibration"], 0.0
        return ops.run(name, B, verbose=verbose), self.refs[name], ops.OPS[name].rtol

    def run(self, sc, ctx):
        B = ops.Bench()
        for step, o in enumerate(sc["ops"]):
            name, verbose = o["op"], o["verbose"]
            simrng.set_all(5)
            with ops.quiet():
                for u in ops.USES.get(name, ()):
                    B[u]
            snap = B.snapshot()
            out, err = env.Console(o["console"], o["first"] if verbose is not False else 0), env.Console("ok")
            clock = env.Clock(o["clock"], o["seed"])
            size = os.fstat(self.fds.fileno()).st_size if self.fds else 0
            what = f"{name} (operation {step}), verbose={verbose}, clock {o['clock']}, console {o['console']} after {o['first']} writes"
            raised = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with env.Consoles(out, err), clock:
                    try:
                        got, ref, rtol = self.call(name, B, verbose)
                    except (Exception, KeyboardInterrupt) as e:
                        raised = e
            ctx.simtime += clock.span
            ctx.probe("clock-reads", clock.reads)
            if clock.reads:
                ctx.fault("clock-" + o["clock"])
            if out.failed:
                ctx.fault("console-" + o["console"], out.failed)
            if out.n or clock.reads or o["console"] != "ok":
                ctx.nontrivial = True
            if verbose is False:
                low = os.fstat(self.fds.fileno()).st_size - size if self.fds else 0
                if out.n or err.n or low:
                    raise core.Violation("not-quiet", f"{what}: wrote {(out.written or err.written)[:300]!r}" + (f" ({low} bytes to the file descriptors)" if low else ""))
            if raised is not None:
                if verbose is False or not out.failed:
                    raise core.Violation("fails", f"{what}: raised {raised!r}")
                res = "raised"
            else:
                d = diff(got, ref, rtol)
                if d:
                    raise core.Violation("result", f"{what}: differs from the quiet, undisturbed result: {d}")
                res = "same"
            if verbose is not False and verbose and o["console"] == "ok" and not out.n:
                ctx.probe("verbose-but-silent")
            d = B.snapshot_diff(snap)
            if d:
                raise core.Violation("input-changed", f"{what} ({res}): {d[0]} was changed: {d[1]}")
            ctx.ev(step, name, verbose, o["clock"], o["console"], out.n, res)
            ctx.state((name, verbose, o["clock"], o["console"], res))
            if res == "raised":
                # as if nothing had happened
                simrng.set_all(5)
                with ops.quiet():
                    got, ref, rtol = self.call(name, B, False)
                d = diff(got, ref, rtol)
                if d:
                    raise core.Violation("after-failure", f"{what} failed; repeated quietly, its result differs: {d}")


CHECK = C20()
