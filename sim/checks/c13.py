"""C13: solvers leave their inputs untouched and do not depend on what ran before."""
import json
import os
import pickle
import random
import select
import time

from .. import core, ops, rng as simrng
from ..canon import canon, diff, flat_digest


def in_child(fn):
    """run fn in a forked process -> (fd, pid)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            core._freeze_jit_cache()
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(fn(), protocol=pickle.HIGHEST_PROTOCOL))
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    return r, pid


def collect(children, timeout=400):
    out = [b"" for _ in children]
    fds = {r: i for i, (r, _) in enumerate(children)}
    end = core._real_time() + timeout
    while fds and core._real_time() < end:
        for fd in select.select(list(fds), [], [], 1.0)[0]:
            b = os.read(fd, 1 << 20)
            if b:
                out[fds[fd]] += b
            else:
                os.close(fd)
                del fds[fd]
    for r, pid in children:
        if r in fds:
            os.kill(pid, 9)
        os.waitpid(pid, 0)
    return [pickle.loads(b) if b else None for b in out]


class C13(core.Check):
    ID = "C13"
    RULE = ("A run is a history of 2 to 12 operations (solvers, simulations, tabulations, discretizations, distributions, decision rule evaluations, draws, numerical tools) on shared models, decision rules, processes and "
            "arrays, with draws of random numbers in between. Around each operation every shared object is compared with a deep copy; its result is compared with that of the same operation on new objects in a process "
            "where little ran before; results returned earlier are compared with copies at the end. Two processes that run all operations in opposite orders must agree. Non-trivial when an operation ran on objects used before.")
    REAL = ["all solvers and simulations, models, processes, distributions, grids, decision rules, compiled functions (compiled once per distinct code)"]
    STUBS = ["random number generators' states between operations", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 2500, "thorough": 60000}
    SOFT_S = {"quick": 40, "thorough": 900}
    STATE_MEASURE = "distinct (operation, operations run before on the same objects) pairs"
    ASSUMPTIONS = ["Results are compared exactly, except the spectral radius (an iterative eigenvalue routine with a random start), to 1e-6."]

    def setup(self, tier):
        allops = ops.setup_library()
        names = list(allops)
        mc3 = [n for n in names if n.startswith("mc3/")]
        groups = [mc3, [n for n in names if n.startswith(("ar1m/", "normal/", "det/", "constb/", "egm/"))],
                  [n for n in names if n not in mc3 and not n.startswith(("ar1m/", "normal/", "det/", "constb/", "egm/"))]]

        def refs(g, rev):
            def go():
                simrng.set_all(5)
                out = {n: ops.reference(n) for n in (g[::-1] if rev else g)}
                return out, dict(ops.USES)
            return go

        children = [in_child(refs(g, rev)) for g in groups for rev in (False, True)]
        for n in names:
            ops.reference(n)
        got = collect(children)
        if any(g is None for g in got):
            raise Exception("a process computing references failed")
        self.refs, self.back = {}, {}
        for i, (vals, uses) in enumerate(got):
            (self.back if i % 2 else self.refs).update(vals)
            ops.USES.update(uses)
        self.names = names
        self.broken = sorted(n for n in names if isinstance(self.refs[n], tuple) and self.refs[n][:1] == ("raised",))

    def fixed(self, tier):
        out = [{"orders": True}]
        for n in self.names:
            out.append({"ops": [["op", n], ["op", n]]})
        return out

    def generate(self, rng, tier):
        fams = sorted({n.split("/")[0] for n in self.names})
        some = rng.sample(fams, rng.choice([1, 1, 2, 3, len(fams)]))
        if rng.random() < 0.3:
            some.append("mc3")
        pool = [n for n in self.names if n.split("/")[0] in some]
        if rng.random() < 0.3:  # operations using the same object
            obj = rng.choice(sorted({u for n in pool for u in ops.USES[n]}))
            pool = [n for n in pool if obj in ops.USES[n]]
        steps = []
        for _ in range(rng.randint(2, 12)):
            if rng.random() < 0.15:
                steps.append(["draws", rng.randrange(10 ** 6)])
            steps.append(["op", rng.choice(pool)])
        return {"ops": steps}

    def run(self, sc, ctx):
        simrng.set_all(5)
        if sc.get("orders"):
            for n in self.names:
                d = diff(self.back[n], self.refs[n], ops.OPS[n].rtol)
                ctx.ev("orders", n)
                if d:
                    raise core.Violation("depends-on-order", f"{n} gives another result when the operations are run in the opposite order: {d}")
            return
        B = ops.Bench()
        before, kept = [], []
        with ops.quiet():
            for kind, what in sc["ops"]:
                if kind == "draws":
                    simrng.scramble(random.Random(what))
                    ctx.fault("random-draws")
                    continue
                o = ops.OPS[what]
                st = simrng.get_all()
                for u in ops.USES.get(what, []):
                    B[u]
                simrng.restore(st)
                snap = B.snapshot()
                hist = f"after {[w for w in before]}, {what}"
                try:
                    raw = o.fn(B)
                    val = canon(raw)
                except Exception as e:
                    raw, val = None, ("raised", type(e).__name__)
                    err = repr(e)
                d = B.snapshot_diff(snap)
                if d:
                    raise core.Violation("input-changed", f"{hist} changed {d[0]}: {d[1]}")
                d = diff(val, self.refs[what], o.rtol)
                if d:
                    if val[:1] == ("raised",):
                        d = "raised " + err
                    raise core.Violation("depends-on-history", f"{hist} gives another result than alone: {d}")
                if raw is not None:
                    kept.append((what, raw, val))
                ctx.ev("op", what, flat_digest(val) if not o.rtol else "")
                if any(set(ops.USES.get(w, [])) & set(ops.USES.get(what, [])) for w in before):
                    ctx.nontrivial = True
                for w in before:
                    ctx.state((w, what))
                before.append(what)
            for what, raw, val in kept:
                d = diff(canon(raw), val)
                if d:
                    raise core.Violation("earlier-result-changed", f"the result of {what} changed when {before} went on: {d}")


CHECK = C13()
