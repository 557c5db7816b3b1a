"""C15: solving and simulating from several threads equals doing it one at a time."""
import json

import numpy as np

from .. import core, ops, rng as simrng, sched
from ..canon import canon, diff, flat_digest
from ..interrupt import Interrupt, library_prefixes


def forget_dispatch():
    """empty the caches of the multiple dispatchers, as in a new process"""
    import dolo.algos.ergodic as E
    import dolo.numeric.decision_rule as DR
    for mod in (E, DR):
        for v in vars(mod).values():
            if type(v).__name__ == "multimethod":
                v.clean()
            elif type(v).__name__ == "Dispatcher":
                v._cache.clear()


class C15(core.Check):
    ID = "C15"
    RULE = ("A run is two or three threads, each with one to three operations (solvers, simulations, tabulations, discretizations, ergodic distributions, decision rule evaluations, numerical tools) on shared or separate models, decision "
            "rules and processes, and a schedule that switches threads before chosen source lines of dolo and dolang. Each operation must give what it gives alone, and leave every shared object as it was. "
            "Non-trivial when threads were switched within the library.")
    REAL = ["all solvers and simulations, models, processes, distributions, grids, decision rules, dispatch tables, compiled functions (compiled once per distinct code)", "real threads, one running at a time"]
    STUBS = ["thread scheduling, through sys.settrace", "locks created by the library (contention yields to the scheduler)", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 2500, "thorough": 60000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (pair of positions at which threads were switched) combinations"
    ASSUMPTIONS = ["A switch can happen before any source line of dolo and dolang; compiled code, lark, numpy and scipy are atomic.",
                   "Unseeded draws from numpy's global generator are left out: which thread gets which draw is not determined."]

    def setup(self, tier):
        self.names = list(ops.setup_library(simlocks=True))
        self.prefixes = library_prefixes()
        self.refs, self.counts, drawing = {}, {}, set()
        for n in self.names:
            ops.reference(n)
        for n in self.names:
            simrng.set_all(5)
            before = canon(np.random.get_state())
            self.refs[n] = ops.reference(n)
            if diff(before, canon(np.random.get_state())):
                drawing.add(n)
        raised = lambda v: isinstance(v, tuple) and v[:1] == ("raised",)
        self.names = [n for n in self.names if not raised(self.refs[n]) and (n not in drawing or "simulate" in n and n.split("/")[0] != "proc")]
        self.pairs = {}
        for n in self.names:
            for u in ops.USES[n]:
                self.pairs.setdefault(u, []).append(n)

    def lines(self, n):
        if n not in self.counts:
            B = self.bench([n])
            with ops.quiet(), Interrupt(None) as it:
                ops.OPS[n].fn(B)
            self.counts[n] = max(it.count, 1)
        return self.counts[n]

    def bench(self, names):
        B = ops.Bench()
        with ops.quiet(), sched.SimLocks():
            for n in names:
                for u in ops.USES[n]:
                    B[u]
        return B

    def fixed(self, tier):
        out = []
        fams = {}
        for n in self.names:
            fams.setdefault(ops.OPS[n].family, []).append(n)
        for i, n in enumerate(self.names):
            for mean in (1, 9, 70):
                other = n if mean == 9 else self.names[(i * 7 + 3) % len(self.names)]
                out.append({"threads": [[n], [other]], "switches": [[mean * (1 + (k * 5) % 3), 0] for k in range(60)], "start": 0, "shared": mean != 70, "cold": True})
        for g in range(36, 52):
            out.append({"threads": [["normal/ergodic"], ["normal/ergodic"]], "switches": [[g, 0], [10 ** 6, 0]], "start": 0, "shared": True, "cold": True})
        return [s for s in out if all(n in self.names for t in s["threads"] for n in t)]

    def generate(self, rng, tier):
        if rng.random() < 0.35:  # one thread is stopped at some line while another one runs
            a = rng.choice(self.names)
            b = a if rng.random() < 0.6 else rng.choice(self.pairs[rng.choice(ops.USES[a])] if ops.USES[a] and rng.random() < 0.7 else self.names)
            k = self.lines(a)
            g = rng.randrange(k) if rng.random() < 0.5 else min(k, int(k ** rng.random()) + rng.randrange(40))
            return {"threads": [[a], [b]], "switches": [[g, 0], [rng.choice([10 ** 6, rng.randrange(2 * self.lines(b))]), 0]], "start": 0, "shared": rng.random() < 0.75, "cold": True}
        nt = rng.choice([2, 2, 2, 3])
        if rng.random() < 0.5:
            pool = self.pairs[rng.choice(list(self.pairs))]  # all use one object
        elif rng.random() < 0.3:
            pool = [n for n in self.names if "simulate" in n]
        else:
            pool = self.names
        threads = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(nt)]
        total = sum(self.lines(n) for t in threads for n in t)
        mean = rng.choice([1, 3, 10, 30, max(1, total // 60), max(1, total // 20), max(1, total // 5)])
        sw = [[int(rng.expovariate(1 / mean)), rng.randint(0, 1)] for _ in range(rng.randint(1, 80))]
        if rng.random() < 0.6:
            sw[0][0] = rng.randrange(max(1, self.lines(threads[0][0])))
        return {"threads": threads, "switches": sw, "start": 0, "shared": rng.random() < 0.75, "cold": rng.random() < 0.7}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("threads", "switches"))
        for i, t in enumerate(sc["threads"]):
            for j in range(len(t)):
                if len(t) > 1:
                    yield dict(sc, threads=[(x if k != i else x[:j] + x[j + 1:]) for k, x in enumerate(sc["threads"])])

    def run(self, sc, ctx):
        simrng.set_all(5)
        if sc["shared"]:
            B = self.bench([n for t in sc["threads"] for n in t])
            benches = [B] * len(sc["threads"])
        else:
            benches = [self.bench(t) for t in sc["threads"]]
        snaps = [b.snapshot() for b in (benches[:1] if sc["shared"] else benches)]
        # model functions, interpolation tables, lazily made names etc. are made by snapshots; new objects have not been looked at
        if sc["shared"] and sc["cold"]:
            B = self.bench([n for t in sc["threads"] for n in t])
            benches = [B] * len(sc["threads"])
        if sc["cold"]:
            forget_dispatch()
        recs = []

        def body(i, names):
            def go():
                for n in names:
                    rec = {"t": i, "op": n}
                    recs.append(rec)
                    try:
                        rec["val"] = ops.OPS[n].fn(benches[i])
                    except sched.Killed:
                        raise
                    except Exception as e:
                        rec["err"] = repr(e)
            return go
        s = sched.Sched(ctx, sc["switches"], self.prefixes, start=sc["start"])
        with ops.quiet():
            with sched.SimLocks():
                threads = s.run([body(i, t) for i, t in enumerate(sc["threads"])])
        where = f"{'shared' if sc['shared'] else 'separate'} objects, threads {json.dumps(sc['threads'])}, last switched at {s.where}"
        for t in threads:
            if t.exc is not None:
                raise core.Violation("thread-dies", f"{where}: thread {t.idx} raised {t.exc!r}")
        ctx.nontrivial = s.n_switch > 0
        ctx.fault("thread-switch", s.n_switch)
        for r in recs:
            n = r["op"]
            if "err" in r:
                raise core.Violation("operation-fails", f"{where}: {n} in thread {r['t']} raised {r['err']}")
            v = canon(r["val"])
            d = diff(v, self.refs[n], ops.OPS[n].rtol)
            if d:
                raise core.Violation("wrong-result", f"{where}: {n} in thread {r['t']} differs from what it gives alone: {d}")
            ctx.ev("did", r["t"], n, flat_digest(v) if not ops.OPS[n].rtol else "")
        for b, snap in zip(benches, snaps):
            d = b.snapshot_diff(snap)
            if d:
                raise core.Violation("input-changed", f"{where}: {d[0]} was changed: {d[1]}")


CHECK = C15()
