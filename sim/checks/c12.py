"""C12: a model shared between threads gives each of them the right answers."""
import json
import threading
import warnings

import numpy as np

from .. import core, models, rng as simrng, sched
from ..canon import canon, diff, flat_digest
from ..interrupt import library_prefixes

READS = ["symbols", "symbols", "variables", "equations", "equations", "definitions", "definitions", "calibration", "calibration", "calibration", "domain", "domain",
         "exogenous", "exogenous", "functions", "bounds", "endo_grid", "residuals", "str", "get_calibration", "get_domain", "get_exogenous", "html", "eval_formula", "name"]
CAL_READS = {"calibration", "domain", "exogenous", "endo_grid", "residuals", "str", "get_calibration", "get_domain", "get_exogenous", "html", "eval_formula"}
ARGS = None


def read(m, what):
    if what in ("symbols", "equations", "definitions"):
        return canon(dict(getattr(m, what)))
    if what == "variables":
        return canon(list(m.variables))
    if what == "calibration":
        return canon(m.calibration)
    if what == "get_calibration":
        return canon(m.get_calibration())
    if what in ("domain", "get_domain"):
        d = m.domain if what == "domain" else m.get_domain()
        return ("domain", tuple(d.states), np.array(d.min), np.array(d.max))
    if what in ("exogenous", "get_exogenous"):
        return canon(m.exogenous if what == "exogenous" else m.get_exogenous())
    if what == "endo_grid":
        g = m.endo_grid
        return (type(g).__name__, np.array(g.nodes))
    if what == "functions":
        f = m.functions
        n = [len(m.data["symbols"][g]) for g in ("exogenous", "states", "controls")]
        a = [np.full(k, v) for k, v in zip(n, (0.01, 1.3, 0.2))] + [np.array([0.9, 2.0, 0.1, 0.33, 0.8, 0.0004, 0.0])]
        out = [tuple(sorted(f.keys())), np.array(f["transition"](a[0], a[1], a[2], a[0], a[3])), np.array(f["arbitrage"](a[0], a[1], a[2], a[0], a[1], a[2], a[3]))]
        if "auxiliary" in f:
            out.append(np.array(f["auxiliary"](*a)))
        return tuple(out)
    if what == "bounds":
        b = m.x_bounds
        n = [len(m.data["symbols"][g]) for g in ("exogenous", "states")]
        return None if b is None else tuple(np.array(f(np.full(n[0], 0.01), np.full(n[1], 1.3), np.array([0.9, 2.0, 0.1, 0.33, 0.8, 0.0004, 0.0]))) for f in b)
    if what == "residuals":
        return canon(m.residuals())
    if what == "str":
        return str(m)
    if what == "html":
        return m._repr_html_()
    if what == "eval_formula":
        return float(m.eval_formula("beta + 2*alpha*k"))
    if what == "name":
        return m.name
    raise Exception(what)


VARIANTS = {
    "mc": lambda: models.text("mc"),
    "mc-old": lambda: models.text("mc3", style="old"),
    "ar1": lambda: models.text("ar1"),
    "ar1-old": lambda: models.text("ar1m", style="old"),
    "normal-nodefs": lambda: models.text("normal", defs=False),
    "product": lambda: models.text("product"),
    "mc-params": lambda: models.text("mc").replace("[[-0.02],[0.03]]", "[[-sig_z],[sig_z*2]]").replace("[0.8, 0.2]", "[rho, 1-rho]"),
    "nonuniform": lambda: models.text("mc").replace("grid: !Cartesian\n        orders: [8]", "grid: !NonUniformCartesian\n        - [k*0.3, k*0.6, k, k*1.5, k*1.9]"),
}


class C12(core.Check):
    ID = "C12"
    RULE = ("A run is a model nobody has read yet (or one that is warm), two or three threads each with a list of reads, at most one of them also updating the calibration, and a schedule that "
            "switches threads before chosen source lines of dolo and dolang. Each value read must be that of one calibration current during the read, hence that of a single-threaded "
            "read when nothing is updated. Non-trivial when threads were switched within the library.")
    REAL = ["Model and SymbolicModel readers and updates, their lock, compiled model functions (compiled once per distinct code)", "real threads, one running at a time"]
    STUBS = ["locks created by the library (contention yields to the scheduler)", "thread scheduling, through sys.settrace", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)"]
    RUNS = {"quick": 3000, "thorough": 60000}
    SOFT_S = {"quick": 50, "thorough": 900}
    STATE_MEASURE = "distinct (pair of positions at which threads were switched) combinations"
    ASSUMPTIONS = ["A switch can happen before any source line of dolo and dolang; compiled code, lark and yaml are atomic."]

    def setup(self, tier):
        import numba, numba.core.typing, scipy.optimize, xarray, pandas, lark, yaml, dolang, interpolation, multipledispatch  # noqa: with real locks
        import interpolation.splines, quantecon  # noqa
        with sched.SimLocks():
            import dolo  # noqa
            from dolo.compiler import model  # noqa
        models.memo_compile().__enter__()
        models.memo_parse().__enter__()
        self.texts = {v: f() for v, f in VARIANTS.items()}
        self.refs = {}
        self.prefixes = library_prefixes()
        for v in self.texts:
            m = models.load_text(self.texts[v])
            for w in set(READS):
                read(m, w)

    def fixed(self, tier):
        out = []
        for v in self.texts:
            for a in ("symbols", "definitions", "equations", "calibration", "variables", "functions", "exogenous"):
                for b in ("symbols", "equations", "calibration"):
                    for mean in (2, 12, 60):
                        out.append({"variant": v, "warm": [], "threads": [[["read", a]], [["read", b]], [["read", a]]], "switches": [[mean * (1 + (i * 5) % 3), i % 2] for i in range(40)], "start": 0, "models": 1})
            for w in sorted(CAL_READS):
                for mean in (1, 7, 40):
                    out.append({"variant": v, "warm": ["calibration", "domain"], "threads": [[["read", w], ["read", w]], [["set", {"beta": 0.8, "alpha": 0.3, "rho": 0.5}], ["read", w]], [["read", "calibration"]]],
                                "switches": [[mean * (1 + (i * 7) % 3), i % 2] for i in range(40)], "start": 0, "models": 1})
        return out

    def generate(self, rng, tier):
        threads = []
        nt = rng.choice([2, 2, 3])
        writer = rng.randrange(nt) if rng.random() < 0.65 else None
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                if t == writer and rng.random() < 0.6:
                    ops.append(["set", {n: round(rng.uniform(a, b), 6) for n, a, b in rng.sample([("beta", 0.7, 0.97), ("alpha", 0.25, 0.4), ("rho", 0.3, 0.9), ("sig_z", 1e-4, 1e-3), ("delta", 0.05, 0.2), ("shift", -0.1, 0.1)], rng.choice([1, 2, 3]))}])
                else:
                    ops.append(["read", rng.choice(READS)])
            threads.append(ops)
        mean = rng.choice([1, 2, 4, 8, 20, 50, 150, 500])
        return {"variant": rng.choice(list(self.texts)), "warm": rng.choice([[], [], ["symbols"], ["calibration"], ["calibration", "domain", "exogenous", "functions"], ["equations"]]),
                "threads": threads, "switches": [[int(rng.expovariate(1 / mean)), rng.randint(0, 1)] for _ in range(rng.randint(1, 80))], "start": rng.randrange(nt),
                "models": 2 if rng.random() < 0.1 else 1}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("threads", "switches", "warm"))
        for i, t in enumerate(sc["threads"]):
            for j in range(len(t)):
                if len(t) > 1:
                    yield dict(sc, threads=[(x if k != i else x[:j] + x[j + 1:]) for k, x in enumerate(sc["threads"])])

    def reference(self, variant, cal, what):
        key = (variant, json.dumps(cal, sort_keys=True) if what in CAL_READS else "", what)
        if key not in self.refs:
            if len(self.refs) > 5000:
                self.refs.clear()
            m = models.load_text(self.texts[variant], check=False)
            if cal and what in CAL_READS:
                m.set_calibration(**cal)
            try:
                self.refs[key] = read(m, what)
            except Exception as e:
                raise core.Stuck(f"single-threaded {what} of {variant} with {cal} raised {e!r}")
        return self.refs[key]

    def run(self, sc, ctx):
        v = sc["variant"]
        simrng.set_all(11)
        history = []
        problems = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with sched.SimLocks():
                ms = []
                for _ in range(sc["models"]):
                    m = models.load_text(self.texts[v], check=False)
                    for w in sc["warm"]:
                        read(m, w)
                    ms.append(m)

                def body(i, ops):
                    m = ms[i % len(ms)]

                    def go():
                        for op in ops:
                            rec = {"t": i, "op": op, "a": len(history)}
                            history.append(("start", i))
                            try:
                                if op[0] == "read":
                                    rec["val"] = read(m, op[1])
                                else:
                                    m.set_calibration(**op[1])
                            except sched.Killed:
                                raise
                            except Exception as e:
                                rec["err"] = repr(e)
                            rec["b"] = len(history)
                            history.append(("end", i))
                            recs.append(rec)
                    return go

                recs = []
                s = sched.Sched(ctx, sc["switches"], self.prefixes, start=sc["start"])
                threads = s.run([body(i, ops) for i, ops in enumerate(sc["threads"])])
            for t in threads:
                if t.exc is not None:
                    raise core.Violation("thread-dies", f"{json.dumps(sc)[:600]}: thread {t.idx} raised {t.exc!r}")
            ctx.nontrivial = s.n_switch > 0
            ctx.fault("thread-switch", s.n_switch)
            sets = {}
            for r in sorted(recs, key=lambda r: r["a"]):
                if r["op"][0] == "set":
                    sets.setdefault(r["t"] % len(ms), []).append(r)
            where = f"model {v} (read before: {sc['warm']}), threads {json.dumps(sc['threads'])}"
            for r in sorted(recs, key=lambda r: r["a"]):
                if "err" in r:
                    raise core.Violation("read-fails" if r["op"][0] == "read" else "update-fails", f"{where}: {r['op']} in thread {r['t']} raised {r['err']} (switched at {s.where})")
                if r["op"][0] != "read":
                    continue
                ups = sets.get(r["t"] % len(ms), [])
                low = sum(1 for u in ups if u["b"] < r["a"])
                high = sum(1 for u in ups if u["a"] < r["b"])
                why = None
                for n in range(low, high + 1):
                    cal = {}
                    for u in ups[:n]:
                        cal.update(u["op"][1])
                    why2 = diff(r["val"], self.reference(v, cal, r["op"][1]), 1e-12)
                    if why2 is None:
                        why = None
                        break
                    why = why or why2
                if why:
                    raise core.Violation("wrong-read", f"{where}: {r['op'][1]} read in thread {r['t']} is that of no calibration current during the read (updates {low} to {high}): {why} (switched at {s.where})")
                ctx.ev("read", r["t"], r["op"][1], flat_digest(r["val"]))
            # afterwards the model is that of the last calibration
            for k, m in enumerate(ms):
                cal = {}
                for u in sets.get(k, []):
                    cal.update(u["op"][1])
                for w in ("symbols", "definitions", "equations", "variables", "calibration", "domain", "exogenous", "functions", "bounds"):
                    try:
                        val = read(m, w)
                    except Exception as e:
                        raise core.Violation("read-fails", f"{where}: afterwards {w} raised {e!r}")
                    d = diff(val, self.reference(v, cal, w), 1e-12)
                    if d:
                        raise core.Violation("wrong-afterwards", f"{where}: afterwards {w} differs from a single-threaded read: {d} (switched at {s.where})")


CHECK = C12()
