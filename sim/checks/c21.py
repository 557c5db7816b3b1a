"""C21: a decision rule is always the one its last values define."""
import copy
import json

import numpy as np

from .. import core, ops, rng as simrng, sched
from ..interrupt import Interrupt, library_prefixes

EXO = {
    "none": None,
    "list": ["u", [[0.1], [0.4], [0.2]]], "pairs": ["u", [[0.1, 1.0], [0.4, 2.0], [0.2, 0.0], [0.3, 0.5]]], "one": ["u", [[0.5]]],
    "line": ["c", [-1.0], [2.0], [4]], "square": ["c", [-1.0, 0.0], [2.0, 1.0], [3, 4]],
    "uneven": ["n", [[0.0, 0.1, 0.5, 1.0]]],
}
ENDO = {
    "k": ["c", [0.5], [3.0], [7]], "ka": ["c", [0.5, -2.0], [3.0, 1.0], [5, 4]], "kab": ["c", [0.5, -2.0, 0.0], [3.0, 1.0, 1.0], [3, 4, 3]],
    "nk": ["n", [[0.0, 0.3, 1.0, 2.0]]], "nka": ["n", [[0.0, 0.3, 1.0, 2.0], [-1.0, 0.4, 2.0]]],
}
CONFIGS = [("none", "k", "linear"), ("none", "k", "cubic"), ("none", "ka", "cubic"), ("none", "ka", "linear"), ("none", "kab", "linear"), ("none", "nk", "linear"), ("none", "nka", "linear"),
           ("list", "k", "linear"), ("list", "k", "cubic"), ("list", "ka", "cubic"), ("list", "ka", "multilinear"), ("list", "nk", "linear"), ("pairs", "ka", "linear"), ("pairs", "k", "cubic"), ("one", "k", "cubic"), ("pairs", "nka", "linear"),
           ("line", "k", "linear"), ("line", "k", "cubic"), ("line", "ka", "linear"), ("line", "ka", "cubic"), ("square", "k", "linear"), ("square", "k", "cubic"), ("uneven", "nk", "linear")]


def axes(spec):
    return [np.array(x, dtype=float) for x in spec[1]] if spec[0] == "n" else [np.linspace(a, b, n) for a, b, n in zip(*spec[1:])]


def tensor(ax):
    return np.stack([x.ravel() for x in np.meshgrid(*ax, indexing="ij")], axis=1)


def basis(ax, pts, method):
    """values at the nodes -> values at the points: multilinear, or products of natural cubic splines"""
    from scipy.interpolate import CubicSpline
    out = np.ones((len(pts), 1))
    for d, x in enumerate(ax):
        E = np.eye(len(x))
        if method == "cubic":
            B = CubicSpline(x, E, axis=0, bc_type="natural")(pts[:, d])
        else:
            B = np.stack([np.interp(pts[:, d], x, e) for e in E], axis=1)
        out = (out[:, :, None] * B[:, None, :]).reshape(len(pts), -1)
    return out


class Config:
    def __init__(self, exo, endo, method):
        self.exo, self.endo, self.method = exo, endo, method
        r = np.random.RandomState(7)
        e, g = EXO[exo], ENDO[endo]
        self.eax, self.gax = (axes(e) if e and e[0] != "u" else None), axes(g)
        self.gnodes = tensor(self.gax)
        lo, hi = np.array([x[0] for x in self.gax]), np.array([x[-1] for x in self.gax])
        self.S = np.concatenate([self.gnodes, lo + (hi - lo) * r.rand(14, len(lo))])
        kind = "cubic" if method == "cubic" else "linear"
        self.Bs = basis(self.gax, self.S, kind)
        self.enodes = None if e is None else np.array(e[1]) if e[0] == "u" else tensor(self.eax)
        self.n_m = 1 if e is None else len(self.enodes)
        self.M = self.Bm = None
        if self.eax:
            lo, hi = np.array([x[0] for x in self.eax]), np.array([x[-1] for x in self.eax])
            self.M = np.concatenate([self.enodes, lo + (hi - lo) * r.rand(6, len(lo))])
            self.Bm = basis(self.eax, self.M, kind)
        self.hows = ["is", "call-is", "point-is"] + (["s", "ms", "call-s", "point-s"] if e is None else ["ms", "call-ms", "point-ms"] if self.eax else [])

    def grids(self):
        import dolo.numeric.grids as G

        def make(spec):
            if spec is None:
                return G.EmptyGrid()
            if spec[0] == "u":
                return G.UnstructuredGrid(spec[1])
            if spec[0] == "n":
                return G.NonUniformCartesianGrid(spec[1])
            return G.UniformCartesianGrid(*spec[1:])
        return make(EXO[self.exo]), make(ENDO[self.endo])

    def values(self, seed, nx, layout="C"):
        r = np.random.RandomState(seed)
        v = r.standard_normal((self.n_m, len(self.gnodes), nx))
        if seed % 5 == 0:  # linear in the state
            v = (r.standard_normal((self.n_m, 1, nx)) + np.einsum("sk,kx->sx", self.gnodes, r.standard_normal((self.gnodes.shape[1], nx)))[None])
            v = np.ascontiguousarray(v)
        if layout == "F":
            return np.asfortranarray(v)
        if layout == "view":
            big = np.zeros((self.n_m, len(self.gnodes), 2 * nx))
            big[:, :, ::2] = v
            return big[:, :, ::2]
        if layout == "list":  # what is given by looping over the nodes
            return v
        return v

    def expected(self, v, how, mi, si):
        """v: values; mi: index of the exogenous point(s); si: indices of the states"""
        if how.endswith("ms") and self.Bm is not None:
            B = np.einsum("pa,pb->pab", self.Bm[mi], self.Bs[si]).reshape(len(si), -1)
            return B @ v.reshape(-1, v.shape[2])
        return self.Bs[si] @ v[mi]

    def evaluate(self, dr, how, mi, si):
        s = self.S[si]
        if how == "s":
            return dr.eval_s(s)
        if how == "call-s":
            return dr(s)
        if how == "point-s":
            return np.array([dr(list(p)) for p in s])
        if how.endswith("ms"):
            m = self.M[mi] if self.M is not None else np.zeros((len(si), 1))
            if how == "ms":
                return dr.eval_ms(m, s)
            if how == "call-ms":
                return dr(m, s)
            return np.array([dr(a, b) for a, b in zip(m, s)])
        if how == "is":
            return dr.eval_is(mi, s)
        if how == "call-is":
            return dr(np.int64(mi) if mi % 2 else mi, s)
        return np.array([dr(mi, p) for p in s])


class C21(core.Check):
    ID = "C21"
    RULE = ("A run is a history of one to three decision rules on the same grids (exogenous grid, state grid, interpolation and number of controls chosen): values set (in several memory layouts, also the array set before, modified in place), "
            "updates of the wrong size, updates stopped by an interrupt or memory error before a chosen source line, copies, evaluations at nodes and other points in every form of the call, failing evaluations, arrays modified after they were passed in or returned; "
            "or two to three threads that update and evaluate one rule, switched before chosen source lines. Each evaluation is compared with multilinear or natural cubic spline interpolation of the values current at that moment, computed by scipy. "
            "Non-trivial when a rule was evaluated after its values had been changed, or threads were switched within the library.")
    REAL = ["decision rules, grids, dispatch and compiled interpolation routines", "real threads, one running at a time"]
    STUBS = ["moment of interrupts and thread scheduling, through sys.settrace"]
    RUNS = {"quick": 6000, "thorough": 150000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (configuration, sequence of kinds of operation) combinations, and positions of thread switches"
    ASSUMPTIONS = ["Points outside of the state grid are left out (the rule extrapolates there; no other value is promised).",
                   "A switch or interrupt can come before any source line of dolo; compiled interpolation routines are atomic."]

    def setup(self, tier):
        ops.setup_library()
        self.prefixes = library_prefixes()
        self.configs = [Config(*c) for c in CONFIGS]
        for i, c in enumerate(self.configs):  # compile
            for nx in (1, 2):
                dr = self.rule(c, c.values(3, nx))
                for how in c.hows:
                    c.evaluate(dr, how, np.zeros(2, dtype=int) if how.endswith("ms") and c.M is not None else 0, [0, 1])

    def rule(self, c, v, grids=None):
        from dolo.numeric.decision_rule import DecisionRule
        exo, endo = grids or c.grids()
        return DecisionRule(exo, endo, interp_method=c.method, values=v)

    def fixed(self, tier):
        out = []
        for i, c in enumerate(CONFIGS):
            cfg = Config(*c)
            n = len(cfg.S)
            for nx in (1, 3):
                nodes = [["eval", 0, how, cfg.n_m - 1, list(range(len(cfg.gnodes)))] for how in cfg.hows if how[:5] != "point"]
                h = [["eval", 0, how, m, list(range(0, n, 1 if how[:5] != "point" else 9))] for how in cfg.hows for m in range(cfg.n_m)]
                out.append({"config": i, "nx": nx, "seed": 1, "ops": h[:]})
                out.append({"config": i, "nx": nx, "seed": 2, "ops": h[:2] + [["set", 0, 10, "C"], ["mutate"]] + h + nodes + [["set", 0, 5, "F"], ["copy", 0, "copy"], ["set", 0, 7, "view"]] + h[-2:] + [["eval", 1] + h[0][2:], ["reset", 0], h[0], nodes[0], ["mutate"], nodes[0], ["bad", 0, "short"], h[1]]})
            lines = [["stop", 0, 20 + k, k, "interrupt" if k % 2 else "memory"] for k in range(1, 26)]
            out.append({"config": i, "nx": 2, "seed": 4, "ops": [x for l in lines for x in (l, ["eval", 0, cfg.hows[0], cfg.n_m - 1, [0, n - 1]])]})
            for gap in range(0, 24, 2):
                out.append({"config": i, "nx": 1, "seed": 4, "threads": [[["set", 11], ["set", 12]], [["eval", cfg.hows[k % len(cfg.hows)], k % cfg.n_m, [1, n - 2]] for k in range(4)]], "switches": [[gap, 0], [5, 0], [3, 0], [7, 0], [2, 0]], "start": 0})
        return out

    def generate(self, rng, tier):
        i = rng.randrange(len(CONFIGS))
        if not hasattr(self, "configs"):
            self.configs = [Config(*c) for c in CONFIGS]
        c = self.configs[i]
        n = len(c.S)

        def ev(slot):
            how = rng.choice(c.hows)
            if rng.random() < 0.3 and how[:5] != "point":  # the nodes themselves
                return ["eval", slot, how, rng.randrange(max(c.n_m, 1)), list(range(len(c.gnodes)))]
            k = rng.choice([1, 1, 2, 5, n]) if how[:5] != "point" else rng.choice([1, 2, 3])
            return ["eval", slot, how, rng.randrange(max(c.n_m, 1)), [rng.randrange(n) for _ in range(k)]]
        sc = {"config": i, "nx": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(1000)}
        if rng.random() < 0.4:
            sc["threads"] = []
            for t in range(rng.choice([2, 2, 3])):
                ops_ = []
                for _ in range(rng.randint(1, 4)):
                    if rng.random() < (0.7 if t == 0 else 0.2):
                        ops_.append(["set", rng.randrange(1000)])
                    else:
                        e = ev(0)
                        ops_.append(["eval"] + e[2:])
                sc["threads"].append(ops_)
            mean = rng.choice([1, 2, 4, 8])
            sc["switches"] = [[int(rng.expovariate(1 / mean)), rng.randint(0, 1)] for _ in range(rng.randint(2, 40))]
            sc["start"] = rng.randint(0, 1)
            return sc
        steps, slots = [], 1
        for _ in range(rng.choice([3, 6, 10, 16])):
            s = rng.randrange(slots)
            r = rng.random()
            if r < 0.38:
                steps.append(ev(s))
            elif r < 0.58:
                steps.append(["set", s, rng.randrange(1000), rng.choice(["C", "C", "F", "view"])])
            elif r < 0.64:
                steps.append(["reset", s])
            elif r < 0.72:
                steps.append(["mutate"])
            elif r < 0.77:
                steps.append(["bad", s, rng.choice(["short", "long", "none", "text"])])
            elif r < 0.80:
                steps.append(["badeval", s])
            elif r < 0.92 or slots > 2:
                steps.append(["stop", s, rng.randrange(1000), rng.randint(1, 30), rng.choice(["interrupt", "memory"])])
            else:
                steps.append(["copy", s, rng.choice(["copy", "deepcopy", "new", "other"])])
                slots += 1
        sc["ops"] = steps + [ev(s) for s in range(slots)]
        return sc

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("ops", "threads", "switches"))
        for i, t in enumerate(sc.get("threads", [])):
            for j in range(len(t)):
                if len(t) > 1:
                    yield dict(sc, threads=[(x if k != i else x[:j] + x[j + 1:]) for k, x in enumerate(sc["threads"])])
        if sc["nx"] > 1:
            yield dict(sc, nx=1)
        for i, o in enumerate(sc.get("ops", [])):
            if o[0] == "eval" and len(o[4]) > 1:
                for half in (o[4][:len(o[4]) // 2], o[4][len(o[4]) // 2:]):
                    yield dict(sc, ops=sc["ops"][:i] + [o[:4] + [half]] + sc["ops"][i + 1:])

    def points(self, c, how, m, si):
        if how.endswith("ms") and c.M is not None:
            return np.array([(m + 3 * j) % len(c.M) for j in range(len(si))])
        return m

    def close(self, got, exp):
        got = np.asarray(got)
        return got.shape == exp.shape and np.abs(got - exp).max() <= 1e-9 * max(1.0, np.abs(exp).max()) and not np.isnan(got).any()

    def run(self, sc, ctx):
        simrng.set_all(3)
        c = self.configs[sc["config"]]
        if "threads" in sc:
            return self.run_threads(sc, ctx, c)
        grids = c.grids()
        v = c.values(sc["seed"], sc["nx"])
        where = f"{'/'.join(CONFIGS[sc['config']])}, {sc['nx']} controls"
        with ops.quiet():
            slots = [[self.rule(c, v, grids), [v.copy()], c]]
            passed, returned, changed = [v], [], False
            kinds = []
            for i, o in enumerate(sc["ops"]):
                kind = o[0]
                kinds.append(kind)
                what = f"{where}, step {i} {json.dumps(o)[:120]} of {[x[0] for x in sc['ops'][:i]]}"
                if kind == "mutate":
                    for a in passed:
                        a += 1.0
                    for a in returned:
                        if a.flags.writeable:
                            a *= -3.0
                    changed = True
                    ctx.fault("arrays-modified")
                    continue
                slot = slots[o[1]] if o[1] < len(slots) else slots[0]
                dr, cur, _ = slot
                if kind == "set":
                    a = c.values(o[2], sc["nx"], o[3])
                    dr.set_values(a)
                    slot[1] = [np.array(a)]
                    passed.append(a)
                    changed = True
                elif kind == "reset":
                    a = passed[-1]
                    a *= -0.5
                    a += 2.0
                    dr.set_values(a)
                    slot[1] = [np.array(a)]
                    changed = True
                elif kind == "stop":
                    a = c.values(o[2], sc["nx"])
                    it = Interrupt(o[3], o[4], self.prefixes[:1])
                    try:
                        with it:
                            dr.set_values(a)
                        slot[1] = [np.array(a)]
                    except (KeyboardInterrupt, MemoryError):
                        if not it.fired:
                            raise
                        slot[1] = slot[1] + [np.array(a)]
                        ctx.fault("update-stopped")
                        ctx.ev("stopped", i, it.where.split(":")[1])
                    passed.append(a)
                    changed = True
                elif kind == "bad":
                    a = c.values(9, sc["nx"])
                    a = {"short": a[:, :-1, :], "long": np.concatenate([a, a[:, :1, :]], axis=1), "none": None, "text": "values"}[o[2]]
                    if o[2] in ("short", "long") and a.shape[1] * a.shape[2] % len(c.gnodes) == 0:
                        continue  # could be values of another number of controls
                    try:
                        dr.set_values(a)
                    except Exception as e:
                        ctx.fault("update-fails")
                        ctx.ev("bad", type(e).__name__)
                    else:
                        raise core.Violation("bad-values", f"{what}: values of the wrong size were accepted")
                elif kind == "badeval":
                    try:
                        dr.eval_is(0, "state")
                    except Exception:
                        ctx.fault("evaluation-fails")
                elif kind == "copy":
                    if o[2] == "copy":
                        new = copy.copy(dr)
                    elif o[2] == "deepcopy":
                        new = copy.deepcopy(dr)
                    elif o[2] == "new":
                        a = c.values(50 + i, sc["nx"])
                        slots.append([self.rule(c, a, grids), [a.copy()], c])
                        passed.append(a)
                        continue
                    else:
                        from dolo.numeric.decision_rule import DecisionRule
                        new = DecisionRule(dr.exo_grid, dr.endo_grid, interp_method=c.method)
                        a = c.values(70 + i, sc["nx"])
                        new.set_values(a)
                        slots.append([new, [a.copy()], c])
                        continue
                    slots.append([new, list(cur), c])
                elif kind == "eval":
                    m, si = self.points(c, o[2], o[3], o[4]), o[4]
                    if not si:
                        continue
                    got = c.evaluate(dr, o[2], m, si)
                    match = [x for x in slot[1] if self.close(got, c.expected(x, o[2], m, si))]
                    if not match:
                        d = [float(np.abs(got - c.expected(x, o[2], m, si)).max()) if np.shape(got) == c.expected(x, o[2], m, si).shape else f"shape {np.shape(got)}" for x in slot[1]]
                        raise core.Violation("wrong-value", f"{what}: the result differs from the interpolation of the last values set by {d}")
                    slot[1] = match
                    if isinstance(got, np.ndarray):
                        returned.append(got)
                    ctx.nontrivial |= changed
                    ctx.ev("eval", i, round(float(np.asarray(got).ravel()[0]), 6))
        ctx.state((sc["config"], tuple(kinds)))

    def run_threads(self, sc, ctx, c):
        v = c.values(sc["seed"], sc["nx"])
        where = f"{'/'.join(CONFIGS[sc['config']])}, {sc['nx']} controls, threads {json.dumps(sc['threads'])[:300]}"
        with ops.quiet():
            dr = self.rule(c, v)
            clock = [0]

            def tick():
                clock[0] += 1
                return clock[0]
            sets = [{"b": 0, "e": 0, "v": v}]
            evals = []

            def body(names):
                def go():
                    for o in names:
                        if o[0] == "set":
                            a = c.values(o[1], sc["nx"])
                            rec = {"b": tick(), "e": None, "v": a}
                            sets.append(rec)
                            dr.set_values(a)
                            rec["e"] = tick()
                        elif o[3]:
                            m = self.points(c, o[1], o[2], o[3])
                            # one call, so that one set of values is expected
                            how, si = (o[1], o[3]) if o[1][:5] != "point" else (o[1], o[3][:1])
                            if o[1][:5] == "point" and not np.isscalar(m):
                                m = m[:1]
                            rec = {"b": tick(), "o": (how, m, si)}
                            evals.append(rec)
                            rec["v"] = np.array(c.evaluate(dr, how, m, si))
                            rec["e"] = tick()
                return go
            s = sched.Sched(ctx, sc["switches"], self.prefixes[:1], start=sc["start"])
            threads = s.run([body(t) for t in sc["threads"]])
            for t in threads:
                if t.exc is not None:
                    raise core.Violation("thread-fails", f"{where}: thread {t.idx} raised {t.exc!r}")
            how, si = c.hows[0], [0, len(c.S) - 1]
            evals.append({"b": tick(), "e": tick(), "o": (how, c.n_m - 1, si), "v": np.array(c.evaluate(dr, how, c.n_m - 1, si))})
        for r in evals:
            ok = [x for x in sets if x["b"] < r["e"] and not any(y["b"] > x["e"] and y["e"] < r["b"] for y in sets)]
            exp = [c.expected(x["v"], *r["o"]) for x in ok]
            if not any(self.close(r["v"], e) for e in exp):
                raise core.Violation("mixed-values", f"{where}: evaluating {r['o'][0]} gave the interpolation of none of the {len(ok)} sets of values current during the call (differences {[float(np.abs(r['v'] - e).max()) if r['v'].shape == e.shape else r['v'].shape for e in exp]})")
            ctx.ev("eval", r["b"], r["e"], round(float(r["v"].ravel()[0]), 6))
        ctx.nontrivial = s.n_switch > 0
        ctx.fault("thread-switch", s.n_switch)
        ctx.state((sc["config"], json.dumps(sc["threads"])[:100], s.n_switch))


CHECK = C21()
