"""C24: the ergodic distribution is the long-run law of particles that follow the decision rule."""
import json

import numpy as np

from .. import core, models, ops, rng as simrng, world
from ..interrupt import Interrupt

MODELS = {"mc3": ("mc3", None), "mc": ("mc", None), "normal": ("normal", None), "mvnormal": ("mvnormal", None), "ar1m": ("ar1m", None), "var1": ("var1", None),
          "wide-mc": (None, world.WIDE_MC), "wide-normal": (None, "!Normal\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"), "wide-var": (None, world.WIDE_VAR)}


def text(name):
    exo, block = MODELS[name]
    return models.text(exo) if exo else world.WIDE % block


class Boom(ArithmeticError):
    pass


class C24(core.Check):
    ID = "C24"
    RULE = ("A run takes a model of one or two states driven by a chain, a discretized autoregression or independent shocks, a decision rule whose next states fall between nodes, on nodes, or outside of the grid, and calls the ergodic distribution one to six times, on the grid of the "
            "rule or another one, with the process of the rule or another one, with and without the distribution itself. In between: parameters and values of the rule change, returned arrays are modified, calls are stopped by an interrupt or memory error before a chosen source line or by a failing "
            "transition. After every call the kernel is compared, entry by entry, with one built from the restated law of motion and a lottery between the neighbouring nodes; the distribution must be a probability vector that this kernel leaves unchanged, on the right coordinates, and the long-run frequencies of "
            "seeded particles must agree with it. Non-trivial when the rule or parameters changed, or a call was stopped, before the last call.")
    REAL = ["ergodic distribution, decision rules, grids, discretized processes, compiled transition (compiled once per distinct code)"]
    STUBS = ["moment of interrupts (sys.settrace), failing evaluations of the transition", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "random numbers of the particles (seeded generator of the check)"]
    RUNS = {"quick": 4000, "thorough": 80000}
    SOFT_S = {"quick": 40, "thorough": 900}
    STATE_MEASURE = "distinct (model, grid, rule, parameters, process) combinations"
    ASSUMPTIONS = ["The distribution is compared only when the kernel has one recurrent class; where it has several there is no unique answer.",
                   "States that would leave the grid are put on its boundary.",
                   "Rules are interpolated as the library does between their nodes (decided by C21)."]

    def setup(self, tier):
        ops.setup_library()
        for k in MODELS:
            self.run({"model": k, "n": [4, 3], "method": "linear", "rule": [1, 0.5, 0.3], "steps": [{"do": "dist"}]}, core.Ctx())

    def fixed(self, tier):
        out = []
        for k in MODELS:
            for method in ("linear", "cubic"):
                for rule in ([1, 0.5, 0.1], [2, 0.9, 0.6], [3, 0.0, 2.0], [4, 1.0, 0.0]):
                    out.append({"model": k, "n": [5, 4], "method": method, "rule": rule, "steps": [{"do": "dist"}, {"do": "dist", "kernel": True}]})
            out.append({"model": k, "n": [5, 4], "method": "linear", "rule": [5, 0.8, 0.3], "steps": [{"do": "dist"}, {"do": "spoil"}, {"do": "dist"}, {"do": "set", "delta": 0.2}, {"do": "dist"}, {"do": "rule", "rule": [6, 0.3, 0.3]}, {"do": "dist"}]})
            out.append({"model": k, "n": [5, 4], "method": "linear", "rule": [5, 0.8, 0.3], "steps": [{"do": "dist", "grid": [7, 3]}, {"do": "dist"}, {"do": "dist", "grid": [2, 2]}]})
            out.append({"model": k, "n": [5, 4], "method": "linear", "rule": [5, 0.8, 0.3], "steps": [{"do": "dist", "grid": [5, 4, 0.1, 0.8]}, {"do": "set", "delta": 0.1, "exo": 0.5}, {"do": "dist"}, {"do": "dist", "grid": [4, 3, -0.3, 1.2]}]})
            for n in (3, 6, 12, 20, 40):
                out.append({"model": k, "n": [4, 3], "method": "linear", "rule": [5, 0.8, 0.3], "steps": [{"do": "dist"}, {"do": "dist", "stop": ["interrupt", n]}, {"do": "dist"}]})
        return out

    def generate(self, rng, tier):
        k = rng.choice(list(MODELS))
        rule = lambda: [rng.randrange(10 ** 6), rng.choice([0.0, 0.3, 0.8, 0.95, 1.0]), rng.choice([0.0, 0.1, 0.3, 0.8, 3.0])]
        steps = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            r = rng.random()
            if r < 0.15:
                steps.append({"do": "set", "delta": rng.choice([0.05, 0.1, 0.3])})
                if rng.random() < 0.4:
                    steps[-1]["exo"] = rng.choice([-0.3, 0.2, 1.0])
            elif r < 0.3:
                steps.append({"do": "rule", "rule": rule()})
            elif r < 0.4:
                steps.append({"do": "spoil"})
            else:
                st = {"do": "dist"}
                if rng.random() < 0.3:
                    st["kernel"] = True
                if rng.random() < 0.3:
                    st["grid"] = [rng.choice([2, 3, 6, 9]), rng.choice([2, 3, 5])] + rng.choice([[], [], [0.1, 0.8], [-0.3, 1.2], [0.4, 0.5]])
                if rng.random() < 0.25:
                    st["process"] = rng.randrange(10 ** 6)
                if rng.random() < 0.25:
                    st["stop"] = [rng.choice(["interrupt", "memory", "fail"]), rng.choice([rng.randint(1, 8), rng.randint(1, 150)])]
                steps.append(st)
        return {"model": k, "n": [rng.choice([2, 3, 4, 6, 9]), rng.choice([2, 3, 4])], "method": rng.choice(["linear", "cubic"]), "rule": rule(), "steps": steps + [{"do": "dist"}]}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("steps",))
        for i, s in enumerate(sc["steps"]):
            for a in ("kernel", "grid", "process", "stop"):
                if a in s:
                    yield dict(sc, steps=[x if j != i else {p: q for p, q in s.items() if p != a} for j, x in enumerate(sc["steps"])])
        if sc["n"] != [3, 2]:
            yield dict(sc, n=[3, 2])
        if sc["method"] == "cubic":
            yield dict(sc, method="linear")

    # ------------------------------------------------------------------ the world
    def values(self, S, rule, n_m):
        """values of the rule at the nodes: next states are spread around a mean-reverting path"""
        seed, persistence, spread = rule
        r = np.random.RandomState(seed % 2 ** 31)
        mid, size = (S.min(axis=0) + S.max(axis=0)) / 2, (S.max(axis=0) - S.min(axis=0)) / 2
        to = mid + persistence * (S - mid)
        to = to[None, :, :] + spread * size * (r.rand(n_m, *S.shape) - 0.5)
        k = to[:, :, 0] - 0.9 * S[None, :, 0]
        if S.shape[1] == 1:
            return np.ascontiguousarray(k[:, :, None])
        k = k - 0.1 * S[None, :, 1]
        n = (to[:, :, 1] - 0.5 * S[None, :, 1]) / 0.3
        return np.ascontiguousarray(np.stack([k, n, 0.1 * r.rand(*k.shape)], axis=2))

    def transition(self, wide, m, s, x, M, delta):
        k = (1 - delta) * s[:, 0] + x[:, 0] + 0.05 * m[0] + 0.2 * M[0]
        if not wide:
            return (k + (0.1 * M[1] if len(M) > 1 else 0.0))[:, None]
        return np.stack([k + 0.1 * s[:, 1], 0.5 * s[:, 1] + 0.3 * x[:, 1] + 0.1 * M[1] - 0.02 * m[1] * s[:, 0] + 0.01 * x[:, 2]], axis=1)

    def lottery(self, S, lo, hi, n):
        """probabilities of the nodes of a grid that keep the mean"""
        W = np.ones((len(S), 1))
        for j in range(S.shape[1]):
            u = np.clip((S[:, j] - lo[j]) / (hi[j] - lo[j]), 0.0, 1.0) * (n[j] - 1)
            q = np.minimum(np.floor(u).astype(int), n[j] - 2)
            w = np.zeros((len(S), n[j]))
            w[np.arange(len(S)), q] += 1 - (u - q)
            w[np.arange(len(S)), q + 1] += u - q
            W = (W[:, :, None] * w[:, None, :]).reshape(len(S), -1)
        return W

    def kernel(self, wide, dr, m, grid, dp, iid, delta):
        lo, hi, n = np.array(grid.min), np.array(grid.max), [int(a) for a in grid.n]
        nodes = np.stack([a.ravel() for a in np.meshgrid(*[np.linspace(a, b, c) for a, b, c in zip(lo, hi, n)], indexing="ij")], axis=1)
        N_m = 1 if iid else dp.n_nodes
        out = np.zeros((N_m, len(nodes), 1 if iid else N_m, len(nodes)))
        for i in range(N_m):
            x = dr(nodes) if iid else dr(i, nodes)
            mm = m if iid else np.array(dp.node(i))
            for j in range(dp.n_inodes(i)):
                P = self.lottery(self.transition(wide, mm, nodes, x, np.array(dp.inode(i, j)), delta), lo, hi, n) * dp.iweight(i, j)
                out[i, :, 0 if iid else j] += P
        return out, nodes

    def process(self, dp, seed, iid):
        """another process with the same nodes"""
        from dolo.numeric.distribution import FiniteDistribution
        from dolo.numeric.processes import MarkovChain
        r = np.random.RandomState(seed)
        if iid:
            n = r.randint(1, 5)
            w = 0.1 + r.rand(n)
            return FiniteDistribution(0.05 * r.randn(n, dp.d), w / w.sum())
        n = dp.n_nodes
        P = r.rand(n, n) * (r.rand(n, n) < 0.7) + 0.2 * np.eye(n)[r.permutation(n)]
        return MarkovChain(P / P.sum(axis=1)[:, None], np.array([dp.node(i) for i in range(n)]))

    def classes(self, K):
        from scipy.sparse.csgraph import connected_components
        n, lab = connected_components(K > 1e-13, directed=True, connection="strong")
        return sum(1 for c in range(n) if not (K[lab == c][:, lab != c] > 1e-13).any())

    # ------------------------------------------------------------------ run
    def run(self, sc, ctx):
        from dolo.algos.ergodic import ergodic_distribution
        from dolo.numeric.decision_rule import DecisionRule
        from dolo.numeric.grids import UniformCartesianGrid
        simrng.set_all(1)
        wide = sc["model"].startswith("wide")
        last, changed = None, False
        with ops.quiet():
            m = models.load_text(text(sc["model"]))
            delta = float(m.calibration["delta"])
            base, dp = m.discretize()
            lo, hi = np.array(base["endo"].min), np.array(base["endo"].max)
            n = sc["n"][:2] if wide else sc["n"][:1]
            grid = UniformCartesianGrid(lo, hi, n)
            iid = not hasattr(dp, "transitions")
            dr = DecisionRule(base["exo"], grid, interp_method=sc["method"], dprocess=dp)
            dr.set_values(self.values(grid.nodes, sc["rule"], dp.n_nodes))
            states = m.symbols["states"]
            for num, st in enumerate(sc["steps"]):
                if st["do"] == "set":
                    delta = st["delta"]
                    m.set_calibration(delta=delta, **({m.symbols["exogenous"][0]: st["exo"]} if "exo" in st else {}))
                    changed = True
                    continue
                if st["do"] == "rule":
                    dr.set_values(self.values(grid.nodes, st["rule"], dp.n_nodes))
                    changed = True
                    continue
                if st["do"] == "spoil":
                    if last is not None:
                        for a in last:
                            a = getattr(a, "values", a)
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a *= 0.5
                                ctx.fault("result-modified")
                    changed = True
                    continue
                g = grid
                if "grid" in st:  # other numbers of nodes, maybe other bounds
                    a, b = (st["grid"] + [0.0, 1.0])[2:4]
                    g = UniformCartesianGrid(lo + a * (hi - lo), lo + b * (hi - lo), st["grid"][:len(n)])
                d = self.process(dp, st["process"], iid) if "process" in st else dp
                plain = g is grid and d is dp and not st.get("kernel")
                call = lambda: ergodic_distribution(m, dr) if plain else ergodic_distribution(m, dr, dr.exo_grid, g, d, False) if st.get("kernel") else ergodic_distribution(m, dr, dr.exo_grid, g, d)
                what = f"call {num} {json.dumps(st)} on {json.dumps({a: sc[a] for a in ('model', 'n', 'method', 'rule')})} after {json.dumps(sc['steps'][:num])}"
                stop, fired, res = st.get("stop"), False, None
                try:
                    if stop and stop[0] == "fail":
                        real, count = m.functions["transition"], [0]

                        def failing(*a, **kw):
                            count[0] += 1
                            if count[0] == stop[1]:
                                raise Boom("injected")
                            return real(*a, **kw)
                        m.functions["transition"] = failing
                        try:
                            res = call()
                        finally:
                            m.functions["transition"] = real
                            fired = count[0] >= stop[1]
                    elif stop:
                        inj = Interrupt(stop[1], stop[0])
                        try:
                            with inj:
                                res = call()
                        finally:
                            fired = inj.fired
                    else:
                        res = call()
                except (Exception, KeyboardInterrupt) as e:
                    if fired:
                        ctx.fault("stopped-by-" + stop[0])
                        changed = True
                        continue
                    if isinstance(e, np.linalg.LinAlgError):
                        K, nodes = self.kernel(wide, dr, np.array(m.calibration["exogenous"]), g, d, iid, delta)
                        if self.classes(K.reshape(K.shape[0] * K.shape[1], -1)) > 1:
                            ctx.ev("no-unique-answer")
                            continue
                    raise core.Violation("fails", f"{what}: raised {e!r}")
                self.judge(wide, m, dr, g, d, iid, delta, res, st.get("kernel"), states, what, ctx)
                last = res if isinstance(res, tuple) else (res,)
                ctx.nontrivial = ctx.nontrivial or changed
                ctx.state((sc["model"], str(sc["rule"]), delta, str(st.get("grid") or sc["n"]), st.get("process")))

    def judge(self, wide, m, dr, g, d, iid, delta, res, only_kernel, states, what, ctx):
        P, mu = (res, None) if only_kernel else res
        K, nodes = self.kernel(wide, dr, np.array(m.calibration["exogenous"]), g, d, iid, delta)
        N_m, N_s = K.shape[0], K.shape[1]
        shape = (N_s, N_s) if iid else (N_m, N_s, N_m, N_s)
        if np.shape(P) != shape:
            raise core.Violation("shape", f"{what}: the kernel has shape {np.shape(P)}, not {shape}")
        P = np.asarray(P).reshape(N_m * N_s, -1)
        K = K.reshape(N_m * N_s, -1)
        if not (P >= -1e-12).all() or not np.abs(P.sum(axis=1) - 1).max() <= 1e-9:
            k = int(np.abs(P.sum(axis=1) - 1).argmax())
            raise core.Violation("rows", f"{what}: row {k} of the kernel is not a probability vector (sum {P[k].sum()}, least entry {P.min()})")
        if not np.abs(P - K).max() <= 1e-8:
            k = int(np.abs(P - K).max(axis=1).argmax())
            i, j = divmod(k, N_s)
            raise core.Violation("kernel", f"{what}: from exogenous node {i} and state {nodes[j].tolist()} the kernel puts {[(int(a), float(P[k, a])) for a in np.nonzero(P[k])[0]][:8]}, the law of motion {[(int(a), float(K[k, a])) for a in np.nonzero(K[k])[0]][:8]}")
        ctx.ev("kernel", N_m * N_s, round(float(P.max()), 8))
        if mu is None:
            return
        sizes = [int(a) for a in g.n]
        dims = tuple(states) if iid else ("i_m",) + tuple(states)
        if tuple(mu.dims) != dims or mu.shape != tuple(([] if iid else [N_m]) + sizes):
            raise core.Violation("shape", f"{what}: the distribution has dimensions {mu.dims} {mu.shape}")
        for j, s in enumerate(states):
            if not np.abs(np.asarray(mu.coords[s]) - np.linspace(g.min[j], g.max[j], sizes[j])).max() <= 1e-9:
                raise core.Violation("coordinates", f"{what}: {s} is labelled {np.asarray(mu.coords[s]).tolist()}")
        if self.classes(K) > 1:
            ctx.probe("several-classes")
            return
        v = np.asarray(mu).ravel()
        cond = np.linalg.svd(np.concatenate([K.T - np.eye(len(K)), np.ones((1, len(K)))]), compute_uv=False)[-1]
        tol = 1e-10 / max(cond, 1e-8) + 1e-9
        if not abs(v.sum() - 1) <= 1e-6 or not v.min() >= -tol:
            raise core.Violation("distribution", f"{what}: the distribution sums to {v.sum()}, its least value is {v.min()}")
        if not np.abs(v @ K - v).max() <= tol:
            raise core.Violation("not-invariant", f"{what}: one date later the distribution differs by {np.abs(v @ K - v).max()}")
        self.particles(K, v, what, ctx)

    def particles(self, K, v, what, ctx):
        """frequencies of particles drawn from the distribution and moved by the kernel must not drift from it"""
        r = np.random.RandomState(len(K))
        N, T = 300, 12
        p = np.clip(v, 0, None)
        cum = K.cumsum(axis=1)
        at = np.searchsorted(p.cumsum() / p.sum(), r.rand(N))
        at = np.minimum(at, len(p) - 1)
        for _ in range(T):
            at = np.minimum((cum[at] < r.rand(N)[:, None] * cum[at][:, -1:]).sum(axis=1), len(p) - 1)
        freq = np.bincount(at, minlength=len(p)) / N
        if (np.abs(freq - p) > 7 * np.sqrt(p * (1 - p) / N) + 7.0 / N).any():
            k = int((np.abs(freq - p) - 7 * np.sqrt(p * (1 - p) / N)).argmax())
            raise core.Violation("particles", f"{what}: {freq[k]} of the particles end in node {k}, the distribution says {p[k]}")
        ctx.simtime += N * T


CHECK = C24()
