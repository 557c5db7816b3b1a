"""C25: a decision rule reported as converged satisfies the model's optimality conditions, whatever was solved, changed or interrupted before."""
import json

import numpy as np

from .. import core, models, ops, rng as simrng
from ..canon import canon, diff, values_of
from ..interrupt import Interrupt
from .c23 import GROWTH, RBC, Growth, Rbc, Spoiled

N2 = "!Normal\n    Sigma: [[0.0004, 0.0],[0.0, 0.0002]]\n"
MC2 = "!MarkovChain\n    values: [[-0.02, 0.05],[0.0, 0.08],[0.03, 0.02]]\n    transitions: [[0.8, 0.2, 0.0], [0.3, 0.4, 0.3], [0.0, 0.1, 0.9]]\n"
RARE = "!MarkovChain\n    values: [[0.01, 0.05],[-0.4, 0.04]]\n    transitions: [[0.9995, 0.0005], [0.4, 0.6]]\n"
VAR2 = "!VAR1\n    rho: 0.7\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"
MC1 = "!MarkovChain\n    values: [[-0.01],[0.02]]\n    transitions: [[0.9, 0.1], [0.4, 0.6]]\n"
VALUE = "\n    value: |\n        V[t] = c[t]^(1-sigma)/(1-sigma) + beta*V[t+1]\n\ncalibration:\n"


def growth(exo, n=8, value=False):
    t = GROWTH[:GROWTH.index("exogenous: !Normal")].replace("ilb <= i[t] <= iub", "ilb*exp(3*z[t]) <= i[t] <= iub*exp(-3*z[t])*(0.4 + 0.2*k[t])") + f"exogenous: {exo}\ndomain:\n    k: [k*0.5, k*1.6]\n\noptions:\n    grid: !Cartesian\n        orders: [{n}]\n"
    if value:
        t = t.replace("    controls: [i]\n", "    controls: [i]\n    values: [V]\n").replace("\ncalibration:\n", VALUE).replace("    c: y - i - g\n", "    c: y - i - g\n    V: c^(1-sigma)/(1-sigma)/(1-beta)\n")
    return t


def rbc(exo):
    return RBC[:RBC.index("exogenous: !UNormal")] + f"exogenous: {exo}\ndomain:\n    z: [-0.08, 0.08]\n    k: [k*0.6, k*1.4]\n\noptions:\n    grid: !Cartesian\n        orders: [4, 6]\n"


class G(Growth):
    params = {"beta": [0.85, 0.92], "sigma": [1.5, 3.0], "delta": [0.08, 0.15], "alpha": [0.3, 0.36], "ilb": [0.01, 0.1], "iub": [5.0, 0.2], "g": [0.0, 0.08]}

    @staticmethod
    def limits(m, s, p):
        return p["ilb"] * np.exp(3 * m[:, :1]), p["iub"] * np.exp(-3 * m[:, :1]) * (0.4 + 0.2 * s[:, :1])

    @classmethod
    def felicity(cls, m, s, x, p):
        return cls.auxiliary(m, s, x, p)[:, 1] ** (1 - p["sigma"]) / (1 - p["sigma"])


class R(Rbc):
    params = {"beta": [0.93, 0.97], "sigma": [1.5, 3.0], "eta": [0.5, 2.0], "rho": [0.0, 0.9], "delta": [0.08, 0.12], "ilb": [0.0, 0.1]}

    @staticmethod
    def limits(m, s, p):
        n = len(s)
        return np.stack([np.zeros(n), np.full(n, p["ilb"])], axis=1), np.full((n, 2), np.inf)


class Tiny:
    exo, states, controls = ["z"], ["k"], ["i"]
    params = {"beta": [0.85, 0.93], "sigma": [1.5, 3.0], "delta": [0.08, 0.15], "alpha": [0.3, 0.36], "sig_z": [0.0, 0.04]}

    @staticmethod
    def transition(m, s, x, M, p):
        return ((1 - p["delta"]) * s[:, 0] + x[:, 0] + 0.05 * m[:, 0] + 0.2 * M[:, 0])[:, None]

    @staticmethod
    def arbitrage(m, s, x, M, S, X, p):
        c, C = np.exp(m[:, 0]) * s[:, 0] ** p["alpha"] - x[:, 0], np.exp(M[:, 0]) * S[:, 0] ** p["alpha"] - X[:, 0]
        return (1 - p["beta"] * (c / C) ** p["sigma"] * (1 - p["delta"] + p["alpha"] * np.exp(M[:, 0]) * S[:, 0] ** (p["alpha"] - 1)))[:, None]

    @staticmethod
    def limits(m, s, p):
        return np.full((len(s), 1), 0.01), 0.9 * np.exp(m[:, :1]) * s[:, :1] ** p["alpha"]

    @staticmethod
    def felicity(m, s, x, p):
        return (np.exp(m[:, 0]) * s[:, 0] ** p["alpha"] - x[:, 0]) ** (1 - p["sigma"]) / (1 - p["sigma"])


SPECS = {
    "mc3": (models.text("mc3"), Tiny), "normal": (models.text("normal"), Tiny), "mc2d": (growth(MC2, value=True), G), "normal2d": (growth(N2, value=True), G),
    "rare": (growth(RARE), G), "var1": (growth(VAR2, 6), G), "rbc": (rbc("!UNormal\n    sigma: 0.01\n"), R), "rbc-mc": (rbc(MC1), R),
}
EGM = "egm"


def clip(v, lb, ub):
    return np.minimum(np.maximum(v, lb), ub)


def nodes_of(dp, dr, n_m):
    """[(exogenous value of node i, evaluation there, [(weight, value of j, evaluation there)])], from the process and the rule"""
    from dolo.numeric.grids import CartesianGrid, EmptyGrid, UnstructuredGrid
    out = []
    for i in range(dp.n_nodes):
        fut = []
        for j in range(dp.n_inodes(i)):
            M = np.array(dp.inode(i, j), dtype=float)
            if isinstance(dr.exo_grid, UnstructuredGrid):
                ev = lambda S, j=j: dr.eval_is(j, S)
            elif isinstance(dr.exo_grid, EmptyGrid):
                ev = lambda S: dr.eval_s(S)
            else:
                ev = lambda S, M=M: dr.eval_ms(np.repeat(M[None, :], len(S), axis=0), S)
            fut.append((float(dp.iweight(i, j)), M, ev))
        m = np.array(dp.node(i), dtype=float)
        if isinstance(dr.exo_grid, UnstructuredGrid):
            now = lambda s, i=i: dr.eval_is(i, s)
        elif isinstance(dr.exo_grid, EmptyGrid):
            now = lambda s: dr.eval_s(s)
        else:
            now = lambda s, m=m: dr.eval_ms(np.repeat(m[None, :], len(s), axis=0), s)
        out.append((m, now, fut))
    return out


class C25(core.Check):
    ID = "C25"
    RULE = ("A run is a history on one of nine models (growth with bounds that depend on state and shock, and one or two shocks, business cycle with two states and two controls, consumption-savings by endogenous grid points; shocks i.i.d., Markov chain, also with a rare bad state, or autoregressive) "
            "of calibration changes, solves by time iteration, improved time iteration and endogenous grid points (any initial rule, interpolation, tolerance, own discretised process, constraints ignored or not, with or without details and trace), evaluations of policies, solves of another model in between, "
            "earlier results overwritten by their user, and solves that are stopped by an interrupt, a memory error, a failing hook or a failing evaluation. Every result reported as converged is put into the equations of the model, restated by hand in the check, at every node of the grid: residuals (with complementarity) must be within the "
            "tolerance times a constant. A solve that does not converge must not converge on a fresh model either. Non-trivial when something had happened on the model before.")
    REAL = ["time iteration, improved time iteration, policy evaluation, endogenous grid points, Newton and complementarity solvers, decision rules, discretisation, compiled model functions (compiled once per distinct code), calibration"]
    STUBS = ["moment of interrupts (sys.settrace), failing evaluations and hooks", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 600, "thorough": 20000}
    SOFT_S = {"quick": 90, "thorough": 900}
    STATE_MEASURE = "distinct (model, parameters, solver, options) combinations"
    ASSUMPTIONS = ["Future controls are evaluated with the returned rule, at states computed by hand; integration nodes and weights are those of a discretisation of the model made afresh (they are the subject of C10).",
                   "The constant of the tolerance was set from the models used: 30 for time iteration and improved time iteration."]

    def setup(self, tier):
        ops.setup_library()
        from dolo.algos.improved_time_iteration import improved_time_iteration
        from dolo.algos.time_iteration import time_iteration
        self.egm_text = models.example("consumption_savings_iid").replace("orders: [100]", "orders: [30]")
        with ops.quiet():
            for k in SPECS:
                m = self.load(k)
                time_iteration(m, maxit=1, verbose=False)
                improved_time_iteration(m, maxit=1, verbose=False)
            self.egm(self.load(EGM), {"maxit": 2})
        from dolo.algos.value_iteration import evaluate_policy
        with ops.quiet():
            m = self.load("mc3")
            evaluate_policy(m, time_iteration(m, maxit=1, verbose=False, details=False), maxit=1, verbose=False)

    def load(self, k):
        return models.load_text(self.egm_text if k == EGM else SPECS[k][0])

    # ------------------------------------------------------------------ scenarios
    def fixed(self, tier):
        out = []
        for k in SPECS:
            for do in ("ti", "iti"):
                for opt in ({}, {"interp": "linear"}, {"ignore": True}, {"details": False}):
                    out.append({"model": k, "steps": [{"do": do, **opt}]})
            par = SPECS[k][1].params
            for name in sorted(par):
                for v in par[name]:
                    out.append({"model": k, "steps": [{"do": "ti", "maxit": 3}, {"do": "set", "values": {name: v}}, {"do": "iti" if v == par[name][0] else "ti"}]})
                out.append({"model": k, "steps": [{"do": "ti", "tol": 1e-4}, {"do": "set", "values": {name: par[name][1]}}, {"do": "ti", "dr0": "last"}, {"do": "iti", "dr0": "first"}]})
            if "ilb" in par and "iub" in par:  # bounds beyond the calibrated control
                for v in ({"ilb": 0.24}, {"iub": 0.2}, {"ilb": 0.1, "iub": 0.22}):
                    for do in ("ti", "iti"):
                        out.append({"model": k, "steps": [{"do": "set", "values": v}, {"do": do}, {"do": do, "interp": "linear", "dr0": "last"}]})
            out.append({"model": k, "steps": [{"do": "ti"}, {"do": "ti", "dr0": "last"}, {"do": "iti", "dr0": "last"}, {"do": "ti", "dr0": "last", "tol": 1e-8}]})
            out.append({"model": k, "steps": [{"do": "iti", "dp": True}, {"do": "ti", "dp": True}]})
            for do in ("ti", "iti"):
                out.append({"model": k, "steps": [{"do": do, "fault": ["raise", 5]}, {"do": do}]})
                out.append({"model": k, "steps": [{"do": do, "fault": ["interrupt", 700]}, {"do": do, "dr0": "last"}]})
            if "values: [V]" in SPECS[k][0]:
                out.append({"model": k, "steps": [{"do": "ti"}, {"do": "value"}, {"do": "set", "values": {"beta": 0.86}}, {"do": "value"}, {"do": "ti"}, {"do": "value", "interp": "linear"}]})
        for a in ({}, {"a": "dense"}, {"tol": 1e-8}, {"dr0": "last"}):
            out.append({"model": EGM, "steps": [{"do": "egm"}, {"do": "egm", **a}, {"do": "set", "values": {"σ": 0.2}}, {"do": "egm", **a}]})
        return out

    def generate(self, rng, tier):
        k = rng.choice(list(SPECS) + ["mc3", "normal", "mc2d", EGM])
        par = SPECS[k][1].params if k != EGM else {"β": [0.94, 0.97], "γ": [2.0, 5.0], "σ": [0.05, 0.2], "r": [1.0, 1.02], "cbar": [0.8, 1.0]}
        steps = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            if rng.random() < 0.5:
                v = {}
                for name in rng.sample(sorted(par), rng.choice([1, 1, 2])):
                    lo, hi = par[name]
                    v[name] = rng.choice([lo, hi, round(rng.uniform(min(lo, hi), max(lo, hi)), 3)])
                steps.append({"do": "set", "values": v})
            if rng.random() < 0.15:
                steps.append({"do": "other", "model": rng.choice(["mc3", "normal", "mc2d", "rbc-mc"]), "with": rng.choice(["ti", "iti"])})
            if rng.random() < 0.12:
                steps.append({"do": "spoil"})
            if k == EGM:
                st = {"do": "egm"}
                if rng.random() < 0.3:
                    st["a"] = rng.choice(["dense", "short"])
                if rng.random() < 0.2:
                    st["grid"] = True
            else:
                st = {"do": rng.choice(["ti", "iti"])}
                if rng.random() < 0.25:
                    st["interp"] = "linear"
                for key, val, pr in (("ignore", True, 0.15), ("details", False, 0.12), ("verbose", True, 0.1), ("trace", True, 0.1 if st["do"] == "ti" else 0), ("dp", True, 0.2), ("hook", True, 0.1 if st["do"] == "ti" else 0)):
                    if rng.random() < pr:
                        st[key] = val
                if st["do"] == "ti" and rng.random() < 0.15:
                    st["inner"] = rng.choice([1, 3])
                if st["do"] == "iti" and rng.random() < 0.15:
                    st["smaxit"] = rng.choice([20, 100])
            if rng.random() < 0.25:
                st["dr0"] = rng.choice(["last", "first"])
            if rng.random() < 0.25:
                st["tol"] = rng.choice([1e-4, 1e-5, 1e-8] if k != EGM else [1e-4, 1e-8])
            r = rng.random()
            if r < 0.12:
                st["fault"] = [rng.choice(["raise", "nan"]), rng.choice([1, 2, 3, rng.randint(1, 60)])]
            elif r < 0.27:
                st["fault"] = [rng.choice(["interrupt", "memory"]), int(2 ** rng.uniform(0, 13))]
            elif r < 0.32 and st["do"] == "ti":
                st["fault"] = ["hook", rng.choice([1, 2, 4])]
            elif r < 0.4:
                st["maxit"] = rng.choice([1, 2, 5, 10])
            steps.append(st)
            if k in ("mc3", "mc2d") and rng.random() < 0.3:
                steps.append({"do": "value", "interp": rng.choice(["cubic", "cubic", "linear"]), "tol": rng.choice([1e-6, 1e-8]), **({"dr0": True} if rng.random() < 0.3 else {})})
        return {"model": k, "steps": steps}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("steps",))
        for i, s in enumerate(sc["steps"]):
            for key in list(s):
                if key not in ("do", "values", "model", "with"):
                    yield dict(sc, steps=[x if j != i else {a: b for a, b in s.items() if a != key} for j, x in enumerate(sc["steps"])])

    # ------------------------------------------------------------------ solving
    def solve(self, m, st, state, hook=None):
        from dolo.algos.improved_time_iteration import improved_time_iteration
        from dolo.algos.time_iteration import time_iteration
        if st["do"] == "egm":
            return self.egm(m, st, state)
        kw = {"verbose": st.get("verbose", False)}
        for a, b in (("interp", "interp_method"), ("ignore", "ignore_constraints"), ("details", "details"), ("trace", "trace"), ("tol", "tol"), ("maxit", "maxit"), ("inner", "inner_maxit"), ("smaxit", "smaxit")):
            if a in st:
                kw[b] = st[a]
        if st["do"] == "iti":
            kw.setdefault("maxit", 3 if (st.get("fault") or [None])[0] == "nan" else 60)
        if st.get("dp"):
            kw["dprocess"] = m.exogenous.discretize()
        dr0 = state.get(st.get("dr0"))
        if dr0 is not None:
            kw["dr0"] = dr0 if st["do"] == "ti" else getattr(dr0, "dr", dr0)
        if st["do"] == "ti" and (hook or st.get("hook")):
            kw["hook"] = hook or (lambda: None)
        return (time_iteration if st["do"] == "ti" else improved_time_iteration)(m, **kw)

    def egm(self, m, st, state=None):
        from dolo.algos.egm import egm
        kw = {"a_grid": self.a_grid(st)}
        for a, b in (("tol", "η_tol"), ("maxit", "maxit")):
            if a in st:
                kw[b] = st[a]
        if st.get("grid"):
            kw["grid"], kw["dp"] = m.discretize()
        dr0 = (state or {}).get(st.get("dr0"))
        if dr0 is not None:
            kw["dr0"] = dr0.dr
        return egm(m, **kw)

    def a_grid(self, st):
        return {"dense": np.linspace(0, 4, 60), "short": np.linspace(0, 3, 12)}.get(st.get("a"), np.linspace(0, 4, 25) ** 1.2 * 4 / 4 ** 1.2)

    def reference_egm(self, p, dp, a, s, tol):
        """consumption at s (one line per node), by endogenous grid points"""
        y = np.array([dp.inode(0, j)[0] for j in range(dp.n_inodes(0))])
        w = np.array([dp.iweight(0, j) for j in range(dp.n_inodes(0))])
        def at(W):
            i = np.clip(np.searchsorted(sa, W, side="right") - 1, 0, len(sa) - 2)
            c = ca[i] + (W - sa[i]) * (ca[i + 1] - ca[i]) / (sa[i + 1] - sa[i])
            return np.maximum(np.minimum(c, W), 0.0)
        sa, ca = None, None
        W = np.exp(y)[None, :] + a[:, None] * p["r"]
        for it in range(5000):
            C = at(W) if sa is not None else np.full(W.shape, p["c"])
            mr = ((p["β"] * (C / p["cbar"]) ** (-p["γ"]) * p["r"]) * w[None, :]).sum(axis=1)
            c = p["cbar"] * mr ** (-1 / p["γ"])
            done = ca is not None and np.abs(c - ca).max() < tol
            sa, ca = a + c, c
            if done:
                break
        return at(s), done

    def judge_egm(self, m, st, r, what):
        if not r.a_converged:
            return False
        p = {a: float(m.calibration[a]) for a in m.symbols["parameters"]}
        p["c"] = float(m.calibration["c"])
        dp = self.fresh(m).exogenous.discretize()
        s = np.linspace(0.01, 4.0, 30)
        if not np.allclose(r.dr.endo_grid.nodes[:, 0], s, atol=1e-12):
            raise core.Violation("grid", f"{what}: the grid is not the one of the model")
        ref, done = self.reference_egm(p, dp, self.a_grid(st), s, 1e-10)
        x = np.asarray(r.dr.eval_s(s[:, None]) if not hasattr(r.dr.exo_grid, "nodes") or r.dr.exo_grid.n_nodes == 0 else r.dr.eval_is(0, s[:, None]))[:, 0]
        tol = 100 * st.get("tol", 1e-6) + 1e-7
        if not np.isfinite(x).all() or done and not np.abs(x - ref).max() <= tol:
            i = int(np.nan_to_num(np.abs(x - ref), nan=np.inf).argmax())
            raise core.Violation("euler", f"{what}: with wealth {s[i]} the rule consumes {x[i]}; iterating on the Euler equation written by hand gives {ref[i]}")
        return True

    def fresh(self, m):
        """a model with the same calibration on which nothing has been done"""
        new = self.load(self.name)
        if self.sets:
            for v in self.sets:
                new.set_calibration(**v)
        return new

    def dprocess(self, m):
        return self.fresh(m).exogenous.discretize()

    # ------------------------------------------------------------------ oracle
    def rule(self, r):
        return getattr(r, "dr", r)

    def judge(self, m, S, st, r, what, orders):
        """residuals of the model at the nodes of the grid"""
        p = {a: float(m.calibration[a]) for a in m.symbols["parameters"]}
        dr = self.rule(r)
        fm = self.fresh(m)
        s, dp = np.array(fm.endo_grid.nodes), fm.exogenous.discretize()
        if dr.endo_grid.nodes.shape != s.shape or np.abs(dr.endo_grid.nodes - s).max() > 1e-12:
            raise core.Violation("grid", f"{what}: the grid is not the one of the model")
        tol = 30 * st.get("tol", 1e-6 if st["do"] == "ti" else 1e-8) + (2e-6 if st["do"] == "ti" and st.get("ignore") else 1e-7)  # the inner Newton solver stops at 1e-6
        worst = 0.0
        A = nodes_of(dp, dr, len(S.exo))
        for mm, _, _ in A:  # no control is within bounds that cross
            lb, ub = S.limits(np.repeat(mm[None, :], len(s), axis=0), s, p)
            if not st.get("ignore") and not (lb <= ub).all():
                return None
        with np.errstate(all="ignore"):
            for i, (mm, now, fut) in enumerate(A):
                m_ = np.repeat(mm[None, :], len(s), axis=0)
                x = np.asarray(now(s))
                if not np.isfinite(x).all():
                    raise core.Violation("not-finite", f"{what}: at exogenous node {i} controls are {x[~np.isfinite(x).all(axis=1)][0].tolist()}")
                f = 0.0
                for w, M, ev in fut:
                    M_ = np.repeat(M[None, :], len(s), axis=0)
                    nxt = S.transition(m_, s, x, M_, p)
                    f = f + w * S.arbitrage(m_, s, x, M_, nxt, np.asarray(ev(nxt)), p)
                lb, ub = S.limits(m_, s, p)
                if st.get("ignore"):
                    lb, ub = lb * 0 - np.inf, np.full(ub.shape, np.inf)
                res = np.abs(x - clip(x - f, lb, ub))
                out = np.maximum(lb - x, x - ub).max()
                bad = np.nan_to_num(res, nan=np.inf)
                worst = max(worst, float(bad.max()))
                if not bad.max() <= tol:
                    k = int(bad.max(axis=1).argmax())
                    raise core.Violation("arbitrage", f"{what}: reported as converged, but at exogenous node {i} ({mm.tolist()}) and state {s[k].tolist()} controls {x[k].tolist()} between {lb[k].tolist()} and {ub[k].tolist()} leave residuals {f[k].tolist()}")
                if out > tol:
                    raise core.Violation("bounds", f"{what}: at exogenous node {i} controls leave their bounds by {out}")
        return worst / tol * 30

    def judge_value(self, m, S, st, mdr, drv, what):
        p = {a: float(m.calibration[a]) for a in m.symbols["parameters"]}
        fm = self.fresh(m)
        dp = fm.exogenous.discretize()
        s, tol = np.array(fm.endo_grid.nodes), st.get("tol", 1e-8)
        A, V = nodes_of(dp, mdr, len(S.exo)), nodes_of(dp, drv, len(S.exo))
        for i in range(dp.n_nodes):
            mm, now, _ = A[i]
            m_ = np.repeat(mm[None, :], len(s), axis=0)
            x = np.asarray(now(s))
            v = S.felicity(m_, s, x, p)
            for w, M, ev in V[i][2]:
                nxt = S.transition(m_, s, x, np.repeat(M[None, :], len(s), axis=0), p)
                v = v + p["beta"] * w * np.asarray(ev(nxt))[:, 0]
            got = np.asarray(V[i][1](s))[:, 0]
            d = np.abs(got - v)
            if not d.max() <= 3 * tol + 1e-10 * (1 + np.abs(v).max()):
                k = int(np.nan_to_num(d, nan=np.inf).argmax())
                raise core.Violation("value", f"{what}: at exogenous node {i} and state {s[k].tolist()} the value is {got[k]}; felicity and the discounted expected value of the next period add up to {v[k]}")

    def values(self, m):
        return {g: np.array(m.calibration[g], dtype=float).tolist() for g in ("exogenous", "states", "controls", "parameters")}

    def converged(self, r):
        return r.a_converged if hasattr(r, "a_converged") else getattr(r, "x_converged", None)

    # ------------------------------------------------------------------ one run
    def run(self, sc, ctx):
        simrng.set_all(1)
        self.name, self.sets = sc["model"], []
        S = SPECS[sc["model"]][1] if sc["model"] != EGM else None
        state, used = {}, False
        with ops.quiet():
            m = self.load(sc["model"])
            for n, st in enumerate(sc["steps"]):
                what = f"{sc['model']}, step {n}: {json.dumps(st)}"
                if st["do"] == "set":
                    try:
                        m.set_calibration(**st["values"])
                    except Exception as e:
                        raise core.Violation("calibration-fails", f"{what}: raised {e!r}")
                    self.sets.append(st["values"])
                    state.pop("value", None)
                    ctx.ev("set", json.dumps(st["values"]))
                    continue
                if st["do"] == "other":
                    self.name, keep = st["model"], self.name
                    o = self.load(st["model"])
                    self.name = keep
                    self.solve(o, {"do": st["with"], "maxit": 3}, {})
                    ctx.ev("other", st["model"], st["with"])
                    continue
                if st["do"] == "spoil":
                    for key in ("first", "last"):
                        if key in state:
                            dr = self.rule(state[key])
                            n_i = max(1, getattr(dr.exo_grid, "n_nodes", 1) or 1)
                            x = np.array(m.calibration["controls"], dtype=float)
                            dr.set_values(np.repeat(np.repeat(x[None, None, :] * 0.9, dr.endo_grid.nodes.shape[0], axis=1), n_i, axis=0))
                    ctx.ev("spoil")
                    continue
                if st["do"] == "value":
                    self.value(m, S, st, state, what, ctx)
                    continue
                used = self.step(m, S, st, state, what, ctx, used)

    def value(self, m, S, st, state, what, ctx):
        from dolo.algos.value_iteration import evaluate_policy
        if "last" not in state:
            return
        mdr = self.rule(state["last"])
        kw = {"verbose": False, "interp_method": st.get("interp", "cubic"), "tol": st.get("tol", 1e-8), "details": True}
        if st.get("dr0") and "value" in state:
            kw["dr0"] = state["value"]
            if state["value"].interp_method != kw["interp_method"]:
                return
        try:
            r = evaluate_policy(m, mdr, **kw)
        except Exception as e:
            raise core.Violation("fails", f"{what}: raised {e!r}")
        if r.error < r.tol:
            self.judge_value(m, S, st, mdr, r.solution, what)
            ctx.ev("value", round(float(r.error), 12))
            state["value"] = r.solution
        else:
            ctx.ev("value-open")

    def step(self, m, S, st, state, what, ctx, used):
        snap, fault, fired, hook = self.values(m), st.get("fault"), False, None
        before = {k: canon(self.rule(state[k])) for k in ("first", "last") if k in state}
        err = r = None
        if fault and fault[0] == "hook":
            left = [fault[1]]
            def hook():
                left[0] -= 1
                if left[0] == 0:
                    raise RuntimeError("injected")
        if fault and fault[0] in ("raise", "nan") and st["do"] == "egm":
            fault = None
        try:
            if fault and fault[0] in ("raise", "nan"):
                with Spoiled(m, *fault) as sp:
                    try:
                        r = self.solve(m, st, state)
                    finally:
                        fired = sp.fired
            elif fault and fault[0] != "hook":
                inj = Interrupt(fault[1], fault[0])
                try:
                    with inj:
                        r = self.solve(m, st, state)
                finally:
                    fired = inj.fired
            else:
                r = self.solve(m, st, state, hook)
        except (Exception, KeyboardInterrupt) as e:
            err = e
            fired = fired or hook is not None and left[0] <= 0
        d = diff(canon(self.values(m)), canon(snap))
        if d:
            raise core.Violation("model-changed", f"{what}: {d}")
        for k in before:
            d = diff(canon(self.rule(state[k])), before[k])
            if d:
                raise core.Violation("arguments-changed", f"{what}: an earlier result was modified: {d}")
        if fired:
            ctx.fault(fault[0])
        if err is not None:
            ctx.ev("stopped" if fired else "raises", type(err).__name__)
            if not fired:
                if self.again(m, st) is not None:
                    raise core.Violation("fails", f"{what}: raised {err!r}; a fresh model can be solved")
                ctx.probe("raises")
            return True
        c = self.converged(r)
        if fired:
            ctx.ev("solved-in-spite")
            return True
        if c is None:  # no details: ask again
            full = self.solve(m, dict(st, details=True), state)
            d = diff(values_of(full.dr), values_of(r))
            if d:
                raise core.Violation("details", f"{what}: with and without details the rules differ: {d}")
            c = full.x_converged
        if c:
            if S is None:
                self.judge_egm(m, st, r, what)
            else:
                q = self.judge(m, S, st, r, what, None)
                ctx.probe("bounds-cross" if q is None else f"{st['do']}-ratio-{'low' if q < 3 else 'mid' if q < 10 else 'high'}")
            ctx.nontrivial = ctx.nontrivial or used
            ctx.state((sc_key(self.name, self.sets, st)))
            ctx.ev("converged", st["do"])
        else:
            ctx.ev("open", st["do"])
            if "maxit" not in st:
                ctx.probe("not-converged")
                if "dr0" not in st and self.again(m, st):
                    raise core.Violation("convergence-lost", f"{what}: does not converge; on a fresh model it does")
                if not self.sets and "inner" not in st and "smaxit" not in st and "dr0" not in st:
                    raise core.Violation("no-convergence", f"{what}: does not converge for the calibration of the model file")
        state.setdefault("first", r)
        state["last"] = r
        return True

    def again(self, m, st):
        """does it converge on a fresh model? (None: it fails)"""
        try:
            r = self.solve(self.fresh(m), {k: v for k, v in st.items() if k not in ("dr0", "fault", "hook")}, {})
        except Exception:
            return None
        return bool(self.converged(r)) if self.converged(r) is not None else None


def sc_key(name, sets, st):
    return (name, json.dumps(sets), json.dumps(st, sort_keys=True))


CHECK = C25()
