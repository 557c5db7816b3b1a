"""C23: perfect-foresight paths obey the model at every date and start where they are told to."""
import json
import warnings

import numpy as np

from .. import core, models, ops, rng as simrng
from ..canon import canon, diff
from ..interrupt import Interrupt

GROWTH = """name: growth

symbols:
    exogenous: [z, g]
    states: [k]
    controls: [i]
    parameters: [beta, sigma, delta, alpha, ilb, iub, zbar]

definitions: |
    y[t] = exp(z[t])*k[t]^alpha
    c[t] = y[t] - i[t] - g[t]

equations:

    arbitrage: |
        1 - beta*(c[t]/c[t+1])^sigma*(1 - delta + alpha*exp(z[t+1])*k[t+1]^(alpha-1)) ⟂ ilb <= i[t] <= iub

    transition: |
        k[t] = (1-delta)*k[t-1] + i[t-1] + 0.05*z[t-1] + 0.2*z[t]

calibration:
    beta: 0.9
    sigma: 2.0
    delta: 0.1
    alpha: 0.33
    ilb: 0.01
    iub: 5.0
    zbar: 0.0
    z: zbar
    g: 0.05
    rk: 1/beta - 1 + delta
    k: (rk/(alpha*exp(z)))^(1/(alpha-1))
    i: delta*k - 0.25*z
    y: exp(z)*k^alpha
    c: y - i - g

exogenous: !Normal
    Sigma: [[0.0004, 0.0],[0.0, 0.0002]]
"""

RBC = """name: rbc

symbols:
    exogenous: [e]
    states: [z, k]
    controls: [n, i]
    parameters: [beta, sigma, eta, chi, delta, alpha, rho, ilb]

definitions: |
    y[t] = exp(z[t])*k[t]^alpha*n[t]^(1-alpha)
    c[t] = y[t] - i[t]
    rk[t] = alpha*y[t]/k[t]
    w[t] = (1-alpha)*y[t]/n[t]

equations:

    arbitrage: |
        chi*n[t]^eta*c[t]^sigma - w[t]                     ⟂ 0.0 <= n[t] <= inf
        1 - beta*(c[t]/c[t+1])^(sigma)*(1-delta+rk[t+1])   ⟂ ilb <= i[t] <= inf

    transition: |
        z[t] = rho*z[t-1] + e[t]
        k[t] = (1-delta)*k[t-1] + i[t-1]

calibration:
    beta: 0.95
    sigma: 2.0
    eta: 1.0
    delta: 0.1
    alpha: 0.33
    rho: 0.8
    ilb: 0.0
    chi: w/c^sigma/n^eta
    e: 0.0
    n: 0.33
    z: 0.0
    rk: 1/beta-1+delta
    w: (1-alpha)*exp(z)*(k/n)^(alpha)
    k: n/(rk/alpha)^(1/(1-alpha))
    y: exp(z)*k^alpha*n^(1-alpha)
    i: delta*k
    c: y - i

exogenous: !UNormal
    sigma: 0.01
"""

FISCAL = """name: fiscal

symbols:
    exogenous: [g, tk, tc]
    states: [k, tau]
    controls: [c]
    parameters: [beta, gamma, delta, alpha]

equations:

    arbitrage:
        - beta*(c[t+1]/c[t])^(-gamma)*(1+tc[t])/(1+tc[t+1])*((1-tau[t+1])*(alpha*k[t+1]^(alpha-1) - delta) + 1) - 1

    transition:
        - k[t] = k[t-1]^alpha + (1-delta)*k[t-1] - c[t-1] - g[t-1]
        - tau[t] = tk[t]

calibration:
    beta: 0.95
    gamma: 2.0
    delta: 0.2
    alpha: 0.33
    g: 0.2
    tk: 0.0
    tc: 0.0
    tau: tk
    rr: (1/beta-1)/(1-tk) + delta
    k: (rr/alpha)^(1/(alpha-1))
    c: k^alpha - delta*k - g

exogenous: !Normal
    Sigma: [[0.0004, 0.0, 0.0],[0.0, 0.0002, 0.0],[0.0, 0.0, 0.0002]]
"""


class Growth:
    text = GROWTH
    exo, states, controls, aux = ["z", "g"], ["k"], ["i"], ["y", "c"]
    params = {"beta": [0.85, 0.93], "sigma": [1.0, 3.0], "delta": [0.05, 0.2], "alpha": [0.25, 0.4], "ilb": [0.01, 0.1], "iub": [5.0, 0.6], "g": [0.0, 0.1], "zbar": [0.0, 0.02]}
    size = {"z": 0.03, "g": 0.08}

    @staticmethod
    def auxiliary(m, s, x, p):
        y = np.exp(m[:, 0]) * s[:, 0] ** p["alpha"]
        return np.stack([y, y - x[:, 0] - m[:, 1]], axis=1)

    @staticmethod
    def transition(m, s, x, M, p):
        return ((1 - p["delta"]) * s[:, 0] + x[:, 0] + 0.05 * m[:, 0] + 0.2 * M[:, 0])[:, None]

    @classmethod
    def arbitrage(cls, m, s, x, M, S, X, p):
        c, C = cls.auxiliary(m, s, x, p)[:, 1], cls.auxiliary(M, S, X, p)[:, 1]
        return (1 - p["beta"] * (c / C) ** p["sigma"] * (1 - p["delta"] + p["alpha"] * np.exp(M[:, 0]) * S[:, 0] ** (p["alpha"] - 1)))[:, None]

    @staticmethod
    def bounds(p):
        return np.array([p["ilb"]]), np.array([p["iub"]])


class Rbc:
    text = RBC
    exo, states, controls, aux = ["e"], ["z", "k"], ["n", "i"], ["y", "c", "rk", "w"]
    params = {"beta": [0.93, 0.97], "sigma": [1.5, 3.0], "eta": [0.5, 2.0], "rho": [0.0, 0.9], "delta": [0.06, 0.12], "ilb": [0.0, 0.1]}
    size = {"e": 0.03}

    @staticmethod
    def auxiliary(m, s, x, p):
        y = np.exp(s[:, 0]) * s[:, 1] ** p["alpha"] * x[:, 0] ** (1 - p["alpha"])
        return np.stack([y, y - x[:, 1], p["alpha"] * y / s[:, 1], (1 - p["alpha"]) * y / x[:, 0]], axis=1)

    @staticmethod
    def transition(m, s, x, M, p):
        return np.stack([p["rho"] * s[:, 0] + M[:, 0], (1 - p["delta"]) * s[:, 1] + x[:, 1]], axis=1)

    @classmethod
    def arbitrage(cls, m, s, x, M, S, X, p):
        a, A = cls.auxiliary(m, s, x, p), cls.auxiliary(M, S, X, p)
        return np.stack([p["chi"] * x[:, 0] ** p["eta"] * a[:, 1] ** p["sigma"] - a[:, 3], 1 - p["beta"] * (a[:, 1] / A[:, 1]) ** p["sigma"] * (1 - p["delta"] + A[:, 2])], axis=1)

    @staticmethod
    def bounds(p):
        return np.array([0.0, p["ilb"]]), np.array([np.inf, np.inf])


class Fiscal:
    text = FISCAL
    exo, states, controls, aux = ["g", "tk", "tc"], ["k", "tau"], ["c"], []
    params = {"beta": [0.92, 0.96], "gamma": [1.0, 3.0], "delta": [0.1, 0.25], "g": [0.1, 0.2], "tc": [0.0, 0.1], "tk": [0.0, 0.1]}
    size = {"g": 0.06, "tk": 0.1, "tc": 0.1}

    @staticmethod
    def auxiliary(m, s, x, p):
        return np.zeros((len(s), 0))

    @staticmethod
    def transition(m, s, x, M, p):
        k = s[:, 0]
        return np.stack([k ** p["alpha"] + (1 - p["delta"]) * k - x[:, 0] - m[:, 0], M[:, 1]], axis=1)

    @staticmethod
    def arbitrage(m, s, x, M, S, X, p):
        return (p["beta"] * (X[:, 0] / x[:, 0]) ** (-p["gamma"]) * (1 + m[:, 2]) / (1 + M[:, 2]) * ((1 - S[:, 1]) * (p["alpha"] * S[:, 0] ** (p["alpha"] - 1) - p["delta"]) + 1) - 1)[:, None]

    @staticmethod
    def bounds(p):
        return np.array([-np.inf]), np.array([np.inf])


SPECS = {"growth": Growth, "rbc": Rbc, "fiscal": Fiscal}


class Boom(ArithmeticError):
    pass


class Spoiled:
    """one evaluation of the model goes wrong"""

    def __init__(self, m, kind, at):
        self.m, self.kind, self.at, self.n, self.fired = m, kind, at, 0, False

    def __enter__(self):
        self.old = dict(self.m.functions)
        for name in ("transition", "arbitrage"):
            self.m.functions[name] = self.wrap(self.old[name])
        return self

    def wrap(self, f):
        def evaluation(*a, **kw):
            self.n += 1
            out = f(*a, **kw)
            if self.n == self.at:
                self.fired = True
                if self.kind == "raise":
                    raise Boom("injected")
                first = np.array(out[0] if isinstance(out, (list, tuple)) else out)
                first[..., 0] = np.nan
                return type(out)([first] + list(out[1:])) if isinstance(out, (list, tuple)) else first
            return out
        return evaluation

    def __exit__(self, *a):
        self.m.functions.update(self.old)
        return False


def series(rng, base, size, n):
    kind = rng.choice(["pulse", "step", "anticipated", "random", "constant"])
    d = size * rng.choice([1, 1, -1, 0.4])
    if kind == "pulse":
        v = [0.0, d] + [0.0] * n
    elif kind == "step":
        v = [0.0] + [d] * n
    elif kind == "anticipated":
        k = rng.randint(1, max(1, n - 1))
        v = [0.0] * k + [d] * n
    elif kind == "random":
        v = [rng.uniform(-1, 1) * size * 0.6 for _ in range(n)]
    else:
        v = [d] * n
    return [round(base + max(a, -abs(base)) if base > 0 else base + a, 6) for a in v[:n]]


class C23(core.Check):
    ID = "C23"
    RULE = ("A run makes one to six perfect-foresight simulations on one model (growth with two shocks and constant bounds on investment, business cycle with labour, fiscal with three exogenous series and no bounds), whose parameters change in between. Exogenous "
            "series are absent or given as list, one- or two-dimensional array, dictionary of series of different lengths (some missing), or data frame; initial states and exogenous values are absent, vectors or dictionaries; constraints bind or are ignored, both solvers, "
            "any horizon, initial guess from an earlier path. Some simulations are stopped by an interrupt or memory error before a chosen source line, some meet an evaluation that raises or returns not-a-number, some have too few iterations. Every path that is returned without a warning "
            "is compared with equations written by hand in the check. Non-trivial when the economy moves and the model was used before.")
    REAL = ["perfect foresight, steady state, Newton and complementarity solvers, compiled model functions (compiled once per distinct code), calibration"]
    STUBS = ["moment of interrupts (sys.settrace), failing evaluations of the model", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 1200, "thorough": 30000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (model, parameters, form of the series, horizon, options) combinations"
    ASSUMPTIONS = ["A path returned with a warning is not judged; an exception is accepted only if a fault was injected or the problem is hard (initial state far from equilibrium, binding constraints).",
                   "The last date is where the horizon was cut: its controls repeat those of the date before, or satisfy the static conditions."]

    def setup(self, tier):
        ops.setup_library()
        for k in SPECS:
            with ops.quiet():
                self.solve(models.load_text(SPECS[k].text), SPECS[k], {"exo": None, "T": 3}, {})

    def fixed(self, tier):
        out = []
        P = {"growth": {"z": [0.0, 0.03, 0.01], "g": [0.05, 0.05, 0.05, 0.1]}, "rbc": {"e": [0.0, 0.02, 0.0]}, "fiscal": {"g": [0.2] * 4 + [0.25], "tk": [0.0, 0.0, 0.1], "tc": [0.0, 0.05, 0.0]}}
        for k, paths in P.items():
            for form in ("dict", "frame", "array", "list"):
                for extra in ({}, {"ignore": True}, {"keep": True}, {"solver": "lmmcp"}):
                    out.append({"model": k, "steps": [{"do": "solve", "exo": {"form": form, "paths": paths}, "T": 20, **extra}]})
            for pre in ([["set", {"beta": 0.93}]], []):
                out.append({"model": k, "steps": [{"do": "set", "values": {"beta": 0.93}}] * len(pre) + [{"do": "solve", "exo": {"form": "dict", "paths": {list(paths)[0]: paths[list(paths)[0]]}}, "T": 15}]})
            for s in (0.8, 1.1):
                for form in ("vector", "dict"):
                    out.append({"model": k, "steps": [{"do": "solve", "exo": None, "s0": {"form": form, "scale": s}, "T": 30}]})
            out.append({"model": k, "steps": [{"do": "solve", "exo": {"form": "dict", "paths": paths}, "T": 100}]})
            out.append({"model": k, "steps": [{"do": "solve", "exo": None, "m0": {"form": "vector", "add": 0.02}, "T": 20}, {"do": "solve", "exo": None, "T": 12}]})
            out.append({"model": k, "steps": [{"do": "solve", "exo": {"form": "dict", "paths": paths}, "T": 20, "keep": True}, {"do": "solve", "exo": {"form": "dict", "paths": paths}, "T": 20, "guess": True}]})
            for kind in ("raise", "nan"):
                for at in (1, 2, 3, 5, 8):
                    out.append({"model": k, "steps": [{"do": "solve", "exo": {"form": "dict", "paths": paths}, "T": 12, "fault": [kind, at]}, {"do": "solve", "exo": {"form": "array", "paths": paths}, "T": 12}]})
        for lb in (0.1, 0.25):
            out.append({"model": "growth", "steps": [{"do": "set", "values": {"ilb": lb}}, {"do": "solve", "exo": None, "s0": {"form": "vector", "scale": 1.2}, "T": 25}]})
            out.append({"model": "growth", "steps": [{"do": "set", "values": {"ilb": lb}}, {"do": "solve", "exo": None, "s0": {"form": "vector", "scale": 1.2}, "T": 25, "solver": "lmmcp"}]})
        return out

    def generate(self, rng, tier):
        k = rng.choice(["growth", "rbc", "fiscal"])
        S = SPECS[k]
        steps, base = [], {"g": 0.05 if k == "growth" else 0.2}
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
            if rng.random() < 0.35:
                v = {}
                for name in rng.sample(sorted(S.params), rng.choice([1, 1, 2])):
                    lo, hi = S.params[name]
                    v[name] = rng.choice([lo, hi, round(rng.uniform(min(lo, hi), max(lo, hi)), 3)])
                    if name in ("g", "tc", "tk"):
                        base[name] = v[name]
                    if name == "zbar":
                        base["z"] = v[name]
                steps.append({"do": "set", "values": v})
            st = {"do": "solve", "T": rng.choice([3, 5, 10, 15, 25, 25, 40, 40, 100]), "exo": None}
            if rng.random() < 0.7:
                names = [n for n in S.exo if rng.random() < 0.75] or [rng.choice(S.exo)]
                form = rng.choice(["dict", "dict", "frame", "array", "list", "flat", "dictarray"])
                n = rng.randint(1, min(rng.choice([12, 12, 12, 200]), st["T"] + 1))
                st["exo"] = {"form": form, "paths": {a: series(rng, base.get(a, 0.0), S.size[a], n if form not in ("dict", "dictarray") else rng.randint(1, min(rng.choice([12, 12, 12, 200]), st["T"] + 1))) for a in names}}
            else:
                if rng.random() < 0.6:
                    st["s0"] = {"form": rng.choice(["vector", "dict", "partial", "list"]), "scale": rng.choice([0.8, 0.95, 1.1, 1.25])}
                if rng.random() < 0.4:
                    st["m0"] = {"form": rng.choice(["vector", "dict", "list"]), "add": rng.choice([0.02, -0.01, 0.0])}
            for key, val, pr in (("ignore", True, 0.25), ("keep", True, 0.25), ("solver", "lmmcp", 0.12), ("verbose", True, 0.1), ("guess", True, 0.15), ("old", True, 0.1)):
                if rng.random() < pr:
                    st[key] = val
            if rng.random() < 0.15:
                st["tol"] = rng.choice([1e-4, 1e-7])
            r = rng.random()
            if r < 0.15:
                st["fault"] = [rng.choice(["raise", "nan"]), rng.choice([1, 2, 3, rng.randint(1, 12)])]
            elif r < 0.3:
                st["fault"] = [rng.choice(["interrupt", "memory"]), int(2 ** rng.uniform(0, 11))]
            elif r < 0.36:
                st["maxit"] = rng.choice([0, 1, 2, 3])
            steps.append(st)
        return {"model": k, "steps": steps}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("steps",))
        for i, s in enumerate(sc["steps"]):
            for key in ("ignore", "keep", "solver", "verbose", "guess", "tol", "fault", "maxit", "m0", "old"):
                if key in s:
                    yield dict(sc, steps=[x if j != i else {a: b for a, b in s.items() if a != key} for j, x in enumerate(sc["steps"])])
            if s.get("T", 0) > 3:
                yield dict(sc, steps=[x if j != i else dict(s, T=max(3, s["T"] // 2), exo=s["exo"] and dict(s["exo"], paths={a: b[:max(3, s["T"] // 2)] for a, b in s["exo"]["paths"].items()})) for j, x in enumerate(sc["steps"])])

    # ------------------------------------------------------------------ one call
    def exogenous(self, S, exo, cal):
        """argument, and the values it stands for"""
        import pandas as pd
        form, paths = exo["form"], exo["paths"]
        if form in ("dict", "dictarray", "frame"):
            if form == "frame":
                n = min(len(v) for v in paths.values())
                paths = {a: v[:n] for a, v in paths.items()}
                return pd.DataFrame(paths), paths
            return {a: (np.array(v) if form == "dictarray" else list(v)) for a, v in paths.items()}, paths
        n = min(len(v) for v in paths.values())
        paths = {a: list(paths.get(a, [cal[a]] * n)[:n]) for a in S.exo}
        A = np.array([paths[a] for a in S.exo]).T
        if form == "flat":
            A = A.ravel()
        return (A.tolist() if form == "list" else A), paths

    def expected(self, S, paths, cal, T):
        eps = np.zeros((T + 1, len(S.exo)))
        for j, a in enumerate(S.exo):
            v = list(paths.get(a, [cal[a]]))
            eps[:, j] = v + [v[-1]] * (T + 1 - len(v))
        return eps

    def solve(self, m, S, st, state):
        """-> frame or None, expectations"""
        from dolo.algos.perfect_foresight import deterministic_solve
        cal = {a: float(m.calibration[a]) for a in S.exo + S.states + S.controls}
        T = st["T"]
        kw = {"verbose": st.get("verbose", False)}
        if T != 100 or st.get("verbose"):  # else the horizon is left out
            kw["T"] = T
        if st.get("ignore"):
            kw["ignore_constraints"] = True
        if st.get("keep"):
            kw["keep_steady_state"] = True
        for a in ("solver", "tol", "maxit"):
            if a in st:
                kw[a] = st[a]
        exp = {"cal": cal, "s0": None}
        if st["exo"]:
            arg, paths = self.exogenous(S, st["exo"], cal)
            kw["shocks" if st.get("old") else "exogenous"] = arg
            exp["eps"] = self.expected(S, paths, cal, T)
        else:
            exp["eps"] = self.expected(S, {}, cal, T)
            exp["s0"] = np.array([cal[a] for a in S.states])
            if "s0" in st:
                v = {a: cal[a] * st["s0"]["scale"] if cal[a] != 0 else 0.02 * (st["s0"]["scale"] - 1) for a in S.states}
                f = st["s0"]["form"]
                if f == "partial":
                    v = {S.states[-1]: v[S.states[-1]]}
                full = [v.get(a, cal[a]) for a in S.states]
                kw["s1" if st.get("old") else "s0"] = v if f in ("dict", "partial") else full if f == "list" else np.array(full)
                exp["s0"] = np.array(full)
            if "m0" in st:
                v = {a: cal[a] + st["m0"]["add"] for a in S.exo}
                f = st["m0"]["form"]
                kw["m0"] = v if f == "dict" else list(v.values()) if f == "list" else np.array(list(v.values()))
                exp["eps"][0] = [v[a] for a in S.exo]
        if st.get("guess") and T in state.get("guess", {}):
            kw["initial_guess"] = state["guess"][T]
        exp["args"] = kw
        before = self.plain(kw)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = deterministic_solve(m, **kw)
        d = diff(canon(self.plain(kw)), canon(before))
        if d:
            raise core.Violation("arguments-changed", f"an argument of the simulation was modified: {d}")
        exp["warned"] = [str(x.message)[:80] for x in w if issubclass(x.category, UserWarning) and "deprecated" not in str(x.message)]
        return out, exp

    def plain(self, kw):
        out = {}
        for a, b in kw.items():
            b = b.to_dict("list") if hasattr(b, "to_dict") else dict(b) if isinstance(b, dict) else b
            out[a] = {x: np.array(y).tolist() for x, y in b.items()} if isinstance(b, dict) else np.array(b).tolist()
        return out

    # ------------------------------------------------------------------ oracle
    def judge(self, m, S, st, out, exp, what):
        p = {a: float(m.calibration[a]) for a in m.symbols["parameters"]}
        T, tol = st["T"], 20 * max(st.get("tol", 1e-6), 1e-9)
        if st.get("solver") == "lmmcp":
            tol = max(tol, 2e-5)
        keep = bool(st.get("keep") and st["exo"])
        if list(out.index) != list(range(-1 if keep else 0, T + 1)):
            raise core.Violation("dates", f"{what}: dates run from {out.index[0]} to {out.index[-1]} ({len(out)} rows)")
        names = S.states + S.controls + S.aux + S.exo
        if list(out.columns) != names:
            raise core.Violation("columns", f"{what}: columns {list(out.columns)} instead of {names}")
        A = {a: out[a].to_numpy(dtype=float) for a in names}
        mm, s, x, y = (np.stack([A[a] for a in g], axis=1) if g else np.zeros((len(out), 0)) for g in (S.exo, S.states, S.controls, S.aux))
        eps = exp["eps"] if not keep else np.concatenate([exp["eps"][:1], exp["eps"]])
        if mm.shape != eps.shape or not np.abs(mm - eps).max() <= 1e-12:
            t = int(np.abs(mm - eps).max(axis=1).argmax())
            raise core.Violation("series", f"{what}: exogenous values at date {out.index[t]} are {mm[t].tolist()}, not {eps[t].tolist()}")
        if not (np.isfinite(s).all() and np.isfinite(x).all()):
            raise core.Violation("not-finite", f"{what}: the path holds values that are not finite")
        d = np.abs(S.auxiliary(mm, s, x, p) - y)
        if d.size and not d.max() <= 1e-9 * (1 + np.abs(y).max()):
            raise core.Violation("auxiliaries", f"{what}: {S.aux} at date {out.index[int(d.max(axis=1).argmax())]} are not what their definitions say")
        if keep:
            self.steady(S, mm[:1], s[:1], x[:1], p, what + ", date -1")
            mm, s, x = mm[1:], s[1:], x[1:]
        if exp["s0"] is not None:
            if not np.abs(s[0] - exp["s0"]).max() <= tol:
                raise core.Violation("start", f"{what}: states start at {s[0].tolist()}, not at {exp['s0'].tolist()}")
        else:
            # equilibrium for the first exogenous values, before anything is known
            from scipy.optimize import root
            def static(v):
                a, b = v[None, :len(S.states)], v[None, len(S.states):]
                return np.concatenate([(S.transition(mm[:1], a, b, mm[:1], p) - a).ravel(), S.arbitrage(mm[:1], a, b, mm[:1], a, b, p).ravel()])
            cal = exp["cal"]
            r = root(static, np.array([cal[a] for a in S.states + S.controls]))
            if r.success and not np.abs(s[0] - r.x[:len(S.states)]).max() <= max(tol, 1e-5 * (1 + np.abs(s[0]).max())):
                raise core.Violation("start", f"{what}: states start at {s[0].tolist()}; the equilibrium for the first exogenous values is {r.x[:len(S.states)].tolist()}")
        g = S.transition(mm[:-1], s[:-1], x[:-1], mm[1:], p) - s[1:]
        if not np.abs(g).max() <= tol:
            t = int(np.abs(g).max(axis=1).argmax())
            raise core.Violation("transition", f"{what}: from date {t} to date {t + 1} the states differ from the transition by {g[t].tolist()}")
        with np.errstate(all="ignore"):
            f = S.arbitrage(mm[:-1], s[:-1], x[:-1], mm[1:], s[1:], x[1:], p)
        lb, ub = S.bounds(p) if not st.get("ignore") else (np.full(len(S.controls), -np.inf), np.full(len(S.controls), np.inf))
        r = x[:-1] - np.clip(x[:-1] - f, lb, ub)
        if not np.abs(r).max() <= tol:
            t = int(np.nan_to_num(np.abs(r), nan=np.inf).max(axis=1).argmax())
            raise core.Violation("arbitrage", f"{what}: at date {t} controls {x[t].tolist()} between {lb.tolist()} and {ub.tolist()} leave residuals {f[t].tolist()}")
        if (x < lb - tol).any() or (x > ub + tol).any():
            raise core.Violation("bounds", f"{what}: controls leave their bounds")
        f = S.arbitrage(mm[-1:], s[-1:], x[-1:], mm[-1:], s[-1:], x[-1:], p)
        r = x[-1:] - np.clip(x[-1:] - f, lb, ub)
        free = (x[-1] > lb + tol) & (x[-1] < ub - tol)  # a control may stay at its bound
        if free.all() and not min(np.abs(x[-1] - x[-2]).max(), np.abs(r).max()) <= tol:
            raise core.Violation("end", f"{what}: controls jump at the last date from {x[-2].tolist()} to {x[-1].tolist()}")
        return bool(np.abs(np.diff(x, axis=0)).max() > 1e-5)

    def steady(self, S, m, s, x, p, what):
        if not np.abs(S.transition(m, s, x, m, p) - s).max() <= 1e-5 or not np.abs(S.arbitrage(m, s, x, m, s, x, p)).max() <= 1e-5:
            raise core.Violation("steady-state", f"{what}: states {s[0].tolist()} and controls {x[0].tolist()} are not an equilibrium")

    def values(self, m):
        return {g: np.array(m.calibration[g], dtype=float).tolist() for g in ("exogenous", "states", "controls", "parameters")}

    def hard(self, S, st):
        return "s0" in st or "m0" in st or st.get("solver") == "lmmcp"  # it raises when it does not converge

    def run(self, sc, ctx):
        simrng.set_all(1)
        S, used, state = SPECS[sc["model"]], False, {"guess": {}}
        with ops.quiet():
            m = models.load_text(S.text)
            for n, st in enumerate(sc["steps"]):
                if st["do"] == "set":
                    try:
                        m.set_calibration(**st["values"])
                    except Exception as e:
                        raise core.Violation("calibration-fails", f"{sc['model']}: set_calibration({st['values']}) raised {e!r}")
                    ctx.ev("set", json.dumps(st["values"]))
                    continue
                what = f"{sc['model']}, simulation {n}: {json.dumps(st)}"
                snap, fault, fired = self.values(m), st.get("fault"), False
                try:
                    if fault and fault[0] in ("raise", "nan"):
                        with Spoiled(m, *fault) as sp:
                            try:
                                out, exp = self.solve(m, S, st, state)
                            finally:
                                fired = sp.fired
                    elif fault:
                        inj = Interrupt(fault[1], fault[0])
                        try:
                            with inj:
                                out, exp = self.solve(m, S, st, state)
                        finally:
                            fired = inj.fired
                    else:
                        out, exp = self.solve(m, S, st, state)
                except core.Violation:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    if fired:
                        ctx.fault(fault[0])
                        ctx.ev("stopped", type(e).__name__)
                    else:
                        ctx.ev("raises", type(e).__name__, str(e)[:60])
                        ctx.probe("raises")
                        if not self.hard(S, st):
                            raise core.Violation("fails", f"{what}: raised {e!r}")
                    d = diff(canon(self.values(m)), canon(snap))
                    if d:
                        raise core.Violation("model-changed", f"{what}: {d}")
                    used = True
                    continue
                if fired:
                    ctx.fault(fault[0])
                d = diff(canon(self.values(m)), canon(snap))
                if d:
                    raise core.Violation("model-changed", f"{what}: {d}")
                if exp["warned"]:
                    ctx.ev("warned", exp["warned"][0])
                    ctx.probe("warned" if "maxit" not in st and not fired else "warned-limit")
                else:
                    moved = self.judge(m, S, st, out, exp, what)
                    ctx.nontrivial = ctx.nontrivial or moved and used
                    ctx.simtime += st["T"]
                    ctx.ev("path", len(out), round(float(out[S.controls[0]].iloc[0]), 5))
                    if st.get("keep") and st["exo"]:
                        state["guess"][st["T"]] = out
                    ctx.state((sc["model"], json.dumps(exp["cal"]), (st["exo"] or {}).get("form"), st["T"], bool(st.get("ignore")), st.get("solver")))
                used = True


CHECK = C23()
