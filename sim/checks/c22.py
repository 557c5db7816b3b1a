"""C22: discretized processes have the law, or the moments, of the process they stand for."""
import json

import numpy as np

from .. import core, models, ops, rng as simrng
from ..interrupt import Interrupt

TOL = 1e-8


def cov_matrix(rng, d, kind):
    """a covariance matrix; kind: full, diag, negative (a column sums to zero), degenerate (a component without variance)"""
    A = np.array([[rng.choice([-1, 1]) * rng.uniform(0.2, 1.0) for _ in range(d)] for _ in range(d)])
    S = A @ A.T + 0.05 * np.eye(d)
    if kind == "diag" or d == 1:
        S = np.diag(np.diag(S))
    elif kind == "negative":
        S = np.diag([1.0 + 0.3 * k for k in range(d)])
        S[0, 1] = S[1, 0] = -1.0
        S[0, 0] = 1.0
        S[1, 1] = 2.0
    if kind == "degenerate":
        k = rng.randrange(d)
        S[k, :] = 0.0
        S[:, k] = 0.0
    return (np.round(S * rng.choice([0.01, 0.04, 1.0]), 6)).tolist()


def gen_spec(rng, depth=0):
    k = rng.choice(["ar1", "var1", "var1", "normal", "normal", "unormal", "unormal", "uniform", "lognormal", "beta", "trunc", "bern", "finite", "equi", "const", "mc", "mixture", "product", "varmat", "chain"] if depth == 0 else
                   ["ar1", "var1", "normal", "unormal", "uniform", "bern", "finite", "mc", "const"])
    mu = lambda: round(rng.uniform(-1, 2), 3) if rng.random() < 0.7 else 0.0
    rho = lambda: rng.choice([0.0, 0.5, 0.9, -0.4, round(rng.uniform(-0.95, 0.98), 3)])
    if k in ("ar1", "chain"):
        return {"k": k, "rho": rho(), "sigma": round(rng.uniform(0.001, 0.5), 4), "mu": mu()}
    if k in ("var1", "varmat"):
        d = rng.choice([1, 2, 2, 3]) if k == "var1" else 2
        sp = {"k": k, "rho": rho(), "Sigma": cov_matrix(rng, d, rng.choice(["full", "full", "diag", "negative" if d > 1 else "full", "degenerate"])), "mu": [mu() for _ in range(d)] if rng.random() < 0.7 else None}
        if k == "varmat":
            sp["rho"] = rng.choice([[0.7, 0.5], [[0.7, 0.1], [0.0, 0.7]], [[0.5, 0.2], [0.2, 0.5]], [0.9, 0.88], [[0.6, 0.0], [0.0, 0.6]], [0.5, 0.5]])
        return sp
    if k == "normal":
        d = rng.choice([1, 2, 2, 3])
        return {"k": k, "Sigma": cov_matrix(rng, d, rng.choice(["full", "full", "diag", "negative" if d > 1 else "full"])), "mu": [mu() for _ in range(d)] if rng.random() < 0.7 else None}
    if k == "unormal":
        return {"k": k, "sigma": round(rng.uniform(0.01, 2), 3), "mu": mu(), "method": rng.choice(["equiprobable", "gauss-hermite"])}
    if k == "uniform":
        a = mu()
        return {"k": k, "a": a, "b": a + round(rng.uniform(0.1, 3), 3)}
    if k == "lognormal":
        return {"k": k, "sigma": round(rng.uniform(0.05, 1), 3), "mu": mu()}
    if k == "beta":
        return {"k": k, "a": round(rng.uniform(0.5, 4), 2), "b": round(rng.uniform(0.5, 4), 2)}
    if k == "trunc":
        return {"k": k, "sigma": 0.5, "mu": 0.2, "lb": rng.choice([None, -0.4, 0.0]), "ub": rng.choice([None, 0.9, 0.3])}
    if k == "bern":
        return {"k": k, "p": rng.choice([0.3, 0.5, round(rng.uniform(0.01, 0.99), 3)])}
    if k in ("finite", "equi"):
        n, d = rng.choice([1, 2, 4]), rng.choice([1, 2])
        w = [rng.uniform(0.1, 1) for _ in range(n)]
        return {"k": k, "points": [[round(rng.uniform(-2, 2), 3) for _ in range(d)] for _ in range(n)], "weights": [x / sum(w) for x in w]}
    if k == "const":
        return {"k": k, "mu": [mu() for _ in range(rng.choice([1, 2]))]}
    if k == "mc":
        n, d = rng.choice([2, 3]), rng.choice([1, 2])
        P = [[rng.uniform(0.05, 1) for _ in range(n)] for _ in range(n)]
        return {"k": k, "P": [[x / sum(r) for x in r] for r in P], "Q": [[round(rng.uniform(-2, 2), 3) for _ in range(d)] for _ in range(n)]}
    if k == "mixture":
        return {"k": k, "p": round(rng.uniform(0.05, 0.95), 2), "of": [{"k": "unormal", "sigma": 0.1, "mu": 0.3, "method": "equiprobable"}, rng.choice([{"k": "uniform", "a": 1.0, "b": 2.0}, {"k": "unormal", "sigma": 0.2, "mu": -1.0, "method": "equiprobable"}, {"k": "const", "mu": [0.4]}])]}
    while True:
        of = [gen_spec(rng, 1) for _ in range(rng.choice([2, 2, 3]))]
        if np.prod([states(x) for x in of]) <= 130:
            return {"k": "product", "of": of}


def states(sp):
    """about how many values its discretization has"""
    k = sp["k"]
    if k in ("var1", "varmat", "normal"):
        return (5 if k == "normal" else 3) ** len(sp["Sigma"])
    return {"ar1": 3, "bern": 2, "const": 1}.get(k) or len(sp.get("points", sp.get("Q", range(5))))


def scaled(name, v, f):
    if name in ("sigma", "Sigma", "values", "b"):
        return (np.array(v) * f).tolist()
    return [v[0], {a: scaled(a, x, f) for a, x in v[-1].items()}] if name == "of" else v


class Chain:
    """the routine behind discretized autoregressive processes, called directly"""

    def __init__(self, sp):
        self.sp = sp

    def discretize(self, N=3):
        from dolo.numeric.discretization import rouwenhorst
        from dolo.numeric.processes import MarkovChain
        x, P = rouwenhorst(self.sp["rho"], self.sp["sigma"], N)
        return MarkovChain(P, np.array(x)[:, None] + self.sp["mu"])


def build(sp):
    import dolo.numeric.distribution as D
    import dolo.numeric.processes as P
    k = sp["k"]
    if k == "chain":
        return Chain(sp)
    if k == "ar1":
        return P.AR1(ρ=sp["rho"], σ=sp["sigma"], μ=sp["mu"])
    if k in ("var1", "varmat"):
        return P.VAR1(ρ=sp["rho"] if not isinstance(sp["rho"], list) else np.array(sp["rho"]), Σ=np.array(sp["Sigma"]), μ=None if sp["mu"] is None else np.array(sp["mu"]))
    if k == "normal":
        return D.Normal(Σ=np.array(sp["Sigma"]), Μ=None if sp["mu"] is None else np.array(sp["mu"]))
    if k == "unormal":
        return D.UNormal(σ=sp["sigma"], μ=sp["mu"])
    if k == "uniform":
        return D.Uniform(a=sp["a"], b=sp["b"])
    if k == "lognormal":
        return D.LogNormal(σ=sp["sigma"], μ=sp["mu"])
    if k == "beta":
        return D.Beta(α=sp["a"], β=sp["b"])
    if k == "trunc":
        return D.Truncation(D.UNormal(σ=sp["sigma"], μ=sp["mu"]), lb=-np.inf if sp["lb"] is None else sp["lb"], ub=np.inf if sp["ub"] is None else sp["ub"])
    if k == "bern":
        return D.Bernouilli(π=sp["p"])
    if k == "finite":
        return D.FiniteDistribution(np.array(sp["points"]), np.array(sp["weights"]))
    if k == "equi":
        return D.EquiprobableDistribution(np.array(sp["points"]))
    if k == "const":
        return P.ConstantProcess(μ=sp["mu"])
    if k == "mc":
        return P.MarkovChain(np.array(sp["P"]), np.array(sp["Q"]))
    if k == "mixture":
        return D.Mixture(index=D.Bernouilli(π=sp["p"]), distributions={str(i): build(x) for i, x in enumerate(sp["of"])})
    return P.ProductProcess(*[build(x) for x in sp["of"]])


def dist(sp):
    import scipy.stats as st
    k = sp["k"]
    if k == "unormal":
        return st.norm(sp["mu"], sp["sigma"])
    if k == "uniform":
        return st.uniform(sp["a"], sp["b"] - sp["a"])
    if k == "lognormal":
        return st.lognorm(s=sp["sigma"], scale=np.exp(sp["mu"]))
    if k == "beta":
        return st.beta(sp["a"], sp["b"])
    a, b = (-np.inf if sp["lb"] is None else sp["lb"], np.inf if sp["ub"] is None else sp["ub"])
    return st.truncnorm((a - sp["mu"]) / sp["sigma"], (b - sp["mu"]) / sp["sigma"], loc=sp["mu"], scale=sp["sigma"])


def autoregressive(sp):
    """-> rho (d,d), covariance of the shocks, mean, or None"""
    if sp["k"] == "ar1":
        return np.array([[sp["rho"]]]), np.array([[sp["sigma"]]]), np.array([sp["mu"]])
    if sp["k"] == "chain":
        return np.array([[sp["rho"]]]), np.array([[sp["sigma"] ** 2]]), np.array([sp["mu"]])
    if sp["k"] in ("var1", "varmat"):
        S = np.array(sp["Sigma"])
        r = np.array(sp["rho"], dtype=float)
        r = np.eye(len(S)) * r if r.ndim == 0 else np.diag(r) if r.ndim == 1 else r
        return r, S, np.zeros(len(S)) if sp["mu"] is None else np.array(sp["mu"])
    return None


def width(sp):
    k = sp["k"]
    if k in ("var1", "varmat", "normal"):
        return len(sp["Sigma"])
    if k in ("finite", "equi"):
        return len(sp["points"][0])
    if k == "const":
        return len(sp["mu"])
    if k == "mc":
        return len(sp["Q"][0])
    if k == "product":
        return sum(width(x) for x in sp["of"])
    return 1


def merge(pts, w):
    """law on distinct points, sorted"""
    pts = np.round(np.atleast_2d(np.asarray(pts, dtype=float)), 9) + 0.0
    u, inv = np.unique(pts, axis=0, return_inverse=True)
    return u, np.bincount(inv.ravel(), weights=w, minlength=len(u))


def same_law(a, b):
    (x, w), (y, v) = merge(*a), merge(*b)
    return x.shape == y.shape and np.abs(x - y).max() < 1e-7 and np.abs(w - v).max() < TOL


class C22(core.Check):
    ID = "C22"
    RULE = ("A run declares a process (autoregressive of one to three components with any correlation, degenerate or not; normal, univariate, finite, Bernoulli, constant distributions, mixtures, Markov chains, products of these), uses it (discretizations with other "
            "numbers of nodes, draws, simulations, uses stopped by an interrupt or memory error before a chosen source line, results modified by the caller), discretizes it and simulates the result with a seeded generator. Weights and transitions must be probabilities; nodes, weights and transitions as solvers read them must agree with "
            "what is simulated; means, covariances, autocovariances and expected next values must be those of the declared process, or points and weights those of the documented method; simulated paths must follow the declared law of motion on average. "
            "Non-trivial when the process was used before it was discretized.")
    REAL = ["distributions, processes, quadrature and Markov chain discretization, products, mixtures, simulation of chains"]
    STUBS = ["random numbers (seeded generator)", "moment of interrupts, through sys.settrace"]
    RUNS = {"quick": 9000, "thorough": 150000}
    SOFT_S = {"quick": 40, "thorough": 900}
    STATE_MEASURE = "distinct (declared process, number of nodes) combinations"
    ASSUMPTIONS = ["A process the library cannot discretize may raise an error; it must do so for autoregressive processes whose components have different autocorrelations, which it cannot represent.",
                   "Sample averages are compared with bounds of seven standard deviations plus a margin."]

    MODEL_BLOCKS = {
        "var1": ("var1", {"k": "var1", "rho": 0.7, "Sigma": [[0.0004, 0.0001], [0.0001, 0.0002]], "mu": None}),
    }

    def setup(self, tier):
        ops.setup_library()

    def fixed(self, tier):
        out = []
        full = [[0.04, 0.018], [0.018, 0.01]]
        for N in (None, 1, 2, 3, 5, 7):
            for rho in (0.0, 0.8, -0.5, 0.97):
                out.append({"spec": {"k": "ar1", "rho": rho, "sigma": 0.02, "mu": 0.3}, "N": N, "to": None, "before": [["disc", 4], ["stop", "disc", 4 + 3 * (N or 0), "interrupt"]], "seed": 1})
                out.append({"spec": {"k": "chain", "rho": rho, "sigma": 0.02, "mu": 0.3}, "N": N, "to": None, "before": [["other", 4.0]], "seed": 1})
                out.append({"spec": {"k": "var1", "rho": rho, "Sigma": full, "mu": [0.1, -0.2]}, "N": N if N != 7 else 4, "to": None, "before": [["disc", 4], ["spoil"]], "seed": 1})
            for S in (full, [[1.0, -1.0], [-1.0, 2.0]], [[0.04, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.3]], [[0.3, 0.1, 0.05], [0.1, 0.2, -0.1], [0.05, -0.1, 0.4]]):
                if np.linalg.det(S) > 0:  # others cannot be declared
                    out.append({"spec": {"k": "normal", "Sigma": S, "mu": None if N == 3 else [0.5, -1.0, 2.0][:len(S)]}, "N": N, "to": None, "before": [["disc", 4], ["spoil"]], "seed": 2})
                if N in (None, 2, 4, 5):
                    out.append({"spec": {"k": "var1", "rho": 0.6, "Sigma": S, "mu": None}, "N": N if len(S) == 2 else 2, "to": None, "before": [], "seed": 2})
            out.append({"spec": {"k": "unormal", "sigma": 0.3, "mu": 1.0, "method": "gauss-hermite"}, "N": N, "to": None, "before": [], "seed": 3})
            out.append({"spec": {"k": "unormal", "sigma": 0.3, "mu": 1.0, "method": "equiprobable"}, "N": N, "to": None, "before": [], "seed": 3})
            out.append({"spec": {"k": "unormal", "sigma": 0.3, "mu": 1.0, "method": "gauss-hermite"}, "N": N, "to": "mc", "before": [], "seed": 3})
            out.append({"spec": {"k": "normal", "Sigma": full, "mu": None}, "N": N, "to": "mc", "before": [], "seed": 3})
            for mp in ("left", "right", "middle", "median"):
                out.append({"spec": {"k": "uniform", "a": -1.0, "b": 3.0}, "N": N, "to": None, "mass": mp, "before": [["disc", 3]], "seed": 3})
        for rho in ([0.7, 0.5], [[0.7, 0.1], [0.0, 0.7]], [0.5, 0.5]):
            out.append({"spec": {"k": "varmat", "rho": rho, "Sigma": [[0.04, 0.0], [0.0, 0.09]], "mu": None}, "N": 3, "to": None, "before": [], "seed": 3})
        ar, un = {"k": "ar1", "rho": 0.7, "sigma": 0.01, "mu": 0.5}, {"k": "unormal", "sigma": 0.1, "mu": 0.2, "method": "equiprobable"}
        mc = {"k": "mc", "P": [[0.9, 0.1], [0.4, 0.6]], "Q": [[1.0], [2.0]]}
        va = {"k": "var1", "rho": 0.7, "Sigma": full, "mu": [0.1, -0.2]}
        for of in ([ar, un], [un, ar], [mc, mc], [ar, mc, un], [va, mc], [un, un], [un, {"k": "normal", "Sigma": full, "mu": [1.0, 2.0]}], [{"k": "bern", "p": 0.3}, un], [mc, {"k": "const", "mu": [0.4]}]):
            for to in (None, "mc", "iid"):
                out.append({"spec": {"k": "product", "of": of}, "N": None, "to": to, "before": [["sim", 3]], "seed": 4})
        for p in (0.3, 0.9):
            for to in (None, "mc"):
                out.append({"spec": {"k": "mixture", "p": p, "of": [un, {"k": "const", "mu": [5.0]}]}, "N": None, "to": to, "before": [["sim", 2]], "seed": 4})
        out.append({"spec": self.MODEL_BLOCKS["var1"][1], "N": None, "to": None, "before": [], "seed": 5, "model": "wide-var"})
        out.append({"spec": {"k": "normal", "Sigma": [[0.0004, 0.0001], [0.0001, 0.0002]], "mu": None}, "N": None, "to": None, "before": [], "seed": 5, "model": "wide-normal"})
        return out

    def generate(self, rng, tier):
        sp = gen_spec(rng)
        d = width(sp)
        N = rng.choice([None, None, 2, 3, 4, 5, 6 if d < 3 else 2, 9 if d == 1 else 3, 15 if d == 1 else 2])
        if sp["k"] == "normal" and rng.random() < 0.3:
            N = [rng.choice([2, 3, 4, 5]) for _ in range(d)]
        if d == 3 and isinstance(N, int):
            N = min(N, 4)
        before = [rng.choice([["disc", rng.choice([2, 3, 5])], ["sim", rng.randrange(99)], ["draw", rng.randrange(1, 9)], ["spoil"], ["path", 4], ["other", rng.choice([0.25, 4.0])], ["stop", rng.choice(["disc", "sim"]), rng.choice([rng.randint(1, 12), rng.randint(1, 80), rng.randint(1, 400)]), rng.choice(["interrupt", "memory"])]]) for _ in range(rng.choice([0, 1, 2, 3]))]
        sc = {"spec": sp, "N": N, "to": rng.choice([None, None, "mc", "iid"]), "before": before, "seed": rng.randrange(10 ** 6)}
        if sp["k"] in ("uniform", "beta"):
            sc["mass"] = rng.choice(["left", "right", "middle", "median"])
        return sc

    def shrink(self, sc):
        for i in range(len(sc["before"])):
            yield dict(sc, before=sc["before"][:i] + sc["before"][i + 1:])
        if sc["spec"]["k"] == "product" and len(sc["spec"]["of"]) > 1:
            for i in range(len(sc["spec"]["of"])):
                yield dict(sc, spec=dict(sc["spec"], of=sc["spec"]["of"][:i] + sc["spec"]["of"][i + 1:]))
        if sc["N"] not in (None, 2):
            yield dict(sc, N=2)

    # ------------------------------------------------------------------ oracle
    def arguments(self, sc):
        sp, kw = sc["spec"], {}
        k = sp["k"]
        if sc["to"]:
            kw["to"] = sc["to"]
        elif k == "const":
            kw["to"] = "iid"
        if k == "chain":
            kw.pop("to", None)
        if sc["N"] is not None and k in ("ar1", "var1", "varmat", "chain"):
            kw["N"] = sc["N"]
        if k in ("normal", "unormal", "uniform", "lognormal", "beta", "trunc"):
            if sc["N"] is not None:
                kw["N"] = sc["N"]
            if k == "unormal":
                kw["method"] = sp["method"]
            if "mass" in sc:
                kw["mass_point"] = sc["mass"]
        if k in ("ar1", "var1", "varmat") and kw.get("to") == "iid" or k == "mc" and kw.get("to") == "iid":
            kw.pop("to")
        return kw

    def law(self, sp, N=None, method=None, mass="median"):
        """points and weights promised, or None"""
        k = sp["k"]
        if k == "const":
            return np.array([sp["mu"]]), np.ones(1)
        if k == "bern":
            return np.array([[0.0], [1.0]]), np.array([1 - sp["p"], sp["p"]])
        if k == "finite":
            return np.array(sp["points"]), np.array(sp["weights"])
        if k == "equi":
            return np.array(sp["points"]), np.ones(len(sp["points"])) / len(sp["points"])
        if k in ("unormal", "uniform", "lognormal", "beta", "trunc") and method != "gauss-hermite":
            n = N or 5
            edges = np.arange(n + 1) / n
            q = dist(sp)
            x = {"median": q.ppf((edges[1:] + edges[:-1]) / 2), "left": q.ppf(edges[:-1]), "right": q.ppf(edges[1:]), "middle": (q.ppf(edges[1:]) + q.ppf(edges[:-1])) / 2}[mass]
            return x[:, None], np.ones(n) / n
        if k == "mixture":
            laws = [self.law(x) for x in sp["of"]]
            return np.concatenate([l[0] for l in laws]), np.concatenate([l[1] * w for l, w in zip(laws, [1 - sp["p"], sp["p"]])])
        return None

    def moments(self, sp):
        """mean and covariance, exact ones"""
        if sp["k"] == "normal":
            S = np.array(sp["Sigma"])
            return np.zeros(len(S)) if sp["mu"] is None else np.array(sp["mu"]), S
        if sp["k"] == "unormal":
            return np.array([sp["mu"]]), np.array([[sp["sigma"] ** 2]])
        return None

    def check_iid(self, sp, pts, w, N, method, mass, what):
        if not (w >= -1e-15).all() or abs(w.sum() - 1) > TOL:
            raise core.Violation("weights", f"{what}: the weights {w.tolist()[:12]} are not probabilities")
        exp = self.law(sp, N, method, mass)
        if exp is not None:
            if not same_law((pts, w), exp):
                raise core.Violation("law", f"{what}: points {pts.tolist()[:6]} weights {w.tolist()[:6]}, expected {exp[0].tolist()[:6]}, {exp[1].tolist()[:6]}")
            return
        ms = self.moments(sp)
        if ms is None:
            return
        mean = w @ pts
        cov = (pts - mean).T @ ((pts - mean) * w[:, None])
        scale = max(1e-12, np.abs(ms[1]).max())
        if np.abs(mean - ms[0]).max() > TOL * (1 + np.abs(ms[0]).max()):
            raise core.Violation("mean", f"{what}: the mean is {mean.tolist()}, not {ms[0].tolist()}")
        orders = N if isinstance(N, list) else [N or 5]
        if min(orders) >= 2 and np.abs(cov - ms[1]).max() > TOL * scale * 10:
            raise core.Violation("covariance", f"{what}: the covariance is {cov.tolist()}, not {ms[1].tolist()}")
        if min(orders) >= 3:
            k4 = w @ (pts - mean) ** 4
            if np.abs(k4 - 3 * np.diag(ms[1]) ** 2).max() > 1e-7 * scale ** 2 * 10:
                raise core.Violation("kurtosis", f"{what}: fourth moments {k4.tolist()}, not {(3 * np.diag(ms[1]) ** 2).tolist()}")

    def check_chain(self, sp, x, P, N, what, method=None, mass="median"):
        """x: values of this component in each state, P: transitions of the whole chain"""
        if not (P >= -1e-12).all() or np.abs(P.sum(axis=1) - 1).max() > TOL:
            raise core.Violation("transitions", f"{what}: a row of the transitions is not a probability vector: {P[np.abs(P.sum(axis=1) - 1).argmax()].tolist()[:12]}")
        ar = autoregressive(sp)
        if ar is not None:
            rho, S, mu = ar
            scale = max(np.abs(x - mu).max(), 1e-12)
            if np.abs(np.linalg.eigvals(rho)).max() >= 1:
                return
            cond = P @ x
            if N != 1 and np.abs(cond - (mu + (x - mu) @ rho.T)).max() > 1e-8 * scale + 1e-12:
                k = int(np.abs(cond - (mu + (x - mu) @ rho.T)).max(axis=1).argmax())
                raise core.Violation("autocorrelation", f"{what}: after state {x[k].tolist()} the expected value is {cond[k].tolist()}, not {(mu + rho @ (x[k] - mu)).tolist()}")
            pi = self.stationary(P)
            mean = pi @ x
            if np.abs(mean - mu).max() > 1e-8 * scale + 1e-12:
                raise core.Violation("mean", f"{what}: the stationary mean is {mean.tolist()}, not {mu.tolist()}")
            if N != 1:
                V = self.long_run(rho, S)
                cov = (x - mean).T @ ((x - mean) * pi[:, None])
                if np.abs(cov - V).max() > 1e-7 * np.abs(V).max() + 1e-12:
                    raise core.Violation("covariance", f"{what}: the stationary covariance is {cov.tolist()}, not {V.tolist()}")
            return
        if sp["k"] == "mc":
            Q, T = np.array(sp["Q"]), np.array(sp["P"])
            for k in range(len(x)):
                i = np.where(np.abs(Q - x[k]).max(axis=1) < 1e-12)[0]
                if len(i) == 0:
                    raise core.Violation("values", f"{what}: {x[k].tolist()} is not one of the values of the chain")
                if len(i) == 1 and not same_law((x, P[k]), (Q, T[i[0]])):
                    raise core.Violation("transitions", f"{what}: after {x[k].tolist()}, the law is {merge(x, P[k])}, not {merge(Q, T[i[0]])}")
            return
        if sp["k"] == "const":
            if np.abs(x - np.array(sp["mu"])).max() > 1e-12:
                raise core.Violation("values", f"{what}: a constant takes the values {x.tolist()}")
            return
        for k in range(len(x)):  # independent draws: the same law after every state
            self.check_iid(sp, x, P[k], N, method, mass, what + f", after state {k}")

    def long_run(self, rho, S):
        V, A = np.array(S), np.array(rho)
        for _ in range(60):
            V, A = V + A @ V @ A.T, A @ A
        return V

    def stationary(self, P):
        n = len(P)
        A = np.concatenate([P.T - np.eye(n), np.ones((1, n))])
        return np.linalg.lstsq(A, np.concatenate([np.zeros(n), [1.0]]), rcond=None)[0]

    def interface(self, dp, x, P, what):
        """what solvers read"""
        if dp.n_nodes != len(x) or np.shape(dp.nodes) != x.shape or np.abs(np.asarray(dp.nodes) - x).max() > 0:
            raise core.Violation("interface", f"{what}: nodes {np.shape(dp.nodes)}, n_nodes {dp.n_nodes} for {len(x)} values")
        for i in range(len(x)):
            if np.abs(dp.node(i) - x[i]).max() > 0 or dp.n_inodes(i) != P.shape[1] or any(np.abs(dp.inode(i, j) - x[j]).max() > 0 or dp.iweight(i, j) != P[i, j] for j in range(P.shape[1])):
                raise core.Violation("interface", f"{what}: nodes or weights read from state {i} are not those of the chain")
            items = list(dp.iteritems(i))
            if abs(sum(a for a, _ in items) - P[i].sum()) > 1e-12 or np.abs(sum(a * np.asarray(b) for a, b in items) - P[i] @ x).max() > 1e-9 * (1 + np.abs(x).max()):
                raise core.Violation("interface", f"{what}: iteritems({i}) disagrees with the transitions")
        if np.abs(dp.grid.nodes - x).max() > 0:
            raise core.Violation("interface", f"{what}: the grid of the chain holds other nodes")

    # ------------------------------------------------------------------ run
    def run(self, sc, ctx):
        simrng.set_all(sc["seed"])
        sp = sc["spec"]
        if sp["k"] == "product" and not sp["of"]:
            return
        k = sp["k"]
        what = f"{json.dumps(sp)[:300]} discretized with {self.arguments(sc)} after {json.dumps(sc['before'])}"
        with ops.quiet():
            if "model" in sc:
                from .. import world
                m = models.load_text(world.WIDE % (world.WIDE_VAR if sc["model"] == "wide-var" else "!Normal\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"))
                proc = m.exogenous
            else:
                proc = build(sp)
            kw = self.arguments(sc)
            last = None
            for b in sc["before"]:
                try:
                    if b[0] == "disc":
                        last = proc.discretize(**dict(kw, **({"N": b[1]} if "N" in kw and not isinstance(kw["N"], list) or k in ("ar1", "var1", "normal", "chain") else {})))
                        ctx.probe("discretized-before")
                    elif b[0] == "stop":
                        inj = Interrupt(b[2], b[3])
                        try:
                            with inj:
                                last = proc.discretize(**kw) if b[1] == "disc" else proc.simulate(2, 3)
                        except (KeyboardInterrupt, MemoryError):
                            pass
                        if inj.fired:
                            ctx.fault("stopped-by-" + b[3])
                    elif b[0] == "other":  # a process with other parameters
                        build({a: scaled(a, v, b[1]) for a, v in sp.items()}).discretize(**kw)
                    elif b[0] == "sim":
                        proc.simulate(2, b[1] % 7 + 2)
                    elif b[0] == "path":
                        proc.simulate(1, b[1], stochastic=False)
                    elif b[0] == "draw" and hasattr(proc, "draw"):
                        proc.draw(b[1])
                    elif b[0] == "spoil" and last is not None and k in ("ar1", "var1", "varmat", "normal", "unormal", "uniform", "lognormal", "beta", "trunc", "mixture"):
                        for n in ("values", "transitions", "points", "weights"):
                            a = getattr(last, n, None)
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a *= 0.5
                                ctx.fault("result-modified")
                    ctx.nontrivial = True
                except Exception as e:
                    ctx.ev("before-fails", b[0], type(e).__name__)
            try:
                dp = m.discretize()[1] if "model" in sc else proc.discretize(**kw)
            except Exception as e:
                ctx.ev("raises", type(e).__name__, str(e)[:60])
                if not self.may_raise(sc, kw):
                    raise core.Violation("fails", f"{what}: raised {e!r}")
                return
            if hasattr(dp, "transitions"):
                x, P = np.asarray(dp.values), np.asarray(dp.transitions)
                n = len(x)
                if P.shape != (n, n) or x.shape[1] != width(sp):
                    raise core.Violation("shape", f"{what}: values {x.shape} and transitions {P.shape} for {width(sp)} variables")
                self.interface(dp, x, P, what)
                parts = sp["of"] if k == "product" else [sp]
                c = 0
                for p in parts:
                    self.check_chain(p, x[:, c:c + width(p)], P, sc["N"] if k != "product" else None, what + (f", component {json.dumps(p)[:80]}" if k == "product" else ""), kw.get("method"), kw.get("mass_point", "median"))
                    c += width(p)
                if len(parts) > 1:
                    self.independent(parts, x, P, what)
                self.paths(sc, kw, parts, dp, x, P, what, ctx)
                ctx.ev("chain", n, round(float(x.sum()), 9), round(float((P @ x).sum()), 9))
            elif hasattr(dp, "points") or hasattr(dp, "point"):
                n = dp.n_inodes(0)
                x, w = np.array([dp.inode(0, j) for j in range(n)], dtype=float), np.array([dp.iweight(0, j) for j in range(n)])
                if x.ndim != 2 or x.shape[1] != width(sp):
                    raise core.Violation("shape", f"{what}: points of shape {x.shape} for {width(sp)} variables")
                items = list(dp.items())
                if len(items) != n or any(a != b or np.abs(np.asarray(u) - v).max() > 0 for (a, u), b, v in zip(items, w, x)):
                    raise core.Violation("interface", f"{what}: items() disagrees with inode and iweight")
                tot = dp.integrate(lambda v: np.asarray(v) * 1.0)
                if np.abs(tot - w @ x).max() > 1e-9 * (1 + np.abs(x).max()):
                    raise core.Violation("interface", f"{what}: integrate() gives {tot}, the points and weights {(w @ x).tolist()}")
                if k == "product":
                    c = 0
                    laws = [self.law(p) for p in sp["of"]]
                    for p in sp["of"]:
                        self.check_iid(p, x[:, c:c + width(p)], w, None, None, "median", what + f", component {json.dumps(p)[:80]}")
                        c += width(p)
                    mean = w @ x
                    cov = (x - mean).T @ ((x - mean) * w[:, None])
                    c = 0
                    for p in sp["of"]:
                        e = c + width(p)
                        if np.abs(cov[c:e, e:]).max(initial=0.0) > 1e-9 * max(1.0, np.abs(cov).max()):
                            raise core.Violation("dependent", f"{what}: components are correlated: {cov.tolist()}")
                        c = e
                else:
                    self.check_iid(sp, x, w, sc["N"] if "N" in kw else None, kw.get("method"), kw.get("mass_point", "median"), what)
                if np.isfinite(x).all():
                    self.sample(dp, x, w, what)
                ctx.ev("iid", n, round(float((w @ np.where(np.isfinite(x), x, 0.0)).sum()), 9))
            else:
                raise core.Violation("shape", f"{what}: gave a {type(dp).__name__}")
            ctx.state((json.dumps(sp), str(sc["N"])))

    def may_raise(self, sc, kw):
        sp = sc["spec"]
        if sp["k"] == "varmat":
            return True
        if sp["k"] == "product":
            if kw.get("to") == "iid":
                return any(p["k"] in ("ar1", "var1", "mc") for p in sp["of"])
            return False
        return False

    def independent(self, parts, x, P, what):
        """joint transitions are products of those of the components"""
        c, joint = 0, []
        for p in parts:
            _, inv = np.unique(np.round(x[:, c:c + width(p)], 9), axis=0, return_inverse=True)
            joint.append(inv.ravel())
            c += width(p)
        ids = np.stack(joint, axis=1)
        n = len(x)
        if len(np.unique(ids, axis=0)) != n:
            return  # states cannot be told apart by their values
        for i in range(n):
            prod = np.ones(n)
            for a in joint:
                marg = np.bincount(a, weights=P[i])
                prod = prod * marg[a]
            if np.abs(prod - P[i]).max() > 1e-9:
                raise core.Violation("dependent", f"{what}: the next values of the components are not independent given state {x[i].tolist()}")

    def paths(self, sc, kw, parts, dp, x, P, what, ctx):
        """simulated histories follow the declared law of motion on average"""
        N, T = 40, 40
        i0 = sc["seed"] % len(x)
        inds = dp.simulate_indices(N, T, i0=i0)
        sim = x[inds]
        args = (sc["N"] if "N" in kw else None, kw.get("method"), kw.get("mass_point", "median"))
        simrng.set_all(sc["seed"] + 1)
        c = 0
        for p in parts:
            e = c + width(p)
            cur, nxt = sim[:-1, :, c:e].reshape(-1, e - c), sim[1:, :, c:e].reshape(-1, e - c)
            ar = autoregressive(p)
            if ar is not None and np.abs(np.linalg.eigvals(ar[0])).max() < 1 and sc["N"] != 1:
                exp = ar[2] + (cur - ar[2]) @ ar[0].T
            elif self.law(p, *args) is not None:
                l = self.law(p, *args)
                exp = np.broadcast_to(l[1] @ l[0], cur.shape)
            elif self.moments(p) is not None:
                exp = np.broadcast_to(self.moments(p)[0], cur.shape)
            else:
                c = e
                continue
            xs = x[:, c:e]
            var = (P @ xs ** 2 - (P @ xs) ** 2)[inds[:-1].ravel()]
            bound = 7 * np.sqrt(np.maximum(var.sum(axis=0), 0)) + 1e-6 * (1 + np.abs(xs).max()) * len(cur) ** 0.5 + 3 * np.abs(xs - xs.mean(axis=0)).max()
            dev = np.abs((nxt - exp).sum(axis=0))
            if (dev > bound).any():
                raise core.Violation("simulated", f"{what}: over {N} paths of {T} dates the values deviate from the law of motion of {json.dumps(p)[:80]} by {(dev / len(cur)).tolist()} on average (bound {(bound / len(cur)).tolist()})")
            c = e
        ctx.simtime += N * T

    def sample(self, dp, x, w, what):
        n = 600
        s = np.asarray(dp.draw(n), dtype=float)
        if s.shape != (n, x.shape[1]):
            raise core.Violation("draws", f"{what}: draws have shape {s.shape}")
        mean = w @ x
        sd = np.sqrt(np.maximum(w @ (x - mean) ** 2, 0))
        if (np.abs(s.mean(axis=0) - mean) > 7 * sd / n ** 0.5 + 1e-9 + 2 * np.abs(x - mean).max(axis=0) / n).any():
            raise core.Violation("draws", f"{what}: {n} draws have mean {s.mean(axis=0).tolist()}, the points and weights {mean.tolist()}")


CHECK = C22()
