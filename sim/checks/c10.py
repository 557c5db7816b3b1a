"""C10: random draws of shocks follow the process that was declared."""
import math

import numpy as np
from scipy import stats

from .. import core, rng as simrng

Z = 8.0  # standard errors


def bern(sd, far, n):
    """Bernstein bound for the mean of n independent variables at about Z standard errors"""
    return Z * sd / math.sqrt(n) + Z * Z / 3 * far / n + 1e-12 * (1 + far)


def dkw(n):
    return math.sqrt(math.log(2 / 1e-13) / (2 * n))


# ------------------------------------------------------------------ specifications, their laws and their construction
def gen_dist(rng, depth=0):
    kinds = ["unormal", "unormal", "uniform", "bernouilli", "finite", "equi", "normal", "constant", "discretized"]
    if depth < 2:
        kinds += ["mixture", "mixture", "product"]
    k = rng.choice(kinds)
    f = lambda *a: rng.choice(a)
    if k == "unormal":
        return {"k": k, "mu": f(None, 0.0, 0.3, -2.0, 50.0), "sigma": f(0.1, 1.0, 3.0, 0.01, 0.0001, 200.0)}
    if k == "uniform":
        a = f(0.0, -1.0, 5.0)
        return {"k": k, "a": a, "b": a + f(1.0, 0.1, 4.0, 0.001)}
    if k == "bernouilli":
        return {"k": k, "p": f(0.5, 0.1, 0.9, 0.3, 0.0, 1.0, 0.02, 0.004, 0.996)}
    if k == "constant":
        return {"k": k, "mu": [round(rng.uniform(-2, 2), 2) for _ in range(f(1, 1, 2))]}
    if k in ("finite", "equi"):
        n, d = f(rng.randint(1, 6), rng.randint(1, 6), 20, 40) if depth == 0 else rng.randint(1, 6), f(1, 1, 2)
        w = [f(0.0, 1.0, 1.0, 2.0, 0.1) for _ in range(n)]
        if not sum(w):
            w[0] = 1.0
        return {"k": k, "points": [[round(rng.uniform(-3, 3), 2) for _ in range(d)] for _ in range(n)], "weights": [x / sum(w) for x in w]}
    if k == "normal":
        d = rng.randint(1, 3)
        r = np.random.RandomState(rng.randrange(10 ** 6))
        A = r.normal(size=(d, d))
        S = (A @ A.T + 0.05 * np.eye(d)).round(3)
        return {"k": k, "mu": f(None, [round(rng.uniform(-2, 2), 2) for _ in range(d)]), "Sigma": S.tolist()}
    if k == "discretized":
        return {"k": k, "of": f({"k": "unormal", "mu": 0.5, "sigma": 0.2}, {"k": "normal", "mu": [1.0, 0.0], "Sigma": [[1.0, 0.5], [0.5, 2.0]]}, {"k": "uniform", "a": 0.0, "b": 2.0})}
    if k == "product":
        return {"k": k, "parts": [gen_dist(rng, 2) for _ in range(rng.randint(1, 3))]}
    if k == "mixture":
        n = f(2, 2, 3)
        d = f(1, 1, 2)
        parts = []
        for _ in range(n):
            while True:
                p = gen_dist(rng, 2)
                if dim(p) == d:
                    break
            parts.append(p)
        index = {"k": "bernouilli", "p": f(0.5, 0.2, 0.85)} if n == 2 and rng.random() < 0.7 else \
            {"k": "finite", "points": [[float(i)] for i in range(n)], "weights": {2: [0.3, 0.7], 3: [0.2, 0.5, 0.3]}[n]}
        return {"k": k, "index": index, "parts": parts, "keys": f("str", "str", "int", "str-reversed", "int-reversed")}


def dim(s):
    k = s["k"]
    if k == "constant":
        return len(s["mu"])
    if k in ("finite", "equi"):
        return len(s["points"][0])
    if k == "normal":
        return len(s["Sigma"])
    if k == "discretized":
        return dim(s["of"])
    if k == "product":
        return sum(dim(p) for p in s["parts"])
    if k == "mixture":
        return dim(s["parts"][0])
    return 1


def yaml_of(s, ind=0):
    """the declaration as written in a model file (None when there is no such syntax)"""
    k = s["k"]
    sp = "\n" + " " * (ind + 4)
    if k == "unormal":
        return f"!UNormal{sp}" + (f"μ: {s['mu']}{sp}" if s["mu"] is not None else "") + f"sigma: {s['sigma']}"
    if k == "uniform":
        return f"!Uniform{sp}a: {s['a']}{sp}b: {s['b']}"
    if k == "bernouilli":
        return f"!Bernouilli{sp}π: {s['p']}"
    if k == "constant":
        return f"!ConstantProcess{sp}μ: {s['mu']}"
    if k == "normal":
        return f"!Normal{sp}Sigma: {s['Sigma']}" + (f"{sp}Μ: {s['mu']}" if s["mu"] is not None else "")
    if k == "mixture" and s["keys"].startswith("str"):
        idx = yaml_of(s["index"], ind + 4)
        parts = [yaml_of(p, ind + 8) for p in s["parts"]]
        if idx is None or None in parts:
            return None
        return f"!Mixture{sp}index: {idx}{sp}distributions:" + "".join(f"\n{' ' * (ind + 8)}{i}: {p}" for i, p in order(s, parts))
    return None


def order(s, parts):
    """the components of a mixture in the order in which they are declared"""
    out = list(enumerate(parts))
    return out[::-1] if s["keys"].endswith("reversed") else out


def build(s):
    from dolo.numeric import distribution as D, processes as P
    k = s["k"]
    if k == "unormal":
        return D.UNormal(σ=s["sigma"], μ=s["mu"]) if s["mu"] is not None else D.UNormal(sigma=s["sigma"])
    if k == "uniform":
        return D.Uniform(s["a"], s["b"])
    if k == "bernouilli":
        return D.Bernouilli(π=s["p"])
    if k == "constant":
        return P.ConstantProcess(μ=s["mu"])
    if k == "finite":
        return D.FiniteDistribution(np.array(s["points"]), np.array(s["weights"]))
    if k == "equi":
        return D.EquiprobableDistribution(np.array(s["points"]))
    if k == "normal":
        return D.Normal(Σ=s["Sigma"], Μ=s["mu"]) if s["mu"] is not None else D.Normal(Sigma=s["Sigma"])
    if k == "discretized":
        return build(s["of"]).discretize()
    if k == "product":
        return D.ProductDistribution([build(p) for p in s["parts"]])
    if k == "mixture":
        return D.Mixture(index=build(s["index"]), distributions={(str(i) if s["keys"].startswith("str") else i): build(p) for i, p in order(s, s["parts"])})


def atoms(s):
    """(points, weights) of a finitely supported law, else None"""
    k = s["k"]
    if k == "bernouilli":
        return np.array([[0.0], [1.0]]), np.array([1 - s["p"], s["p"]])
    if k == "constant":
        return np.array([s["mu"]], dtype=float), np.ones(1)
    if k == "finite":
        return np.array(s["points"], dtype=float), np.array(s["weights"])
    if k == "equi":
        n = len(s["points"])
        return np.array(s["points"], dtype=float), np.ones(n) / n
    if k == "discretized":
        d = build(s)
        return np.array([d.point(i) for i in range(d.n)]), np.array([d.weight(i) for i in range(d.n)])
    if k == "product":
        pts, w = np.zeros((1, 0)), np.ones(1)
        for p in s["parts"]:
            a = atoms(p)
            if a is None:
                return None
            pts = np.array([np.concatenate([x, y]) for x in pts for y in a[0]])
            w = np.kron(w, a[1])
        return pts, w
    if k == "mixture":
        wi = mix_weights(s)
        out = [atoms(p) for p in s["parts"]]
        if any(o is None for o in out):
            return None
        return np.concatenate([o[0] for o in out]), np.concatenate([w * o[1] for w, o in zip(wi, out)])
    return None


def mix_weights(s):
    a = atoms(s["index"])
    return [float(a[1][a[0][:, 0] == i].sum()) for i in range(len(s["parts"]))]


def cdf(s, i, x):
    """marginal distribution function of component i"""
    k = s["k"]
    if k == "unormal":
        return stats.norm.cdf(x, s["mu"] or 0.0, s["sigma"])
    if k == "uniform":
        return stats.uniform.cdf(x, s["a"], s["b"] - s["a"])
    if k == "normal":
        return stats.norm.cdf(x, s["mu"][i] if s["mu"] else 0.0, math.sqrt(s["Sigma"][i][i]))
    if k == "product":
        for p in s["parts"]:
            if i < dim(p):
                return cdf(p, i, x)
            i -= dim(p)
    if k == "mixture":
        return sum(w * cdf(p, i, x) for w, p in zip(mix_weights(s), s["parts"]))
    pts, w = atoms(s)
    return (w[None, :] * (pts[None, :, i] <= np.asarray(x)[:, None] + 1e-12)).sum(axis=1)


def moments(s):
    """mean and covariance"""
    k, d = s["k"], dim(s)
    if k == "unormal":
        return np.array([s["mu"] or 0.0]), np.array([[s["sigma"] ** 2]])
    if k == "uniform":
        return np.array([(s["a"] + s["b"]) / 2]), np.array([[(s["b"] - s["a"]) ** 2 / 12]])
    if k == "normal":
        return np.array(s["mu"] or [0.0] * d), np.array(s["Sigma"])
    if k == "product":
        m = [moments(p) for p in s["parts"]]
        C = np.zeros((d, d))
        o = 0
        for a, b in m:
            C[o:o + len(a), o:o + len(a)] = b
            o += len(a)
        return np.concatenate([a for a, _ in m]), C
    if k == "mixture":
        ms = [moments(p) for p in s["parts"]]
        w = mix_weights(s)
        mu = sum(x * a for x, (a, _) in zip(w, ms))
        return mu, sum(x * (b + np.outer(a - mu, a - mu)) for x, (a, b) in zip(w, ms))
    pts, w = atoms(s)
    mu = w @ pts
    return mu, (pts - mu).T @ (w[:, None] * (pts - mu))


def sample(s, r, n):
    """reference draws from an independent generator, to size the statistical bounds"""
    k, d = s["k"], dim(s)
    if k == "unormal":
        return r.normal(s["mu"] or 0.0, s["sigma"], (n, 1))
    if k == "uniform":
        return r.uniform(s["a"], s["b"], (n, 1))
    if k == "normal":
        return r.multivariate_normal(s["mu"] or [0.0] * d, s["Sigma"], n)
    if k == "product":
        return np.concatenate([sample(p, r, n) for p in s["parts"]], axis=1)
    if k == "mixture":
        i = r.choice(len(s["parts"]), size=n, p=mix_weights(s))
        xs = [sample(p, r, n) for p in s["parts"]]
        return np.stack(xs)[i, np.arange(n)]
    pts, w = atoms(s)
    return pts[r.choice(len(w), size=n, p=w / w.sum())]


def reach(s):
    """(lower, upper) ends of what a draw can be, per component (8.5 standard deviations for normals)"""
    k = s["k"]
    if k == "unormal":
        m = s["mu"] or 0.0
        return np.array([m - 8.5 * s["sigma"]]), np.array([m + 8.5 * s["sigma"]])
    if k == "uniform":
        return np.array([s["a"]]), np.array([s["b"]])
    if k == "normal":
        m, sd = np.array(s["mu"] or [0.0] * dim(s)), np.sqrt(np.diag(s["Sigma"]))
        return m - 8.5 * sd, m + 8.5 * sd
    if k == "product":
        r = [reach(p) for p in s["parts"]]
        return np.concatenate([a for a, _ in r]), np.concatenate([b for _, b in r])
    if k == "mixture":
        r = [reach(p) for p in s["parts"]]
        return np.min([a for a, _ in r], axis=0), np.max([b for _, b in r], axis=0)
    pts, _ = atoms(s)
    return pts.min(axis=0), pts.max(axis=0)


def gen_ar(rng):
    if rng.random() < 0.5:
        return {"k": "ar1", "rho": rng.choice([0.0, 0.5, 0.9, -0.4, 0.99]), "sigma": rng.choice([0.01, 1.0, 0.25]), "mu": rng.choice([None, 0.0, 0.5, -3.0])}
    d = rng.randint(1, 3)
    r = np.random.RandomState(rng.randrange(10 ** 6))
    A = r.normal(size=(d, d))
    S = (A @ A.T * 0.1 + 0.05 * np.eye(d)).round(3)
    rho = rng.choice(["s", "v", "m"])
    if rho == "s":
        R = rng.choice([0.0, 0.7, -0.3])
    elif rho == "v":
        R = [rng.choice([0.2, 0.9, -0.5]) for _ in range(d)]
    else:
        R = (r.uniform(-0.3, 0.3, (d, d)) + 0.4 * np.eye(d)).round(2).tolist()
    return {"k": "var1", "rho": R, "Sigma": S.tolist(), "mu": rng.choice([None, [round(rng.uniform(-2, 2), 2) for _ in range(d)]])}


def build_ar(s):
    from dolo.numeric import processes as P
    if s["k"] == "ar1":
        kw = {} if s["mu"] is None else {"μ": s["mu"]}
        return P.AR1(ρ=s["rho"], σ=s["sigma"], **kw)
    kw = {} if s["mu"] is None else {"μ": s["mu"]}
    return P.VAR1(ρ=s["rho"], Σ=s["Sigma"], **kw)


def yaml_ar(s):
    sig = f"sigma: {s['sigma']}" if s["k"] == "ar1" else f"Sigma: {s['Sigma']}"
    return f"!{s['k'].upper()}\n    rho: {s['rho']}\n    {sig}\n" + (f"    mu: {s['mu']}\n" if s["mu"] is not None else "")


def ar_pars(s):
    if s["k"] == "ar1":
        return np.array([[s["rho"]]]), np.array([[s["sigma"]]]), np.array([s["mu"] or 0.0])
    S = np.array(s["Sigma"])
    d = len(S)
    R = np.array(s["rho"], dtype=float)
    R = R * np.eye(d) if R.ndim == 0 else (np.diag(R) if R.ndim == 1 else R)
    return R, S, np.array(s["mu"] if s["mu"] is not None else [0.0] * d)


class C10(core.Check):
    ID = "C10"
    RULE = ("A run declares a distribution or an autoregressive process (constructed directly or read from its declaration in a model file), interferes "
            "with the generators, then draws a long history in one or many calls, or simulates paths. The recorded sample is judged on its support, "
            "marginal distribution functions, means, covariances, point probabilities, serial and cross-component dependence; with generator states "
            "crafted to extreme numbers only the support is judged. Every run is non-trivial.")
    REAL = ["dolo.numeric.distribution (draw, simulate), dolo.numeric.processes (AR1, VAR1, ConstantProcess, ProductProcess)", "dolang's reading of declarations", "numpy and scipy generators"]
    STUBS = ["state of the generators"]
    RUNS = {"quick": 5000, "thorough": 100000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct declarations and entry points"
    ASSUMPTIONS = ["The AR1 parameter σ is the variance of the shock, as the discretization of the same class and `response` take it.",
                   "Statistical judgements use bounds of 8 standard errors or a probability of 1e-13: smaller distortions stay unseen.",
                   "LogNormal, Beta and truncated distributions cannot be drawn from (not implemented) and are not covered."]

    def setup(self, tier):
        import dolo  # noqa
        from dolo.numeric import distribution  # noqa

    def fixed(self, tier):
        out = []
        base = [{"k": "unormal", "mu": 0.3, "sigma": 0.1}, {"k": "uniform", "a": -1.0, "b": 3.0}, {"k": "bernouilli", "p": 0.9},
                {"k": "finite", "points": [[1.0], [2.0], [3.0]], "weights": [0.2, 0.0, 0.8]}, {"k": "equi", "points": [[1.0, 0.0], [2.0, 5.0], [3.0, 1.0]], "weights": [1 / 3] * 3},
                {"k": "normal", "mu": [1.0, -1.0], "Sigma": [[1.0, 0.5], [0.5, 2.0]]}, {"k": "constant", "mu": [0.5]},
                {"k": "discretized", "of": {"k": "unormal", "mu": 0.5, "sigma": 0.2}}]
        base += [{"k": "mixture", "index": {"k": "bernouilli", "p": 0.85}, "parts": [base[0], base[1]], "keys": k} for k in ("str", "int", "str-reversed", "int-reversed")]
        base += [{"k": "mixture", "index": {"k": "bernouilli", "p": 0.2}, "parts": [{"k": "constant", "mu": [0.1, 0.2]}, {"k": "constant", "mu": [0.2, 0.3]}], "keys": "str"}]
        base += [{"k": "equi", "points": [[float(i)] for i in range(25)], "weights": [1 / 25] * 25}, {"k": "finite", "points": [[float(i), i * i / 10] for i in range(30)], "weights": [(i + 1) / 465 for i in range(30)]},
                 {"k": "bernouilli", "p": 0.004}, {"k": "unormal", "mu": None, "sigma": 0.0001}]
        base += [{"k": "product", "parts": [base[2], base[5], base[1]]}]
        for b in base:
            for entry in ("draw", "simulate", "simulate-fixed"):
                for yml in (False, True):
                    if not yml or yaml_of(b):
                        out.append({"spec": b, "entry": entry, "yaml": yml, "n": 20000, "split": [20000], "stream": [], "seed": 5, "prior": 0, "m0": None})
            out.append({"spec": b, "entry": "draw", "yaml": False, "n": 3000, "split": [1], "stream": [], "seed": 6, "prior": 3, "m0": None})
            out.append({"spec": b, "entry": "draw", "yaml": False, "n": 300, "split": [300], "stream": [0.0, 1 - 2.0 ** -53], "seed": 6, "prior": 3, "m0": None})
        for a in ({"k": "ar1", "rho": 0.9, "sigma": 0.25, "mu": 0.5}, {"k": "ar1", "rho": 0.5, "sigma": 0.01, "mu": None}, {"k": "var1", "rho": [[0.5, 0.2], [0.0, 0.4]], "Sigma": [[1.0, 0.3], [0.3, 0.5]], "mu": [1.0, 2.0]}):
            for m0 in (None, [2.0, -1.0]):
                for st in (True, False):
                    for yml in (False, True):
                        out.append({"spec": a, "entry": "ar", "yaml": yml, "N": 10, "T": 1000, "stochastic": st, "m0": m0, "stream": [], "seed": 7, "prior": 0})
        return out

    def generate(self, rng, tier):
        seed = rng.randrange(2 ** 31)
        stream = [] if rng.random() < 0.85 else [rng.choice(simrng.EXTREMES) for _ in range(rng.randint(1, 300))]
        r = rng.random()
        if r < 0.3:
            return {"spec": gen_ar(rng), "entry": "ar", "yaml": rng.random() < 0.4, "N": rng.choice([1, 2, 10, 100]), "T": rng.choice([1, 2, 10, 300, 2000]), "stochastic": rng.random() < 0.8,
                    "m0": rng.choice([None, None, [1.5, -0.5, 0.25], [0.0, 0.0, 0.0]]), "stream": [], "seed": seed, "prior": rng.randint(0, 4)}
        if r < 0.4:
            parts = []
            for _ in range(rng.randint(1, 3)):
                parts.append(rng.choice([gen_ar(rng), gen_ar(rng), gen_dist(rng, 2), {"k": "mc"}]))
            return {"spec": {"k": "pproduct", "parts": parts}, "entry": "pproduct", "N": rng.choice([1, 3, 50]), "T": rng.choice([2, 20, 1500]), "stochastic": rng.random() < 0.85, "seed": seed,
                    "prior": rng.randint(0, 4), "stream": [], "m0": None}
        spec = gen_dist(rng)
        n = rng.choice([1, 2, 100, 3000, 20000])
        split = [n] if rng.random() < 0.6 or n > 5000 else [rng.choice([1, 2, 3, 50]) for _ in range(rng.randint(1, 4))]
        return {"spec": spec, "entry": rng.choice(["draw", "draw", "simulate", "simulate-fixed"]), "yaml": rng.random() < 0.4, "n": n, "split": split, "stream": stream,
                "seed": seed, "prior": rng.randint(0, 4), "m0": rng.choice([None, None, [0.5, 1.5, -1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 0.0]])}

    def shrink(self, sc):
        s = sc["spec"]
        if s["k"] in ("product", "mixture"):
            for p in s["parts"]:
                yield dict(sc, spec=p)
        if s["k"] in ("product", "pproduct") and len(s["parts"]) > 1:
            for i in range(len(s["parts"])):
                yield dict(sc, spec=dict(s, parts=s["parts"][:i] + s["parts"][i + 1:]))
        for k, v in (("yaml", False), ("prior", 0), ("split", [sc.get("n")])):
            if k in sc and sc[k] != v:
                yield dict(sc, **{k: v})

    def make(self, sc, direct, text):
        if sc.get("yaml") and text:
            import yaml
            from dolang.language import eval_data
            return eval_data(yaml.compose(text), {})
        return direct(sc["spec"])

    def run(self, sc, ctx):
        import random
        what = f"{sc['entry']} of {sc['spec']}{' declared in a file' if sc.get('yaml') else ''}"
        simrng.set_all(sc["seed"] ^ 0x1234)
        simrng.scramble(random.Random(sc["seed"]), sc["prior"])
        simrng.set_all(sc["seed"], sc["stream"])
        ctx.nontrivial = True
        if sc["stream"]:
            ctx.fault("crafted-number", len(sc["stream"]))
        ctx.state((repr(sc["spec"]), sc["entry"], sc.get("yaml")))
        try:
            if sc["entry"] == "ar":
                x, p = self._ar(sc)
            elif sc["entry"] == "pproduct":
                return self._pproduct(sc, ctx, what)
            else:
                x, p = self._dist(sc, ctx, what)
        except core.Violation:
            raise
        except Exception as e:
            raise core.Violation("raises", f"{what}: raised {e!r}")
        ctx.ev(x.shape, repr(float(np.sum(x))))
        if sc["entry"] == "ar":
            self.judge_ar(sc["spec"], x, sc, what, ctx)
        elif sc["entry"] == "simulate-fixed":
            pass
        else:
            self.judge(sc["spec"], x, bool(sc["stream"]), what, ctx)

    # ---- distributions
    def _dist(self, sc, ctx, what):
        s = sc["spec"]
        if sc["entry"] == "simulate-fixed":  # integer keys are only supported by draws
            s = core.json.loads(core.json.dumps(s).replace('"keys": "int', '"keys": "str'))
            sc = dict(sc, spec=s)
        p = self.make(sc, build, yaml_of(s))
        d = dim(s)
        n = sc["n"]
        if sc["entry"] == "draw":
            out, i, tot = [], 0, 0
            while tot < n:
                k = sc["split"][i % len(sc["split"])]
                x = np.array(p.draw(k))
                if x.shape != (k, d):
                    raise core.Violation("shape", f"{what}: {k} draws of dimension {d} have shape {x.shape}")
                out.append(x)
                tot += k
                i += 1
            ctx.steps += i
            return np.concatenate(out), p
        T = max(2, min(n, 50))
        N = max(1, n // T)
        m0 = np.array(sc["m0"][:d]) if sc["m0"] else None
        ctx.steps += 1
        if sc["entry"] == "simulate":
            x = np.array(p.simulate(N, T, m0=m0))
            if x.shape != (T, N, d):
                raise core.Violation("shape", f"{what}: {N} paths of {T} dates have shape {x.shape}")
            if m0 is not None:
                if not (x[0] == m0).all():
                    raise core.Violation("wrong-start", f"{what}: starts at {x[0, 0]} instead of {m0}")
                x = x[1:]
            return x.reshape(-1, d), p
        x = np.array(p.simulate(N, T, m0=m0, stochastic=False))
        simrng.set_all(sc["seed"] + 1)
        y = np.array(p.simulate(N, T, m0=m0, stochastic=False))
        if x.shape != (T, N, d):
            raise core.Violation("shape", f"{what}: {N} paths of {T} dates have shape {x.shape}")
        if not np.array_equal(x, y):
            raise core.Violation("still-random", f"{what}: with stochastic=False the shocks depend on the generator")
        if m0 is not None:
            if not (x[0] == m0).all():
                raise core.Violation("wrong-start", f"{what}: starts at {x[0, 0]} instead of {m0}")
        z = x[1:] if m0 is not None else x
        if z.size and not (z == z[0, 0]).all():
            raise core.Violation("not-deterministic", f"{what}: with stochastic=False the shocks vary")
        mu = moments(s)[0]
        if z.size and abs(z[0, 0] - mu).max() > 1e-8 * (1 + abs(mu).max()):
            raise core.Violation("wrong-mean", f"{what}: with stochastic=False the shocks are {z[0, 0]}, mean {mu}")
        return x, p

    def judge(self, s, x, crafted, what, ctx):
        n, d = x.shape
        if not np.isfinite(x).all():
            raise core.Violation("not-finite", f"{what}: draws are not finite")
        a = atoms(s)
        if a is not None:
            pts, w = a
            hit = np.stack([(abs(x - q) < 1e-9).all(axis=1) for q in pts], axis=1)
            if not hit.any(axis=1).all():
                raise core.Violation("outside-support", f"{what}: drew {x[~hit.any(axis=1)][0]}, which is none of the points")
            seen = set()
            for j, q in enumerate(pts):
                key = tuple(np.round(q, 9))
                if key in seen:
                    continue
                seen.add(key)
                pj = w[(abs(pts - q) < 1e-9).all(axis=1)].sum()
                c = hit[:, j].sum()
                if pj <= 0 and c:
                    raise core.Violation("impossible-draw", f"{what}: drew {q}, a point of probability zero")
                if not crafted and abs(c - n * pj) > Z * math.sqrt(n * pj * (1 - min(pj, 1))) + 12:
                    raise core.Violation("wrong-frequency", f"{what}: {c} of {n} draws are {q}, probability {pj}")
        if s["k"] == "uniform" and (x.min() < s["a"] or x.max() > s["b"]):
            raise core.Violation("outside-support", f"{what}: drew {x.min()} / {x.max()} outside the interval")
        if crafted or n < 50:
            return
        mu, C = moments(s)
        for i in range(d):
            xs = np.sort(x[:, i])
            F = cdf(s, i, xs)
            emp = np.searchsorted(xs, xs, side="right") / n
            dev = abs(F - emp)
            if dev.max() > dkw(n) + 1e-9:
                raise core.Violation("wrong-law", f"{what}: component {i} of {n} draws: distribution function off by {dev.max():.3f} at {xs[dev.argmax()]:.4g}")
            ctx.probe("law-tests")
        lo, hi = reach(s)
        ref = sample(s, np.random.RandomState(12345), 40000) - mu
        self.second_moments(x - mu, C, what, ctx, "draws", ref, np.maximum(hi - mu, mu - lo))

    def second_moments(self, e, C, what, ctx, name, ref=None, far=None):
        """e: deviations from the mean; ref: reference deviations (default: normal); far: largest possible deviations"""
        n, d = e.shape
        sd = np.sqrt(np.diag(C))
        if far is None:
            far = 8.5 * sd
        for i in range(d):
            if sd[i] == 0:
                continue
            if abs(e[:, i].mean()) > bern(sd[i], far[i], n):
                raise core.Violation("wrong-mean", f"{what}: mean of {name} {i} is off by {e[:, i].mean():.4g} (standard deviation {sd[i]:.4g}, {n} draws)")
            for j in range(i + 1):
                if sd[j] == 0:
                    continue
                p = e[:, i] * e[:, j]
                s2 = math.sqrt(C[i, i] * C[j, j] + C[i, j] ** 2) if ref is None else 1.1 * (ref[:, i] * ref[:, j]).std()
                if abs(p.mean() - C[i, j]) > bern(s2, far[i] * far[j], n):
                    raise core.Violation("wrong-covariance", f"{what}: covariance of {name} {i},{j} is {p.mean():.5g} instead of {C[i, j]:.5g} ({n} draws)")
                ctx.probe("moment-tests")
            for lag in (1, 2):
                if n > 100:
                    p = e[lag:, i] * e[:-lag, i]
                    if abs(p.mean()) > bern(sd[i] ** 2, far[i] ** 2, n - lag):
                        raise core.Violation("not-independent", f"{what}: {name} {i} are correlated with those {lag} before ({p.mean() / sd[i] ** 2:.3f})")
                    ctx.probe("independence-tests")

    # ---- autoregressive
    def _ar(self, sc):
        s = sc["spec"]
        p = self.make(sc, build_ar, yaml_ar(s))
        d = len(ar_pars(s)[2])
        kw = {"m0": np.array(sc["m0"][:d])} if sc["m0"] else {}
        return np.array(p.simulate(sc["N"], sc["T"], stochastic=sc["stochastic"], **kw)), p

    def judge_ar(self, s, x, sc, what, ctx):
        R, S, mu = ar_pars(s)
        d = len(mu)
        N, T = sc["N"], sc["T"]
        if x.shape != (T, N, d):
            raise core.Violation("shape", f"{what}: {N} paths of {T} dates have shape {x.shape}")
        start = np.array(sc["m0"][:d]) if sc["m0"] else mu
        scale = 1 + abs(start).max() + abs(mu).max()
        if abs(x[0] - start).max() > 1e-12 * scale:
            raise core.Violation("wrong-start", f"{what}: starts at {x[0, 0]} instead of {start}")
        z = x - mu
        e = z[1:] - z[:-1] @ R.T
        if not sc["stochastic"]:
            if e.size and abs(e).max() > 1e-10 * scale:
                raise core.Violation("not-deterministic", f"{what}: leaves the deterministic path by {abs(e).max():.3g}")
            return
        n = (T - 1) * N
        if n < 50:
            return
        ee = e.reshape(n, d)
        for i in range(d):
            xs = np.sort(ee[:, i])
            F = stats.norm.cdf(xs, 0, math.sqrt(S[i, i]))
            if abs(F - np.arange(1, n + 1) / n).max() > dkw(n) + 1 / n:
                raise core.Violation("wrong-law", f"{what}: the shocks of component {i} do not follow the declared law (deviation {abs(F - np.arange(1, n + 1) / n).max():.3f})")
        self.second_moments(ee, S, what, ctx, "shocks")
        if T > 100:  # independent across dates
            for i in range(d):
                p = (e[1:, :, i] * e[:-1, :, i]).ravel()
                if abs(p.mean()) > bern(S[i, i], 72 * S[i, i], len(p)):
                    raise core.Violation("not-independent", f"{what}: successive shocks are correlated ({p.mean() / S[i, i]:.3f})")
                if N > 1:
                    p = (e[:, 1:, i] * e[:, :-1, i]).ravel()
                    if abs(p.mean()) > bern(S[i, i], 72 * S[i, i], len(p)):
                        raise core.Violation("not-independent", f"{what}: shocks of different paths are correlated ({p.mean() / S[i, i]:.3f})")

    # ---- products of processes
    def _pproduct(self, sc, ctx, what):
        from dolo.numeric import processes as P
        V = np.array([[0.0], [1.0], [4.0]])
        Q = np.array([[0.5, 0.5, 0.0], [0.1, 0.6, 0.3], [0.0, 0.2, 0.8]])
        parts = sc["spec"]["parts"]
        N, T = sc["N"], sc["T"]
        try:
            p = P.ProductProcess(*[P.MarkovChain(Q, V) if s["k"] == "mc" else (build_ar(s) if s["k"] in ("ar1", "var1") else build(s)) for s in parts])
            x = np.array(p.simulate(N, T, stochastic=sc["stochastic"]))
        except Exception as e:
            raise core.Violation("raises", f"{what}: raised {e!r}")
        ds = [1 if s["k"] == "mc" else (len(ar_pars(s)[2]) if s["k"] in ("ar1", "var1") else dim(s)) for s in parts]
        if x.shape != (T, N, sum(ds)):
            raise core.Violation("shape", f"{what}: {N} paths of {T} dates have shape {x.shape}")
        ctx.ev(x.shape, repr(float(np.sum(x))))
        o = 0
        inn, fars = [], []
        for s, d in zip(parts, ds):
            y = x[:, :, o:o + d]
            o += d
            if s["k"] == "mc":
                i = (y[:, :, 0:1] == V[None, None, :, 0]).argmax(axis=2)
                if not (V[i][:, :, 0] == y[:, :, 0]).all() or (T > 1 and sc["stochastic"] and (Q[i[:-1], i[1:]] <= 0).any()):
                    raise core.Violation("wrong-component", f"{what}: the chain's component is not a path of the chain")
                e = (i[1:] - (Q @ np.arange(3))[i[:-1]])[:, :, None]
                fars.append([3.0])
            elif s["k"] in ("ar1", "var1"):
                self.judge_ar(s, y, dict(sc, m0=None), what, ctx)
                R, S, mu = ar_pars(s)
                e = (y[1:] - mu) - (y[:-1] - mu) @ R.T
                fars.append(8.5 * np.sqrt(np.diag(S)))
            else:
                if sc["stochastic"]:
                    self.judge(s, y.reshape(-1, d), False, what, ctx)
                mu = moments(s)[0]
                e = y[1:] - mu
                fars.append(np.maximum(reach(s)[1] - mu, mu - reach(s)[0]))
            inn.append(e)
        if sc["stochastic"] and N * (T - 1) > 1000:
            for a in range(len(inn)):
                for b in range(a):
                    for i in range(ds[a]):
                        for j in range(ds[b]):
                            u, v = inn[a][:, :, i].ravel(), inn[b][:, :, j].ravel()
                            se = max((u ** 2).mean(), 0.001 * fars[a][i] ** 2) * max((v ** 2).mean(), 0.001 * fars[b][j] ** 2)
                            if abs((u * v).mean()) > bern(math.sqrt(se), fars[a][i] * fars[b][j], len(u)):
                                raise core.Violation("components-dependent", f"{what}: components of the product are correlated")


CHECK = C10()
