"""Operations of the library over a bench of shared objects, for the checks on histories, interruptions, threads and consoles.

An operation is a function (bench, verbose) -> value; the objects it uses are built on first use, always from the same texts, so that
the same operation on a fresh bench is its reference."""
import numpy as np

from . import canon, models, rng

_CONST = models.text("normal", name="constb").replace("⟂ 0.01 <= i[t] <= 0.9*(exp(z[t])*k[t]^alpha)", "⟂ 0.01 <= i[t] <= 0.5")


def _wide(block):
    from . import world
    return world.WIDE % block


def _text(name):
    from . import world
    if name == "wide-mc":
        return _wide(world.WIDE_MC)
    if name == "wide-normal":
        return _wide("!Normal\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n")
    if name == "wide-stable":  # all roots of its states are below one
        return _text("wide-normal").replace("psi: 0.1", "psi: 0.05")
    if name == "constb":
        return _CONST
    if name == "egm":
        return models.example("consumption_savings_iid").replace("orders: [100]", "orders: [12]")
    if name == "det":  # perfect foresight: bounds that bind on the path
        return _CONST.replace("i[t] <= 0.5", "i[t] <= 0.2")
    return models.text(name)


MODELS = ["mc3", "ar1m", "normal", "var1", "wide-mc", "wide-normal", "constb", "det", "egm", "mvnormal", "product"]


class Recorder:
    """a user's hook"""

    def __init__(self):
        self.calls = 0

    def __call__(self, *a, **kw):
        self.calls += 1


class Bench:
    def __init__(self):
        self.objs = {}

    def get(self, name):
        if name not in self.objs:
            self.objs[name] = self.make(name)
        return self.objs[name]

    __getitem__ = get

    def make(self, name):
        import dolo.numeric.distribution as D
        import dolo.numeric.processes as P
        from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule
        from . import world
        if name.startswith("model:"):
            return models.load_text(_text(name[6:]))
        if name.startswith(("dr:", "dr-linear:")):
            kind, mod = name.split(":")
            return world.affine_dr(self["model:" + mod], "linear" if kind == "dr-linear" else "cubic")[0]
        if name.startswith("vdr:"):
            grid, dp = self["model:" + name[4:]].discretize()
            dr = DecisionRule(grid["exo"], grid["endo"], dprocess=dp)
            dr.set_values(-9.0 + 0.1 * np.arange(dp.n_nodes)[:, None, None] + 0.3 * grid["endo"].nodes[None, :, :1])
            return dr
        if name.startswith("result:"):
            from dolo.algos.time_iteration import time_iteration
            return time_iteration(self["model:" + name[7:]], maxit=4, verbose=False)
        if name.startswith("pdr:"):
            from dolo.algos.perturbation import perturb
            return perturb(self["model:" + name[4:]], verbose=False)
        if name.startswith("fdr:"):
            m = self["model:" + name[4:]]
            return world.FunctionDR(len(m.symbols["exogenous"]), len(m.symbols["controls"]))
        if name.startswith("cdr:"):
            return ConstantDecisionRule(np.array(self["model:" + name[4:]].calibration["controls"]))
        if name.startswith("dp:"):
            return self["model:" + name[3:]].exogenous.discretize()
        if name.startswith("calib:"):
            from dolo.compiler.misc import CalibrationDict
            c = self["model:" + name[6:]].calibration
            return CalibrationDict(self["model:" + name[6:]].symbols, {k: np.array(v) * 1.01 for k, v in c.grouped.items()})
        if name.startswith("bounds:"):
            return [0.5, 1.5]
        r = np.random.RandomState(3)
        made = {
            "a_grid": lambda: np.linspace(0.0, 4.0, 15) ** 1.5,
            "shock-array": lambda: np.array([[0.02], [0.01], [0.0], [-0.01], [0.0]]),
            "shock-dict": lambda: {"z": [0.0, 0.03, 0.01]},
            "shock-list": lambda: [0.0, 0.02, 0.01],
            "shock-frame": lambda: __import__("pandas").DataFrame({"z": [0.0, 0.02, 0.01, 0.0]}),
            "path3": lambda: 0.02 * r.standard_normal((6, 2, 1)),
            "indices": lambda: r.randint(0, 3, (7, 3)),
            "s0": lambda: np.array([1.1]),
            "s02": lambda: np.array([1.1, 0.3]),
            "s1d": lambda: np.array([0.9]),
            "m0": lambda: np.array([0.01]),
            "spts": lambda: np.linspace(0.4, 3.0, 5)[:, None],
            "spts2": lambda: np.stack([np.linspace(0.4, 3.0, 5), np.linspace(-0.6, 1.0, 5)], axis=1),
            "mpts": lambda: np.linspace(-0.05, 0.05, 5)[:, None],
            "mpts2": lambda: np.stack([np.linspace(-0.05, 0.05, 5), np.linspace(0.02, -0.04, 5)], axis=1),
            "guess": lambda: np.concatenate([np.linspace(1.0, 0.9, 12)[:, None], np.full((12, 1), 0.11)], axis=1),
            "cov": lambda: np.array([[0.04, 0.01], [0.01, 0.09]]),
            "mean2": lambda: np.array([0.1, -0.2]),
            "corr": lambda: np.array([[0.04, 0.01], [0.01, 0.03]]),
            "x0": lambda: np.array([[0.3, 0.6], [1.1, 0.2], [0.7, 0.9]]),
            "lb": lambda: np.zeros((3, 2)),
            "ub": lambda: np.full((3, 2), 0.8),
            "ts": lambda: np.cumsum(r.standard_normal(40)) * 0.1 + 1,
            "ts2": lambda: np.cumsum(r.standard_normal((40, 2)), axis=0) * 0.1 + 1,
            "frame": lambda: __import__("pandas").DataFrame({"k": 1 + 0.1 * np.arange(6), "i": 0.1 + 0.01 * np.arange(6), "z": np.zeros(6)}),
            "context": lambda: {"delta": 0.1},
            "matA": lambda: r.standard_normal((4, 3, 3)) + 3 * np.eye(3),
            "matB": lambda: r.standard_normal((4, 3)),
            "matC": lambda: r.standard_normal((4, 3, 2)),
            "P2": lambda: np.array([[0.9, 0.1], [0.4, 0.6]]),
            "Q2": lambda: np.array([[-1.0], [2.0]]),
            "sylv": lambda: [r.standard_normal((3, 3)) for _ in range(4)],
            "normal2": lambda: D.Normal(Σ=np.array([[0.04, 0.01], [0.01, 0.09]]), Μ=np.array([0.1, -0.2])),
            "unormal": lambda: D.UNormal(σ=0.2, μ=0.3),
            "uniform": lambda: D.Uniform(a=-1.0, b=2.0),
            "finite": lambda: D.FiniteDistribution(np.array([[0.1], [0.2], [0.7]]), np.array([0.2, 0.3, 0.5])),
            "equi": lambda: D.EquiprobableDistribution(np.array([[0.1], [0.4]])),
            "bern": lambda: D.Bernouilli(π=0.3),
            "mixture": lambda: D.Mixture(index=D.Bernouilli(π=0.3), distributions={"0": D.UNormal(σ=0.1, μ=0.0), "1": D.UNormal(σ=0.2, μ=1.0)}),
            "ar1": lambda: P.AR1(ρ=0.7, σ=0.1, μ=0.2),
            "var1": lambda: P.VAR1(ρ=np.array([[0.7, 0.0], [0.0, 0.5]]), Σ=np.array([[0.04, 0.0], [0.0, 0.01]]), μ=np.array([0.1, 0.2])),
            "varsame": lambda: P.VAR1(ρ=0.7, Σ=np.array([[0.04, 0.01], [0.01, 0.02]])),
            "mc": lambda: P.MarkovChain(np.array([[0.8, 0.2, 0.0], [0.3, 0.4, 0.3], [0.0, 0.1, 0.9]]), np.array([[-0.1], [0.0], [0.2]])),
            "mc2": lambda: P.MarkovChain(np.array([[0.9, 0.1], [0.4, 0.6]]), np.array([[1.0], [2.0]])),
            "const": lambda: P.ConstantProcess(μ=np.array([0.3])),
            "product": lambda: P.ProductProcess(P.AR1(ρ=0.7, σ=0.1), D.UNormal(σ=0.2)),
            "product-mc": lambda: P.ProductProcess(self["mc"], self["mc2"]),
            "iids": lambda: [self["finite"], self["equi"].discretize() if False else D.FiniteDistribution(np.array([[1.0], [2.0]]), np.array([0.5, 0.5]))],
        }
        return made[name]()

    def snapshot(self):
        return {k: canon.canon(v) for k, v in self.objs.items()}

    def snapshot_diff(self, before):
        """(object, first difference) of an object present in both"""
        for k, v in before.items():
            d = canon.diff(v, canon.canon(self.objs[k]))
            if d:
                return k, d
        return None


OPS = {}


class Op:
    def __init__(self, name, fn, rtol=0.0, hook=False, verbose=False, slow=False, clean=True):
        self.name, self.fn, self.rtol, self.hook, self.verbose, self.slow, self.clean = name, fn, rtol, hook, verbose, slow, clean
        self.family = name.split("/")[0]


def op(name, **kw):
    def deco(fn):
        OPS[name] = Op(name, fn, **kw)
        return fn
    return deco


def _strip(res):
    """a result without fields that measure time"""
    return res


def _ti(mod, dr0=None, **kw):
    def run(B, verbose=False, hook=None):
        from dolo.algos.time_iteration import time_iteration
        a = dict(kw)
        if dr0:
            a["dr0"] = B[dr0]
        if a.get("dprocess"):
            a["dprocess"] = B[a["dprocess"]]
        return time_iteration(B["model:" + mod], verbose=verbose, hook=hook, **a)
    return run


def _iti(mod, dr0=None, **kw):
    def run(B, verbose=False):
        from dolo.algos.improved_time_iteration import improved_time_iteration
        a = dict(kw)
        if dr0:
            a["dr0"] = B[dr0]
        if a.get("dprocess"):
            a["dprocess"] = B[a["dprocess"]]
        res = improved_time_iteration(B["model:" + mod], verbose=verbose, **a)
        if hasattr(res, "L"):
            L, res = res.L, dict((k, v) for k, v in vars(res).items() if k != "L")
            res["M_ij"], res["S_ij"] = np.array(L.M_ij), np.array(L.S_ij)
        return res
    return run


def _fill():
    reg = lambda name, fn, **kw: OPS.__setitem__(name, Op(name, fn, **kw))

    # time iteration
    for mod, variants in {
        "mc3": [{}, {"maxit": 3}, {"interp_method": "linear"}, {"ignore_constraints": True}, {"trace": True, "maxit": 4}, {"dr0": "dr:mc3"}, {"dr0": "result:mc3", "maxit": 5},
                {"dr0": "dr-linear:mc3", "details": False, "maxit": 6}, {"dprocess": "dp:mc3", "maxit": 3}, {"dr0": "cdr:mc3", "maxit": 2}],
        "ar1m": [{"maxit": 4}, {"dr0": "dr:ar1m", "maxit": 3}, {"dr0": "pdr:normal", "maxit": 2}],
        "normal": [{}, {"dr0": "pdr:normal"}, {"maxit": 5, "trace": True}, {"dr0": "result:normal", "maxit": 3}],
        "wide-mc": [{"maxit": 3}, {"dr0": "dr:wide-mc", "maxit": 2}, {"interp_method": "linear", "maxit": 2}],
        "var1": [{"maxit": 2}],
        "egm": [{"maxit": 6}, {"dr0": "result:egm", "maxit": 2}],
    }.items():
        for i, v in enumerate(variants):
            reg(f"{mod}/time_iteration-{i}", _ti(mod, **v), hook=True, verbose=True)
    # improved time iteration
    for mod, variants in {
        "mc3": [{}, {"maxit": 2}, {"dr0": "dr:mc3"}, {"interp_method": "linear"}, {"details": False}, {"dr0": "dr-linear:mc3", "maxit": 1}, {"ignore_constraints": True, "maxit": 4}, {"dprocess": "dp:mc3", "maxit": 2}],
        "ar1m": [{"maxit": 3}, {"dr0": "dr:ar1m"}],
        "wide-mc": [{"maxit": 2}],
    }.items():
        for i, v in enumerate(variants):
            reg(f"{mod}/improved-{i}", _iti(mod, **v), verbose=True)
    reg("mc3/improved-radius", _iti("mc3", maxit=2, compute_radius=True), rtol=1e-6, verbose=True)

    def sim(mod, dr, **kw):
        def run(B, verbose=False):
            from dolo.algos.simulations import simulate
            a = {k: (B[v] if isinstance(v, str) else v) for k, v in kw.items()}
            return simulate(B["model:" + mod], B[dr], **a)
        return run

    for i, (mod, dr, kw) in enumerate([
        ("mc3", "dr:mc3", dict(N=2, T=8)), ("mc3", "dr:mc3", dict(N=3, T=5, i0=2, seed=7, s0="s0")), ("mc3", "dr:mc3", dict(driving_process="indices", N=3, T=7)),
        ("mc3", "result:mc3", dict(N=2, T=6, seed=1)), ("mc3", "dr:mc3", dict(T=4, stochastic=False)), ("mc3", "dr-linear:mc3", dict(N=2, T=5, process="dp:mc3")),
        ("ar1m", "fdr:ar1m", dict(N=2, T=6)), ("ar1m", "fdr:ar1m", dict(N=2, T=6, m0="m0", s0="s0")), ("ar1m", "dr:ar1m", dict(N=2, T=6, seed=3)), ("ar1m", "fdr:ar1m", dict(N=2, T=6, driving_process="path3")),
        ("normal", "pdr:normal", dict(N=3, T=5)), ("normal", "fdr:normal", dict(N=2, T=4, m0="m0")), ("normal", "fdr:normal", dict(N=2, T=6, driving_process="path3")),
        ("var1", "fdr:var1", dict(N=2, T=5)), ("wide-mc", "dr:wide-mc", dict(N=2, T=6, s0="s02")), ("mvnormal", "pdr:mvnormal", dict(N=2, T=4)),
    ]):
        reg(f"{mod}/simulate-{i}", sim(mod, dr, **kw))

    def tab(mod, dr, state="k", **kw):
        def run(B, verbose=False):
            from dolo.algos.simulations import tabulate
            a = {k: (B[v] if isinstance(v, str) else v) for k, v in kw.items()}
            return tabulate(B["model:" + mod], B[dr], state, **a)
        return run

    for i, (mod, dr, kw) in enumerate([
        ("mc3", "dr:mc3", {}), ("mc3", "result:mc3", dict(i0=0, n_steps=7)), ("mc3", "dr:mc3", dict(bounds="bounds:", n_steps=5, s0="s0")), ("wide-mc", "dr:wide-mc", dict(n_steps=6, s0="s02", i0=2)),
        ("wide-mc", "dr:wide-mc", dict(n_steps=6, state="a")), ("normal", "result:normal", dict(n_steps=9)), ("normal", "pdr:normal", dict(n_steps=5, m0="m0", bounds="bounds:")), ("ar1m", "dr:ar1m", dict(n_steps=5, i0=1, s0="s0")),
    ]):
        reg(f"{mod}/tabulate-{i}", tab(mod, dr, **kw))

    def pert(mod, **kw):
        def run(B, verbose=False):
            from dolo.algos.perturbation import perturb
            a = {k: (B[v] if isinstance(v, str) else v) for k, v in kw.items()}
            return perturb(B["model:" + mod], verbose=verbose, **a)
        return run

    for i, (mod, kw) in enumerate([("normal", {}), ("normal", dict(steady_state="calib:normal", details=False)), ("mvnormal", {}), ("constb", {}), ("wide-stable", {})]):
        reg(f"{mod}/perturb-{i}", pert(mod, **kw), verbose=True)

    def det(mod, **kw):
        def run(B, verbose=False):
            from dolo.algos.perfect_foresight import deterministic_solve
            a = {k: (B[v] if isinstance(v, str) and k != "solver" else v) for k, v in kw.items()}
            return deterministic_solve(B["model:" + mod], verbose=verbose, T=10, **a)
        return run

    for i, (mod, kw) in enumerate([
        ("normal", dict(ignore_constraints=True, s0="s0")), ("normal", dict(ignore_constraints=True, exogenous="shock-array")), ("normal", dict(ignore_constraints=True, exogenous="shock-dict", keep_steady_state=True)),
        ("det", dict(s0="s0")), ("det", dict(exogenous="shock-list")), ("det", dict(exogenous="shock-dict")), ("det", dict(s0="s0", m0="m0")), ("constb", dict(exogenous="shock-frame")), ("det", dict(s0="s1d", solver="lmmcp")),
        ("det", dict(s0="s0", initial_guess="guess")), ("ar1m", dict(ignore_constraints=True, exogenous="shock-array")),
    ]):
        reg(f"{mod}/deterministic-{i}", det(mod, **kw), verbose=True)

    def steady(mod, m=None):
        def run(B, verbose=False):
            from dolo.algos.steady_state import find_steady_state
            return find_steady_state(B["model:" + mod], m=B[m] if m else None)
        return run
    for mod in ("mc3", "normal", "wide-mc", "ar1m"):
        reg(f"{mod}/steady", steady(mod))
    reg("normal/steady-m", steady("normal", "m0"))

    def resid(mod, calib=False):
        def run(B, verbose=False):
            from dolo.algos.steady_state import residuals
            return residuals(B["model:" + mod], B["calib:" + mod] if calib else None)
        return run
    for mod in ("mc3", "normal", "wide-mc", "product"):
        reg(f"{mod}/residuals", resid(mod))
        reg(f"{mod}/residuals-calib", resid(mod, True))

    def erg(mod, dr, **kw):
        def run(B, verbose=False):
            from dolo.algos.ergodic import ergodic_distribution
            d = B[dr]
            return ergodic_distribution(B["model:" + mod], getattr(d, "dr", d))
        return run
    reg("mc3/ergodic", erg("mc3", "dr:mc3"))
    reg("mc3/ergodic-linear", erg("mc3", "dr-linear:mc3"))
    reg("wide-mc/ergodic", erg("wide-mc", "dr:wide-mc"))
    reg("normal/ergodic", erg("normal", "result:normal"))

    def evalp(**kw):
        def run(B, verbose=False):
            from dolo.algos.value_iteration import evaluate_policy
            a = {k: (B[v] if isinstance(v, str) and k in ("dr0",) else v) for k, v in kw.items()}
            ev = evaluate_policy(B["model:mc3"], B["dr:mc3"], verbose=verbose, **a)
            return ev
        return run
    for i, kw in enumerate([dict(maxit=4), dict(maxit=3, details=True), dict(details=True), dict(dr0="vdr:mc3", maxit=3), dict(dr0="vdr:mc3", details=True, tol=1e-3)]):
        reg(f"mc3/evaluate_policy-{i}", evalp(**kw), verbose=True)

    def egm_(**kw):
        def run(B, verbose=False):
            from dolo.algos.egm import egm
            m = B["model:egm"]
            a = dict(kw)
            if "dr0" in a:
                a["dr0"] = B[a["dr0"]]
                a["dr0"] = getattr(a["dr0"], "dr", a["dr0"])
            return egm(m, a_grid=B["a_grid"], verbose=verbose, **a)
        return run
    reg("egm/egm-0", egm_(maxit=12), verbose=True)
    reg("egm/egm-1", egm_(maxit=6, dr0="result:egm"), verbose=True)

    def disc(mod, **kw):
        def run(B, verbose=False):
            grid, dp = B["model:" + mod].discretize(**kw)
            return [grid["exo"], grid["endo"], grid["exo"].nodes, grid["endo"].nodes, dp]
        return run
    for i, (mod, kw) in enumerate([("mc3", {}), ("ar1m", {}), ("ar1m", dict(dprocess_options={"N": 5})), ("normal", {}), ("var1", {}),
                                   ("wide-mc", dict(grid_options={"orders": [3, 4]}) if False else {}), ("mvnormal", {}), ("product", {})]):
        reg(f"{mod}/discretize-{i}", disc(mod, **kw))

    def dr_eval(dr, how, arg, i=None):
        def run(B, verbose=False):
            d = B[dr]
            d = getattr(d, "dr", d)
            pts = [B[a] for a in arg]
            if how == "call":
                return [d(*([i] if i is not None else []), *pts)]
            return getattr(d, how)(*([i] if i is not None else []), *pts)
        return run
    for i, (fam, dr, how, arg, ii) in enumerate([
        ("mc3", "dr:mc3", "eval_is", ["spts"], 1), ("mc3", "dr-linear:mc3", "eval_is", ["spts"], 2), ("mc3", "dr:mc3", "call", ["spts"], 0), ("mc3", "dr:mc3", "call", ["s1d"], 0), ("ar1m", "dr:ar1m", "eval_is", ["spts"], 1),
        ("normal", "result:normal", "eval_s", ["spts"], None), ("normal", "pdr:normal", "call", ["mpts", "spts"], None), ("normal", "pdr:normal", "eval_s", ["s1d"], None), ("wide-mc", "dr:wide-mc", "eval_is", ["spts2"], 1),
        ("normal", "cdr:normal", "call", ["spts"], None), ("mvnormal", "pdr:mvnormal", "eval_ms", ["mpts2", "spts"], None),
    ]):
        reg(f"{fam}/eval-{i}", dr_eval(dr, how, arg, ii))

    def resp(B, verbose=False):
        from dolo.algos.simulations import response
        return response(B["model:normal"], B["pdr:normal"], "z", T=6)
    # response prints unconditionally and needs attributes that few processes have: covered only where it works

    def formula(B, verbose=False):
        m = B["model:mc3"]
        return [m.eval_formula("k(0) - delta*k(0) + i(0)", B["frame"]), m.eval_formula("k(1) - k(-1)", B["frame"]), m.eval_formula("k(0)/i(0)", B["frame"], B["context"])]
    reg("mc3/formula", formula)

    def text_of(mod):
        def run(B, verbose=False):
            m = B["model:" + mod]
            return [str(m), m._repr_html_()]
        return run
    reg("mc3/str", text_of("mc3"))
    reg("wide-mc/str", text_of("wide-mc"))

    def funs(mod, pts):
        def run(B, verbose=False):
            m = B["model:" + mod]
            c = m.calibration
            g, f = m.functions["transition"], m.functions["arbitrage"]
            s = B[pts]
            e, x, p = c["exogenous"], c["controls"], c["parameters"]
            return [g(e, s, x, e, p), f(e, s, x, e, s, x, p), g(e, c["states"], x, e, p, diff=True), f(e, c["states"], x, e, c["states"], x, p, diff=True)]
        return run
    reg("mc3/functions", funs("mc3", "spts"))
    reg("wide-mc/functions", funs("wide-mc", "spts2"))

    def custom(B, verbose=False):
        from dolo.numeric.decision_rule import CustomDR
        m = B["model:normal"]
        d = CustomDR({"i": "delta*k + 0.1*z"}, model=m)
        return d.eval_ms(B["mpts"], B["spts"])
    reg("normal/custom", custom)

    # processes and distributions
    def seeded(fn, seed=11):
        def run(B, verbose=False):
            np.random.seed(seed)
            return fn(B)
        return run
    P = {
        "ar1-sim": lambda B: B["ar1"].simulate(3, 5, m0=np.array([0.3])), "ar1-mc": lambda B: B["ar1"].discretize(), "ar1-mc5": lambda B: B["ar1"].discretize(N=5),
        "var1-sim": lambda B: B["varsame"].simulate(3, 5), "var1-mc": lambda B: B["varsame"].discretize(), "var1-mc5": lambda B: B["varsame"].discretize(N=4),
        "mc-sim": lambda B: [B["mc"].simulate(3, 6, i0=1), B["mc"].simulate_indices(2, 4, i0=0, stochastic=False)], "mc-disc": lambda B: B["mc"].discretize(),
        "normal-disc": lambda B: B["normal2"].discretize(), "normal-draw": lambda B: B["normal2"].draw(5), "normal-sim": lambda B: B["normal2"].simulate(2, 4),
        "unormal-disc": lambda B: [B["unormal"].discretize(N=4), B["unormal"].discretize(N=4, method="gauss-hermite"), B["unormal"].draw(4)],
        "uniform-disc": lambda B: [B["uniform"].discretize(N=4), B["uniform"].draw(4)],
        "finite": lambda B: [B["finite"].draw(5), B["finite"].integrate(lambda x: x ** 2), B["finite"].discretize(), str(B["finite"])],
        "equi": lambda B: [B["equi"].draw(5), B["equi"].integrate(lambda x: x ** 2), B["equi"].discretize()],
        "bern": lambda B: [B["bern"].draw(6), B["bern"].discretize()], "mixture": lambda B: [B["mixture"].discretize(), B["mixture"].draw(6)],
        "const": lambda B: [B["const"].discretize(to="iid"), B["const"].discretize(to="mc"), B["const"].simulate(2, 3)],
        "product-sim": lambda B: B["product"].simulate(2, 4), "product-disc": lambda B: B["product"].discretize(to="mc"), "product-mc": lambda B: B["product-mc"].discretize(),
        "product-iid": lambda B: __import__("dolo.numeric.distribution", fromlist=["x"]).product_iid(B["iids"]),
        "response": lambda B: [B["unormal"].response(4, np.array([0.1])), B["varsame"].response(4, np.array([0.1, 0.0]))],
        "simulate_markov_chain": lambda B: __import__("dolo.numeric.processes", fromlist=["x"]).simulate_markov_chain(B["Q2"], B["P2"], 2, 5, i0=1),
    }
    for k, fn in P.items():
        reg("proc/" + k, seeded(fn))

    def mod(path):
        return __import__(path, fromlist=["x"])

    def curve(x):
        return np.stack([x[:, 0] ** 3 + x[:, 1] - 1.0, x[:, 1] ** 2 - 0.25 * x[:, 0]], axis=1)

    def newt(B, verbose=False):
        nn = mod("dolo.numeric.optimize.newton")
        return nn.newton(nn.SerialDifferentiableFunction(curve), B["x0"], verbose=verbose, maxit=30)

    def ncp(B, verbose=False):
        nn = mod("dolo.numeric.optimize.newton")
        return mod("dolo.numeric.optimize.ncpsolve").ncpsolve(nn.SerialDifferentiableFunction(curve), B["lb"], B["ub"], B["x0"], verbose=verbose)

    def lmm(B, verbose=False):
        f = lambda v: v ** 3 - np.array([0.2, 0.7])
        return mod("dolo.numeric.extern.lmmcp").lmmcp(f, lambda v: np.diag(3 * v ** 2), B["x0"][0], B["lb"][0], B["ub"][0], verbose=verbose)
    reg("tools/newton", newt, verbose=True)
    reg("tools/ncpsolve", ncp, verbose=True)
    reg("tools/lmmcp", lmm, verbose=True)
    T = {
        "rouwenhorst": lambda B: mod("dolo.numeric.discretization").rouwenhorst(0.8, 0.1, 5),
        "tauchen": lambda B: mod("dolo.numeric.discretization.discretization").tauchen(4, 0.1, 0.8, 0.1),
        "multidim": lambda B: mod("dolo.numeric.discretization").multidimensional_discretization(0.8, B["corr"], 3),
        "tensor": lambda B: mod("dolo.numeric.discretization").tensor_markov((B["Q2"], B["P2"]), (B["Q2"], B["P2"])),
        "quadrature": lambda B: mod("dolo.numeric.discretization.quadrature").gauss_hermite_nodes([3, 4], B["cov"], B["mean2"]),
        "hp_filter": lambda B: mod("dolo.numeric.filters").hp_filter(B["ts"]),
        "bandpass": lambda B: mod("dolo.numeric.filters").bandpass_filter(B["ts2"], 6, 6, 20) if False else mod("dolo.numeric.filters").hp_filter(B["ts2"].T),
        "serial_solve": lambda B: [mod("dolo.numeric.serial_operations").serial_solve(B["matA"], B["matB"]), mod("dolo.numeric.serial_operations").serial_solve(B["matA"], B["matB"], diagnose=False)],
        "serial_mult": lambda B: mod("dolo.numeric.serial_operations").serial_multiplication(B["matA"], B["matC"]),
        "cartesian": lambda B: [mod("dolo.numeric.misc").mlinspace([0, 0], [1, 2], [3, 4]), mod("dolo.numeric.misc").cartesian([B["mean2"], B["ts"][:3]])],
        "grids": lambda B: [(lambda g: [g.nodes, g.n_nodes, (g + g).nodes if hasattr(g, "__add__") else 0])(mod("dolo.numeric.grids").UniformCartesianGrid([0.0, 1.0], [2.0, 3.0], [3, 2]))],
        "numdiff": lambda B: [mod("dolo.numeric.serial_operations").numdiff1(lambda x: np.array([x[0] ** 2 + x[1], x[1] * x[0]]), B["x0"][0])],
        "sylvester": lambda B: mod("dolo.numeric.matrix_equations").solve_sylvester(*B["sylv"]),
    }
    for k, fn in T.items():
        reg("tools/" + k, (lambda fn: lambda B, verbose=False: fn(B))(fn))


def load():
    if not OPS:
        _fill()
    return OPS


def run(name, B, verbose=False, hook=None):
    """-> canonical value of the operation"""
    o = OPS[name]
    kw = {"hook": hook} if o.hook and hook is not None else {}
    return canon.canon(o.fn(B, verbose=verbose, **kw))


def fresh(name, **kw):
    return run(name, Bench(), **kw)


USES = {}


def setup_library(simlocks=False):
    """Import the library with the seams of these checks in place."""
    import numba, numba.core.typing, scipy.optimize, xarray, pandas, lark, yaml, dolang, interpolation, multipledispatch  # noqa: with real locks
    import interpolation.splines, quantecon, scipy.sparse.linalg  # noqa
    import contextlib
    from . import sched
    with sched.SimLocks() if simlocks else contextlib.nullcontext():
        import dolo  # noqa
        from dolo.compiler import model  # noqa
        import dolo.algos.commands, dolo.algos.egm, dolo.numeric.discretization.quadrature, dolo.numeric.filters, dolo.numeric.serial_operations  # noqa
        import dolo.numeric.matrix_equations, dolo.numeric.extern.lmmcp, dolo.numeric.optimize.ncpsolve  # noqa
    models.memo_compile().__enter__()
    models.memo_parse().__enter__()
    return load()


class quiet:
    """no output, no warnings"""

    def __enter__(self):
        import io
        import sys
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.out, sys.stdout = sys.stdout, io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.out
        return self.w.__exit__(*a)


def reference(name, **kw):
    """-> canonical value on a fresh bench; the objects used are noted in USES"""
    B = Bench()
    with quiet():
        try:
            val = run(name, B, **kw)
        except Exception as e:
            val = ("raised", type(e).__name__)
    USES[name] = list(B.objs)
    return val
