"""C17: a solver never reports convergence it has not reached, whatever evaluations fail."""
import inspect
import warnings

import numpy as np

from .. import core, models, ops, rng as simrng


class Endless(BaseException):
    """more evaluations than the limits of the solver allow"""


class Boom(ArithmeticError):
    """an evaluation fails"""


SILENT = ("nan", "inf", "-inf", "raise")   # never a reason to believe anything
KINDS = ["nan", "nan", "inf", "-inf", "raise", "noise", "huge", "stale", "zero"]


class Faults:
    """Evaluations are numbered; those of the given windows are answered wrongly."""

    def __init__(self, faults, limit):
        self.faults, self.limit = faults, limit
        self.n, self.last, self.fired, self.kinds, self.memo = 0, -1, 0, {}, {}
        self.lastkind = None

    def wrap(self, fn, name):
        def evaluation(*a, **kw):
            i = self.n
            self.n += 1
            if self.n > self.limit:
                raise Endless()
            hit = None
            for f in self.faults:
                if f["at"] <= i < f["at"] + f["n"] and (f.get("fun") in (None, name)):
                    hit = f
            if hit is None:
                out = fn(*a, **kw)
                self.memo[name, self.shapes(out)] = out
                return out
            kind = hit["kind"]
            if kind == "inf" and name.endswith("_ub") or kind == "-inf" and name.endswith("_lb"):
                kind = "huge"  # a bound that may well be meant: finite or not, it tells nothing about failure
            self.last, self.lastkind = i, kind
            self.fired += 1
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if hit["kind"] == "raise":
                raise Boom("injected")
            return self.spoil(fn(*a, **kw), hit, i, name)
        evaluation.__wrapped__ = fn
        return evaluation

    def shapes(self, out):
        return tuple(np.shape(o) for o in out) if isinstance(out, (tuple, list)) else np.shape(out)

    def spoil(self, out, f, i, name):
        k = f["kind"]
        if k == "stale":
            return self.memo.get((name, self.shapes(out)), out)
        if isinstance(out, (tuple, list)):
            which = range(len(out)) if f.get("part") is None else [f["part"] % len(out)]
            return type(out)(self.one(o, f, i) if j in which else o for j, o in enumerate(out))
        return self.one(out, f, i)

    def one(self, v, f, i):
        if hasattr(v, "tocsc"):
            w = v.tocsc(copy=True)
            w.data = self.one(w.data, f, i)
            return w
        v = np.array(v, dtype=float)
        r = np.random.RandomState((f["seed"] * 7919 + i) % 2 ** 31)
        rows = r.rand(*v.shape[:1]) < f["share"] if v.ndim else np.array(True)
        if v.ndim and v.shape[0] and not rows.any():
            rows[r.randint(v.shape[0])] = True
        k = f["kind"]
        with np.errstate(all="ignore"):
            new = {"nan": lambda: v * np.nan, "inf": lambda: v * 0 + np.inf, "-inf": lambda: v * 0 - np.inf, "huge": lambda: v * 1e9 + 1e7, "zero": lambda: v * 0.0,
                   "noise": lambda: v * (1 + 0.3 * r.standard_normal(v.shape)) + 0.01 * r.standard_normal(v.shape)}[k]()
        v[rows] = new[rows]
        return v


def natural(x, F, lb=None, ub=None):
    """residual of: F = 0 where lb < x < ub, F >= 0 at lb, F <= 0 at ub"""
    if lb is None:
        return F
    return x - np.clip(x - F, lb, ub)


class Problem:
    """Something to solve, with bounds on what it may cost and a judge of what it claims."""
    explicit = False  # the result says whether it has converged

    def limit(self, maxit):
        return 10 ** 6


def curve(x):
    return np.stack([x[:, 0] ** 3 + x[:, 1] - 1.0, x[:, 1] ** 2 - 0.25 * x[:, 0]], axis=1)


def curve_jac(x):
    J = np.zeros((x.shape[0], 2, 2))
    J[:, 0, 0], J[:, 0, 1], J[:, 1, 0], J[:, 1, 1] = 3 * x[:, 0] ** 2, 1.0, -0.25, 2 * x[:, 1]
    return J


def flat(v):
    """three coupled equations"""
    return np.array([v[0] ** 3 + 0.3 * v[1] - 0.4, np.exp(v[1]) + v[2] - 1.9, v[2] + 0.2 * v[0] * v[1] - 0.7])


def flat_jac(v):
    return np.array([[3 * v[0] ** 2, 0.3, 0.0], [0.0, np.exp(v[1]), 1.0], [0.2 * v[1], 0.2 * v[0], 1.0]])


X0 = np.array([[0.3, 0.6], [1.1, 0.2], [0.7, 0.9]])
V0 = np.array([0.9, 0.3, 0.4])
BOUNDS = {"tight": (0.0, 0.6), "loose": (-5.0, 5.0), "half": (0.1, np.inf), "free": (-np.inf, np.inf)}


class Root(Problem):
    """newton, ncpsolve and lmmcp on small systems"""

    def __init__(self, solver, jactype="serial", bounds=None, tol=None, maxit=30):
        self.solver, self.jactype, self.bounds, self.tol, self.maxit = solver, jactype, bounds, tol, maxit
        self.size = 1

    def solve(self, F, maxit=None):
        import scipy.sparse
        from dolo.numeric.extern.lmmcp import lmmcp
        from dolo.numeric.optimize.ncpsolve import ncpsolve
        from dolo.numeric.optimize.newton import newton
        if self.jactype == "serial":
            f, x0 = F.wrap(lambda x: [curve(x), curve_jac(x)], "f"), X0.copy()
        elif self.jactype == "full":
            f, x0 = F.wrap(lambda v: [flat(v), flat_jac(v)], "f"), V0.copy()
        else:
            f, x0 = F.wrap(lambda v: [flat(v), scipy.sparse.csc_matrix(flat_jac(v))], "f"), V0.copy()
        kw = {} if self.tol is None else {"tol": self.tol}
        m = self.maxit if maxit is None else maxit
        if self.solver == "newton":
            x, nit = newton(f, x0, maxit=m, jactype=self.jactype, **kw)
        else:
            lb, ub = [np.full(x0.shape, b) for b in BOUNDS[self.bounds]]
            if self.solver == "ncpsolve":
                x, nit = ncpsolve(f, lb, ub, x0, maxit=m, jactype=self.jactype, **kw)
            else:
                x, nit = lmmcp(lambda v: f(v)[0], lambda v: f(v)[1], x0, lb, ub, verbose=False), 0
        if nit > m:
            raise core.Violation("limit", f"{nit} iterations were done for a limit of {m}")
        return x

    def limit(self, maxit):
        return 40 * ((self.maxit if maxit is None else maxit) + 1) if self.solver != "lmmcp" else 60000

    def converged(self, x):
        return True

    def trusted(self, F):
        """the residual on which the verdict rests was computed properly"""
        return F.last < F.n - (2 if self.solver != "lmmcp" else 45) or F.lastkind in SILENT

    def judge(self, x, F):
        tol = self.tol or {"newton": 1e-6, "ncpsolve": 1e-8, "lmmcp": 1e-7}[self.solver]
        val = curve(x) if self.jactype == "serial" else flat(x)
        lb, ub = (None, None) if self.bounds is None else BOUNDS[self.bounds]
        r = abs(natural(x, val, lb, ub)).max()
        ok = r < tol if self.solver == "newton" else r < 50 * (tol if self.solver == "ncpsolve" else 1e-5)
        return None if ok else f"the residual of the solution {x.tolist()} is {r}, for a tolerance of {tol}"

    def same(self, x, ref):
        d = abs(x - ref).max()
        return None if d == 0 else f"solutions differ by {d}"


class ModelProblem(Problem):
    funs = ("arbitrage", "transition")

    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def wrapped(self, F):
        m = self.bench["model:" + self.mod]
        table = self.table(m)
        return m, table, {k: table[k] for k in self.names(table)}

    def table(self, m):
        return m.functions

    def names(self, table):
        return [k for k in self.funs if k in table]

    def solve(self, F, maxit=None, **more):
        m, table, old = self.wrapped(F)
        try:
            for k, fn in old.items():
                table[k] = F.wrap(fn, k)
            return self.call(m, maxit, F, **more)
        finally:
            for k, fn in old.items():
                table[k] = fn


def at_nodes(dr):
    dr = getattr(dr, "dr", dr)
    n = max(1, getattr(dr, "dprocess", None).n_nodes if getattr(dr, "dprocess", None) is not None else 1)
    return np.array([dr(i, dr.endo_grid.nodes) for i in range(n)])


class TimeIteration(ModelProblem):
    explicit = True
    funs = ("arbitrage", "transition", "arbitrage_lb", "arbitrage_ub")

    def call(self, m, maxit, F):
        from dolo.algos.time_iteration import time_iteration
        self.marks = []
        kw = dict(self.kw)
        if maxit is not None:
            kw["maxit"] = maxit
        return time_iteration(m, verbose=False, trace=True, hook=lambda: self.marks.append(F.n), **kw)

    def converged(self, r):
        return r.x_converged

    def limit(self, maxit):
        # iterations x steps of the inner solver x (tried steps) x (evaluations per derivative) x (nodes x integration nodes x functions)
        return (self.kw.get("maxit", 1000) if maxit is None else maxit) * 10 * 32 * 4 * 2 * 60 + 10000

    def trusted(self, F):
        return F.lastkind in SILENT or len(self.marks) > 1 and F.last < self.marks[-2]

    def judge(self, r, F):
        from dolo.algos.time_iteration import time_iteration
        tol = self.kw.get("tol", 1e-6)
        step = abs(at_nodes(r) - at_nodes(r.trace[-2]["dr"])).max()
        if not r.err < tol or abs(step - r.err) > 1e-9:
            return f"the last step was {step}, {r.err} is reported, for a tolerance of {tol}"
        kw = dict(self.kw, maxit=1)
        again = time_iteration(self.bench["model:" + self.mod], verbose=False, dr0=r.trace[-2]["dr"], **kw)
        d = abs(at_nodes(again) - at_nodes(r.trace[-2]["dr"])).max()
        e = abs(at_nodes(again) - at_nodes(r)).max()
        if not d < 3 * tol + 1e-5 or not e < 3 * tol + 1e-5:
            return f"the last step was {step}, but it is {d} when its evaluations do not fail (the rules differ by {e}), for a tolerance of {tol}"

    def performed(self, r, maxit):
        n = self.kw.get("maxit", 1000) if maxit is None else maxit
        return r.iterations <= n and len(self.marks) <= n, f"{len(self.marks)} iterations were done ({r.iterations} reported) for a limit of {n}"

    def same(self, r, ref):
        d = abs(at_nodes(r) - at_nodes(ref)).max()
        return None if d == 0 and r.x_converged == ref.x_converged and r.iterations == ref.iterations and r.err == ref.err else f"rules differ by {d}, iterations {r.iterations} and {ref.iterations}, errors {r.err} and {ref.err}"


class Improved(ModelProblem):
    explicit = True
    funs = ("arbitrage", "transition", "arbitrage_lb", "arbitrage_ub")

    def call(self, m, maxit, F):
        from dolo.algos.improved_time_iteration import improved_time_iteration
        kw = dict(self.kw)
        if maxit is not None:
            kw["maxit"] = maxit
        return improved_time_iteration(m, verbose=False, **kw)

    def converged(self, r):
        return r.x_converged

    def limit(self, maxit):
        return 200000

    def trusted(self, F):
        return F.lastkind in SILENT or F.last < F.n - self.margin

    def judge(self, r, F):
        from dolo.algos.improved_time_iteration import improved_time_iteration
        tol = self.kw.get("tol", 1e-8)
        if not r.f_x < tol:
            return f"the residual reported is {r.f_x}, for a tolerance of {tol}"
        again = improved_time_iteration(self.bench["model:" + self.mod], verbose=False, dr0=r.dr, **dict(self.kw, maxit=1))
        if not again.f_x < 1.1 * tol + 1e-10:
            return f"the residual of the rule is {again.f_x}, {r.f_x} is reported, for a tolerance of {tol}"

    def performed(self, r, maxit):
        n = self.kw.get("maxit", 1000) if maxit is None else maxit
        return r.N <= n, f"{r.N} iterations are reported for a limit of {n}"

    def same(self, r, ref):
        d = abs(at_nodes(r) - at_nodes(ref)).max()
        return None if d == 0 and r.x_converged == ref.x_converged and r.N == ref.N else f"rules differ by {d}, iterations {r.N} and {ref.N}"


class Egm(ModelProblem):
    explicit = True
    funs = ("expectation", "half_transition", "direct_response_egm", "reverse_state", "arbitrage_lb", "arbitrage_ub")

    def table(self, m):
        return models.raw_functions(m)

    def call(self, m, maxit, F, **more):
        from dolo.algos.egm import egm
        kw = dict(self.kw, **more)
        if maxit is not None:
            kw["maxit"] = maxit
        return egm(m, a_grid=self.bench["a_grid"], verbose=False, **kw)

    def converged(self, r):
        return r.a_converged

    def limit(self, maxit):
        return 10 ** 6

    def trusted(self, F):
        return F.last < F.n - self.margin

    def judge(self, r, F):
        if not r.err < r.a_tol:
            return f"the last step was {r.err}, for a tolerance of {r.a_tol}"
        d = abs(at_nodes(r) - at_nodes(self.reference)).max()
        if not d < 300 * r.a_tol:
            # another fixed point? (consumption zero everywhere is one)
            again = self.solve(Faults([], 10 ** 7), 2, dr0=r.dr)
            if abs(at_nodes(again) - at_nodes(r)).max() < 1e-3:
                return
            return f"the rule is at a distance of {d} from the solution, for a tolerance of {r.a_tol}"

    def performed(self, r, maxit):
        n = self.kw.get("maxit", 1000) if maxit is None else maxit
        return r.iterations <= n, f"{r.iterations} iterations are reported for a limit of {n}"

    def same(self, r, ref):
        d = abs(at_nodes(r) - at_nodes(ref)).max()
        return None if d == 0 and r.a_converged == ref.a_converged and r.iterations == ref.iterations else f"rules differ by {d}, iterations {r.iterations} and {ref.iterations}"


class Evaluate(ModelProblem):
    funs = ("value", "transition")

    def call(self, m, maxit, F):
        from dolo.algos.value_iteration import evaluate_policy
        kw = dict(self.kw)
        if maxit is not None:
            kw["maxit"] = maxit
        return evaluate_policy(m, self.bench["dr:" + self.mod], verbose=False, details=True, **kw)

    def converged(self, r):
        return r.error < r.tol

    def trusted(self, F):
        return F.last < F.n - self.margin

    def judge(self, r, F):
        d = abs(at_nodes(r.solution) - at_nodes(self.reference.solution)).max()
        if not d < 300 * r.tol + 1e-7:
            return f"the values are at a distance of {d} from the solution, for a tolerance of {r.tol}"

    def performed(self, r, maxit):
        n = self.kw.get("maxit", 2000) if maxit is None else maxit
        return r.iterations <= n, f"{r.iterations} iterations are reported for a limit of {n}"

    def same(self, r, ref):
        d = abs(at_nodes(r.solution) - at_nodes(ref.solution)).max()
        return None if d == 0 and r.iterations == ref.iterations and r.error == ref.error else f"values differ by {d}, iterations {r.iterations} and {ref.iterations}"


class Steady(ModelProblem):
    def call(self, m, maxit, F):
        from dolo.algos.steady_state import find_steady_state
        m_ = self.kw.get("m")
        return find_steady_state(m, m=None if m_ is None else np.array(m_))

    def converged(self, r):
        return True

    def trusted(self, F):
        return F.fired and all(k in SILENT for k in F.kinds)

    def judge(self, r, F):
        g, f = [self.bench["model:" + self.mod].functions[k] for k in ("transition", "arbitrage")]
        m, s, x, p = r["exogenous"], r["states"], r["controls"], r["parameters"]
        e = np.concatenate([np.ravel(g(m, s, x, m, p) - s), np.ravel(f(m, s, x, m, s, x, p))])
        if not abs(e).max() < 1e-5:
            return f"the residual at the steady state found is {abs(e).max()}"

    def same(self, r, ref):
        d = max(abs(np.asarray(r[k]) - np.asarray(ref[k])).max() for k in ("states", "controls"))
        return None if d == 0 else f"steady states differ by {d}"


class Path(ModelProblem):
    """perfect foresight"""
    T = 10

    funs = ("arbitrage", "transition", "arbitrage_lb", "arbitrage_ub", "auxiliary")

    def call(self, m, maxit, F):
        from dolo.algos.perfect_foresight import deterministic_solve
        kw = {k: (self.bench[v] if isinstance(v, str) and k != "solver" else v) for k, v in self.kw.items()}
        if maxit is not None:
            kw["maxit"] = maxit
        return deterministic_solve(m, verbose=False, T=self.T, **kw)

    def limit(self, maxit):
        # each evaluation of the residuals calls two functions
        n = self.kw.get("maxit", 100) if maxit is None else maxit
        return 60000 if self.kw.get("solver") == "lmmcp" else 400 + 2 * 32 * (n + 1)

    def converged(self, r):
        return True

    def trusted(self, F):
        return F.fired and all(k in SILENT for k in F.kinds)

    def judge(self, df, F):
        m = self.bench["model:" + self.mod]
        tol = self.kw.get("tol", 1e-6)
        S, X, E = [df[m.symbols[k]].to_numpy() for k in ("states", "controls", "exogenous")]
        if 0 in df.index:
            k = list(df.index).index(0)
            S, X, E = S[k:], X[k:], E[k:]
        if not (np.isfinite(S).all() and np.isfinite(X).all()):
            return "the path is not finite"
        p = m.calibration["parameters"]
        g, f = [m.functions[k] for k in ("transition", "arbitrage")]
        rs = abs(g(E[:-1], S[:-1], X[:-1], E[1:], p) - S[1:]).max()
        lb = ub = None
        if m.x_bounds and not self.kw.get("ignore_constraints"):
            lb, ub = [b(E[:-1], S[:-1], p) for b in m.x_bounds]
        rx = abs(natural(X[:-1], f(E[:-1], S[:-1], X[:-1], E[1:], S[1:], X[1:], p), lb, ub)).max()
        rT = abs(X[-1] - X[-2]).max() if lb is None else 0.0
        loose = 1e-4 if self.kw.get("solver") == "lmmcp" else 1.01 * tol if lb is None else 50 * tol
        if not max(rs, rx, rT) < loose:
            return f"residuals of the path: transition {rs}, arbitrage {rx}, last date {rT}, for a tolerance of {tol}"

    def same(self, r, ref):
        d = abs(r.to_numpy() - ref.to_numpy()).max()
        return None if d == 0 else f"paths differ by {d}"


class Perturb(ModelProblem):
    def call(self, m, maxit, F):
        from dolo.algos.perturbation import perturb
        return perturb(m, verbose=False)

    def converged(self, r):
        return r.stable or r.determined or r.unique

    def trusted(self, F):
        return F.fired and all(k in SILENT for k in F.kinds)

    def judge(self, r, F):
        d = abs(r.dr.C_s - self.reference.dr.C_s).max()
        if not d < 1e-8 or not np.isfinite(np.asarray(r.generalized_eigenvalues, dtype=float)[:r.dr.C_s.shape[1]]).all():
            return f"coefficients {r.dr.C_s.tolist()} are reported as those of a stable solution; they are {self.reference.dr.C_s.tolist()}"

    def same(self, r, ref):
        d = abs(r.dr.C_s - ref.dr.C_s).max()
        return None if d == 0 else f"rules differ by {d}"


def problems():
    P = {}
    for jt in ("serial", "full", "sparse"):
        P[f"newton/{jt}"] = Root("newton", jt)
        P[f"newton/{jt}/tol"] = Root("newton", jt, tol=1e-11)
        for b in BOUNDS:
            P[f"ncpsolve/{jt}/{b}"] = Root("ncpsolve", jt, b)
        P[f"ncpsolve/{jt}/tol"] = Root("ncpsolve", jt, "tight", tol=1e-4)
    for b in ("tight", "half", "free"):
        P[f"lmmcp/{b}"] = Root("lmmcp", "full", b)
    for i, (mod, kw) in enumerate([("mc3", {}), ("mc3", {"interp_method": "linear"}), ("mc3", {"ignore_constraints": True}), ("mc3", {"tol": 1e-3}), ("normal", {}), ("normal", {"tol": 1e-4, "ignore_constraints": True}),
                                   ("mvnormal", {"tol": 1e-4}), ("constb", {"tol": 1e-4}), ("ar1m", {"maxit": 6}), ("wide-mc", {"maxit": 3})]):
        P[f"time_iteration/{mod}-{i}"] = TimeIteration(mod, **dict({"maxit": 40} if i else {}, **kw))
    for i, (mod, kw) in enumerate([("mc3", {"maxit": 12}), ("mc3", {"interp_method": "linear", "maxit": 12}), ("mc3", {"ignore_constraints": True, "maxit": 12}), ("mc3", {"tol": 1e-4, "maxit": 9}), ("ar1m", {"maxit": 4})]):
        P[f"improved/{mod}-{i}"] = Improved(mod, **kw)
    P["egm/0"] = Egm("egm", maxit=400)
    P["egm/1"] = Egm("egm", maxit=120, η_tol=1e-3)
    P["evaluate/0"] = Evaluate("mc3", tol=1e-4)
    P["evaluate/1"] = Evaluate("mc3", tol=1e-2)
    for mod in ("mc3", "normal", "wide-mc", "ar1m", "constb"):
        P[f"steady/{mod}"] = Steady(mod)
        P[f"steady/{mod}-far"] = Steady(mod, far=True)
    P["steady/normal-m"] = Steady("normal", m=[0.02])
    for i, (mod, kw) in enumerate([
        ("normal", dict(ignore_constraints=True, s0="s0")), ("normal", dict(ignore_constraints=True, exogenous="shock-array")), ("normal", dict(ignore_constraints=True, exogenous="shock-dict", keep_steady_state=True, tol=1e-10)),
        ("det", dict(s0="s0")), ("det", dict(exogenous="shock-list")), ("det", dict(s0="s0", tol=1e-3)), ("constb", dict(exogenous="shock-frame")), ("det", dict(s0="s1d", solver="lmmcp")), ("constb", dict(exogenous="shock-list", solver="lmmcp")),
        ("normal", dict(ignore_constraints=True, s0="s0", maxit=2)), ("det", dict(s0="s0", maxit=2)), ("normal", dict(ignore_constraints=True, s0="s0", tol=1e-13)),
    ]):
        P[f"path/{mod}-{i}"] = Path(mod, **dict({} if i == 0 or "solver" in kw else {"maxit": 20}, **kw))
    for mod in ("normal", "mvnormal", "constb", "wide-stable"):
        P[f"perturb/{mod}"] = Perturb(mod)
    return P


HARD = ("newton/serial", "newton/full", "newton/sparse", "ncpsolve/serial/loose", "ncpsolve/sparse/loose", "path/normal-0", "path/det-3")


class C17(core.Check):
    ID = "C17"
    RULE = ("A run solves one problem (time iteration, improved time iteration, endogenous grid, policy evaluation, steady state, perfect foresight, perturbation, or a nonlinear system or complementarity problem) while chosen evaluations of "
            "its functions return not-a-number, infinite, huge, noisy, zero or outdated values (in all or some rows, one or all of the values and derivatives) or raise, possibly with an iteration limit. The solver must raise, warn or flag non-convergence, or else "
            "the last step or residual, evaluated again without faults, must be within tolerance; limits must be respected; the same call without faults on the same objects must then give the fault-free result. Non-trivial when an evaluation was spoiled or a limit hit.")
    REAL = ["all solvers, models, processes, grids, decision rules and compiled functions (compiled once per distinct code)"]
    STUBS = ["answers of chosen evaluations of the model's functions", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)"]
    RUNS = {"quick": 3000, "thorough": 60000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (problem, kind of fault, outcome) combinations"
    ASSUMPTIONS = ["A verdict resting on an evaluation that returned a wrong but finite value is not judged (the solver cannot know); not-a-number, infinite values and errors are always judged.",
                   "Contraction: a fixed point is within 300 tolerances of a rule whose last step is within tolerance (egm, evaluate_policy)."]

    def worker_setup(self):
        import os
        fd = os.open(os.devnull, os.O_WRONLY)  # lapack complains on the standard output
        os.dup2(fd, 1)
        os.close(fd)

    def setup(self, tier):
        ops.setup_library()
        self.problems = problems()
        self.refs, self.count = {}, {}
        for n in list(self.problems):
            p = self.problems[n]
            p.bench = self.bench(p)
            F = Faults([], 10 ** 7)
            caught = []
            with ops.quiet():
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    self.refs[n] = p.reference = p.solve(F)
            self.count[n] = F.n
            its = getattr(p.reference, "iterations", getattr(p.reference, "N", 1))
            p.margin = int(6 * F.n / max(1, its)) + 2
            p.warned = any(self.ours(w) for w in caught)
            with ops.quiet():
                bad = not p.warned and p.converged(p.reference) and p.judge(p.reference, F)
            if bad:
                raise core.Violation("false-claim", f"{n}, without faults: {bad}")

    def bench(self, p):
        B = ops.Bench()
        if hasattr(p, "mod"):
            m = B["model:" + p.mod]
            if p.kw.get("far"):  # calibrated away from its steady state
                m.set_calibration(**{k: float(1.1 * m.calibration[k]) for g in ("states", "controls") for k in m.symbols[g]})
            for v in list(p.kw.values()) + (["a_grid"] if isinstance(p, Egm) else []) + (["dr:" + p.mod] if isinstance(p, Evaluate) else []):
                if isinstance(v, str) and v not in ("linear", "lmmcp"):
                    B[v]
        return B

    def ours(self, w):
        """warnings about the outcome (not numpy's floating point or deprecation warnings)"""
        return not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, FutureWarning)) and not (issubclass(w.category, RuntimeWarning) and "encountered in" in str(w.message))

    def fixed(self, tier):
        out = []
        for n in self.problems:
            N = self.count[n]
            for k, ats in (("nan", (1, N // 2, N - 1)), ("inf", (0,)), ("raise", (N - 2,))):
                for at in ats:
                    out.append({"problem": n, "faults": [{"kind": k, "at": max(0, at), "n": 1, "share": 1.0, "seed": 1}]})
            out.append({"problem": n, "faults": [{"kind": "nan", "at": N // 3, "n": 10 ** 9, "share": 0.3, "seed": 1}]})
            out.append({"problem": n, "faults": [], "maxit": 1})
        return out

    def generate(self, rng, tier):
        n = rng.choice(sorted(self.problems))
        if n.startswith(("improved", "egm", "evaluate", "time_iteration/ar1m", "time_iteration/wide")) and rng.random() < 0.5:
            n = rng.choice(sorted(self.problems))
        p, N = self.problems[n], self.count[n]
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            f = {"kind": rng.choice(KINDS), "at": rng.choice([rng.randrange(N), rng.randrange(N), rng.randrange(min(N, 12)), max(0, N - 1 - rng.randrange(12))]),
                 "n": rng.choice([1, 1, 2, 3, 8, 40, max(1, N // 4), 10 ** 9]), "share": rng.choice([1.0, 0.5, 0.1, 0.0]), "seed": rng.randrange(1000)}
            if n.startswith("time_iteration") and f["kind"] not in SILENT:
                f["n"] = min(f["n"], 400)  # the solver may use all its iterations
            if rng.random() < 0.3:
                f["part"] = rng.randrange(8)
            if hasattr(p, "funs") and rng.random() < 0.4:
                f["fun"] = rng.choice(p.funs)
            faults.append(f)
        sc = {"problem": n, "faults": faults}
        if not faults or rng.random() < 0.15:
            sc["maxit"] = rng.choice([1, 2, 3, 5, 8])
        return sc

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("faults",))
        for i, f in enumerate(sc["faults"]):
            for new in ([dict(f, n=1)] if f["n"] > 1 else []) + [{k: v for k, v in f.items() if k != "part"}] * ("part" in f) + [{k: v for k, v in f.items() if k != "fun"}] * ("fun" in f) + ([dict(f, share=1.0)] if f["share"] < 1 else []):
                yield dict(sc, faults=[x if j != i else new for j, x in enumerate(sc["faults"])])
        if "maxit" in sc and sc["faults"]:
            yield {k: v for k, v in sc.items() if k != "maxit"}

    def attempt(self, p, F, maxit):
        """-> ('raised', exception) | ('warned' | 'silent', result)"""
        with ops.quiet(), warnings.catch_warnings(record=True) as caught, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                r = p.solve(F, maxit)
            except Endless:
                raise core.Violation("endless", f"more than {F.limit} evaluations were made")
            except Exception as e:
                return "raised", e
        return ("warned" if any(self.ours(w) for w in caught) else "silent"), r

    def run(self, sc, ctx):
        simrng.set_all(6)
        n = sc["problem"]
        p = self.problems[n]
        maxit = sc.get("maxit")
        if maxit is not None and (isinstance(p, (Steady, Perturb)) or getattr(p, "solver", "") == "lmmcp" or getattr(p, "kw", {}).get("solver") == "lmmcp"):
            maxit = None
        F = Faults(sc["faults"], p.limit(maxit))
        how, r = self.attempt(p, F, maxit)
        for k, c in F.kinds.items():
            ctx.fault(k, c)
        if maxit is not None:
            ctx.fault("limit")
        what = f"{n} with {sc['faults']}" + (f" and maxit={maxit}" if maxit is not None else "")
        if how == "raised":
            if isinstance(r, (NameError, UnboundLocalError)):
                raise core.Violation("broken-report", f"{what}: {r!r}")
            if not F.fired:
                raise core.Violation("fails", f"{what}: raised {r!r} although no evaluation failed")
            out = "raised"
        else:
            if hasattr(p, "performed"):
                ok, msg = p.performed(r, maxit)
                if not ok:
                    raise core.Violation("limit", f"{what}: {msg}")
            claim = bool(p.converged(r))
            out = how if not claim else how + "-converged"
            if how == "silent" and claim and maxit == 1 and not F.fired and n in HARD:
                raise core.Violation("limit", f"{what}: a nonlinear system was solved in one iteration, or the limit is ignored")
            if (how == "silent" or p.explicit) and claim and (not F.fired or p.trusted(F)):
                with ops.quiet(), np.errstate(all="ignore"):
                    bad = p.judge(r, F)
                if bad:
                    raise core.Violation("false-claim", f"{what}: no error, no warning, converged: {bad}")
                out = "confirmed"
        ctx.ev(n, out, F.n, F.fired, sorted(F.kinds.items()), maxit)
        ctx.state((n, sorted(F.kinds), maxit, out))
        ctx.nontrivial = bool(F.fired) or maxit is not None
        ctx.probe(out)
        # the faults stop
        F2 = Faults([], p.limit(None))
        how2, r2 = self.attempt(p, F2, None)
        if how2 == "raised":
            raise core.Violation("not-recovered", f"after {what} ({out}), the same call without faults raised {r2!r}")
        d = p.same(r2, self.refs[n])
        if d or (how2 == "warned") != p.warned:
            raise core.Violation("not-recovered", f"after {what} ({out}), the same call without faults gives another result: {d or how2}")


CHECK = C17()
