"""Models with decision rules, for checks on simulation. The law of motion and the definitions of these models are restated here, independently of
the compiled functions; decision rules whose values are affine in the state are also restated."""
import numpy as np

from . import models

ALPHA, DELTA = 0.33, 0.1


WIDE = """name: wide

symbols:
    exogenous: [z, p]
    states: [k, a]
    controls: [i, n, q]
    parameters: [beta, delta, psi]

definitions: |
    w[t] = i[t] + 2*n[t] - 0.5*p[t]
    v[t] = w[t]*a[t] + q[t] + z[t]

equations:

    arbitrage: |
        i[t] - 0.2*i[t+1] - psi*k[t] ⟂ -inf <= i[t] <= inf
        n[t] - 0.1*a[t] ⟂ -inf <= n[t] <= inf
        q[t] - 0.1*k[t] - 0.2*a[t+1] ⟂ -inf <= q[t] <= inf

    transition: |
        k[t] = (1-delta)*k[t-1] + i[t-1] + 0.1*a[t-1] + 0.05*z[t-1] + 0.2*z[t]
        a[t] = 0.5*a[t-1] + 0.3*n[t-1] + 0.1*p[t] - 0.02*p[t-1]*k[t-1] + 0.01*q[t-1]

calibration:
    beta: 0.9
    delta: 0.1
    psi: 0.1
    z: 0.0
    p: 0.0
    k: 1.0
    a: 0.2
    i: 0.1
    n: 0.05
    q: 0.1

exogenous: %s

domain:
    k: [0.2, 4.0]
    a: [-1.0, 1.5]

options:
    grid: !Cartesian
        orders: [6, 5]
"""
WIDE_MC = "!MarkovChain\n    values: [[-0.02, 0.3],[0.0, -0.1],[0.03, 0.0]]\n    transitions: [[0.8, 0.2, 0.0], [0.3, 0.4, 0.3], [0.0, 0.1, 0.9]]\n"
WIDE_VAR = "!VAR1\n    rho: 0.7\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"


class FunctionDR:
    """A decision rule given by a formula of continuous shocks: not one of the library's classes."""

    def __init__(self, n_m, n_x=1):
        self.n_m, self.n_x = n_m, n_x

    def eval_ms(self, m, s):
        m, s = np.atleast_2d(m), np.atleast_2d(s)
        base = 0.12 + 0.02 * s[:, :1] + 0.3 * m[:, :1] + (0.1 * m[:, 1:2] if self.n_m > 1 else 0.0)
        return np.concatenate([base * (j + 1) - 0.07 * j + 0.01 * j * s[:, -1:] for j in range(self.n_x)], axis=1)

    formula = eval_ms


class Entry:
    def __init__(self, name, model, dr, process=None, coefs=None, defs=True, wide=False):
        self.name, self.model, self.dr, self.process, self.coefs, self.defs, self.wide = name, model, dr, process, coefs, defs, wide
        self.n_m = len(model.symbols["exogenous"])

    def dp(self):
        """the process a simulation of this entry draws from"""
        return self.process or (self.dr.dprocess if hasattr(getattr(self.dr, "dprocess", None), "simulate") else self.model.exogenous)

    @property
    def discrete(self):
        from dolo.numeric.processes import DiscreteProcess
        return isinstance(self.dp(), DiscreteProcess)

    def transition(self, m, s, x, M):
        if self.wide:
            k = (1 - DELTA) * s[:, 0] + x[:, 0] + 0.1 * s[:, 1] + 0.05 * m[:, 0] + 0.2 * M[:, 0]
            a = 0.5 * s[:, 1] + 0.3 * x[:, 1] + 0.1 * M[:, 1] - 0.02 * m[:, 1] * s[:, 0] + 0.01 * x[:, 2]
            return np.stack([k, a], axis=1)
        k = (1 - DELTA) * s[:, 0] + x[:, 0] + 0.05 * m[:, 0] + 0.2 * M[:, 0]
        if self.n_m > 1:
            k = k + 0.1 * M[:, 1]
        return k[:, None]

    def auxiliaries(self, m, s, x):
        if self.wide:
            w = x[:, 0] + 2 * x[:, 1] - 0.5 * m[:, 1]
            return {"w": w, "v": w * s[:, 1] + x[:, 2] + m[:, 0]}
        y = np.exp(m[:, 0]) * s[:, 0] ** ALPHA
        return {"y": y, "c": y - x[:, 0]}

    def rule(self, i, m, s):
        """controls at (i or m), s, where a formula is known; else None (nan outside of the grid)"""
        if isinstance(self.dr, FunctionDR):
            return self.dr.formula(m, s)
        if self.coefs is not None and i is not None:
            a, b = self.coefs  # (n_i, n_x), (n_i, n_x, n_s)
            out = a[i] + np.einsum("nxs,ns->nx", b[i], s)
            g = self.dr.endo_grid
            out[((s <= np.array(g.min)) | (s >= np.array(g.max))).any(axis=1)] = np.nan
            return out
        return None


def affine_dr(model, method="cubic", dprocess=None):
    from dolo.numeric.decision_rule import DecisionRule
    grid, dp = model.discretize()
    dp = dprocess or dp
    n, n_x, n_s = dp.n_nodes, len(model.symbols["controls"]), len(model.symbols["states"])
    i, x, k = np.arange(n), np.arange(n_x), np.arange(n_s)
    a = 0.10 + 0.013 * i[:, None] - 0.03 * x[None, :]
    b = 0.02 + 0.005 * i[::-1][:, None, None] + 0.004 * x[None, :, None] - 0.007 * k[None, None, :]
    s = grid["endo"].nodes
    vals = a[:, None, :] + np.einsum("ixk,sk->isx", b, s)
    dr = DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method=method)
    dr.set_values(np.ascontiguousarray(vals))
    return dr, (a, b)


def build(solved=True):
    """-> {name: Entry}"""
    from dolo.algos.time_iteration import time_iteration
    out = {}

    def add(name, *a, **kw):
        out[name] = Entry(name, *a, **kw)

    mc3 = models.load_text(models.text("mc3"))
    dr, sl = affine_dr(mc3)
    add("mc3-affine", mc3, dr, coefs=sl)
    dr, sl = affine_dr(mc3, "linear")
    add("mc3-linear", mc3, dr, coefs=sl)
    dup = models.load_text(models.text("mc3").replace("[[-0.02],[0.0],[0.03]]", "[[-0.02],[0.03],[0.03]]"))
    dr, sl = affine_dr(dup)
    add("mcdup-affine", dup, dr, coefs=sl)
    nod = models.load_text(models.text("mc", defs=False))
    dr, sl = affine_dr(nod)
    add("nodefs-affine", nod, dr, coefs=sl, defs=False)
    ar1 = models.load_text(models.text("ar1m", style="old"))
    add("ar1-function", ar1, FunctionDR(1))
    dr, sl = affine_dr(ar1)
    add("ar1-affine", ar1, dr, coefs=sl)
    nor = models.load_text(models.text("normal"))
    add("normal-function", nor, FunctionDR(1))
    var = models.load_text(models.text("var1"))
    add("var1-function", var, FunctionDR(2))
    dr, sl = affine_dr(var)
    add("var1-affine", var, dr, coefs=sl)
    mvn = models.load_text(models.text("mvnormal"))
    add("mvnormal-function", mvn, FunctionDR(2))
    wmc = models.load_text(WIDE % WIDE_MC)
    dr, sl = affine_dr(wmc)
    add("wide-mc-affine", wmc, dr, coefs=sl, wide=True)
    wvar = models.load_text(WIDE % WIDE_VAR)
    add("wide-var1-function", wvar, FunctionDR(2, 3), wide=True)
    if solved:
        from dolo.algos.perturbation import perturb
        add("mc3-solved", mc3, time_iteration(mc3, verbose=False))
        add("normal-solved", nor, time_iteration(nor, verbose=False).dr)
        add("normal-perturbed", nor, perturb(nor))
        add("mvnormal-perturbed", mvn, perturb(mvn, verbose=False).dr)
        for e in out.values():
            e.result = e.dr
            if hasattr(e.dr, "dr"):
                e.dr = e.dr.dr
    for e in out.values():
        if not hasattr(e, "result"):
            e.result = e.dr
    return out
