"""C26: first-order solutions solve the linearised model, steady states solve the model, whatever was computed before."""
import json
import warnings

import numpy as np

from .. import core, models, ops, rng as simrng
from ..canon import canon, diff
from ..interrupt import Interrupt
from .c23 import FISCAL, GROWTH, RBC, Fiscal, Growth, Rbc, Spoiled

LINEAR = """name: linear

symbols:
    exogenous: [e, d]
    states: [k, q]
    controls: [x, y]
    parameters: [a, b, r, u, w]

equations:

    arbitrage:
        - a*x[t+1] + k[t] + 0.3*d[t] - x[t]
        - b*y[t+1] + 0.2*x[t] - 0.4*q[t] + 0.1*k[t+1] - y[t]

    transition:
        - k[t] = r*k[t-1] - u*q[t-1] + w*y[t-1] + e[t]
        - q[t] = u*k[t-1] + r*q[t-1] + 0.5*e[t] + 0.25*d[t-1] + 0.1*d[t]

calibration:
    a: 0.5
    b: 0.4
    r: 0.6
    u: 0.2
    w: 0.1
    e: 0.0
    d: 0.0
    k: 0.0
    q: 0.0
    x: 0.0
    y: 0.0

exogenous: %s
"""
N2 = "!Normal\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"
VAR2 = "!VAR1\n    rho: 0.7\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"
VARD = "!VAR1\n    rho: [0.7, 0.3]\n    Sigma: [[0.0004, 0.0],[0.0, 0.0002]]\n"


class Linear:
    exo, states, controls = ["e", "d"], ["k", "q"], ["x", "y"]
    params = {"a": [-0.6, 1.6], "b": [0.2, 0.8], "r": [0.0, 1.05], "u": [-0.9, 0.9], "w": [0.0, 0.4]}

    @staticmethod
    def transition(m, s, x, M, p):
        return np.stack([p["r"] * s[:, 0] - p["u"] * s[:, 1] + p["w"] * x[:, 1] + M[:, 0], p["u"] * s[:, 0] + p["r"] * s[:, 1] + 0.5 * M[:, 0] + 0.25 * m[:, 1] + 0.1 * M[:, 1]], axis=1)

    @staticmethod
    def arbitrage(m, s, x, M, S, X, p):
        return np.stack([p["a"] * X[:, 0] + s[:, 0] + 0.3 * m[:, 1] - x[:, 0], p["b"] * X[:, 1] + 0.2 * x[:, 0] - 0.4 * s[:, 1] + 0.1 * S[:, 0] - x[:, 1]], axis=1)


class Tiny:
    exo, states, controls = ["z"], ["k"], ["i"]
    params = {"beta": [0.85, 0.95], "sigma": [1.0, 3.0], "delta": [0.05, 0.2], "alpha": [0.25, 0.4]}

    @staticmethod
    def transition(m, s, x, M, p):
        return ((1 - p["delta"]) * s[:, 0] + x[:, 0] + 0.05 * m[:, 0] + 0.2 * M[:, 0])[:, None]

    @staticmethod
    def arbitrage(m, s, x, M, S, X, p):
        c, C = np.exp(m[:, 0]) * s[:, 0] ** p["alpha"] - x[:, 0], np.exp(M[:, 0]) * S[:, 0] ** p["alpha"] - X[:, 0]
        return (1 - p["beta"] * (c / C) ** p["sigma"] * (1 - p["delta"] + p["alpha"] * np.exp(M[:, 0]) * S[:, 0] ** (p["alpha"] - 1)))[:, None]


class Grow(Growth):
    params = {k: v for k, v in Growth.params.items() if k not in ("ilb", "iub")}


def growth(block):
    return GROWTH[:GROWTH.index("exogenous: !Normal")] + "exogenous: " + block


SPECS = {
    "linear": (LINEAR % N2, Linear, None), "linear-var": (LINEAR % VAR2, Linear, [[0.7, 0.0], [0.0, 0.7]]), "linear-vard": (LINEAR % VARD, Linear, [[0.7, 0.0], [0.0, 0.3]]),
    "tiny": (models.text("normal"), Tiny, None), "growth": (GROWTH, Grow, None), "growth-var": (growth(VAR2), Grow, [[0.7, 0.0], [0.0, 0.7]]), "growth-vard": (growth(VARD), Grow, [[0.7, 0.0], [0.0, 0.3]]),
    "rbc": (RBC, Rbc, None), "fiscal": (FISCAL, Fiscal, None),
}


def jacobian(f, v, n):
    """derivative of a vectorised function at v, by central differences (Richardson)"""
    out = []
    for j in range(n):
        d = []
        for h in (1e-4, 5e-5):
            up, lo = v.copy(), v.copy()
            up[j] += h
            lo[j] -= h
            d.append((f(up) - f(lo)) / (2 * h))
        out.append((4 * d[1] - d[0]) / 3)
    return np.array(out).T


class Lin:
    """the model linearised at a point; exogenous variables are states when they are autocorrelated"""

    def __init__(self, S, R, m, s, x, p):
        nm, ns, nx = len(m), len(s), len(x)
        g = lambda v: S.transition(v[None, :nm], v[None, nm:nm + ns], v[None, nm + ns:nm + ns + nx], v[None, nm + ns + nx:], p)[0]
        G = jacobian(g, np.concatenate([m, s, x, m]), nm + ns + nx + nm)
        k = nm + ns + nx
        f = lambda v: S.arbitrage(v[None, :nm], v[None, nm:nm + ns], v[None, nm + ns:k], v[None, k:k + nm], v[None, k + nm:k + nm + ns], v[None, k + nm + ns:], p)[0]
        F = jacobian(f, np.concatenate([m, s, x, m, s, x]), 2 * k)
        gm, gs, gx, gM = G[:, :nm], G[:, nm:nm + ns], G[:, nm + ns:k], G[:, k:]
        fm, fs, fx, fM, fS, fX = F[:, :nm], F[:, nm:nm + ns], F[:, nm + ns:k], F[:, k:k + nm], F[:, k + nm:k + nm + ns], F[:, k + nm + ns:]
        if R is None:
            self.Gs, self.Gx, self.Fs, self.Fx, self.FS, self.FX = gs, gx, fs, fx, fS, fX
        else:
            R = np.array(R)
            self.Gs = np.block([[R, np.zeros((nm, ns))], [gm + gM @ R, gs]])
            self.Gx = np.vstack([np.zeros((nm, nx)), gx])
            self.Fs, self.Fx, self.FS, self.FX = np.hstack([fm, fs]), fx, np.hstack([fM, fS]), fX
        self.n = self.Gs.shape[0]
        import scipy.linalg
        n, nx = self.n, nx
        A = np.block([[np.eye(n), np.zeros((n, nx))], [-self.FS, -self.FX]])
        B = np.block([[self.Gs, self.Gx], [self.Fs, self.Fx]])
        al, be = scipy.linalg.eig(B, A, right=False, homogeneous_eigvals=True)
        with np.errstate(all="ignore"):
            self.roots = np.sort(np.abs(al) / np.abs(be))  # of the law of motion
        self.roots[np.isnan(self.roots)] = np.inf

    def verdict(self):
        """True: one stable solution; False: none or many; None: too close to call"""
        r = self.roots
        if (np.abs(r - 1) < 1e-5).any() or (np.abs(r) < 1e-9).sum() > 2:
            return None
        return bool((r < 1).sum() == self.n)


class C26(core.Check):
    ID = "C26"
    RULE = ("A run is a history on one of nine models (linear ones with real or complex, stable, explosive or indeterminate roots; growth, business cycle, fiscal; shocks i.i.d. or autoregressive) of calibration changes, perturbations (at the calibration, at a computed steady state, at the steady state for other exogenous values; with or without details), "
            "steady states, residuals, evaluations of rules, changes by the user of arrays in results, the same on another model in between, and computations that are stopped by an interrupt, a memory error or a failing evaluation. Rules must satisfy the model linearised by hand at the point asked for and be stable; models without one stable solution must be refused, "
            "models with one must not; roots reported are those of the linearised model. Steady states and residuals are compared with equations written by hand. Earlier results keep their values. Non-trivial when something had happened on the model before.")
    REAL = ["perturbation, ordered generalised Schur decomposition, steady state and residuals, compiled model functions and their derivatives (compiled once per distinct code), calibration"]
    STUBS = ["moment of interrupts (sys.settrace), failing evaluations of the model", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 3000, "thorough": 60000}
    SOFT_S = {"quick": 60, "thorough": 900}
    STATE_MEASURE = "distinct (model, parameters, point of linearisation) combinations"
    ASSUMPTIONS = ["Models with a root within 1e-5 of the unit circle are not judged on whether they are accepted."]

    def setup(self, tier):
        ops.setup_library()
        from dolo.algos.perturbation import perturb
        for k in SPECS:
            with ops.quiet():
                try:
                    perturb(self.load(k), verbose=False)
                except Exception:
                    pass

    def load(self, k):
        return models.load_text(SPECS[k][0])

    def fixed(self, tier):
        out = []
        for k in SPECS:
            base = [{"do": "perturb"}, {"do": "perturb", "details": False}, {"do": "perturb", "at": "steady"}, {"do": "steady"}, {"do": "residuals"}, {"do": "eval"}, {"do": "perturb", "at": "shifted"}, {"do": "eval"}]
            for b in base:
                out.append({"model": k, "steps": [b]})
            out.append({"model": k, "steps": base})
            par = SPECS[k][1].params
            for name in sorted(par):
                for v in par[name]:
                    out.append({"model": k, "steps": [{"do": "perturb"}, {"do": "set", "values": {name: v}}, {"do": "perturb"}, {"do": "eval"}, {"do": "steady"}]})
            for fault in (["raise", 1], ["raise", 2], ["nan", 1], ["nan", 2], ["interrupt", 30], ["memory", 60]):
                out.append({"model": k, "steps": [{"do": "perturb", "fault": fault}, {"do": "perturb"}, {"do": "steady", "fault": fault}, {"do": "steady"}]})
        for r, u in ((0.6, 0.6), (0.3, 0.8), (0.1, 0.9), (0.8, 0.8), (0.0, 0.9), (0.5, -0.5), (1.05, 0.0)):
            for k in ("linear", "linear-var", "linear-vard"):
                for a in (0.5, 0.9, 1.6, -0.6):
                    out.append({"model": k, "steps": [{"do": "set", "values": {"r": r, "u": u, "a": a}}, {"do": "perturb"}, {"do": "set", "values": {"w": 0.0}}, {"do": "perturb"}]})
        return out

    def generate(self, rng, tier):
        k = rng.choice(list(SPECS) + ["linear", "linear-var"])
        par = SPECS[k][1].params
        steps = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            if rng.random() < 0.5:
                v = {}
                for name in rng.sample(sorted(par), rng.choice([1, 1, 2, 3]) if len(par) > 2 else 1):
                    lo, hi = par[name]
                    v[name] = rng.choice([lo, hi, round(rng.uniform(min(lo, hi), max(lo, hi)), 3)])
                steps.append({"do": "set", "values": v})
            st = {"do": rng.choice(["perturb", "perturb", "perturb", "steady", "steady", "residuals", "eval", "modify", "other"])}
            if st["do"] == "other":
                st["model"] = rng.choice([x for x in SPECS if x != k])
            if st["do"] == "perturb":
                if rng.random() < 0.35:
                    st["at"] = rng.choice(["steady", "shifted"])
                for key, val, pr in (("details", False, 0.3), ("verbose", True, 0.2)):
                    if rng.random() < pr:
                        st[key] = val
            if st["do"] == "steady" and rng.random() < 0.4:
                st["m"] = rng.choice([0.02, -0.02, 0.05])
            if st["do"] == "residuals" and rng.random() < 0.5:
                st["calib"] = rng.choice([1.02, 0.97])
            if st["do"] in ("perturb", "steady", "residuals") and rng.random() < 0.3:
                f = rng.choice(["raise", "nan", "interrupt", "memory"])
                st["fault"] = [f, rng.randint(1, 6) if f in ("raise", "nan") else int(2 ** rng.uniform(0, 8))]
            steps.append(st)
        return {"model": k, "steps": steps}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("steps",))
        for i, s in enumerate(sc["steps"]):
            for key in list(s):
                if key not in ("do", "values", "model"):
                    yield dict(sc, steps=[x if j != i else {a: b for a, b in s.items() if a != key} for j, x in enumerate(sc["steps"])])

    # ------------------------------------------------------------------ parts
    def point(self, calib, p):
        return [np.array(calib[g], dtype=float) for g in ("exogenous", "states", "controls")]

    def params(self, m):
        return {a: float(m.calibration[a]) for a in m.symbols["parameters"]}

    def static(self, S, m, s, x, p):
        return np.concatenate([(S.transition(m[None], s[None], x[None], m[None], p)[0] - s), S.arbitrage(m[None], s[None], x[None], m[None], s[None], x[None], p)[0]])

    def call(self, m, S, st, p):
        from dolo.algos.perturbation import perturb
        from dolo.algos.steady_state import find_steady_state, residuals
        if st["do"] == "perturb":
            kw = {"verbose": st.get("verbose", False)}
            if "details" in st:
                kw["details"] = st["details"]
            at = m.calibration
            if st.get("at"):
                mm = np.array(m.calibration["exogenous"], dtype=float) + (0.02 if st["at"] == "shifted" else 0.0)
                at = kw["steady_state"] = find_steady_state(m, m=mm)
            return perturb(m, **kw), at
        if st["do"] == "steady":
            mm = np.array(m.calibration["exogenous"], dtype=float)
            if "m" in st:
                mm = mm + st["m"]
                keep = mm.copy()
                r = find_steady_state(m, m=mm)
                if not np.array_equal(mm, keep):
                    raise core.Violation("arguments-changed", "exogenous values given to find_steady_state were modified")
                return r, mm
            return find_steady_state(m), mm
        if "calib" in st:
            c = {g: np.array(m.calibration[g], dtype=float) * (st["calib"] if g != "parameters" else 1.0) for g in ("exogenous", "states", "controls", "parameters")}
            return residuals(m, c), c
        return residuals(m), m.calibration

    def judge(self, m, S, st, out, p, what, ctx, keep, R):
        res, at = out
        if st["do"] == "steady":
            mm, s, x = self.point(res, p)
            if np.abs(mm - at).max() > 1e-12:
                raise core.Violation("steady-state", f"{what}: exogenous values {mm.tolist()} were not asked for")
            d = np.abs(self.static(S, mm, s, x, p))
            if not d.max() <= 1e-6:
                raise core.Violation("steady-state", f"{what}: states {s.tolist()} and controls {x.tolist()} do not satisfy the equations: {d.tolist()}")
            if [float(v) for v in res["parameters"]] != list(p.values()):
                raise core.Violation("steady-state", f"{what}: parameters of the steady state are not those of the model")
            return
        if st["do"] == "residuals":
            mm, s, x = self.point(at, p)
            with np.errstate(all="ignore"):
                ref = self.static(S, mm, s, x, p)
            got = np.concatenate([np.array(res["transition"], dtype=float), np.array(res["arbitrage"], dtype=float)])
            if not np.allclose(got, ref, rtol=1e-9, atol=1e-10, equal_nan=True):
                raise core.Violation("residuals", f"{what}: residuals {got.tolist()}; by hand {ref.tolist()}")
            return
        mm, s, x = self.point(at, p)
        L = Lin(S, R, mm, s, x, p)
        dr = res if st.get("details") is False else res.dr
        if L.verdict() is False:
            raise core.Violation("stability", f"{what}: a rule is returned, but the roots of the linearised model are {L.roots.tolist()} for {L.n} states")
        C = np.array(dr.C_s, dtype=float)
        if R is not None:
            C = np.hstack([np.array(dr.C_m, dtype=float), C])
        if not np.isfinite(C).all():
            raise core.Violation("not-finite", f"{what}: the rule is not finite")
        P = L.Gs + L.Gx @ C
        e = L.Fs + L.Fx @ C + (L.FS + L.FX @ C) @ P
        scale = 1 + max(np.abs(L.Fs).max(), np.abs(L.Fx).max(), np.abs(L.FS).max(), np.abs(L.FX).max()) * (1 + np.abs(C).max()) * (1 + np.abs(P).max())
        if not np.abs(e).max() <= 1e-6 * scale:
            raise core.Violation("linearised", f"{what}: responses {C.tolist()} leave {e.tolist()} in the linearised equations")
        r = np.abs(np.linalg.eigvals(P)).max()
        if not r <= 1 + 1e-4:
            raise core.Violation("stability", f"{what}: with the rule returned the states move with root {r}")
        for a, b, w in ((dr.s_bar, s, "states"), (dr.x_bar, x, "controls"), (dr.m_bar, mm, "exogenous")):
            if not np.array_equal(np.array(a, dtype=float), b):
                raise core.Violation("point", f"{what}: the rule is taken at {w} {np.array(a).tolist()}, not at {b.tolist()}")
        if st.get("details") is not False:
            ev = np.sort(np.array(res.generalized_eigenvalues, dtype=float))
            with np.errstate(all="ignore"):
                ref = np.sort(1 / L.roots)
            ok = (np.abs(ev - ref) <= 1e-5 * (1 + np.abs(ref) ** 2)) | (ev > 1e6) & (ref > 1e6)
            if len(ev) != len(ref) or not ok.all():
                raise core.Violation("roots", f"{what}: eigenvalues {ev.tolist()} are reported; those of the linearised model are {ref.tolist()}")
            if not (res.stable and res.determined and res.unique):
                raise core.Violation("roots", f"{what}: the solution is said not to be stable or unique, but it is")
        keep.append({"dr": dr, "C": C, "at": (mm, s, x), "model": m, "touched": False})
        ctx.state((json.dumps(p), st.get("at"), st["do"]))

    def evaluate(self, S, keep, what, R):
        for q in keep:
            if q["touched"]:
                continue
            dr, (mm, s, x) = q["dr"], q["at"]
            n = len(s)
            pts = s[None, :] + 0.1 * np.arange(-2, 3)[:, None] * (1 + np.arange(n)[None, :])
            ms = mm[None, :] + 0.01 * np.arange(5)[:, None]
            d = (np.hstack([ms - mm, pts - s]) if R is not None else pts - s) @ q["C"].T + x
            got = [np.asarray(dr.eval_ms(ms, pts)), np.array([dr.eval_ms(ms[i], pts[i]) for i in range(5)]), np.asarray(dr(ms, pts)), np.array([dr(ms[i], pts[i]) for i in range(5)])]
            if R is None:
                got += [np.asarray(dr.eval_s(pts)), np.array([dr.eval_s(v) for v in pts]), np.asarray(dr(pts)), np.array([dr(v) for v in pts])]
            for j, g in enumerate(got):
                if g.shape != d.shape or not np.allclose(g, d, rtol=1e-12, atol=1e-13):
                    raise core.Violation("evaluation", f"{what}: a rule evaluated (form {j}) gives {g.tolist()}; its responses give {d.tolist()}")

    def values(self, m):
        return {g: np.array(m.calibration[g], dtype=float).tolist() for g in ("exogenous", "states", "controls", "parameters")}

    def run(self, sc, ctx):
        simrng.set_all(1)
        _, S, R = SPECS[sc["model"]]
        used, keep = False, []
        with ops.quiet():
            m = self.load(sc["model"])
            for n, st in enumerate(sc["steps"]):
                what = f"{sc['model']}, step {n}: {json.dumps(st)}"
                if st["do"] == "set":
                    try:
                        m.set_calibration(**st["values"])
                    except Exception as e:
                        raise core.Violation("calibration-fails", f"{what}: raised {e!r}")
                    ctx.ev("set", json.dumps(st["values"]))
                    continue
                if st["do"] == "other":
                    _, S2, R2 = SPECS[st["model"]]
                    o = self.load(st["model"])
                    self.judge(o, S2, {"do": "perturb"}, self.call(o, S2, {"do": "perturb"}, self.params(o)), self.params(o), what, ctx, [], R2)
                    ctx.ev("other", st["model"])
                    used = True
                    continue
                if st["do"] == "eval":
                    self.evaluate(S, keep, what, R)
                    continue
                if st["do"] == "modify":  # the user changes arrays of a result
                    for q in keep[-1:]:
                        if not q["touched"]:
                            q["touched"] = True
                            q["dr"].C_s[...] *= 2.0
                    continue
                self.step(m, S, R, st, what, ctx, keep, used)
                used = True
            self.evaluate(S, keep, sc["model"] + ", at the end", R)

    def step(self, m, S, R, st, what, ctx, keep, used):
        snap, fault, fired, p = self.values(m), st.get("fault"), False, self.params(m)
        err = out = None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if fault and fault[0] in ("raise", "nan"):
                    with Spoiled(m, *fault) as sp:
                        try:
                            out = self.call(m, S, st, p)
                        finally:
                            fired = sp.fired
                elif fault:
                    inj = Interrupt(fault[1], fault[0])
                    try:
                        with inj:
                            out = self.call(m, S, st, p)
                    finally:
                        fired = inj.fired
                else:
                    out = self.call(m, S, st, p)
            except core.Violation:
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
        warned = any("steady-state was not found" in str(x.message) for x in w)
        d = diff(canon(self.values(m)), canon(snap))
        if d:
            raise core.Violation("model-changed", f"{what}: {d}")
        if fired:
            ctx.fault(fault[0])
            ctx.ev("stopped" if err is not None else "in-spite", fault[0])
            return
        if err is not None:
            ctx.ev("raises", type(err).__name__)
            if st["do"] != "perturb" or isinstance(err, (TypeError, AttributeError, KeyError, NameError, IndexError, ValueError)):
                raise core.Violation("fails", f"{what}: raised {err!r}")
            if st.get("at") != "shifted":
                L = Lin(S, R, *self.point(m.calibration, p), p)
                if L.verdict():
                    raise core.Violation("refused", f"{what}: raised {err!r}, but the roots of the linearised model are {L.roots.tolist()} for {L.n} states")
                ctx.probe("refused")
                ctx.nontrivial = ctx.nontrivial or used
            return
        if warned:
            ctx.ev("warned")
            ctx.probe("warned")
            return
        self.judge(m, S, st, out, p, what, ctx, keep, R)
        ctx.nontrivial = ctx.nontrivial or used
        ctx.ev("ok", st["do"])


CHECK = C26()
