"""C16: time iteration stopped and resumed reaches the same answer as one long run."""
import copy
import json
import os
import tempfile

import numpy as np

from .. import core, models, ops, rng as simrng
from ..interrupt import EXCS, Interrupt

CONFIGS = [["mc3", {}], ["mc3", {"interp_method": "linear"}], ["mc3", {"ignore_constraints": True}], ["mc3", {"with_complementarities": True}], ["mc3", {"dprocess": [4]}], ["mc3", {"start": "affine"}], ["mc3", {"tol": 1e-3}],
           ["normal", {}], ["normal", {"interp_method": "linear"}], ["normal", {"start": "affine", "tol": 1e-4}], ["mvnormal", {}], ["ar1m", {"maxit": 14}], ["ar1m", {"interp_method": "linear", "maxit": 14, "ignore_constraints": True}],
           ["ar1m", {"tol": 1e-4}], ["wide-mc", {"maxit": 14}], ["wide-mc", {"maxit": 8, "interp_method": "linear"}], ["wide-normal", {"maxit": 10}], ["product", {"maxit": 10}], ["var1", {"maxit": 4}], ["egm", {"maxit": 8}], ["constb", {}]]
SLOW = {"wide-mc", "wide-normal", "var1", "egm"}
TRANSPORTS = ["result", "dr", "deepcopy", "copy", "saved", "saved-elsewhere", "trace"]


class Down(BaseException):
    """the process ends"""


def controls(dr, dprocess):
    """values at the nodes of the grid, indexed by exogenous node"""
    nodes = dr.endo_grid.nodes
    return np.array([dr(i, nodes) for i in range(dprocess.n_nodes)])


class C16(core.Check):
    ID = "C16"
    RULE = ("A run cuts one time iteration (model, interpolation, constraints, tolerance, initial rule chosen) into 1 to 8 segments by iteration limits, exceptions in the hook and interrupts at chosen source lines; only the rule returned by the last "
            "completed segment survives, as result, rule, copy, or node values written to a file, and the next segment starts from it, on the same or a freshly loaded model. After every segment the rule must be the one the uninterrupted "
            "run had at that iteration, the report (iterations, error, verdict, trace) must match what was done, and the last segment must converge after the same total number of iterations. Non-trivial when at least one segment was resumed.")
    REAL = ["time iteration, Newton and complementarity solvers, decision rules, grids, processes, models and compiled functions (compiled once per distinct code)"]
    STUBS = ["moment of the stop, through iteration limits, hooks and sys.settrace", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)", "standard output (captured)"]
    RUNS = {"quick": 1500, "thorough": 30000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (configuration, iterations at which the run was cut, transport) combinations"
    ASSUMPTIONS = ["Rounding differences between an uninterrupted and a resumed run stay below 1e-7 of the largest control."]

    def setup(self, tier):
        ops.setup_library()
        self.refs = {}
        for c in CONFIGS:
            self.reference(c)

    def model(self, mod):
        return models.load_text(ops._text(mod))

    def kwargs(self, config, m):
        from dolo.numeric.decision_rule import ConstantDecisionRule  # noqa
        from .. import world
        kw = dict(config[1])
        start = kw.pop("start", None)
        n = kw.pop("dprocess", None)
        kw.pop("maxit", None)
        if n:
            from dolo.numeric.processes import MarkovChain
            r = np.random.RandomState(4)
            P = 0.2 + r.rand(n[0], n[0])
            kw["dprocess"] = MarkovChain(P / P.sum(axis=1)[:, None], np.linspace(-0.03, 0.04, n[0])[:, None])
        dr0 = world.affine_dr(m, "cubic")[0] if start else None
        return kw, dr0

    def reference(self, config):
        """-> controls before each iteration and at the end, converged?, last error"""
        key = json.dumps(config)
        if key not in self.refs:
            from dolo.algos.time_iteration import time_iteration
            with ops.quiet():
                m = self.model(config[0])
                kw, dr0 = self.kwargs(config, m)
                limit = config[1].get("maxit", 500)
                res = time_iteration(m, verbose=False, maxit=limit, dr0=dr0, trace=True, **kw)
                seq = [controls(e["dr"], res.dprocess) for e in res.trace]
                if dr0 is None:
                    x0 = m.calibration["controls"]
                    seq[0] = np.broadcast_to(x0[None, None, :], seq[-1].shape).copy()
                else:
                    seq[0] = controls(dr0, res.dprocess)
            self.refs[key] = seq, bool(res.x_converged), float(res.err)
        return self.refs[key]

    def fixed(self, tier):
        out = []
        for c in CONFIGS:
            n = len(self.reference(c)[0]) - 1
            for t in TRANSPORTS:
                out.append({"config": c, "segments": [{"maxit": max(1, n // 3), "via": t}, {"maxit": 1, "via": t}], "last": True})
            out.append({"config": c, "segments": [{"maxit": 0, "via": "dr"}, {"maxit": 2, "via": "result", "trace": True}, {"maxit": 0, "via": "result"}], "last": True})
            if c[0] not in SLOW:
                out.append({"config": c, "segments": [{"maxit": 1, "via": TRANSPORTS[i % len(TRANSPORTS)]} for i in range(min(8, n))], "last": False})
        return out

    def generate(self, rng, tier):
        c = rng.choice(CONFIGS)
        if c[0] in SLOW and rng.random() < 0.6:
            c = rng.choice(CONFIGS)
        segs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 8])):
            s = {"maxit": rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 13]), "via": rng.choice(TRANSPORTS)}
            if rng.random() < 0.3:
                s["trace"] = True
            if rng.random() < 0.15:
                s["verbose"] = rng.choice([True, "full"])
            if rng.random() < 0.15:
                s["details"] = False
            if rng.random() < 0.2:
                s["fresh"] = True
            r = rng.random()
            if r < 0.2:
                s["down"] = ["hook", rng.randint(1, max(1, s["maxit"]))]
            elif r < 0.4:
                s["down"] = ["line", int(2 ** rng.uniform(3, 12))]
            segs.append(s)
        return {"config": c, "segments": segs, "last": rng.random() < (0.3 if c[0] in SLOW else 0.7)}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("segments",))
        if sc["last"]:
            yield dict(sc, last=False)
        for i, s in enumerate(sc["segments"]):
            for k in ("trace", "verbose", "details", "fresh", "down"):
                if k in s:
                    yield dict(sc, segments=[x if j != i else {a: b for a, b in s.items() if a != k} for j, x in enumerate(sc["segments"])])
            if s["maxit"] > 1:
                yield dict(sc, segments=[x if j != i else dict(s, maxit=s["maxit"] // 2) for j, x in enumerate(sc["segments"])])

    def pack(self, res, via, dprocess, folder):
        """what survives of a result"""
        dr = getattr(res, "dr", res)
        if via == "result":
            return res
        if via == "deepcopy":
            return copy.deepcopy(res)
        if via == "copy":
            return copy.copy(dr)
        if via == "trace" and getattr(res, "trace", None):
            return res.trace[-1]["dr"]
        if via.startswith("saved"):
            path = os.path.join(folder, "rule.npy")
            np.save(path, controls(dr, dprocess))
            return ("saved", path, dr.interp_method, via)
        return dr

    def unpack(self, packed, m, dprocess):
        if isinstance(packed, tuple) and packed[0] == "saved":
            from dolo.numeric.decision_rule import DecisionRule
            _, path, method, via = packed
            grid, dp = m.discretize()
            return DecisionRule(grid["exo"] if dprocess is None else dprocess.grid, grid["endo"], dprocess=dprocess or dp, interp_method=method if via == "saved" else "linear", values=np.load(path))
        return packed

    def run(self, sc, ctx):
        from dolo.algos.time_iteration import time_iteration
        simrng.set_all(3)
        config = sc["config"]
        seq, converged, ref_err = self.reference(config)
        scale = max(1.0, float(abs(seq[-1]).max()))
        n_ref = len(seq) - 1
        limit = config[1].get("maxit")
        folder = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        try:
            with ops.quiet():
                m = self.model(config[0])
                kw, dr0 = self.kwargs(config, m)
                cur, k, resumed, cuts = dr0, 0, 0, []
                segs = list(sc["segments"])
                if sc["last"]:
                    segs.append({"maxit": 500 if limit is None else max(0, limit - 0), "via": "result", "trace": True, "last": True})
                tol = kw.get("tol", 1e-6)
                for i, s in enumerate(segs):
                    if converged and k >= n_ref:
                        break
                    maxit = s["maxit"]
                    if s.get("last"):
                        maxit = n_ref - k if not converged else 500
                    elif not converged:
                        maxit = min(maxit, n_ref - k)
                    if s.get("fresh"):
                        m = self.model(config[0])
                        kw, _ = self.kwargs(config, m)
                    start = self.unpack(cur, m, kw.get("dprocess"))
                    before = controls(getattr(start, "dr", start), kw.get("dprocess") or m.exogenous.discretize()) if start is not None and not hasattr(start, "__no_values__") else None
                    calls = [0]

                    def hook():
                        calls[0] += 1
                        if s.get("down", [None])[0] == "hook" and calls[0] == s["down"][1]:
                            raise Down()
                    what = f"{config}, segment {i} ({s}) of {json.dumps(sc['segments'])} after {k} iterations"
                    it = Interrupt(s["down"][1], Down, (os.path.join(core.REPO, "dolo") + os.sep,)) if s.get("down", [None])[0] == "line" else None
                    a = dict(kw, verbose=s.get("verbose", False), trace=s.get("trace", False), maxit=maxit, hook=hook, details=s.get("details", True))
                    try:
                        if it:
                            with it:
                                res = time_iteration(m, dr0=start, **a)
                        else:
                            res = time_iteration(m, dr0=start, **a)
                    except Down:
                        ctx.fault("down-" + s["down"][0])
                        ctx.ev("down", i, k)
                        if before is not None:
                            d = abs(controls(getattr(start, "dr", start), kw.get("dprocess") or m.exogenous.discretize()) - before).max()
                            if d > 0:
                                raise core.Violation("guess-changed", f"{what}: the initial rule was changed by {d} in the stopped run")
                        continue
                    except Exception as e:
                        raise core.Violation("fails", f"{what}: raised {e!r}")
                    n = min(maxit, n_ref - k)
                    dr = getattr(res, "dr", res)
                    dp = kw.get("dprocess") or m.exogenous.discretize()
                    got = controls(dr, dp)
                    # iteration for iteration
                    if calls[0] != n and not (converged and calls[0] in (n - 1, n + 1) and abs(ref_err / tol - 1) < 1e-3):
                        raise core.Violation("iterations", f"{what}: {calls[0]} iterations were done, {n} expected (limit {maxit}, the uninterrupted run ends after {n_ref})")
                    n = calls[0]
                    if n > maxit:
                        raise core.Violation("limit", f"{what}: {n} iterations for a limit of {maxit}")
                    self.same(got, seq[min(k + n, n_ref)], scale, "sequence", f"{what}: the rule differs from that of the uninterrupted run at iteration {k + n}")
                    if before is not None:
                        d = abs(controls(getattr(start, "dr", start), dp) - before).max()
                        if d > 0:
                            raise core.Violation("guess-changed", f"{what}: the initial rule was changed by {d}")
                    if s.get("details", True):
                        if res.iterations != n:
                            raise core.Violation("report", f"{what}: {res.iterations} iterations are reported, {n} were done")
                        err = float(abs(got - (seq[k + n - 1])).max()) if n else None
                        if err is not None and abs(res.err - err) > 1e-6 * scale * 0.1 + 1e-6 * err:
                            raise core.Violation("report", f"{what}: the reported error is {res.err}, the last step was {err}")
                        end = converged and k + n >= n_ref
                        if n and bool(res.x_converged) != (res.err < tol) or bool(res.x_converged) != end and not (n and abs(res.err / tol - 1) < 1e-3):
                            raise core.Violation("verdict", f"{what}: x_converged={res.x_converged} after {k + n} iterations, last step {err}, tolerance {tol}; the uninterrupted run converges: {converged}, after {n_ref}")
                        if res.x_tol != tol:
                            raise core.Violation("report", f"{what}: tolerance {res.x_tol} is reported")
                        if s.get("trace"):
                            if len(res.trace) != n + 1:
                                raise core.Violation("trace", f"{what}: {len(res.trace)} entries are recorded for {n} iterations")
                            for j, e in enumerate(res.trace):
                                self.same(controls(e["dr"], dp), seq[min(k + j, n_ref)], scale, "trace", f"{what}: entry {j} of the trace differs from the rule of iteration {k + j}")
                        elif res.trace is not None:
                            raise core.Violation("trace", f"{what}: a trace was recorded")
                    k += n
                    resumed += i > 0 and k > n
                    cuts.append(k)
                    ctx.ev("segment", i, n, k)
                    if n or cur is None:
                        cur = self.pack(res, s["via"], dp, folder)
                        ctx.fault("resume-" + s["via"])
                ctx.nontrivial = resumed > 0
                ctx.state((json.dumps(config), tuple(cuts), tuple(s["via"] for s in segs)))
        finally:
            for f in os.listdir(folder):
                os.unlink(os.path.join(folder, f))
            os.rmdir(folder)

    def same(self, a, b, scale, kind, msg):
        d = abs(a - b).max() if a.shape == b.shape else float("nan")
        if not d <= 1e-7 * scale:
            raise core.Violation(kind, f"{msg}, by {d}")


CHECK = C16()
