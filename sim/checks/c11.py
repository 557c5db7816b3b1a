"""C11: a recalibrated model always equals a fresh model with that calibration."""
import copy
import io
import itertools
import json
import re
import warnings

import numpy as np

from .. import core, env, models, rng as simrng
from ..canon import canon, diff, flat_digest, values_of
from ..interrupt import Interrupt

VARIANTS = {
    "mc": lambda: models.text("mc"),
    "mc-old": lambda: models.text("mc3", style="old"),
    "ar1": lambda: models.text("ar1"),
    "ar1m-old": lambda: models.text("ar1m", style="old"),
    "normal": lambda: models.text("normal"),
    "mvnormal-nodefs": lambda: models.text("mvnormal", defs=False),
    "var1": lambda: models.text("var1"),
    "product": lambda: models.text("product"),
    "mc-params": lambda: models.text("mc").replace("[[-0.02],[0.03]]", "[[-sig_z],[sig_z*2]]").replace("[0.8, 0.2]", "[rho, 1-rho]"),
    "domain-params": lambda: models.text("normal", extra="").replace("[k*0.4, k*1.8]", "[k*(1-rho/2), k*(1+alpha)]"),
    "nonuniform": lambda: models.text("mc").replace("grid: !Cartesian\n        orders: [8]", "grid: !NonUniformCartesian\n        - [k*0.3, k*0.6, k, k*1.5, k*1.9]"),
    "chained": lambda: models.text("ar1").replace("delta: 0.1\n    alpha", "delta: rho/8\n    alpha").replace("sig_z: 0.0004", "sig_z: beta*0.0005"),
    "product-list": lambda: models.text("product").replace("exogenous:\n    z: !UNormal\n        sigma: 0.02\n    p: !AR1\n        rho: rho\n        sigma: sig_z", "exogenous:\n    z: !UNormal\n        sigma: sig_z*50\n    p: !AR1\n        rho: rho\n        sigma: sig_z"),
    "smolyak": lambda: models.text("normal").replace("grid: !Cartesian\n        orders: [8]", "grid: !Smolyak\n        mu: 2"),
}
NAMES = ["beta", "sigma", "delta", "alpha", "rho", "sig_z", "shift", "z", "k", "i", "rk", "y"]
READS = ["calibration", "calibration", "domain", "exogenous", "endo_grid", "discretize", "residuals", "functions", "bounds", "get_calibration", "str", "html", "symbols",
         "equations", "definitions", "variables", "eval_formula"]
WORK = ["solve", "simulate", "steady-state", "perturb", "tabulate", "perfect-foresight"]


def value_for(rng, name):
    if rng.random() < 0.12:
        return rng.choice(["1/1.05", "0.3*2", "0.5", "2.0^(-3)", "exp(-1)"])
    base = {"beta": 0.95, "sigma": 2.0, "delta": 0.08, "alpha": 0.35, "rho": 0.7, "sig_z": 0.0005, "shift": 0.01, "z": 0.01, "k": 2.0, "i": 0.2, "rk": 0.2, "y": 1.0}.get(name, 1.0)
    v = base * rng.choice([1.0, 0.9, 1.1, 0.97, rng.uniform(0.8, 1.2)])
    if name == "sigma" and rng.random() < 0.4:
        return rng.choice([1, 2, 3])
    if name in ("shift", "z") and rng.random() < 0.4:
        return rng.choice([0.0, 0, -0.01, 1e-12])
    return v


def describe_process(p):
    if isinstance(p, dict) and not p:
        return ("none",)
    return canon(p)


def describe_dp(dp):
    n = dp.n_nodes
    return ("dp", type(dp).__name__, n, tuple(canon(np.array(dp.node(i))) for i in range(n)),
            tuple(canon(np.array(dp.inode(i, j))) for i in range(n) for j in range(dp.n_inodes(i))),
            tuple(float(dp.iweight(i, j)) for i in range(n) for j in range(dp.n_inodes(i))))


def read(m, what):
    """one report of a model as a canonical value"""
    if what == "calibration":
        c = m.calibration
        return canon(c), tuple(float(c[k]) for g in m.symbols for k in m.symbols[g])
    if what == "get_calibration":
        return canon({k: float(v) for k, v in m.get_calibration().items()})
    if what == "domain":
        d = m.domain
        return ("domain", tuple(d.states), np.array(d.min), np.array(d.max))
    if what == "exogenous":
        return describe_process(m.exogenous)
    if what == "endo_grid":
        g = m.endo_grid
        return (type(g).__name__, np.array(g.nodes))
    if what == "discretize":
        grid, dp = m.discretize()
        return ("disc", describe_dp(dp), np.array(grid["endo"].nodes), canon(grid["exo"]))
    if what == "residuals":
        return canon(m.residuals())
    if what == "functions":
        c = m.calibration
        a = {"m": c["exogenous"], "s": c["states"], "x": c["controls"], "p": c["parameters"]}
        f = m.functions
        out = [("g", np.array(f["transition"](a["m"], a["s"], a["x"], a["m"], a["p"]))), ("f", np.array(f["arbitrage"](a["m"], a["s"], a["x"], a["m"], a["s"], a["x"], a["p"])))]
        if "auxiliary" in f:
            out.append(("a", np.array(f["auxiliary"](a["m"], a["s"], a["x"], a["p"]))))
        return tuple(out) + (tuple(sorted(f.keys())),)
    if what == "bounds":
        b = m.x_bounds
        c = m.calibration
        return None if b is None else tuple(np.array(f(c["exogenous"], c["states"], c["parameters"])) for f in b)
    if what == "str":
        return str(m)
    if what == "html":
        return m._repr_html_()
    if what == "eval_formula":
        return float(m.eval_formula("beta + 2*alpha*k"))
    if what in ("symbols", "equations", "definitions"):
        return canon(dict(getattr(m, what)))
    if what == "variables":
        return canon(list(m.variables))
    with env.Consoles(io.StringIO()):
        if what == "solve":
            from dolo.algos.time_iteration import time_iteration
            r = time_iteration(m, verbose=False, maxit=4)
            return ("sol", values_of(r.dr), r.iterations, float(r.err))
        if what == "simulate":
            from dolo.algos.simulations import simulate
            from dolo.numeric.decision_rule import ConstantDecisionRule
            from dolo.numeric.processes import DiscreteProcess
            dr = ConstantDecisionRule(np.array(m.calibration["controls"]))
            p = m.exogenous
            if isinstance(p, DiscreteProcess):
                return canon(simulate(m, dr, N=2, T=5, i0=0))
            return canon(simulate(m, dr, N=2, T=5, driving_process=np.zeros((5, 2, len(m.symbols["exogenous"]))) + 0.01))
        if what == "steady-state":
            from dolo.algos.steady_state import find_steady_state
            return canon(find_steady_state(m))
        if what == "perturb":
            from dolo.algos.perturbation import perturb
            dr = perturb(m, verbose=False).dr
            return tuple(np.array(v) for v in (dr.C_m, dr.C_s, dr.x_bar)) if hasattr(dr, "C_m") else canon(dr)
        if what == "tabulate":
            from dolo.algos.simulations import tabulate
            from dolo.numeric.decision_rule import ConstantDecisionRule
            return canon(tabulate(m, ConstantDecisionRule(np.array(m.calibration["controls"])), "k", n_steps=4, m0=m.calibration["exogenous"]))
        if what == "perfect-foresight":
            from dolo.algos.perfect_foresight import deterministic_solve
            return canon(deterministic_solve(m, np.full((4, len(m.symbols["exogenous"])), 0.01), T=8, verbose=False))
    raise Exception(what)


def outcome(m, what):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("ok", read(m, what))
    except Exception as e:
        return ("raises",)  # the kind of error may depend on where a text came from


class C11(core.Check):
    ID = "C11"
    RULE = ("A run is a history on one model object (and copies of it): updates (by keywords, by dictionary, of several values, with formulas, of new names, refused ones), reads, "
            "solves, simulations, and any of these stopped by an interrupt, memory error or hook exception at a chosen source line. After every update and at the end what the model "
            "reports is compared with a newly loaded model whose text has the same values. Non-trivial when an update changed a value.")
    REAL = ["Model and its readers, importer, processes, discretizations, solvers, compiled model functions (compiled once per distinct code)", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)"]
    STUBS = ["sys.settrace raises exceptions between source lines", "console"]
    RUNS = {"quick": 2500, "thorough": 50000}
    SOFT_S = {"quick": 45, "thorough": 900}
    SHRINK_S = 40
    STATE_MEASURE = "distinct (variant, previous operations, report compared) combinations"
    ASSUMPTIONS = ["An update stopped midway may have stored any subset of its values; with the values it stored the model must be consistent.",
                   "Exceptions are injected before source lines of dolo and dolang, not inside finally blocks or at the exit of a with statement."]

    def setup(self, tier):
        import dolo  # noqa
        self.memo = models.memo_compile()
        self.memo.__enter__()
        models.memo_parse().__enter__()
        self.texts = {v: f() for v, f in VARIANTS.items()}
        from dolo.compiler.model import Model
        self.fresh, self.reports = {}, {}
        for v in self.texts:
            m = models.load_text(self.texts[v])
            for w in ["calibration"] + (["solve", "simulate", "perturb", "perfect-foresight", "steady-state", "tabulate"] if v in ("mc", "normal", "ar1", "var1", "nonuniform") else []):
                outcome(m, w)

    def fixed(self, tier):
        out = []
        for v in self.texts:
            out.append({"variant": v, "ops": [{"op": "set", "how": "kw", "vals": {"beta": 0.93, "alpha": 0.3}}, {"op": "check", "whats": ["calibration", "domain", "exogenous", "endo_grid", "discretize"]},
                                              {"op": "set", "how": "dict", "vals": {"rho": 0.6, "sig_z": 0.001}}, {"op": "check", "whats": ["calibration", "domain", "exogenous", "endo_grid", "residuals", "functions"]}]})
            for n in ("rk", "y", "newname"):
                out.append({"variant": v, "ops": [{"op": "set", "how": "kw", "vals": {n: 0.2}}, {"op": "check", "whats": ["calibration", "get_calibration", "domain"]}]})
        for frac in [i / 24 for i in range(24)]:
            for how in ("kw", "dict", "both"):
                out.append({"variant": "ar1", "ops": [{"op": "read", "what": "exogenous"}, {"op": "cut", "frac": frac, "exc": "interrupt",
                                                       "inner": {"op": "set", "how": how, "vals": {"beta": 0.9, "rho": 0.5, "newname": 1.0}}}]})
        for what in ("calibration", "exogenous", "domain", "endo_grid", "residuals"):
            for frac in (0.1, 0.3, 0.5, 0.7, 0.9, 0.99):
                out.append({"variant": "product", "ops": [{"op": "set", "how": "kw", "vals": {"rho": 0.6}}, {"op": "cut", "frac": frac, "exc": "memory", "inner": {"op": "read", "what": what}}]})
        return out

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.randint(2, 9)):
            ops.append(self.gen_op(rng, True))
        return {"variant": rng.choice(list(self.texts)), "ops": ops}

    def gen_op(self, rng, cut):
        x = rng.random()
        if cut and x < 0.22:
            return {"op": "cut", "frac": rng.random() if rng.random() < 0.7 else rng.choice([0.0, 0.999, 0.99]), "exc": rng.choice(["interrupt", "memory", "recursion"]), "inner": self.gen_op(rng, False)}
        if x < 0.55:
            names = rng.sample(NAMES, rng.choice([1, 1, 2, 3])) if rng.random() < 0.93 else ["newname"]
            return {"op": "set", "how": rng.choice(["kw", "kw", "dict", "both"]), "vals": {n: value_for(rng, n) for n in names}}
        if x < 0.58:
            return {"op": "bad-set", "vals": rng.choice([{"beta": {"object": 1}}, {"alpha": 0.31, "beta": None}, {"sigma": [1, 2]}]) if rng.random() < 0.6 else {"beta": rng.choice(["1 +", "unknown_thing*2", "alpha*"])}}
        if x < 0.78:
            return {"op": "read", "what": rng.choice(READS)}
        if x < 0.93:
            return {"op": "read", "what": rng.choice(WORK)}
        if x < 0.97:
            return {"op": "fork"}
        return {"op": "hook-stop"}

    def fresh_report(self, variant, cal, what):
        key = (variant, tuple(sorted((k, repr(v)) for k, v in cal.items())), what)
        if key not in self.reports:
            if len(self.reports) > 3000:
                self.reports.clear()
            txt = self.texts[variant]
            head, tail = txt.split("\ncalibration:\n", 1)
            m = re.match(r"((?:    .*\n)*)", tail)
            block, rest = m.group(1), tail[m.end():]
            for k, v in cal.items():
                line = f"    {k}: {v if isinstance(v, str) else repr(v) if not isinstance(v, float) or '.' in repr(v) or 'e' not in repr(v) else repr(v).replace('e', '.0e', 1)}\n"
                block, n = re.subn(rf"(?m)^    {re.escape(k)}:.*\n", lambda _: line, block)
                if not n:
                    block += line
            fm = models.load_text(head + "\ncalibration:\n" + block + rest, check=False)
            simrng.set_all(5)
            self.reports[key] = outcome(fm, what)
        return self.reports[key]

    def apply(self, model, op):
        vals = dict(op["vals"])
        if op["how"] == "kw":
            model.set_calibration(**vals)
        elif op["how"] == "dict":
            model.set_calibration(vals)
        else:
            items = list(vals.items())
            model.set_calibration(dict(items[:1]), **dict(items[1:]))

    def do(self, model, op):
        if op["op"] == "set":
            self.apply(model, op)
        elif op["op"] == "bad-set":
            model.set_calibration(**{k: (object() if isinstance(v, dict) else v) for k, v in op["vals"].items()})
        elif op["op"] == "read":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                read(model, op["what"])
        elif op["op"] == "hook-stop":
            from dolo.algos.time_iteration import time_iteration

            def hook():
                raise ZeroDivisionError("hook")
            time_iteration(model, verbose=False, maxit=3, hook=hook)
        elif op["op"] == "check":
            pass

    def candidates(self, op, cal):
        """calibrations an unfinished update may have left"""
        if op["op"] not in ("set", "bad-set"):
            return [cal]
        keys = [k for k, v in op["vals"].items() if v is None or isinstance(v, (int, float, str))]
        out = []
        for n in range(len(keys), -1, -1):
            for ks in itertools.combinations(keys, n):
                c = dict(cal)
                c.update({k: op["vals"][k] for k in ks if op["vals"][k] is not None})
                if c not in out:
                    out.append(c)
        return out

    def compare(self, model, variant, cands, whats, where, ctx):
        """-> calibrations that explain every report"""
        for w in whats:
            simrng.set_all(5)
            got = outcome(model, w)
            keep, why = [], None
            for c in cands:
                ref = self.fresh_report(variant, c, w)
                d = diff(canon(got), canon(ref), 1e-12)
                if d is None:
                    keep.append(c)
                elif why is None:
                    why = d
            ctx.steps += 1
            ctx.ev("cmp", w, got[0], flat_digest(canon(got)) if w not in ("solve",) else "")
            if not keep:
                raise core.Violation("differs-from-fresh", f"{where}: {w} differs from that of a newly loaded model with the same calibration: {why}")
            cands = keep
        return cands

    def run(self, sc, ctx):
        v = sc["variant"]
        simrng.set_all(99)
        model = models.load_text(self.texts[v])
        world = [(model, {})]
        done = []
        for op in sc["ops"]:
            model, cal = world[-1]
            where = f"model {v} after {json.dumps(done)[-700:]} and {json.dumps(op)}"
            cands = [cal]
            if op["op"] == "fork":
                try:
                    world.append((copy.deepcopy(model), dict(cal)))
                except Exception as e:
                    raise core.Violation("raises", f"{where}: copying the model raised {e!r}")
            elif op["op"] == "cut":
                inner = op["inner"]
                n = None
                if inner["op"] in ("set", "bad-set"):
                    total = 60 + 30 * len(inner["vals"])
                else:
                    total = {"calibration": 4000, "exogenous": 8000, "domain": 8000, "get_calibration": 4000, "symbols": 100}.get(inner.get("what"), 12000)
                probe = copy.deepcopy(model)
                with Interrupt(None) as c:
                    try:
                        self.do(probe, inner)
                    except Exception:
                        pass
                total = max(1, c.count)
                n = 1 + int(op["frac"] * total)
                err = None
                with Interrupt(n, op["exc"]) as it:
                    try:
                        self.do(model, inner)
                    except BaseException as e:
                        err = e
                if it.fired:
                    ctx.fault("stopped-" + inner["op"])
                    where += f" stopped at {it.where}"
                    ctx.ev("cut", it.where)
                    if err is None:
                        ctx.probe("exception-absorbed")
                    cands = self.candidates(inner, cal)
                elif inner["op"] == "set":
                    cands = [dict(cal, **inner["vals"])]
                elif inner["op"] == "bad-set":
                    cands = self.candidates(inner, cal)
                ctx.nontrivial = True
            else:
                err = None
                try:
                    self.do(model, op)
                except Exception as e:
                    err = e
                if op["op"] == "set":
                    if err is not None:
                        raise core.Violation("update-fails", f"{where}: raised {err!r}")
                    cands = [dict(cal, **op["vals"])]
                    ctx.nontrivial = True
                elif op["op"] == "bad-set":
                    ctx.fault("refused-update")
                    cands = self.candidates(op, cal)
            wh = list(op.get("whats", []))
            r = (len(done) * 7 + int(op.get("frac", 0) * 1000)) % len(READS)
            if op["op"] in ("set", "cut", "bad-set"):
                wh += ["calibration", READS[r], READS[(r + 5) % len(READS)]]
            model, cal = world[-1]
            ctx.state((v, tuple(o["op"] for o in done[-3:]), op["op"], tuple(wh)))
            cands = self.compare(model, v, cands, wh, where, ctx)
            cal = cands[0]
            if len(cands) > 1:
                ctx.probe("ambiguous-partial-update")
            inner = op.get("inner", {})
            if op["op"] == "cut" and inner["op"] == "set":
                # repeating it takes full effect
                try:
                    self.apply(model, inner)
                except Exception as e:
                    raise core.Violation("update-fails", f"{where}: repeating the update raised {e!r}")
                cal = dict(cal, **inner["vals"])
                self.compare(model, v, [cal], ["calibration", READS[(r + 3) % len(READS)]], where + " and repeated", ctx)
            elif op["op"] == "bad-set" or inner.get("op") == "bad-set":
                fix = {"beta": 0.92, "sigma": 2.0}
                model.set_calibration(**fix)
                cal = dict(cal, **fix)
                self.compare(model, v, [c | fix for c in cands], ["calibration"], where + " and corrected", ctx)
                if len(cands) > 1:
                    model.set_calibration(alpha=0.34)
                    cal = dict(cal, alpha=0.34)
            world[-1] = (model, cal)
            done.append(op)
        # at the end every model of the history
        for k, (model, cal) in enumerate(world):
            self.compare(model, v, [cal], ["calibration", "domain", "exogenous", "endo_grid", "residuals", "bounds"], f"model {v} ({'copy' if k else 'original'}) after {json.dumps(done)[-900:]}", ctx)


CHECK = C11()
