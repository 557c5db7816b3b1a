"""C27: a model object says what its file says: functions, calibration, bounds, domain, shocks and grid agree with the text."""
import json
import warnings

import numpy as np

from .. import core, models, ops
from ..interrupt import Interrupt

P = ("parameters", None)
# arguments of each function (group, date); group defined on the left; dates at which definitions may be used
TYPES = {
    "arbitrage": ([("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1), P], None, (0, 1)),
    "transition": ([("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0), P], "states", (-1,)),
    "value": ([("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1), P], "values", (0, 1)),
    "expectation": ([("exogenous", 1), ("states", 1), ("controls", 1), P], "expectations", (1,)),
    "half_transition": ([("exogenous", -1), ("poststates", -1), ("exogenous", 0), P], "states", ()),
    "direct_response_egm": ([("exogenous", 0), ("poststates", 0), ("expectations", 0), P], "controls", ()),
    "reverse_state": ([("exogenous", 0), ("poststates", 0), ("controls", 0), P], "states", ()),
    "direct_response": ([("exogenous", 0), ("states", 0), ("expectations", 0), P], "controls", ()),
    "felicity": ([("exogenous", 0), ("states", 0), ("controls", 0), P], "rewards", (0,)),
}
BOUNDS = [("exogenous", 0), ("states", 0), P]
AUX = [("exogenous", 0), ("states", 0), ("controls", 0), P]
NEEDS = {"value": ["values"], "expectation": ["expectations"], "half_transition": ["poststates"], "direct_response_egm": ["poststates", "expectations"], "reverse_state": ["poststates"], "direct_response": ["expectations"], "felicity": ["rewards"]}
OPTIONAL = ["value", "expectation", "half_transition", "direct_response_egm", "reverse_state", "direct_response", "felicity"]
POOL = ["k", "kk", "k_1", "k1", "K", "s", "S", "m", "M", "x", "X", "p", "out", "out0", "a", "b", "c", "d", "i", "n", "y", "z", "w", "r", "q", "u", "v", "alpha", "α", "β", "σ_z", "δ", "rho", "rho_z", "e_z", "e_d", "lam", "Δ", "h2", "f", "g"]
GROUPS = ["exogenous", "states", "controls", "poststates", "rewards", "values", "expectations"]


FUNCTIONS = {"exp": np.exp, "log": np.log, "cos": np.cos, "sin": np.sin}  # those the third-party grammar knows


ARGS = {"UNormal": ("sigma", "mu"), "AR1": ("sigma", "rho", "mu"), "Uniform": ("a", "b"), "LogNormal": ("σ", "μ"), "Beta": ("α", "β")}
# ------------------------------------------------------------------ expressions: numbers, ["v", name, date], ["p", name], ["neg", a], ["exp"|"log"|"cos", a], [op, a, b]
def show(e, date=None, untimed=False):
    """text of an expression; with date=None variables carry no date"""
    def go(e, prec):
        if isinstance(e, (int, float)):
            return repr(e)
        if e[0] == "p":
            return e[1]
        if e[0] == "v":
            if date is None or (untimed and e[2] == 0):
                return e[1]
            return e[1] + ("[t]" if e[2] == 0 else f"[t{e[2]:+d}]")
        if e[0] == "neg":
            t = "-" + go(e[1], 9)
            return f"({t})" if prec > 0 else t
        if len(e) == 2:
            return f"{e[0]}({go(e[1], 0)})"
        op = e[0]
        pr = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}[op]
        if op == "^":
            t = f"{go(e[1], 9)}^{go(e[2], 9)}"
        else:
            t = f"{go(e[1], pr)} {op} {go(e[2], pr + 1)}" if pr == 1 else f"{go(e[1], pr)}{op}{go(e[2], pr + 1)}"
        return f"({t})" if pr < prec else t
    return go(e, 0)


def value(e, V):
    """V: name or (name, date) -> number or array"""
    if isinstance(e, (int, float)):
        return np.float64(e)
    if e[0] == "p":
        return V[e[1]]
    if e[0] == "v":
        return V[(e[1], e[2])]
    if e[0] == "neg":
        return -value(e[1], V)
    if len(e) == 2:
        return FUNCTIONS[e[0]](value(e[1], V))
    a, b = value(e[1], V), value(e[2], V)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "^": lambda: np.power(a, b)}[e[0]]()


def names(e):
    if isinstance(e, (int, float)):
        return set()
    if e[0] in ("p", "v"):
        return {e[1]}
    return set().union(*[names(x) for x in e[1:]])


def expr(rng, leaves, pos, depth=3):
    """never the log or the power of something negative when the leaves listed in pos are positive"""
    if depth == 0 or rng.random() < 0.15:
        return rng.choice(leaves) if leaves and rng.random() < 0.8 else rng.choice([2, 0.5, 1.25, 0.3, 3])
    k = rng.random()
    if k < 0.62:
        return [rng.choice("++--**/"), expr(rng, leaves, pos, depth - 1), expr(rng, leaves, pos, depth - 1)]
    if k < 0.75:
        return ["^", rng.choice(pos) if pos else 2, rng.choice([2, 0.5, ["neg", 1.5], ["neg", ["p", "@"]]])]
    if k < 0.85:
        return ["neg", expr(rng, leaves, pos, depth - 1)]
    if k < 0.92:
        return [rng.choice(["exp", "cos", "sin"]), ["*", 0.1, expr(rng, leaves, pos, depth - 1)]]
    return ["log", ["+", 1.5, ["^", rng.choice(leaves) if leaves else 2, 2]]]


def fill(e, params, rng):
    """the marker @ stands for some parameter"""
    if isinstance(e, (int, float)):
        return e
    if e[0] == "p" and e[1] == "@":
        return ["p", rng.choice(params)] if params else 2
    return [e[0]] + [fill(x, params, rng) if isinstance(x, (list, int, float)) else x for x in e[1:]]


def spec(rng):
    """a model that can be calibrated"""
    while True:
        sp = draw_spec(rng)
        if divides_by_zero(json.loads(json.dumps([sp["defs"], sp["eqs"], sp["calib"]]))):
            continue
        V = evaluate_calibration(sp, {})
        missing = {n for g in ("exogenous", "states", "controls") for n in sp["groups"][g]} - {n for n, _ in sp["calib"]}
        if missing and any(names(e) & missing for _, e in sp["defs"]):
            continue
        if all(np.isfinite(V[n]) for n in V if n not in missing):
            return sp


def divides_by_zero(e):
    """somewhere, by an expression of numbers only"""
    if isinstance(e, dict):
        return any(divides_by_zero(x) for x in e.values())
    if not isinstance(e, list):
        return False
    if len(e) == 3 and e[0] == "/" and not names(e[2]) and value(e[2], {}) == 0:
        return True
    return any(divides_by_zero(x) for x in e)


def draw_spec(rng):
    pool = POOL[:]
    rng.shuffle(pool)
    take = lambda n: [pool.pop() for _ in range(n)]
    eqs = ["arbitrage", "transition"] + [t for t in OPTIONAL if rng.random() < 0.3]
    groups = {"exogenous": take(rng.choice([1, 1, 2, 3])), "states": take(rng.choice([1, 2, 2, 3])), "controls": take(rng.choice([1, 2, 2, 3]))}
    for t in eqs:
        for g in NEEDS.get(t, []):
            if g not in groups:
                groups[g] = take(rng.choice([1, 1, 2]))
    params = take(rng.choice([2, 3, 5]))
    aux = take(rng.choice([0, 1, 2, 3]))
    late = params[-1] if len(params) > 2 and aux and rng.random() < 0.4 else None  # a parameter calibrated from definitions
    early = [p for p in params if p != late]
    pl = [["p", p] for p in early]
    E = lambda leaves, depth=3: fill(expr(rng, leaves, [x for x in leaves if x[1] not in aux], depth), early, rng)
    var = lambda g, t: [["v", n, t] for n in groups[g]]
    defs = []
    for n in aux:
        defs.append([n, E(var("exogenous", 0) + var("states", 0) + var("controls", 0) + pl + [["v", m, 0] for m, _ in defs])])
    out = {"groups": groups, "params": params, "defs": defs, "eqs": {}, "style": {}}
    for t in eqs:
        args, target, dates = TYPES[t]
        leaves = [x for g, d in args if g != "parameters" for x in var(g, d) if not (target and g == target and d == 0)] + [["p", p] for p in params] + [["v", n, d] for n in aux for d in dates]
        n = len(groups[target or "controls"])
        out["style"][t] = rng.choice(["new", "old"])
        if target:
            out["eqs"][t] = [E(leaves) for _ in range(n)]
        else:
            comp = rng.choice(["all", "all", "none", "some"])
            bl = [x for g, d in BOUNDS[:-1] for x in var(g, d)] + [["p", p] for p in params]
            out["eqs"][t] = []
            for i in range(n):
                e = {"rhs": E(leaves)}
                if out["style"][t] == "old" and rng.random() < 0.4:
                    e["lhs"] = E(leaves, 2)
                elif comp == "all" or comp == "some" and rng.random() < 0.5:
                    e["lb"], e["ub"] = E(bl, 2), E(bl, 2)
                    done = [o for o in out["eqs"][t] if "lb" in o]
                    for key, inf in (("lb", ["neg", float("inf")]), ("ub", float("inf"))):  # bounds also repeat and are infinite
                        r = rng.random()
                        if r < 0.15:
                            e[key] = inf
                        elif r < 0.4 and done:
                            e[key] = rng.choice(done)[rng.choice(["lb", "ub", key])]
                out["eqs"][t].append(e)
    out["style"]["definitions"] = rng.choice(["new", "old"])
    out["style"]["untimed"] = rng.random() < 0.25
    out["style"]["perp"] = rng.choice(["⟂", "|"])
    out["eq_order"] = rng.sample(eqs, len(eqs))
    # calibration: every value is a number or an expression of values that come first in some order, written in another one
    known, cal = [], []
    extra = take(rng.choice([0, 0, 0, 1, 2]))  # calibrated only
    for n in extra + early + groups["exogenous"] + groups["states"] + groups["controls"]:
        if known and rng.random() < 0.35:
            cal.append([n, ["+", 0.5, ["^", fill(expr(rng, [["p", rng.choice(known)]], [["p", rng.choice(known)]], 1), [], rng), 2]]])
        elif n in groups["exogenous"] + groups["controls"] + groups["states"] and rng.random() < 0.08:
            continue  # not calibrated
        else:
            cal.append([n, round(rng.uniform(0.3, 1.6), 3)])
        known.append(n)
    given = [n for n, _ in defs if rng.random() < 0.5] if rng.random() < 0.25 else []
    for n in given:  # calibrated apart from its definition
        cal.append([n, rng.choice([0.0, round(rng.uniform(0.3, 1.6), 3)])])
    if late:
        cal.append([late, ["+", 0.25, ["*", 0.5, ["p", rng.choice(aux)]]]])
    for g in ("values", "poststates"):
        for n in groups.get(g, []):
            if rng.random() < 0.5:
                cal.append([n, ["+", 1.0, ["*", 0.5, ["p", rng.choice(known)]]]])
    rng.shuffle(cal)
    out["calib"] = cal
    out["extra"] = extra
    cl = [["p", n] for n in known if n in early + extra] or [2.0]
    dom = []
    for n in groups["states"]:
        b = ["^", rng.choice(cl), 2] if rng.random() < 0.5 else 0.5
        dom.append([n, ["neg", ["+", 0.1, b]], ["+", 0.3, ["*", 2, b]]])
    if rng.random() < 0.25:
        rng.shuffle(dom)
    out["domain"] = dom
    out["grid"] = [rng.choice([2, 3, 4, 5, 7]) for _ in groups["states"]]
    out["grid_as"] = rng.choice(["n", "n", "orders", "default" if len(groups["states"]) < 3 else "n", "smolyak" if len(groups["states"]) > 1 else "n"])
    if rng.random() < 0.1:
        out["domain"].insert(rng.randrange(len(dom) + 1), [rng.choice(groups["controls"]), -1.5, 2.5])
    out["style"]["untimed_defs"] = rng.random() < 0.3
    nm = len(groups["exogenous"])
    form = rng.choice(["normal", "var1", "mc", "each", "each", "grouped" if nm > 1 else "each"])
    sd = lambda: ["+", 0.01, ["*", 0.001, ["^", rng.choice(cl), 2]]]
    if form == "each":
        out["exo"] = [form, [[k, [sd() for _ in range(n)]] for k, n in [rng.choice([("UNormal", 1), ("UNormal", 2), ("AR1", 2), ("AR1", 3), ("Uniform", 2), ("LogNormal", 2), ("Beta", 2), ("Mixture", 3)]) for _ in range(nm)]]]
    elif form == "grouped":  # the first two together
        out["exo"] = [form, [sd() for _ in range(nm)], rng.choice([True, False]), rng.choice([", ", ",", " , "])]
    else:
        out["exo"] = [form, [sd() for _ in range(nm)], rng.choice([True, False])]
    return out


def text(sp):
    un = sp["style"]["untimed"]
    o = ["name: generated", "", "symbols:"]
    for g in GROUPS:
        if g in sp["groups"]:
            o.append(f"    {g}: [{', '.join(sp['groups'][g])}]")
    o.append(f"    parameters: [{', '.join(sp['params'])}]")
    if sp["defs"]:
        o.append("")
        if sp["style"]["definitions"] == "new":
            o += ["definitions: |"] + [f"    {n}[t] = {show(e, 0)}" for n, e in sp["defs"]]
        else:
            o += ["definitions:"] + [f"    {n}{'' if sp['style'].get('untimed_defs') else '[t]'}: {show(e, 0, sp['style'].get('untimed_defs'))}" for n, e in sp["defs"]]
    o += ["", "equations:"]
    for t in sp["eq_order"]:
        target = TYPES[t][1]
        lines = []
        for i, e in enumerate(sp["eqs"][t]):
            if target:
                lines.append(f"{sp['groups'][target][i]}[t] = {show(e, 0, un)}")
            else:
                s = (show(e["lhs"], 0, un) + " = " if "lhs" in e else "") + show(e["rhs"], 0, un)
                if "lb" in e:
                    s += f" {sp['style']['perp']} {show(e['lb'], 0, un)} <= {sp['groups']['controls'][i]}[t] <= {show(e['ub'], 0, un)}"
                lines.append(s)
        if sp["style"][t] == "new":
            o += ["", f"    {t}: |"] + ["        " + x for x in lines]
        else:
            o += ["", f"    {t}:"] + [f"        - {x}" for x in lines]
    o += ["", "calibration:"]
    for n, e in sp["calib"]:
        o.append(f"    {n}: {e if isinstance(e, (int, float)) else show(e)}")
    o += ["", "domain:"]
    for n, lo, hi in sp["domain"]:
        o.append(f"    {n}: ['{show(lo)}', '{show(hi)}']")
    o += [""]
    exo = sp["groups"]["exogenous"]
    form = sp["exo"][0]
    if form == "each":
        o.append("exogenous:")
        for n, (k, a) in zip(exo, sp["exo"][1]):
            o.append(f"    {n}: !{k}")
            if k == "Mixture":
                o += ["        index: !Bernouilli", f"            π: {show(a[0])}", "        distributions:", "            0: !UNormal", f"                σ: {show(a[1])}", "            1: !UNormal", f"                σ: {show(a[2])}", f"                μ: {show(a[1])}"]
                continue
            for key, v in zip(ARGS[k], a):
                o.append(f"        {key}: {show(v)}")
    elif form == "grouped":
        d = [show(v) for v in sp["exo"][1]]
        o += ["exogenous:", f"    {exo[0]}{sp['exo'][3]}{exo[1]}: !Normal", f"        Sigma: [[{d[0]}, 0.001], [0.001, {d[1]}]]"]
        if sp["exo"][2]:
            o.append(f"        Μ: [{d[1]}, {d[0]}]")
        for n, v in zip(exo[2:], d[2:]):
            o += [f"    {n}: !UNormal", f"        sigma: {v}"]
    else:
        d = [show(v) for v in sp["exo"][1]]
        n = len(d)
        if form == "mc":
            o += ["exogenous: !MarkovChain", "    values: [[" + ", ".join(d) + "], [" + ", ".join("-(" + v + ")" for v in d) + "]]", "    transitions: [[0.75, 0.25], [0.375, 0.625]]"]
        else:
            o.append("exogenous: !" + ("Normal" if form == "normal" else "VAR1"))
            if form == "var1":
                o.append("    rho: 0.625")
            o.append("    Sigma: [" + ", ".join("[" + ", ".join(d[i] if i == j else "0.001" for j in range(n)) + "]" for i in range(n)) + "]")
            if form == "normal" and sp["exo"][2]:
                o.append("    Μ: [" + ", ".join(d) + "]")
    how = sp.get("grid_as", "n")
    o += ["", "options:"]
    if how == "type":
        o += ["    grid:", "        type: Cartesian", f"        orders: {sp['grid']}", ""]
    elif how == "smolyak":
        o += ["    grid: !Smolyak", f"        mu: {1 + sp['grid'][0] % 3}", ""]
    elif how == "default":
        o += ["    grid: !Cartesian {}", ""]
    else:
        o += ["    grid: !Cartesian", f"        {how}: {sp['grid']}", ""]
    return "\n".join(o)


def another(sp, how):
    """a model close to this one"""
    o = json.loads(json.dumps(sp))
    if how == "equations":
        for t, v in o["eqs"].items():
            if TYPES[t][1]:
                o["eqs"][t] = v[::-1] if len(v) > 1 else [["+", 1, v[0]]]
            else:
                o["eqs"][t] = [{"rhs": ["+", 1, e["rhs"]]} for e in v[::-1]]
        o["style"]["arbitrage"] = "old"
    elif how == "definitions":
        o["defs"] = [[n, ["+", 0.5, e]] for n, e in o["defs"]]
    elif how == "bounds":
        for e in o["eqs"]["arbitrage"]:
            if "lb" in e:
                e["lb"], e["ub"] = ["+", 0.25, e["ub"]], ["*", 2, e["lb"]]
    elif how == "order":
        for g in o["groups"]:
            if g != "controls":
                o["groups"][g] = o["groups"][g][::-1]
        for t in o["eqs"]:
            if TYPES[t][1] in o["groups"] and TYPES[t][1] != "controls":
                o["eqs"][t] = o["eqs"][t][::-1]
        o["params"] = o["params"][::-1]
        o["grid"] = o["grid"][::-1]
        if o["exo"][0] == "each":
            o["exo"][1] = o["exo"][1][::-1]
        else:
            o["exo"][1] = o["exo"][1][::-1]
    elif how == "calibration":
        o["calib"] = [[n, ["*", 0.75, e] if not isinstance(e, (int, float)) else e * 0.75] for n, e in o["calib"]]
        o["grid"] = [n + 1 for n in o["grid"]]
    elif how == "domain":
        o["domain"] = [[n, ["*", 2, lo], ["*", 3, hi]] for n, lo, hi in o["domain"]]
    return o


HOW = ["equations", "definitions", "bounds", "order", "calibration", "domain"]


def evaluate_calibration(sp, over):
    """values of the file, those changed since replacing them"""
    todo = {n: e for n, e in sp["calib"]}
    todo.update(over)
    for n, e in sp["defs"]:
        if n not in todo:
            todo[n] = strip(e)
    for n in sp["groups"]["exogenous"]:
        todo.setdefault(n, 0.0)
    for g in ("states", "controls"):
        for n in sp["groups"][g]:
            todo.setdefault(n, float("nan"))
    V = {}
    with np.errstate(all="ignore"):
        while todo:
            ready = [n for n, e in todo.items() if names(e) <= set(V)]
            if not ready:
                raise core.Violation("harness", f"calibration cannot be solved: {sorted(todo)}")
            for n in ready:
                V[n] = np.float64(value(todo.pop(n), V))
    return V


def strip(e):
    """variables without dates"""
    if isinstance(e, (int, float)):
        return e
    if e[0] == "v":
        return ["p", e[1]]
    return [e[0]] + [strip(x) if isinstance(x, (list, int, float)) else x for x in e[1:]]


def places():
    """where the function that compiles may be looked up"""
    import dolang.function_compiler as fc
    import dolo.compiler.model as mo
    return [o for o in (fc, mo) if hasattr(o, "make_method_from_factory")]


class python_functions:
    """The code generated for each function runs in the interpreter, point by point, instead of being compiled."""

    def __enter__(self):
        import dolang.function_compiler as fc
        self.fc, self.old = fc, fc.make_method_from_factory

        def make(fff, vectorize=True, use_file=False, debug=False, compile=True):
            fun = REAL[0](fff, vectorize=True, compile=False)

            def gufun(*args):
                *ins, out = [np.asarray(a) for a in args[:-1]] + [args[-1]]
                lead = np.broadcast_shapes(*[a.shape[:-1] for a in ins], out.shape[:-1])
                ins = [np.broadcast_to(a, lead + a.shape[-1:]) for a in ins]
                with np.errstate(all="ignore"):
                    for idx in np.ndindex(*lead):
                        fun(*[a[idx] for a in ins], out[idx])
            return fun, gufun

        self.places = places()
        for o in self.places:
            o.make_method_from_factory = make

    def __exit__(self, *a):
        for o in self.places:
            o.make_method_from_factory = self.old


class really_compiled:
    def __enter__(self):
        import dolang.function_compiler as fc
        self.fc, self.old = fc, fc.make_method_from_factory
        self.places = places()
        for o in self.places:
            o.make_method_from_factory = REAL[0]

    def __exit__(self, *a):
        for o in self.places:
            o.make_method_from_factory = self.old


REAL = []
READS = ["symbols", "variables", "equations", "definitions", "calibration", "domain", "exogenous", "functions", "x_bounds", "endo_grid", "residuals", "str"]


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=1e-11, equal_nan=True)


class C27(core.Check):
    ID = "C27"
    RULE = ("A run writes a model file (names, groups, definitions, equations of up to eleven kinds in both styles, bounds, calibration in any order, domain, shocks, grid; drawn from the run's seed) and a history of its use: first reads of its parts in any order, with or without checks at construction, some of them stopped by an interrupt or a memory error, calibration changes, "
            "another model with the same names and other equations built in between. At the end (and after each change) everything the model reports is compared with an evaluation of the same expressions by the harness: lists of symbols, calibrated values, each function at single points and over lists of points, bounds, residuals, domain, grid, parameters of the shocks. Non-trivial when something was stopped, changed or built before.")
    REAL = ["reading of the model text, symbols, definitions, equations, timing, calibration, domain, shocks, grid, function factories; code generation; in some runs machine code too"]
    STUBS = ["machine code of model functions: the generated code is interpreted (compiled for real in a few runs)", "moment of interrupts (sys.settrace)", "expression parser (lark; a text parsed before is answered with a fresh copy of its tree)"]
    RUNS = {"quick": 1600, "thorough": 40000}
    SOFT_S = {"quick": 70, "thorough": 900}
    STATE_MEASURE = "distinct (function kinds, number of symbols of each kind, styles, form of shocks) combinations"
    ASSUMPTIONS = ["Definitions and equations are written in the order of declaration, as documented.", "Powers and negations are parenthesised where the grammar of the third-party parser is ambiguous."]

    def setup(self, tier):
        import dolang.function_compiler as fc
        if not REAL:
            REAL.append(fc.make_method_from_factory)
        ops.setup_library()

    def fixed(self, tier):
        import random
        out = []
        for i in range(3):
            out.append({"spec": spec(random.Random(900 + i)), "steps": [], "check": True, "real": True, "pts": i})
        for i in range(24):
            r = random.Random(7000 + i)
            sp = spec(r)
            out.append({"spec": sp, "steps": [{"do": "read", "what": w} for w in r.sample(READS, len(READS))], "check": False, "pts": i})
            out.append({"spec": sp, "steps": [{"do": "other", "how": HOW[i % 6]}, {"do": "other", "how": HOW[(i // 6 + i + 1) % 6]}], "check": False, "pts": i})
            out.append({"spec": sp, "steps": [{"do": "other", "how": HOW[i % 6]}, {"do": "set", "values": {sp["params"][0]: 0.7}}], "check": True, "pts": i})
            sp = spec(r)
            if len(sp["groups"]["states"]) > 1:
                sp["domain"] = sorted(sp["domain"], key=lambda d: -(sp["groups"]["states"] + sp["groups"]["controls"]).index(d[0]))
                out.append({"spec": sp, "steps": [], "check": True, "pts": i})
        return out

    def generate(self, rng, tier):
        sp = spec(rng)
        steps = []
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            k = rng.random()
            if k < 0.6:
                st = {"do": "read", "what": rng.choice(READS)}
                if rng.random() < 0.45:
                    st["stop"] = [int(2 ** rng.uniform(0, 9)), rng.choice(["interrupt", "memory"])]
            elif k < 0.8:
                free = [n for n, e in sp["calib"]]
                st = {"do": "set", "values": {n: round(rng.uniform(0.3, 1.6), 3) for n in rng.sample(free, rng.choice([1, 1, 2]))}}
                if rng.random() < 0.2:
                    st["stop"] = [rng.randint(1, 30), "interrupt"]
            else:
                st = {"do": "other", "how": rng.choice(HOW)}
            steps.append(st)
        return {"spec": sp, "steps": steps, "check": rng.random() < 0.4, "pts": rng.randrange(10**6)}

    def shrink(self, sc):
        yield from core.shrink_lists(sc, ("steps",))
        for i, s in enumerate(sc["steps"]):
            if "stop" in s:
                yield dict(sc, steps=[x if j != i else {a: b for a, b in s.items() if a != "stop"} for j, x in enumerate(sc["steps"])])
        sp = sc["spec"]
        for t in sp["eq_order"]:
            if t in OPTIONAL:
                yield dict(sc, spec=dict(sp, eq_order=[x for x in sp["eq_order"] if x != t], eqs={a: b for a, b in sp["eqs"].items() if a != t}))

    # ------------------------------------------------------------------ parts
    def read(self, m, what):
        return str(m) if what == "str" else m.residuals() if what == "residuals" else getattr(m, what)

    def run(self, sc, ctx):
        sp = sc["spec"]
        with (really_compiled() if sc.get("real") else python_functions()), ops.quiet():
            over, used, m = {}, False, None
            txt = text(sp)
            try:
                m = models.load_text(txt, check=sc["check"])
            except Exception as e:
                raise core.Violation("load-fails", f"loading raised {e!r}:\n{txt}")
            for n, st in enumerate(sc["steps"]):
                what = f"step {n}: {json.dumps(st, ensure_ascii=False)}"
                inj = Interrupt(*st["stop"]) if "stop" in st else None
                if st["do"] == "other":
                    o = models.load_text(text(another(sp, st.get("how", "equations"))))
                    if "how" in st:
                        o.functions, o.calibration, o.domain, o.endo_grid, o.exogenous
                    used = True
                    ctx.ev("other", st.get("how"))
                    continue
                try:
                    if inj:
                        with inj:
                            self.act(m, st)
                    else:
                        self.act(m, st)
                except (Exception, KeyboardInterrupt) as e:
                    if not (inj and inj.fired):
                        raise core.Violation("fails", f"{what}: raised {e!r}\n{txt}")
                    ctx.ev("stopped", st["do"], st.get("what"))
                else:
                    ctx.ev(st["do"], st.get("what"))
                if inj and inj.fired:
                    ctx.fault(inj_kind(st))
                    used = True
                if st["do"] == "set":
                    if inj and inj.fired:  # what was stored is what counts
                        for k, v in st["values"].items():
                            stored = float(m.data["calibration"][k].value) if is_number(m.data["calibration"][k]) else None
                            if stored == v:
                                over[k] = v
                            elif k in over and stored != over[k]:
                                raise core.Violation("calibration", f"{what}: value of {k} stored is {stored!r}")
                    else:
                        over.update(st["values"])
                    used = True
                    self.judge(m, sp, over, sc, txt, what, ctx, light=True)
            self.judge(m, sp, over, sc, txt, "at the end", ctx)
            ctx.nontrivial = ctx.nontrivial or used
            ctx.state((sorted(sp["eqs"]), sorted((g, len(v)) for g, v in sp["groups"].items()), sorted(map(str, sp["style"].items())), sp["exo"][0], len(sp["defs"])))

    def act(self, m, st):
        if st["do"] == "set":
            m.set_calibration(**st["values"])
        else:
            self.read(m, st["what"])

    def judge(self, m, sp, over, sc, txt, what, ctx, light=False):
        def bad(kind, msg):
            raise core.Violation(kind, f"{what}: {msg}\n{txt}")

        try:
            self.compare(m, sp, over, sc, bad, light)
        except core.Violation:
            raise
        except Exception as e:
            import traceback
            bad("fails", f"raised {e!r} {traceback.format_exc()[-600:]}")

    def compare(self, m, sp, over, sc, bad, light):
        G, V = sp["groups"], evaluate_calibration(sp, over)
        groups = dict(G, parameters=sp["params"], auxiliaries=[n for n, _ in sp["defs"]])
        for g, l in groups.items():
            if l and list(m.symbols[g]) != l:
                bad("symbols", f"{g} are {list(m.symbols[g])}, declared {l}")
        # calibration
        for g in ("exogenous", "states", "controls", "parameters", "auxiliaries"):
            l = groups[g]
            if not l:
                continue
            ref = [V[n] for n in l]
            if not same(m.calibration[g], ref):
                bad("calibration", f"{g} {l} are {np.array(m.calibration[g]).tolist()}; the file says {ref}")
            for n, v in zip(l, ref):
                if not same(m.calibration[n], v):
                    bad("calibration", f"{n} is {m.calibration[n]}; the file says {v}")
        for n, _ in sp["calib"]:
            if n not in sp["extra"] and not same(m.calibration[n], V[n]):
                bad("calibration", f"{n} is {m.calibration[n]}; the file says {V[n]}")
        # domain, grid
        D = {n: (float(value(lo, V)), float(value(hi, V))) for n, lo, hi in sp["domain"]}
        dom = m.domain
        for n in G["states"]:
            if not same(dom[n], D[n]):
                bad("domain", f"domain of {n} is {np.array(dom[n]).tolist()}; the file says {D[n]}")
        lo, hi = [D[n][0] for n in G["states"]], [D[n][1] for n in G["states"]]
        if list(dom.states) != G["states"] or not same(dom.min, lo) or not same(dom.max, hi):
            bad("domain", f"bounds of {list(dom.states)} are {dom.min.tolist()} and {dom.max.tolist()}; the file says {lo} and {hi} for {G['states']}")
        how = sp.get("grid_as", "n")
        if how == "smolyak":
            from dolo.numeric.grids import SmolyakGrid
            ref = np.array(SmolyakGrid(min=np.array(lo), max=np.array(hi), mu=1 + sp["grid"][0] % 3).nodes)
        else:
            axes = [np.linspace(a, b, n) for a, b, n in zip(lo, hi, sp["grid"] if how != "default" else [20] * len(lo))]
            ref = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1).reshape(-1, len(axes))
        if not same(m.endo_grid.nodes, ref):
            bad("grid", f"grid nodes {np.array(m.endo_grid.nodes)[:3].tolist()}...; the file says {ref[:3].tolist()}...")
        self.exogenous(m, sp, V, bad)
        # functions
        rng = np.random.RandomState(sc["pts"])
        N = 2 if light else 3
        pts = {}
        for g, l in groups.items():
            for n in l:
                if g == "parameters":
                    pts[n] = np.float64(rng.uniform(0.4, 1.6))
                elif g != "auxiliaries":
                    for t in (-1, 0, 1):
                        pts[(n, t)] = rng.uniform(0.4, 1.6, N)
        with np.errstate(all="ignore"):
            for t in (-1, 0, 1):
                for n, e in sp["defs"]:
                    pts[(n, t)] = value(shift(e, t), pts)
            todo = [(t, TYPES[t][0], sp["eqs"][t]) for t in sp["eq_order"]]
            if sp["defs"]:
                todo.append(("auxiliary", AUX, [["v", n, 0] for n, _ in sp["defs"]]))
            arb = sp["eqs"]["arbitrage"]
            if any("lb" in e for e in arb):
                todo += [("arbitrage_lb", BOUNDS, [e.get("lb", float("-inf")) for e in arb]), ("arbitrage_ub", BOUNDS, [e.get("ub", float("inf")) for e in arb])]
            have = {k for k in m.functions.keys()}
            if have != {t for t, _, _ in todo}:
                bad("functions", f"functions are {sorted(have)}; the file has {sorted(t for t, _, _ in todo)}")
            for t, args, eqs in todo:
                ref = []
                for e in eqs:
                    if isinstance(e, dict):
                        r = value(e["rhs"], pts) - value(e["lhs"], pts) if "lhs" in e else value(e["rhs"], pts)
                    else:
                        r = value(e, pts)
                    ref.append(np.broadcast_to(r, (N,)))
                ref = np.array(ref).T
                A = [np.array([pts[n] for n in groups[g]]) if g == "parameters" else np.array([pts[(n, d)] for n in groups[g]]).T.copy() for g, d in args]
                f = m.functions[t]
                got = f(*A)
                if not same(got, ref):
                    bad("functions", f"{t} at several points gives {got.tolist()}; the equations give {ref.tolist()}")
                got = f(*[a if a.ndim == 1 else a[1] for a in A])
                if not same(got, ref[1]):
                    bad("functions", f"{t} at a point gives {got.tolist()}; the equations give {ref[1].tolist()}")
            b = m.x_bounds
            if (b is not None) != any("lb" in e for e in arb):
                bad("bounds", f"bounds are {b}")
            if b is not None:
                A = [np.array([pts[n] for n in groups[g]]) if g == "parameters" else np.array([pts[(n, d)] for n in groups[g]]).T.copy() for g, d in BOUNDS]
                for f, key, inf in zip(b, ("lb", "ub"), (float("-inf"), float("inf"))):
                    ref = np.array([np.broadcast_to(value(e.get(key, inf), pts), (N,)) for e in arb]).T
                    if not same(f(*A), ref):
                        bad("bounds", f"{key} gives {f(*A).tolist()}; the file says {ref.tolist()}")
            # at the calibration
            C = dict(V)
            for g, l in groups.items():
                for n in l:
                    for t in (-1, 0, 1):
                        C[(n, t)] = V.get(n, float("nan"))
            for t in (-1, 0, 1):  # equations use the definitions, whatever value is calibrated for them
                for n, e in sp["defs"]:
                    C[(n, t)] = value(shift(e, t), C)
            r = m.residuals()
            ref = [value(e, C) - V[n] for n, e in zip(G["states"], sp["eqs"]["transition"])]
            if not same(r["transition"], ref, 1e-8):
                bad("residuals", f"transition residuals {list(r['transition'])}; the equations give {ref}")
            ref = [value(e["rhs"], C) - (value(e["lhs"], C) if "lhs" in e else 0) for e in arb]
            if not same(r["arbitrage"], ref, 1e-8):
                bad("residuals", f"arbitrage residuals {list(r['arbitrage'])}; the equations give {ref}")

    def exogenous(self, m, sp, V, bad):
        x = m.exogenous
        form = sp["exo"][0]
        if form == "each":
            ps = list(x.processes)
            if len(ps) != len(sp["exo"][1]):
                bad("shocks", f"{len(ps)} processes")
            for p, (k, a) in zip(ps, sp["exo"][1]):
                a = [float(value(v, V)) for v in a]
                if type(p).__name__ != k:
                    bad("shocks", f"{type(p).__name__} instead of {k}")
                if k in ("Uniform", "Beta"):
                    got, ref = [getattr(p, b) for b in ARGS[k]], a
                elif k == "Mixture":
                    ds = {str(i): d for i, d in p.distributions.items()}
                    got, ref = [p.index.π, ds["0"].σ, ds["0"].μ, ds["1"].σ, ds["1"].μ], [a[0], a[1], 0.0, a[2], a[1]]
                elif k in ("UNormal", "LogNormal"):
                    got, ref = [p.σ, p.μ], [a[0], a[1] if len(a) > 1 else 0.0]
                else:
                    got = [float(np.ravel(p.Σ)[0]), float(np.ravel(p.ρ)[0]), float(np.ravel(p.μ)[0])] if hasattr(p, "Σ") else [p.σ**2, p.ρ, p.μ]
                    ref = [a[0] ** 2, a[1], a[2] if len(a) > 2 else 0.0]
                if not same(got, ref):
                    bad("shocks", f"{k} has {got}; the file says {ref}")
            return
        d = [float(value(v, V)) for v in sp["exo"][1]]
        n = len(d)
        if form == "grouped":
            ps = list(x.processes)
            if [type(p).__name__ for p in ps] != ["Normal"] + ["UNormal"] * (n - 2) or not same(ps[0].Σ, [[d[0], 0.001], [0.001, d[1]]]) or not same(ps[0].Μ, [d[1], d[0]] if sp["exo"][2] else [0, 0]) or not same([p.σ for p in ps[1:]], d[2:]):
                bad("shocks", f"the shocks are {ps}; the file says {d}")
            return
        if form == "mc":
            if not same(x.values, [d, [-v for v in d]]) or not same(x.transitions, [[0.75, 0.25], [0.375, 0.625]]):
                bad("shocks", f"the chain has values {np.array(x.values).tolist()} and transitions {np.array(x.transitions).tolist()}; the file says {d}")
            return
        S = np.full((n, n), 0.001)
        S[np.diag_indices(n)] = d
        if not same(x.Σ, S):
            bad("shocks", f"the covariance is {np.array(x.Σ).tolist()}; the file says {S.tolist()}")
        if form == "var1" and not same(x.ρ, np.eye(n) * 0.625) and not same(np.ravel(x.ρ)[0], 0.625):
            bad("shocks", f"persistence {x.ρ}")
        if form == "normal":
            ref = d if sp["exo"][2] else [0.0] * n
            if not same(x.Μ, ref):
                bad("shocks", f"the mean is {np.array(x.Μ).tolist()}; the file says {ref}")


def shift(e, t):
    if isinstance(e, (int, float)):
        return e
    if e[0] == "v":
        return ["v", e[1], e[2] + t]
    return [e[0]] + [shift(x, t) if isinstance(x, (list, int, float)) else x for x in e[1:]]


def is_number(node):
    try:
        float(node.value)
        return True
    except (ValueError, TypeError):
        return False


def inj_kind(st):
    return st["stop"][1]


CHECK = C27()
