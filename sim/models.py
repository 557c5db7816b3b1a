"""Small model texts used by the checks; every part a reader or solver touches, at sizes a simulation can run thousands of times."""
import os

from . import core

EXO = {
    "mc": ("z", "!MarkovChain\n    values: [[-0.02],[0.03]]\n    transitions: [[0.8, 0.2], [0.3, 0.7]]\n"),
    "mc3": ("z", "!MarkovChain\n    values: [[-0.02],[0.0],[0.03]]\n    transitions: [[0.8, 0.2, 0.0], [0.3, 0.4, 0.3], [0.0, 0.1, 0.9]]\n"),
    "ar1": ("z", "!AR1\n    rho: rho\n    sigma: sig_z\n"),
    "ar1m": ("z", "!AR1\n    rho: 0.6\n    sigma: sig_z\n    mu: 0.01\n"),
    "normal": ("z", "!UNormal\n    sigma: sig_z\n"),
    "mvnormal": ("z,p", "!Normal\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"),
    "var1": ("z,p", "!VAR1\n    rho: 0.7\n    Sigma: [[0.0004, 0.0001],[0.0001, 0.0002]]\n"),
    "product": ("z,p", None),
}


def text(exo="mc", style="new", n_grid=8, comp=True, extra="", name="tiny", defs=True, alpha=0.33, delta=0.1, comment=""):
    """A one-state growth model; the state's transition uses both dates of the shock, so that dates cannot be confused."""
    names, block = EXO[exo]
    two = "," in names
    exo_syms = names.split(",")
    p = " + 0.1*p[t]" if two else ""
    out = comment + f"name: {name}\n\nsymbols:\n    exogenous: [{', '.join(exo_syms)}]\n    states: [k]\n    controls: [i]\n"
    if exo in ("mc", "mc3"):
        out += "    values: [V]\n    rewards: [u]\n    expectations: [m]\n"
    out += "    parameters: [beta, sigma, delta, alpha, rho, sig_z, shift]\n\n"
    c = "(exp(z[t])*k[t]^alpha - i[t])"
    c1 = "(exp(z[t+1])*k[t+1]^alpha - i[t+1])"
    if defs:
        c, c1 = "c[t]", "c[t+1]"
        if style == "new":
            out += "definitions: |\n    y[t] = exp(z[t])*k[t]^alpha + shift\n    c[t] = y[t] - i[t]\n\n"
        else:
            out += "definitions:\n    y[t]: exp(z[t])*k[t]^alpha + shift\n    c[t]: y[t] - i[t]\n\n"
    arb = f"1 - beta*({c}/{c1})^sigma*(1 - delta + alpha*exp(z[t+1])*k[t+1]^(alpha-1))"
    y = "(exp(z[t])*k[t]^alpha)"  # bounds cannot refer to definitions
    tr = f"k[t] = (1-delta)*k[t-1] + i[t-1] + 0.05*z[t-1] + 0.2*z[t]{p}"
    if style == "new":
        b = f" ⟂ 0.01 <= i[t] <= 0.9*{y}" if comp else " ⟂ -inf <= i[t] <= inf"
        out += f"equations:\n\n    arbitrage: |\n        {arb}{b}\n\n    transition: |\n        {tr}\n"
    else:
        b = f"  | 0.01 <= i[t] <= 0.9*{y}" if comp else ""
        out += f"equations:\n\n    arbitrage:\n        - {arb}{b}\n\n    transition:\n        - {tr}\n"
    if exo in ("mc", "mc3"):
        out += "\n    value:\n        - V[t] = %s^(1-sigma)/(1-sigma) + beta*V[t+1]\n" % c
        out += "\n    felicity:\n        - u[t] = %s^(1-sigma)/(1-sigma)\n" % c
        out += "\n    expectation:\n        - m[t] = beta*%s^(-sigma)*(1 - delta + alpha*exp(z[t+1])*k[t+1]^(alpha-1))\n" % c1
        dr = "exp(z[t])*k[t]^alpha" + (" + shift" if defs else "")
        out += f"\n    direct_response:\n        - i[t] = {dr} - m[t]^(-1/sigma)\n"
    out += f"""
calibration:
    beta: 0.9
    sigma: 2.0
    delta: {delta}
    alpha: {alpha}
    rho: 0.8
    sig_z: 0.0004
    shift: 0.0
    z: 0.0
"""
    if two:
        out += "    p: 0.0\n"
    out += """    rk: 1/beta - 1 + delta
    k: (rk/alpha)^(1/(alpha-1))
    i: delta*k
"""
    out += "    y: k^alpha + shift\n    c: y - i\n"
    if exo in ("mc", "mc3"):
        out += "    V: c^(1-sigma)/(1-sigma)/(1-beta)\n    u: c^(1-sigma)/(1-sigma)\n    m: c^(-sigma)\n"
    if exo == "product":
        out += "\nexogenous:\n    z: !UNormal\n        sigma: 0.02\n    p: !AR1\n        rho: rho\n        sigma: sig_z\n"
    else:
        out += f"\nexogenous: {block}"
    out += f"\ndomain:\n    k: [k*0.4, k*1.8]\n\noptions:\n    grid: !Cartesian\n        orders: [{n_grid}]\n"
    return out + extra


def example(name):
    with open(os.path.join(core.REPO, "examples", "models", name + ".yaml"), encoding="utf8") as f:
        return f.read()


_cache = {}


def load_text(txt, check=True):
    """Through the real importer's second half, from a text."""
    import yaml
    import dolo  # noqa: installs dolang's yaml helpers
    from dolo.compiler.model import Model
    data = yaml.compose(txt)
    data["filename"] = "<sim>"
    return Model(data, check=check)


class stub_compile:
    """Compile stub: functions are the factories themselves (everything but code generation is real)."""

    def __enter__(self):
        import dolang.function_compiler as fc
        self.fc, self.old = fc, fc.make_method_from_factory
        fc.make_method_from_factory = lambda fff, vectorize=True, debug=False: (fff, fff)

    def __exit__(self, *a):
        self.fc.make_method_from_factory = self.old


def node_tree(node):
    """Content of a yaml node, for comparison."""
    import yaml
    if isinstance(node, yaml.MappingNode):
        return ("m", node.tag, tuple((node_tree(k), node_tree(v)) for k, v in node.value))
    if isinstance(node, yaml.SequenceNode):
        return ("s", node.tag, tuple(node_tree(v) for v in node.value))
    return ("v", node.tag, node.value)


class memo_compile:
    """Generated functions are compiled once per distinct code; models share them."""

    table = {}

    def __enter__(self):
        import dolang.function_compiler as fc
        self.fc, self.old = fc, fc.make_method_from_factory
        real = self.old

        def make(fff, vectorize=True, use_file=False, debug=False, compile=True):
            key = repr((fff.funname, list(fff.preamble.items()), list(fff.content.items()), list(fff.arguments.items()), vectorize, compile))
            if key not in self.table:
                self.table[key] = real(fff, vectorize=vectorize, compile=compile)
            return self.table[key]

        fc.make_method_from_factory = make
        return self

    def __exit__(self, *a):
        self.fc.make_method_from_factory = self.old


class memo_parse:
    """The third-party expression parser (lark) answers texts it has already parsed from memory, with a fresh copy of the tree."""

    table = {}

    def __enter__(self):
        import lark
        import pickle
        self.lark, self.old = lark, lark.Lark.parse
        real, table = self.old, self.table

        def parse(slf, text, *a, **kw):
            if type(text) is not str:
                return real(slf, text, *a, **kw)
            key = (id(slf), text, a, tuple(sorted(kw.items())))
            hit = table.get(key)
            if hit is None:
                tree = real(slf, text, *a, **kw)
                table[key] = pickle.dumps(tree, protocol=pickle.HIGHEST_PROTOCOL)
                return tree
            return pickle.loads(hit)

        lark.Lark.parse = parse
        return self

    def __exit__(self, *a):
        self.lark.Lark.parse = self.old


def raw_functions(m):
    """The table of compiled functions which egm calls"""
    t = getattr(m, "__original_gufunctions__", None)
    if t is None:  # goes by another name
        import numpy
        t = next((v for v in vars(m).values() if isinstance(v, dict) and v and all(isinstance(f, numpy.ufunc) for f in v.values())), m.functions)
    return t
