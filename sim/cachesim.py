"""Workload and model shared by the cache checks (C01-C06)."""
import hashlib
import importlib.util
import itertools
import json
import os
import subprocess
import sys
import types

from . import core, fs as simfs

_counter = itertools.count()


def load_caching():
    """A fresh copy of the caching module: the state of a new process."""
    path = os.path.join(core.REPO, "dolo", "misc", "caching.py")
    light_packages()
    name = f"dolo.misc._caching_{next(_counter)}"
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.modules.pop(name, None)
    return mod


def light_packages():
    """Make dolo.misc importable without importing the whole of dolo."""
    for pkg in ("dolo", "dolo.misc"):
        if pkg not in sys.modules:
            m = types.ModuleType(pkg)
            m.__path__ = [os.path.join(core.REPO, *pkg.split("."))]
            sys.modules[pkg] = m


# ---------------------------------------------------------------- argument values
class Opaque:
    """Argument that cannot be encoded."""

    def __init__(self, v):
        self.v = v
        self.fun = lambda: v  # cannot be pickled


POOL = {}  # argument objects that are changed in place and passed again


def build(spec):
    import numpy as np
    t = spec["t"]
    if "reuse" in spec:
        plain = {k: v for k, v in spec.items() if k != "reuse"}
        new = build(plain)
        old = POOL.get(spec["reuse"])
        if type(old) is type(new) and (t == "list" or old.shape == new.shape and old.dtype == new.dtype):
            old[:] = new
            return old
        POOL[spec["reuse"]] = new
        return new
    if t in ("int", "str", "bool", "none"):
        return spec.get("v")
    if t == "float":
        return float(spec["v"])
    if t == "bytes":
        return spec["v"].encode("latin1")
    if t == "big":
        return int(spec["v"])
    if t == "complex":
        return complex(*spec["v"])
    if t == "tuple":
        return tuple(build(e) for e in spec["v"])
    if t == "list":
        return [build(e) for e in spec["v"]]
    if t == "dict":
        return {build(k): build(v) for k, v in spec["v"]}
    if t == "twin":  # one object, twice
        v = build(spec["v"])
        return [v, v] if spec["of"] == "list" else (v, v)
    if t == "nd":
        a = np.array(spec["v"], dtype=spec["dtype"]).reshape(spec["shape"])
        if spec.get("layout") == "F":
            a = np.asfortranarray(a)
        elif spec.get("layout") == "view":
            b = np.full(a.shape + (2,), 7, dtype=a.dtype)
            b[..., 0] = a
            a = b[..., 0]
        return a
    if t == "npscalar":
        return np.dtype(spec["dtype"]).type(spec["v"])
    if t == "opaque":
        return Opaque(spec["v"])
    raise ValueError(t)


def canon(v):
    """Text identifying a value with its types and shapes (the reference notion of `same argument`)."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return f"nd<{v.dtype}>{v.shape}[{','.join(canon(e) for e in v.ravel().tolist())}]"
    if isinstance(v, np.generic):
        return f"np<{v.dtype}>({canon(v.item())})"
    if isinstance(v, dict):
        return "{" + ",".join(sorted(f"{canon(k)}:{canon(w)}" for k, w in v.items())) + "}"
    if isinstance(v, (tuple, list)):
        return f"{type(v).__name__}({','.join(canon(e) for e in v)})"
    if isinstance(v, Opaque):
        return f"opaque({v.v})"
    return f"{type(v).__name__}:{v!r}"


def call_key(args, kwargs):
    return "(" + ";".join(canon(a) for a in args) + ")" + canon(kwargs)


class Boom(Exception):
    pass


def value_of(fname, kind, args, kwargs):
    """The pure function behind every cached function."""
    import numpy as np
    key = f"{fname}|{call_key(args, kwargs)}"
    h = hashlib.sha1(key.encode()).digest()
    if kind == "odd-raises" and h[0] % 2:
        raise Boom(key)
    if kind == "key-raises":
        if h[0] % 2:
            raise KeyError(key)
    if kind == "type-raises":
        if h[0] % 2:
            raise TypeError(key)
    if kind == "os-raises":
        if h[0] % 2:
            raise OSError(5, key)
    if kind == "array":
        return np.frombuffer(h * 4, dtype=np.uint8).reshape((4, 20)).astype(float) + len(key)
    if kind == "big":
        return {"key": key, "data": [h.hex()] * 40 + list(h)}
    if kind == "unpicklable":
        return Opaque(key)
    if kind == "falsy":
        return [0, False, "", 0.0, [], {}][h[0] % 6]
    return (key, h[1])


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.v == b.v
    return type(a) is type(b) and a == b


def make_fun(name, kind, counts, hook=None):
    def fun(*args, **kwargs):
        counts.append((name, call_key(args, kwargs)))
        if hook:
            hook(name)
        value = value_of(name, kind, args, kwargs)
        if kind == "mutates":  # uses its arguments as work arrays
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, list):
                    a.append("used")
                elif hasattr(a, "flatten") and getattr(a, "shape", ()):
                    a[...] = 0
        return value
    fun.__name__ = name
    fun.__qualname__ = "Owner.make_fun.<locals>." + name  # a method or local function
    fun.__doc__ = f"cached function {name}"
    return fun


# ---------------------------------------------------------------- generation
# names of functions which must not be taken for each other
NAMES = ["fun", "_fun", "__fun", "fun_", "__fun__", "Fun", "FUN", "fun_b", "un", "fu", "fun2", "fun1", "f", "fun.b", "f.un", "fün", "fun b",
         "fun" + "x" * 60 + "1", "fun" + "x" * 60 + "2", "fun_1", "fun.1", "test_fun", "cached_fun", "<lambda>"]


def gen_names(rng, n):
    return rng.sample(NAMES[:8] if rng.random() < 0.4 else NAMES, n)


COLLIDING = [
    [{"t": "int", "v": -1}, {"t": "int", "v": -2}],
    [{"t": "int", "v": 1}, {"t": "bool", "v": True}, {"t": "float", "v": 1.0}],
    [{"t": "int", "v": 0}, {"t": "bool", "v": False}, {"t": "float", "v": 0.0}, {"t": "none", "v": None}],
    [{"t": "big", "v": str(2 ** 61 - 1)}, {"t": "int", "v": 0}],
    [{"t": "big", "v": str(2 ** 61)}, {"t": "int", "v": 1}],
    [{"t": "str", "v": "a"}, {"t": "bytes", "v": "a"}],
    [{"t": "str", "v": "1"}, {"t": "int", "v": 1}],
    [{"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [4]}, {"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [2, 2]},
     {"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [4, 1]}, {"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [1, 4]}],
    [{"t": "nd", "v": [1, 2], "dtype": "int64", "shape": [2]}, {"t": "nd", "v": [1, 2], "dtype": "float64", "shape": [2]},
     {"t": "nd", "v": [1, 2], "dtype": "float32", "shape": [2]},
     {"t": "tuple", "v": [{"t": "int", "v": 1}, {"t": "int", "v": 2}]}, {"t": "list", "v": [{"t": "int", "v": 1}, {"t": "int", "v": 2}]}],
    [{"t": "nd", "v": [], "dtype": "float64", "shape": [0]}, {"t": "nd", "v": [], "dtype": "float64", "shape": [0, 3]},
     {"t": "tuple", "v": []}, {"t": "list", "v": []}, {"t": "dict", "v": []}, {"t": "str", "v": ""}],
    [{"t": "nd", "v": [0.1, 0.2], "dtype": "float64", "shape": [2]}, {"t": "nd", "v": [0.1, 0.2], "dtype": "float32", "shape": [2]}],
    [{"t": "dict", "v": [[{"t": "str", "v": "a"}, {"t": "int", "v": 1}]]}, {"t": "dict", "v": [[{"t": "str", "v": "a"}, {"t": "int", "v": 2}]]},
     {"t": "dict", "v": [[{"t": "str", "v": "b"}, {"t": "int", "v": 1}]]}, {"t": "dict", "v": [[{"t": "str", "v": "a"}, {"t": "float", "v": 1.0}]]}],
    [{"t": "npscalar", "v": 1.5, "dtype": "float64"}, {"t": "float", "v": 1.5}, {"t": "nd", "v": [1.5], "dtype": "float64", "shape": [1]}],
    [{"t": "tuple", "v": [{"t": "list", "v": [{"t": "int", "v": 1}]}]}, {"t": "tuple", "v": [{"t": "int", "v": 1}]},
     {"t": "list", "v": [{"t": "tuple", "v": [{"t": "int", "v": 1}]}]}],
    [{"t": "nd", "v": [-1.0, -2.0], "dtype": "float64", "shape": [2]}, {"t": "nd", "v": [-2.0, -1.0], "dtype": "float64", "shape": [2]},
     {"t": "nd", "v": [-2.0, -2.0], "dtype": "float64", "shape": [2]}],
    [{"t": "list", "v": [{"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [2, 2]}]},
     {"t": "list", "v": [{"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [4]}]}],
    [{"t": "complex", "v": [1, 0]}, {"t": "int", "v": 1}],
    [{"t": "float", "v": 0.1}, {"t": "float", "v": 0.10000000000000002}, {"t": "npscalar", "v": 0.1, "dtype": "float32"}],
    [{"t": "nd", "v": list(range(1200)), "dtype": "int64", "shape": [1200]},
     {"t": "nd", "v": list(range(600)) + [-5] + list(range(601, 1200)), "dtype": "int64", "shape": [1200]}],
    [{"t": "str", "v": "x" * 300 + "a"}, {"t": "str", "v": "x" * 300 + "b"}],
    [{"t": "str", "v": "a,b"}, {"t": "str", "v": "a"}, {"t": "str", "v": "ä"}, {"t": "str", "v": "a/b\x00*?"}],
    [{"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [2, 2]}, {"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [2, 2], "layout": "F"},
     {"t": "nd", "v": [1, 3, 2, 4], "dtype": "int64", "shape": [2, 2], "layout": "F"}, {"t": "nd", "v": [1, 3, 2, 4], "dtype": "int64", "shape": [2, 2]},
     {"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": [2, 2], "layout": "view"}],
    [{"t": "nd", "v": [1.5, 2.5, 3.5, 4.5, 5.5, 6.5], "dtype": "float64", "shape": [2, 3]}, {"t": "nd", "v": [1.5, 3.5, 5.5, 2.5, 4.5, 6.5], "dtype": "float64", "shape": [2, 3], "layout": "F"},
     {"t": "nd", "v": [1.5, 2.5, 3.5, 4.5, 5.5, 6.5], "dtype": "float64", "shape": [3, 2]}, {"t": "nd", "v": [1.5, 3.5, 5.5, 2.5, 4.5, 6.5], "dtype": "float64", "shape": [3, 2], "layout": "F"}],
    [{"t": "twin", "of": "tuple", "v": {"t": "str", "v": "same string"}}, {"t": "tuple", "v": [{"t": "str", "v": "same string"}, {"t": "str", "v": "same string"}]},
     {"t": "twin", "of": "list", "v": {"t": "tuple", "v": [{"t": "big", "v": "123456789012"}]}}, {"t": "list", "v": [{"t": "tuple", "v": [{"t": "big", "v": "123456789012"}]}] * 2}],
    [{"t": "nd", "v": [True, False], "dtype": "bool", "shape": [2]}, {"t": "nd", "v": [1, 0], "dtype": "int64", "shape": [2]}],
]


def gen_value(rng, depth=0, opaque=False):
    r = rng.random()
    if r < 0.55:
        fam = rng.choice(COLLIDING)
        return rng.choice(fam)
    if r < 0.65:
        return {"t": "int", "v": rng.randint(-3, 3)}
    if r < 0.72:
        return {"t": "float", "v": rng.choice([-1.0, -2.0, 0.5, 1e300, 2.5])}
    if r < 0.80:
        return {"t": "str", "v": rng.choice(["a", "b", "ab", "", "1"])}
    if r < 0.88:
        n = rng.randint(1, 4)
        return {"t": "nd", "v": [rng.randint(-2, 2) for _ in range(n)], "dtype": rng.choice(["int64", "float64"]), "shape": [n]}
    if opaque and r < 0.91:
        return {"t": "opaque", "v": rng.randint(0, 2)}
    if depth < 2:
        return {"t": rng.choice(["tuple", "list"]), "v": [gen_value(rng, depth + 1, opaque) for _ in range(rng.randint(0, 2))]}
    return {"t": "none", "v": None}


def gen_calls(rng, n_pool, opaque=False):
    """A small pool of calls, biased towards near-collisions, from which a history picks."""
    pool = []
    while len(pool) < n_pool:
        r = rng.random()
        if rng.random() < 0.08:  # many arguments, one of them differing
            vs = [gen_value(rng, 2) for _ in range(rng.randint(4, 9))]
            j = rng.randrange(len(vs))
            pool += [{"args": vs, "kw": []}, {"args": vs[:j] + [{"t": "str", "v": "other"}] + vs[j + 1:], "kw": []}, {"args": vs[:-1], "kw": []}]
            continue
        if r < 0.35:  # a family of near-equal single arguments
            fam = rng.choice(COLLIDING)
            for v in rng.sample(fam, min(len(fam), 3)):
                pool.append({"args": [v], "kw": []})
        elif r < 0.5:  # same values, different places
            a, b = gen_value(rng), gen_value(rng)
            pool += [{"args": [a, b], "kw": []}, {"args": [b, a], "kw": []}, {"args": [a], "kw": [["k", b]]},
                     {"args": [{"t": "tuple", "v": [a, b]}], "kw": []}, {"args": [a], "kw": [["j", b]]}]
        elif r < 0.58:
            a = gen_value(rng)
            pool += [{"args": [a, a], "kw": []}, {"args": [a], "kw": []}, {"args": [], "kw": [["k", a]]}, {"args": [a, a, a], "kw": []}]
        elif r < 0.64:
            a, b = gen_value(rng), gen_value(rng)
            pool += [{"args": [], "kw": [["k", a], ["j", b]]}, {"args": [], "kw": [["j", a], ["k", b]]},
                     {"args": [{"t": "dict", "v": [[{"t": "str", "v": "k"}, a]]}], "kw": []}]
        else:
            pool.append({"args": [gen_value(rng, 0, opaque) for _ in range(rng.randint(0, 3))],
                         "kw": [[k, gen_value(rng)] for k in rng.sample(["k", "j"], rng.randint(0, 1))]})
    return pool[:max(n_pool, 2)]


def add_reuse(rng, op, owner=0):
    """Sometimes pass the same array or list object again with other contents."""
    a = op["args"][0] if op["args"] else {"t": None}
    if (a["t"] == "list" or (a["t"] == "nd" and a["shape"])) and rng.random() < 0.5:
        a = dict(a, reuse=f"{owner}/{a['t']}/{a.get('dtype')}/{a.get('shape')}/{rng.randint(0, 1)}")
        return dict(op, args=[a] + op["args"][1:])
    return op


def many(n):
    """n different single arguments"""
    for i in range(n):
        yield {"t": "int", "v": i} if i % 3 == 0 else {"t": "str", "v": f"a{i}"} if i % 3 == 1 else {"t": "nd", "v": [i, i + 1], "dtype": "float64", "shape": [2]}


def has_opaque(spec):
    if isinstance(spec, dict):
        return spec.get("t") == "opaque" or any(has_opaque(v) for v in spec.values())
    if isinstance(spec, list):
        return any(has_opaque(v) for v in spec)
    return False


def has_nan(spec):
    return "nan" in json.dumps(spec)


def do_call(cached, op):
    args = [build(a) for a in op["args"]]
    kwargs = {k: build(v) for k, v in op["kw"]}
    return cached(*args, **kwargs), args, kwargs


def expect(fname, kind, op):
    args = [build(a) for a in op["args"]]
    kwargs = {k: build(v) for k, v in op["kw"]}
    key = call_key(args, kwargs)
    try:
        return key, ("ok", value_of(fname, kind, args, kwargs))
    except Exception as e:
        return key, ("exc", type(e).__name__, str(e))


def outcome(cached, op):
    """Run one call on the real code; BaseExceptions of the simulator pass through."""
    args = [build(a) for a in op["args"]]
    kwargs = {k: build(v) for k, v in op["kw"]}
    try:
        return ("ok", cached(*args, **kwargs))
    except simfs.SimCrash:
        raise
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def check_outcome(got, want, where):
    if got[0] == "exc" and want[0] == "ok":
        raise core.Violation("call-failed", f"{where}: the cached call raised {got[1]}: {got[2][:200]}; the undecorated function returns a value")
    if got[0] == "ok" and want[0] == "exc":
        raise core.Violation("exception-lost", f"{where}: the function raises {want[1]} but the cached call returned {str(got[1])[:200]}")
    if got[0] == "exc":
        if got[1:] != want[1:]:
            raise core.Violation("exception-changed", f"{where}: the function raises {want[1:]}, the cached call raised {got[1:]}")
        return
    if not same(got[1], want[1]):
        raise core.Violation("wrong-value", f"{where}: the cached call returned {str(got[1])[:300]} but the function gives {str(want[1])[:300]}")


def short(op):
    return "(" + ", ".join([canon(build(a))[:60] for a in op["args"]] + [f"{k}={canon(build(v))[:60]}" for k, v in op["kw"]]) + ")"


# ---------------------------------------------------------------- other interpreters (hash seeds)
class Node:
    """A separate interpreter with its own hash seed, stepped by this process over a pipe."""

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), DOLO_SIM_READY="1")
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-c",
                                   f"import sys; sys.path[:0]=[{core.VERIF!r}, {core.REPO!r}]; from sim import cachesim; cachesim.node_main()"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")

    def ask(self, obj):
        self.p.stdin.write((json.dumps(obj) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.Stuck("node interpreter ended")
        return json.loads(line)


def node_main():
    import importlib
    light_packages()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = importlib.import_module("sim.checks." + req.get("mod", "c01")).exec_session(req["session"], req["scenario"], req["root"])
        except Exception as e:  # pragma: no cover
            import traceback
            res = {"error": traceback.format_exc()[-1500:]}
        out.write(json.dumps(res) + "\n")
        out.flush()
