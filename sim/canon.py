"""Canonical copies of library objects, and comparison of them."""
import types

import numpy as np

_SKIP = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, type)


def canon(o, depth=0, seen=()):
    """A deep, independent value: nested tuples of plain values and arrays."""
    if depth > 14 or id(o) in seen:
        return ("...",)
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, complex):
        return ("complex", o.real, o.imag)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objs", o.shape) + tuple(canon(v, depth + 1, seen) for v in o.ravel())
        return np.array(o)
    if isinstance(o, _SKIP):
        return ("fun",)
    seen = seen + (id(o),)
    sub = lambda v: canon(v, depth + 1, seen)
    name = type(o).__name__
    mod = type(o).__module__ or ""
    if isinstance(o, (list, tuple)):
        return ("seq",) + tuple(sub(v) for v in o)
    if mod.startswith("yaml"):
        from . import models
        return models.node_tree(o)
    if name == "DataArray":
        return ("xr", tuple(o.dims), sub(np.asarray(o.data)), tuple((d, sub(np.asarray(o.coords[d].data))) for d in o.dims if d in o.coords))
    if name in ("DataFrame", "Series"):
        return (name, sub(o.to_numpy()), tuple(str(c) for c in o.index), tuple(str(c) for c in getattr(o, "columns", ())))
    if name == "CalibrationDict":
        return ("calib", tuple((g, sub(np.asarray(v))) for g, v in o.grouped.items()), tuple((k, sub(v)) for k, v in o.flat.items()))
    if name == "Model":
        return model_state(o)
    if isinstance(o, dict):
        return (name, tuple((sub(k), sub(v)) for k, v in o.items()))
    if mod.startswith("scipy.sparse"):
        return ("sparse", sub(o.toarray()))
    if mod.startswith(("dolo", "dolang", "sim")):
        try:
            d = vars(o)
        except TypeError:
            return (name,)
        if isinstance(getattr(type(o), "names", None), property):
            try:
                o.names  # made on first use
            except Exception:
                pass
        return ("object " + name, tuple((k, sub(v)) for k, v in sorted(d.items()) if not isinstance(v, _SKIP)))
    return (name,)


def is_object(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0].startswith("object ")


def values_of(dr):
    """What a rule interpolates, as it stores it"""
    kept = {k: v for k, v in vars(dr).items() if isinstance(v, (np.ndarray, list))}
    return canon(kept.get("coefficients", kept))


def model_state(m):
    """What a model reports."""
    return ("model", ("data", canon(m.data, 1)), ("symbols", canon(dict(m.symbols), 1)), ("equations", canon(dict(m.equations), 1)),
            ("definitions", canon(dict(m.definitions), 1)), ("calibration", canon(m.calibration, 1)), ("domain", canon(m.domain, 1)),
            ("exogenous", canon(m.exogenous, 1)), ("functions", tuple(sorted(m.functions.keys()))))


def diff(a, b, rtol=0.0, path=""):
    """None, or the path and values of the first difference"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {str(a)[:100]} / {str(b)[:100]}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} / {b.shape}"
        if a.dtype.kind in "fc" and b.dtype.kind in "fci" or b.dtype.kind in "fc" and a.dtype.kind in "fci":
            with np.errstate(all="ignore"):
                ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * (1e-300 + np.maximum(np.abs(a), np.abs(b)) + (1.0 if rtol else 0.0)))
            if ok.all():
                return None
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
            return f"{path}{list(i)}: {np.atleast_1d(a)[i]!r} / {np.atleast_1d(b)[i]!r}"
        return None if np.array_equal(a, b) else f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, (float, int)):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * (1 + max(abs(a), abs(b))):
            return None
        return f"{path}: {a!r} / {b!r}"
    if is_object(a) and is_object(b) and a[0] == b[0]:
        # private attributes may be made on first use
        da, db = dict(a[1]), dict(b[1])
        for k in sorted(set(da) | set(db)):
            x, y = da.get(k), db.get(k)
            if k.startswith("_") and (x is None or y is None):
                continue
            if (k in da) != (k in db):
                return f"{path}/{a[0]}.{k}: {'given' if k in da else 'missing'} / {'given' if k in db else 'missing'}"
            d = diff(x, y, rtol, f"{path}/{a[0]}.{k}")
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: {str(a)[:120]} / {str(b)[:120]}"
        for i, (x, y) in enumerate(zip(a, b)):
            name = a[0] if i and isinstance(a[0], str) and len(a) <= 3 else i
            d = diff(x, y, rtol, f"{path}/{name if i else ''}" if not (isinstance(x, tuple) and x and isinstance(x[0], str)) else f"{path}/{x[0]}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:120]} / {str(b)[:120]}"


def flat_digest(o):
    """short text of a canonical value, for event logs"""
    import hashlib
    h = hashlib.sha1()

    def walk(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode() + np.ascontiguousarray(v).tobytes())
        elif isinstance(v, tuple):
            h.update(b"(")
            for x in v:
                walk(x)
            h.update(b")")
        else:
            h.update(repr(v).encode())

    walk(o)
    return h.hexdigest()[:12]
