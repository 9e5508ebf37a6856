"""Comparison of results by value: numbers to a tolerance, objects by class name and attributes."""
import types

import numpy as np
import scipy.sparse as sp

TOL = 1e-9


def canon(o, depth=0, seen=None):
    """nested tuples with arrays as leaves; independent of sparse format, and of identity"""
    if seen is None:
        seen = {}
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (int, np.integer)):
        return ("n", np.asarray(o, dtype=complex))
    if isinstance(o, (float, complex, np.floating, np.complexfloating)):
        return ("n", np.asarray(o, dtype=complex))
    if isinstance(o, np.bool_):
        return bool(o)
    if depth > 12:
        return ("deep", type(o).__name__)
    if sp.issparse(o):
        return ("sparse", tuple(o.shape), np.asarray(o.toarray(), dtype=complex))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, tuple(canon(x, depth + 1, seen) for x in o.ravel()))
        if o.dtype.names:
            return ("struct", o.shape, tuple((n, canon(o[n], depth + 1, seen)) for n in o.dtype.names))
        if o.dtype.kind in "biufc":
            return ("arr", o.shape, np.asarray(o, dtype=complex))
        return ("rawarr", o.shape, o.tobytes())
    if id(o) in seen:
        return ("cycle",)
    seen[id(o)] = True
    try:
        if isinstance(o, (list, tuple)):
            return ("seq", tuple(canon(x, depth + 1, seen) for x in o))
        if isinstance(o, dict):
            items = sorted(((repr(k), canon(v, depth + 1, seen)) for k, v in o.items()), key=lambda t: t[0])
            return ("dict", tuple(items))
        if isinstance(o, (set, frozenset)):
            return ("set", tuple(sorted(repr(x) for x in o)))
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.ufunc)):
            return ("fn", getattr(o, "__name__", "?"))
        if isinstance(o, type):
            return ("type", o.__name__)
        if hasattr(o, "__dict__"):
            return ("obj", type(o).__name__, canon(public(o), depth + 1, seen))
        if isinstance(o, range):
            return ("seq", tuple(canon(x, depth + 1, seen) for x in o))
        return ("other", type(o).__name__)
    finally:
        seen.pop(id(o), None)


def public(o):
    """attributes and properties that do not start with an underscore"""
    d = {k: v for k, v in vars(o).items() if not k.startswith("_")}
    for t in type(o).__mro__:
        for k, v in vars(t).items():
            if isinstance(v, property) and not k.startswith("_") and k not in d:
                try:
                    d[k] = getattr(o, k)
                except Exception as e:
                    d[k] = "raises " + type(e).__name__
    return d


def diff(a, b, tol=TOL, path=""):
    """None if equal, else a description of the first difference"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: number against {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} against {b.shape}"
        with np.errstate(all="ignore"):
            ok = (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))
        if not np.all(ok):
            k = int(np.argmin(ok.ravel()))
            return f"{path}: {a.ravel()[k]} against {b.ravel()[k]} (element {k} of shape {a.shape})"
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: {len(a)} items against {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, f"{path}/{i if not (isinstance(x, str)) else x}" if not isinstance(x, str) else path)
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return f"{path}: {str(a)[:80]!r} against {str(b)[:80]!r}"
    return None


def leaves(o, depth=0):
    """all numeric arrays in a nested result"""
    if sp.issparse(o):
        yield o.toarray()
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.ravel():
                yield from leaves(x, depth + 1)
        else:
            yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from leaves(x, depth + 1)
    elif isinstance(o, dict):
        for x in o.values():
            yield from leaves(x, depth + 1)
