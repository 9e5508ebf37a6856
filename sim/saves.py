"""Saved models: recipes, and what a file holds as seen by loading it."""
import io
import numbers
import os
import sys

import numpy as np
import scipy.sparse as sp

from . import calls, canon, core, procsim, world
from .core import Violation

SLOTS = ["s0", "f2", "f0", "s2", "f1", "s1", "s4", "f3"]
EXTS = [".pkl", ".mat"]


def recipe(src, slot=None):
    """a model as data: (slot, events, what the user attached to it)"""
    slot = slot or SLOTS[src.choose(len(SLOTS))]
    ev = world.new_world(src, [slot])
    extra = src.choose(1 << 10) + 1 if src.flip(0.25) else 0
    return slot, ev, extra


def make(rec):
    slot, ev, extra = rec
    E = world.Env(world.api(), ev)
    E.build_all()
    m = E.obj[slot]
    if extra:
        attach(m, extra)
    return m


def attach(m, k):
    """results a user keeps with the model; some are large"""
    rng = np.random.RandomState(k)
    kind = k % 6
    if kind == 0:
        m.eigs = rng.rand(int(rng.choice([3, 40])))
    elif kind == 1:
        # larger than any buffer
        m.eigvects = rng.rand(300, 300) + 1j * rng.rand(300, 300)
    elif kind == 2:
        m.comment = "run %d, U/t=8" % k
    elif kind == 3:
        m.haml = sp.csr_matrix(np.round(rng.rand(6, 6), 1))
    elif kind == 4:
        m.temps = np.linspace(0.1, 1, 1 + k % 7)
        m.corr = rng.rand(2, 3, 1 + k % 7)
    else:
        m.trace = rng.rand(20000)


def blank(like):
    """an object to load into that has nothing in common with what is loaded"""
    A = world.api()
    g = A.ed_geometry.Geometry.createSquareGeometry(2, 1, 0, 0, True, True)
    return A.ed_spins.spinSystem(g, jx=0.123) if type(like).__name__ == "spinSystem" else A.ed_fermions.fermions(g, 0.77, 0.123, ns=[1, 1])


def has_none(o, depth=0):
    """savemat cannot write None"""
    if o is None:
        return True
    if isinstance(o, (list, tuple)):
        return any(has_none(x, depth + 1) for x in o)
    if hasattr(o, "__dict__") and not isinstance(o, (np.ndarray, type)) and not sp.issparse(o) and not callable(o):
        return any(has_none(v, depth + 1) for v in vars(o).values())
    return False


def norm(x):
    """numeric value as the MATLAB format can represent it"""
    if sp.issparse(x):
        x = x.toarray()
    a = np.asarray(x)
    if a.dtype.kind not in "biufc":
        return None
    return np.asarray(a, dtype=complex)


def mat_diff(model, loaded, path=""):
    """numeric content of a model against what came back from a .mat file"""
    d = canon.public(model) if not isinstance(model, dict) else model
    get = loaded if isinstance(loaded, dict) else canon.public(loaded)
    for k in sorted(d):
        v = d[k]
        if callable(v) or isinstance(v, str):
            continue
        if k not in get:
            return f"{path}{k} is missing"
        w = get[k]
        if hasattr(v, "__dict__") and not isinstance(v, np.ndarray) and not sp.issparse(v):
            w = np.asarray(w)
            if w.dtype.names is None:
                continue
            w = w.ravel()[0]
            e = mat_diff(v, {n: w[n] for n in w.dtype.names}, path + k + ".")
            if e:
                return e
            continue
        a = norm(v) if not (isinstance(v, np.ndarray) and v.dtype.kind in "OV") else None
        if a is None:
            continue
        b = norm(w)
        if b is None:
            return f"{path}{k} is not numeric"
        if a.size != b.size or (a.size and not np.array_equal(a.ravel() if a.ndim < 2 else a, b.ravel() if a.ndim < 2 else b, equal_nan=True)):
            return f"{path}{k} differs"
    return None


class quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


class Judge:
    """which of the known models a file holds, decided by loading it"""

    def __init__(self, ctx, models):
        self.models = models            # key -> model
        self.canon = {k: canon.canon(m) for k, m in models.items()}
        self.tmp = os.path.join(ctx.scratch, "judge")
        os.makedirs(self.tmp, exist_ok=True)
        self.cache = {}

    def which(self, content, ext):
        """set of keys of equal models; or a string saying what is wrong"""
        h = (hash(content), len(content), ext)
        if h in self.cache:
            return self.cache[h]
        f = os.path.join(self.tmp, "m" + ext)
        with procsim.R_OPEN(f, "wb") as fh:
            fh.write(content)
        out, why = set(), ""
        for cls in ("spinSystem", "fermions"):
            o = blank([m for m in self.models.values() if type(m).__name__ == cls][0]) if any(type(m).__name__ == cls for m in self.models.values()) else None
            if o is None:
                continue
            try:
                with quiet():
                    o.load(f)
            except Exception as e:
                why = f"cannot be loaded: {type(e).__name__}: {str(e)[:80]}"
                continue
            for k, m in self.models.items():
                if type(m).__name__ != cls:
                    continue
                e = mat_diff(m, o) if ext == ".mat" else canon.diff(canon.canon(o), self.canon[k], tol=0)
                if e is None:
                    out.add(k)
                else:
                    why = why or e
        r = out or why or "holds something else"
        self.cache[h] = r
        return r
