"""Numerical routines behind a switch that makes a chosen invocation fail the way the routine really fails."""
import sys

import numpy as np
import scipy.linalg
import scipy.optimize
import scipy.sparse.linalg
from scipy.sparse.linalg import ArpackNoConvergence

LINALG = ["eig", "eigh", "eigvals", "eigvalsh", "svd", "inv", "pinv", "solve", "lstsq", "matrix_rank", "cholesky", "qr"]
SLINALG = LINALG + ["expm", "logm", "sqrtm", "svdvals", "null_space", "orth", "schur", "lu"]
SPARSE = ["eigsh", "eigs", "svds", "expm", "expm_multiply", "inv", "spsolve", "cg", "gmres", "lobpcg"]
OPT = ["minimize", "minimize_scalar", "root", "root_scalar", "fsolve", "brentq", "bisect", "newton", "brenth", "ridder",
       "toms748", "fmin", "fmin_bfgs", "least_squares", "curve_fit"]


class Control:
    def __init__(self):
        self.n = 0
        self.at = None
        self.how = "raise"
        self.fired = None
        self.depth = 0
        self.persist = False

    def reset(self, at=None, how="raise", persist=False):
        self.n, self.at, self.how, self.fired, self.persist = 0, at, how, None, persist


CTL = Control()


def wrap(name, fn, space):
    def w(*a, **k):
        c = CTL
        if c.depth:
            return fn(*a, **k)
        c.n += 1
        if c.at is None or c.n < c.at or (c.n > c.at and not c.persist):
            c.depth += 1
            try:
                return fn(*a, **k)
            finally:
                c.depth -= 1
        c.fired = f"{space}.{name}"
        return fail(c, name, fn, space, a, k)
    w.__name__ = name
    w.__wrapped__ = fn
    return w


def fail(c, name, fn, space, a, k):
    if c.how == "memory":
        raise MemoryError(f"injected in {name}")
    if space == "sparse":
        if name in ("eigsh", "eigs"):
            c.depth += 1
            try:
                if c.how == "partial":
                    vals, vecs = fn(*a, **k) if k.get("return_eigenvectors", True) else (fn(*a, **k), np.zeros((0, 0)))
                    m = len(vals) // 2
                    raise ArpackNoConvergence("ARPACK error -1: No convergence (%d iterations, %d/%d eigenvectors converged)", vals[:m], vecs[:, :m])
            finally:
                c.depth -= 1
            raise ArpackNoConvergence("No convergence", np.array([]), np.zeros((0, 0)))
        raise np.linalg.LinAlgError("injected: no convergence")
    if space == "optimize":
        c.depth += 1
        try:
            r = fn(*a, **k)
        finally:
            c.depth -= 1
        if name in ("minimize", "minimize_scalar", "root", "least_squares"):
            r.success = False
            r.status = 2
            r.message = "Desired error not necessarily achieved due to precision loss."
            r.x = np.asarray(r.x) + 0.37
            return r
        if name == "root_scalar":
            r.converged = False
            r.flag = "convergence error"
            r.root = r.root + 0.37
            return r
        if name == "fsolve" and k.get("full_output"):
            return np.asarray(r[0]) + 0.37, r[1], 5, "The iteration is not making good progress"
        if name == "fsolve":
            return np.asarray(r) + 0.37
        raise RuntimeError(f"Failed to converge after 100 iterations ({name})")
    raise np.linalg.LinAlgError(f"injected: {name} did not converge")


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    subst = {}
    for mod, names, space in ((np.linalg, LINALG, "numpy"), (scipy.linalg, SLINALG, "scipy"),
                              (scipy.sparse.linalg, SPARSE, "sparse"), (scipy.optimize, OPT, "optimize")):
        for n in names:
            fn = getattr(mod, n, None)
            if fn is None:
                continue
            w = wrap(n, fn, space)
            subst[id(fn)] = w
            setattr(mod, n, w)
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "exact_diag" or n.startswith("exact_diag.")):
            for k, v in list(vars(m).items()):
                if id(v) in subst:
                    setattr(m, k, subst[id(v)])
