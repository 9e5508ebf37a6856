"""Sparse diagonalisation for every start vector the random generator could have given."""
import sys
import zlib

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from scipy.sparse.linalg import ArpackNoConvergence

from . import world
from .core import Violation

LEVEL = "exploration"
COUNTS = {"quick": 1200, "thorough": 30000}
RULE = ("histories of sparse diagonalisations of random Hermitian matrices (real, complex, sparse, block structured; spectra of "
        "scales 1e-2 to 1e4, on both sides of zero, gaps down to 1e-3 of the scale) and of model Hamiltonians without degeneracy; the "
        "start vector of the iteration is drawn by the simulator (generic, close to an eigenvector, almost orthogonal to "
        "wanted ones); convergence failures are injected or forced by an iteration limit; answers are compared with dense diagonalisation")
STATE_MEASURE = "distinct (size, levels, kind of matrix, scale, kind of start, outcome) tuples"
REAL = ["exact_diag diagH", "scipy eigsh (ARPACK)", "numpy"]
STUB = ["the random start vector (drawn by the seed)", "injected convergence failure"]
ASSUMPTIONS = ["dense diagonalisation by numpy is correct", "start vectors have a component of at least 1e-5 along every eigenvector"]


class Ctl:
    start = None
    fail = None
    fired = None
    inside = False


C = Ctl()


def install():
    real = spl.eigsh
    reals = {"eigsh": spl.eigsh, "eigs": spl.eigs}
    subst = {}
    for n, fn in reals.items():
        def w(A, k=6, *a, _fn=fn, **kw):
            if C.inside:
                return _fn(A, k, *a, **kw)
            C.inside = True
            try:
                if kw.get("v0") is None and C.start is not None and A.shape[0] == len(C.start):
                    kw["v0"] = C.start if np.iscomplexobj(A) or np.isrealobj(C.start) else C.start.real
                if C.fail == "raise":
                    C.fired = True
                    vals, vecs = _fn(A, k, *a, **kw)
                    m = len(vals) // 2
                    raise ArpackNoConvergence("ARPACK error -1: No convergence (%d iterations, %d/%d eigenvectors converged)" % (10, m, k),
                                              vals[:m], vecs[:, :m])
                if C.fail == "limit":
                    kw["maxiter"] = 1
                return _fn(A, k, *a, **kw)
            except ArpackNoConvergence:
                C.fired = True
                raise
            finally:
                C.inside = False
        subst[id(fn)] = w
        setattr(spl, n, w)
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "exact_diag" or n.startswith("exact_diag.")):
            for k, v in list(vars(m).items()):
                if id(v) in subst:
                    setattr(m, k, subst[id(v)])
    return real


def matrix(src, tier):
    n = 3 + src.choose(38 if tier == "quick" else 90)
    if src.flip(0.04 if tier == "quick" else 0.1):
        n = [100, 150, 220, 300, 400][src.choose(5)]
    kind = ["real", "complex", "sparse", "blocks", "diagonal"][src.weighted([3, 3, 2, 2, 1])]
    scale = [1.0, 10.0, 1e-2, 300.0, 1e4, 90.0][src.choose(6)]
    shift = [0.0, -1.0, 1.0, -100.0 / scale, 3.0, -3.0][src.choose(6)]
    r = np.random.RandomState(zlib.crc32(repr((n, kind, scale, shift, src.choose(1 << 20))).encode()) & 0x7fffffff)
    e = np.sort(r.uniform(-1, 1, n))
    # gaps of at least a thousandth of the scale
    for i in range(1, n):
        e[i] = max(e[i], e[i - 1] + 1e-3)
    e = scale * (e + shift)
    if kind == "diagonal":
        h = np.diag(r.permutation(e))
    elif kind == "blocks":
        h = np.zeros((n, n), dtype=complex if src.flip(0.5) else float)
        e = r.permutation(e)
        i = 0
        while i < n:
            m = min(n - i, 1 + r.randint(5))
            q = r.normal(size=(m, m)) + (1j * r.normal(size=(m, m)) if np.iscomplexobj(h) else 0)
            q, _ = np.linalg.qr(q)
            h[i:i + m, i:i + m] = (q * e[i:i + m]).dot(q.conj().T)
            i += m
        p = r.permutation(n)
        h = h[np.ix_(p, p)]
    elif kind == "sparse":
        h = r.normal(size=(n, n)) * (r.uniform(size=(n, n)) < 3.0 / n)
        h = scale * (h + h.T + np.diag(r.normal(size=n)) + shift * np.eye(n))
    else:
        q = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if kind == "complex" else 0)
        q, _ = np.linalg.qr(q)
        h = (q * e).dot(q.conj().T)
    h = (h + h.conj().T) / 2
    return h, kind, scale, r


def related(src, prev):
    """the next Hamiltonian of a sequence: the same again, a multiple, or new numbers with the same zeros (so the same symmetries)"""
    h, kind, scale, r = prev
    how = ["same", "multiple", "blocks"][src.choose(3)]
    if how == "multiple":
        f = [2.0, -1.0, 0.3][src.choose(3)]
        return h * f, kind, scale * abs(f), r
    if how == "blocks":
        n = h.shape[0]
        a, lab = h != 0, np.arange(n)
        for _ in range(n):
            new = np.array([lab[a[i] | (np.arange(n) == i)].min() for i in range(n)])
            if (new == lab).all():
                break
            lab = new
        out = np.array(h)
        for b in np.unique(lab):
            i = np.where(lab == b)[0]
            q = r.normal(size=(len(i), len(i))) + (1j * r.normal(size=(len(i), len(i))) if np.iscomplexobj(h) else 0)
            out[np.ix_(i, i)] = out[np.ix_(i, i)] + scale * (q + q.conj().T) / 4
        return out, kind, scale, r
    return h, kind, scale, r


def model_matrix(ctx, A):
    src = ctx.src
    ev = world.new_world(src, [["s0"], ["f0"], ["s1"], ["f2"], ["s2"]][src.choose(5)])
    E = world.Env(A, ev)
    E.build_all()
    m = [E.obj[s] for s in E.obj if s[0] != "g"][0]
    h = np.asarray(m.createH().todense())
    return m, h, np.random.RandomState(src.choose(1 << 20))


def run(ctx):
    src = ctx.src
    A = world.api()
    install()
    import io
    out, sys.stdout = sys.stdout, io.StringIO()
    g = A.ed_geometry.Geometry.createSquareGeometry(2, 1, 0, 0, True, True)
    models = [A.ed_spins.spinSystem(g, jx=1.0, jy=0.5, jz=0.2), A.ed_fermions.fermions(g, 1.0, 1.0)]
    prev = hs = None
    for rnd in range(5 if ctx.tier == "quick" else 12):
        m = models[src.choose(2)]
        if prev is not None and src.flip(0.4):
            h, kind, scale, r = related(src, prev)
            ctx.fault("related_to_the_solve_before")
        elif src.flip(0.15):
            m, h, r = model_matrix(ctx, A)
            kind, scale = "model", max(1e-9, np.abs(h).max())
        else:
            h, kind, scale, r = matrix(src, ctx.tier)
        prev = (h, kind, scale, r)
        n = h.shape[0]
        e, v = np.linalg.eigh(h)
        span = max(np.abs(e).max(), 1e-12)
        if n < 3 or np.abs(h - h.conj().T).max() > 1e-12 or np.min(np.diff(e)) < 1e-4 * span or np.min(np.diff(e)) < 1e-6:
            ctx.counts["degenerate_skipped"] += 1
            continue
        k = 1 + src.choose(min(n - 2, 12))
        st = ["generic", "near_eigenvector", "near_orthogonal", "near_constant"][src.weighted([4, 2, 2, 1])]
        x = r.normal(size=n) + (1j * r.normal(size=n) if np.iscomplexobj(h) else 0)
        if st == "near_eigenvector":
            x = v[:, r.randint(n)] + 1e-3 * x
        elif st == "near_orthogonal":
            w = v[:, -k:] if src.flip(0.5) else v[:, :k]
            x = x - w.dot(w.conj().T.dot(x)) + 1e-3 * x
        elif st == "near_constant":
            x = np.ones(n) + 1e-2 * x
        C.start = x
        C.fired = None
        C.fail = [None, "raise", "limit"][src.weighted([7, 1, 1])]
        form = ["csr", "csc", "coo"][src.choose(3)]
        new = sp.csr_matrix(h).asformat(form)
        if hs is not None and hs.format == form and form != "coo" and hs.shape == new.shape and hs.dtype == new.dtype and src.flip(0.5):
            # the caller reuses its matrix object for the new numbers
            hs.data, hs.indices, hs.indptr = new.data, new.indices, new.indptr
        else:
            hs = new
        loud = src.flip(0.2)
        ctx.steps += 1
        try:
            got = m.diagH(hs, neigs=k, use_sparse=True, print_results=loud)
            err = None
        except Exception as ex:
            err = ex
        fired, C.fail, C.start = C.fired, None, None
        if fired:
            ctx.fault("no_convergence")
        ctx.fault("start_" + st)
        ctx.log(n, k, kind, scale, st, form, fired, type(err).__name__)
        ctx.state(n, k, kind, scale, st, type(err).__name__)
        where = f"{n} x {n} {kind} matrix of scale {scale:g}, {k} levels, {st} start"
        if err is not None:
            if not fired and isinstance(err, ArpackNoConvergence) is False:
                raise Violation("error", f"{where}: raised {err!r}")
            ctx.counts["raised"] += 1
            continue
        vals, vecs = np.asarray(got[0]), np.asarray(got[1])
        ctx.counts["solves"] += 1
        tol = 1e-8 * (span + 200)
        if vals.shape != (k,) or vecs.shape != (n, k):
            raise Violation("count", f"{where}{', after a convergence failure' if fired else ''}: {vals.shape} values and {vecs.shape} vectors")
        if np.any(np.diff(vals) < 0):
            raise Violation("order", f"{where}: not ascending: {vals}")
        res = np.abs(h.dot(vecs) - vecs * vals).max()
        if not res < tol:
            raise Violation("residual", f"{where}: eigenvector residual {res:.3g}")
        gram = np.abs(vecs.conj().T.dot(vecs) - np.eye(k)).max()
        if not gram < 1e-8:
            raise Violation("orthonormal", f"{where}: vectors not orthonormal by {gram:.3g}")
        lo, hi = np.abs(vals - e[:k]).max(), np.abs(vals - e[-k:]).max()
        if not min(lo, hi) < tol:
            raise Violation("block", f"{where}: levels {vals} are neither the lowest nor the highest of {e}")
        if np.abs(hs.toarray() - h).max() > 0:
            raise Violation("modified", f"{where}: the Hamiltonian was changed")
    sys.stdout = out
