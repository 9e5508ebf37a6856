"""Relabelling observed at every instruction, interrupted at every instruction, rejected, and undone."""
import copy
import threading

import numpy as np

from . import calls, world
from .core import Violation

LEVEL = "fault_enumeration"
COUNTS = {"quick": 1200, "thorough": 30000}
RULE = ("geometries of every kind, relabelled repeatedly by valid permutations (lists, arrays, tuples of numpy integers, "
        "the package's own sorting permutations) and invalid ones; an observer reads all site-dependent attributes at every bytecode "
        "instruction of the package, and interrupts or memory errors are raised at chosen instructions")
STATE_MEASURE = "distinct (geometry kind, kind of permutation, interrupted position) triples"
REAL = ["exact_diag.ed_geometry", "numpy"]
STUB = ["delivery of the interrupt"]
ASSUMPTIONS = ["the new labelling is known independently: position and matrix entries permuted by index"]
NAMES = ["xlocs", "ylocs", "adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat"]
EXTRA = [world._sq(3, 3), world._sq(3, 2, False, True, 0.7), world._sq(6, 1, False, True, 0.2),
         lambda G, p: G.createHexagonalGeometry(2, 2, 0.3, 0.1, False, False),
         lambda G, p: G.createTriangleGeometry(3, 3, 0.3, 0.1, False, False),
         lambda G, p: G.createTiltedSquareGeometry(3, 1, 0.4, 0., False, False),
         lambda G, p: G.createRegularPolygonGeometry(7), world._cluster([0.5], [1.5]),
         world._cluster([2, 0, 1, 1, 5], [0, 0, 0, 3, 5])]
GEOMS = world.REAL_SMALL + world.REAL_FOUR + world.PHASES + EXTRA


def view(g):
    return {k: np.array(getattr(g, k)) for k in NAMES}


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-12)


def moved(v, perm):
    perm = [int(x) for x in perm]
    out = {}
    for k, a in v.items():
        out[k] = a[perm] if a.ndim == 1 else a[np.ix_(perm, perm)]
    return out


def label(v, old, new):
    """'old', 'new', 'both' or a description of the mixture"""
    is_old = {k: close(v[k], old[k]) for k in NAMES}
    is_new = {k: close(v[k], new[k]) for k in NAMES}
    if all(is_old.values()):
        return "both" if all(is_new.values()) else "old"
    if all(is_new.values()):
        return "new"
    return "mixed: " + ", ".join(f"{k} {'old' if is_old[k] else 'new' if is_new[k] else 'neither'}" for k in NAMES)


def bad_perm(src, n):
    k = src.choose(9)
    p = list(range(n))
    if k == 0 and n > 1:
        p[0] = p[1]
    elif k == 1:
        p = p[:-1]
    elif k == 2:
        p = p + [n]
    elif k == 3:
        p[-1] = n
    elif k == 4:
        p[0] = -1
    elif k == 5:
        p = [x + 1 for x in p]
    elif k == 6:
        p = [x + 0.5 for x in p]
    elif k == 7 and n > 1:
        p = p[::-1]
        p[0] = p[0] - n       # the same site, counted from the end
    else:
        p = p + p
    return p, k


def run(ctx):
    src = ctx.src
    A = world.api()
    p = world.P(src=src)
    gi = src.stratum(len(GEOMS))
    g = GEOMS[gi](A.ed_geometry.Geometry, p)
    n = g.nsites
    me = threading.get_ident()
    for rnd in range(5 if ctx.tier == "quick" else 12):
        old = view(g)
        other = {k: calls.canon(v) for k, v in vars(g).items() if k not in NAMES and not k.startswith("_")}
        kind = src.weighted([5, 2, 1, 1, 1])
        bad = False
        if kind in (0, 1):
            perm = src.shuffle(range(n))
            if kind == 1:
                perm = np.array(perm)
        elif kind == 2:
            mode = src.pick(["top_alternating", "top_left", "bottom_right", "adjacency"])
            try:
                perm = g.get_sorting_permutation(mode)
            except Exception:
                perm = list(range(n))
        elif kind == 3:
            perm = [np.int64(x) for x in src.shuffle(range(n))]
        if kind == 4:
            perm, kb = bad_perm(src, n)
            bad = sorted(perm) != list(range(n))
            ctx.fault("invalid_permutation")
        perm0 = np.array(perm).tolist()
        new = old if bad else moved(old, perm)
        stop = src.flip(0.5)
        exc = (KeyboardInterrupt, MemoryError)[src.choose(2)]
        tgt = None
        if stop:
            prof = calls.Profile()
            with calls.Monitor("instr") as m:
                m.handlers[me] = prof
                try:
                    copy.deepcopy(g).permute_sites(perm)
                except Exception:
                    pass
                finally:
                    m.handlers.clear()
            tgt = calls.target(src, prof.data())
        seen = {"n": 0, "last": "old", "where": None, "key": None}

        def act():
            raise exc("injected")
        at = calls.At(tgt, act)

        def obs(code, pos):
            seen["n"] += 1
            ctx.steps += 1
            v = view(g)
            key = [v[k].tobytes() for k in NAMES]
            if key != seen["key"]:
                look(v, code, pos)
                seen["key"] = key
            at(code, pos)
            seen["where"] = at.where

        def look(v, code, pos):
            lab = label(v, old, new)
            if lab.startswith("mixed"):
                raise Violation("mixed", f"while relabelling a {n}-site geometry by {perm0}, at {code.co_qualname}:{pos}: {lab}")
            if seen["last"] == "new" and lab == "old":
                raise Violation("flipped", f"relabelling by {perm0} went from the new labelling back to the old one")
            seen["last"] = lab
        err = None
        with calls.Monitor("instr") as m:
            m.handlers[me] = obs
            try:
                g.permute_sites(perm)
            except Violation:
                raise
            except BaseException as e:
                err = e
            finally:
                m.handlers.clear()
        seen["where"] = at.where
        lab = label(view(g), old, new)
        ctx.log(gi, kind, perm0, seen["where"], type(err).__name__, lab[:5])
        ctx.state(gi, kind, seen["where"])
        if seen["where"]:
            ctx.fault(exc.__name__)
        if lab.startswith("mixed"):
            raise Violation("mixed-after", f"after {'an interrupted' if seen['where'] else 'a'} relabelling by {perm0} ({err!r}): {lab}")
        if bad and lab not in ("old", "both"):
            raise Violation("invalid-changed", f"invalid relabelling {perm0} changed the geometry")
        if bad and err is None:
            raise Violation("invalid-accepted", f"invalid relabelling {perm0} of {n} sites was not rejected")
        if not bad and err is None and lab not in ("new", "both"):
            raise Violation("not-done", f"relabelling by {perm0} returned without having been done")
        if not bad and err is not None and not seen["where"]:
            raise Violation("valid-rejected", f"relabelling by {perm0} was rejected: {err!r}")
        for k, v in other.items():
            e = calls.diff(calls.canon(getattr(g, k)), v, tol=0)
            if e:
                raise Violation("other-attribute", f"relabelling by {perm0} changed {k}: {e}")
        if np.array(perm).tolist() != perm0:
            raise Violation("permutation-changed", f"relabelling changed the permutation it was given: {perm0} is now {perm}")
        if not bad and err is None and src.flip(0.5):
            inv = [int(x) for x in np.argsort(perm0)]
            g.permute_sites(inv)
            lab = label(view(g), old, old)
            if lab != "both":
                raise Violation("not-restored", f"relabelling by {perm0} and back: {lab}")
            ctx.counts["round_trips"] += 1
        ctx.counts["relabellings"] += 1
