"""Small models, geometries and calls built from integers.

A world is a list of events: ("new", slot, params) and ("mut", slot, params).  Replaying the events in another process
gives the same objects, without anything that calls made in between may have left behind.  A call is (operation name,
params); the same call on the same events is the same computation.
"""
import importlib
import types
import zlib

import numpy as np
import scipy.sparse as sp

FLOATS = [1.0, -0.7, 2.3, 0.0, 0.31, 5.0]
TEMPS = [1.0, 0.4, 0.0, 7.5]


class P:
    """named integer parameters; missing ones are drawn from the source of choices and kept"""

    def __init__(self, d=None, src=None):
        self.d = dict(d or {})
        self.src = src
        self.numbers = set()        # the ones that choose numbers only, not sizes or kinds

    def i(self, name, n):
        if name not in self.d:
            self.d[name] = self.src.choose(n) if self.src is not None else 0
        return self.d[name] % n

    def pick(self, name, seq):
        return seq[self.i(name, len(seq))]

    def flip(self, name):
        return bool(self.i(name, 2))

    def f(self, name):
        return FLOATS[self.i(name, len(FLOATS))]

    def rs(self, name, *extra):
        k = self.i(name, 5)
        self.numbers.add(name)
        return np.random.RandomState(zlib.crc32(repr((name, extra, k)).encode()) & 0x7fffffff)

    def arr(self, name, *shape, cplx=False):
        r = self.rs(name, shape, cplx)
        a = np.round(r.uniform(-1, 1, shape), 3)
        if cplx:
            a = a + 1j * np.round(r.uniform(-1, 1, shape), 3)
        if self.d[name] % 5 == 4 and a.size:
            # zeros, numbers close to zero, a large one
            flat = a.reshape(-1)
            flat[::3] = 0
            flat[1::5] = 1e-13
            flat[-1] = 40.0
        return a

    def herm(self, name, n, cplx=True):
        a = self.arr(name, n, n, cplx=cplx)
        return (a + a.conj().T) / 2

    def states(self, name, n, k, cplx=True):
        a = self.arr(name, n, n, cplx=cplx)
        q, _ = np.linalg.qr(a + 2 * np.eye(n))
        return q[:, :k].copy()

    def energies(self, name, n):
        return np.sort(self.arr(name, n) * 3)

    def perm(self, name, n):
        return [int(x) for x in self.rs(name, "perm", n).permutation(n)]

    def temps(self, name):
        return self.pick(name, [1.0, 0.4, 0.0, [0.5, 1.0, 2.0], np.array([0.0, 3.0]), 10.0, np.array([-0.5, 0.0, 2.0]), np.array([1.0]),
                                np.linspace(0.1, 4, 12), np.array([3.0, 0.5, 1.0]), [2, 1]])


# ------------------------------------------------------------------------------------------------------ geometries

def _sq(nx, ny, o1=True, o2=True, p1=0.0, p2=0.0):
    return lambda G, p: G.createSquareGeometry(nx, ny, p1, p2, o1, o2)


def _cluster(xs, ys):
    return lambda G, p: G.createNonPeriodicGeometry(np.array(xs, dtype=float), np.array(ys, dtype=float))


def _custom(G, p):
    n = 4
    a = p.arr("adj", n, n) > 0
    a = np.triu(a, 1)
    a = (a | a.T).astype(float)
    ph = p.arr("ph", n, n) * 3
    ph = np.exp(1j * (ph - ph.T)) if p.flip("cph") else np.ones((n, n))
    return G.createNonPeriodicGeometry(np.array([0., 1., 0., 1.]), np.array([0., 0., 1., 1.]), a, ph)


def _latt(G, p):
    return G.create_lattice_geom([1, 0], [0, 1], [[0., 0.]], [3, 0], [0, 1], p.f("ph1"), 0., False, True)


REAL_SMALL = [_sq(2, 1), _sq(3, 1), _sq(1, 3), _sq(3, 1, False, True), _cluster([0, 1, 0], [0, 0, 1]),
              lambda G, p: G.createRegularPolygonGeometry(3), lambda G, p: G.createTriangleGeometry(2, 1)]
REAL_FOUR = [_sq(2, 2), _sq(4, 1, False, True), _sq(2, 2, False, False), lambda G, p: G.createRegularPolygonGeometry(4),
             _cluster([0, 1, 2, 1], [0, 0, 0, 1]), lambda G, p: G.createTriangleGeometry(2, 2),
             lambda G, p: G.createHexagonalGeometry(1, 1), lambda G, p: G.createTiltedSquareGeometry(2, 1, 0., 0., False, False)]
PHASES = [_sq(3, 1, False, True, 0.9), _sq(2, 2, False, False, 0.3, 0.5), _custom, _latt,
          lambda G, p: G.createTriangleGeometry(2, 2, 0.4, 0.2, False, False),
          lambda G, p: G.createTiltedSquareGeometry(2, 1, p.f("ph1"), 0.2, False, False)]
LARGE = [_sq(3, 2), _sq(3, 3, False, False, 0.7, 0.2), _sq(6, 2, False, True), _cluster(range(10), [0] * 10),
         lambda G, p: G.createRegularPolygonGeometry(7), lambda G, p: G.createTriangleGeometry(3, 3, 0.1, 0.3, False, False)]
SIX = [_sq(3, 2), _sq(5, 1, False, True, 0.4), lambda G, p: G.createTiltedSquareGeometry(2, 1, 0., 0., False, False),
       lambda G, p: G.createRegularPolygonGeometry(6)]
GEOM_SLOTS = {"g0": REAL_SMALL, "g1": REAL_FOUR, "g2": PHASES, "g3": REAL_FOUR + PHASES + LARGE, "g4": REAL_SMALL, "g5": SIX}
MODEL_GEOM = {"s0": "g1", "s1": "g1", "s2": "g2", "s3": "g0", "f0": "g0", "f1": "g1", "f2": "g4", "s4": "g5", "f3": "g5"}
SLOTS = list(GEOM_SLOTS) + list(MODEL_GEOM)


def api():
    a = types.SimpleNamespace()
    for n in ("ed_geometry", "ed_symmetry", "ed_base", "ed_spins", "ed_fermions", "ed_nlce", "fermi_gas",
              "greens_fns"):
        setattr(a, n, importlib.import_module("exact_diag." + n))
    return a


def build_geom(A, slot, p):
    return p.pick("geom", GEOM_SLOTS[slot])(A.ed_geometry.Geometry, p)


def _j(p, name, n, sym=True):
    if p.i(name + "?", 3) == 2:
        m = p.arr(name + "m", n, n)
        return (m + m.T) / 2
    return p.f(name)


def _h(p, name, n):
    return p.arr(name + "v", n) if p.i(name + "?", 3) == 2 else p.f(name)


def build_model(A, slot, geom, p):
    n = geom.nsites
    if slot[0] == "s":
        spin = 1.0 if slot == "s3" else 0.5
        return A.ed_spins.spinSystem(geom, jx=_j(p, "jx", n), jy=_j(p, "jy", n), jz=_j(p, "jz", n), hx=_h(p, "hx", n),
                                     hy=_h(p, "hy", n), hz=_h(p, "hz", n), use_ryd_detunes=p.flip("ryd"), spin=spin)
    ns = {"f0": 2, "f1": 1, "f2": 2, "f3": 1}[slot]
    num = None
    if p.i("num", 3) == 1 or slot == "f2":
        num = [p.i("num%d" % k, n + 1) for k in range(ns)]
    ts = p.f("t") if p.flip("tscal") else np.array([p.f("t%d" % k) for k in range(ns)])
    us = p.arr("us", n) if p.flip("uarr") else p.f("u")
    mus = p.f("mu") if p.flip("muscal") else np.array([p.f("mu%d" % k) for k in range(ns)])
    pots = p.arr("pot", n, ns) if p.flip("parr") else p.f("pot0")
    same = p.f("usame") if p.flip("same") else 0
    return A.ed_fermions.fermions(geom, us if ns == 2 else 0, ts, ns=num, mus=mus, potentials=pots, us_same_species=same,
                                  nspecies=ns)


# ------------------------------------------------------------------------------------------------------- mutations

SPIN_ATTRS = ["jx", "jy", "jz", "hx", "hy", "hz"]
FERM_ATTRS = ["ts", "us_interspecies", "us_same_species", "mus", "potentials"]


def mutate(env, slot, p):
    """documented ways of changing an object: relabelling, and setting or editing its attributes"""
    o = env.get(slot)
    if slot[0] == "g":
        how = p.i("how", 3)
        if how < 2:
            o.permute_sites(p.perm("perm", o.nsites))
        else:
            o.xlocs = o.xlocs + p.f("dx")
        return
    names = SPIN_ATTRS if slot[0] == "s" else FERM_ATTRS
    name = p.pick("attr", names)
    a = getattr(o, name)
    k = p.f("scale") + 0.5
    if p.i("how", 3) == 0:
        setattr(o, name, a * k)
    elif p.i("how", 3) == 1 and name[0] == "h" or a.ndim == 1:
        b = np.array(a)
        b[p.i("el", b.size)] += k
        setattr(o, name, b)
    else:
        # symmetric change in place, as far as the number type allows
        b = np.array(a)
        b *= k
        try:
            a[...] = b
        except (ValueError, TypeError):
            setattr(o, name, b)


class Env:
    """objects of a world in this process"""

    def __init__(self, A, events, only=None):
        self.A = A
        self.events = list(events)
        self.obj = {}
        self.used = set()
        # with only: nothing else is built (a model needs its geometry)
        self.only = None if only is None else set(only) | {MODEL_GEOM[s] for s in only if s in MODEL_GEOM}
        self.names = [e[1] for e in events if e[0] == "new"]

    def get(self, slot):
        if not self.obj:
            self.build_all()
        self.used.add(slot)
        return self.obj[slot]

    def build_all(self):
        """everything, in the order of the events"""
        for kind, s, d in self.events:
            if self.only is not None and s not in self.only:
                continue
            if kind == "mut":
                mutate(self, s, P(d))
            elif s[0] == "g":
                self.obj[s] = build_geom(self.A, s, P(d))
            else:
                self.obj[s] = build_model(self.A, s, self.obj[MODEL_GEOM[s]], P(d))

    def mut(self, slot, d):
        """apply and record"""
        mutate(self, slot, P(d))
        self.events.append(("mut", slot, d))

    # -- selection used by the operations
    def pick(self, p, slots):
        have = [s for s in slots if s in self.names] or [slots[0]]
        return self.get(p.pick("slot", have))

    def geom(self, p):
        return self.pick(p, list(GEOM_SLOTS))

    def spin(self, p):
        return self.pick(p, ["s0", "s1", "s2", "s4"])

    def anyspin(self, p):
        return self.pick(p, ["s0", "s1", "s2", "s3", "s4"])

    def ferm(self, p):
        return self.pick(p, ["f0", "f1", "f2", "f3"])

    def model(self, p):
        return self.pick(p, ["s0", "f0", "s1", "f1", "s2", "f2", "s4", "f3"])


def new_world(src, slots=None):
    ev = []
    slots = list(slots or SLOTS)
    need = set(slots) | {MODEL_GEOM[s] for s in slots if s in MODEL_GEOM}
    A = api()
    tmp = {}
    for s in SLOTS:
        if s not in need:
            continue
        p = P(src=src)
        # parameters are drawn while building once; the object is thrown away with the process that drew them
        if s[0] == "g":
            tmp[s] = build_geom_dry(s, p)
        else:
            dry_model(s, p, tmp[MODEL_GEOM[s]])
        ev.append(("new", s, p.d))
    return ev


class _Dry:
    """stands for Geometry while parameters are drawn, so that drawing them runs no code under test"""

    def __init__(self, n):
        self.nsites = n

    @classmethod
    def createSquareGeometry(cls, nx, ny, *a):
        return cls(nx * ny)

    @classmethod
    def createTriangleGeometry(cls, a, b, *r):
        return cls(a * b)

    @classmethod
    def createHexagonalGeometry(cls, a, b, *r):
        return cls(4 * a * b)

    @classmethod
    def createTiltedSquareGeometry(cls, a, b, *r):
        return cls(a * a + b * b)

    @classmethod
    def createRegularPolygonGeometry(cls, n, *r):
        return cls(n)

    @classmethod
    def createNonPeriodicGeometry(cls, xs, ys, *r):
        return cls(len(xs))

    @classmethod
    def create_lattice_geom(cls, *a):
        return cls(3)


def build_geom_dry(slot, p):
    return p.pick("geom", GEOM_SLOTS[slot])(_Dry, p)


class _DryApi:
    class ed_spins:
        spinSystem = staticmethod(lambda *a, **k: None)

    class ed_fermions:
        fermions = staticmethod(lambda *a, **k: None)


def dry_model(slot, p, g):
    build_model(_DryApi, slot, g, p)
