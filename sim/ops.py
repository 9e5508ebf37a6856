"""Catalogue of calls: every public function of the package, with arguments built from integers and no code under test."""
import io
import os

import numpy as np
import scipy.sparse as sp

from . import canon

OPS = {}
TAGS = {}


class Call:
    """fn(*args, **kw); post turns the result into what is compared (a function of the result and the arguments)"""

    def __init__(self, fn, *args, post=None, kw=None, objs=()):
        self.fn, self.args, self.kw, self.post = fn, list(args), dict(kw or {}), post
        self.objs = list(objs)


def op(*tags):
    def deco(f):
        n = f.__name__
        OPS[n] = f
        TAGS[n] = set(tags)
        return f
    return deco


def names(*want, without=()):
    return [n for n in OPS if all(w in TAGS[n] for w in want) and not any(w in TAGS[n] for w in without)]


# --- result treatments

def proj(ps):
    """projectors are defined up to a basis of their range"""
    if isinstance(ps, (list, tuple)):
        return [proj(q) for q in ps]
    a = ps.toarray() if sp.issparse(ps) else np.asarray(ps)
    return [a.shape[0], a.conj().T.dot(a)]


def proj_first(r):
    return [proj(list(r[0]))] + [np.asarray(x) for x in r[1:]]


def eig(r):
    e, v = r
    v = np.asarray(v)
    return [np.asarray(e), (v * np.asarray(e)).dot(v.conj().T), v.conj().T.dot(v), len(e)]


def at(*pts):
    def f(fn):
        return [np.asarray(fn(*x)) for x in pts]
    return f


XY = (np.array([0., 1., 2.5]), np.array([1., -1., 0.25]))


def pr(p):
    return {"print_results": True} if p.flip("print") else {}


def dim(p):
    """size of the space; results must not depend on what happens at another size"""
    return p.pick("dim", [6, 3, 5, 14, 1, 24][:6])


def onsite(p, name, n=2, cplx=None):
    cplx = p.flip(name + "c") if cplx is None else cplx
    a = p.arr(name, n, n, cplx=cplx)
    k = p.i(name + "k", 4)
    if k == 1:
        return np.array([[0, 1], [1, 0]]) if n == 2 else a
    if k == 2:
        return sp.csr_matrix(a)
    return a


def sel_projector(p, name, n):
    """rows of the identity: the projector on some basis states; or None"""
    k = p.i(name, 3)
    if k == 0:
        return None
    idx = np.sort(p.rs(name + "r", n).permutation(n)[:max(2, n // 2)])
    m = sp.csr_matrix((np.ones(len(idx)), (np.arange(len(idx)), idx)), shape=(len(idx), n))
    return m


def fmt(p):
    return p.pick("fmt", ["fermion", "boson"])


def spop(p, name, n, cplx=True):
    m = p.herm(name, n, cplx)
    m[np.abs(m) < 0.5] = 0
    m = sp.csr_matrix(m)
    return m if not p.flip(name + "coo") else m.tocoo().tocsr()


# ---------------------------------------------------------------------------------------------- models: operators

@op("model", "print")
def get_xform_op(E, p):
    m = E.model(p)
    n = m.geometry.nsites
    perm = p.perm("perm", n)
    seen, cycles = set(), []
    for i in range(n):
        if i not in seen:
            c = [i]
            seen.add(i)
            while perm[c[-1]] not in seen:
                c.append(perm[c[-1]])
                seen.add(c[-1])
            cycles.append(c)
    return Call(m.get_xform_op, cycles, kw=pr(p), objs=[m])


@op("model", "print", "solver")
def diagH_dense(E, p):
    m = E.model(p)
    n = p.pick("n", [5, 8, 1])
    return Call(m.diagH, spop(p, "h", n), post=eig, kw=pr(p), objs=[m])


@op("model", "print", "solver", "sparse_eig")
def diagH_sparse(E, p):
    m = E.model(p)
    n = p.pick("n", [12, 20])
    h = p.herm("h", n, p.flip("c")) + np.diag(np.arange(n) * 1.7)
    return Call(m.diagH, sp.csr_matrix(h), post=eig, kw=dict(pr(p), neigs=1 + p.i("k", 4), use_sparse=True), objs=[m])


@op("model", "solver")
def h_and_diag(E, p):
    m = E.pick(p, ["s0", "f0", "s1"])
    return Call(lambda m: m.diagH(m.createH()), m, post=eig, objs=[m])


@op("model", "print")
def quench_time_evolve(E, p):
    m = E.model(p)
    n = dim(p)
    st = p.states("st", n, min(n, 1 + p.i("ns", 2)))
    if p.flip("one"):
        st = p.states("st", n, 1)
        if p.flip("1d"):
            st = st[:, 0]
    ts = p.pick("ts", [0.7, 2, np.array([0., 1., 2.5]), np.linspace(0, 1, 3), np.linspace(0, 2, 18), np.array([2.5, 0., -1.]), np.array([3, 1])])
    return Call(m.quench_time_evolve, st, p.states("v", n, n), p.energies("e", n), ts, kw=pr(p), objs=[m])


@op("model")
def index_maps(E, p):
    m = E.model(p)
    return Call(lambda a, b, c: [m.spinful2spinlessIndex(a, b, c), m.spinless2spinfullIndex(a + b * c, b)],
                p.i("a", 4), 4, p.i("b", 2), objs=[m])


@op("model")
def get_single_site_op(E, p):
    m = E.model(p)
    return Call(m.get_single_site_op, p.i("site", m.geometry.nsites), p.i("sp", m.nspecies), onsite(p, "o"),
                kw={"format": fmt(p)}, objs=[m])


@op("model")
def get_two_site_op(E, p):
    m = E.model(p)
    n = m.geometry.nsites
    return Call(m.get_two_site_op, p.i("site1", n), p.i("sp1", m.nspecies), p.i("site2", n), p.i("sp2", m.nspecies),
                onsite(p, "o1"), onsite(p, "o2"), kw={"format": fmt(p)}, objs=[m])


@op("model", "print")
def get_sum_op(E, p):
    m = E.ferm(p)
    return Call(m.get_sum_op, onsite(p, "o"), p.i("sp", m.nspecies), kw=dict(pr(p), format=fmt(p)), objs=[m])


@op("model")
def get_sum_op_spin(E, p):
    m = E.spin(p)
    return Call(m.get_sum_op, onsite(p, "o"), objs=[m])


@op("model", "print")
def get_sum_op_q(E, p):
    m = E.model(p)
    return Call(m.get_sum_op_q, p.i("sp", m.nspecies), np.array([p.f("qx"), p.f("qy")]), onsite(p, "o"),
                kw=dict(pr(p), format=fmt(p)), objs=[m])


@op("model")
def get_swap_op(E, p):
    m = E.model(p)
    n = m.geometry.nsites
    a = p.i("a", n)
    return Call(m.get_swap_op, a, (a + 1 + p.i("b", n - 1)) % n if n > 1 else a, p.i("sp", m.nspecies), objs=[m])


@op("model", "print")
def get_exp_vals(E, p):
    m = E.model(p)
    n = dim(p)
    st = p.states("st", n, min(n, p.pick("k", [1, 2, 3, 9])))
    if p.flip("sparse"):
        st = sp.csc_matrix(st)
    elif p.flip("1d"):
        st = st[:, 0]
    return Call(m.get_exp_vals, st, spop(p, "o", n), kw=pr(p), objs=[m])


@op("model", "print")
def get_overlaps(E, p):
    m = E.model(p)
    n = dim(p)
    a, b = p.states("a", n, min(n, 1 + p.i("ka", 3))), p.states("b", n, min(n, 1 + p.i("kb", 3)))
    k = p.i("kind", 4)
    if k == 1:
        a = sp.csr_matrix(a)
    elif k == 2:
        b = sp.csr_matrix(b)
    elif k == 3:
        a, b = a[:, 0], b[:, 0]
    return Call(m.get_overlaps, a, b, kw=pr(p), objs=[m])


@op("model", "print")
def get_norms(E, p):
    m = E.model(p)
    st = p.arr("st", dim(p), p.pick("k", [1, 2, 3, 9]), cplx=True)
    if p.flip("sparse"):
        st = sp.csr_matrix(st)
    elif p.flip("1d"):
        st = st[:, 0]
    return Call(m.get_norms, st, kw=pr(p), objs=[m])


def _sites(p, name, n):
    k = p.i(name, 4)
    if k == 0:
        return None
    if k == 1:
        return [int(x) for x in p.rs(name + "s", n).permutation(n)[:2]]
    if k == 2:
        return np.array([0])
    return list(range(n))


@op("model", "spin")
def get_exp_vals_sites(E, p):
    m = E.spin(p)
    N = m.nstates
    P = sel_projector(p, "P", N)
    st = p.states("st", N if P is None else P.shape[0], p.pick("k", [1, 2, 7]))
    if p.i("1d", 3) == 2:
        st = st[:, 0]
    return Call(m.get_exp_vals_sites, st, onsite(p, "o", cplx=False), 0, kw=dict(sites=_sites(p, "sites", m.geometry.nsites),
                projector=P, format=fmt(p)), objs=[m])


@op("model", "print")
def get_thermal_exp_sites(E, p):
    m = E.spin(p)
    N = m.nstates
    P = sel_projector(p, "P", N)
    n = N if P is None else P.shape[0]
    return Call(m.get_thermal_exp_sites, p.states("st", n, n), p.energies("e", n), onsite(p, "o", cplx=False), 0,
                p.temps("T"), kw=dict(pr(p), sites=_sites(p, "sites", m.geometry.nsites), projector=P, format=fmt(p)),
                objs=[m])


def _pairs(p, n):
    if p.flip("pairs"):
        a = _sites(p, "s1", n) or [0, n - 1]
        return dict(sites1=a, sites2=list(reversed(list(a))))
    return {}


@op("model")
def get_corr_sites(E, p):
    m = E.model(p)
    N = m.nstates
    P = sel_projector(p, "P", N)
    st = p.states("st", N if P is None else P.shape[0], p.pick("k", [1, 2, 7]))
    if p.i("1d", 3) == 2:
        st = st[:, 0]
    o1, o2 = onsite(p, "o1", cplx=False), onsite(p, "o2", cplx=False)
    return Call(m.get_corr_sites, st, p.i("sp1", m.nspecies), p.i("sp2", m.nspecies), o1, o2,
                kw=dict(_pairs(p, m.geometry.nsites), projector=P, format=fmt(p)), objs=[m])


@op("model", "print")
def get_thermal_corr_sites(E, p):
    m = E.spin(p)
    N = m.nstates
    P = sel_projector(p, "P", N)
    n = N if P is None else P.shape[0]
    o1, o2 = onsite(p, "o1", cplx=False), onsite(p, "o2", cplx=False)
    return Call(m.get_thermal_corr_sites, p.states("st", n, n), p.energies("e", n), 0, 0, o1, o2, p.temps("T"),
                kw=dict(pr(p), projector=P, format=fmt(p), **_pairs(p, m.geometry.nsites)), objs=[m])


@op("model", "print")
def get_subspace_overlaps(E, p):
    m = E.model(p)
    n = dim(p)
    ps = [q for q in (sel_projector(p, "P1", n), sel_projector(p, "P2", n)) if q is not None] or [sp.eye(n, format="csr")]
    if p.flip("single"):
        ps = ps[0]
    st = p.states("st", n, min(n, p.pick("k", [1, 2, 3, 9])))
    if p.i("1d", 3) == 2:
        st = st[:, 0]
    return Call(m.get_subspace_overlaps, st, ps, kw=pr(p), objs=[m])


@op("model", "print")
def get_subspace_projs(E, p):
    m = E.model(p)
    d = np.round(p.arr("d", p.pick("n", [8, 3, 20])) * 2)
    kw = pr(p)
    if p.flip("ev"):
        kw["eig_vals"] = p.pick("evs", [1.0, [0., 1.], np.array([-1., 2.])])
    return Call(m.get_subspace_projs, sp.csr_matrix(sp.diags(d)), kw=kw, objs=[m])


@op("model", "print")
def get_exp_vals_thermal(E, p):
    m = E.model(p)
    n = dim(p)
    return Call(m.get_exp_vals_thermal, p.states("v", n, n), spop(p, "o", n), p.energies("e", n), p.temps("T"),
                kw=pr(p), objs=[m])


@op("model")
def get_thermal_weights(E, p):
    m = E.model(p)
    e = p.energies("e", dim(p))
    if p.flip("deg"):
        e[-1] = e[0]
    if p.i("unsorted", 4) == 3:
        e = e[::-1].copy()
    elif p.i("zero", 4) == 3:
        e = e - e[0]
    return Call(m.get_thermal_weights, e if not p.flip("list") else list(e), p.temps("T"),
                kw={"use_energies_offset": p.flip("off")}, objs=[m])


@op("model", "solver")
def get_partition_fn_hamiltonian(E, p):
    m = E.model(p)
    return Call(m.get_partition_fn_hamiltonian, spop(p, "h", p.pick("n", [4, 1, 9])), p.pick("beta", [0, 1.0, 2.5]), objs=[m])


@op("model")
def get_partition_fn_sectors(E, p):
    m = E.model(p)
    return Call(m.get_partition_fn_sectors, [p.energies("e1", p.pick("n1", [4, 1, 12])), p.energies("e2", p.pick("n2", [3, 9]))], p.temps("T"), objs=[m])


@op("model")
def thermal_avg_combine_sectors(E, p):
    m = E.model(p)
    T = p.pick("T", [1.0, np.array([0.5, 2.0]), 0.0])
    sh = (2,) if np.size(T) == 1 else (2, 2)
    if p.flip("extra"):
        sh = sh + (3,)
    return Call(m.thermal_avg_combine_sectors, p.arr("x", *sh), [p.energies("e1", p.pick("n1", [4, 1, 12])), p.energies("e2", p.pick("n2", [3, 9]))], T, objs=[m])


@op("model", "print")
def get_matrix_elems(E, p):
    m = E.model(p)
    return Call(m.get_matrix_elems, p.states("v", dim(p), dim(p)), spop(p, "o", dim(p)), kw=pr(p), objs=[m])


WPTS = ((0.3, 0.1), (-1.0, 0.2), (0.0, 0.5))


@op("model", "print", "fn")
def get_response_fn_retarded(E, p):
    m = E.model(p)
    n = dim(p)
    a, b = p.herm("a", n, p.flip("c")), p.herm("b", n, False)
    return Call(m.get_response_fn_retarded, a, b, p.energies("e", n), p.pick("T", TEMPS),
                kw=dict(pr(p), format=p.pick("fmt", ["boson", "fermion"])), post=at(*WPTS), objs=[m])


TEMPS = [1.0, 0.4, 0, 7.5]


@op("model", "print", "fn")
def get_response_fn_time_ordered(E, p):
    m = E.model(p)
    return Call(m.get_response_fn_time_ordered, p.herm("a", dim(p), False), p.herm("b", dim(p), False), p.energies("e", dim(p)),
                p.pick("T", TEMPS), kw=pr(p), post=at(*WPTS), objs=[m])


# ---------------------------------------------------------------------------------------------- spins

@op("spin")
def spin_ops(E, p):
    m = E.anyspin(p)
    s = p.pick("s", [0.5, 1.0, 1.5])
    return Call(lambda s: [m.get_splus(s), m.get_sminus(s), m.get_sx(s), m.get_sy(s), m.get_sz(s)], s, objs=[m])


@op("spin")
def get_interaction_mat(E, p):
    m = E.spin(p)
    n = m.geometry.nsites
    return Call(m.get_interaction_mat, p.pick("j", [1.5, 2, p.arr("jm", n, n), p.arr("jv", n), "x"]), objs=[m])


@op("spin")
def get_interaction_mat_c6(E, p):
    m = E.spin(p)
    return Call(m.get_interaction_mat_c6, p.f("c6"), objs=[m])


@op("spin")
def get_field_mat(E, p):
    m = E.spin(p)
    return Call(m.get_field_mat, p.pick("h", [0.5, 3, p.arr("hv", m.geometry.nsites), p.arr("hw", 9)]), objs=[m])


@op("spin", "print")
def get_state_vects_spin(E, p):
    m = E.spin(p)
    return Call(m.get_state_vects, kw=pr(p), objs=[m])


@op("spin", "print")
def get_state_parity(E, p):
    m = E.spin(p)
    return Call(m.get_state_parity, kw=pr(p), objs=[m])


@op("spin")
def get_rydberg_detunes(E, p):
    m = E.spin(p)
    n = m.geometry.nsites
    return Call(m.get_rydberg_detunes, p.herm("js", n, p.flip("c")), objs=[m])


@op("spin", "print", "H")
def createH_spin(E, p):
    m = E.anyspin(p)
    return Call(m.createH, kw=dict(pr(p), projector=sel_projector(p, "P", m.nbasis ** m.geometry.nsites)), objs=[m])


@op("spin")
def spin_stub_ops(E, p):
    m = E.spin(p)
    return Call(lambda: [m.get_interaction_op(), m.get_field_op(), m.check_version()], objs=[m])


@op("spin")
def find_special_states(E, p):
    m = E.spin(p)
    return Call(m.find_special_states, p.i("x", 3) + 1, p.i("y", 3) + 1, kw={"number_left2right_top2bottom": p.flip("o")},
                objs=[m])


@op("spin")
def get_npairs_op(E, p):
    m = E.spin(p)
    n = m.geometry.nsites
    k = n * (n - 1) // 2
    return Call(m.get_npairs_op, (p.arr("c", k) > -0.3).astype(int), objs=[m])


@op("spin")
def get_allsite_op(E, p):
    m = E.spin(p)
    return Call(m.get_allsite_op, onsite(p, "o"), objs=[m])


@op("spin")
def get_swap_up_down_op(E, p):
    m = E.spin(p)
    return Call(m.get_swap_up_down_op, objs=[m])


@op("spin", "build")
def build_spin(E, p):
    """construct, use and throw away: the next object may sit at the same address"""
    g = E.pick(p, ["g0", "g1", "g2", "g4"])
    n = g.nsites
    args = dict(jx=p.arr("jxa", n, n) if p.flip("jxm") else p.f("jx"), jy=p.arr("jya", n, n) if p.flip("jym") else p.f("jy"),
                jz=p.arr("jz", n, n) if p.flip("jzm") else p.f("jzf"), hx=p.arr("hxa", n) if p.flip("hxv") else p.f("hx"),
                hy=p.arr("hya", n) if p.flip("hyv") else p.f("hy"), hz=p.arr("hz", n) if p.flip("hzv") else p.f("hzf"),
                use_ryd_detunes=p.flip("ryd"), spin=p.pick("spin", [0.5, 0.5, 1.0]) if n < 4 else 0.5)
    return Call(lambda g, a: E.A.ed_spins.spinSystem(g, **a).createH(), g, args, objs=[g])


# ---------------------------------------------------------------------------------------------- fermions

@op("ferm", "print")
def get_state_vects_ferm(E, p):
    m = E.ferm(p)
    return Call(m.get_state_vects, kw=dict(pr(p), projector=sel_projector(p, "P", m.nstates)), objs=[m])


@op("ferm")
def get_hopping_mat(E, p):
    m = E.ferm(p)
    return Call(m.get_hopping_mat, np.array(p.f("t")) if p.flip("scal") else p.arr("t", m.nspecies), objs=[m])


@op("ferm")
def get_samespecies_int_mat(E, p):
    m = E.ferm(p)
    return Call(m.get_samespecies_int_mat, np.array(p.f("u")) if p.flip("scal") else p.arr("u", m.nspecies), objs=[m])


@op("ferm", "print", "H")
def createH_ferm(E, p):
    m = E.ferm(p)
    P = p.pick("P?", [None, sel_projector(p, "P", m.nstates)])
    return Call(m.createH, kw=dict(pr(p), projector=P), objs=[m])


@op("ferm", "H")
def createH_ferm_number(E, p):
    m = E.get("f2" if "f2" in E.names else "f0")
    return Call(lambda m: m.createH(projector=m.n_projector), m, objs=[m])


@op("ferm")
def get_kinetic_op(E, p):
    m = E.ferm(p)
    kw = {}
    if p.flip("dir"):
        kw["direction_vect"] = p.pick("d", [np.array([0, 1]), np.array([1., 1.])])
    return Call(m.get_kinetic_op, kw=dict(kw, projector=sel_projector(p, "P", m.nstates)), objs=[m])


@op("ferm")
def get_u_interspecies_op(E, p):
    m = E.pick(p, ["f0", "f2"])
    n = m.geometry.nsites
    return Call(m.get_u_interspecies_op, p.pick("u", [2.0, 3, p.arr("us", n), 0]), kw=dict(projector=sel_projector(p, "P", m.nstates)),
                objs=[m])


@op("ferm")
def get_u_samespecies_op(E, p):
    m = E.ferm(p)
    n = m.geometry.nsites
    return Call(m.get_u_samespecies_op, p.arr("us", n, n, m.nspecies), kw=dict(projector=sel_projector(p, "P", m.nstates)), objs=[m])


@op("ferm")
def get_potential_op(E, p):
    m = E.ferm(p)
    return Call(m.get_potential_op, p.arr("vs", m.geometry.nsites, m.nspecies), kw=dict(projector=sel_projector(p, "P", m.nstates)),
                objs=[m])


@op("ferm")
def get_chemical_pot_op(E, p):
    m = E.ferm(p)
    return Call(m.get_chemical_pot_op, p.arr("mus", m.nspecies), kw=dict(projector=sel_projector(p, "P", m.nstates)), objs=[m])


@op("ferm")
def get_current_op(E, p):
    m = E.ferm(p)
    return Call(m.get_current_op, *([np.array([[0], [1]])] if p.flip("d") else []), objs=[m])


@op("ferm")
def get_current_op_t(E, p):
    """with the hopping amplitudes the function asks for"""
    m = E.ferm(p)

    def f(m, tx, ty, d):
        import copy
        k = copy.copy(m)
        k.tx, k.ty = tx, ty
        return k.get_current_op(d) if d is not None else k.get_current_op()
    return Call(f, m, p.f("tx"), p.f("ty"), p.pick("d", [None, np.array([[0], [1]]), np.array([1., 1.])]), objs=[m])


@op("ferm", "print")
def integrate_conductivity(E, p):
    m = E.ferm(p)
    return Call(m.integrate_conductivity, p.herm("j", dim(p)), p.energies("e", dim(p)), p.pick("T", TEMPS), kw=pr(p), objs=[m])


@op("ferm", "print", "fn")
def get_optical_cond_fn(E, p):
    m = E.ferm(p)
    return Call(m.get_optical_cond_fn, p.herm("j", dim(p)), p.energies("e", dim(p)), p.pick("T", TEMPS), kw=pr(p), post=at(*WPTS),
                objs=[m])


@op("ferm", "build")
def build_ferm(E, p):
    g = E.pick(p, ["g0", "g4"])
    n = g.nsites
    one = p.i("nsp", 3) == 2
    k = 1 if one else 2
    t3 = p.arr("t3", n, n, k)
    kw = dict(us_interspecies=0 if one else p.pick("u?", [p.f("u"), p.arr("ua", n)]), mus=p.pick("mu?", [p.f("mu"), p.arr("mua", k)]),
              ts=p.pick("t?", [p.f("t"), p.arr("ta", k), t3 + t3.transpose(1, 0, 2), (t3 + t3.transpose(1, 0, 2))[:, :, 0]][:5 - k]),
              potentials=p.pick("v?", [p.f("v"), p.arr("va", n, k), p.arr("v1", n)][:4 - k]),
              us_same_species=p.pick("us?", [p.f("us"), p.arr("usa", k), p.arr("usm", n, n, k), p.arr("us2", n, n)][:5 - k]),
              ns=p.pick("ns", [None, [1, 1][:k], [0, 1][:k], np.array([1, 0])[:k]]), nspecies=k)
    return Call(lambda g, kw: (lambda m: [m.createH(projector=m.n_projector), m.n_projector])(E.A.ed_fermions.fermions(g, **kw)), g, kw, objs=[g])


# ---------------------------------------------------------------------------------------------- geometry

def _geo(r):
    return r


@op("geom", "build")
def build_geometry(E, p):
    G = E.A.ed_geometry.Geometry
    k = p.i("kind", 5)
    a = (p.i("n1", 3) + 1, p.i("n2", 2) + 1, p.f("p1"), p.f("p2"), p.flip("o1"), p.flip("o2"))
    fn = [G.createSquareGeometry, G.createTriangleGeometry, G.createTiltedSquareGeometry, G.createHexagonalGeometry][k % 4]
    if k == 3:
        a = (1, a[1]) + a[2:]
    if k == 4:
        return Call(G.createRegularPolygonGeometry, p.i("n1", 4) + 3)
    return Call(fn, *a)


@op("geom", "build")
def build_lattice_geom(E, p):
    G = E.A.ed_geometry.Geometry
    v1 = [np.array([[1], [0]]), [1, 0], np.array([1.0, 0.0])][p.i("f", 3)]
    bv = p.pick("bv", [[np.array([[0.], [0.]])], [[0., 0.], [0.5, 0.5]], [[0., 0.]]])
    return Call(G.create_lattice_geom, v1, np.array([[0], [1]]), bv, np.array([[p.i("a", 3) + 1], [p.i("b", 2)]]),
                np.array([[0], [p.i("c", 2) + 1]]), p.f("p1"), p.f("p2"), p.flip("o1"), p.flip("o2"))


@op("geom", "build")
def build_nonperiodic(E, p):
    G = E.A.ed_geometry.Geometry
    xs, ys = p.pick("xy", [([0, 1, 1], [0, 0, 1]), (np.arange(4.), np.zeros(4)), ([0.5], [1.5]), ([0., 3.], [0., 0.])])
    kw = {}
    n = len(xs)
    if p.flip("adj"):
        kw["adjacency_mat"] = p.pick("am", [np.ones((n, n)) - np.eye(n), np.zeros((n, n)), np.triu(np.ones((n, n)), 1)])
    if p.flip("ph"):
        x = p.arr("phm", n, n)
        kw["phase_mat"] = np.exp(1j * (x - x.T)) if p.flip("ok") else x
    return Call(G.createNonPeriodicGeometry, xs, ys, kw=kw)


@op("geom")
def get_center_of_mass(E, p):
    g = E.geom(p)
    return Call(g.get_center_of_mass, objs=[g])


@op("geom")
def get_sorting_permutation(E, p):
    g = E.geom(p)
    m = p.i("mode", 6)
    if m == 0:
        return Call(g.get_sorting_permutation, objs=[g])
    return Call(g.get_sorting_permutation, ["top_alternating", "top_left", "bottom_right", "adjacency", "zzz"][m - 1], objs=[g])


@op("geom")
def get_site_distance(E, p):
    g = E.geom(p)
    return Call(g.get_site_distance, objs=[g])


@op("geom")
def get_neighbors_by_distance(E, p):
    g = E.geom(p)
    return Call(g.get_neighbors_by_distance, np.round(p.arr("x", p.i("n", 5) + 1, p.i("n", 5) + 1) * 2), np.round(p.arr("y", p.i("n", 5) + 1, p.i("n", 5) + 1) * 2), objs=[g])


@op("geom")
def geometry_checks(E, p):
    g = E.geom(p)
    h = E.get(p.pick("other", [s for s in ("g0", "g1", "g2", "g3") if s in E.names]))
    return Call(lambda a, b: [a.validate_instance(), a.validate_adjacency_mat(), a.validate_phase_mat(),
                              _try(lambda: a.isequal_adjacency(b)), _try(lambda: a == b), _try(lambda: a != b)], g, h, objs=[g, h])


def _try(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


@op("geom", "print0", "once")
def dispGeometry(E, p):
    g = E.geom(p)

    def close(r):
        if r is not None:
            import matplotlib.pyplot as plt
            plt.close(r)
        return r is None
    return Call(g.dispGeometry, post=close, objs=[g])


@op("geom")
def lattice_build(E, p):
    L = E.A.ed_geometry.Lattice
    kw = {}
    if p.flip("per"):
        kw = dict(periodicity_vect1=p.pick("pv1", [[3, 0], [2, 1], [0, 0]]), periodicity_vect2=p.pick("pv2", [[0, 2], [-1, 2], [0, 0]]))
    if p.flip("basis"):
        kw["basis_vects"] = [[0, 0], [0.5, 0.0]]
    return Call(lambda *a, **k: (lambda l: [l, l.get_unique_sites()])(L(*a, **k)), [1, 0], p.pick("lv2", [[0, 1], [0.5, 1], [2, 0]]),
                kw=kw)


@op("geom")
def lattice_calls(E, p):
    g = E.pick(p, ["g3", "g2", "g1"])
    l = g.lattice
    if l is None:
        return Call(g.get_site_distance, objs=[g])
    xs, ys = p.arr("x", p.pick("n", [3, 1, 10])) * 4, p.arr("y", p.pick("n", [3, 1, 10])) * 4
    k = p.i("k", 5)
    if k == 0:
        return Call(l.get_unique_sites, objs=[g, l])
    if k == 1:
        return Call(l.get_reduced_distance, xs, ys, objs=[g, l])
    if k == 2:
        return Call(l.get_phase_mat, p.arr("dx", 3, 3), p.arr("dy", 3, 3), objs=[g, l])
    if k == 3:
        return Call(l.reduce_to_unit_cell, xs, ys, p.pick("mode", ["positive", "centered", "odd"]), objs=[g, l])
    return Call(lambda l: [l.validate_instance(), l.validate_latt_vects(), l.validate_periodicity_vects(), l == l, l != l],
                l, objs=[g, l])


@op("geom", "solver")
def get_reciprocal_vects(E, p):
    V = [[1, 0], [0, 1], [2, 1], [0, 0], np.array([[1.5], [-1]]), np.array([0.5, 2.0]), [4, 2]]
    return Call(E.A.ed_geometry.get_reciprocal_vects, p.pick("a", V), p.pick("b", V))


@op("geom")
def reduce_vectors(E, p):
    V = [[1, 0], [0, 1], [2, 1], [0, 0], np.array([[1.5], [-1]])]
    return Call(E.A.ed_geometry.reduce_vectors, p.pick("a", V), p.pick("b", V), np.round(p.arr("x", p.pick("n", [4, 1, 12])) * 4, 1), np.round(p.arr("y", p.pick("n", [4, 1, 12])) * 4, 1),
                kw={"mode": p.pick("mode", ["positive", "centered", "bad"])})


@op("geom")
def ensure_vects(E, p):
    g = E.A.ed_geometry
    v = p.pick("v", [[1, 2, 3], 4, None, np.arange(6).reshape(2, 3), (1., 2.)])
    return Call(lambda v: [np.array(x) if x is not None else None for x in
                           (g.ensure_column_vect(v), g.ensure_row_vect(v), g.ensure_1d_vect(v))], v)


# ---------------------------------------------------------------------------------------------- symmetry

@op("sym", "fn")
def getRotFn(E, p):
    return Call(E.A.ed_symmetry.getRotFn, p.i("n", 6) + 1, kw=p.pick("c", [{}, dict(cx=0.5, cy=1.0), dict(cx=p.f("cx"))]), post=at(XY))


@op("sym", "fn")
def getReflFn(E, p):
    return Call(E.A.ed_symmetry.getReflFn, p.pick("v", [[0, 1], [1, 0], np.array([1., 1.]), np.array([[2], [-1]]), [0, 0]]),
                kw=p.pick("c", [{}, dict(cx=0.5, cy=1.0)]), post=at(XY))


@op("sym", "fn")
def getInversionFn(E, p):
    return Call(E.A.ed_symmetry.getInversionFn, *p.pick("c", [(), (0.5, 0.5), (1, 0)]), post=at(XY))


@op("sym", "fn")
def getTranslFn(E, p):
    return Call(E.A.ed_symmetry.getTranslFn, p.pick("v", [[1, 0], np.array([[0], [1]]), np.array([2., 1.])]), post=at(XY))


def _xf(p):
    """a transformation given by the caller, not by the package"""
    k = p.i("xf", 6)
    M = [np.array([[0, -1], [1, 0]]), np.array([[1, 0], [0, 1]]), np.array([[-1, 0], [0, -1]]), np.array([[-1, 0], [0, 1]]),
         np.array([[1, 0], [0, 1]]), np.array([[1, 0], [0, 1]])][k]
    t = [np.zeros((2, 1)), np.array([[1.], [0.]]), np.zeros((2, 1)), np.zeros((2, 1)), np.array([[0.], [1.]]), np.zeros((2, 1))][k]
    return lambda xs, ys: M.dot(np.vstack((np.asarray(xs)[None, :], np.asarray(ys)[None, :]))) + t


@op("sym")
def getTransformedSites(E, p):
    g = E.geom(p)
    kw = {"tol": 1e-6} if p.flip("tol") else {}
    return Call(E.A.ed_symmetry.getTransformedSites, _xf(p), np.arange(g.nsites), g, kw=kw, objs=[g])


@op("sym")
def findSiteCycles(E, p):
    g = E.geom(p)
    return Call(E.A.ed_symmetry.findSiteCycles, _xf(p), g, kw={"tol": 1e-6} if p.flip("tol") else {}, objs=[g])


def permop(n, perm, nb=2):
    """permutation of n two-level sites as a matrix on their product space"""
    N = nb ** n
    idx = np.arange(N)
    digs = [(idx // nb ** (n - 1 - k)) % nb for k in range(n)]
    new = np.zeros(N, dtype=int)
    for k in range(n):
        new += digs[k] * nb ** (n - 1 - perm[k])
    return sp.csr_matrix((np.ones(N), (new, idx)), shape=(N, N))


def dn_ops(n):
    rot = [(k + 1) % n for k in range(n)]
    ref = [(n - k) % n for k in range(n)]
    return permop(n, rot), permop(n, ref)


@op("sym", "print", "solver")
def getZnProjectors(E, p):
    n = p.pick("n", [3, 4, 2])
    return Call(E.A.ed_symmetry.getZnProjectors, permop(n, [(k + 1) % n for k in range(n)]), n, kw=pr(p), post=proj_first)


@op("sym", "print", "solver")
def get2DTranslationProjectors(E, p):
    ny = 2
    nx = p.pick("nx", [2, 3])
    tx = [(k // nx) * nx + (k + 1) % nx for k in range(nx * ny)]
    ty = [(k + nx) % (nx * ny) for k in range(nx * ny)]
    return Call(E.A.ed_symmetry.get2DTranslationProjectors, permop(nx * ny, tx), nx, permop(nx * ny, ty), ny, kw=pr(p), post=proj_first)


@op("sym", "print", "solver")
def getDnProjectors(E, p):
    n = p.pick("n", [3, 4, 2, 5])
    f = getattr(E.A.ed_symmetry, "getD%dProjectors" % n)
    if n == 2:
        r, q = permop(4, [3, 2, 1, 0]), permop(4, [1, 0, 3, 2])
    else:
        r, q = dn_ops(n)
    return Call(f, r, q, kw=pr(p), post=proj)


@op("sym", "print", "solver", "slow")
def getD67Projectors(E, p):
    n = p.pick("n", [6, 7])
    return Call(getattr(E.A.ed_symmetry, "getD%dProjectors" % n), *dn_ops(n), kw=pr(p), post=proj)


@op("sym", "print", "solver")
def reduce_symm_projector(E, p):
    n = p.pick("n", [3, 4])
    r, _ = dn_ops(n)
    k = p.i("k", n)
    w = np.exp(2j * np.pi * k / n)
    P = sum((w ** j) * (r ** j) for j in range(n)).tocsr()
    rel = sum(abs(r ** j) for j in range(n)).tocsr()
    dim = 1
    if p.flip("dim2") and n == 3:
        P = (2 * sp.eye(8) - r - r ** 2).tocsr()
        dim = 2
    if p.flip("tiny"):
        P.data[0] = 1e-13
    if p.flip("coo"):
        P = P.tocoo()
    if p.flip("csc"):
        rel = rel.tocsc()
    return Call(E.A.ed_symmetry.reduce_symm_projector, P, dim, rel, kw=pr(p), post=proj)


@op("sym", "print", "solver")
def get_symmetry_projectors(E, p):
    r, q = dn_ops(3)
    e = sp.eye(8, format="csr")
    ct = np.array([[1, 1, 1], [1, 1, -1], [2, -1, 0]])
    if p.flip("bad"):
        ct = ct.copy()
        ct[1, 1] = 2
    if p.flip("z2"):
        s = permop(2, [1, 0])
        return Call(E.A.ed_symmetry.get_symmetry_projectors, np.array([[1, 1], [1, -1]]), [[sp.eye(4, format="csr")], [s]], kw=pr(p), post=proj)
    return Call(E.A.ed_symmetry.get_symmetry_projectors, ct, [[e], [r, r ** 2], [q, r * q, r ** 2 * q]], kw=pr(p), post=proj)


@op("sym")
def validate_char_table(E, p):
    ct = np.array([[1, 1, 1], [1, 1, -1], [2, -1, 0]]) * (1 + (p.i("bad", 3) == 2))
    return Call(E.A.ed_symmetry.validate_char_table, ct, [[0], [0, 0], [0, 0, 0]])


@op("sym", "solver", "slow", "print")
def getC4V_and_3byb3(E, p):
    n = 9
    at_ = lambda f: [f(k % 3, k // 3) for k in range(9)]
    idx = lambda x, y: (x % 3) + 3 * (y % 3)
    tx, ty = at_(lambda x, y: idx(x + 1, y)), at_(lambda x, y: idx(x, y + 1))
    rot, ref = at_(lambda x, y: idx(-y, x)), at_(lambda x, y: idx(-x, y))
    one = lambda f: sp.csr_matrix((np.ones(9), (f, np.arange(9))), shape=(9, 9))
    return Call(E.A.ed_symmetry.getC4V_and_3byb3, one(rot), one(ref), one(tx), one(ty), kw=pr(p), post=proj)


@op("sym")
def getC4V_and_4by4(E, p):
    e = sp.eye(4, format="csr")
    return Call(E.A.ed_symmetry.getC4V_and_4by4, e, e, e, e)


# ---------------------------------------------------------------------------------------------- linked clusters

SHAPES = [([0., 1.], [0., 0.]), ([0., 1., 2.], [0., 0., 0.]), ([0., 1., 0.], [1., 1., 0.]), ([0., 1., 0., 1.], [1., 1., 0., 0.]),
          ([0.], [0.]), ([0., 1., 2., 1.], [1., 1., 1., 0.]), ([3., 2., 3.], [5., 5., 6.]), ([1., 0., 2., 1., 1.], [1., 1., 1., 0., 2.])]


def shape(E, p, name="sh"):
    x, y = p.pick(name, SHAPES)
    return E.A.ed_geometry.Geometry.createNonPeriodicGeometry(np.array(x), np.array(y))


@op("nlce")
def get_clusters_next_order(E, p):
    if p.i("none", 3) == 1:
        return Call(E.A.ed_nlce.get_clusters_next_order, kw={"use_symmetry": p.flip("s")})
    cl = [shape(E, p, "a")]
    if p.flip("two"):
        cl.append(shape(E, p, "b"))
    return Call(E.A.ed_nlce.get_clusters_next_order, cl, kw={"use_symmetry": p.flip("s")})


@op("nlce")
def get_all_clusters(E, p):
    kw = {} if not p.flip("s") else {"use_symmetry": False}
    if p.flip("lv"):
        kw["lv1"], kw["lv2"] = p.pick("lvs", [(np.array([1, 0]), np.array([0, 1])), (np.array([1, 1]), np.array([0, 1]))])
    return Call(E.A.ed_nlce.get_all_clusters, p.i("o", 3) + 1, kw=kw)


@op("nlce", "print_progress")
def get_all_clusters_with_subclusters(E, p):
    kw = {"print_progress": True} if p.flip("print") else {}
    if p.flip("s"):
        kw["use_symmetry"] = False
    return Call(E.A.ed_nlce.get_all_clusters_with_subclusters, p.i("o", 3) + 1, kw=kw)


@op("nlce")
def map_between_cluster_bases(E, p):
    big = [E.A.ed_geometry.Geometry.createNonPeriodicGeometry(np.array(x), np.array(y)) for x, y in (SHAPES[4], SHAPES[0], SHAPES[1], SHAPES[2])]
    sm = [E.A.ed_geometry.Geometry.createNonPeriodicGeometry(np.array(x), np.array(y)) for x, y in
          (SHAPES[4], p.pick("sh", [([0., 0.], [1., 0.]), ([0., 1.], [0., 0.])]))]
    return Call(E.A.ed_nlce.map_between_cluster_bases, big, [0, 1, 2, 4], sm, [0, 1, 2], kw={"use_symmetry": not p.flip("s")})


@op("nlce")
def get_subclusters_next_order(E, p):
    g = shape(E, p)
    cl = None if p.flip("n") else [E.A.ed_geometry.Geometry.createNonPeriodicGeometry(g.xlocs[:1], g.ylocs[:1])]
    return Call(E.A.ed_nlce.get_subclusters_next_order, g, kw={"cluster_list": cl})


@op("nlce")
def get_all_subclusters(E, p):
    return Call(E.A.ed_nlce.get_all_subclusters, shape(E, p))


@op("nlce")
def reduce_clusters_by_geometry(E, p):
    one = [E.A.ed_geometry.Geometry.createNonPeriodicGeometry(np.array([float(k)]), np.array([0.])) for k in range(2)]
    two = [shape(E, p, "a"), shape(E, p, "b")]
    return Call(E.A.ed_nlce.reduce_clusters_by_geometry, [one, two], kw={"use_symmetry": p.flip("s")})


@op("nlce", "print_progress")
def get_reduced_subclusters(E, p):
    return Call(E.A.ed_nlce.get_reduced_subclusters, shape(E, p), kw={"print_progress": True} if p.flip("print") else {})


@op("nlce")
def get_clusters_rel_by_symmetry(E, p):
    return Call(E.A.ed_nlce.get_clusters_rel_by_symmetry, shape(E, p), *(["d4"] if p.flip("d4") else []))


@op("nlce")
def get_nlce_exp_val(E, p):
    n, start = p.pick("size", [(4, [0, 1, 2, 4]), (2, [0, 1, 2]), (9, [0, 1, 2, 4, 9]), (3, [0, 1, 3])])
    M = np.tril(np.round(np.abs(p.arr("m", n, n)) * 3), -1)
    mult = [1, 2, 2, 4, 1, 8, 2, 4, 1][:n]
    mult = p.pick("mu", [np.array(mult), list(mult), sp.csr_matrix(np.array(mult))])
    return Call(E.A.ed_nlce.get_nlce_exp_val, p.arr("v", n, 3) if p.flip("v2") else p.arr("v", n, 2, 2), sp.csr_matrix(M), mult, list(start), 1 + p.i("ns", 2))


@op("nlce")
def euler_resum(E, p):
    return Call(E.A.ed_nlce.euler_resum, p.arr("o", p.pick("n", [4, 1, 7]), 3), p.f("y"))


@op("nlce")
def wynn_resum(E, p):
    return Call(E.A.ed_nlce.wynn_resum, p.arr("o", 4, 3))


# ---------------------------------------------------------------------------------------------- Fermi gas

def beta_mu(p):
    b = p.pick("beta", [1.0, 2.5, np.array([0.5, 1.5]), np.inf, 0.3, 2, np.array([2.0, 0.7, 1.1]), np.array([[1.0, 0.4], [3.0, 2.0]])])
    mu = p.pick("mu", [0.0, 0.7, -1.5, np.array([0.2, -0.4]), 3, np.array([0.9, -0.1, 0.0])])
    return b, mu


def fgk(p):
    kw = {"nsites": p.pick("nsites", [4, 5, 6])}
    if p.flip("1d"):
        kw["dim"] = "1d"
    return kw


def ci(p):
    return p.pick("ci", [(1, 0), (0, 1), (0, 0), [1, 1]])


@op("fg")
def fg_fermi(E, p):
    b, mu = beta_mu(p)
    return Call(E.A.fermi_gas.fermi, b, mu, p.pick("e", [0.5, np.array([-1., 0.3]), 0, np.array([3., -2., 0.5])]))


@op("fg")
def fg_fermi_derivatives(E, p):
    b, mu = beta_mu(p)
    return Call(E.A.fermi_gas.fermi_derivatives, b, mu, p.pick("e", [0.5, np.array([-1., 0.3]), 0]), *([0.2] if p.flip("eta") else []))


@op("fg")
def get_allowed_kvects(E, p):
    return Call(E.A.fermi_gas.get_allowed_kvects, p.i("nx", 5) + 1, p.i("ny", 5) + 1, p.pick("mode", ["balanced", "positive", "odd"]))


@op("fg")
def get_energy_spacing(E, p):
    return Call(E.A.fermi_gas.get_energy_spacing, p.arr("e", p.pick("n", [4, 2, 9]), 3))


@op("fg")
def get_dos(E, p):
    return Call(E.A.fermi_gas.get_dos, p.arr("e", p.pick("n", [4, 2, 9]), 3), np.linspace(-1, 1, 5))


@op("fg")
def get_dos2(E, p):
    return Call(E.A.fermi_gas.get_dos2, p.pick("n", [6, 4, 9]), p.pick("dim", ["2d", "1d", "3d"]))


@op("fg")
def fg_kspace_gfns(E, p):
    b, mu = p.pick("beta", [1.0, 2.5, np.inf]), p.pick("mu", [0.0, 0.7, np.array([0.3])])
    ty = p.pick("type", ["greater", "lesser", "retarded", "advanced", "time-ordered", "bad"])
    if p.flip("1d"):
        return Call(E.A.fermi_gas.fg_kspace_gfns, b, mu, p.pick("k1", [p.arr("k", 4) * 3, 0.7]), p.f("t"), ty, "1d")
    return Call(E.A.fermi_gas.fg_kspace_gfns, b, mu, p.pick("k2", [p.arr("k", 4, 2) * 3, np.array([0.3, 0.4]), p.arr("k", 2, 2) * 3]),
                p.f("t"), ty)


@op("fg")
def fg_realspace_gfn(E, p):
    b, mu = beta_mu(p)
    kw = fgk(p)
    if p.flip("ci?"):
        kw["corr_index"] = ci(p)
    return Call(E.A.fermi_gas.fg_realspace_gfn, b, mu, kw=dict(kw, time=p.f("t"), type=p.pick("type", ["greater", "lesser"])))


@op("fg")
def fg_density(E, p):
    return Call(E.A.fermi_gas.fg_density, *beta_mu(p), kw=fgk(p))


@op("fg", "solver", "root")
def fg_mu(E, p):
    b = p.pick("beta", [1.0, 2.5, np.array([0.5, 1.5]), 0.3, np.inf, np.array([2.0, 0.7, 1.1])])
    d = p.pick("d", [0.3, 0.5, 0.8, np.array([0.2, 0.6]), 0.05, 0.97])
    return Call(E.A.fermi_gas.fg_mu, b, d, kw=fgk(p))


@op("fg")
def fg_compressibility(E, p):
    return Call(E.A.fermi_gas.fg_compressibility, *beta_mu(p), kw=fgk(p))


@op("fg")
def fg_corr(E, p):
    return Call(E.A.fermi_gas.fg_corr, *beta_mu(p), *([ci(p)] if p.flip("ci?") else []), kw=fgk(p))


@op("fg")
def fg_density_response(E, p):
    f = p.pick("fn", [E.A.fermi_gas.fg_density_response, E.A.fermi_gas.fg_magnetic_response])
    kw = dict(fgk(p), eta=p.pick("eta", [0.0, 0.1]), omega=p.f("w"))
    if p.flip("k?") or p.i("fn", 2):
        kw["k"] = p.pick("k", [np.array([0.5, 0.2]), np.array([0., 0.]), np.array([np.pi, np.pi])])
    return Call(f, *beta_mu(p), kw=kw)


def _ud(E, p, name, corr):
    b = p.pick("beta", [1.0, 2.5, np.array([0.5, 1.5])])
    a = [b, p.f("mu1"), p.f("mu2")]
    if corr and p.flip("ci?"):
        a.append(ci(p))
    return Call(getattr(E.A.fermi_gas, name), *a, kw=fgk(p))


@op("fg")
def fg_singles(E, p):
    return _ud(E, p, p.pick("w", ["fg_singles", "fg_doubles"]), False)


@op("fg")
def fg_two_spin_corr(E, p):
    return _ud(E, p, p.pick("w", ["fg_singles_corr", "fg_doubles_corr", "fg_sz_corr", "fg_sx_corr"]), True)


# ---------------------------------------------------------------------------------------------- Green functions

@op("gf")
def get_matsubara_frqs(E, p):
    return Call(E.A.greens_fns.get_matsubara_frqs, p.pick("b", [1.0, 2.0, 0.7]), *([10] if p.flip("m") else []),
                kw={"format": p.pick("f", ["fermion", "boson", "x"])})


OM = np.linspace(-3, 3, 9)
TAU = np.linspace(0, 1, 5)
MF = np.array([-9.42, -3.14, 3.14, 9.42])


@op("gf")
def gf_spectral(E, p):
    G = E.A.greens_fns
    A = np.abs(p.arr("A", 9))
    f = p.pick("f", ["fermion", "boson", "x"])
    b = p.pick("b", [1.0, 2.0])
    k = p.i("k", 4)
    om = OM + 0.01 * p.i("sh", 3)
    if k == 0:
        return Call(G.get_grnfn_imagfrq_spectralfn, MF.copy(), om, A)
    if k == 1:
        return Call(G.get_grnfn_imagtime_spectralfn, TAU.copy(), b, om, A, f)
    if k == 2:
        return Call(G.get_grnfn_imagfrq_spectralfn_kernel, MF.copy(), om, f)
    return Call(G.get_grnfn_imagtime_spectralfn_kernel, TAU.copy(), b, om, f)


@op("gf")
def gf_ft(E, p):
    G = E.A.greens_fns
    b = p.pick("b", [1.0, 0.8])
    r = p.i("long", 3)
    if r:
        # many points; out of order
        taus = np.linspace(0, 1.0, 24) if r == 1 else np.array([0.3, 0.0, 1.0, 0.6, 0.1, 0.9])
        mf = np.pi * np.arange(-11, 12, 2)
        if p.flip("k"):
            return Call(G.grnfn_imagtime_ft, mf, taus, p.arr("g", taus.size, cplx=True), b)
        return Call(G.grnfn_imagfrq_ft, taus, mf, p.arr("g", mf.size, cplx=True), b)
    if p.flip("k"):
        return Call(G.grnfn_imagtime_ft, MF.copy(), TAU.copy(), p.arr("g", 5, cplx=True), b)
    return Call(G.grnfn_imagfrq_ft, TAU.copy(), MF.copy(), p.arr("g", 4, cplx=True), b)


@op("gf")
def gf_free(E, p):
    G = E.A.greens_fns
    k = p.i("k", 3)
    f = p.pick("f", ["fermion", "boson", "bosone"])
    if k == 0 and p.flip("long"):
        return Call(G.get_noninteracting_gfn_tau, np.array([0.5, -0.5, 1.0, 0.0, 0.9, -1.0, 0.2]), p.f("e"), p.pick("b", [1.0, 2.0]), f)
    if k == 0:
        return Call(G.get_noninteracting_gfn_tau, TAU.copy(), p.f("e"), p.pick("b", [1.0, 2.0]), f)
    if k == 1:
        return Call(G.get_noninteracting_gfn_imagfrq, 20, p.f("e"), p.pick("b", [1.0, 2.0]), f)
    return Call(G.get_noninteracting_spectral_fn, OM.copy(), p.f("e"), 0.1)


@op("gf")
def gf_hydro(E, p):
    G = E.A.greens_fns
    k = p.i("k", 4)
    ws, ts = np.linspace(-2, 2, 7), np.linspace(0, 2, 4)
    if k == 0:
        kw = {}
        if p.flip("d2"):
            kw["d2"] = 0.3
        if p.flip("g"):
            kw["gamma"] = 2.0
        return Call(G.chi_hydro, ws, p.f("kk") + 0.1, 1.0, 0.5, kw=kw)
    if k == 1:
        return Call(G.field_snap_off_w, ws, p.f("h"), *([0.3] if p.flip("eta") else []))
    if k == 2:
        return Call(G.phi_t, ts, ws, p.arr("c", 7, cplx=True))
    return Call(G.obs_kt, ts, ws, p.arr("c", 7, cplx=True), p.arr("f", 7, cplx=True))
