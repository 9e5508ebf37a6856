"""Independent reference for the batch run: Heisenberg model on square-lattice site clusters, numerical linked clusters.

Nothing here uses exact_diag: own enumeration of fixed polyominoes, own dense Hamiltonians, own inclusion-exclusion."""
import functools
import itertools

import numpy as np

J = 0.25           # 2 * 0.5 * s.s in terms of Pauli matrices, with the 0.5 of diag_cluster.py
TEMPS = np.logspace(-1, 0.5, 50)


def _norm(cells):
    mx = min(c[0] for c in cells)
    my = min(c[1] for c in cells)
    return tuple(sorted((x - mx, y - my) for x, y in cells))


def fixed(n):
    cur = {((0, 0),)}
    for _ in range(n - 1):
        nxt = set()
        for p in cur:
            s = set(p)
            for x, y in p:
                for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    q = (x + d[0], y + d[1])
                    if q not in s:
                        nxt.add(_norm(s | {q}))
        cur = nxt
    return cur


def free_form(p):
    best = None
    for k in range(4):
        for m in (1, -1):
            q = [(m * x, y) for x, y in p]
            for _ in range(k):
                q = [(-y, x) for x, y in q]
            q = _norm(q)
            if best is None or q < best:
                best = q
    return best


def spins(n):
    sz = np.array([[1, 0], [0, -1]], complex)
    sx = np.array([[0, 1], [1, 0]], complex)
    sy = np.array([[0, -1j], [1j, 0]], complex)

    def op(o, i):
        return functools.reduce(np.kron, [o if k == i else np.eye(2) for k in range(n)])
    return [[op(o, i) for o in (sx, sy, sz)] for i in range(n)]


def thermo(bonds, n, sign=1):
    s = spins(n)
    h = np.zeros((2 ** n, 2 ** n), complex)
    for i, j in bonds:
        for k in range(3):
            h += sign * J * s[i][k] @ s[j][k]
    e, v = np.linalg.eigh(h)
    zz = np.zeros(2 ** n)
    for i in range(n):
        for j in range(i + 1, n):
            d = np.real(np.diag(s[i][2]) * np.diag(s[j][2]))
            zz = zz + np.real(np.einsum("ia,i,ia->a", v.conj(), d, v))
    out = np.zeros((4, len(TEMPS)))
    for k, t in enumerate(TEMPS):
        w = np.exp(-(e - e[0]) / t)
        z = w.sum()
        en = (w @ e) / z
        out[0, k] = en
        out[1, k] = np.log(z) - e[0] / t + en / t
        out[2, k] = ((w @ e ** 2) / z - en ** 2) / t ** 2
        out[3, k] = (w @ zz) / z
    return out


def bonds_of(cells):
    idx = {c: i for i, c in enumerate(cells)}
    b = []
    for (x, y), i in idx.items():
        for d in ((1, 0), (0, 1)):
            j = idx.get((x + d[0], y + d[1]))
            if j is not None:
                b.append((i, j))
    return b


def connected_subsets(cells):
    """all connected proper non-empty subsets"""
    n = len(cells)
    nb = [[] for _ in range(n)]
    for i, j in bonds_of(cells):
        nb[i].append(j)
        nb[j].append(i)
    for mask in range(1, (1 << n) - 1):
        start = (mask & -mask).bit_length() - 1
        seen, todo = 1 << start, [start]
        while todo:
            a = todo.pop()
            for b in nb[a]:
                if mask >> b & 1 and not seen >> b & 1:
                    seen |= 1 << b
                    todo.append(b)
        if seen == mask:
            yield [cells[i] for i in range(n) if mask >> i & 1]


def nlce(order, sign=1):
    """(contribution of each order, shape order x 4 x temps)"""
    w = {}
    contrib = []
    for n in range(1, order + 1):
        tot = 0
        for p in sorted(fixed(n)):
            f = free_form(p)
            if f not in w:
                val = thermo(bonds_of(f), n, sign)
                for s in connected_subsets(f):
                    val = val - w[free_form(s)]
                w[f] = val
            tot = tot + w[f]
        contrib.append(tot)
    return np.array(contrib)
