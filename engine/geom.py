"""Exact-enough crystal geometry used as oracle and as the model of spglib.

Runs unchanged under CPython 3.12/numpy 2 (symbolic side) and PyPy 3.9/numpy
1.12 (replay side).  Rows of a lattice are the basis vectors; a symmetry
operation (R, t) maps the fractional column x to R x + t.
"""
from __future__ import division
import itertools
import math


def metric(lat):
    lat = [[float(v) for v in r] for r in lat]
    return [[sum(lat[i][k] * lat[j][k] for k in range(3)) for j in range(3)]
            for i in range(3)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != j]
            p, q = [k for k in range(3) if k != i]
            v = m[a][p] * m[b][q] - m[a][q] * m[b][p]
            c[i][j] = (v if (i + j) % 2 == 0 else -v) / d
    return c


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def lattice_rotations(lat, tol=1e-4):
    """integer matrices R with R^T G R == G (R acts on fractional columns)"""
    G = metric(lat)
    Ginv = inv3(G)
    lens = [G[i][i] for i in range(3)]
    mx = max(lens)
    lim = [int(math.floor(math.sqrt(mx * Ginv[i][i]) + 1e-6)) for i in range(3)]
    rng = [range(-k, k + 1) for k in lim]

    def ip(u, v):
        return sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    eps = tol * mx
    cand = [[], [], []]
    for v in itertools.product(*rng):
        n = ip(v, v)
        for i in range(3):
            if abs(n - lens[i]) < eps:
                cand[i].append(v)
    out = []
    for a in cand[0]:
        for b in cand[1]:
            if abs(ip(a, b) - G[0][1]) > eps:
                continue
            for c in cand[2]:
                if abs(ip(a, c) - G[0][2]) > eps or abs(ip(b, c) - G[1][2]) > eps:
                    continue
                # columns are the images of the basis vectors
                R = [[a[0], b[0], c[0]], [a[1], b[1], c[1]], [a[2], b[2], c[2]]]
                if abs(abs(det3(R)) - 1) < 1e-9:
                    out.append(R)
    ident = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    out.sort(key=lambda R: (R != ident, R))
    return out


def apply_op(R, t, x):
    return [sum(R[i][k] * x[k] for k in range(3)) + t[i] for i in range(3)]


def wrapdiff(a, b):
    d = [a[i] - b[i] for i in range(3)]
    return [v - math.floor(v + 0.5) for v in d]


def same_site(a, b, tol=2e-4):
    return all(abs(v) < tol for v in wrapdiff(a, b))


def symmetry_ops(lat, pos, same, tol=2e-4, symprec=None):
    """[(R, t, perm)]: site i is carried onto site perm[i]; `same(i, j)` tells
    whether sites i and j hold the same element.  With symprec, sites agree
    up to that cartesian distance."""
    G = metric(lat)
    ltol = 1e-4
    if symprec is not None and symprec > 2e-3:
        ltol = max(ltol, 2 * symprec / math.sqrt(max(G[i][i] for i in range(3))))

    def near(a, b):
        d = wrapdiff(a, b)
        if symprec is None:
            return all(abs(v) < tol for v in d)
        return sum(d[i] * G[i][j] * d[j] for i in range(3) for j in range(3)) < symprec * symprec
    pos = [[float(v) for v in p] for p in pos]
    n = len(pos)
    classes = []
    for i in range(n):
        for c in classes:
            if same(c[0], i):
                c.append(i)
                break
        else:
            classes.append([i])
    cls = {}
    for k, c in enumerate(classes):
        for i in c:
            cls[i] = k
    small = min(classes, key=len)
    ref = small[0]
    out = []
    for R in lattice_rotations(lat, ltol):
        img = [apply_op(R, [0, 0, 0], p) for p in pos]
        for j in small:
            t = [pos[j][k] - img[ref][k] for k in range(3)]
            t = [v - math.floor(v + 1e-9) for v in t]
            perm = []
            for i in range(n):
                y = [img[i][k] + t[k] for k in range(3)]
                hit = [q for q in classes[cls[i]] if near(y, pos[q])]
                if len(hit) != 1:
                    break
                perm.append(hit[0])
            else:
                if len(set(perm)) == n:
                    out.append((R, t, perm))
    return library_order(out)


def library_order(ops):
    """the order the library lists operations in: the identity first, R and -R
    side by side, and the whole list repeated for every pure translation"""
    ident = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    size = lambda t: round(sum(abs(v - round(v)) for v in t), 6)
    groups = []
    for o in ops:
        for g in groups:
            if g[0][0] == o[0]:
                g.append(o)
                break
        else:
            groups.append([o])
    for g in groups:
        g.sort(key=lambda o: size(o[1]))
    groups.sort(key=lambda g: 0 if g[0][0] == ident else 1)
    base = []
    while groups:
        g = groups.pop(0)
        base.append(g)
        neg = [[-v for v in r] for r in g[0][0]]
        for k, h in enumerate(groups):
            if h[0][0] == neg:
                base.append(groups.pop(k))
                break
    if not base or base[0][0][0] != ident:
        return ops
    taus = [o[1] for o in base[0]]
    out = []
    for tau in taus:
        for g in base:
            want = [g[0][1][k] + tau[k] for k in range(3)]
            left = [o for o in g if not any(o is q for q in out)]
            if left:
                out.append(min(left, key=lambda o: round(
                    sum(abs(v) for v in wrapdiff(want, o[1])), 6)))
    out += [o for g in base for o in g if not any(o is q for q in out)]
    return out


def pure_translations(ops):
    ident = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    return [t for R, t, p in ops if R == ident]


def orbits(n, perms):
    lab = list(range(n))

    def find(a):
        while lab[a] != a:
            a = lab[a]
        return a
    for p in perms:
        for i, j in enumerate(p):
            a, b = find(i), find(j)
            if a != b:
                lab[max(a, b)] = min(a, b)
    return [find(i) for i in range(n)]


def primitive_basis(translations):
    """3 vectors (fractional, rows) generating Z^3 + the given translations,
    volume 1/len(translations), chosen by brute force."""
    n = len(translations)
    cand = []
    for t in translations:
        t = [v - math.floor(v + 1e-6) for v in t]
        for s in itertools.product((-1, 0, 1), repeat=3):
            v = tuple(round(t[i] + s[i], 10) for i in range(3))
            if any(abs(x) > 1e-6 for x in v):
                cand.append(v)
    cand.sort(key=lambda v: (round(sum(x * x for x in v), 8), v))
    want = 1.0 / n
    for a in cand:
        for b in cand:
            for c in cand:
                d = det3([a, b, c])
                if abs(d - want) < 1e-6:
                    return [list(a), list(b), list(c)]
    raise ValueError('no primitive basis')


def primitive_cell(lat, pos, ids, translations):
    """(lattice, positions, representative index) of a primitive cell"""
    B = primitive_basis(translations)
    L = matmul(B, [[float(v) for v in r] for r in lat])
    Binv = inv3(B)
    out, rep = [], []
    for i, p in enumerate(pos):
        q = matmul([[float(v) for v in p]], Binv)[0]
        q = [v - math.floor(v + 1e-7) for v in q]
        if not any(same_site(q, o, 1e-5) for o in out):
            out.append(q)
            rep.append(i)
    return L, out, rep


def upright(L):
    """the same lattice turned so that a lies along x and b in the xy plane"""
    g = [[sum(u[k] * v[k] for k in range(3)) for v in L] for u in L]
    a = math.sqrt(g[0][0])
    bx = g[0][1] / a
    by = math.sqrt(g[1][1] - bx * bx)
    cx = g[0][2] / a
    cy = (g[1][2] - bx * cx) / by
    cz = math.sqrt(g[2][2] - cx * cx - cy * cy)
    return [[a, 0.0, 0.0], [bx, by, 0.0], [cx, cy, cz]]
