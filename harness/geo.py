"""Cells as sets of sites: symmetry permutations (C03), identity (C04),
supercells (C05), superlattices (C06)."""
from __future__ import division
from itertools import permutations, product

from engine import geom
from harness import cells
from harness.common import atoms, group, same_lattice, site_map


# ---------------------------------------------------------------- C03
def _mulv(R, v):
    return [sum(R[a][b] * v[b] for b in range(3)) for a in range(3)]


def perms(ctx, cfg):
    """site permutations of the symmetry operations, for any choice of origin
    and any translations reported within the symmetry tolerance"""
    name = cfg['cell']
    lat, pos, lab = cells.get(name)
    ops = geom.symmetry_ops(lat, pos, lambda i, j: lab[i] == lab[j])
    z = atoms(ctx, lab)
    sh = [0.0, 0.0, 0.0]
    for a in cfg.get('axes', []):
        sh[a] = ctx.dyadic('s%d' % a, 0, 1, 64) if cfg.get('dy') else ctx.real('s%d' % a, 0, 1)
    amp = cfg.get('noise', 0)
    P = [[p[a] + sh[a] for a in range(3)] for p in pos]
    for q, (i, a) in enumerate(cfg.get('pnoise', [])):
        # a coordinate that is off its ideal value, within the tolerance
        P[i][a] = P[i][a] + 5e-5 * ctx.real('d%d' % q, -1, 1)

    def sym_hook(l, p, n):
        # the cell listed its sites in its own order: express the operations
        # for the shifted origin
        out = []
        for R, t, pm in ops:
            rs = _mulv(R, sh)
            out.append((R, [t[a] + sh[a] - rs[a] for a in range(3)], pm))
        return out
    if cfg.get('axes') or cfg.get('pnoise'):
        ctx.hooks['symmetry'] = sym_hook
    if amp:
        e = [ctx.real('e%d' % a, -1, 1) for a in range(cfg.get('ne', 3))]
        e = (e * 3)[:3]

        def noise(k, t):
            s = (1, -1)[k % 2]
            return [t[a] + s * amp * e[(a + k) % 3] for a in range(3)]
        ctx.hooks['noise'] = noise
    if cfg.get('turn'):
        off = ctx.choose('turn', len(ops))
        ctx.hooks['oporder'] = lambda n: [(i + off) % n for i in range(n)]
    cell = ctx.GeneralCell(lat, P, [z[l] for l in lab])
    if cfg.get('warm'):
        # other cells over the same sites, asked before
        w = ctx.choose('warm', 3)
        if w == 0:
            c2 = ctx.GeneralCell(lat, pos, [7 + i for i in range(len(lab))])
        elif w == 1:
            l2 = [list(r) for r in lat]
            l2[0][0] += 0.5
            c2 = ctx.GeneralCell(l2, pos, [z[l] for l in lab])
        else:
            c2 = cell
        c2.get_symmetry_permutation()
        ctx.mod('ababe.stru.sogen').get_permutation_cell(c2.spg_cell)
    if cfg.get('fn') == 'cstru':
        got = ctx.mod('ababe.stru.sogen').get_permutation_cell(cell.spg_cell)
    else:
        got = cell.get_symmetry_permutation()
    # order in which the cell lists the sites
    order = []
    for k in range(len(lab)):
        hit = [i for i in range(len(lab))
               if ctx.truth(ctx.closevecmod(cell.positions[k].tolist(), P[i], 1e-6))]
        ctx.check(len(hit) == 1, 'the cell keeps its sites')
        order.append(hit[0])
        ctx.check(cell.numbers[k] == z[lab[hit[0]]], 'the cell keeps the elements of its sites')
    want = set()
    inv = [order.index(i) for i in range(len(lab))]
    for _, _, pm in ops:
        want.add(tuple(inv[pm[order[k]]] for k in range(len(lab))))
    gots = []
    for g in got:
        g = [int(x) for x in list(g)]
        ctx.check(sorted(g) == list(range(len(lab))), 'every table row is a permutation of the sites')
        gots.append(tuple(g))
    ctx.observe('n', len(set(gots)))
    ctx.check(set(gots) == want,
              'the table holds exactly the site permutations of the symmetry operations')


# ---------------------------------------------------------------- C04
def _site(ctx, i, den):
    """fractional coordinates resolved to the 0.001 the package works with"""
    k = [ctx.int('k%d_%d' % (i, a), 0, den - 1) for a in range(3)]
    return k


def identity(ctx, cfg):
    N = cfg['n']
    free = cfg['free']          # (site, axis) pairs with free coordinates
    base = cfg.get('base') or [[0, 0, 0], [500, 500, 0], [250, 750, 500], [100, 100, 100]]
    K = [list(b) for b in base[:N]]
    for i, a in free:
        K[i][a] = ctx.int('k%d_%d' % (i, a), 0, 999)
    wob = cfg.get('wobble', 0)
    for i in range(N):
        for j in range(i):
            ctx.assume(ctx.Or(*[K[i][a] != K[j][a] for a in range(3)]))
    pos, pos2 = [], []
    for i in range(N):
        p, q = [], []
        for a in range(3):
            v = ctx.toreal(K[i][a]) / 1000
            if [i, a] in cfg.get('wob', []):
                p.append(v + ctx.real('w%d_%d' % (i, a), -0.0004, 0.0004))
                v = v + ctx.real('v%d_%d' % (i, a), -0.0004, 0.0004)
            else:
                p.append(v)
            q.append(v + (ctx.int('T%d_%d' % (i, a), -3, 3) if [i, a] in cfg.get('trans', []) else 0))
        pos.append(p)
        pos2.append(q)
    num = [ctx.int('Z%d' % i, 0, 88) for i in range(N)]
    perm = list(permutations(range(N)))[ctx.choose('perm', len(list(permutations(range(N)))))]
    lat = [[4.0, 0, 0], [0.5, 5.0, 0], [0, 0.25, 6.0]]
    A = ctx.GeneralCell(lat, pos, num)
    B = ctx.GeneralCell(lat, [pos2[i] for i in perm], [num[i] for i in perm])
    for C, P, m in ((A, pos, ''), (B, pos2, ' after relisting')):
        ctx.check(C.num_count == N and len(C.positions) == N and len(C.numbers) == N,
                  'the cell has all sites' + m)
        seen = []
        for k in range(N):
            p = C.positions[k].tolist()
            h = [i for i in range(N) if i not in seen
                 and ctx.truth(ctx.closevec(p, P[i], 1e-9))]
            ctx.check(len(h) >= 1, 'every site of the cell is a given site' + m)
            seen.append(h[0])
            ctx.check(C.numbers[k] == num[h[0]], 'every site keeps its element' + m)
    ctx.check(ctx.same(A.id, B.id), 'identity does not depend on the listing of the sites or on lattice translations')
    ctx.check(ctx.And(*[A.numbers[k] == B.numbers[k] for k in range(N)]),
              'the same crystal lists its elements in the same order')
    # another occupation of the same sites
    num2 = [ctx.int('Y%d' % i, 0, 88) for i in range(N)]
    C = ctx.GeneralCell(lat, [pos2[i] for i in perm], [num2[i] for i in perm])
    same = ctx.And(*[num[i] == num2[i] for i in range(N)])
    ctx.check(ctx.Iff(ctx.same(A.id, C.id), same), 'two occupations of the same sites share their identity only if equal')


# ---------------------------------------------------------------- C05
def _hnf(h):
    a, b, c, d, e, f = h
    return [[a, b, c], [0, d, e], [0, 0, f]]


def _inv_int(H):
    """exact inverse of an integer 3x3 matrix as (adjugate, determinant)"""
    (a, b, c), (d, e, f), (g, h, i) = H
    adj = [[e * i - f * h, c * h - b * i, b * f - c * e],
           [f * g - d * i, a * i - c * g, c * d - a * f],
           [d * h - e * g, b * g - a * h, a * e - b * d]]
    return adj, a * adj[0][0] + b * adj[1][0] + c * adj[2][0]


def tiling(ctx, cfg):
    """a supercell is the unit cell repeated: same crystal, larger cell"""
    H = [list(r) for r in cfg['H']]
    adj, det = _inv_int(H)
    det = abs(det)
    lat = [[4.0, 0, 0], [0.5, 5.0, 0], [0.25, 0.75, 6.0]]
    for a, b in cfg.get('lat', []):
        lat[a][b] = ctx.real('L%d%d' % (a, b), -2, 2) + (lat[a][b] if a == b else 0)
    pos = [list(p) for p in cfg['pos']]
    for q, (i, a) in enumerate(cfg.get('free', [])):
        pos[i][a] = ctx.real('x%d_%d' % (i, a), *cfg.get('range', [0, 0.99]))
    N = len(pos)
    for i in range(N):
        for j in range(i):
            # distinct sites
            if any(ctx.symbolic and not isinstance(x, float) and not isinstance(x, int)
                   for x in pos[i] + pos[j]):
                ctx.assume(ctx.Not(ctx.closevecmod(pos[i], pos[j], 0.01)))
            else:
                ctx.assume(not ctx.closevecmod(pos[i], pos[j], 0.01))
    num = [ctx.int('Z%d' % i, 0, 88) for i in range(N)]
    cell = ctx.GeneralCell(lat, pos, num)
    if cfg.get('warm'):
        # other supercells of this cell, or the same one of another cell
        w = ctx.choose('warm', 3)
        c2 = cell
        if w == 1:
            c2 = ctx.GeneralCell(lat, [[x * 0.5 + 0.125 for x in p] for p in pos], num)
        H2 = [[2, 0, 0], [0, 1, 0], [0, 0, 1]] if w == 0 else H
        c2.supercell(ctx.np.array(H2))
        if not cfg.get('free') and not cfg.get('lat'):
            ctx.mod('ababe.stru.grid').SuperLatticeCell(c2, ctx.np.array(H2)).to_general_cell()
    if cfg['mode'] == 'supercell':
        S = cell.supercell(ctx.np.array(H))
    else:
        if cfg.get('free') or cfg.get('lat'):
            ctx.hooks['symmetry'] = lambda l, p, n: [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0.0, 0.0, 0.0],
                                                      list(range(N)))]
        S = ctx.mod('ababe.stru.grid').SuperLatticeCell(cell, ctx.np.array(H)).to_general_cell()
    L = S.lattice.tolist()
    for a in range(3):
        for b in range(3):
            ctx.check(ctx.close(L[a][b], sum(H[a][k] * lat[k][b] for k in range(3)), 1e-6),
                      'the lattice of the supercell is the scaled lattice')
    sp, sn = S.positions.tolist(), list(S.numbers)
    ctx.check(len(sp) == N * det and len(sn) == N * det, 'one copy of every site per unit cell')
    ctx.observe('natoms', len(sp))
    offs = [[] for _ in range(N)]
    for p, z in zip(sp, sn):
        # fractional coordinates in the unit cell
        u = [sum(p[k] * H[k][b] for k in range(3)) for b in range(3)]
        hit = [i for i in range(N) if ctx.truth(ctx.closevecmod(u, pos[i], 1e-4))]
        ctx.check(len(hit) == 1, 'every site of the supercell is a lattice translate of a unit cell site')
        i = hit[0]
        ctx.check(z == num[i], 'translated sites keep their element')
        off = []
        for b in range(3):
            d = ctx.floor(u[b] - pos[i][b] + 0.5)
            off.append(int(d))
        # class of the translation modulo the supercell lattice
        key = tuple(sum(off[k] * adj[k][b] for k in range(3)) % det for b in range(3))
        ctx.check(key not in offs[i], 'no two sites of the supercell coincide')
        offs[i].append(key)
    ctx.check(all(len(o) == det for o in offs), 'every unit cell site occurs once per unit cell')


# ---------------------------------------------------------------- C06
def _rots(name):
    lat, pos, lab = cells.get(name)
    ops = geom.symmetry_ops(lat, pos, lambda i, j: lab[i] == lab[j])
    out = []
    for R, _, _ in ops:
        R = [list(r) for r in R]
        if R not in out:
            out.append(R)
    return out


def _mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def _tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def _div(ctx, x, n):
    """n divides x"""
    return x % n == 0


def _equiv(ctx, H, K, n, R):
    """some operation carries the superlattice with rows H onto the one with
    rows K (both of index n): K spans the rotated rows of H"""
    adj, det = _inv_int(K)
    M = _mm(_mm(H, _tr(R)), adj)
    return ctx.And(*[_div(ctx, M[i][j], n) for i in range(3) for j in range(3)])


def hnfs(ctx, cfg):
    """every superlattice of the requested volume is equivalent to exactly one
    of the enumerated ones"""
    name, n, ld = cfg['cell'], cfg['n'], cfg.get('ld')
    lat, pos, lab = cells.get(name)
    z = atoms(ctx, lab)
    cell = ctx.GeneralCell(lat, pos, [z[l] for l in lab])
    g = ctx.mod('ababe.stru.grid')
    G = g.SuperLatticeGenerator2D if ld else g.SuperLatticeGenerator
    enum = G.hnfs_from_n_dups if cfg.get('dups') else G.hnfs_from_n
    other = None
    if cfg.get('warm'):
        w = ctx.choose('warm', 4)
        l2, p2, b2 = cells.get('p1_4' if name != 'p1_4' else 'sc1')
        c2 = ctx.GeneralCell(l2, p2, [5 + ord(l) - 65 for l in b2])
        if w == 0:
            list(enum(c2, n))
        elif w == 1:
            list(enum(cell, n))
            list(enum(cell, n + 1))
        elif w == 2:
            other = iter(enum(cell, n))
            next(other, None)
        else:
            list((g.SuperLatticeGenerator if ld else g.SuperLatticeGenerator2D).hnfs_from_n(cell, n))
    got = []
    for h in enum(cell, n):
        got.append([[int(v) for v in r] for r in h.lat_coeff.tolist()])
        if other is not None:
            next(other, None)
    ctx.observe('n', len(got))
    for K in got:
        ctx.check(abs(_inv_int(K)[1]) == n, 'every enumerated superlattice has the requested volume')
        if ld:
            ctx.check(K[2] == [0, 0, 1] and K[0][2] == 0 and K[1][2] == 0,
                      'two-dimensional superlattices leave the third axis alone')
    # an arbitrary superlattice: Hermite form with symbolic off-diagonal
    diag = []
    for a in range(1, n + 1):
        for c in range(1, n + 1):
            for f in ([1] if ld else range(1, n + 1)):
                if a * c * f == n:
                    diag.append((a, c, f))
    a, c, f = diag[ctx.choose('diag', len(diag))]
    b = ctx.int('b', 0, c - 1)
    d, e = (0, 0) if ld else (ctx.int('d', 0, f - 1), ctx.int('e', 0, f - 1))
    H = [[a, b, d], [0, c, e], [0, 0, f]]
    if cfg.get('mix'):
        # another basis of the same superlattice
        u = ctx.int('u', -2, 2)
        if ld:
            H = [[H[0][j] + u * H[1][j] for j in range(3)], H[1], H[2]]
        else:
            v = ctx.int('v', -2, 2)
            H = [[H[0][j] + u * H[1][j] for j in range(3)], [H[1][j] + v * H[2][j] for j in range(3)], H[2]]
    rots = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]]] if cfg.get('dups') else _rots(name)
    hits = [ctx.Or(*[_equiv(ctx, H, K, n, R) for R in rots]) for K in got]
    ctx.check(ctx.Or(*hits), 'some superlattice has no representative')
    if a != diag[0][0] or c != diag[0][1]:
        return
    for i in range(len(got)):
        for j in range(i):
            ctx.check(not any(ctx.truth(_equiv(ctx, got[i], got[j], n, R)) for R in rots),
                      'two enumerated superlattices are equivalent')


def lateq(ctx, cfg):
    """equality of superlattices is equivalence under the symmetry of the
    unit cell"""
    name = cfg['cell']
    lat, pos, lab = cells.get(name)
    cell = ctx.GeneralCell(lat, pos, [1 + ord(l) - 65 for l in lab])
    g = ctx.mod('ababe.stru.grid')
    M = []
    n = cfg['d1'][0] * cfg['d1'][1] * cfg['d1'][2]
    for q, (a, c, f) in enumerate((cfg['d1'], cfg['d2'])):
        off = cfg.get('off', 'bde')
        pick = ctx.int
        if q == cfg.get('conc'):
            pick = lambda name, lo, hi: ctx.choose(name, hi + 1)
        b = pick('b%d' % q, 0, c - 1) if 'b' in off else 0
        d = pick('d%d' % q, 0, f - 1) if 'd' in off else 0
        e = pick('e%d' % q, 0, f - 1) if 'e' in off else 0
        M.append([[a, b, d], [0, c, e], [0, 0, f]])
    A, B = (g.SuperLatticeCell(cell, ctx.iarr(m)) for m in M)
    r = bool(A == B)
    ctx.observe('eq', r)
    want = ctx.Or(*[_equiv(ctx, M[0], M[1], n, R) for R in _rots(name)])
    ctx.check(ctx.Iff(r, want), 'superlattices compare equal exactly when a symmetry of the unit cell relates them')


# ---------------------------------------------------------------- C27
SYMB = {0: 'G', 5: 'B', 8: 'O', 11: 'Na', 16: 'S', 39: 'Y', 29: 'Cu', 30: 'Zn', 56: 'Ba', 82: 'Pb'}


def _formula(num):
    return ''.join('%s%d' % (SYMB[z], num.count(z)) for z in sorted(set(num)) if z)


def _same_partition(a, b):
    n = len(a)
    return all((a[i] == a[j]) == (b[i] == b[j]) for i in range(n) for j in range(i))


def inspect(ctx, cfg):
    """what a cell says of itself, fresh or after its occupation was replaced"""
    name = cfg['cell']
    lat, pos, lab = cells.get(name)
    n = len(pos)
    pal = cfg.get('palette', [0, 5, 30])
    el = ctx.mod('ababe.stru.element')
    sprec = [1e-3, 0.1][ctx.choose('loose', 2)] if cfg.get('loose') else 1e-3
    P = [list(p) for p in pos]

    sym = not set(cfg['ask']) & {'count', 'cart'}

    def pick(tag):
        z = []
        for i in range(n):
            if sym:
                # any element at the free sites
                z.append(ctx.int('%s%d' % (tag, i), 0, 88) if i in cfg.get('sites', range(n)) else 30)
                continue
            q = len(pal) if i in cfg.get('sites', range(n)) else 1
            z.append(pal[ctx.choose('%s%d' % (tag, i), q)])
        return z
    num = pick('z')
    kw = {'symprec': sprec} if cfg.get('loose') else {}
    M = ctx.mod('ababe.stru.scaffold').GeneralCell
    cell = M(ctx.farr(lat), ctx.farr(P), ctx.np.array(num), **kw)
    order = site_map(pos, cell)
    ctx.check(order is not None, 'the cell keeps its sites')
    now = [num[k] for k in order]
    ctx.check(ctx.And(*[cell.numbers[i] == now[i] for i in range(n)]), 'the cell keeps the elements of its sites')

    def same(z):
        return lambda i, j: ctx.truth(z[i] == z[j])

    def spg(c, symprec=1e-5, *a, **k):
        m = geom.symmetry_ops([[float(v) for v in r] for r in c[0]], [[float(v) for v in r] for r in c[1]],
                              same(list(c[2])), symprec=float(symprec))
        return 'X (%d)' % len(m)
    ctx.hooks['spacegroup'] = spg

    def ask(c, w):
        """one question; the answer must fit the atoms now held"""
        Q = [pos[k] for k in order]
        if w == 'count':
            for z in sorted(set(pal + [82])):
                ctx.check(int(c.get_speckle_num(el.Specie(SYMB[z]) if z else el.GhostSpecie())) == now.count(z),
                          'the number of atoms of an element')
            ctx.check(int(c.num_count) == n, 'the number of atoms')
            ctx.check(c.comment == _formula(now), 'the formula')
            return
        if w == 'cart':
            for z in [None] + sorted(set(pal + [82])):
                got = c.get_cartesian() if z is None else c.get_cartesian(el.Specie(SYMB[z]) if z else el.GhostSpecie())
                got = [list(r) for r in got]
                want = [[sum(Q[i][k] * lat[k][b] for k in range(3)) for b in range(3)]
                        for i in range(n) if z is None or now[i] == z]
                ctx.check(len(got) == len(want), 'cartesian coordinates of the atoms of an element')
                for g, t in zip(got, want):
                    ctx.check(ctx.closevec(g, t, 1e-6), 'cartesian coordinates of the atoms of an element')
            return
        ops = geom.symmetry_ops(lat, Q, same(now), symprec=sprec)
        if w == 'perm':
            want = set(tuple(o[2]) for o in ops)
            got = [tuple(int(x) for x in list(g)) for g in c.get_symmetry_permutation()]
            # rows may list the operations or their inverses: one group
            ctx.check(set(got) == want, 'the site permutations are those of the atoms held')
        elif w == 'sym':
            s = c.get_symmetry()
            ctx.check(len(s['rotations']) == len(ops), 'the operations are those of the atoms held')
        elif w == 'spg':
            ctx.check(c.get_spacegroup() == 'X (%d)' % len(ops), 'the space group is that of the atoms held')
        elif w == 'wyckoff':
            wy = list(c.get_wyckoffs())
            eq = geom.orbits(n, [o[2] for o in ops])
            ctx.check(len(wy) == n, 'one letter for each site')
            ctx.check(all(wy[i] == wy[j] for i in range(n) for j in range(i) if eq[i] == eq[j]),
                      'equivalent sites have one letter')
        elif w == 'prim':
            ctx.check(bool(c.is_primitive()) == (len(geom.pure_translations(ops)) == 1),
                      'primitive exactly when no translation carries the atoms held onto themselves')
        elif w == 'id':
            ctx.check(c.id == M(ctx.farr(lat), ctx.farr(Q), ctx.np.array(now)).id,
                      'the identity is that of the atoms held')
        elif w == 'spgcell':
            l, p, z = c.spg_cell
            ctx.check(len(z) == n and ctx.And(*[z[i] == now[i] for i in range(n)]), 'the cell handed to the symmetry library holds the atoms')
        elif w == 'shape':
            ctx.check(len(c.get_shaped_cell().numbers) == n, 'reshaping keeps the number of atoms')
    for rnd in range(cfg.get('rounds', 0) + 1):
        if rnd:
            new = pick('y%d_' % rnd)
            now = [new[k] for k in order]
            cell.numbers = ctx.np.array(now)
        for w in cfg['ask']:
            ask(cell, w)


def cartesian(ctx, cfg):
    """coordinates of a cell with free coordinates and basis entries"""
    lat = [list(r) for r in cfg['lat']]
    P = [list(p) for p in cfg['pos']]
    for a, b in cfg.get('lfree', []):
        lat[a][b] = ctx.real('l%d_%d' % (a, b), -2, 2)
    for i, a in cfg.get('free', []):
        P[i][a] = ctx.real('p%d_%d' % (i, a), -2, 2)
    num = [[5, 8, 0][ctx.choose('z%d' % i, 3)] for i in range(len(P))]
    el = ctx.mod('ababe.stru.element')
    sc = ctx.mod('ababe.stru.scaffold')
    cell = sc.GeneralCell(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    for z, sp in ((None, None), (5, el.Specie('B')), (8, el.Specie('O')), (0, el.GhostSpecie()), (30, el.Specie('Zn'))):
        got = [list(r) for r in (cell.get_cartesian() if sp is None else cell.get_cartesian(sp))]
        want = [[sum(P[i][k] * lat[k][b] for k in range(3)) for b in range(3)]
                for i in range(len(P)) if z is None or num[i] == z]
        ctx.check(len(got) == len(want), 'as many coordinates as atoms')
        left = list(want)
        for g in got:
            hit = [k for k, t in enumerate(left) if ctx.truth(ctx.closevec(g, t, 1e-6))]
            ctx.check(bool(hit), 'cartesian coordinates of the atoms')
            left.pop(hit[0])
    mc = sc.ModifiedCell(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    v = [ctx.real('v%d' % a, -2, 2) if a < cfg.get('nv', 3) else 0.5 for a in range(3)]
    c = list(mc.get_cartesian_from_frac(ctx.farr(v)))
    ctx.check(ctx.closevec(c, [sum(v[k] * lat[k][b] for k in range(3)) for b in range(3)], 1e-6),
              'from fractional to cartesian')
    f = list(mc.get_frac_from_cart(ctx.farr(c)))
    ctx.check(ctx.closevec(f, v, 1e-6), 'and back')


def jobs(prop, tier):
    J = []
    T = tier == 'thorough'
    if prop == 'C03':
        plain = ['sc1', 'fcc4', 'bcc2', 'cscl', 'zbp', 'zb8', 'nacl8', 'perov5', 'rutile6', 'hcp2', 'graphene2',
                 'ortho3', 'mono4', 'tricl4', 'p1_4', 'messy5', 'rhom3', 'sc8', 'sc6', 'sc9', 'bcc8', 'fcc8', 'hcp4',
                 'hcp8', 'graph8', 'tri9', 'zb16', 'zbp16', 'sc16', 'cscl16', 'perov10', 'rut12', 'p1_8',
                 'near3', 'nearfcc', 'neartet', 'nearsc4', 'hcpr2', 'off2', 'offfcc']
        for c in plain:
            J.append(('perms', {'cell': c}))
            J.append(('perms', {'cell': c, 'fn': 'cstru'}))
        for c in ('fcc4', 'hcp4', 'rutile6', 'mono4', 'zb8', 'nearfcc', 'rhom3'):
            J.append(('perms', {'cell': c, 'warm': 1}))
            J.append(('perms', {'cell': c, 'warm': 1, 'fn': 'cstru'}))
        for c, ne in [('fcc4', 1), ('hcp2', 3), ('rutile6', 2), ('mono4', 3), ('rhom3', 3), ('zb8', 1), ('sc6', 1),
                      ('sc8', 1), ('graph8', 1)]:
            J.append(('perms', {'cell': c, 'noise': 1e-4, 'ne': ne}))
            J.append(('perms', {'cell': c, 'noise': 1e-4, 'ne': ne, 'fn': 'cstru'}))
        for c, pn in [('hcp2', [[0, 0]]), ('rutile6', [[2, 0]]), ('mono4', [[0, 2], [1, 0]]), ('rhom3', [[1, 0]]),
                      ('sc4', [[1, 1]]), ('hcp4', [[0, 2]]), ('graph8', [[0, 0]])]:
            J.append(('perms', {'cell': c, 'pnoise': pn}))
            J.append(('perms', {'cell': c, 'pnoise': pn, 'fn': 'cstru'}))
        for c in ['hcp2', 'rutile6', 'fcc4', 'tricl4', 'zbp', 'rhom3', 'mono4', 'sc6']:
            for ax in ([0], [1], [2]):
                J.append(('perms', {'cell': c, 'axes': ax}))
        for c in ['hcp2', 'ortho3', 'mono4']:
            J.append(('perms', {'cell': c, 'axes': [0, 1, 2]}))
            J.append(('perms', {'cell': c, 'turn': 1}))
    if prop == 'C04':
        for n, free, wob, tr in [
                (2, [[0, 0]], [], [[0, 0]]), (2, [[0, 0], [1, 0]], [], [[0, 0], [1, 1]]),
                (2, [[0, 2], [1, 2]], [], [[0, 2]]), (2, [[0, 1], [1, 1]], [[1, 1]], [[1, 0]]),
                (3, [[0, 0], [1, 0]], [], [[0, 0], [2, 2]]), (3, [[0, 0], [1, 1]], [[2, 2]], [[1, 1]]),
                (3, [[0, 2], [1, 2]], [], [[1, 2]]), (2, [[0, 0], [0, 1], [1, 0], [1, 1]], [], [[0, 0], [0, 1]]),
                (2, [[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [1, 2]], [], [])]:
            J.append(('identity', {'n': n, 'free': free, 'wob': wob, 'trans': tr}))
        for a in (0, 1, 2):
            J.append(('identity', {'n': 2, 'free': [[1, a]], 'wob': [[0, a]], 'trans': [[0, a]]}))
            J.append(('identity', {'n': 3, 'free': [[1, a]], 'wob': [[0, a], [1, a]], 'trans': []}))
        # layers: equal first coordinates, order decided by the others
        J.append(('identity', {'n': 3, 'free': [[0, 1], [1, 1], [2, 1]], 'base': [[0, 0, 0], [0, 0, 500], [0, 500, 250]],
                               'wob': [], 'trans': [[1, 0]]}))
        J.append(('identity', {'n': 3, 'free': [[0, 2], [1, 2], [2, 2]], 'base': [[0, 0, 0], [0, 0, 500], [0, 0, 250]],
                               'wob': [[0, 2]], 'trans': [[0, 2], [1, 2]]}))
        J.append(('identity', {'n': 4, 'free': [[0, 0], [1, 0]], 'wob': [], 'trans': [[0, 0]]}))
        if T:
            J.append(('identity', {'n': 3, 'free': [[0, 0], [1, 0], [2, 0]], 'wob': [], 'trans': [[0, 0], [1, 0], [2, 0]]}))
            J.append(('identity', {'n': 4, 'free': [[0, 0], [1, 0], [2, 1], [3, 2]], 'wob': [], 'trans': [[0, 0], [2, 1]]}))
    if prop == 'C05':
        two = [[0.1, 0.2, 0.3], [0.6, 0.55, 0.7]]
        one = [[0.1, 0.2, 0.3]]
        hs = [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 1], [0, 0, 1]],
              [[1, 0, 1], [0, 1, 1], [0, 0, 2]], [[2, 0, 1], [0, 1, 0], [0, 0, 2]], [[1, 2, 0], [0, 3, 0], [0, 0, 1]],
              [[1, 1, 2], [0, 1, 2], [0, 0, 3]], [[2, 1, 1], [0, 2, 1], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
              [[3, 0, 0], [0, 1, 0], [0, 0, 2]], [[1, 3, 0], [0, 4, 3], [0, 0, 1]], [[1, 0, 4], [0, 1, 3], [0, 0, 5]],
              [[2, 1, 2], [0, 2, 1], [0, 0, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 7]]]
        lows = [[[2, 0, 0], [1, 2, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 0], [1, 1, 3]], [[3, 0, 0], [2, 1, 0], [1, 0, 2]]]
        big = [[[3, 0, 0], [0, 3, 0], [0, 0, 3]], [[4, 3, 1], [0, 2, 1], [0, 0, 2]], [[2, 1, 5], [0, 1, 4], [0, 0, 6]],
               [[1, 5, 3], [0, 6, 1], [0, 0, 4]], [[4, 0, 0], [0, 4, 0], [0, 0, 2]]]
        for m in ('supercell', 'hnf'):
            for H in hs + (big if T else big[:3]):
                J.append(('tiling', {'mode': m, 'H': H, 'pos': two, 'lat': [[0, 0], [1, 0], [2, 1]]}))
            for H in hs[:6] + (hs[6:] if T else []):
                for ax in (0, 1, 2):
                    J.append(('tiling', {'mode': m, 'H': H, 'pos': one, 'free': [[0, ax]]}))
            for H in hs[:3]:
                J.append(('tiling', {'mode': m, 'H': H, 'pos': two, 'free': [[0, 0], [1, 2]]}))
                J.append(('tiling', {'mode': m, 'H': H, 'pos': two, 'free': [[0, 1]], 'range': [-1, 2], 'lat': [[2, 2]]}))
        for H in lows:
            J.append(('tiling', {'mode': 'supercell', 'H': H, 'pos': two, 'lat': [[0, 0], [1, 0], [2, 1]]}))
        for H in ([[1, 0, 0], [0, 2, 1], [0, 0, 2]], [[1, 1, 0], [0, 2, 0], [0, 0, 1]], [[3, 0, 0], [0, 1, 0], [0, 0, 1]]):
            for mode in ('supercell', 'lattice'):
                J.append(('tiling', {'mode': mode, 'H': H, 'pos': two, 'warm': 1}))
    if prop == 'C06':
        for c, n in [('sc1', 4), ('hcp2', 3), ('mono4', 2), ('zbp', 3), ('p1_4', 2)]:
            J.append(('hnfs', {'cell': c, 'n': n, 'warm': 1}))
            J.append(('hnfs', {'cell': c, 'n': n, 'warm': 1, 'ld': 1}))
        J.append(('hnfs', {'cell': 'p1_4', 'n': 3, 'warm': 1, 'dups': 1}))
        for c, ns in [('sc1', [1, 2, 3, 4, 5, 6, 8]), ('hcp2', [2, 3, 4]), ('rutile6', [2, 4]), ('mono4', [2, 3, 4]),
                      ('tricl4', [2, 3]), ('zbp', [2, 3, 4, 6]), ('ortho3', [2, 3, 4]), ('rhom3', [2, 3]), ('p1_4', [3]), ('neartet', [2, 3, 4]), ('near3', [2]), ('hcpr2', [2, 3, 4]), ('off2', [2, 3])]:
            for n in ns:
                J.append(('hnfs', {'cell': c, 'n': n}))
        for c, ns in [('graphene2', [2, 3, 4, 5, 6, 7, 9]), ('tri1', [4, 8]), ('sc1', [4, 6]), ('ortho3', [4, 6]),
                      ('mono4', [2, 4, 5]), ('neartet', [2, 4]), ('hcpr2', [3]), ('off2', [4]), ('p1_4', [23, 25]), ('ortho3', [21]), ('mono4', [26])]:
            for n in ns:
                J.append(('hnfs', {'cell': c, 'n': n, 'ld': 1}))
        for n in ([2, 3, 4, 6] + ([8, 9, 10, 12] if T else [])):
            J.append(('hnfs', {'cell': 'p1_4', 'n': n, 'dups': 1, 'mix': 1}))
            J.append(('hnfs', {'cell': 'p1_4', 'n': n, 'dups': 1, 'mix': 1, 'ld': 1}))
        for c, n in [('sc1', 3), ('zbp', 2), ('mono4', 3)]:
            J.append(('hnfs', {'cell': c, 'n': n, 'mix': 1}))
        for c, d1, d2, off in [('sc1', (1, 1, 3), (1, 1, 3), 'bde'), ('sc1', (1, 2, 1), (1, 1, 2), 'bde'), ('zbp', (1, 1, 4), (1, 2, 2), 'bde'),
                          ('hcp2', (1, 3, 1), (1, 1, 3), 'bde'), ('mono4', (1, 1, 5), (1, 1, 5), 'de'), ('rutile6', (1, 2, 2), (1, 2, 2), 'bde'),
                          ('tricl4', (1, 4, 1), (2, 2, 1), 'b'), ('graphene2', (1, 7, 1), (1, 7, 1), 'b'),
                          ('p1_4', (1, 23, 1), (1, 23, 1), 'b'), ('p1_4', (1, 1, 31), (1, 1, 31), 'e'), ('tricl4', (1, 1, 120), (1, 2, 60), 'e'),
                          ('p1_4', (1, 1, 211), (1, 1, 211), 'd'), ('ortho3', (23, 1, 1), (1, 23, 1), ''), ('graphene2', (1, 21, 1), (1, 21, 1), 'b')]:
            J.append(('lateq', {'cell': c, 'd1': list(d1), 'd2': list(d2), 'off': off, 'conc': 0}))
            J.append(('lateq', {'cell': c, 'd1': list(d1), 'd2': list(d2), 'off': off, 'conc': 1}))
        if T:
            for c, n in [('sc1', 9), ('sc1', 10), ('hcp2', 6), ('zbp', 8), ('rutile6', 6), ('mono4', 6), ('ortho3', 6)]:
                J.append(('hnfs', {'cell': c, 'n': n}))
            for n in (10, 12, 13):
                J.append(('hnfs', {'cell': 'graphene2', 'n': n, 'ld': 1}))
    if prop == 'C27':
        rest = ['spgcell', 'id', 'perm', 'sym', 'spg', 'wyckoff', 'prim']
        def o(c, ask, **k):
            J.append(('inspect', dict(cell=c, ask=ask, **k)))
        for c in ('sc4', 'mono4', 'tricl4', 'zb4', 'tri4'):
            o(c, rest)
        for c, fr in (('sc4', [0, 1]), ('fcc4', [0, 3]), ('bcc2', [0, 1]), ('ortho3', [0, 1, 2]), ('hcp4', [1, 2]),
                      ('perov5', [0, 4]), ('rutile6', [0, 5]), ('mono4', [0, 2]), ('p1_4', [1, 3])):
            o(c, rest, sites=fr, rounds=1)
        for c, fr in (('near3', [0, 1, 2]), ('nearfcc', [1, 2]), ('neartet', [0, 2]), ('nearsc4', [2, 3])):
            o(c, rest, sites=fr, loose=1)
            o(c, ['perm', 'spg', 'prim'], sites=fr[:2], loose=1, rounds=1)
        for c, fr in (('sc1', [0]), ('hcp2', [0, 1]), ('ortho3', [0, 1, 2]), ('fcc4', [0, 1, 2, 3]), ('zb8', [0, 2, 5])):
            o(c, ['count', 'cart'], sites=fr, palette=[0, 16, 11, 39] if len(fr) < 4 else [0, 16, 11])
            o(c, ['count', 'cart'], sites=fr[:2], palette=[0, 8, 56], rounds=1)
        o('many12', ['count', 'cart'], sites=[0, 7], palette=[29, 0, 30], rounds=1)
        two = [[0.1, 0.2, 0.3], [0.6, -0.5, 0.7]]
        for l in ([[3.0, 0, 0], [0.5, 4.0, 0], [0.25, 1.5, 5.0]], [[0, 2.5, 2.5], [2.5, 0, 2.5], [2.5, 2.5, 0]],
                  [[0, 4.0, 0], [0, 0, 5.0], [6.0, 0, 0]]):
            J.append(('cartesian', {'lat': l, 'pos': two, 'free': [[0, 0], [1, 2]]}))
            J.append(('cartesian', {'lat': l, 'pos': two, 'free': [[0, 1]]}))
            J.append(('cartesian', {'lat': l, 'pos': two[:1], 'free': [[0, 0], [0, 1], [0, 2]]}))
        J.append(('cartesian', {'lat': [[3.0, 0, 0], [0.5, 4.0, 0], [0.25, 1.5, 5.0]], 'pos': two, 'lfree': [[0, 1]], 'nv': 1}))
        if T:
            for c, fr in (('sc6', [0, 1, 2]), ('sc8', [0, 1, 7]), ('nacl8', [0, 4, 7]), ('hcp4', [0, 1, 2, 3]), ('rhom3', [0, 1, 2])):
                o(c, rest, sites=fr, rounds=1)
    return J
