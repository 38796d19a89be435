"""Grid structures: arrays and copies (C13), neighbours (C14), enumeration of
grid structures and the disjoint-speckle test (C21)."""
from __future__ import division
from itertools import combinations, product

from engine import geom

PAL = [0, 5, 29]
NAME = {0: 'G', 5: 'B', 29: 'Cu', 22: 'Ti', 8: 'O'}
LATS = {
    'bcc': [[-0.5, -0.5, -0.5], [-0.5, 0.5, 0.5], [0.5, -0.5, 0.5]],
    'fcc': [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
    'scc': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'triflat': [[0, 0, 20], [1, 0, 0], [0.5, 3 ** 0.5 / 2, 0]],
    'ort': [[1.0, 0, 0], [0, 1.5, 0], [0, 0, 2.0]],
    'tric': [[1.0, 0, 0], [0.25, 1.5, 0], [0.125, 0.5, 2.0]],
    # neighbours along one axis or within one layer only
    'cola': [[1.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]],
    'colb': [[3.0, 0, 0], [0.5, 1.0, 0.125], [0, 0, 3.0]],
    'colc': [[3.0, 0, 0], [0, 3.0, 0], [0, 0, 1.0]],
    'layc': [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 3.0]],
    'laya': [[3.0, 0, 0], [0, 1.0, 0], [0, 0.5, 0.75 ** 0.5]],
    'wide': [[2.5, 0, 0], [0, 2.5, 0], [0.5, 0.5, 0.5]],
}


def _sp(ctx, z):
    return ctx.mod('ababe.stru.element').Specie.from_num(z)


def _entries(ctx, size, prefix='a'):
    n = 1
    for s in size:
        n *= s
    return [PAL[ctx.choose('%s%d' % (prefix, i), len(PAL))] for i in range(n)]


def _nest(flat, size):
    if len(size) == 1:
        return list(flat)
    k = len(flat) // size[0]
    return [_nest(flat[i * k:(i + 1) * k], size[1:]) for i in range(size[0])]


def _flat(x):
    return [int(v) for v in x.flatten().tolist()]


def roundtrip(ctx, cfg):
    size = cfg['size']
    if len(size) == 3:
        sc = ctx.mod('ababe.stru.scaffold')
        G, S, toarr = sc.SitesGrid, sc.CStru, 'to_array'
        m = LATS['tric']
    else:
        sc = ctx.mod('ababe.stru.scaffold2d')
        G, S, toarr = sc.SitesGrid2d, sc.CStru2d, 'get_array'
        m = [[2, 0], [1, 1.75]]
    if cfg.get('full'):
        z = ctx.int('Z', 0, 88)
        ctx.assume(ctx.Or(z <= 56, z >= 72))
        flat = [z]
    else:
        flat = _entries(ctx, size)
    g = G.from_array(ctx.np.array(_nest(flat, size)))
    dims = (g.depth, g.width, g.length) if len(size) == 3 else (g.width, g.length)
    ctx.check(tuple(dims) == tuple(size), 'the grid has the shape of the array')
    a = getattr(g, toarr)()
    ctx.check(tuple(a.shape) == tuple(size), 'the array has the shape of the grid')
    got = a.flatten().tolist()
    ctx.check(ctx.And(*[x == y for x, y in zip(got, flat)]), 'array to grid and back is the identity')
    if len(size) == 3:
        for i, ix in enumerate(product(*[range(s) for s in size])):
            ctx.check(g[ix].Z == flat[i], 'each site holds the element of the array')
        s = S.from_array(m, ctx.np.array(_nest(flat, size)))
    else:
        s = S(m, g)
    b = s.get_array()
    ctx.check(ctx.And(*[x == y for x, y in zip(b.flatten().tolist(), flat)]),
              'a structure keeps the array it was made from')
    ctx.check(tuple(s.get_midpoint()) == tuple(x // 2 for x in size), 'the middle of the grid')
    if not cfg.get('full'):
        ctx.observe('arr', [int(x) for x in got])


def copies(ctx, cfg):
    """copies share nothing; equality is equality of all sites"""
    sc = ctx.mod('ababe.stru.scaffold')
    size = cfg['size']
    flat = _entries(ctx, size)
    g = sc.SitesGrid.from_array(ctx.np.array(_nest(flat, size)))
    h = g.deepCopy()
    ctx.check(bool(g == h) and h is not g, 'a copy equals the original')
    pts = list(product(*[range(s) for s in size]))
    k = ctx.choose('k', len(pts))
    z = PAL[ctx.choose('z', len(PAL))]
    a, b = (g, h) if cfg['edit'] == 'orig' else (h, g)
    early = [sc.CStru(LATS['scc'], x) for x in (a, b)]
    if cfg.get('warm'):
        for x in early:
            x.get_array(), x.get_cell(), x.get_gcell()
        # both were looked at before the change
        g.to_array(), h.to_array()
        sc.CStru(LATS['scc'], g).get_array()
        g == h
    a[pts[k]] = _sp(ctx, z)
    want = list(flat)
    want[k] = z
    ctx.check(_flat(a.to_array()) == want, 'assignment changes exactly the given site')
    ctx.check(_flat(b.to_array()) == flat, 'the other grid is untouched')
    ctx.check(bool(a == b) == (want == flat), 'grids are equal exactly when all sites are')
    ctx.check(not bool(a == None), 'a grid is not None')           # noqa
    ctx.check([[[y.Z for y in r] for r in l] for l in a.sites] == _nest(want, size), 'the sites of a grid are its elements')
    for x, w in zip(early, (want, flat)):
        ctx.check(_flat(x.get_array()) == w, 'a structure shows the elements its grid now holds')
        ctx.check(sorted(int(v) for v in x.get_cell()[2].tolist()) == sorted(w),
                  'a structure shows the elements its grid now holds')
        ctx.check(sorted(int(v) for v in x.get_gcell().numbers.tolist()) == sorted(w),
                  'a structure shows the elements its grid now holds')
    m = LATS['scc']
    s1, s2 = sc.CStru(m, a), sc.CStru(m, b)
    ctx.check(bool(s1 == s2) == (want == flat), 'structures are equal exactly when basis and sites are')
    s3 = sc.CStru(LATS['fcc'], a)
    ctx.check(not bool(s1 == s3), 'another basis is another structure')
    ctx.observe('arr', _flat(a.to_array()))


def equality(ctx, cfg):
    """grids are equal exactly when all sites are"""
    size = cfg['size']
    n = 1
    for x in size:
        n *= x
    A = [PAL[ctx.choose('a%d' % i, 2)] for i in range(n)]
    B = [PAL[ctx.choose('b%d' % i, 2)] for i in range(n)]
    if len(size) == 3:
        G = ctx.mod('ababe.stru.scaffold').SitesGrid
    else:
        G = ctx.mod('ababe.stru.scaffold2d').SitesGrid2d
    g, h = [G.from_array(ctx.np.array(_nest(x, size))) for x in (A, B)]
    ctx.check(bool(g == h) == (A == B), 'grids are equal exactly when all sites are')
    ctx.check(bool(g != h) == (A != B), 'grids are unequal exactly when some site differs')
    ctx.check(not bool(g == None), 'a grid is not None')           # noqa
    if len(size) == 3:
        S = ctx.mod('ababe.stru.scaffold').CStru
        ctx.check(bool(S(LATS['fcc'], g) == S([list(r) for r in LATS['fcc']], h)) == (A == B),
                  'structures are equal exactly when basis and sites are')
    if len(size) == 3 and size[0] != size[2]:
        o = tuple(size[::-1])
        ctx.check(not bool(g == G.from_array(ctx.np.array(_nest(A, o)))), 'grids of different shape are unequal')
    ctx.observe('eq', A == B)


def sea(ctx, cfg):
    size = cfg['size']
    z = PAL[ctx.choose('z', len(PAL))]
    z2 = PAL[ctx.choose('z2', len(PAL))]
    pts = list(product(*[range(s) for s in size]))
    if len(size) == 3:
        G = ctx.mod('ababe.stru.scaffold').SitesGrid
        g = G.sea(size[0], size[1], size[2], _sp(ctx, z))
        ctx.check(_flat(g.to_array()) == [z] * len(pts), 'a sea holds one element everywhere')
        k = ctx.choose('k', len(pts))
        g[pts[k]] = _sp(ctx, z2)
        want = [z] * len(pts)
        want[k] = z2
        ctx.check(_flat(g.to_array()) == want, 'assignment changes exactly the given site')
        d = G.sea(size[0], size[1], size[2])
        ctx.check(_flat(d.to_array()) == [0] * len(pts), 'the default sea is empty')
    else:
        G = ctx.mod('ababe.stru.scaffold2d').SitesGrid2d
        g = G.sea(size[0], size[1], _sp(ctx, z))
        a = g.get_array()
        ctx.check(tuple(a.shape) == tuple(size) and _flat(a) == [z] * len(pts), 'a sea holds one element everywhere')
        d = G.sea(size[0], size[1])
        ctx.check(_flat(d.get_array()) == [0] * len(pts), 'the default sea is empty')
        ctx.check(bool(g == d) == (z == 0), 'grids are equal exactly when all sites are')
    ctx.observe('z', z)


def speckles(ctx, cfg):
    """all arrangements, each exactly once"""
    size = tuple(cfg['size'])
    sc = ctx.mod('ababe.stru.scaffold')
    zs, zp = PAL[ctx.choose('zs', 3)], PAL[ctx.choose('zp', 3)]
    ctx.assume(zs != zp)
    n = size[0] * size[1] * size[2]
    noa = cfg['noa']
    if cfg.get('cstru'):
        it = sc.CStru.gen_speckle(LATS['fcc'], _sp(ctx, zs), size, _sp(ctx, zp), noa)
    else:
        it = sc.SitesGrid.gen_speckle(_sp(ctx, zs), size, _sp(ctx, zp), noa)
    got, kept = [], []
    for g in it:
        a = g.get_array() if cfg.get('cstru') else g.to_array()
        ctx.check(tuple(a.shape) == size, 'every structure has the requested size')
        got.append(tuple(_flat(a)))
        kept.append(g)
        if len(kept) > 1 and not cfg.get('cstru'):
            # what is done to a structure already yielded is not seen in later ones
            kept[-2][0, 0, 0] = _sp(ctx, 22)
    want = set()
    for c in combinations(range(n), noa):
        want.add(tuple(zp if i in c else zs for i in range(n)))
    ctx.check(len(got) == len(set(got)), 'no arrangement twice')
    ctx.check(set(got) == want, 'exactly the arrangements with the requested number of speckles')
    for i, g in enumerate(kept):
        w = list(got[i])
        if i + 1 < len(kept) and not cfg.get('cstru'):
            w[0] = 22
        ctx.check(_flat(g.get_array() if cfg.get('cstru') else g.to_array()) == w, 'the structures do not share sites')
    ctx.observe('n', len(got))


def random_fill(ctx, cfg):
    size = tuple(cfg['size'])
    G = ctx.mod('ababe.stru.scaffold').SitesGrid
    zs, zp = cfg['z']
    with ctx.random():
        g = G.random_fill(_sp(ctx, zs), size, _sp(ctx, zp))
    a = g.to_array()
    ctx.check(tuple(a.shape) == size, 'the grid has the requested size')
    ctx.check(all(x in (zs, zp) for x in _flat(a)), 'every site holds one of the two elements')


def geometry(ctx, cfg):
    """site (i, j, k) sits at i*a + j*b + k*c of the repeated cell"""
    size = tuple(cfg['size'])
    sc = ctx.mod('ababe.stru.scaffold')
    if cfg['lat'] == 'sym':
        m = [[ctx.real('m%d%d' % (i, j), -4, 4) for j in range(3)] for i in range(3)]
    else:
        m = LATS[cfg['lat']]
    flat = _entries(ctx, size) if cfg.get('vary') else [PAL[(7 * i + i // 3) % 3] for i in range(size[0] * size[1] * size[2])]
    s = sc.CStru.from_array(m, ctx.np.array(_nest(flat, size)))
    lat, pos, num = s.get_cell()
    lat, pos, num = lat.tolist(), pos.tolist(), [int(x) for x in num.tolist()]
    ctx.check(ctx.And(*[ctx.closevec(lat[a], [size[a] * x for x in m[a]], 1e-9) for a in range(3)]),
              'the cell is spanned by the repeated basis vectors')
    pts = list(product(*[range(x) for x in size]))
    ctx.check(len(pos) == len(num) == len(pts), 'one site per grid point')
    left = list(range(len(pts)))
    for i, ix in enumerate(pts):
        f = [ix[a] / float(size[a]) for a in range(3)]
        hit = [k for k in left if all(abs(float(pos[k][a]) - f[a]) < 1e-9 for a in range(3))]
        ctx.check(len(hit) == 1, 'each grid point is a site')
        left.remove(hit[0])
        ctx.check(num[hit[0]] == flat[i], 'each grid point keeps its element')
        c = [sum(pos[hit[0]][a] * lat[a][b] for a in range(3)) for b in range(3)]
        w = [sum(ix[a] * m[a][b] for a in range(3)) for b in range(3)]
        ctx.check(ctx.closevec(c, w, 1e-6), 'grid point (i,j,k) sits at i*a+j*b+k*c')
    for nm, w in (('get_lattice', lat), ('get_positions', pos), ('get_atoms', num)):
        r = getattr(s, nm)().tolist()
        ctx.check(len(r) == len(w), '%s agrees with the cell' % nm)
        if nm == 'get_atoms':
            ctx.check([int(x) for x in r] == w, 'get_atoms agrees with the cell')
        else:
            ctx.check(ctx.And(*[ctx.closevec(x, y, 1e-9) for x, y in zip(r, w)]), '%s agrees with the cell' % nm)
    im = sc.CStru.get_id_matrix(s.get_cell(), *size)
    ctx.check(tuple(im.shape) == size and _flat(im) == flat, 'the cell leads back to the array')
    if cfg['lat'] != 'sym':
        g = s.get_gcell()
        gp, gn = g.positions.tolist(), [int(x) for x in g.numbers.tolist()]
        ctx.check(geom_close(g.lattice.tolist(), lat), 'the general cell has the same lattice')
        left = list(range(len(gp)))
        for p, z in zip(pos, num):
            hit = [k for k in left if gn[k] == z and geom.same_site(gp[k], p)]
            ctx.check(len(hit) == 1, 'the general cell has the same sites')
            left.remove(hit[0])
        ctx.check(not left, 'the general cell has the same sites')
    ctx.observe('num', num)


def geom_close(a, b):
    return all(abs(x - y) < 1e-9 for r, s in zip(a, b) for x, y in zip(r, s))


# ------------------------------------------------------------------- C14
def neighbours(ctx, cfg):
    size = tuple(cfg['size'])
    dim = len(size)
    m = [list(map(float, r)) for r in cfg['m']]
    if cfg.get('free'):
        a, b = cfg['free']
        m[a][b] = ctx.dyadic('m', -4, 4, 8) if cfg.get('den') else ctx.real('m', -4, 4)
    pts = list(product(*[range(s) for s in size]))
    k = ctx.choose('k', len(pts)) if cfg.get('at') is None else cfg['at']
    p = pts[k]
    delta = ctx.dyadic('delta', 0, 8, 8) if cfg.get('den') else ctx.real('delta', 0, 8)
    if dim == 3:
        sc = ctx.mod('ababe.stru.scaffold')
        s = sc.CStru(m, sc.SitesGrid.sea(*size))
    else:
        sc = ctx.mod('ababe.stru.scaffold2d')
        s = sc.CStru2d(m, sc.SitesGrid2d.sea(*size))
    if cfg.get('warm'):
        # asked before, for another point or distance, here or elsewhere
        w = ctx.choose('warm', 4)
        p2 = pts[(k + 1) % len(pts)]
        if w == 0:
            list(s.get_neighbors(p2, delta))
        elif w == 1:
            list(s.get_neighbors(p, 1.75))
        elif w == 2:
            m2 = [[2 * x for x in r] for r in cfg['m']]
            o = sc.CStru(m2, sc.SitesGrid.sea(*size)) if dim == 3 else sc.CStru2d(m2, sc.SitesGrid2d.sea(*size))
            list(o.get_neighbors(p, 2.25))
        else:
            it = iter(s.get_neighbors(p, 3.25))
            next(it, None)
    want = {}
    for q in pts:
        if q == p:
            continue
        v = [sum((q[a] - p[a]) * m[a][b] for a in range(dim)) for b in range(dim)]
        d2 = sum(x * x for x in v)
        if not cfg.get('den'):
            ctx.assume(ctx.Or(d2 - delta * delta > 1e-4, delta * delta - d2 > 1e-4))
        want[q] = d2 <= delta * delta
    got = set(tuple(int(x) for x in q) for q in s.get_neighbors(p, delta))
    ctx.check(got <= set(want), 'neighbours are other grid points')
    for q in want:
        ctx.check(ctx.Iff(q in got, want[q]),
                  'the neighbours are exactly the other grid points within the distance')
    ctx.observe('n', sorted(list(q) for q in got))


# ------------------------------------------------------------------- C21
_gc = {}


def _grid_group(lat, size):
    k = (lat, size)
    if k not in _gc:
        m = LATS[lat]
        L = [[size[a] * x for x in m[a]] for a in range(3)]
        pts = list(product(*[range(s) for s in size]))
        P = [[ix[a] / float(size[a]) for a in range(3)] for ix in pts]
        ops = geom.symmetry_ops(L, P, lambda i, j: True)
        _gc[k] = sorted(set(tuple(o[2]) for o in ops))
    return _gc[k]


def _canon(g, t):
    return min(tuple(t[p[i]] for i in range(len(t))) for p in g)


def nodup(ctx, cfg):
    """one structure per class of arrangements of the periodic grid"""
    size = tuple(cfg['size'])
    so = ctx.mod('ababe.stru.sogen')
    g = _grid_group(cfg['lat'], size)
    n = size[0] * size[1] * size[2]
    if cfg.get('full'):
        zp = ctx.int('zp', 0, 88)
        ctx.assume(ctx.And(ctx.Or(zp <= 56, zp >= 72), zp != 29))
        zp = int(zp)
        zs = 29
    else:
        zs, zp = PAL[ctx.choose('zs', 3)], PAL[ctx.choose('zp', 3)]
        ctx.assume(zs != zp)
    basis = so.lat_dict(cfg['lat']) if cfg['lat'] in ('bcc', 'fcc', 'scc', 'triflat') else LATS[cfg['lat']]
    ctx.check(geom_close([list(map(float, r)) for r in basis], LATS[cfg['lat']]), 'the named lattice')
    if cfg.get('noise'):
        _noise(ctx, cfg['noise'])
    other = None
    if cfg.get('warm'):
        w = ctx.choose('warm', 4)
        if w == 0:
            list(so.gen_nodup_cstru(basis, _sp(ctx, zs), size, _sp(ctx, zp), cfg['num']))
        elif w == 1:
            list(so.gen_nodup_cstru(LATS['tric'], _sp(ctx, zs), size, _sp(ctx, zp), cfg['num']))
        elif w == 2:
            list(so.gen_nodup_cstru(basis, _sp(ctx, zp), size[::-1], _sp(ctx, zs), cfg['num']))
        else:
            other = iter(so.gen_nodup_cstru(basis, _sp(ctx, zs), size, _sp(ctx, zp), cfg['num']))
            next(other, None)
    out = []
    for s in so.gen_nodup_cstru(basis, _sp(ctx, zs), size, _sp(ctx, zp), cfg['num']):
        out.append(s)
        if other is not None:
            next(other, None)
    ctx.observe('n', len(out))
    seen = set()
    for s in out:
        a = s.get_array()
        ctx.check(tuple(a.shape) == size, 'every structure has the requested size')
        f = tuple(_flat(a))
        ctx.check(sorted(f) == sorted([zp] * cfg['num'] + [zs] * (n - cfg['num'])),
                  'every structure has the requested number of speckles')
        c = _canon(g, f)
        ctx.check(c not in seen, 'no two structures are equivalent')
        seen.add(c)
    want = set(_canon(g, tuple(zp if i in c else zs for i in range(n)))
               for c in combinations(range(n), cfg['num']))
    ctx.check(seen == want, 'every arrangement is equivalent to a generated one')


# ------------------------------------------------------------------- C26
_go = {}


def _grid_ops(lat, size):
    """[(rotation, translation, permutation)] of the empty grid"""
    k = (lat, size)
    if k not in _go:
        m = LATS[lat]
        L = [[size[a] * x for x in m[a]] for a in range(3)]
        P = [[ix[a] / float(size[a]) for a in range(3)] for ix in product(*[range(s) for s in size])]
        _go[k] = geom.symmetry_ops(L, P, lambda i, j: True)
    return _go[k]


def stru_equal(ctx, cfg):
    """equal up to symmetry: some operation given carries one structure onto the other"""
    size = tuple(cfg['size'])
    n = size[0] * size[1] * size[2]
    so, sc = ctx.mod('ababe.stru.sogen'), ctx.mod('ababe.stru.scaffold')
    which = cfg.get('ops', 'all')
    if which == 'id':
        ops = [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0], list(range(n)))]
    elif which == 'trans':
        # translations along the long axis, with and without inversion
        ax = size.index(max(size))
        pts = list(product(*[range(x) for x in size]))
        ops = []
        for k in cfg['by']:
            for f in (1, -1):
                img = [tuple((f * q[x] + (k if x == ax else 0)) % size[x] for x in range(3)) for q in pts]
                R = [[f if x == y else 0 for y in range(3)] for x in range(3)]
                ops.append((R, [k / float(size[ax]) if x == ax else 0 for x in range(3)], [pts.index(q) for q in img]))
    else:
        ops = _grid_ops(cfg['lat'], size)
    if which == 'pick':
        # any one operation, behind the identity or alone
        k = ctx.choose('op', len(ops))
        ops = [ops[0], ops[k]] if ctx.choose('with', 2) else [ops[k]]
    elif which == 'late':
        # one operation at either end of a long list
        o = ops[ctx.choose('op', len(ops))]
        ops = [ops[0]] * 400 + [o] if ctx.choose('end', 2) else [o] + [ops[0]] * 400
    elif which == 'none':
        ops = []
    if cfg.get('pats'):
        A = [PAL[int(c)] for c in cfg['pats'][ctx.choose('A', len(cfg['pats']))]]
    elif cfg.get('A') == 'ends':
        A = [5, 29] + [5] * (n - 3) + [29]
    else:
        A = [PAL[ctx.choose('A%d' % i, 3)] for i in range(n)] if not cfg.get('A') else cfg['A'] * (n // len(cfg['A']))
    B, nb = list(A), []
    for i in cfg.get('free', range(n)):
        if cfg.get('two'):
            B[i] = PAL[ctx.choose('B%d' % i, 2) + 1]
        else:
            B[i] = ctx.int('B%d' % i, 0, 88)
            nb.append(B[i])
    mk = lambda F: sc.CStru(LATS[cfg['lat']], sc.SitesGrid(_nest([ctx.specie(z, 's%d' % z if isinstance(z, int) else 's') for z in F], size)))
    a, b = mk(A), mk(B)
    shift = [0, 0, 0]
    if cfg.get('shift'):
        # the translation part is given up to lattice vectors
        shift = [ctx.int('shift%d' % x, -2, 2) for x in range(3)]
    nz = [0, 0, 0]
    if cfg.get('noise'):
        nz = [ctx.real('e%d' % x, -cfg['noise'], cfg['noise']) for x in range(3)]
    arg = [(ctx.iarr([list(r) for r in R]), ctx.farr([t[x] + shift[x] + nz[x] for x in range(3)])) for R, t, p in ops]
    if cfg.get('swap'):
        a, b, A, B = b, a, B, A
    if cfg.get('warm'):
        w = ctx.choose('warm', 3)
        if w == 0:
            so.is_stru_equal(b, a, arg)
        elif w == 1:
            so.is_stru_equal(a, a, arg[:1])
        else:
            so.is_stru_equal(a, mk([A[-1]] + A[:-1]), arg)
    got = bool(so.is_stru_equal(a, b, arg))
    want = ctx.Or(*([False, False] + [ctx.And(*([True, True] + [A[p[i]] == B[i] for i in range(n)])) for R, t, p in ops]))
    ctx.check(ctx.Iff(got, want), 'equal exactly when one of the operations carries one structure onto the other')
    ctx.check(ctx.And(*[x == y for x, y in zip(a.get_array().reshape(-1).tolist() + b.get_array().reshape(-1).tolist(), A + B)]), 'the structures stay as they are')
    ctx.observe('equal', got)


def _noise(ctx, amp):
    from fractions import Fraction
    cache = {}

    def h(k, t):
        if k not in cache:
            cache[k] = [ctx.real('noise%d_%d' % (k, a), -amp, amp) if k == 1 else 0.0 for a in range(3)]
        return [t[a] + cache[k][a] for a in range(3)]
    ctx.hooks['noise'] = h


def disjunct(ctx, cfg):
    """no two speckles, periodic images included, within 1.01"""
    size = tuple(cfg['size'])
    m = LATS[cfg['lat']]
    if cfg.get('scale'):
        f = ctx.real('scale', *cfg['scale'])
        m = [[f * x for x in r] for r in m]
    sc = ctx.mod('ababe.stru.scaffold')
    so = ctx.mod('ababe.stru.sogen')
    pts = list(product(*[range(s) for s in size]))
    zt = ctx.int('Zt', 0, 88)
    Z = [ctx.int('Z%d' % i, 0, 88) for i in range(len(pts))]
    sp = [ctx.specie(z, 's%d' % i) for i, z in enumerate(Z)]
    s = sc.CStru(m, sc.SitesGrid(_nest(sp, size)))
    if cfg.get('scale'):
        # no lattice distance on the threshold
        for d2 in sorted(set(round(sum(sum(v[a] * LATS[cfg['lat']][a][b] for a in range(3)) ** 2 for b in range(3)), 9)
                             for v in product(range(-3, 4), repeat=3))):
            if 0 < d2 < 2.5:
                ctx.assume(ctx.Or(f * f * d2 - 1.0201 > 1e-4, 1.0201 - f * f * d2 > 1e-4))
    if cfg.get('warm'):
        w = ctx.choose('warm', 3)
        if w == 0:
            so.is_speckle_disjunct(sc.CStru(m, sc.SitesGrid(_nest(list(reversed(sp)), size))), ctx.specie(zt, 't'))
        elif w == 1:
            so.is_speckle_disjunct(sc.CStru([[9 * x for x in r] for r in m], sc.SitesGrid(_nest(sp, size))), ctx.specie(zt, 't'))
        else:
            so.is_speckle_disjunct(s, ctx.specie(Z[0], 't'))
    got = bool(so.is_speckle_disjunct(s, ctx.specie(zt, 't')))
    close = []
    for i, p in enumerate(pts):
        for j in range(i + 1):
            q = pts[j]
            for t in product((-2, -1, 0, 1, 2), repeat=3):
                if i == j and t <= (0, 0, 0):
                    continue
                v = [p[a] - q[a] + t[a] * size[a] for a in range(3)]
                w = [sum(v[a] * m[a][b] for a in range(3)) for b in range(3)]
                d2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
                if ctx.truth(d2 <= 1.01 ** 2):
                    close.append((i, j))
                    break
    bad = ctx.Or(*[ctx.And(Z[i] == zt, Z[j] == zt) for i, j in close])
    ctx.observe('ok', got)
    ctx.check(ctx.Iff(got, ctx.Not(bad)),
              'accepted exactly when no two speckles are within 1.01 of each other')


def jobs(prop, tier):
    T = tier == 'thorough'
    J = []
    if prop == 'C13':
        sizes = [(1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 1, 3), (3, 1, 1), (1, 3, 1)]
        big = [(2, 2, 2), (1, 2, 3)] if T else []
        for s in sizes + [(1, 2, 3)] + big:
            J.append(('roundtrip', {'size': s}))
        for s in [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3)] + ([(3, 2)] if T else []):
            J.append(('roundtrip', {'size': s}))
        J.append(('roundtrip', {'size': (1, 1, 1), 'full': 1}))
        J.append(('roundtrip', {'size': (1, 1), 'full': 1}))
        for s in sizes:
            for e in ('orig', 'copy'):
                J.append(('copies', {'size': s, 'edit': e}))
                J.append(('copies', {'size': s, 'edit': e, 'warm': 1}))
        for s in [(1, 1, 1), (1, 2, 2), (2, 1, 2), (1, 1, 3), (1, 1), (2, 2), (1, 3), (3, 1)]:
            J.append(('equality', {'size': s}))
        for s in [(2, 2, 2), (1, 3, 2), (3, 1, 1), (2, 3), (1, 1), (3, 2)]:
            J.append(('sea', {'size': s}))
        for s in [(1, 2, 2), (2, 1, 3), (3, 2, 1), (2, 2, 2)]:
            n = s[0] * s[1] * s[2]
            for noa in range(0, n + 1):
                J.append(('speckles', {'size': s, 'noa': noa}))
            J.append(('speckles', {'size': s, 'noa': n // 2, 'cstru': 1}))
        for s in [(1, 2, 2), (2, 1, 1), (1, 1, 3)] + ([(2, 2, 2)] if T else []):
            for z in ((0, 5), (29, 5), (5, 29)):
                J.append(('random_fill', {'size': s, 'z': z}))
        for s in [(1, 1, 1), (2, 3, 1), (1, 2, 3), (3, 1, 2), (2, 2, 2), (3, 3, 2)]:
            for l in ('sym', 'tric', 'fcc', 'triflat'):
                J.append(('geometry', {'size': s, 'lat': l}))
        J.append(('geometry', {'size': (1, 2, 2), 'lat': 'tric', 'vary': 1}))
    if prop == 'C14':
        m2 = [[2, 0], [1, 1.732058]]
        o2 = [[1, 0], [0, 1.5]]
        for s in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (2, 4), (4, 2), (1, 5)]:
            J.append(('neighbours', {'size': s, 'm': m2}))
            J.append(('neighbours', {'size': s, 'm': o2, 'den': 8}))
        for s in [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 2, 2), (1, 2, 3), (3, 2, 1), (2, 3, 1), (1, 3, 3), (3, 1, 3)]:
            for l in ('fcc', 'tric'):
                J.append(('neighbours', {'size': s, 'm': LATS[l]}))
            J.append(('neighbours', {'size': s, 'm': LATS['ort'], 'den': 8}))
        J.append(('neighbours', {'size': (2, 2), 'm': m2, 'free': [0, 1], 'at': 0}))
        J.append(('neighbours', {'size': (2, 3), 'm': m2, 'free': [1, 0], 'at': 2}))
        J.append(('neighbours', {'size': (2, 1, 2), 'm': LATS['tric'], 'free': [0, 2], 'at': 1}))
        J.append(('neighbours', {'size': (1, 2, 2), 'm': LATS['ort'], 'free': [1, 1], 'at': 0, 'den': 8}))
        for s in [(1, 1, 4), (1, 4, 1), (4, 1, 1), (1, 1, 5), (6, 1, 1), (1, 5, 1), (1, 2, 4), (5, 2, 1)]:
            J.append(('neighbours', {'size': s, 'm': LATS['tric']}))
            J.append(('neighbours', {'size': s, 'm': LATS['ort'], 'den': 8}))
        for s in [(6, 1), (1, 6), (5, 2), (3, 4)]:
            J.append(('neighbours', {'size': s, 'm': m2}))
        for s in [(2, 2), (1, 3), (3, 1)]:
            J.append(('neighbours', {'size': s, 'm': m2, 'warm': 1}))
        for s in [(2, 2, 1), (1, 2, 2), (1, 1, 3), (3, 1, 1)]:
            J.append(('neighbours', {'size': s, 'm': LATS['tric'], 'warm': 1}))
        if T:
            for s in [(3, 3, 3), (2, 3, 4), (4, 1, 4)]:
                J.append(('neighbours', {'size': s, 'm': LATS['fcc']}))
                J.append(('neighbours', {'size': s, 'm': LATS['tric']}))
            J.append(('neighbours', {'size': (3, 3), 'm': m2, 'free': [1, 0], 'at': 4}))
            J.append(('neighbours', {'size': (2, 2, 2), 'm': LATS['tric'], 'free': [1, 0], 'at': 3}))
    if prop == 'C26':
        J.append(('stru_equal', {'lat': 'scc', 'size': (1, 1, 2)}))
        J.append(('stru_equal', {'lat': 'tric', 'size': (11, 10, 10), 'A': [5, 29, 5, 5], 'ops': 'id', 'two': 1, 'free': [555]}))
        for s, f in (((1, 1, 12), [3, 4]), ((24, 1, 1), [11]), ((1, 110, 1), [2, 100]), ((1, 2, 120), [7, 238]), ((260, 1, 1), [129, 130])):
            n = s[0] * s[1] * s[2]
            for by in ([1], [n // max(1, s[1] if s[1] == 2 else 1) - 1], [0, 3], [n // 2 if s[1] != 2 else 60]):
                J.append(('stru_equal', {'lat': 'tric', 'size': s, 'A': 'ends', 'ops': 'trans', 'by': by, 'two': 1, 'free': f + [0, 1, n - 1]}))
        J.append(('stru_equal', {'lat': 'tric', 'size': (5, 4, 4), 'A': [5, 29, 5, 5], 'ops': 'id', 'free': [55]}))
        for l in ('bcc', 'fcc', 'scc', 'triflat', 'ort', 'tric'):
            for s in ((1, 1, 3), (3, 1, 1), (1, 2, 2)):
                J.append(('stru_equal', {'lat': l, 'size': s, 'two': 1, 'pats': (['112', '122', '101'] if max(s) == 3 else ['1112', '1122', '1212', '1120'])}))
                J.append(('stru_equal', {'lat': l, 'size': s, 'free': [0, 1], 'pats': (['112', '122', '102'] if max(s) == 3 else ['1112', '1122', '1212', '1220'])}))
                J.append(('stru_equal', {'lat': l, 'size': s, 'ops': 'pick', 'two': 1, 'A': [5, 29, 0] if max(s) == 3 else [5, 29]}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 1, 2), 'ops': 'id'}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 1, 3), 'ops': 'late', 'two': 1, 'A': [5, 29, 5], 'free': [0, 1]}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 1, 3), 'two': 1, 'A': [5, 29, 5], 'shift': 1, 'free': [0, 2]}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 2, 2), 'two': 1, 'A': [5, 29], 'noise': 1e-11}))
            J.append(('stru_equal', {'lat': l, 'size': (2, 1, 2), 'A': [5, 29], 'swap': 1, 'free': [1]}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 1, 3), 'A': [5, 29, 0], 'warm': 1, 'free': [1]}))
            J.append(('stru_equal', {'lat': l, 'size': (2, 2, 2), 'A': [5, 29, 5, 5], 'two': 1}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 3, 3), 'A': [5, 29, 5, 5, 5, 29, 29, 5, 5], 'two': 1, 'free': [0, 1, 2, 3, 4]}))
            J.append(('stru_equal', {'lat': l, 'size': (1, 1, 3), 'ops': 'none', 'free': [0]}))
    if prop == 'C21':
        for l in ('bcc', 'fcc', 'scc', 'triflat', 'ort', 'tric'):
            for s in [(1, 2, 2), (2, 2, 1), (2, 1, 2), (1, 1, 3), (1, 2, 3)]:
                n = s[0] * s[1] * s[2]
                for k in range(1, n):
                    J.append(('nodup', {'lat': l, 'size': s, 'num': k}))
            for k in (1, 2, 3, 4):
                J.append(('nodup', {'lat': l, 'size': (2, 2, 2), 'num': k}))
            for s in ((1, 3, 3),) + (((2, 2, 3), (3, 3, 1)) if T else ()):
                for k in (2, 3) + ((4,) if T else ()):
                    J.append(('nodup', {'lat': l, 'size': s, 'num': k}))
            for s in [(1, 1, 4), (1, 4, 1), (4, 1, 1), (1, 1, 5)]:
                for k in (1, 2):
                    J.append(('nodup', {'lat': l, 'size': s, 'num': k}))
        J.append(('nodup', {'lat': 'fcc', 'size': (1, 2, 2), 'num': 2, 'full': 1}))
        for l, s, k in (('fcc', (1, 2, 2), 2), ('scc', (1, 2, 2), 2), ('ort', (1, 2, 3), 2), ('triflat', (1, 2, 2), 1), ('bcc', (2, 2, 1), 2)):
            J.append(('nodup', {'lat': l, 'size': s, 'num': k, 'warm': 1}))
        for l in ('bcc', 'fcc', 'scc', 'triflat', 'tric'):
            J.append(('nodup', {'lat': l, 'size': (1, 2, 2), 'num': 2, 'noise': 1e-4}))
            J.append(('nodup', {'lat': l, 'size': (1, 1, 3), 'num': 1, 'noise': 1e-4}))
            for s in [(1, 1, 1), (1, 2, 2), (2, 2, 1), (2, 1, 2), (1, 1, 3), (1, 3, 1), (3, 1, 1), (1, 2, 3), (2, 3, 1)] + \
                    ([(2, 2, 2), (1, 3, 3)] if T else []):
                J.append(('disjunct', {'lat': l, 'size': s}))
            for s in [(1, 1, 4), (1, 4, 1), (4, 1, 1), (1, 1, 5), (1, 5, 1), (5, 1, 1), (6, 1, 1), (1, 1, 7)] + ([(1, 2, 4), (4, 2, 1), (2, 1, 5)] if T else []):
                J.append(('disjunct', {'lat': l, 'size': s}))
            for s in [(1, 1, 2), (2, 2, 1)]:
                J.append(('disjunct', {'lat': l, 'size': s, 'warm': 1}))
            for s in [(2, 2, 2), (3, 3, 1)] + ([(2, 3, 2)] if T else []):
                J.append(('disjunct', {'lat': l, 'size': s}))
            for s in [(1, 1, 2), (2, 1, 1), (1, 2, 2)]:
                J.append(('disjunct', {'lat': l, 'size': s, 'scale': [.9, 1.3] if l != 'tric' else [.9, 1.1]}))
        for l, ss in (('cola', [(n, 1, 1) for n in range(1, 9)] + [(4, 2, 1), (3, 1, 2)] + ([(5, 2, 1)] if T else [])),
                      ('colb', [(1, n, 1) for n in range(1, 9)] + [(2, 4, 1), (1, 3, 2)] + ([(1, 5, 2)] if T else [])),
                      ('colc', [(1, 1, n) for n in range(1, 9)] + [(1, 2, 4), (2, 1, 3)] + ([(1, 2, 5)] if T else [])),
                      ('layc', [(2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 3, 1), (4, 2, 1), (2, 4, 1), (2, 2, 2), (3, 1, 2)]),
                      ('laya', [(1, 2, 2), (1, 3, 2), (1, 2, 3), (1, 3, 3), (1, 4, 2), (1, 2, 4), (2, 2, 2), (2, 1, 3)]),
                      ('wide', [(1, 1, 4), (2, 2, 1), (2, 1, 2), (1, 2, 3), (2, 2, 2)])):
            for s in ss:
                J.append(('disjunct', {'lat': l, 'size': s}))
                if s[0] * s[1] * s[2] <= 4:
                    J.append(('disjunct', {'lat': l, 'size': s, 'warm': 1}))
                    J.append(('disjunct', {'lat': l, 'size': s, 'scale': [.9, 1.3]}))
    return J
