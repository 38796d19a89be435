"""Buckyball (C18), element table (C19), space-group restriction (C22), cell
conversions (C23)."""
from __future__ import division
import json
import math
import os
from itertools import combinations

from engine import geom
from harness import cells
from harness.common import atoms, make_cell
from harness.spgsym import SYMBOLS

REPO = os.environ.get('VERIF_REPO', '/repo')

# ---------------------------------------------------------------- C18
_bk = {}


def _icosahedral(pos, lat):
    """all isometries of the point set, as permutations (site i -> p[i])"""
    key = repr(pos)
    if key in _bk:
        return _bk[key]
    n = len(pos)
    X = [[sum(p[k] * lat[k][b] for k in range(3)) for b in range(3)] for p in pos]
    D = [[math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y))) for y in X] for x in X]
    tol = 0.05
    # a base of sites that fixes an isometry: an atom and its three neighbours
    nb = sorted(range(n), key=lambda j: D[0][j])[:4]
    out = []

    def images(k, part):
        if k == len(nb):
            yield part
            return
        for c in range(n):
            if c not in part and all(abs(D[nb[k]][nb[q]] - D[c][part[q]]) < tol for q in range(k)):
                for r in images(k + 1, part + [c]):
                    yield r
    for im in images(0, []):
        p = []
        for i in range(n):
            hit = [c for c in range(n) if all(abs(D[i][nb[q]] - D[c][im[q]]) < tol for q in range(len(nb)))]
            if len(hit) != 1:
                break
            p.append(hit[0])
        else:
            if all(abs(D[i][j] - D[p[i]][p[j]]) < tol for i in range(n) for j in range(i)):
                out.append(tuple(p))
    _bk[key] = sorted(set(out))
    return _bk[key]


def _classes(ctx, B, outs, n, sp, what):
    """outs: arrays of 60 atomic numbers with n substitutions each"""
    c = B.spg_cell
    pos = [[float(v) for v in p] for p in c[1].tolist()]
    lat = [[float(v) for v in p] for p in c[0].tolist()]
    ctx.check(len(pos) == 60, 'sixty sites')
    grp = _icosahedral(pos, lat)
    ctx.check(len(grp) == 120, 'the sites have icosahedral symmetry: 120 operations')
    orbs = []
    for a in outs:
        a = list(a.tolist() if hasattr(a, 'tolist') else a)
        ctx.check(len(a) == 60, '%s: sixty sites' % what)
        on = [i for i in range(60) if ctx.truth(a[i] == sp)]
        ctx.check(len(on) == n, '%s: the number of substitutions' % what)
        ctx.check(ctx.And(*[a[i] == 6 for i in range(60) if i not in on]), '%s: all other sites are carbon' % what)
        orbs.append(set(tuple(sorted(g[i] for i in on)) for g in grp))
    rep = {}
    for k, o in enumerate(orbs):
        for s in o:
            rep.setdefault(s, []).append(k)
    ctx.check(all(len(v) == 1 for v in rep.values()), '%s: two structures of one symmetry class' % what)
    ctx.observe('%s %d' % (what, n), len(outs))
    # an arbitrary arrangement, by its sites in increasing order
    t = [ctx.int('s%d_%d' % (n, k), 0, 59) for k in range(n)]
    if n == 0:
        return ctx.check(len(outs) == 1, '%s: the pure cage' % what)
    for i in range(61 - n):
        rest = [s[1:] for s in rep if s[0] == i]
        if n == 1:
            ctx.check(ctx.Implies(t[0] == i, bool(rest)), '%s: some symmetry class has no representative' % what)
            continue
        dom = ctx.And(t[0] == i, t[1] > i, *[t[k + 1] > t[k] for k in range(1, n - 1)])
        by = {}
        for r in rest:
            by.setdefault(r[0], []).append(r[1:])
        if n == 2:
            hit = ctx.Or(*[t[1] == b for b in sorted(by)])
        else:
            hit = ctx.Or(*[ctx.And(t[1] == b, _member(ctx, t[2:], by[b])) for b in sorted(by)])
        ctx.check(ctx.Implies(dom, hit), '%s: some symmetry class has no representative' % what)


def _member(ctx, t, rows):
    """t is one of the rows (one further coordinate: as a union of ranges)"""
    if len(t) > 1:
        return ctx.Or(*[ctx.And(*[x == y for x, y in zip(t, r)]) for r in rows])
    v = sorted(r[0] for r in rows)
    runs = []
    for x in v:
        if runs and x == runs[-1][1] + 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    return ctx.Or(*[ctx.And(t[0] >= a, t[0] <= b) for a, b in runs])


def bucky(ctx, cfg):
    ctx.hooks['keep_sarr'] = 'all'
    M = ctx.mod('ababe.stru.buckyball')
    sp = cfg['sp'] if 'sp' in cfg else ctx.int('Z_sp', 0, 88)
    ctx.assume(sp != 6)
    spo = ctx.specie(sp, 'Sp')
    B = M.Structure([6] * 60)
    n = cfg['n']
    how = cfg.get('how', 'levels')
    if cfg.get('warm'):
        # the same cage was enumerated before, or is being enumerated
        w = ctx.choose('warm', 4)
        if w == 0:
            for g in M.Structure.all_speckle_gen(B, n, spo):
                list(g)
        elif w == 1:
            list(B.to_nodup_generator(M.Structure.gen_speckle(spo, 1)))
        elif w == 2:
            o = M.Structure.all_speckle_gen(B, n, ctx.specie(7, 'N'))
            for g in o:
                next(g, None)
        else:
            list(B.to_nodup_generator(M.Structure.gen_speckle(ctx.specie(7, 'N'), n)))
    if how == 'levels':
        outer = M.Structure.all_speckle_gen(B, n, spo)
        if cfg.get('sched') == 'late':
            lv = list(outer)
            got = [None] * len(lv)
            for k in reversed(range(len(lv))):
                got[k] = list(lv[k])
        else:
            got = []
            for g in outer:
                got.append(list(g))
        ctx.check(len(got) == n + 1, 'one generator per number of substitutions')
        for k in ([n] if cfg.get('last') else range(n + 1)):
            _classes(ctx, B, got[k], k, sp, 'level')
    elif how == 'filter':
        _classes(ctx, B, list(B.to_nodup_generator(M.Structure.gen_speckle(spo, n))), n, sp, 'filtered')
    else:
        # all arrangements, each once
        seen = set()
        num = 0
        for a in M.Structure.gen_speckle(spo, n):
            a = list(a.tolist())
            on = tuple(i for i in range(60) if ctx.truth(a[i] == sp))
            ctx.check(len(a) == 60 and len(on) == n, 'arrangements: the number of substitutions')
            ctx.check(ctx.And(*[a[i] == 6 for i in range(60) if i not in on]), 'arrangements: all other sites are carbon')
            ctx.check(on not in seen, 'arrangements: each once')
            seen.add(on)
            num += 1
        ctx.observe('num', num)
        if n > 30:
            # described by the sites left
            seen = set(tuple(i for i in range(60) if i not in s) for s in seen)
            n = 60 - n
        t = [ctx.int('s%d' % k, 0, 59) for k in range(n)]
        if n == 0:
            return ctx.check(num == 1, 'arrangements: all of them')
        by = {}
        for s in seen:
            by.setdefault(s[0], []).append(s[1:])
        dom = ctx.And(t[0] >= 0, *[t[k + 1] > t[k] for k in range(n - 1)])
        if n == 1:
            hit = _member(ctx, t, sorted(seen))
        else:
            hit = ctx.Or(*[ctx.And(t[0] == b, _member(ctx, t[1:], by[b])) for b in sorted(by)])
        ctx.check(ctx.Implies(dom, hit), 'arrangements: all of them')
    ctx.check('narrow-digest' not in ctx.flags, 'identifiers are wide enough to tell the arrangements apart')


# ---------------------------------------------------------------- C19
TABLE = ('G H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y '
         'Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os '
         'Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr').split()
KNOWN = list(range(0, 57)) + list(range(72, 89))
# standard atomic masses (of the longest-lived isotope where there is none)
MASS = dict(zip(KNOWN, [0, 1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.180, 22.990, 24.305,
                        26.982, 28.085, 30.974, 32.06, 35.45, 39.948, 39.098, 40.078, 44.956, 47.867, 50.942, 51.996,
                        54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.63, 74.922, 78.97, 79.904, 83.798,
                        85.468, 87.62, 88.906, 91.224, 92.906, 95.95, 98, 101.07, 102.91, 106.42, 107.87, 112.41,
                        114.82, 118.71, 121.76, 127.60, 126.90, 131.29, 132.91, 137.33, 178.49, 180.95, 183.84, 186.21,
                        190.23, 192.22, 195.08, 196.97, 200.59, 204.38, 207.2, 208.98, 209, 210, 222, 223, 226]))


def _mass(ctx, e, k):
    m = MASS[k]
    tol = 1.0 if k in (43, 84, 85, 86, 87, 88) else 3.5e-4 * m
    w, r = getattr(e, 'atom_mass', None), getattr(e, 'atom_radius', None)
    ctx.check(w is not None and r is not None, 'an element has a mass and a radius')
    ctx.check(abs(w - m) <= tol, 'an element has its atomic mass')
    ctx.check(r == 0 if k == 0 else r >= 0, 'and an atomic radius')



def element_number(ctx, cfg):
    """from an arbitrary integer"""
    S = ctx.mod('ababe.stru.element').Specie
    z = ctx.int('Z', cfg['lo'], cfg['hi'])
    try:
        e = S.from_num(z)
    except (KeyError, IndexError, ValueError) as x:
        e = None
    try:
        nm = S.to_name(z)
    except (KeyError, IndexError, ValueError) as x:
        nm = None
    known = ctx.truth(ctx.Or(*[ctx.And(z >= a, z <= b) for a, b in ((0, 56), (72, 88))]))
    ctx.check((e is not None) == known and (nm is not None) == known,
              'numbers of the table give an element, other numbers are errors')
    ctx.observe('known', known)
    if not known:
        return
    ctx.check(e.Z == z, 'the element made from a number has that number')
    k = [a for a in KNOWN if ctx.truth(z == a)]
    ctx.check(len(k) == 1, 'one number')
    ctx.check(e.name == TABLE[k[0]] and e.symbol == TABLE[k[0]] and nm == TABLE[k[0]],
              'its symbol is the symbol of the periodic table')
    f = S(nm)
    ctx.check(f.Z == z and f.name == nm, 'the symbol leads back to the number')
    G = ctx.mod('ababe.stru.element').GhostSpecie
    if k[0] == 0:
        ctx.check(isinstance(e, G) and e == G() and e.name == 'G', 'number 0 is the ghost element')
    else:
        ctx.check(not isinstance(e, G), 'any other number is a real element')
    _mass(ctx, e, k[0])
    _mass(ctx, f, k[0])
    for b in KNOWN:
        o = S(TABLE[b])
        ctx.check(bool(e == o) == (b == k[0]) and bool(o == e) == (b == k[0]), 'elements are equal exactly when their symbols are')
        ctx.check(bool(e != o) == (b != k[0]) and bool(o != e) == (b != k[0]), 'unequal is the opposite of equal')
    for o in (k[0], TABLE[k[0]], None):
        ctx.check(not (e == o) and (e != o), 'an element is not equal to something else')


def element_symbol(ctx, cfg):
    S = ctx.mod('ababe.stru.element').Specie
    names = TABLE + ['', 'Xx', 'cu', 'CU', 'Cu ', '29', 'Aa', 'D', 'h']
    k = ctx.choose('name', len(names))
    nm = names[k]
    try:
        e = S(nm)
    except (KeyError, IndexError, ValueError):
        e = None
    ok = k in KNOWN
    ctx.check((e is not None) == ok, 'exactly the symbols of the table are accepted')
    if ok:
        ctx.check(e.Z == k and e.name == nm, 'the element of a symbol')
        f = S.from_num(e.Z)
        ctx.check(f.name == nm and f == e and not (f != e), 'number and symbol lead to each other')
        ctx.check(S.to_name(e.Z) == nm, 'the name of the number')
        _mass(ctx, e, k)
    ctx.observe('ok', ok)


# ---------------------------------------------------------------- C22
def spgroup_symbol(ctx, cfg):
    """every space group, every list of allowed numbers"""
    k = ctx.choose('group', cfg['hi'] - cfg['lo'] + 1) + cfg['lo']
    names = SYMBOLS[k]
    s = names[ctx.choose('setting', len(names))] if len(names) > 1 else names[0]
    ctx.hooks['spacegroup'] = lambda cell, symprec: '%s (%d)' % (s, k)
    cell = ctx.GeneralCell([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 5.0]], [[0, 0, 0], [.5, .5, .5]], [29, 8])
    l = [ctx.int('allowed%d' % i, 1, 230) for i in range(cfg['len'])]
    R = ctx.mod('ababe.stru.restriction').SpaceGroupRestriction(list(l))
    r = R.is_satisfied(cell)
    ctx.check(ctx.Iff(r, ctx.Or(*[a == k for a in l])), 'accepted exactly when the number is listed')
    if cfg.get('again'):
        # the same restriction judging other crystals, one over the same sites
        k2, far = ((225, 0), (1, 1), (230, 1), (14, 0))[ctx.choose('g2', 4)]
        s2 = SYMBOLS[k2][0]
        ctx.hooks['spacegroup'] = lambda cell, symprec: '%s (%d)' % (s2, k2)
        c2 = cell
        if far:
            c2 = ctx.GeneralCell([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 6.0]], [[0, 0, 0], [.5, .5, .25]], [29, 8])
        r = R.is_satisfied(c2)
        ctx.check(ctx.Iff(r, ctx.Or(*[a == k2 for a in l])), 'a second crystal is judged by its own group')
        ctx.hooks['spacegroup'] = lambda cell, symprec: '%s (%d)' % (s, k)
        r = R.is_satisfied(cell)
        ctx.check(ctx.Iff(r, ctx.Or(*[a == k for a in l])), 'asking again gives the same answer')
    ctx.check(len(R.l_sp) == len(l) if hasattr(R, 'l_sp') else True, 'the list is kept')


# catalogue cell -> number (at the working tolerance, at a coarse one)
GROUPS = {'sc1': 221, 'fcc4': 225, 'bcc2': 229, 'cscl': 221, 'zbp': 216, 'zb8': 216, 'nacl8': 225, 'perov5': 221,
          'rutile6': 136, 'hcp2': 194, 'graphene2': 191, 'mono4': 11, 'tricl4': 2, 'p1_4': 1, 'rhom3': 166,
          'near3': (25, 123), 'nearfcc': (99, 225), 'neartet': (123, 221), 'sc8': 221, 'hcp4': 194, 'zb4': 216, 'rut12': 136}


def spgroup_cell(ctx, cfg):
    name = cfg['cell']
    lat, pos, lab = cells.get(name)
    g = GROUPS[name]
    if not isinstance(g, tuple):
        g = (g, g)
    ctx.hooks['spacegroup'] = lambda cell, symprec: '%s (%d)' % (
        (SYMBOLS[g[0]][0], g[0]) if symprec < 5e-3 else (SYMBOLS[g[1]][0], g[1]))
    if not ctx.symbolic:
        del ctx.hooks['spacegroup']
    z = atoms(ctx, lab)
    cell = make_cell(ctx, name, z)
    l = [ctx.int('allowed%d' % i, 1, 230) for i in range(2)]
    r = ctx.mod('ababe.stru.restriction').SpaceGroupRestriction(l).is_satisfied(cell)
    ctx.check(ctx.Iff(r, ctx.Or(*[a == g[0] for a in l])), 'accepted exactly when the number of the group is listed')


# ---------------------------------------------------------------- C23
def _dists(lat, pos, lab, R):
    """{(s, t): sorted distances <= R} over all ordered pairs of one cell"""
    inv = geom.inv3(lat)
    lim = [int(math.ceil(R * math.sqrt(sum(inv[k][i] ** 2 for k in range(3))))) + 1 for i in range(3)]
    out = {}
    X = [[sum(p[k] * lat[k][b] for k in range(3)) for b in range(3)] for p in
         [[v - math.floor(v) for v in p] for p in pos]]
    T = []
    for i in range(-lim[0], lim[0] + 1):
        for j in range(-lim[1], lim[1] + 1):
            for k in range(-lim[2], lim[2] + 1):
                T.append([i * lat[0][b] + j * lat[1][b] + k * lat[2][b] for b in range(3)])
    R2 = R * R
    for a in range(len(X)):
        for b in range(len(X)):
            d0 = [X[b][k] - X[a][k] for k in range(3)]
            o = out.setdefault((lab[a], lab[b]), [])
            for t in T:
                d = (d0[0] + t[0]) ** 2 + (d0[1] + t[1]) ** 2 + (d0[2] + t[2]) ** 2
                if d <= R2:
                    o.append(math.sqrt(d))
    for o in out.values():
        o.sort()
    return out


def _samecrystal(ctx, A, B, R, what):
    """A, B = (lat, pos, lab): composition, volume per atom, distances"""
    na, nb = len(A[2]), len(B[2])
    for s in sorted(set(A[2]) | set(B[2])):
        ctx.check(A[2].count(s) * nb == B[2].count(s) * na, '%s: the composition' % what)
    va, vb = abs(geom.det3(A[0])) / na, abs(geom.det3(B[0])) / nb
    ctx.check(abs(va - vb) <= 2e-3 * va, '%s: the volume per atom' % what)
    da = _dists(A[0], A[1], A[2], R + .1)
    # a radius that no distance of A comes close to
    r = R
    ds = sorted(x for o in da.values() for x in o)
    while any(abs(x - r) < 0.01 for x in ds):
        r -= 0.021
    db = _dists(B[0], B[1], B[2], r)
    g = math.gcd(na, nb)
    for k in sorted(set(da) | set(db)):
        x = [v for v in da.get(k, []) if v <= r for _ in range(nb // g)]
        y = [v for v in db.get(k, []) for _ in range(na // g)]
        ctx.check(len(x) == len(y) and all(abs(p - q) < 5e-3 for p, q in zip(x, y)),
                  '%s: the distances between the species' % what)


def _nprim(lat, pos, lab):
    """atoms of the primitive cell: sites / number of translations"""
    ops = geom.symmetry_ops(lat, pos, lambda i, j: lab[i] == lab[j], tol=3e-4)
    return len(lab) // len(geom.pure_translations(ops))


def _labelled(ctx, cell, z):
    """labels of the sites of a converted cell"""
    out = []
    for v in cell.numbers.tolist():
        hit = [l for l in sorted(z) if ctx.truth(v == z[l])]
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return out


def convert(ctx, cfg):
    name = cfg['cell']
    lat, pos, lab = cells.get(name)
    if cfg.get('lab'):
        lab = list(cfg['lab'])
    z = atoms(ctx, lab)
    if cfg.get('shift'):
        # another choice of origin
        pos = [[p[a] + cfg['shift'][a] for a in range(3)] for p in pos]
    if ctx.symbolic:
        if cfg.get('order', 1):
            done = []

            def order(n):
                done.append(1)
                return _perm(ctx, n, 'o%d' % len(done))
            ctx.hooks['siteorder'] = order
        ctx.hooks['conv'] = cfg.get('conv', [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        ctx.hooks['origin'] = [.25, .125, 0]
    cell = ctx.GeneralCell(lat, pos, [z[l] for l in lab])
    me = (lat, pos, lab)
    n0 = _nprim(lat, pos, lab)
    R = 2.0 * abs(geom.det3(lat) * n0 / len(lab)) ** (1 / 3.)
    what = cfg['op']
    if what == 'is_primitive':
        ctx.check(bool(cell.is_primitive()) == (n0 == len(lab)), 'primitive exactly when no smaller translation repeats it')
        ctx.observe('prim', n0)
    else:
        if cfg.get('warm'):
            w = ctx.choose('warm', 5)
            if w < 3:
                getattr(cell, ('get_refined_pcell', 'get_refined_cell', 'get_shaped_cell')[w])()
            elif w == 3:
                getattr(ctx.GeneralCell(lat, pos, [7 + i for i in range(len(lab))]), what)()
            else:
                cell.is_primitive()
        c = getattr(cell, what)()
        l = _labelled(ctx, c, z)
        ctx.check(l is not None, '%s: only elements of the crystal' % what)
        new = ([[float(v) for v in r] for r in c.lattice.tolist()],
               [[float(v) for v in p] for p in c.positions.tolist()], l)
        ctx.check(len(new[1]) == len(l), '%s: positions and elements' % what)
        _samecrystal(ctx, me, new, R, what)
        if what == 'get_refined_pcell':
            ctx.check(len(l) == n0, 'the primitive cell has the smallest number of atoms')
            ctx.check(bool(c.is_primitive()), 'the primitive cell is primitive')
        if what == 'get_shaped_cell':
            ctx.check(len(l) == len(lab), 'the reshaped cell has the same number of atoms')
        if what == 'get_refined_cell':
            ctx.check(len(l) % n0 == 0, 'the conventional cell holds whole primitive cells')
            k = CENTRING.get(name) if not cfg.get('lab') else None
            if k:
                ctx.check(len(l) == k * n0, 'the conventional cell holds one primitive cell per lattice point')
        ctx.observe('prim', n0)
    # the crystal itself stays
    left = list(range(len(lab)))
    for p, v in zip(cell.positions.tolist(), cell.numbers.tolist()):
        hit = [i for i in left if geom.same_site(p, pos[i])]
        ctx.check(len(hit) == 1 and ctx.truth(v == z[lab[hit[0]]]), 'the crystal itself is unchanged')
        left.remove(hit[0])


def _perm(ctx, n, tag):
    """an order of n sites: a rotation of the list and one transposition"""
    r = list(range(n))
    if n > 1:
        k = ctx.choose(tag + 'rot', min(n, 3))
        r = r[k:] + r[:k]
        j = ctx.choose(tag + 'swap', 2)
        if j:
            r[0], r[-1] = r[-1], r[0]
    return r


# lattice points of the conventional cell
CENTRING = {'sc1': 1, 'sc4': 1, 'sc8': 1, 'fcc4': 4, 'zbp': 4, 'zb4': 4, 'zb8': 4, 'nacl8': 4, 'perov5': 1, 'perov10': 1, 'rutile6': 1,
            'rut12': 1, 'hcp2': 1, 'hcp4': 1, 'hcp8': 1, 'graph8': 1, 'tricl4': 1, 'p1_4': 1, 'p1_8': 1, 'rhom3': 3, 'bcc2': 2, 'bcc4': 2}
BCCM = [[0, 1, 1], [1, 0, 1], [1, 1, 0]]
FCCM = [[-1, 1, 1], [1, -1, 1], [1, 1, -1]]


def jobs(prop, tier):
    T = tier == 'thorough'
    J = []
    if prop == 'C18':
        J.append(('bucky', {'n': 2}))
        J.append(('bucky', {'n': 2, 'sched': 'late'}))
        J.append(('bucky', {'n': 2, 'how': 'filter'}))
        J.append(('bucky', {'n': 1, 'how': 'all'}))
        J.append(('bucky', {'n': 2, 'warm': 1}))
        J.append(('bucky', {'n': 2, 'how': 'filter', 'warm': 1}))
        J.append(('bucky', {'n': 1, 'how': 'all', 'warm': 1}))
        J.append(('bucky', {'n': 2, 'how': 'all'}))
        for n in (0, 58, 59, 60):
            J.append(('bucky', {'n': n, 'how': 'all', 'sp': 5}))
        J.append(('bucky', {'n': 59, 'how': 'all'}))
        J.append(('bucky', {'n': 3, 'how': 'all', 'sp': 7, 'path_s': 200}))
        J.append(('bucky', {'n': 3, 'sp': 7, 'last': 1}))
        J.append(('bucky', {'n': 2, 'sp': 0}))
        J.append(('bucky', {'n': 3, 'sched': 'late', 'sp': 0}))
        if T:
            J.append(('bucky', {'n': 3, 'path_s': 1500}))
            J.append(('bucky', {'n': 3, 'how': 'filter', 'sp': 5}))
            J.append(('bucky', {'n': 57, 'how': 'all', 'sp': 5, 'path_s': 1500}))
            J.append(('bucky', {'n': 4, 'sp': 7, 'last': 1, 'path_s': 1500}))
    if prop == 'C19':
        J.append(('element_number', {'lo': -5, 'hi': 130}))
        J.append(('element_symbol', {}))
        if T:
            J.append(('element_number', {'lo': -300, 'hi': 1000}))
    if prop == 'C22':
        for lo, hi in ((1, 58), (59, 115), (116, 172), (173, 230)):
            for n in (0, 1, 2, 3) if not T else (0, 1, 2, 3, 5, 8):
                J.append(('spgroup_symbol', {'lo': lo, 'hi': hi, 'len': n, 'again': 1 if n == 1 else 0}))
        for lo, hi in ((1, 3), (114, 116), (227, 230)):
            for n in (6, 12):
                J.append(('spgroup_symbol', {'lo': lo, 'hi': hi, 'len': n}))
        for c in sorted(GROUPS):
            if GROUPS[c] is not None:
                J.append(('spgroup_cell', {'cell': c}))
    if prop == 'C23':
        C = [('sc1', None), ('sc4', None), ('sc8', None), ('fcc4', FCCM), ('bcc4', BCCM), ('bcc2', BCCM), ('zbp', FCCM), ('zb4', FCCM), ('zb8', FCCM),
             ('nacl8', FCCM), ('perov5', None), ('perov10', None), ('rutile6', None), ('rut12', None), ('hcp2', None), ('hcp4', None),
             ('hcp8', None), ('graph8', None), ('mono4', None), ('tricl4', None), ('p1_4', None), ('p1_8', None), ('messy5', None),
             ('rhom3', [[1, -1, 0], [0, 1, -1], [1, 1, 1]]), ('near3', None), ('nearfcc', None), ('nearsc4', None), ('ortho6', None)]
        if T:
            C += [('zbp16', FCCM), ('cscl16', None), ('zb16', FCCM), ('bcc8', None), ('fcc8', FCCM), ('sc9', None), ('tri9', None)]
        for c, m in C:
            for op in ('is_primitive', 'get_refined_pcell', 'get_refined_cell', 'get_shaped_cell'):
                d = {'cell': c, 'op': op}
                if m and op == 'get_refined_cell':
                    d['conv'] = m
                J.append(('convert', d))
        for c, m in (('fcc4', FCCM), ('zb8', FCCM), ('sc4', None), ('hcp4', None), ('perov5', None), ('p1_4', None)):
            for op in ('get_refined_pcell', 'get_refined_cell', 'get_shaped_cell'):
                d = {'cell': c, 'op': op, 'warm': 1, 'order': 0}
                if op == 'get_refined_cell' and m:
                    continue
                J.append(('convert', d))
        # occupations of a supercell
        for c, l in (('sc4', 'ABAB'), ('sc4', 'AABB'), ('sc4', 'ABBA'), ('sc4', 'AAAB'), ('sc8', 'ABBABAAB'), ('sc8', 'AAAABBBB'),
                     ('sc8', 'AAABBBAB'), ('fcc4', 'AABB'), ('fcc4', 'ABBB'), ('fcc4', 'ABCC'), ('bcc4', 'AABB'), ('bcc4', 'ABAB'),
                     ('bcc4', 'ABBA'), ('hcp4', 'AABB'), ('hcp4', 'ABBA'), ('zb8', 'AACCBBBB'), ('nacl8', 'ABABABAB'), ('sc6', 'ABABAB'),
                     ('sc6', 'AABAAB'), ('sc6', 'ABBBAA')):
            for op in ('is_primitive', 'get_refined_pcell', 'get_shaped_cell') + (('get_refined_cell',) if T else ()):
                J.append(('convert', {'cell': c, 'lab': l, 'op': op}))
                if op != 'is_primitive':
                    J.append(('convert', {'cell': c, 'lab': l, 'op': op, 'shift': [.1, .25, .5]}))
    return J
