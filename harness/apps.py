"""Command-line runs (C20): the files a command writes, through the argument
parser, with the command's random suffixes as inputs."""
from __future__ import division
import math
import os
from itertools import combinations

from engine import geom, api
from harness import cells
from harness.common import group
from harness.files import _parse
from harness.geo import _rots, _equiv
from harness.misc import _dists

ZS = {'Cu': 29, 'O': 8, 'Ti': 22, 'Ag': 47, 'Zn': 30, 'G': 0, 'C': 6, 'Co': 27}
NAMES = dict((v, k) for k, v in ZS.items())
LABEL = {'A': 'Cu', 'B': 'O', 'C': 'Ti'}


# ---------------------------------------------------------------- files
def write_input(name, lat, pos, sym, extra=None):
    if name.endswith('.yaml'):
        t = 'comment: %s\nlattice:\n' % (extra or {}).get('comment', 'input')
        t += ''.join('- [%s]\n' % ', '.join('%.10f' % v for v in r) for r in lat)
        t += 'positions:\n' + ''.join('- [%s]\n' % ', '.join('%.10f' % v for v in p) for p in pos)
        t += 'numbers: [%s]\n' % ', '.join(str(ZS[s]) for s in sym)
        if 'zoom' in (extra or {}):
            t += 'zoom: %s\n' % extra['zoom']
        elif not (extra or {}).get('nozoom'):
            t += 'zoom: 1\n'
    else:
        order = []
        for s in sym:
            if s not in order:
                order.append(s)
        t = 'input\n1.0\n' + ''.join('  '.join('%.10f' % v for v in r) + '\n' for r in lat)
        t += ' '.join(order) + '\n' + ' '.join(str(sym.count(s)) for s in order) + '\ndirect\n'
        for s in order:
            t += ''.join('  '.join('%.10f' % v for v in p) + '\n' for p, q in zip(pos, sym) if q == s)
    with open(name, 'w') as f:
        f.write(t)


def read_output(ctx, path, what):
    """lattice, positions, symbols of a written file"""
    with open(path) as f:
        t = f.read()
    if path.endswith('.yaml'):
        d = ctx.yaml_load(t)
        z = d.get('zoom', 1)
        return ([[v * z for v in r] for r in d['lattice']], [list(p) for p in d['positions']],
                [NAMES.get(int(n), '?') for n in d['numbers']])
    com, sc, L, ele, mode, X = _parse(ctx, t, what)
    L = [[v * sc for v in r] for r in L]
    if mode != 'd':
        inv = geom.inv3(L)
        X = [[sum(x[k] * sc * inv[k][b] for k in range(3)) for b in range(3)] for x in X]
    return L, X, ele


def snapshot():
    out = {}
    for d, _, fs in os.walk('.'):
        out[d] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def new_dir(ctx, before, what, prefix='STRUCTURES_'):
    """the one directory the run has made; everything older untouched"""
    now = snapshot()
    ctx.check(all(p in now and now[p] == v for p, v in before.items()),
              '%s: files and directories of earlier runs stay intact' % what)
    dirs = sorted(d for d in now if now[d] is None and d not in before)
    ctx.check(len(dirs) == 1 and os.path.basename(dirs[0]).startswith(prefix), '%s: one new directory per run' % what)
    files = sorted(p for p in now if p not in before and now[p] is not None)
    ctx.check(all(os.path.dirname(p) == dirs[0] for p in files), '%s: all files are in the directory of the run' % what)
    return dirs[0], files


# ---------------------------------------------------------------- oracles
def mindist(lat, pos, sym, ele):
    """smallest distance of two atoms of the element, images included"""
    X = [[v - math.floor(v + 1e-9) for v in p] for p, s in zip(pos, sym) if s == ele]
    best = None
    for i in range(len(X)):
        for j in range(i, len(X)):
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    for c in (-1, 0, 1):
                        if i == j and (a, b, c) == (0, 0, 0):
                            continue
                        d = [X[j][k] - X[i][k] + (a, b, c)[k] for k in range(3)]
                        x = [sum(d[k] * lat[k][q] for k in range(3)) for q in range(3)]
                        r = math.sqrt(sum(v * v for v in x))
                        best = r if best is None or r < best else best
    return best


def ntrans(pos, sym):
    """number of translations that carry the structure onto itself"""
    small = min(set(sym), key=lambda s: (sym.count(s), s))
    ref = sym.index(small)
    n = 0
    for j in range(len(pos)):
        if sym[j] != small:
            continue
        t = [pos[j][k] - pos[ref][k] for k in range(3)]
        if all(any(sym[b] == sym[a] and geom.same_site([pos[a][k] + t[k] for k in range(3)], pos[b])
                   for b in range(len(pos))) for a in range(len(pos))):
            n += 1
    return n


def canon(col, grp):
    return min(tuple(col[g[i]] for i in range(len(col))) for g in grp)


def classes(sym, target, counts, grp):
    """canonical colourings: counts = [(symbol, number)...] on the target sites"""
    out = set()

    def rec(k, left, col):
        if k == len(counts):
            out.add(canon(col, grp))
            return
        s, n = counts[k]
        for c in combinations(left, n):
            d = list(col)
            for i in c:
                d[i] = s
            rec(k + 1, [i for i in left if i not in c], d)
    rec(0, list(target), list(sym))
    return sorted(out)


def invariant(lat, pos, sym, R):
    """species-resolved distances per atom (vacancies left out), as a
    comparable value"""
    keep = [i for i in range(len(sym)) if sym[i] != 'G']
    s = [sym[i] for i in keep]
    d = _dists(lat, [pos[i] for i in keep], s, R)
    n = len(s)
    out = []
    for k in sorted(d):
        v = d[k]
        # groups of equal distances with their number per atom
        i = 0
        while i < len(v):
            j = i
            while j + 1 < len(v) and v[j + 1] - v[j] < 0.004:
                j += 1
            out.append((k, v[i], (j - i + 1) / float(n)))
            i = j + 1
    comp = tuple((e, s.count(e) / float(n)) for e in sorted(set(s)))
    return comp, abs(geom.det3(lat)) / n, out


def same_invariant(a, b):
    if len(a[0]) != len(b[0]) or any(x[0] != y[0] or abs(x[1] - y[1]) > 1e-9 for x, y in zip(a[0], b[0])):
        return False
    if abs(a[1] - b[1]) > 2e-3 * a[1] or len(a[2]) != len(b[2]):
        return False
    return all(x[0] == y[0] and abs(x[1] - y[1]) < 0.01 and abs(x[2] - y[2]) < 1e-6 for x, y in zip(a[2], b[2]))


def radius(lat, pos):
    """a radius no distance of the crystal comes close to"""
    R = 2.0 * abs(geom.det3(lat)) ** (1 / 3.)
    ds = sorted(x for o in _dists(lat, pos, ['x'] * len(pos), R + .1).values() for x in o)
    while any(abs(x - R) < 0.02 for x in ds):
        R -= 0.031
    return R


# ---------------------------------------------------------------- commands
def occupation(ctx, cfg):
    """ocumaker, ocubiter, ocutenter, ocumakert"""
    app = cfg['app']
    two = app in ('ocutenter', 'ocumakert')
    lat, pos, lab = cells.get(cfg['cell'])
    sym = [LABEL[l] for l in lab]
    grp = group(cfg['cell'])
    ele = LABEL[cfg.get('ele', 'A')]
    target = [i for i in range(len(sym)) if sym[i] == ele]
    fn = cfg.get('input', 'in.yaml')
    args = [app, fn]
    if not cfg.get('noele'):
        args += ['--element', ele]
    sp = cfg.get('sp', ['Ag', 'Zn'] if two else ['Ag'])
    if sp != [None]:
        args += ['--speckle'] + sp
    else:
        sp = ['G']
    n = cfg.get('n')
    if n == 'sym':
        n = 1 + ctx.choose('n', len(target))
    if n is not None:
        args += ['-n'] + ([str(v) for v in n] if two else [str(n)])
    zoom = 1
    if cfg.get('zoom'):
        zoom = cfg['zoom']
        args += ['--zoom', str(zoom)]
    filezoom = cfg.get('filezoom')
    if filezoom and not cfg.get('zoom'):
        zoom = filezoom
    lat = [[v * zoom for v in r] for r in lat]
    ext = cfg.get('out', 'vasp')
    if cfg.get('out'):
        args += ['--outmode', cfg['out']]
    refined = cfg.get('refined')
    if cfg.get('std'):
        ctx.hooks['idealize'] = True
    if refined is False:
        args += ['--no-refined']
    elif refined:
        args += ['--refined']
    mpr = cfg.get('mpr')
    if mpr is not None:
        args += ['-S' if mpr else '-N']
    if cfg.get('comment'):
        args += ['--comment', cfg['comment']]
    # what the options ask for
    if app == 'ocumaker':
        cnt = [[(sp[0], k)] for k in range(1, (len(target) - 1 if n is None else n) + 1)]
        prim = True
    elif app == 'ocubiter':
        cnt = [[(sp[0], len(target) // 2 + 1 if n is None else n)]]
        prim = mpr is not False
    elif app == 'ocutenter':
        cnt = [[(sp[0], n[0]), (sp[1], n[1])]]
        prim = mpr is not False
    else:
        cnt = [[(sp[0], a), (sp[1], b)] for a in range(1, len(target)) for b in range(1, len(target) - a)]
        prim = True
    cls = []
    for c in cnt:
        cls += classes(sym, target, c, grp)
    assert len(set(cls)) == len(cls)
    if prim:
        cls = [c for c in cls if ntrans(pos, list(c)) == 1]
    want = [[] for _ in cls]
    for q, e in enumerate(cfg.get('trs', [])):
        ds = [mindist(lat, pos, list(c), e) for c in cls]
        if cfg.get('thr'):
            thr = cfg['thr'][q]
        else:
            thr = ctx.real('thr%d' % q, 0.5, 9)
            for d in sorted(set(round(x, 6) for x in ds if x is not None)):
                ctx.assume(ctx.Not(ctx.close(thr, d, 2e-3)))
        args += ['-r', e, '%s' % thr]
        for w, d in zip(want, ds):
            if d is not None:
                w.append(thr < d)
    with ctx.tmpdir(), ctx.random(repeats=cfg.get('repeats', 2), labels=True):
        write_input(fn, lat if not (filezoom or cfg.get('zoom')) else [[v / zoom for v in r] for r in lat], pos, sym,
                    {'zoom': filezoom} if filezoom else {'nozoom': cfg.get('nozoom')})
        for run in range(cfg.get('runs', 1)):
            before = snapshot()
            ctx.cli('runabalib', *args)
            d, files = new_dir(ctx, before, app)
            if cfg.get('comment'):
                ctx.check(cfg['comment'] in os.path.basename(d), '%s: the directory carries the comment' % app)
            ctx.check(all(f.endswith('.' + ext) for f in files), '%s: the requested format' % app)
            got = [read_output(ctx, f, app) for f in files]
            if run == 0:
                ctx.observe('files', len(files))
            if refined is False:
                _plain(ctx, app, got, lat, pos, sym, cls, want, grp, ext)
            else:
                _refined(ctx, app, got, lat, pos, cls, want, ext)
                if cfg.get('std'):
                    # triclinic crystals: a along x, b in the xy plane
                    ctx.check(all(abs(float(v)) < 1e-3 for L, P, S in got for v in (L[0][1], L[0][2], L[1][2])),
                              '%s: refined files hold the standard setting of the cell' % app)


def _plain(ctx, app, got, lat, pos, sym, cls, want, grp, ext):
    """unrefined files: the sites of the input cell"""
    seen = []
    for L, P, S in got:
        ctx.check(all(abs(float(a) - float(b)) < 1e-4 for r, s in zip(L, lat) for a, b in zip(r, s)),
                  '%s: the files keep the lattice' % app)
        col = [None] * len(pos)
        for p, s in zip(P, S):
            hit = [i for i in range(len(pos)) if geom.same_site(p, pos[i], 2e-4)]
            ctx.check(len(hit) == 1 and col[hit[0]] is None, '%s: the atoms sit on the sites of the crystal' % app)
            col[hit[0]] = s
        if ext == 'vasp':
            col = ['G' if c is None else c for c in col]
        ctx.check(None not in col, '%s: every site is listed' % app)
        k = canon(col, grp)
        ctx.check(k in cls, '%s: only structures the options ask for' % app)
        ctx.check(k not in seen, '%s: one file per symmetry-distinct structure' % app)
        seen.append(k)
    for k, w in zip(cls, want):
        ok = ctx.And(*w)
        if k in seen:
            ctx.check(ok, '%s: every written structure meets all restrictions' % app)
        else:
            ctx.check(ctx.Not(ok), '%s: every structure that meets the options is written' % app)


def _refined(ctx, app, got, lat, pos, cls, want, ext):
    """refined files: other cells of the same crystals"""
    R = radius(lat, pos)
    inv = [invariant(lat, pos, list(c), R) for c in cls]
    fi = [invariant([[float(v) for v in r] for r in L], [[float(v) for v in p] for p in P], S, R) for L, P, S in got]
    acc = [ctx.truth(ctx.And(*w)) for w in want]
    for c, (L, P, S) in zip(fi, got):
        ctx.check(any(same_invariant(c, v) for v in inv), '%s: only structures the options ask for' % app)
    for k in range(len(cls)):
        a = len([j for j in range(len(cls)) if acc[j] and same_invariant(inv[k], inv[j])])
        b = len([c for c in fi if same_invariant(inv[k], c)])
        ctx.check(b >= a, '%s: every structure that meets the options is written' % app)
        ctx.check(b <= a, '%s: no other structure and none twice' % app)
    # no atom of a refined file is lost: primitive cells
    for L, P, S in got:
        k = [j for j in range(len(cls)) if same_invariant(invariant([[float(v) for v in r] for r in L],
                                                                    [[float(v) for v in p] for p in P], S, R), inv[j])]
        ctx.check(any(len(S) * ntrans(pos, list(cls[j])) == len([x for x in cls[j] if ext == 'yaml' or x != 'G']) for j in k),
                  '%s: refined files hold primitive cells' % app)


def suplat(ctx, cfg):
    name, n, ld = cfg['cell'], cfg['n'], cfg.get('ld')
    lat, pos, lab = cells.get(name)
    sym = [LABEL[l] for l in lab]
    fn = cfg.get('input', 'in.yaml')
    args = ['suplat', fn, '-v', str(n)] + (['-L'] if ld else [])
    ext = cfg.get('out', 'yaml')
    if cfg.get('out'):
        args += ['-o', ext]
    if cfg.get('comment'):
        args += ['-c', cfg['comment']]
    rots = _rots(name)
    H = []
    for a in range(1, n + 1):
        for c in range(1, n + 1):
            for f in ([1] if ld else range(1, n + 1)):
                if a * c * f != n:
                    continue
                for b in range(c):
                    for d in ([0] if ld else range(f)):
                        for e in ([0] if ld else range(f)):
                            K = [[a, b, d], [0, c, e], [0, 0, f]]
                            if not any(_equiv(_C, K, J, n, R) for J in H for R in rots):
                                H.append(K)
    R = radius(lat, pos)
    with ctx.tmpdir(), ctx.random(repeats=cfg.get('repeats', 2), labels=True):
        write_input(fn, lat, pos, sym)
        os.makedirs('STRUCTURES_other')
        with open('STRUCTURES_other/f', 'w') as f:
            f.write('x')
        for run in range(cfg.get('runs', 1)):
            dn = 'SUPLAT_' + (cfg.get('comment') or 'default')
            keep = dict((p, v) for p, v in snapshot().items() if not (p + '/').startswith('./%s/' % dn))
            ctx.cli('runabalib', *args)
            now = snapshot()
            ctx.check(all(p in now and now[p] == v for p, v in keep.items()), 'suplat: nothing else is touched')
            files = sorted(p for p in now if p not in keep and now[p] is not None)
            ctx.check(all(os.path.dirname(p) == './' + dn and p.endswith('.' + ext) for p in files),
                      'suplat: the files are in the directory of the run')
            got = [read_output(ctx, f, 'suplat') for f in files]
            if run == 0:
                ctx.observe('files', len(files))
            ctx.check(len(got) == len(H), 'suplat: one file per inequivalent superlattice')
            spec = [_spectrum([[sum(K[a][k] * lat[k][b] for k in range(3)) for b in range(3)] for a in range(3)], 1.6) for K in H]
            mine = [_spectrum([[float(v) for v in r] for r in L], 1.6) for L, P, S in got]
            base = invariant(lat, pos, sym, R)
            for (L, P, S), m in zip(got, mine):
                ctx.check(len(S) == n * len(sym), 'suplat: the number of atoms is the volume times the unit cell')
                ctx.check(same_invariant(base, invariant([[float(v) for v in r] for r in L],
                                                         [[float(v) for v in p] for p in P], S, R)),
                          'suplat: the same crystal')
            for s in spec:
                ctx.check(len([x for x in spec if _specsame(x, s)]) == len([x for x in mine if _specsame(x, s)]),
                          'suplat: every inequivalent superlattice once')


class _C(object):
    """plain logic for the oracle"""
    And = staticmethod(lambda *x: all(x))


def _spectrum(lat, f):
    """lengths of the short lattice vectors, and the limit"""
    R = f * abs(geom.det3(lat)) ** (1 / 3.)
    return R, _dists(lat, [[0.0, 0.0, 0.0]], ['x'], R + 0.1).get(('x', 'x'), [])


def _specsame(a, b):
    # up to a length next to which there is none
    r = a[0]
    while any(abs(x - r) < 0.02 for x in a[1]):
        r -= 0.041
    u, v = [x for x in a[1] if x < r], [x for x in b[1] if x < r]
    return len(u) == len(v) and all(abs(x - y) < 5e-3 for x, y in zip(u, v))


def supcell(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    sym = [LABEL[l] for l in lab]
    fn = cfg.get('input', 'in.yaml')
    s = [1 + ctx.choose('s%d' % k, 2) for k in range(3)]
    args = ['supcell', fn, '-s'] + [str(v) for v in s]
    out = cfg.get('out') or 'stdio'
    if cfg.get('out'):
        args += ['--outmode', out]
    with ctx.tmpdir():
        write_input(fn, lat, pos, sym)
        before = snapshot()
        text = ctx.cli('runatilib', *args)
        L, P, S = _single(ctx, text, before, fn, '_SUPC', out, 'supcell')
    for a in range(3):
        ctx.check(all(abs(float(L[a][b]) - s[a] * lat[a][b]) < 1e-4 for b in range(3)), 'supcell: the lattice is scaled')
    n = s[0] * s[1] * s[2]
    ctx.check(len(P) == n * len(pos), 'supcell: one copy of the cell per repetition')
    used = []
    for p, e in zip(P, S):
        u = [float(p[k]) * s[k] for k in range(3)]
        hit = [i for i in range(len(pos)) if geom.same_site(u, pos[i], 1e-3)]
        ctx.check(len(hit) == 1 and sym[hit[0]] == e, 'supcell: every atom is an image of an atom')
        ctx.check(not any(geom.same_site([float(v) for v in p], q, 1e-3) for q in used), 'supcell: no two atoms coincide')
        used.append([float(v) for v in p])


def _single(ctx, text, before, fn, tag, out, what):
    """the one structure a command prints or writes"""
    now = snapshot()
    ctx.check(all(p in now and now[p] == v for p, v in before.items()), '%s: other files stay' % what)
    files = sorted(p for p in now if p not in before)
    if out == 'stdio':
        ctx.check(not files, '%s: nothing is written' % what)
        i = text.find('PROCESSING')
        if i >= 0:
            j = text.find('\n', i)
            text = text[:i] + text[j + 1:]
        com, sc, L, ele, mode, X = _parse(ctx, text, what)
        ctx.check(mode == 'd', '%s: direct coordinates' % what)
        return [[v * sc for v in r] for r in L], X, ele
    want = './' + os.path.basename(fn).split('.')[0] + tag + '.' + out
    ctx.check(files == [want], '%s: one file, named after the input' % what)
    return read_output(ctx, files[0], what)


def pcell(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    sym = [LABEL[l] for l in lab]
    fn = cfg.get('input', 'in.yaml')
    args = ['pcell', fn]
    out = cfg.get('out') or 'stdio'
    if cfg.get('out'):
        args += ['--outmode', out]
    with ctx.tmpdir():
        write_input(fn, lat, pos, sym)
        before = snapshot()
        text = ctx.cli('runatilib', *args)
        L, P, S = _single(ctx, text, before, fn, '_PRIMC', out, 'pcell')
    R = radius(lat, pos)
    ctx.check(len(S) * ntrans(pos, sym) == len(sym), 'pcell: the smallest number of atoms')
    ctx.check(same_invariant(invariant(lat, pos, sym, R), invariant([[float(v) for v in r] for r in L],
                                                                    [[float(v) for v in p] for p in P], S, R)),
              'pcell: the same crystal')


def atclear(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    sym = [LABEL[l] for l in lab]
    fn = cfg.get('input', 'in.vasp')
    cen, ele = LABEL[cfg['cen']], LABEL[cfg['ele']]
    r = ctx.real('r', 0.3, cfg.get('rmax', 6))
    ds = []
    for i in range(len(pos)):
        best = None
        if sym[i] == ele:
            for j in range(len(pos)):
                if sym[j] != cen:
                    continue
                for a in (-1, 0, 1):
                    for b in (-1, 0, 1):
                        for c in (-1, 0, 1):
                            d = [pos[i][k] - pos[j][k] + (a, b, c)[k] for k in range(3)]
                            x = [sum(d[k] * lat[k][q] for k in range(3)) for q in range(3)]
                            v = math.sqrt(sum(t * t for t in x))
                            best = v if best is None or v < best else best
        ds.append(best)
    for d in sorted(set(round(d, 6) for d in ds if d is not None)):
        ctx.assume(ctx.Not(ctx.close(r, d, 2e-3)))
    keep = [i for i in range(len(pos)) if ds[i] is None or ctx.truth(r < ds[i])]
    if not keep:
        return
    args = ['atclear', fn, '-c', cen, '-r', '%s' % r, '-e', ele]
    refined = cfg.get('refined')
    if cfg.get('std'):
        ctx.hooks['idealize'] = True
    if refined is False:
        args += ['--no-refined']
    with ctx.tmpdir():
        write_input(fn, lat, pos, sym)
        before = snapshot()
        ctx.cli('runatilib', *args)
        L, P, S = _single(ctx, '', before, fn, '_ACLR', 'vasp', 'atclear')
    kp, ks = [pos[i] for i in keep], [sym[i] for i in keep]
    ctx.observe('left', len(S))
    if refined is False:
        ctx.check(all(abs(float(a) - float(b)) < 1e-4 for x, y in zip(L, lat) for a, b in zip(x, y)), 'atclear: the lattice')
        ctx.check(len(S) == len(ks), 'atclear: exactly the atoms outside the radius are left')
        left = list(range(len(ks)))
        for p, s in zip(P, S):
            hit = [i for i in left if geom.same_site([float(v) for v in p], kp[i], 3e-4)]
            ctx.check(len(hit) == 1 and ks[hit[0]] == s, 'atclear: the remaining atoms keep element and position')
            left.remove(hit[0])
    else:
        R = radius(lat, pos)
        if cfg.get('std'):
            ctx.check(all(abs(float(v)) < 1e-3 for v in (L[0][1], L[0][2], L[1][2])),
                      'atclear: the result is refined unless told otherwise')
        ctx.check(len(S) * ntrans(kp, ks) == len(ks), 'atclear: the refined result is primitive')
        ctx.check(same_invariant(invariant(lat, kp, ks, R), invariant([[float(v) for v in x] for x in L],
                                                                      [[float(v) for v in p] for p in P], S, R)),
                  'atclear: exactly the atoms outside the radius are left')


DIRS = [[1.0, 0.0, 0.0], [0.0, -2.0, 0.0], [0.6, 0.0, 0.8], [-1.0, 2.0, -2.0], [0.3, -0.2, 0.7]]


def perturb(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    sym = [LABEL[l] for l in lab]
    fn = cfg.get('input', 'in.vasp')
    r = cfg['r']

    class Fixed(api.FakeRandom):
        def _normals(self, size):
            v = DIRS[self.ctx.choose(self._name('dir'), len(DIRS))]
            if size in (3, (3,), [3]):
                return self.ctx.np.array(v)
            return api.FakeRandom._normals(self, size)
    with ctx.tmpdir(), ctx.random(cls=Fixed):
        write_input(fn, lat, pos, sym)
        before = snapshot()
        ctx.cli('runatilib', 'perturb', fn, *([] if cfg.get('default') else ['-r', str(r)]))
        L, P, S = _single(ctx, '', before, fn, '_PURB', 'vasp', 'perturb')
    ctx.check(all(abs(float(a) - float(b)) < 1e-4 for x, y in zip(L, lat) for a, b in zip(x, y)), 'perturb: the lattice')
    ctx.check(sorted(S) == sorted(sym), 'perturb: the elements')
    left = list(range(len(sym)))
    for p, s in zip(P, S):
        best = []
        for i in left:
            if sym[i] != s:
                continue
            d = geom.wrapdiff([float(v) for v in p], pos[i])
            x = [sum(d[k] * lat[k][q] for k in range(3)) for q in range(3)]
            if abs(math.sqrt(sum(t * t for t in x)) - r) < 1e-3:
                best.append(i)
        ctx.check(bool(best), 'perturb: every atom is moved by exactly the requested distance')
        left.remove(best[0])


def jobs(prop, tier):
    T = tier == 'thorough'
    J = []
    o = lambda app, cell, **k: J.append(('occupation', dict(app=app, cell=cell, **k)))
    # one species, all levels
    for inp in ('in.yaml', 'POSCAR'):
        o('ocumaker', 'fcc4', input=inp, refined=False)
        o('ocumaker', 'fcc4', input=inp, sp=[None])
    o('ocumaker', 'fcc4', noele=1, refined=False, out='yaml')
    o('ocumaker', 'fcc4', n='sym', refined=False, out='yaml', sp=['G'])
    o('ocumaker', 'sc4', n='sym', out='vasp', refined=True)
    o('ocumaker', 'zb8', refined=False, trs=['Ag'], repeats=0)
    o('ocumaker', 'zb8', refined=False, trs=['Ag', 'Cu'], repeats=0, out='yaml')
    o('ocumaker', 'zb8', ele='B', refined=False, trs=['O'], sp=['C'], repeats=0)
    o('ocumaker', 'perov5', ele='C', refined=False, trs=['Ti', 'Ag'], repeats=0)
    o('ocumaker', 'rutile6', ele='B', trs=['O'], sp=['G'], repeats=0)
    o('ocumaker', 'sc8', refined=False, n=3, trs=['Ag'], repeats=0)
    o('ocumaker', 'mono4', ele='A', n=2, runs=2, refined=False)
    o('ocumaker', 'fcc4', n=1, runs=3, refined=False, comment='abc')
    o('ocumaker', 'fcc4', n=2, runs=2, comment='abc', out='yaml', repeats=3)
    o('ocumaker', 'p1_4', refined=False, input='in.vasp', n=2, repeats=3)
    o('ocumaker', 'hcp4', refined=False, out='yaml', repeats=1)
    o('ocumaker', 'messy5', refined=False, out='yaml', repeats=1)
    for ref in (None, True, False):
        for c in ('turn4', 'turnp4'):
            k = {} if ref is False else {'std': 1}
            o('ocumaker', c, n=2, refined=ref, repeats=0, **k)
            o('ocubiter', c, n=1, refined=ref, repeats=0, out='yaml', **k)
            o('ocutenter', c, n=[1, 1], refined=ref, repeats=0, **k)
            o('ocumakert', c, refined=ref, repeats=0, out='yaml', **k)
    # one species, one number
    o('ocubiter', 'fcc4', refined=False)
    o('ocubiter', 'fcc4', noele=1)
    o('ocubiter', 'fcc4', n='sym', mpr=False, refined=False)
    o('ocubiter', 'fcc4', n='sym', mpr=True, refined=False, out='yaml')
    o('ocubiter', 'sc8', n=2, refined=False, repeats=0)
    o('ocubiter', 'sc8', n=2, mpr=False, refined=False, trs=['Ag'], repeats=0)
    o('ocubiter', 'sc8', n=4, mpr=False, refined=False, trs=['Ag', 'Cu'], repeats=0, out='yaml')
    o('ocubiter', 'sc8', n=4, mpr=True, refined=False, trs=['Cu', 'Ag'], repeats=0, out='yaml')
    o('ocubiter', 'zb8', n=2, mpr=False, refined=False, trs=['O', 'Ag', 'Cu'], repeats=0)
    o('ocubiter', 'zb8', n=2, mpr=True, sp=[None], trs=['Cu'], repeats=0)
    o('ocubiter', 'rutile6', ele='B', n=2, mpr=False, trs=['O'], sp=['G'], repeats=0)
    o('ocubiter', 'tricl4', n=2, runs=2, mpr=False, refined=False, comment='x')
    o('ocubiter', 'p1_4', n=1, mpr=False, refined=False, runs=2, repeats=3)
    o('ocubiter', 'bcc4', n=2, mpr=True, refined=False)
    o('ocubiter', 'zb8', n=2, mpr=False, refined=False, trs=['Ag', 'Ag'], repeats=0)
    o('ocumaker', 'zb8', n=2, refined=False, trs=['Ag', 'Ag'], repeats=0)
    # two species
    o('ocutenter', 'sc4', n=[2, 2], refined=False)
    o('ocutenter', 'sc4', n=[2, 2], mpr=True, refined=False, out='yaml')
    o('ocutenter', 'sc8', n=[4, 4], mpr=True, refined=False, repeats=0)
    o('ocutenter', 'zb8', n=[2, 2], mpr=True, refined=False, trs=['Zn'], repeats=0)
    o('ocutenter', 'sc4', n=[1, 2], mpr=False, trs=['Zn', 'Zn'], refined=False)
    o('ocumakert', 'sc4', trs=['Zn', 'Zn'], refined=False, repeats=0)
    o('ocutenter', 'fcc4', n=[1, 1], refined=False)
    o('ocutenter', 'fcc4', n=[1, 2], mpr=False, refined=False, out='yaml')
    o('ocutenter', 'sc4', n=[1, 1], mpr=False, trs=['Ag', 'Zn'], refined=False)
    o('ocutenter', 'sc4', n=[2, 2], mpr=False, refined=False, trs=['Zn'])
    o('ocutenter', 'sc4', n=[2, 1], mpr=True, out='yaml')
    o('ocutenter', 'zb8', n=[1, 1], refined=False, runs=2, comment='run', repeats=3)
    o('ocutenter', 'zb8', n=[2, 1], ele='B', mpr=False, refined=False, sp=['G', 'C'], repeats=0)
    o('ocutenter', 'fcc4', n=[1, 1], zoom=1.5, trs=['Cu'], refined=False, mpr=False)
    o('ocutenter', 'fcc4', n=[1, 1], filezoom=2, trs=['Cu'], refined=False, mpr=False, out='yaml')
    o('ocutenter', 'fcc4', n=[1, 1], nozoom=1, refined=False, noele=1)
    o('ocutenter', 'perov5', n=[1, 1], ele='C', mpr=False, refined=False, trs=['Ti', 'Ag', 'O'])
    o('ocumakert', 'fcc4', refined=False)
    o('ocumakert', 'fcc4', out='yaml')
    o('ocumakert', 'fcc4', refined=False, trs=['Ag', 'Zn'], out='yaml', repeats=0)
    o('ocumakert', 'sc4', refined=False, trs=['Zn'], sp=['Ag', 'Zn'], repeats=0)
    o('ocumakert', 'zb8', ele='B', refined=False, repeats=0, trs=['Cu'], thr=[2.0])
    o('ocumakert', 'perov5', ele='C', refined=False, runs=2, comment='q', repeats=2)
    o('ocumakert', 'fcc4', filezoom=1.5, refined=False, trs=['Cu'], repeats=0)
    o('ocumakert', 'fcc4', zoom=2, refined=False, noele=1, trs=['Cu'], repeats=0)
    s = lambda cell, n, **k: J.append(('suplat', dict(cell=cell, n=n, **k)))
    for c in ('sc1', 'zbp', 'hcp2', 'tri1', 'perov5'):
        for n in (1, 2, 3):
            s(c, n, repeats=1)
    s('sc1', 3, repeats=1, out='vasp', comment='abc', runs=2)
    s('sc1', 4, repeats=1)
    s('sc1', 2, repeats=2, runs=2)
    s('graphene2', 3, ld=1, input='POSCAR')
    s('tri1', 4, ld=1, out='vasp', repeats=1)
    s('sc1', 4, ld=1, repeats=2)
    s('cscl', 3, repeats=1, input='a.vasp')
    for c in ('sc1', 'graphene2', 'tri1', 'perov5', 'hcp2'):
        for n in (1, 2):
            s(c, n, ld=1, repeats=1)
    for c in ('zbp', 'hcp2', 'mono4', 'messy5'):
        for out in (None, 'stdio', 'vasp', 'yaml'):
            J.append(('supcell', {'cell': c, 'out': out, 'input': 'POSCAR_1' if c == 'zbp' else 'in.yaml'}))
    for c in ('fcc4', 'sc8', 'zb8', 'zb4', 'hcp4', 'bcc4', 'rut12', 'p1_8', 'mono4', 'perov10'):
        for out in (None, 'stdio', 'vasp', 'yaml'):
            J.append(('pcell', {'cell': c, 'out': out, 'input': 'x.y.vasp' if c == 'sc8' else 'in.yaml'}))
    for c, a, b in (('zb8', 'A', 'B'), ('cscl', 'B', 'A'), ('perov5', 'A', 'C'), ('perov5', 'C', 'B'), ('rutile6', 'A', 'B'),
                    ('rutile6', 'B', 'A'), ('ortho3', 'B', 'A'), ('mono4', 'B', 'A'), ('p1_4', 'B', 'A'), ('messy5', 'B', 'A')):
        for ref in (False, None):
            J.append(('atclear', {'cell': c, 'cen': a, 'ele': b, 'refined': ref, 'input': 'in.yaml' if a == 'A' else 'in.vasp'}))
    for a, b in ('AB', 'BA'):
        for ref in (False, None):
            J.append(('atclear', {'cell': 'turnp4', 'cen': a, 'ele': b, 'refined': ref, 'std': ref is None}))
    for c in ('sc1', 'cscl', 'hcp2', 'mono4'):
        for r in (0, 0.25, 1.0):
            if c not in ('mono4', 'sc1') or r < 1:
                J.append(('perturb', {'cell': c, 'r': r}))
    J.append(('perturb', {'cell': 'cscl', 'r': 0, 'default': 1}))
    if T:
        o('ocumaker', 'sc8', refined=False, n=4, repeats=1)
        o('ocumaker', 'zb16', refined=False, n=3, repeats=0, trs=['Ag', 'O'])
        o('ocubiter', 'zb16', n=4, mpr=False, refined=False, trs=['Ag', 'Cu'], repeats=0)
        o('ocubiter', 'cscl16', n=3, mpr=False, refined=False, trs=['Ag', 'Cu'], repeats=0)
        o('ocutenter', 'zb16', n=[2, 2], mpr=False, refined=False, trs=['Ag', 'Zn'], repeats=0)
        o('ocumakert', 'sc8', refined=False, repeats=0)
        o('ocumaker', 'graph8', refined=False, repeats=0)
        o('ocumaker', 'rut12', ele='A', refined=False, trs=['Cu', 'Ag'], repeats=2)
        for c in ('sc1', 'zbp', 'hcp2', 'tri1', 'rutile6'):
            for n in (4, 5, 6):
                s(c, n, repeats=0)
    return J
