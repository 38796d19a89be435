"""File formats: POSCAR (C11), YAML and the choice of the format (C12)."""
from __future__ import division
import os

from engine import geom

LAT = [[4.0, 0.0, 0.0], [0.5, 5.0, 0.0], [0.25, 0.75, 6.0]]
POS = [[.11, .22, .33], [.61, .52, .73], [.36, .84, .15], [.91, .13, .94]]
# more sites, far apart from each other and from the first four
POS += [[((7 * k) % 23 + .3) / 23, ((5 * k) % 29 + .6) / 29, ((11 * k) % 31 + .2) / 31] for k in range(1, 24)]
# the elements the library knows, by atomic number
TABLE = ('G H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr '
         'Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba').split()
SYM = dict(enumerate(TABLE))
SYM.update(zip(range(72, 89), 'Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra'.split()))
PAL = [8, 29, 0, 5]
ALL = sorted(SYM)


def _lattice(ctx, cfg):
    lat = [list(r) for r in cfg.get('latval', LAT)]
    for a, b in cfg.get('lat', []):
        w = cfg.get('wide', 1)
        lat[a][b] = ctx.real('L%d%d' % (a, b), *((2.0, 14.0 * w) if a == b else (-3.0 * w, 3.0 * w)))
    return lat


def _positions(ctx, cfg, n):
    P = [list(p) for p in POS[:n]]
    for i, a in cfg.get('free', []):
        P[i][a] = ctx.real('x%d_%d' % (i, a), *cfg.get('range', [0.0, 0.99]))
    return P


def _numbers(ctx, cfg, n):
    if cfg.get('num'):
        return list(cfg['num'])
    if cfg.get('every'):
        # any element of the library beside fixed ones
        return ([ALL[ctx.choose('el', len(ALL))]] + list(cfg['every']))[:n]
    return [PAL[ctx.choose('el%d' % i, cfg.get('pal', 3))] for i in range(n)]


def _formula(num):
    """elements by atomic number with their counts, vacancies left out"""
    out = ''
    for z in sorted(set(num)):
        if z:
            out += '%s%d' % (SYM[z], num.count(z))
    return out


def _match(ctx, got, P, num, tol, what):
    """got: [(position, Z)] are exactly the sites (P, num), in any order"""
    ctx.check(len(got) == len(P), '%s: number of atoms' % what)
    left = list(range(len(P)))
    for p, z in got:
        hit = [i for i in left if ctx.truth(ctx.closevecmod(p, P[i], tol))]
        ctx.check(bool(hit), '%s: every atom is at the position of an atom of the crystal' % what)
        ctx.check(z == num[hit[0]], '%s: every atom keeps its element' % what)
        left.remove(hit[0])


def _cellmatch(ctx, c, lat, P, num, ltol, ptol, what):
    L = c.lattice.tolist()
    ctx.check(ctx.And(*[ctx.closevec(L[a], lat[a], ltol) for a in range(3)]), '%s: the lattice' % what)
    _match(ctx, list(zip(c.positions.tolist(), [int(x) for x in c.numbers.tolist()])), P, num, ptol, what)


def _parse(ctx, text, what):
    try:
        return _parse1(ctx, text, what)
    except (ValueError, TypeError, IndexError, KeyError) as e:
        ctx.check(False, '%s: readable text (%s)' % (what, e))


def _parse1(ctx, text, what):
    """independent reading of POSCAR text -> comment, scale, lattice, symbols, counts, mode, coordinates"""
    lines = text.split('\n')
    ctx.check(len(lines) > 8, '%s: a complete file' % what)
    scale = ctx.tofloat(lines[1].split()[0])
    lat = [[ctx.tofloat(w) for w in lines[k].split()] for k in (2, 3, 4)]
    ctx.check(all(len(r) == 3 for r in lat), '%s: three lattice vectors' % what)
    sy = lines[5].split()
    cn = [int(w) for w in lines[6].split()]
    mode = lines[7].strip().lower()[:1]
    at = [l.split() for l in lines[8:] if l.strip()]
    ctx.check(len(sy) == len(cn) and sum(cn) == len(at), '%s: symbols, counts and atom lines agree' % what)
    ctx.check(len(set(sy)) == len(sy), '%s: each element is listed once' % what)
    pos = [[ctx.tofloat(w) for w in r[:3]] for r in at]
    ele = []
    for s, c in zip(sy, cn):
        ele += [s] * c
    for r, e in zip(at, ele):
        if len(r) > 3:
            ctx.check(r[3] == e, '%s: the label of an atom line is the element of its block' % what)
    return lines[0], scale, lat, ele, mode, pos


def _checktext(ctx, text, lat, P, num, direct, what, scale=1):
    """the text denotes the crystal"""
    com, sc, L, ele, mode, pos = _parse(ctx, text, what)
    ctx.check(com.strip() == _formula(num), '%s: the first line is the formula' % what)
    ctx.check(ctx.close(sc, scale, 1e-9), '%s: the scale factor' % what)
    ctx.check(ctx.And(*[ctx.closevec(L[a], lat[a], 1e-6) for a in range(3)]), '%s: the lattice' % what)
    ctx.check((mode == 'd') == direct and mode in 'dck', '%s: the coordinate mode' % what)
    keep = [i for i in range(len(num)) if num[i]]
    P = [P[i] for i in keep]
    z = [SYM[num[i]] for i in keep]
    if direct:
        return _match(ctx, list(zip(pos, ele)), P, z, 2e-6, what)
    C = [[sum(p[k] * lat[k][b] for k in range(3)) for b in range(3)] for p in P]
    left = list(range(len(C)))
    ctx.check(len(pos) == len(C), '%s: number of atoms' % what)
    for q, e in zip(pos, ele):
        hit = [i for i in left if ctx.truth(ctx.closevec(q, C[i], 2e-6))]
        ctx.check(bool(hit), '%s: cartesian coordinates of the atoms' % what)
        ctx.check(e == z[hit[0]], '%s: every atom keeps its element' % what)
        left.remove(hit[0])


def _slurp(fn):
    with open(fn) as f:
        return f.read()


def _warm(ctx, cfg, lat, num, gio, writer=None):
    """other crystals and other formats were written before"""
    other = ctx.GeneralCell([[2 * x for x in r] for r in lat], [[.3, .4, .5], [.7, .1, .2], [.05, .9, .6]], [27, 1, 27])
    if gio is not None:
        k = ctx.choose('warm', 3)
        IO = ctx.mod('ababe.io.io').GeneralIO
        if k == 0:
            gio.write_file('old.yaml')
            IO.from_file('old.yaml')
        elif k == 1:
            if any(z for z in num):
                gio.write_file('old.vasp')
                IO.from_file('old.vasp')
        else:
            IO(other).write_file('a.vasp')
            IO(other).write_file('a.yaml')
            IO.from_file('a.vasp')
            IO.from_file('a.yaml')
    elif writer == 'VaspOutput':
        ctx.mod('ababe.io.vasp').VaspOutput(other).get_string()
    elif writer == 'VaspPOSCAR':
        ctx.mod('ababe.stru.io').VaspPOSCAR(other).get_string()
    elif writer == 'io':
        ctx.mod('ababe.io.yaml').YamlOutput(other).get_string()
    else:
        ctx.mod('ababe.stru.io').YamlOutput(other).get_string()


def poscar_write(ctx, cfg):
    """write, read the text independently, read it back"""
    n = cfg['n']
    lat, P, num = _lattice(ctx, cfg), _positions(ctx, cfg, n), _numbers(ctx, cfg, n)
    if not any(num):
        return
    cell = ctx.GeneralCell(lat, P, num)
    direct = not cfg.get('cart')
    with ctx.tmpdir():
        w = cfg.get('writer', 'VaspOutput')
        via = cfg.get('via', 'string')
        if via == 'general':
            gio = ctx.mod('ababe.io.io').GeneralIO(cell)
            if cfg.get('warm'):
                _warm(ctx, cfg, lat, num, gio)
            gio.write_file('a.vasp')
            text = _slurp('a.vasp')
        else:
            if w == 'VaspOutput':
                o = ctx.mod('ababe.io.vasp').VaspOutput(cell)
            else:
                o = ctx.mod('ababe.stru.io').VaspPOSCAR(cell)
            if cfg.get('warm'):
                _warm(ctx, cfg, lat, num, None, w)
                o.get_string(direct=not direct)
                if ctx.choose('twice', 2):
                    o.get_string(direct=direct)
            if via == 'string':
                text = o.get_string(direct=direct) if not direct else o.get_string()
            elif via == 'str':
                text = str(o)
            else:
                (o.write_file if w == 'VaspOutput' else o.write)('POSCAR')
                text = _slurp('POSCAR')
        _checktext(ctx, text, lat, P, num, direct, 'written POSCAR')
        keep = [i for i in range(n) if num[i]]
        VI = ctx.mod('ababe.io.vasp').VaspInput
        if via in ('string', 'str'):
            l, p, z = VI.from_string(text)
            got = ctx.mod('ababe.stru.scaffold').GeneralCell(l, p, z)
        elif via == 'general':
            got = ctx.mod('ababe.io.io').GeneralIO.from_file('a.vasp')
        else:
            got = VI('POSCAR').get_cell()
        _cellmatch(ctx, got, lat, [P[i] for i in keep], [num[i] for i in keep], 6e-5,
                   6e-5 if direct else 2e-4, 'read back')
    # the crystal itself is untouched, and has the formula as comment
    _cellmatch(ctx, cell, lat, P, num, 1e-9, 1e-9, 'the crystal after writing')
    ctx.check(cell.comment == _formula(num), 'the comment of the crystal is its formula')
    ctx.observe('n', len(got.numbers))


TEXTS = {
    'plain': ('Zn O', [2, 1], [30, 30, 8]),
    'sorted': ('O Zn', [1, 2], [8, 30, 30]),
    'twice': ('O Zn O', [1, 1, 1], [8, 30, 8]),
    'one': ('Cu', [3], [29, 29, 29]),
    'three': ('Co C O', [1, 1, 1], [27, 6, 8]),
    'long': ('Cu O C Cl Ca Cd', [12, 10, 1, 2, 1, 1], [29] * 12 + [8] * 10 + [6, 17, 17, 20, 48]),
    'four': ('B  Cu', [1, 3], [5, 29, 29, 29]),
}


def poscar_read(ctx, cfg):
    """reading hand-written text"""
    sy, cn, num = TEXTS.get(cfg.get('text', 'plain')) or (None, None, None)
    if sy is None:
        num = _numbers(ctx, cfg, 3)
        if 0 in num:
            return
        sy, cn = ' '.join(SYM[z] for z in num), [1] * 3
    n = len(num)
    lat, P = _lattice(ctx, cfg), _positions(ctx, cfg, n)
    scale = 1
    sc = cfg.get('scale')
    if sc == 'sym':
        ctx.hooks['keep_sarr'] = True
        scale = ctx.real('scale', 0.25, 4)
    elif sc == 'vol':
        # the volume of the scaled cell, times -1
        k = ctx.choose('vol', 5)
        scale = [-240.0, -960.0, -15.0, -100.0, -0.75][k]
    elif sc:
        scale = sc
    cart = cfg.get('mode', 'direct').strip()[0] in 'cCkK'
    if cart:
        # cartesian coordinates, in units of the scale factor
        X = [[sum(p[k] * lat[k][b] for k in range(3)) for b in range(3)] for p in P]
    else:
        X = P
    F = '%s %s %s'
    lines = ['any comment 3 7', '%s' % scale]
    lines += ['  ' + F % tuple(r) for r in lat]
    lines += ['  ' + sy, '   '.join(str(c) for c in cn), cfg.get('mode', 'direct')]
    k = 0
    for q in X:
        lines.append(F % tuple(q) + cfg.get('tail', ''))
        if cfg.get('blank') and k == 0:
            lines.append('   ')
        k += 1
    text = '\n'.join(lines) + cfg.get('end', '\n')
    VI = ctx.mod('ababe.io.vasp').VaspInput
    if cfg.get('via') == 'file':
        with ctx.tmpdir():
            with open('POSCAR_1', 'w') as f:
                f.write(text)
            c = ctx.mod('ababe.io.io').GeneralIO.from_file('POSCAR_1')
    else:
        l, p, z = VI.from_string(text)
        ctx.check([int(x) for x in z.tolist()] == num, 'reading: the elements in file order')
        ctx.check(len(p) == n and ctx.truth(ctx.And(*[
            ctx.closevec(p.tolist()[i], P[i], 6e-5 if not cart else 2e-4) for i in range(n)])),
            'reading: the positions in file order')
        c = ctx.mod('ababe.stru.scaffold').GeneralCell(l, p, z)
    if sc == 'vol':
        f = (-scale / abs(geom.det3(lat))) ** (1 / 3.)
    else:
        f = scale
    want = [[x * f for x in r] for r in lat]
    _cellmatch(ctx, c, want, P, num, 3e-4, 6e-5 if not cart else 2e-4, 'reading')
    ctx.observe('num', [int(x) for x in c.numbers.tolist()])


# ---------------------------------------------------------------- C12
def _checkyaml(ctx, text, lat, P, num, what, scale=1):
    try:
        d = ctx.yaml_load(text)
        z = d['zoom']
        L = d['lattice']
        d['positions'], d['numbers'], d['comment']
    except (ValueError, TypeError, IndexError, KeyError) as e:
        ctx.check(False, '%s: readable text (%s)' % (what, e))
    ctx.check(ctx.And(*[ctx.closevec([z * x for x in L[a]], [scale * x for x in lat[a]], 2e-6) for a in range(3)]),
              '%s: the lattice' % what)
    _match(ctx, list(zip(d['positions'], d['numbers'])), P, num, 2e-6, what)
    ctx.check(d['comment'] == _formula(num), '%s: the comment is the formula' % what)


def yaml_write(ctx, cfg):
    n = cfg['n']
    lat, P, num = _lattice(ctx, cfg), _positions(ctx, cfg, n), _numbers(ctx, cfg, n)
    cell = ctx.GeneralCell(lat, P, num)
    scale = 1
    with ctx.tmpdir():
        w, via = cfg.get('writer', 'io'), cfg.get('via', 'string')
        if via == 'general':
            gio = ctx.mod('ababe.io.io').GeneralIO(cell)
            if cfg.get('warm'):
                _warm(ctx, cfg, lat, num, gio)
            gio.write_file('a.yaml')
            text = _slurp('a.yaml')
        else:
            if cfg.get('warm'):
                _warm(ctx, cfg, lat, num, None, w)
            if w == 'io':
                o = ctx.mod('ababe.io.yaml').YamlOutput(cell)
            else:
                kw = {}
                if cfg.get('zoom'):
                    scale = kw['zoom'] = ctx.real('zoom', 0.25, 4)
                o = ctx.mod('ababe.stru.io').YamlOutput(cell, **kw)
            if cfg.get('warm'):
                o.get_string()
            if via == 'string':
                text = o.get_string()
            elif via == 'str':
                text = str(o)
            else:
                (o.write_file if w == 'io' else o.write)('a.yaml')
                text = _slurp('a.yaml')
        _checkyaml(ctx, text, lat, P, num, 'written YAML', scale)
        YI = ctx.mod('ababe.io.yaml').YamlInput
        if via in ('string', 'str'):
            l, p, z = YI.from_string(text)
            got = ctx.mod('ababe.stru.scaffold').GeneralCell(l, p, z)
        elif via == 'general':
            got = ctx.mod('ababe.io.io').GeneralIO.from_file('a.yaml')
        else:
            got = YI('a.yaml').get_cell()
        _cellmatch(ctx, got, [[scale * x for x in r] for r in lat], P, num, 6e-5, 6e-5, 'read back')
    _cellmatch(ctx, cell, lat, P, num, 1e-9, 1e-9, 'the crystal after writing')
    ctx.observe('n', len(got.numbers))


def yaml_read(ctx, cfg):
    """a document with a zoom factor"""
    n = cfg['n']
    lat, P, num = _lattice(ctx, cfg), _positions(ctx, cfg, n), _numbers(ctx, cfg, n)
    zoom = ctx.real('zoom', 0.25, 4) if cfg.get('zoom') == 'sym' else cfg.get('zoom', 1)
    text = ctx.yaml_text({'comment': 'x', 'lattice': lat, 'positions': P, 'numbers': num, 'zoom': zoom})
    with ctx.tmpdir():
        with open('in.yaml', 'w') as f:
            f.write(text)
        if cfg.get('via') == 'general':
            got = ctx.mod('ababe.io.io').GeneralIO.from_file('in.yaml')
        else:
            got = ctx.mod('ababe.io.yaml').YamlInput('in.yaml').get_cell()
    _cellmatch(ctx, got, [[x * zoom for x in r] for r in lat], P, num, 6e-5, 6e-5, 'reading')
    ctx.observe('num', [int(x) for x in got.numbers.tolist()])


def dispatch(ctx, cfg):
    """which format a name or an explicit format selects, writing and reading"""
    n = 3
    lat, P, num = _lattice(ctx, cfg), _positions(ctx, cfg, n), _numbers(ctx, cfg, n)
    if not any(num):
        return
    cell = ctx.GeneralCell(lat, P, num)
    IO = ctx.mod('ababe.io.io').GeneralIO
    name, fmt, want = cfg.get('name'), cfg.get('fmt'), cfg['want']
    kw = {} if fmt is None else {'fmt': fmt}
    with ctx.tmpdir():
        if name and os.path.dirname(name):
            os.makedirs(os.path.dirname(name))
        with ctx.capture() as cap:
            if name:
                IO(cell).write_file(name, **kw)
            else:
                IO(cell).write_file(**kw)
        if name:
            ctx.check(os.path.exists(name), 'the named file is written')
            text = _slurp(name)
        else:
            text = cap.text()
            ctx.check(os.listdir('.') == [], 'without a name nothing is written')
        if want == 'yaml':
            _checkyaml(ctx, text, lat, P, num, 'written YAML')
            keep = list(range(n))
        else:
            _checktext(ctx, text, lat, P, num, True, 'written POSCAR')
            keep = [i for i in range(n) if num[i]]
        if name:
            got = IO.from_file(name, **kw)
            _cellmatch(ctx, got, lat, [P[i] for i in keep], [num[i] for i in keep], 6e-5, 6e-5, 'read back')
    ctx.observe('want', want)


def jobs(prop, tier):
    T = tier == 'thorough'
    J = []
    if prop == 'C11':
        for w in ('VaspOutput', 'VaspPOSCAR'):
            for cart in (0, 1):
                J.append(('poscar_write', {'n': 3, 'writer': w, 'cart': cart, 'free': [[0, 0]]}))
                J.append(('poscar_write', {'n': 3, 'writer': w, 'cart': cart, 'free': [[2, 1]], 'pal': 4}))
                J.append(('poscar_write', {'n': 2, 'writer': w, 'cart': cart, 'free': [[0, 2], [1, 0]], 'num': [29, 8]}))
                J.append(('poscar_write', {'n': 3, 'writer': w, 'cart': cart, 'free': [[1, 1]], 'range': [-2, 3], 'num': [29, 8, 29]}))
                J.append(('poscar_write', {'n': 4, 'writer': w, 'cart': cart, 'free': [], 'pal': 3}))
            J.append(('poscar_write', {'n': 2, 'writer': w, 'lat': [[0, 0], [1, 0], [2, 1]], 'num': [29, 8]}))
            J.append(('poscar_write', {'n': 2, 'writer': w, 'lat': [[1, 1], [0, 2], [1, 2]], 'num': [8, 0]}))
            J.append(('poscar_write', {'n': 2, 'writer': w, 'lat': [[2, 2], [0, 1], [2, 0]], 'num': [8, 8]}))
            for cart in (0, 1):
                # long vectors: numbers of ten and more characters
                J.append(('poscar_write', {'n': 2, 'writer': w, 'cart': cart, 'num': [29, 8],
                                           'latval': [[1120.5, -100.25, -10.5], [-123.0, 2250.125, 0.5], [-250.5, -1000.75, 1001.0]]}))
                J.append(('poscar_write', {'n': 2, 'writer': w, 'cart': cart, 'num': [29, 8], 'range': [-300, 300], 'free': [[0, 1]]}))
            J.append(('poscar_write', {'n': 2, 'writer': w, 'num': [29, 8], 'wide': 50, 'lat': [[0, 0], [1, 0], [2, 1]]}))
            J.append(('poscar_write', {'n': 3, 'writer': w, 'via': 'file', 'free': [[1, 0]]}))
            J.append(('poscar_write', {'n': 3, 'writer': w, 'via': 'str', 'free': [[1, 2]]}))
        J.append(('poscar_write', {'n': 3, 'via': 'general', 'free': [[0, 1]]}))
        left = [[0.0, 4.0, 0.25], [5.0, 0.5, 0.0], [0.25, 0.75, 6.0]]
        for w in ('VaspOutput', 'VaspPOSCAR'):
            J.append(('poscar_write', {'n': 3, 'writer': w, 'every': [8, 29]}))
            J.append(('poscar_write', {'n': 2, 'writer': w, 'every': [6], 'cart': 1}))
            # blocks of two digits, and many elements in one file
            J.append(('poscar_write', {'n': 13, 'writer': w, 'free': [[6, 1]], 'range': [.51, .53], 'num': [29, 8] * 2 + [29] * 9}))
            J.append(('poscar_write', {'n': 24, 'writer': w, 'cart': 1, 'num': [8] * 11 + [29] * 12 + [5]}))
            J.append(('poscar_write', {'n': 16, 'writer': w, 'num': [56, 1, 6, 7, 9, 11, 12, 14, 16, 17, 19, 20, 72, 88, 35, 34]}))
        J.append(('poscar_write', {'n': 14, 'via': 'general', 'num': [88, 0, 72] + [6] * 10 + [1]}))
        for w in ('VaspOutput', 'VaspPOSCAR'):
            for cart in (0, 1):
                J.append(('poscar_write', {'n': 3, 'writer': w, 'cart': cart, 'free': [[1, 0]], 'num': [29, 8, 29], 'warm': 1}))
                J.append(('poscar_write', {'n': 3, 'writer': w, 'cart': cart, 'free': [[1, 0]], 'num': [29, 8, 0], 'latval': left}))
            J.append(('poscar_write', {'n': 3, 'writer': w, 'via': 'file', 'free': [[1, 0]], 'num': [5, 8, 0], 'warm': 1}))
        J.append(('poscar_write', {'n': 3, 'via': 'general', 'free': [[0, 1]], 'warm': 1}))
        for m in ('direct', 'Cartesian'):
            for sc in ('vol', 'sym', 2.5):
                J.append(('poscar_read', {'free': [[0, 1]] if sc != 'sym' else [], 'mode': m, 'scale': sc, 'latval': left}))
            J.append(('poscar_read', {'free': [[0, 1]], 'mode': m, 'scale': 'vol', 'latval': [[-4.0, 0, 0], [0.5, 5.0, 0], [0.25, .75, 6.0]]}))
        for t in sorted(TEXTS):
            J.append(('poscar_read', {'text': t, 'free': [[0, 0]]}))
            J.append(('poscar_read', {'text': t, 'free': [[1, 1]], 'mode': 'Cartesian'}))
        J.append(('poscar_read', {'text': 'every', 'every': [29, 8]}))
        J.append(('poscar_read', {'text': 'every', 'every': [29, 8], 'mode': 'Cartesian', 'via': 'file'}))
        for m in ('Direct', 'direct', 'D', '  Direct', 'Fractional', 'cartesian', 'Cart', 'C', 'c', 'K', 'k', ' Cartesian'):
            J.append(('poscar_read', {'free': [[1, 2]], 'mode': m, 'range': [-1, 2]}))
            J.append(('poscar_read', {'free': [], 'mode': m, 'scale': 'sym'}))
            J.append(('poscar_read', {'free': [], 'mode': m, 'scale': 'vol'}))
        for m in ('direct', 'Cartesian'):
            J.append(('poscar_read', {'free': [[0, 1]], 'mode': m, 'scale': 2.5}))
            J.append(('poscar_read', {'free': [[0, 1]], 'mode': m, 'scale': 'vol', 'text': 'twice'}))
            J.append(('poscar_read', {'free': [[0, 1]], 'mode': m, 'via': 'file', 'tail': '  Zn'}))
            J.append(('poscar_read', {'free': [[2, 0]], 'mode': m, 'via': 'file', 'tail': ' T T F', 'blank': 1}))
            J.append(('poscar_read', {'free': [[2, 0]], 'mode': m, 'end': ''}))
            J.append(('poscar_read', {'free': [[2, 0]], 'mode': m, 'end': '\n\n  \n'}))
        J.append(('poscar_read', {'lat': [[0, 0], [1, 2]], 'scale': 'sym'}))
        J.append(('poscar_read', {'lat': [[1, 1], [2, 0]], 'scale': 1.5}))
        if T:
            J.append(('poscar_read', {'free': [[0, 0], [1, 1]], 'scale': 'sym'}))
            J.append(('poscar_write', {'n': 4, 'free': [[0, 0], [1, 0]], 'pal': 4}))
            J.append(('poscar_write', {'n': 4, 'cart': 1, 'free': [[0, 0]], 'pal': 4}))
            J.append(('poscar_write', {'n': 3, 'free': [[0, 0], [1, 0], [2, 2]], 'num': [8, 29, 8]}))
    if prop == 'C12':
        for w in ('io', 'stru'):
            for v in ('string', 'str', 'file'):
                J.append(('yaml_write', {'n': 3, 'writer': w, 'via': v, 'free': [[0, 0]]}))
                J.append(('yaml_write', {'n': 3, 'writer': w, 'via': v, 'lat': [[0, 0], [1, 2]], 'free': [[2, 1]], 'range': [-2, 3],
                                         'num': [29, 0, 8]}))
            J.append(('yaml_write', {'n': 4, 'writer': w, 'pal': 4}))
            J.append(('yaml_write', {'n': 2, 'writer': w, 'every': [8]}))
            J.append(('yaml_write', {'n': 13, 'writer': w, 'free': [[6, 1]], 'num': [29, 8, 0] + [29] * 10}))
            J.append(('yaml_write', {'n': 2, 'writer': w, 'lat': [[0, 0], [1, 1], [2, 2], [0, 1]], 'num': [0, 0]}))
        J.append(('yaml_write', {'n': 2, 'writer': 'stru', 'zoom': 1, 'num': [8, 5]}))
        J.append(('yaml_write', {'n': 3, 'writer': 'stru', 'zoom': 1, 'via': 'file', 'free': [[1, 1]]}))
        J.append(('yaml_write', {'n': 3, 'via': 'general', 'free': [[1, 2]]}))
        J.append(('yaml_write', {'n': 3, 'via': 'general', 'free': [[1, 2]], 'warm': 1}))
        for w in ('io', 'stru'):
            J.append(('yaml_write', {'n': 3, 'writer': w, 'free': [[1, 2]], 'num': [8, 29, 0], 'warm': 1}))
            J.append(('yaml_write', {'n': 3, 'writer': w, 'via': 'file', 'free': [[1, 2]], 'num': [8, 29, 0], 'warm': 1}))
            J.append(('yaml_write', {'n': 3, 'writer': w, 'free': [[0, 2]], 'num': [8, 29, 8],
                                     'latval': [[0.0, 4.0, 0.25], [5.0, 0.5, 0.0], [0.25, 0.75, 6.0]]}))
        J.append(('yaml_write', {'n': 2, 'writer': 'stru', 'zoom': 1, 'num': [8, 5], 'warm': 1}))
        for z in ('sym', 1, 2, 0.5):
            for v in ('direct', 'general'):
                J.append(('yaml_read', {'n': 3, 'zoom': z, 'via': v, 'free': [[1, 0]]}))
                J.append(('yaml_read', {'n': 2, 'zoom': z, 'via': v, 'lat': [[0, 0]] if z != 'sym' else [], 'free': [[0, 2], [1, 2]],
                                        'range': [-1, 2], 'num': [29, 0]}))
        for name, want in [('a.yaml', 'yaml'), ('A.YAML', 'yaml'), ('d/x.Yaml', 'yaml'), ('b.vasp', 'vasp'), ('b.VASP', 'vasp'),
                           ('POSCAR', 'vasp'), ('POSCAR_Cu3', 'vasp'), ('d/POSCAR', 'vasp'), ('new_POSCAR.1', 'vasp')]:
            J.append(('dispatch', {'name': name, 'want': want, 'free': [[0, 0]]}))
        for fmt, want in [('yaml', 'yaml'), ('YAML', 'yaml'), ('vasp', 'vasp'), ('VASP', 'vasp'), ('Vasp', 'vasp')]:
            J.append(('dispatch', {'name': 'structure.dat', 'fmt': fmt, 'want': want, 'free': [[0, 0]]}))
            J.append(('dispatch', {'name': 'noext', 'fmt': fmt, 'want': want, 'free': [[2, 1]]}))
            J.append(('dispatch', {'fmt': fmt, 'want': want, 'free': [[1, 1]]}))
        J.append(('dispatch', {'name': 'a.yaml', 'fmt': 'yaml', 'want': 'yaml'}))
        J.append(('dispatch', {'name': 'POSCAR', 'fmt': 'yaml', 'want': 'yaml'}))
        J.append(('dispatch', {'name': 'b.vasp', 'fmt': 'yaml', 'want': 'yaml'}))
        J.append(('dispatch', {'name': 'b.vasp', 'fmt': 'vasp', 'want': 'vasp'}))
        if T:
            J.append(('yaml_write', {'n': 4, 'pal': 4, 'free': [[0, 0], [1, 0]]}))
            J.append(('yaml_write', {'n': 4, 'writer': 'stru', 'zoom': 1, 'pal': 4, 'free': [[0, 0]]}))
    return J
