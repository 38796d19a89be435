"""Distances: restriction (C07), clarifiers (C08), perturbation (C10);
space-group restriction (C22)."""
from __future__ import division
from itertools import product

from harness import cells

LATS = {
    'cub': [[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
    'ort': [[3.0, 0, 0], [0, 5.0, 0], [0, 0, 8.0]],
    'mono': [[4.0, 0, 0], [0, 5.0, 0], [1.0, 0, 6.0]],
    'tric': [[4.0, 0, 0], [0.5, 5.0, 0], [0.25, 0.75, 6.0]],
    'hex': [[3.0, 0, 0], [-1.5, 2.598, 0], [0, 0, 5.0]],
    'flat': [[8.0, 0, 0], [0, 8.0, 0], [0, 0, 2.0]],
}
IMG = list(product((-1, 0, 1), repeat=3))


def _place(ctx, pos, free, lo=0.0, hi=0.999, den=None):
    P = [[float(x) for x in p] for p in pos]
    for i, a in free:
        P[i][a] = ctx.dyadic('x%d_%d' % (i, a), 0, 1 - 1 / den, den) if den else ctx.real('x%d_%d' % (i, a), lo, hi)
    return P


def _d2(p, q, t, lat):
    v = [p[a] - q[a] + t[a] for a in range(3)]
    c = [sum(v[k] * lat[k][b] for k in range(3)) for b in range(3)]
    return c[0] * c[0] + c[1] * c[1] + c[2] * c[2]


def mindist(ctx, cfg):
    """accepted iff all atoms of the element, periodic images included, are
    farther apart than the threshold"""
    lat = LATS[cfg['lat']]
    P = _place(ctx, cfg['pos'], cfg['free'], den=cfg.get('den'))
    N = len(P)
    zt = ctx.int('Zt', 0, 88)
    if cfg.get('sym_el'):
        num = [ctx.int('Z%d' % i, 0, 88) for i in range(N)]
        tgt = [i for i in range(N) if ctx.truth(num[i] == zt)]
    else:
        zo = ctx.int('Zo', 0, 88)
        ctx.assume(zo != zt)
        tgt = [i for i, c in enumerate(cfg['el']) if c == 'T']
        num = [zt if c == 'T' else zo for c in cfg['el']]
    if cfg.get('den'):
        r = ctx.dyadic('r', 0, 10, 8)
        ctx.assume(r > 0)
    else:
        r = ctx.real('r', 0.05, 12)
    dist2 = []
    for x, i in enumerate(tgt):
        for j in tgt[:x + 1]:
            for t in IMG:
                if i == j and t <= (0, 0, 0):
                    continue
                dist2.append(_d2(P[i], P[j], t, lat))
    r2 = r * r
    if not cfg.get('den'):
        # not on the threshold, and sites apart
        for d in dist2:
            ctx.assume(ctx.Or(d - r2 > 1e-4, r2 - d > 1e-4))
    cell = ctx.GeneralCell(lat, P, num)
    R = ctx.mod('ababe.stru.restriction').MinDistanceRestriction((ctx.specie(zt, 'T'), r))
    if cfg.get('warm'):
        # the restriction has judged other cells before
        w = ctx.choose('warm', 4)
        if w == 0:
            c2 = ctx.GeneralCell([[9.0 * x for x in v] for v in lat], P, num)
        elif w == 1:
            c2 = ctx.GeneralCell(lat, [[0.1 * (i + 1)] * 3 for i in range(N)], num)
        elif w == 2:
            c2 = ctx.GeneralCell(lat, P, list(reversed(num)))
        else:
            c2 = cell
        R.is_satisfied(c2)
    got = bool(R.is_satisfied(cell))
    ctx.observe('ok', got)
    want = ctx.And(*[d > r2 for d in dist2])
    ctx.check(ctx.Iff(got, want),
              'accepted exactly when all atoms of the element are farther apart than the threshold')


def clarify(ctx, cfg):
    lat = LATS[cfg['lat']]
    P = _place(ctx, cfg['pos'], cfg.get('free', []), den=cfg.get('den'))
    N = len(P)
    num = [{'A': 5, 'B': 8, 'C': 29, 'G': 0}[c] for c in cfg['el']]
    if cfg.get('zsym') is not None:
        num[cfg['zsym']] = 5 + 3 * ctx.choose('zsel', 2)
    r = ctx.dyadic('r', 0, 6, 8) if cfg.get('den') else ctx.real('r', 0, 6)
    el = ctx.mod('ababe.stru.element')
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    cl = ctx.mod('ababe.stru.clarifier')
    mc = M(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    rem = cfg.get('rem')
    remz = {'A': 5, 'B': 8, 'C': 29, 'G': 0, None: None}[rem]
    sp = None if rem is None else el.Specie(rem_name(remz))
    if cfg['mode'] == 'verbose':
        cz = {'A': 5, 'B': 8, 'C': 29}[cfg['cen']]
        C = [P[i] for i in range(N) if num[i] == cz]
        clar = cl.VerboseAtomRemoveClarifier(el.Specie(rem_name(cz)), r, sp)
    elif cfg['mode'] == 'centers':
        C = [[float(x) for x in c] for c in cfg['centers']]
        for q, a in cfg.get('cfree', []):
            C[q][a] = ctx.dyadic('c%d_%d' % (q, a), 0, 1 - 1 / cfg['den'], cfg['den']) if cfg.get('den') \
                else ctx.real('c%d_%d' % (q, a), 0, 0.999)
        clar = cl.AtomRemoveClarifier(C, r, sp)
    near = []
    r2 = r * r
    for i in range(N):
        h = []
        for c in C:
            for t in IMG:
                d = _d2(P[i], c, t, lat)
                if c is P[i] and t == (0, 0, 0):
                    h.append(r > 0)
                    continue
                if not cfg.get('den'):
                    ctx.assume(ctx.Or(d - r2 > 1e-4, r2 - d > 1e-4))
                h.append(d < r2)
        near.append(ctx.Or(*h))
    if cfg.get('den') is None:
        ctx.assume(ctx.Or(r == 0, r > 0.02))
    if cfg.get('warm'):
        # the clarifier has worked on other cells before
        w = ctx.choose('warm', 3)
        if w == 0:
            m2 = M(ctx.farr([[9.0 * x for x in v] for v in lat]), ctx.farr(P), ctx.np.array(num))
        elif w == 1:
            m2 = M(ctx.farr(lat), ctx.farr([[x + 0.25 for x in p] for p in P]), ctx.np.array(num))
        else:
            m2 = M(ctx.farr(lat), ctx.farr(P), ctx.np.array(list(reversed(num))))
        clar.clarify(m2)
    out = clar.clarify(mc)
    ctx.check(out is mc, 'the clarified cell is returned')
    sites = list(out)
    ctx.observe('left', len(sites))
    # sites left, in order
    k = 0
    for i in range(N):
        cand = remz is None or num[i] == remz
        kept = k < len(sites) and ctx.truth(ctx.closevec(list(sites[k].position), P[i], 1e-9)) \
            and sites[k].element.Z == num[i]
        if kept:
            k += 1
        if not cand:
            ctx.check(kept, 'sites of other elements stay')
        elif kept:
            ctx.check(ctx.Not(near[i]), 'a site of the element within the radius is removed')
        else:
            ctx.check(near[i], 'a site outside the radius stays')
    ctx.check(k == len(sites), 'no site appears out of nowhere')


def sphere(ctx, cfg):
    """the sites of a cell within a radius of a centre, by index"""
    lat = LATS[cfg['lat']]
    P = _place(ctx, cfg['pos'], cfg.get('free', []), den=cfg.get('den'))
    N = len(P)
    num = [[5, 8, 0][ctx.choose('z%d' % i, 3)] if i in cfg.get('vary', []) else 8 for i in range(N)]
    r = ctx.dyadic('r', 0, 6, 8) if cfg.get('den') else ctx.real('r', 0.02, 6)
    S = ctx.mod('ababe.stru.element').Specie
    mc = ctx.mod('ababe.stru.scaffold').ModifiedCell(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    ele = [None, 8, 0][ctx.choose('ele', 3)]
    c = cfg['center']
    if cfg.get('warm'):
        mc.get_points_incell_insphere([0.5, 0.25, 0.125], 1.5)
        mc.get_points_incell_insphere(c, 0.75, S('O'))
    got = mc.get_points_incell_insphere(c, r) if ele is None else \
        mc.get_points_incell_insphere(c, r, S.from_num(ele))
    sites = list(mc)
    ctx.check(len(sites) == N, 'no site is lost')
    for k in got:
        ctx.check(k in range(N) and got[k].element.Z == num[k], 'sites are given with their index')
        ctx.check(ctx.closevec(list(got[k].position), P[k], 1e-9), 'sites are given with their index')
    ctx.observe('n', sorted(int(k) for k in got))
    for i in range(N):
        h = []
        for t in IMG:
            d = _d2(P[i], c, t, lat)
            if not cfg.get('den'):
                ctx.assume(ctx.Or(d - r * r > 1e-4, r * r - d > 1e-4))
            h.append(d < r * r)
        if ele is not None and num[i] != ele:
            ctx.check(i not in got, 'sites of other elements are left out')
        else:
            ctx.check(ctx.Iff(i in got, ctx.Or(*h)), 'exactly the sites within the radius are found')


def clarify_reject(ctx, cfg):
    """only modifiable cells are clarified"""
    sc = ctx.mod('ababe.stru.scaffold')
    cl = ctx.mod('ababe.stru.clarifier')
    el = ctx.mod('ababe.stru.element')
    P = _place(ctx, cfg['pos'], cfg.get('free', []))
    lat = LATS[cfg['lat']]
    num = [5 + 3 * ctx.choose('z%d' % i, 2) for i in range(len(P))]
    r = ctx.real('r', 0, 6)
    sp = [None, el.Specie('B')][ctx.choose('el', 2)]
    if ctx.choose('which', 2):
        clar = cl.VerboseAtomRemoveClarifier(el.Specie('O'), r, sp)
    else:
        clar = cl.AtomRemoveClarifier([[0.0, 0.0, 0.0]], r, sp)
    gc = sc.GeneralCell(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    num = [int(z) for z in gc.numbers]
    P = [list(gc.positions[i]) for i in range(len(P))]
    try:
        clar.clarify(gc)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, 'a fixed cell is refused')
    ctx.check([int(z) for z in gc.numbers] == num, 'and keeps its atoms')
    ctx.check(ctx.And(*[ctx.closevec(list(gc.positions[i]), P[i], 1e-9) for i in range(len(P))]),
              'and its positions')


def rem_name(z):
    return {5: 'B', 8: 'O', 29: 'Cu', 0: 'G'}[z]


def perturb(ctx, cfg):
    """every site moves by exactly the distance"""
    lat = LATS[cfg['lat']]
    P = _place(ctx, cfg['pos'], cfg.get('free', []))
    N = len(P)
    num = ([0, 8, 0, 5] if cfg.get('vac') else [5, 8, 29, 5])[:N]
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    mc = M(ctx.farr(lat), ctx.farr(P), ctx.np.array(num))
    if cfg.get('default'):
        dist = 0.2
    else:
        dist = ctx.real('dist', 0, 3)
    with ctx.random():
        if cfg.get('warm'):
            # the cell was moved before
            if N == 1:
                mc.perturb(ctx.real('dist0', 0, 3))
            mc.translate_sites(0, ctx.farr([0.25, 0.5, -0.125]))
            P = [list(s.position) for s in mc]
        if cfg['mode'] == 'perturb':
            if cfg.get('default'):
                mc.perturb()
            else:
                mc.perturb(dist)
    if cfg['mode'] == 'perturb':
        moved = range(N)
    else:
        k = cfg['idx']
        v = [ctx.real('v%d' % a, -3, 3) for a in range(3)]
        mc.translate_sites(k, ctx.farr(v))
        moved = [k]
    sites = list(mc)
    ctx.check(len(sites) == N, 'no site is lost')
    for i in range(N):
        p = list(sites[i].position)
        ctx.check(sites[i].element.Z == num[i], 'elements stay')
        if i not in moved:
            ctx.check(ctx.closevec(p, P[i], 1e-9), 'other sites stay')
            continue
        dv = [p[a] - P[i][a] for a in range(3)]
        c = [sum(dv[k] * lat[k][b] for k in range(3)) for b in range(3)]
        if cfg['mode'] == 'perturb':
            ctx.check(ctx.close(c[0] * c[0] + c[1] * c[1] + c[2] * c[2], dist * dist, 1e-5),
                      'every site is displaced by exactly the requested distance')
        else:
            ctx.check(ctx.closevec(c, v, 1e-5), 'the site is displaced by exactly the given vector')
    L = mc.lattice.tolist()
    ctx.check(ctx.And(*[ctx.closevec(L[a], lat[a], 1e-9) for a in range(3)]), 'the lattice stays')


def jobs(prop, tier):
    J = []
    T = tier == 'thorough'
    if prop == 'C07':
        two = [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7]]
        three = two + [[0.35, 0.8, 0.15]]
        for l in ('cub', 'ort', 'mono', 'tric', 'hex', 'flat'):
            for fr in ([[0, 0]], [[0, 1]], [[1, 2]]) + (([[0, 0], [1, 1]],) if T else ()):
                J.append(('mindist', {'lat': l, 'pos': two, 'free': fr, 'el': 'TT'}))
            J.append(('mindist', {'lat': l, 'pos': two, 'free': [[0, 0]], 'el': 'TO'}))
            J.append(('mindist', {'lat': l, 'pos': two[:1], 'free': [[0, 0]], 'el': 'T'}))
            J.append(('mindist', {'lat': l, 'pos': three, 'free': [[0, 2]], 'el': 'TOT'}))
        J.append(('mindist', {'lat': 'cub', 'pos': three, 'free': [], 'sym_el': 1}))
        J.append(('mindist', {'lat': 'tric', 'pos': three, 'free': [], 'sym_el': 1}))
        J.append(('mindist', {'lat': 'hex', 'pos': three, 'free': [], 'sym_el': 1}))
        J.append(('mindist', {'lat': 'cub', 'pos': two, 'free': [[0, 0], [1, 1]], 'el': 'TT'}))
        for l in ('cub', 'mono', 'hex'):
            J.append(('mindist', {'lat': l, 'pos': two, 'free': [[0, 0]], 'el': 'TT', 'warm': 1}))
            J.append(('mindist', {'lat': l, 'pos': three, 'free': [], 'el': 'TOT', 'warm': 1}))
            J.append(('mindist', {'lat': l, 'pos': three, 'free': [], 'el': 'OTT', 'warm': 1}))
        # thresholds met exactly (coordinates exact in binary)
        for l in ('cub', 'ort', 'flat'):
            J.append(('mindist', {'lat': l, 'pos': [[0, .25, .5], [.5, .25, .5]], 'free': [[0, 0]], 'el': 'TT', 'den': 8}))
            J.append(('mindist', {'lat': l, 'pos': [[0, .25, .5], [0, .25, 0]], 'free': [[1, 2]], 'el': 'TT', 'den': 8}))
    if prop == 'C08':
        J.append(('clarify_reject', {'lat': 'cub', 'pos': [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7]], 'free': [[0, 0]]}))
        four = [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7], [0.35, 0.8, 0.15], [0.9, 0.1, 0.9]]
        for l in ('cub', 'ort', 'mono', 'tric', 'hex'):
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'ABBB', 'cen': 'A', 'rem': 'B'}))
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'BABA', 'cen': 'A', 'rem': 'B'}))
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'AABC', 'cen': 'A', 'rem': 'C'}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': four, 'el': 'ABBB', 'rem': 'B',
                                  'centers': [[.5, .5, .5]], 'cfree': [[0, 0]]}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': four, 'el': 'ABCB', 'rem': None,
                                  'centers': [[0, 0, 0], [.5, .5, .5]]}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': four[:2], 'el': 'AB', 'rem': 'B',
                                  'centers': [[.95, 0.05, .5]], 'free': [[1, 2]]}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': four[:2], 'el': 'AB', 'rem': 'B',
                                  'centers': [[.95, 0.05, .5]], 'free': [[1, 1]]}))
            # a centre that is itself removed by another centre
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'AABB', 'cen': 'A', 'rem': None}))
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'BAAB', 'cen': 'A', 'rem': None}))
        for l in ('cub', 'ort'):
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'el': 'AABC', 'cen': 'A', 'rem': None, 'free': [[2, 0]],
                                  'pos': [[.1, .1, .1], [.4, .1, .1], [.7, .1, .1], [.1, .6, .1]]}))
        J.append(('clarify', {'mode': 'verbose', 'lat': 'cub', 'pos': four, 'el': 'ABBB', 'cen': 'A', 'rem': 'B', 'zsym': 2}))
        J.append(('clarify', {'mode': 'verbose', 'lat': 'tric', 'pos': four, 'el': 'ABBB', 'cen': 'A', 'rem': None, 'zsym': 1}))
        for l in ('cub', 'mono'):
            for el, rem in (('ABBB', 'B'), ('AABB', None), ('ABCB', 'C')):
                J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': el, 'cen': 'A', 'rem': rem, 'warm': 1}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': four, 'el': 'ABCB', 'rem': 'B',
                                  'centers': [[0, 0, 0], [.5, .5, .5]], 'warm': 1}))
        for l in ('cub', 'mono', 'hex'):
            J.append(('sphere', {'lat': l, 'pos': four, 'center': [.5, .5, .5], 'vary': [2]}))
            J.append(('sphere', {'lat': l, 'pos': four[:2], 'center': [.95, .05, .5], 'free': [[0, 0]], 'vary': [1]}))
        J.append(('sphere', {'lat': 'tric', 'pos': four, 'center': [0, 0, 0], 'vary': [3], 'warm': 1}))
        J.append(('sphere', {'lat': 'ort', 'pos': [[0, .25, .5], [.5, .25, .5]], 'center': [0, .25, 0], 'free': [[1, 0]], 'den': 8, 'vary': [0]}))
        # centre and removed element coincide
        J.append(('clarify', {'mode': 'verbose', 'lat': 'cub', 'pos': four, 'el': 'AAAB', 'cen': 'A', 'rem': 'A'}))
        J.append(('clarify', {'mode': 'verbose', 'lat': 'cub', 'pos': four, 'el': 'ABBB', 'cen': 'C', 'rem': 'B'}))
        J.append(('clarify', {'mode': 'verbose', 'lat': 'cub', 'pos': four, 'el': 'AGBG', 'cen': 'A', 'rem': 'G'}))
        for l in ('cub', 'ort'):
            J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': [[0, .25, .5], [.5, .25, .5], [.5, .75, 0]],
                                  'el': 'ABB', 'cen': 'A', 'rem': 'B', 'free': [[1, 0]], 'den': 8}))
            J.append(('clarify', {'mode': 'centers', 'lat': l, 'pos': [[0, .25, .5], [.5, .25, .5], [.5, .75, 0]],
                                  'el': 'ABB', 'rem': 'B', 'centers': [[0, 0, 0]], 'cfree': [[0, 2]], 'den': 8}))
        J.append(('clarify', {'mode': 'verbose', 'lat': 'ort', 'pos': four[:3], 'el': 'ABB', 'cen': 'A', 'rem': 'B',
                              'free': [[0, 0]]}))
        if T:
            for l in ('cub', 'mono', 'tric'):
                J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four[:3], 'el': 'ABB', 'cen': 'A', 'rem': 'B',
                                      'free': [[0, 0], [1, 1]]}))
                J.append(('clarify', {'mode': 'verbose', 'lat': l, 'pos': four, 'el': 'ABAB', 'cen': 'A', 'rem': 'B',
                                      'free': [[0, 2]]}))
    if prop == 'C10':
        for l in ('cub', 'mono', 'tric', 'hex'):
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3]]}))
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3], [.6, .5, .7]], 'default': 1}))
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3], [.6, .5, .7]], 'free': [[0, 0]]}))
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3], [.6, .5, .7]], 'vac': 1}))
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3]], 'warm': 1}))
            J.append(('perturb', {'mode': 'perturb', 'lat': l, 'pos': [[.1, .2, .3], [.6, .5, .7]], 'warm': 1}))
            J.append(('perturb', {'mode': 'shift', 'idx': 1, 'lat': l, 'pos': [[.1, .2, .3], [.6, .5, .7]], 'warm': 1}))
            for k in (0, 1, 2):
                J.append(('perturb', {'mode': 'shift', 'idx': k, 'lat': l,
                                      'pos': [[.1, .2, .3], [.6, .5, .7], [.35, .8, .15]], 'free': [[k, 1], [0, 2]]}))
    return J
