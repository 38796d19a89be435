"""Symmetry-distinct substitution (OccupyGenerator)."""
from __future__ import division
from itertools import combinations

from harness import cells
from harness.common import atoms, group, make_cell, site_map, same_lattice


def _collect(ctx, gen, pos, lat, init, target, spZ, msg):
    """outputs as 0/1 colourings of the catalogue sites, validated"""
    outs = []
    for cell in gen:
        m = site_map(pos, cell)
        ctx.check(m is not None and same_lattice(cell.lattice.tolist(), lat),
                  msg + ': output keeps the lattice and the sites')
        col = [None] * len(pos)
        for k, i in enumerate(m):
            v = cell.numbers[k]
            if i in target:
                s = ctx.truth(v == spZ)
                if not s:
                    ctx.check(v == init[i], msg + ': untouched target site keeps its element')
                col[i] = s
            else:
                ctx.check(v == init[i], msg + ': sites outside the target keep their element')
                col[i] = False
        outs.append(tuple(col))
    return outs


def _orbit(col, grp):
    return set(tuple(col[g[i]] for i in range(len(col))) for g in grp)


def _exactly_one(ctx, outs, t, grp, msg):
    """the arbitrary colouring t is equivalent to exactly one output"""
    hits = []
    for o in outs:
        alts = []
        for c in _orbit(o, grp):
            alts.append(ctx.And(*[t[i] if c[i] else ctx.Not(t[i]) for i in range(len(c)) if t[i] is not None]))
        hits.append(ctx.Or(*alts))
    ctx.check(ctx.Or(*hits), msg + ': some symmetry class has no representative')
    for a in range(len(hits)):
        for b in range(a + 1, len(hits)):
            if _orbit(outs[a], grp) & _orbit(outs[b], grp):
                ctx.check(ctx.Not(ctx.And(hits[a], hits[b])),
                          msg + ': two representatives of one symmetry class')


def _colouring(ctx, n, target, k, init=False):
    t = [False] * n
    for i in target:
        t[i] = ctx.bool('t%d' % i)
    # exactly k of the target sites
    cnt = _count(ctx, [t[i] for i in target])
    ctx.assume(cnt == k)
    return t


def _count(ctx, bs):
    s = 0
    for b in bs:
        s = s + ctx.If(b, 1, 0)
    return s


def _setup(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    z = {'A': 29, 'B': 8, 'C': 0} if cfg.get('conc') else atoms(ctx, lab)
    if cfg.get('sp'):
        sp = z[cfg['sp']]
    elif cfg.get('conc'):
        sp = 47
    else:
        sp = ctx.int('Z_sp', 0, 88)
        for v in z.values():
            ctx.assume(sp != v)
    cell = make_cell(ctx, cfg['cell'], z)
    return lat, pos, lab, z, [z[l] for l in lab], sp, cell


def _target(G, cfg, pos, lab, cell):
    ele, mode = cfg.get('ele', 'A'), cfg['mode']
    if mode == 'ele':
        return [i for i, l in enumerate(lab) if l == ele], None
    if mode == 'all':
        return [i for i, l in enumerate(lab) if l != cfg.get('sp')], None
    m = site_map(pos, cell)
    wy = G.wyckoffs[m.index(lab.index(ele))]
    return [m[k] for k in range(len(lab)) if G.wyckoffs[k] == wy], wy


def fixed_count(ctx, cfg):
    """gen_nodup_of_ele / gen_nodup_unitary / gen_nodup"""
    lat, pos, lab, z, init, sp, cell = _setup(ctx, cfg)
    grp = group(cfg['cell'])
    mode, n = cfg['mode'], cfg['n']
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    spo = ctx.specie(sp, 'Sp')
    target, wy = _target(G, cfg, pos, lab, cell)
    if mode == 'ele':
        gen = G.gen_nodup_of_ele(ctx.specie(z[cfg.get('ele', 'A')], 'El'), n, spo)
    elif mode == 'all':
        gen = G.gen_nodup_unitary(n, spo)
    else:
        gen = G.gen_nodup(wy, n, spo)
    outs = _collect(ctx, gen, pos, lat, init, target, sp, 'substitution')
    for o in outs:
        ctx.check(sum(o) == n, 'every output has the requested number of substitutions')
    ctx.observe('count', len(outs))
    if n > len(target):
        ctx.check(not outs, 'nothing when there are fewer sites than substitutions')
        return
    t = _colouring(ctx, len(lab), target, n)
    _exactly_one(ctx, outs, t, grp, 'substitution')
    ctx.check(ctx.And(*[cell.numbers[k] == init[i] for k, i in enumerate(site_map(pos, cell))]),
              'the initial structure is left untouched')


def levels(ctx, cfg):
    """all_speckle_gen*: the levels, whatever the order in which they are drawn"""
    lat, pos, lab, z, init, sp, cell = _setup(ctx, cfg)
    grp = group(cfg['cell'])
    mode, n = cfg['mode'], cfg['n']
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    spo = ctx.specie(sp, 'Sp')
    target, wy = _target(G, cfg, pos, lab, cell)
    have = lab.count(cfg['sp']) if cfg.get('sp') else 0
    if mode == 'ele':
        outer = G.all_speckle_gen_of_ele(n, ctx.specie(z[cfg.get('ele', 'A')], 'El'), spo)
    elif mode == 'all':
        outer = G.all_speckle_gen_unitary(n, spo)
    else:
        outer = G.all_speckle_gen(n, wy, spo)
    lv, got = [], []
    sched = cfg.get('sched', 'seq')
    if sched == 'seq':
        for g in outer:
            lv.append(g)
            got.append(list(g))
    elif sched == 'late':
        lv = list(outer)
        got = [None] * len(lv)
        for k in reversed(range(len(lv))):
            got[k] = list(lv[k])
    else:
        # any interleaving of opening levels and drawing single structures
        outer = iter(outer)
        for step in range(cfg['steps']):
            a = ctx.choose('act%d' % step, len(lv) + 1)
            if a == len(lv):
                try:
                    lv.append(next(outer))
                    got.append([])
                except StopIteration:
                    break
            else:
                try:
                    got[a].append(next(lv[a]))
                except StopIteration:
                    pass
        for g in outer:
            lv.append(g)
            got.append([])
        back = ctx.choose('back', 2)
        for k in (reversed(range(len(lv))) if back else range(len(lv))):
            got[k].extend(lv[k])
    ctx.check(len(lv) == max(0, n - have), 'one level per number of substituted atoms up to the maximum')
    ctx.observe('counts', [len(g) for g in got])
    for k, g in enumerate(got):
        outs = _collect(ctx, g, pos, lat, init, target, sp, 'level')
        for o in outs:
            ctx.check(sum(o) == k + 1, 'level k holds structures with k substitutions')
        t = [False] * len(lab)
        for i in target:
            t[i] = ctx.bool('t%d_%d' % (k, i))
        cnt = _count(ctx, [t[i] for i in target])
        if k + 1 > len(target):
            ctx.check(not outs, 'no structure beyond full substitution')
            continue
        ctx.assume(cnt == k + 1)
        _exactly_one(ctx, outs, t, grp, 'level')


def trinary(ctx, cfg):
    lat, pos, lab = cells.get(cfg['cell'])
    grp = group(cfg['cell'])
    z = atoms(ctx, lab)
    init = [z[l] for l in lab]
    s1 = z[cfg['s1']] if cfg.get('s1') else ctx.int('Z_s1', 0, 88)
    s2 = z[cfg['s2']] if cfg.get('s2') else ctx.int('Z_s2', 0, 88)
    ctx.assume(s1 != s2)
    for v in z.values():
        if not cfg.get('s1'):
            ctx.assume(s1 != v)
        if not cfg.get('s2'):
            ctx.assume(s2 != v)
    n1, n2 = cfg['n']
    cell = make_cell(ctx, cfg['cell'], z)
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    N = len(lab)
    args = [ctx.specie(s1, 'Sa'), n1, ctx.specie(s2, 'Sb'), n2]
    target = list(range(N))
    if cfg.get('ele'):
        args.append(ctx.specie(z[cfg['ele']], 'El'))
        target = [i for i in range(N) if lab[i] == cfg['ele']]
    how = ctx.choose('how', 4) if cfg.get('again') else 0
    if how == 1:
        list(G.gen_nodup_trinary_alloy(*args))
    elif how == 2:
        other = G.gen_nodup_trinary_alloy(*([args[2], n1, args[0], n2] + args[4:]))
        next(other, None)
    elif how == 3:
        list(G.gen_nodup_of_ele(ctx.specie(init[target[0]], 'E'), 1, args[0]))
    gen = G.gen_nodup_trinary_alloy(*args)
    if how == 2:
        gen = list(gen)
        list(other)
    outs = []
    for c in gen:
        m = site_map(pos, c)
        ctx.check(m is not None and same_lattice(c.lattice.tolist(), lat),
                  'two-species substitution: output keeps the lattice and the sites')
        col = [0] * N
        for k, i in enumerate(m):
            v = c.numbers[k]
            if i not in target:
                ctx.check(v == init[i], 'two-species substitution: only sites of the target element change')
            elif ctx.truth(v == s1):
                col[i] = 1
            elif ctx.truth(v == s2):
                col[i] = 2
            else:
                ctx.check(v == init[i], 'two-species substitution: untouched site keeps its element')
        ctx.check(col.count(1) == n1 and col.count(2) == n2,
                  'two-species substitution: requested counts')
        outs.append(tuple(col))
    ctx.observe('count', len(outs))
    if n1 + n2 > len(target):
        ctx.check(not outs, 'nothing when there are fewer sites than substitutions')
        return
    t = [ctx.int('t%d' % i, 0, 2) if i in target else 0 for i in range(N)]
    ctx.assume(_count(ctx, [x == 1 for x in t]) == n1)
    ctx.assume(_count(ctx, [x == 2 for x in t]) == n2)
    orbs = [_orbit(o, grp) for o in outs]
    hits = [ctx.Or(*[ctx.And(*[t[i] == c[i] for i in range(N)]) for c in ob]) for ob in orbs]
    ctx.check(ctx.Or(*hits), 'two-species substitution: some symmetry class has no representative')
    for a in range(len(orbs)):
        for b in range(a + 1, len(orbs)):
            ctx.check(not (orbs[a] & orbs[b]),
                      'two-species substitution: two representatives of one symmetry class')


def filter_stream(ctx, cfg):
    """the duplicate filter on an arbitrary stream of colourings"""
    lat, pos, lab = cells.get(cfg['cell'])
    grp = group(cfg['cell'])
    N = len(lab)
    cell = ctx.GeneralCell(lat, pos, [{'A': 7, 'B': 8, 'C': 9}[l] for l in lab])
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    GC = ctx.mod('ababe.stru.scaffold').GeneralCell
    K = cfg['k']
    nums = [[ctx.int('n%d_%d' % (k, i), 0, 88) for i in range(N)] for k in range(K)]
    if cfg.get('two'):
        a, b = ctx.int('a', 0, 88), ctx.int('b', 0, 88)
        ctx.assume(a != b)
        for r in nums:
            for v in r:
                ctx.assume(ctx.Or(v == a, v == b))
    stream = [ctx.GeneralCell(lat, pos, r) for r in nums]
    got = list(G.gen_2nodup_gen(iter(stream)))
    idx = []
    for c in got:
        hit = [k for k, s in enumerate(stream) if s is c]
        ctx.check(len(hit) == 1, 'filter yields structures of its input stream')
        idx.append(hit[0])
    ctx.observe('kept', idx)
    ctx.check(idx == sorted(set(idx)), 'filter keeps the order of the stream')

    def equiv(x, y):
        return ctx.Or(*[ctx.And(*[x[i] == y[g[i]] for i in range(N)]) for g in grp])
    if K == 2:
        ctx.check(ctx.Iff(G.is_equivalent(stream[0], stream[1]), equiv(nums[0], nums[1])),
                  'structures are equivalent exactly when a symmetry operation relates them')
    for k in range(K):
        if k in idx:
            for j in idx:
                if j < k:
                    ctx.check(ctx.Not(equiv(nums[j], nums[k])), 'filter kept two equivalent structures')
        else:
            ctx.check(ctx.Or(*[equiv(nums[j], nums[k]) for j in idx if j < k]),
                      'filter dropped a structure equivalent to none it kept')


def _schedule(ctx, gens, steps):
    """draw from several open generators in an arbitrary interleaving, then drain"""
    got = [[] for _ in gens]
    for step in range(steps):
        a = ctx.choose('draw%d' % step, len(gens))
        try:
            got[a].append(next(gens[a]))
        except StopIteration:
            pass
    for k, g in enumerate(gens):
        got[k].extend(g)
    return got


def reuse(ctx, cfg):
    """one OccupyGenerator asked for several enumerations, one after the other or interleaved"""
    lat, pos, lab = cells.get(cfg['cell'])
    grp = group(cfg['cell'])
    z = atoms(ctx, lab)
    init = [z[l] for l in lab]
    sps = []
    for k in range(1 + max([c[3] for c in cfg['calls']])):
        s = ctx.int('Z_sp%d' % k, 0, 88)
        for v in list(z.values()) + sps:
            ctx.assume(s != v)
        sps.append(s)
    cell = make_cell(ctx, cfg['cell'], z)
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)

    def start(c):
        kind, ele, n, s = c
        spo = ctx.specie(sps[s], 'Sp')
        el = ctx.specie(z[ele], 'El') if ele else None
        if kind == 'ele':
            return G.gen_nodup_of_ele(el, n, spo)
        if kind == 'all':
            return G.gen_nodup_unitary(n, spo)
        return G.gen_nodup(wy[ele], n, spo)
    wy = {}
    if any(c[0] == 'wy' for c in cfg['calls']):
        m = site_map(pos, cell)
        for e in sorted(set(lab)):
            wy[e] = G.wyckoffs[m.index(lab.index(e))]
    if cfg.get('steps'):
        got = _schedule(ctx, [iter(start(c)) for c in cfg['calls']], cfg['steps'])
    else:
        got = [list(start(c)) for c in cfg['calls']]
    ctx.observe('counts', [len(g) for g in got])
    for q, (c, g) in enumerate(zip(cfg['calls'], got)):
        kind, ele, n, s = c
        target = [i for i, l in enumerate(lab) if kind == 'all' or l == ele]
        if kind == 'wy':
            m = site_map(pos, cell)
            target = [m[k] for k in range(len(lab)) if G.wyckoffs[k] == wy[ele]]
        outs = _collect(ctx, g, pos, lat, init, target, sps[s], 'enumeration %d' % q)
        for o in outs:
            ctx.check(sum(o) == n, 'every output has the requested number of substitutions')
        if n > len(target):
            ctx.check(not outs, 'nothing when there are fewer sites than substitutions')
            continue
        t = [False] * len(lab)
        for i in target:
            t[i] = ctx.bool('t%d_%d' % (q, i))
        ctx.assume(_count(ctx, [t[i] for i in target]) == n)
        _exactly_one(ctx, outs, t, grp, 'enumeration %d' % q)


def levels_again(ctx, cfg):
    """all_speckle_gen* asked twice of one OccupyGenerator, fully or partly drawn in between"""
    lat, pos, lab, z, init, sp, cell = _setup(ctx, cfg)
    grp = group(cfg['cell'])
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    spo = ctx.specie(sp, 'Sp')

    def start(c):
        kind, ele, n = c
        if kind == 'ele':
            return G.all_speckle_gen_of_ele(n, ctx.specie(z[ele], 'El'), spo)
        if kind == 'all':
            return G.all_speckle_gen_unitary(n, spo)
        m = site_map(pos, cell)
        return G.all_speckle_gen(n, G.wyckoffs[m.index(lab.index(ele))], spo)
    runs = []
    how = cfg['how']
    if how == 'seq':
        for c in cfg['calls']:
            runs.append([list(g) for g in start(c)])
    elif how == 'part':
        # the first enumeration is left after a few structures and taken up again
        o = iter(start(cfg['calls'][0]))
        first, cur = [], None
        for step in range(ctx.choose('stop', cfg['steps'] + 1)):
            if cur is None:
                cur = next(o, None)
                if cur is None:
                    break
                first.append([])
            x = next(cur, None)
            if x is None:
                cur = None
            else:
                first[-1].append(x)
        rest = [[list(g) for g in start(c)] for c in cfg['calls'][1:]]
        if cur is not None:
            first[-1].extend(cur)
        for g in o:
            first.append(list(g))
        runs = [first] + rest
    else:
        # two enumerations, level by level in step
        os_ = [iter(start(c)) for c in cfg['calls']]
        runs = [[] for _ in os_]
        alive = True
        while alive:
            alive = False
            lv = [next(o, None) for o in os_]
            for r, g in zip(runs, lv):
                if g is not None:
                    alive = True
                    r.append([])
            more = True
            while more:
                more = False
                for r, g in zip(runs, lv):
                    x = next(g, None) if g is not None else None
                    if x is not None:
                        more = True
                        r[-1].append(x)
    ctx.observe('counts', [[len(g) for g in r] for r in runs])
    for q, (c, r) in enumerate(zip(cfg['calls'], runs)):
        kind, ele, n = c
        target = [i for i, l in enumerate(lab) if kind == 'all' or l == ele]
        if kind == 'wy':
            m = site_map(pos, cell)
            wy = G.wyckoffs[m.index(lab.index(ele))]
            target = [m[k] for k in range(len(lab)) if G.wyckoffs[k] == wy]
        ctx.check(len(r) == n, 'one level per number of substituted atoms up to the maximum')
        for k, g in enumerate(r):
            outs = _collect(ctx, g, pos, lat, init, target, sp, 'enumeration %d' % q)
            for o in outs:
                ctx.check(sum(o) == k + 1, 'level k holds structures with k substitutions')
            t = [False] * len(lab)
            for i in target:
                t[i] = ctx.bool('t%d_%d_%d' % (q, k, i))
            if k + 1 > len(target):
                ctx.check(not outs, 'no structure beyond full substitution')
                continue
            ctx.assume(_count(ctx, [t[i] for i in target]) == k + 1)
            _exactly_one(ctx, outs, t, grp, 'enumeration %d' % q)


def filter_twice(ctx, cfg):
    """one OccupyGenerator filtering two streams, interleaved"""
    lat, pos, lab = cells.get(cfg['cell'])
    grp = group(cfg['cell'])
    N = len(lab)
    cell = ctx.GeneralCell(lat, pos, [{'A': 7, 'B': 8, 'C': 9}[l] for l in lab])
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    ks = cfg['ks']
    a, b = ctx.int('a', 0, 88), ctx.int('b', 0, 88)
    ctx.assume(a != b)
    nums, streams = [], []
    for s, k in enumerate(ks):
        rows = [[ctx.If(ctx.bool('c%d_%d_%d' % (s, j, i)), a, b) for i in range(N)] for j in range(k)]
        nums.append(rows)
        streams.append([ctx.GeneralCell(lat, pos, r) for r in rows])
    gens = [iter(G.gen_2nodup_gen(iter(st))) for st in streams]
    got = _schedule(ctx, gens, cfg['steps'])

    def equiv(x, y):
        return ctx.Or(*[ctx.And(*[x[i] == y[g[i]] for i in range(N)]) for g in grp])
    kept = []
    for st, rows, g in zip(streams, nums, got):
        idx = []
        for c in g:
            hit = [k for k, s in enumerate(st) if s is c]
            ctx.check(len(hit) == 1, 'filter yields structures of its own input stream')
            idx.append(hit[0])
        kept.append(idx)
        ctx.check(idx == sorted(set(idx)), 'filter keeps the order of the stream')
        for k in range(len(st)):
            if k in idx:
                for j in idx:
                    if j < k:
                        ctx.check(ctx.Not(equiv(rows[j], rows[k])), 'filter kept two equivalent structures')
            else:
                ctx.check(ctx.Or(*[equiv(rows[j], rows[k]) for j in idx if j < k]),
                          'filter dropped a structure equivalent to none it kept')
    ctx.observe('kept', kept)


def _stay(ctx, cell, pos, init, what):
    ctx.check(ctx.And(*[cell.numbers[k] == init[i] for k, i in enumerate(site_map(pos, cell))]), what)


def every(ctx, cfg):
    """gen_dup_of_ele / gen_dup_unitary / gen_dup: every choice of n sites, once"""
    lat, pos, lab, z, init, sp, cell = _setup(ctx, cfg)
    mode, n = cfg['mode'], cfg['n']
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    spo = ctx.specie(sp, 'Sp')
    target, wy = _target(G, cfg, pos, lab, cell)

    def start(k):
        if mode == 'ele':
            return G.gen_dup_of_ele(ctx.specie(z[cfg.get('ele', 'A')], 'El'), k, spo)
        if mode == 'all':
            return G.gen_dup_unitary(k, spo)
        return G.gen_dup(wy, k, spo)
    how = ctx.choose('how', 3) if cfg.get('again') else 0
    other = None
    if how == 1:
        list(start(n))
    elif how == 2:
        other = iter(start(1))
        next(other, None)
    outs = _collect(ctx, start(n), pos, lat, init, target, sp, 'plain generator')
    if other is not None:
        ctx.check(len(list(other)) == max(0, len(target) - 1), 'an enumeration left for a while goes on')
    for o in outs:
        ctx.check(sum(o) == n, 'every structure has the requested number of substitutions')
    ctx.check(len(set(outs)) == len(outs), 'no arrangement twice')
    ctx.observe('count', len(outs))
    if n > len(target):
        ctx.check(not outs, 'nothing when there are fewer sites than substitutions')
        return
    t = _colouring(ctx, len(lab), target, n)
    ctx.check(ctx.Or(*[ctx.And(*[t[i] if o[i] else ctx.Not(t[i]) for i in target]) for o in outs]),
              'every arrangement is listed')
    _stay(ctx, cell, pos, init, 'the initial structure is left untouched')


def step(ctx, cfg):
    """gen_add_one_speckle*: one more substitution, for any stream of occupations"""
    lat, pos, lab = cells.get(cfg['cell'])
    N, K, mode = len(lab), cfg['k'], cfg['mode']
    PAL = {'A': 29, 'B': 8, 'C': 0}
    init = [PAL[l] for l in lab]
    cell = make_cell(ctx, cfg['cell'], PAL)
    G = ctx.mod('ababe.stru.sogen').OccupyGenerator(cell)
    S = ctx.mod('ababe.stru.element').Specie.from_num
    sp = cfg.get('sp', 47)
    wy, wsites = None, range(N)
    if mode == 'wy':
        m = site_map(pos, cell)
        wy = G.wyckoffs[m.index(lab.index(cfg.get('ele', 'A')))]
        wsites = [m[k] for k in range(N) if G.wyckoffs[k] == wy]
    ele = PAL[cfg.get('ele', 'A')]
    vals = [init[lab.index(cfg.get('ele', 'A'))], sp] + ([5] if cfg.get('third') else [])
    rows = []
    for k in range(K):
        rows.append([vals[ctx.choose('c%d_%d' % (k, i), len(vals))] if i in cfg['vary'] else init[i] for i in range(N)])
    stream = [ctx.GeneralCell(lat, pos, r) for r in rows]

    def start(cs):
        spo = S(sp)
        if mode == 'ele':
            return G.gen_add_one_speckle_of_ele(iter(cs), S(ele), spo)
        if mode == 'all':
            return G.gen_add_one_speckle_unitary(iter(cs), spo)
        return G.gen_add_one_speckle(iter(cs), wy, spo)
    how = ctx.choose('how', 3) if cfg.get('again') else 0
    other = None
    if how == 1:
        list(start(stream))
    elif how == 2:
        other = iter(start([cell]))
        next(other, None)
    got = []
    for c in start(stream):
        m = site_map(pos, c)
        ctx.check(m is not None and same_lattice(c.lattice.tolist(), lat), 'the lattice and the sites stay')
        v = [None] * N
        for k, i in enumerate(m):
            v[i] = int(c.numbers[k])
        got.append(tuple(v))
    if other is not None:
        list(other)

    ctx.observe('count', len(got))
    ctx.check(len(got) == len(set(got)), 'no structure twice')
    # an arbitrary occupation is listed exactly when one more substitution leads to it
    pool = sorted(set(x for r in rows for x in r) | set([sp]))
    t = [pool[0] if len(pool) == 1 else ctx.int('t%d' % i, pool[0], pool[-1]) for i in range(N)]
    eq = lambda a: ctx.And(*[x == y for x, y in zip(t, a)])
    is_ext = []
    for r in rows:
        for i in range(N):
            if r[i] != sp and (mode != 'ele' or r[i] == ele) and (mode != 'wy' or i in wsites):
                is_ext.append(ctx.And(*[t[j] == (sp if j == i else r[j]) for j in range(N)]))
    ctx.check(ctx.Iff(ctx.Or(*[eq(g) for g in got]) if got else False, ctx.Or(*is_ext) if is_ext else False),
              'exactly the structures with one more selected site substituted are listed')
    for c, r in zip(stream, rows):
        _stay(ctx, c, pos, r, 'the structures of the stream are left untouched')
    _stay(ctx, cell, pos, init, 'the initial structure is left untouched')


def bucky_step(ctx, cfg):
    """one more substitution on the carbon cage"""
    ctx.hooks['keep_sarr'] = 'all'
    M = ctx.mod('ababe.stru.buckyball')
    S = ctx.mod('ababe.stru.element').Specie.from_num
    sp = cfg.get('sp', 7)
    B = M.Structure([6] * 60)
    rows = []
    for k in range(cfg['k']):
        r = [6] * 60
        for j in cfg['on']:
            r[j] = sp
        r[cfg['at'][ctx.choose('p%d' % k, len(cfg['at']))]] = sp
        rows.append(r)
    stream = [ctx.np.array(r) for r in rows]
    got = [tuple(int(x) for x in a.tolist()) for a in B.add_one_speckle_generator(iter(stream), S(sp))]
    ctx.check(len(got) == len(set(got)), 'no arrangement twice')
    p = ctx.int('p', 0, 59)
    on = [frozenset(i for i in range(60) if g[i] == sp) for g in got]
    base = [frozenset(i for i in range(60) if r[i] == sp) for r in rows]
    ctx.check(all(set(g) <= set((6, sp)) for g in got), 'all other sites are carbon')
    ctx.check(all(any(b < o and len(o) == len(b) + 1 for b in base) for o in on), 'one more substitution')
    for b in base:
        hit = [i for i in range(60) if (b | set([i])) in on and i not in b]
        ctx.check(ctx.Or(ctx.Or(*[p == i for i in b]), *[p == i for i in hit]), 'every further site is substituted')
    for a, r in zip(stream, rows):
        ctx.check([int(x) for x in a.tolist()] == r, 'the arrangements of the stream are left untouched')
    h = [tuple(int(x) for x in l) for l in M.Structure.help_add_one_speckle(rows[0], S(sp))]
    w = [tuple(sp if j == i else rows[0][j] for j in range(60)) for i in range(60) if rows[0][i] != sp]
    ctx.check(sorted(h) == sorted(w), 'one arrangement for every site left')
    ctx.observe('count', len(got))


def jobs(prop, tier):
    J = []
    T = tier == 'thorough'
    if prop == 'C01':
        quick = [('fcc4', 'all', [0, 1, 2, 3, 4]), ('fcc4', 'ele', [2, 5]), ('zb8', 'ele', [1, 2, 3]),
                 ('nacl8', 'ele', [2]), ('perov5', 'ele_C', [1, 2]), ('perov5', 'all', [2]),
                 ('rutile6', 'ele_B', [2]), ('hcp2', 'all', [1]), ('hcp4', 'ele', [2]),
                 ('graph8', 'ele', [2, 3]), ('ortho3', 'all', [1, 2]), ('mono4', 'ele', [1]),
                 ('tricl4', 'ele', [1, 2]), ('p1_4', 'ele', [1, 2]), ('messy5', 'ele', [1, 2]),
                 ('rhom3', 'ele', [1]), ('sc6', 'ele', [2, 3]), ('sc9', 'ele', [2, 3]),
                 ('tri9', 'ele', [3]), ('bcc8', 'ele', [4]), ('sc8', 'ele', [2, 4]),
                 ('rutile6', 'wy_B', [1, 2]), ('perov5', 'wy_C', [2]), ('zb8', 'wy', [2]), ('mono4', 'wy', [1]),
                 ('p1_4', 'wy', [2]),
                 ('fcc8', 'ele', [2, 3, 4]), ('hcp8', 'ele', [2, 3, 4]), ('zb16', 'ele', [2]),
                 ('cscl16', 'ele', [2, 3]), ('perov10', 'ele_C', [2, 3]), ('rut12', 'ele_B', [2, 3, 4]),
                 ('p1_8', 'ele', [2, 3]), ('ortho6', 'all', [2, 3]), ('zbp16', 'ele_B', [2, 3]),
                 ('sc16', 'ele', [2, 3]), ('zbp48', 'ele_B', [2]),
                 ('near3', 'ele', [1]), ('nearfcc', 'ele', [1, 2]), ('neartet', 'ele', [1, 2]), ('nearsc4', 'all', [1, 2])]
        more = [('zb16', 'ele', [3, 4, 5]), ('cscl16', 'ele', [4]), ('perov10', 'all', [2, 3]),
                ('sc9', 'all', [4]), ('zbp16', 'ele', [4]), ('zbp16', 'ele_B', [4]), ('sc16', 'ele', [4, 5]),
                ('zbp48', 'ele_B', [3, 4]), ('rut12', 'all', [2, 3]), ('tri9', 'ele', [4, 5])]
        for c, m, ns in quick + (more if T else []):
            mode, _, ele = m.partition('_')
            for n in ns:
                J.append(('fixed_count', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n}))
        # large enumerations, with fixed elements
        for c, e, ns in [('many12', 'A', [6]), ('many14', 'A', [5]), ('sc18', 'A', [3, 4]), ('zb16', 'A', [4]), ('p1_8', 'A', [3]), ('cscl16', 'A', [4]), ('zbp48', 'B', [3])] + (
                [('sc18', 'A', [5, 6]), ('zbp48', 'B', [4]), ('many14', 'A', [7])] if T else []):
            for n in ns:
                J.append(('fixed_count', {'cell': c, 'mode': 'ele', 'ele': e, 'n': n, 'conc': 1}))
        for c, ele, sp, n in [('zb8', 'A', 'B', 2), ('perov5', 'C', 'A', 1), ('rutile6', 'B', 'A', 2),
                              ('p1_4', 'A', 'B', 2), ('messy5', 'A', 'B', 2)]:
            J.append(('fixed_count', {'cell': c, 'mode': 'ele', 'ele': ele, 'sp': sp, 'n': n}))
        # the same generator used again, or several enumerations open at once
        for c, calls, st in [
                ('fcc4', [('all', '', 2, 0), ('all', '', 2, 0)], 0),
                ('fcc4', [('all', '', 2, 0), ('all', '', 2, 1)], 0),
                ('fcc4', [('all', '', 1, 0), ('all', '', 3, 0), ('all', '', 2, 0)], 0),
                ('zb8', [('ele', 'A', 2, 0), ('ele', 'B', 2, 0)], 0),
                ('rutile6', [('ele', 'B', 2, 0), ('ele', 'A', 1, 0), ('all', '', 2, 1)], 0),
                ('rutile6', [('wy', 'B', 2, 0), ('wy', 'A', 1, 0), ('wy', 'B', 2, 1)], 0),
                ('messy5', [('ele', 'A', 1, 0), ('ele', 'A', 2, 0), ('ele', 'A', 1, 1)], 0),
                ('fcc4', [('all', '', 2, 0), ('all', '', 2, 0)], 3),
                ('tricl4', [('ele', 'A', 1, 0), ('ele', 'A', 2, 0)], 4),
                ('ortho3', [('all', '', 1, 0), ('all', '', 2, 1)], 5),
                ('perov5', [('ele', 'C', 1, 0), ('ele', 'C', 2, 0), ('ele', 'A', 1, 0)], 3),
                ('hcp4', [('ele', 'A', 2, 0), ('ele', 'A', 2, 1)], 4),
                ('sc6', [('ele', 'A', 2, 0), ('ele', 'A', 2, 0)], 2)]:
            J.append(('reuse', {'cell': c, 'calls': [list(x) for x in calls], 'steps': st + (2 if T and st else 0)}))
    if prop == 'C28':
        for c, m, ns in [('fcc4', 'all', [0, 1, 2, 3, 4, 5]), ('fcc4', 'ele', [2]), ('zb8', 'ele', [1, 2, 3]), ('perov5', 'ele_C', [1, 2]),
                         ('rutile6', 'ele_B', [2, 4, 5]), ('p1_4', 'ele', [1, 2]), ('messy5', 'ele', [2]), ('mono4', 'wy', [1]),
                         ('rutile6', 'wy_B', [1, 2]), ('perov5', 'wy_C', [2]), ('p1_8', 'ele', [2, 3]), ('sc8', 'ele', [4]),
                         ('sc9', 'all', [2]), ('zb16', 'ele', [2]), ('p1_4', 'wy', [2])] + (
                             [('p1_8', 'ele', [4]), ('zb16', 'ele', [3, 4]), ('sc16', 'ele', [3]), ('rut12', 'ele_B', [4])] if T else []):
            mode, _, ele = m.partition('_')
            for n in ns:
                J.append(('every', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n}))
        for c, m, n in [('fcc4', 'all', 2), ('zb8', 'ele', 2), ('perov5', 'wy_C', 1)]:
            mode, _, ele = m.partition('_')
            J.append(('every', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n, 'again': 1}))
        for c, ele, sp, n in [('zb8', 'A', 'B', 2), ('perov5', 'C', 'A', 1), ('p1_4', 'A', 'B', 2)]:
            J.append(('every', {'cell': c, 'mode': 'ele', 'ele': ele, 'sp': sp, 'n': n}))
        for c, m, k, v, o in [
                ('fcc4', 'all', 2, [0, 1, 2], {}), ('fcc4', 'ele', 2, [0, 1, 2], {}), ('fcc4', 'ele', 1, [0, 1, 2, 3], {'third': 1}),
                ('fcc4', 'all', 1, [0, 1, 2, 3], {'third': 1}), ('p1_4', 'ele', 2, [0, 1], {'third': 1}), ('p1_4', 'all', 2, [0, 1], {'sp': 8}),
                ('rutile6', 'ele_B', 2, [2, 3, 4], {}), ('rutile6', 'wy_B', 2, [2, 3, 4], {}), ('rutile6', 'wy_B', 1, [2, 3, 4, 5], {'third': 1}),
                ('perov5', 'wy_C', 2, [2, 3, 4], {}), ('zb8', 'ele', 2, [0, 1, 2], {'sp': 8}), ('zb8', 'all', 2, [0, 1, 2], {'sp': 0}),
                ('messy5', 'ele', 3, [0, 1], {}), ('sc8', 'all', 2, [0, 3, 7], {}), ('mono4', 'wy', 2, [0, 1], {}),
                ('hcp4', 'ele', 3, [0, 1], {}), ('fcc4', 'ele', 2, [0, 1], {'again': 1}), ('p1_4', 'all', 2, [0, 1], {'again': 1}),
                ('rutile6', 'wy_B', 2, [2, 3], {'again': 1}), ('zb8', 'ele', 1, [0, 1, 2, 3], {'again': 1, 'sp': 8})] + (
                    [('fcc4', 'all', 3, [0, 1, 2], {}), ('sc8', 'all', 2, [0, 2, 5, 7], {}), ('rutile6', 'wy_B', 3, [2, 3, 4], {}),
                     ('fcc4', 'ele', 2, [0, 1, 2], {'third': 1})] if T else []):
            mode, _, ele = m.partition('_')
            J.append(('step', dict({'cell': c, 'mode': mode, 'ele': ele or 'A', 'k': k, 'vary': v}, **o)))
        J.append(('bucky_step', {'k': 1, 'on': [], 'at': list(range(60))}))
        J.append(('bucky_step', {'k': 1, 'on': [0, 59, 17], 'at': [1, 2, 30, 58]}))
        J.append(('bucky_step', {'k': 2, 'on': [], 'at': [0, 1, 31, 59]}))
        J.append(('bucky_step', {'k': 2, 'on': [5, 44], 'at': [0, 6, 43, 59], 'sp': 0}))
        J.append(('bucky_step', {'k': 1, 'on': [i for i in range(60) if i not in (3, 40, 59)], 'at': [3, 40, 59]}))
    if prop == 'C24':
        tq = [('fcc4', (1, 1)), ('fcc4', (2, 1)), ('perov5', (1, 1)), ('hcp4', (1, 2)), ('messy5', (2, 1)),
              ('sc6', (2, 2)), ('p1_4', (0, 2)), ('p1_4', (2, 0)), ('rutile6', (2, 1)), ('zb8', (1, 2)), ('p1_4', (2, 2)), ('p1_4', (1, 1)), ('p1_4', (1, 3)),
              ('tricl4', (2, 2)), ('tricl4', (1, 1)), ('ortho3', (1, 1)), ('nearfcc', (1, 2)), ('fcc4', (2, 2)), ('sc4', (3, 1)),
              ('fcc4', (0, 0)), ('fcc4', (0, 1)), ('fcc4', (3, 2)), ('p1_8', (2, 2)), ('mono4', (2, 2)), ('sc6', (3, 3))]
        tt = [('sc8', (2, 2)), ('graph8', (2, 3)), ('tri9', (2, 2)), ('fcc8', (3, 2))]
        for c, n in tq + (tt if T else []):
            J.append(('trinary', {'cell': c, 'n': list(n)}))
        for c, e, n in [('zb8', 'B', (1, 2)), ('perov5', 'C', (1, 1)), ('rutile6', 'B', (2, 1)), ('messy5', 'A', (1, 2)), ('p1_8', 'A', (2, 2)), ('p1_8', 'A', (1, 3)),
                        ('mono4', 'A', (1, 1)), ('mono4', 'B', (1, 1)), ('rutile6', 'B', (2, 2)), ('zb8', 'A', (3, 1)), ('ortho6', 'A', (2, 2))]:
            J.append(('trinary', {'cell': c, 'ele': e, 'n': list(n)}))
        for c, e, n in [('fcc4', None, (1, 2)), ('zb8', 'A', (1, 1)), ('tricl4', None, (1, 1)), ('ortho3', None, (1, 1)), ('p1_4', 'A', (1, 1)), ('sc6', None, (1, 1)), ('rutile6', 'B', (1, 2))]:
            J.append(('trinary', dict({'cell': c, 'n': list(n), 'again': 1}, **({'ele': e} if e else {}))))
        # a new species that the crystal already has on other sites
        for c, e, s, n in [('zb8', 'A', 's1', (1, 2)), ('zb8', 'A', 's2', (2, 1)), ('rutile6', 'B', 's1', (2, 1)), ('p1_4', 'A', 's2', (1, 1)),
                           ('messy5', 'A', 's1', (1, 1)), ('mono4', 'A', 's2', (1, 1))]:
            J.append(('trinary', {'cell': c, 'ele': e, 'n': list(n), s: 'B' if e == 'A' else 'A'}))
    if prop == 'C25':
        fq = [('fcc4', 2), ('hcp4', 2), ('tricl4', 2), ('fcc4', 3), ('sc4', 3), ('hcp4', 3), ('messy5', 2), ('p1_4', 2), ('p1_4', 3), ('ortho3', 3), ('mono4', 2), ('cscl', 4), ('near3', 3), ('hcp2', 4)]
        for c, k in fq + ([('fcc4', 4), ('tricl4', 5), ('graph8', 2), ('sc8', 2)] if T else []):
            J.append(('filter_stream', {'cell': c, 'k': k}))
        for c in ('graph8', 'sc8', 'bcc8') + (('fcc8', 'tri9', 'sc9') if T else ()):
            J.append(('filter_stream', {'cell': c, 'k': 2, 'two': 1}))
        for c, ks, st in [('cscl', [2, 2], 3), ('hcp2', [2, 2], 4), ('ortho3', [2, 2], 3), ('tricl4', [2, 1], 2), ('fcc4', [1, 2], 2),
                          ('ortho3', [1, 1, 1], 0), ('p1_4', [2, 1], 0)]:
            J.append(('filter_twice', {'cell': c, 'ks': ks, 'steps': st + (2 if T else 0)}))
    if prop == 'C02':
        q = [('fcc4', 'all', 4), ('fcc4', 'ele', 3), ('zb8', 'ele', 4), ('perov5', 'ele_C', 3), ('perov5', 'all', 3),
             ('rutile6', 'ele_B', 4), ('hcp4', 'ele', 4), ('graph8', 'ele', 4), ('ortho3', 'all', 3),
             ('tricl4', 'ele', 4), ('p1_4', 'ele', 3), ('messy5', 'ele', 4), ('sc6', 'ele', 4), ('sc9', 'ele', 3),
             ('rutile6', 'wy_B', 3), ('perov5', 'wy_C', 3), ('mono4', 'wy', 2), ('zb8', 'wy', 3), ('p1_4', 'wy', 4),
             ('sc8', 'ele', 4), ('fcc8', 'ele', 4), ('sc16', 'ele', 2), ('zbp16', 'ele_B', 3)]
        more = [('hcp8', 'ele', 5), ('bcc8', 'ele', 8), ('cscl16', 'ele', 4), ('rut12', 'ele_B', 4), ('sc16', 'ele', 5),
                ('zbp16', 'ele', 5), ('tri9', 'all', 6), ('perov10', 'ele_C', 4), ('graph8', 'all', 8)]
        for c, m, n in q + (more if T else []):
            mode, _, ele = m.partition('_')
            J.append(('levels', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n}))
        for c, m, n in [('fcc4', 'all', 4), ('graph8', 'ele', 3), ('perov5', 'wy_C', 3), ('tricl4', 'ele', 4)]:
            mode, _, ele = m.partition('_')
            J.append(('levels', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n, 'sched': 'late'}))
        for c, m, n, st in [('fcc4', 'ele', 3, 4), ('ortho3', 'all', 2, 5), ('perov5', 'wy_C', 2, 5),
                            ('tricl4', 'ele', 2, 5)]:
            mode, _, ele = m.partition('_')
            J.append(('levels', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n, 'sched': 'any',
                                 'steps': st + (2 if T else 0)}))
        # the substituted species already occurs elsewhere
        for c, m, sp, n in [('zb8', 'ele', 'B', 6), ('perov5', 'ele_C', 'A', 3), ('rutile6', 'ele_B', 'A', 4),
                            ('ortho3', 'all', 'B', 3), ('messy5', 'ele', 'B', 3), ('rutile6', 'ele_B', 'A', 2)]:
            mode, _, ele = m.partition('_')
            J.append(('levels', {'cell': c, 'mode': mode, 'ele': ele or 'A', 'n': n, 'sp': sp}))
        for c, calls in [('fcc4', [('all', '', 3), ('all', '', 3)]), ('fcc4', [('all', '', 2), ('all', '', 4)]),
                         ('zb8', [('ele', 'A', 2), ('ele', 'B', 3)]), ('perov5', [('ele', 'C', 2), ('all', '', 2)]),
                         ('tricl4', [('ele', 'A', 4), ('ele', 'A', 3)]), ('rutile6', [('wy', 'B', 2), ('ele', 'B', 3)]),
                         ('ortho3', [('all', '', 3), ('all', '', 3)]), ('p1_4', [('wy', 'A', 2), ('wy', 'A', 2)])]:
            for how in ('seq', 'part', 'step'):
                J.append(('levels_again', {'cell': c, 'calls': [list(x) for x in calls], 'how': how,
                                           'steps': 6 if T else 4}))
    return J
