"""Operation histories: modifiable cells (C09), random-pop sets (C16), random
walks (C15), tree search (C17)."""
from __future__ import division
from itertools import permutations
from engine.api import FakeRandom

LAT = [[4.0, 0, 0], [0.5, 5.0, 0], [0.25, 0.75, 6.0]]
ELS = [('B', 5), ('O', 8), ('Cu', 29), ('G', 0)]


# ------------------------------------------------------------------- C09
class _Maker(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.Site = ctx.mod('ababe.stru.site').Site
        self.Specie = ctx.mod('ababe.stru.element').Specie

    def site(self, symbolic=True):
        """-> (site object, (position, Z))"""
        k = self.n
        self.n += 1
        if symbolic:
            p = [self.ctx.real('p%d_%d' % (k, a), 0, 0.999) for a in range(3)]
        else:
            p = [(k * 7 % 11) / 11.0, (k * 3 % 5) / 5.0, (k * 2 % 9) / 9.0]
        name, z = ELS[(k * 3 + 1) % len(ELS)]
        e = [name, z, self.Specie(name)][k % 3]
        if z == 0 and not isinstance(e, (str, int)):
            e = self.Specie.from_num(0)
        return self.Site(p, e), (p, z)


def _same(ctx, mc, model, what):
    ctx.check(len(mc) == len(model), '%s: number of sites' % what)
    sites = list(mc)
    ctx.check(len(sites) == len(model), '%s: iteration yields every site' % what)
    for i, (s, (p, z)) in enumerate(zip(sites, model)):
        ctx.check(s.element.Z == z, '%s: element of each site' % what)
        ctx.check(ctx.closevec(list(s.position), p, 1e-9), '%s: position of each site' % what)
        t = mc[i]
        ctx.check(t.element.Z == z and len(t.position) == 3, '%s: indexing' % what)
    nums = [int(x) for x in mc.numbers.tolist()]
    ctx.check(nums == [z for _, z in model], '%s: numbers follow the sites' % what)
    pos = mc.positions.tolist()
    ctx.check(len(pos) == len(model), '%s: positions follow the sites' % what)
    for q, (p, _) in zip(pos, model):
        ctx.check(ctx.closevec(q, p, 1e-9), '%s: positions follow the sites' % what)


OPS = ['append', 'insert', 'pop', 'poplast', 'del', 'set', 'remove_sites', 'extend',
       'append_site', 'remove_site', 'append_sites', 'iadd', 'reverse', 'delslice', 'move']


def _do(ctx, op, step, mc, model, mk):
    """apply op to the cell and to the list model; both may raise IndexError"""
    n = len(model)

    def idx(lo=None, hi=None):
        lo = -n - 1 if lo is None else lo
        hi = n if hi is None else hi
        return lo + ctx.choose('i%d' % step, hi - lo + 1)
    e1 = e2 = None
    r = r2 = None
    if op in ('append', 'append_site'):
        s, m = mk.site()
        r = getattr(mc, op)(s)
        model.append(m)
        r2 = 'self' if op == 'append_site' else None
    elif op == 'insert':
        i = idx()
        s, m = mk.site()
        mc.insert(i, s)
        model.insert(i, m)
    elif op in ('pop', 'remove_site', 'del'):
        i = idx()
        try:
            m = model.pop(i)
        except IndexError:
            e2 = True
        try:
            if op == 'del':
                del mc[i]
            else:
                r = mc.pop(i) if op == 'pop' else mc.remove_site(i)
        except IndexError:
            e1 = True
        ctx.check(e1 == e2, 'an index error exactly when the site does not exist')
        if not e1 and op == 'pop':
            ctx.check(r.element.Z == m[1] and ctx.truth(ctx.closevec(list(r.position), m[0], 1e-9)),
                      'pop returns the site it removes')
            r = None
        if op == 'remove_site' and not e1:
            r2 = 'self'
    elif op == 'poplast':
        if model:
            m = model.pop()
            s = mc.pop()
            ctx.check(s.element.Z == m[1], 'pop returns the last site')
    elif op == 'set':
        i = idx()
        s, m = mk.site()
        try:
            model[i] = m
        except IndexError:
            e2 = True
        try:
            mc[i] = s
        except IndexError:
            e1 = True
        ctx.check(e1 == e2, 'an index error exactly when the site does not exist')
    elif op == 'remove_sites':
        mask = ctx.choose('m%d' % step, 2 ** (n + 1))
        ids = [i for i in range(n + 1) if mask >> i & 1]
        if ids:
            ids = ids[::-1] + ids[:1]
        r = mc.remove_sites(ids)
        model[:] = [m for i, m in enumerate(model) if i not in ids]
        r2 = 'self'
    elif op in ('extend', 'append_sites', 'iadd'):
        k = ctx.choose('k%d' % step, 3)
        new = [mk.site() for _ in range(k)]
        ss = [s for s, _ in new]
        if op == 'iadd':
            mc += ss
        else:
            r = getattr(mc, op)(ss if step % 2 else iter(ss))
            r2 = 'self' if op == 'append_sites' else None
        model.extend(m for _, m in new)
    elif op == 'reverse':
        mc.reverse()
        model.reverse()
    elif op == 'delslice':
        a = ctx.choose('a%d' % step, n + 1)
        del mc[a:]
        del model[a:]
    elif op == 'move':
        if model:
            i = idx(0, n - 1)
            p = [ctx.real('q%d_%d' % (step, a), 0, 0.999) for a in range(3)]
            mc[i].position = p
            model[i] = (p, model[i][1])
    if r2 == 'self':
        ctx.check(r is mc, 'the cell itself is returned')


def history(ctx, cfg):
    mk = _Maker(ctx)
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    init = [mk.site()[1] for _ in range(cfg['n0'])]
    mc = M(ctx.farr(LAT), ctx.farr([p for p, _ in init]), ctx.np.array([z for _, z in init]))
    model = list(init)
    _same(ctx, mc, model, 'construction')
    for step, op in enumerate(cfg['ops']):
        if op == '*':
            op = OPS[ctx.choose('op%d' % step, len(OPS))]
        if op == 'copy':
            old, oldm = mc, list(model)
            mc = mc.copy()
            ctx.check(mc is not old and type(mc) is type(old), 'a copy is another cell')
            continue
        _do(ctx, op, step, mc, model, mk)
    _same(ctx, mc, model, 'after the history')
    if 'copy' in cfg['ops']:
        _same(ctx, old, oldm, 'the copied cell is unaffected')
    L = mc.lattice.tolist()
    ctx.check(L == LAT, 'the lattice stays')
    ctx.observe('n', len(mc))


def mcell_eq(ctx, cfg):
    """cells compare equal exactly when lattice, positions and elements agree"""
    mk = _Maker(ctx)
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    n, m = cfg['n'], cfg['m']
    A = [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7], [0.35, 0.8, 0.15]][:n]
    B = [list(p) for p in [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7], [0.35, 0.8, 0.15]][:m]]
    if cfg.get('same'):
        B = [list(A[0]) for _ in range(m)]
        A = [list(A[0]) for _ in range(n)]
    za = [5, 8, 29][:n]
    zb = [5, 8, 29][:m]
    if cfg.get('same'):
        za, zb = [5] * n, [5] * m
    LB = [list(r) for r in LAT]
    diff = []
    if cfg['vary'] == 'pos':
        i, a = cfg['at']
        x = ctx.real('x', 0, 0.999)
        ctx.assume(ctx.Or(x == B[i][a], x - B[i][a] > 1e-3, B[i][a] - x > 1e-3))
        diff.append(x != B[i][a])
        B[i][a] = x
    elif cfg['vary'] == 'num':
        i = cfg['at']
        z = [5, 8, 29, 0][ctx.choose('z', 4)]
        diff.append(z != zb[i])
        zb[i] = z
    elif cfg['vary'] == 'allnum':
        za = [[5, 8, 0][ctx.choose('za%d' % i, 3)] for i in range(n)]
        zb = [[5, 8, 0][ctx.choose('zb%d' % i, 3)] for i in range(m)]
        diff.append(za != zb)
    elif cfg['vary'] == 'order':
        # the second cell lists the same sites in another order
        o = list(permutations(range(n)))[ctx.choose('order', [1, 1, 2, 6][n])]
        B, zb = [B[i] for i in o], [zb[i] for i in o]
        diff.append(list(o) != list(range(n)))
    elif cfg['vary'] == 'lat':
        i, a = cfg['at']
        x = ctx.real('x', -9, 9)
        ctx.assume(ctx.Or(x == LB[i][a], x - LB[i][a] > 1e-3, LB[i][a] - x > 1e-3))
        diff.append(x != LB[i][a])
        LB[i][a] = x
    c1 = M(ctx.farr(LAT), ctx.farr(A), ctx.np.array(za))
    c2 = M(ctx.farr(LB), ctx.farr(B), ctx.np.array(zb))
    if n != m:
        want = False
    else:
        want = ctx.Not(ctx.Or(*diff)) if diff else True
    got = bool(c1 == c2)
    ctx.observe('eq', got)
    ctx.check(ctx.Iff(got, want), 'equal exactly when lattice, positions and elements agree')
    ctx.check(ctx.Iff(bool(c2 == c1), want), 'equality is symmetric')
    ctx.check(bool(c1 == c1), 'a cell equals itself')
    ctx.check(bool(c1 != c2) == (not got), 'unequal is not equal')


def mcell_find(ctx, cfg):
    """looking a site up: position and element decide"""
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    Site = ctx.mod('ababe.stru.site').Site
    pal = [([0.25, 0.5, 0.75], 5), ([0.25, 0.5, 0.75], 8), ([0.25, 0.5, 0.0], 5), ([0.25, 0.5, 0.75], 0)]
    if cfg.get('real'):
        pal[2] = ([ctx.real('x', 0, 0.99), 0.5, 0.75], 5)
    model = [pal[ctx.choose('s%d' % i, len(pal))] for i in range(cfg['n'])]
    mc = M(ctx.farr(LAT), ctx.farr([p for p, _ in model]), ctx.np.array([z for _, z in model]))
    p, z = pal[ctx.choose('probe', len(pal))]
    s = Site(p, z)

    def same(m):
        return m[1] == z and all(ctx.truth(a == b) for a, b in zip(m[0], p))
    hit = [i for i, m in enumerate(model) if same(m)]
    for i, m in enumerate(model):
        ctx.check(bool(mc[i] == s) == (i in hit), 'sites are equal exactly when position and element agree')
    op = cfg['op']
    if op == 'in':
        ctx.check(bool(s in mc) == bool(hit), 'a site is contained exactly when position and element agree')
    elif op == 'count':
        ctx.check(mc.count(s) == len(hit), 'the number of equal sites')
    else:
        err, k = False, None
        try:
            k = mc.index(s) if op == 'index' else mc.remove(s)
        except ValueError:
            err = True
        ctx.check(err == (not hit), 'an error exactly when there is no such site')
        if op == 'index' and hit:
            ctx.check(k == hit[0], 'the first equal site is found')
        if op == 'remove' and hit:
            del model[hit[0]]
    _same(ctx, mc, model, 'after ' + op)
    ctx.observe('n', len(mc))


def mcell_conv(ctx, cfg):
    """fixed cell -> modifiable cell -> edits -> fixed cell keeps every site"""
    mk = _Maker(ctx)
    M = ctx.mod('ababe.stru.scaffold').ModifiedCell
    P = [[0.1, 0.2, 0.3], [0.6, 0.5, 0.7], [0.35, 0.8, 0.15]][:cfg['n']]
    P = [list(p) for p in P]
    for i, a in cfg['free']:
        P[i][a] = ctx.real('x%d_%d' % (i, a), 0, 0.99)
    Z = [5, 8, 29][:cfg['n']]
    g = ctx.GeneralCell(LAT, P, Z)
    mc = M.from_gcell(g)
    gp, gn = g.positions.tolist(), [int(x) for x in g.numbers.tolist()]
    _same(ctx, mc, list(zip(gp, gn)), 'from the fixed cell')
    model = list(zip(gp, gn))
    for step, op in enumerate(cfg.get('ops', [])):
        _do(ctx, op, step, mc, model, mk)
    ctx.assume(len(model) > 0)
    h = mc.to_gcell()
    hp, hn = h.positions.tolist(), [int(x) for x in h.numbers.tolist()]
    ctx.check(len(hp) == len(hn) == len(model), 'every site is kept')
    left = list(range(len(hp)))
    for p, z in model:
        hit = [k for k in left if hn[k] == z and ctx.truth(ctx.closevec(hp[k], p, 1e-9))]
        ctx.check(bool(hit), 'every site is kept')
        left.remove(hit[0])
    ctx.check(h.lattice.tolist() == LAT, 'the lattice stays')
    # the source is untouched by edits
    ctx.check([int(x) for x in g.numbers.tolist()] == gn, 'the source cell is unaffected')
    ctx.check(ctx.And(*[ctx.closevec(a, b, 1e-12) for a, b in zip(g.positions.tolist(), gp)]),
              'the source cell is unaffected')
    ctx.observe('Z', hn)


# ------------------------------------------------------------------- C16
SOPS = ['add', 'push', 'discard', 'random_pop', 'get_random', 'remove', 'ior', 'isub', 'contains', 'clear']


def popset(ctx, cfg):
    """a random-pop set is a set, for every history"""
    ds = ctx.mod('ababe.mlearn.dsutils')
    R = cfg.get('range', 50)
    cnt = [0]

    def item():
        cnt[0] += 1
        v = ctx.int('v%d' % cnt[0], 0, R)
        return (v, 0) if cfg.get('tuples') else v

    model = []          # distinct items

    def has(x):
        return ctx.truth(ctx.Or(*[_eq(ctx, x, y) for y in model]))

    def m_add(x):
        if not has(x):
            model.append(x)

    def m_del(x):
        for y in list(model):
            if ctx.truth(_eq(ctx, x, y)):
                model.remove(y)
                return
    with ctx.random():
        # another set, in use at the same time
        o = ds.RandomPopSet()
        o.add(('other', 1))
        o.add(('other', 2))
        if cfg['n0'] is None:
            s = ds.RandomPopSet()
        else:
            xs = [item() for _ in range(cfg['n0'])]
            s = ds.RandomPopSet(xs)
            for x in xs:
                m_add(x)
        for step, op in enumerate(cfg['ops']):
            if op == '*':
                op = SOPS[ctx.choose('op%d' % step, len(SOPS))]
            if op in ('add', 'push'):
                x = item()
                getattr(s, op)(x)
                m_add(x)
            elif op == 'discard':
                x = item()
                s.discard(x)
                m_del(x)
            elif op == 'remove':
                x = item()
                there = has(x)
                try:
                    s.remove(x)
                    err = False
                except KeyError:
                    err = True
                ctx.check(err == (not there), 'removing raises exactly for absent items')
                m_del(x)
            elif op == 'random_pop':
                x = s.random_pop()
                if not model:
                    ctx.check(x is None, 'nothing to pop')
                else:
                    ctx.check(x is not None and has(x), 'a popped item was a member')
                    m_del(x)
                    ctx.check(not bool(x in s), 'a popped item is no longer a member')
            elif op == 'get_random':
                x = s.get_random()
                if model:
                    ctx.check(x is not None and has(x), 'a drawn item is a member')
                else:
                    ctx.check(x is None, 'nothing to draw')
            elif op == 'ior':
                xs = [item(), item()]
                s |= xs
                for x in xs:
                    m_add(x)
            elif op == 'isub':
                x = item()
                s -= [x]
                m_del(x)
            elif op == 'contains':
                x = item()
                ctx.check(bool(x in s) == has(x), 'membership')
            elif op == 'clear':
                s.clear()
                model[:] = []
            ctx.check(len(s) == len(model), 'the size is the number of distinct members')
        ctx.check(len(s) == len(model), 'the size is the number of distinct members')
        ctx.check(len(o) == 2 and ('other', 1) in o and ('other', 2) in o, 'another set is unaffected')
        got = list(s)
        ctx.check(len(got) == len(model), 'iteration yields every member once')
        for y in model:
            ctx.check(bool(y in s), 'every member is found')
            ctx.check(ctx.Or(*[_eq(ctx, y, g) for g in got]), 'iteration yields every member once')
        # draining by random pops yields every member exactly once
        if cfg.get('drain', True):
            out = []
            for _ in range(len(model)):
                x = s.random_pop()
                ctx.check(x is not None and has(x), 'draining yields the members')
                m_del(x)
                out.append(x)
            ctx.check(len(s) == 0 and not model, 'draining empties the set')
            ctx.check(s.random_pop() is None, 'an empty set pops nothing')
    ctx.observe('n', len(got))


class _Script(object):
    """stands in for the context of the random numbers: the k-th of all
    sequences of draws"""

    def __init__(self, ctx, k):
        self.np = ctx.np
        self.k = k

    def _digit(self, n):
        d = self.k % n
        self.k //= n
        return d

    def int(self, name, lo, hi):
        return lo + self._digit(hi - lo + 1)

    def choose(self, name, n):
        return self._digit(n)

    def real(self, name, lo, hi):
        return lo + (hi - lo) * (self._digit(24) + 0.5) / 24.0

    def assume(self, c):
        pass


def popany(ctx, cfg):
    """whatever the history, every member can be the one drawn"""
    ds = ctx.mod('ababe.mlearn.dsutils')
    n = cfg['n']
    xs = [ctx.int('v%d' % i, 0, 50) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(xs[i] != xs[j])
    drop = [ctx.choose('d%d' % i, n) for i in range(cfg['drops'])]
    left = [x for i, x in enumerate(xs) if i not in drop]
    got = []
    for k in range(24):
        with ctx.random(lambda c: FakeRandom(_Script(c, k))):
            s = ds.RandomPopSet(xs)
            for i in drop:
                s.discard(xs[i])
            x = getattr(s, cfg['op'])()
        if left:
            ctx.check(x is not None, 'something is drawn')
            got.append(x)
    for y in left:
        ctx.check(ctx.Or(*[x == y for x in got]), 'every member can be the one drawn')
    ctx.observe('n', len(left))


def _eq(ctx, x, y):
    if isinstance(x, tuple):
        return ctx.And(*[a == b for a, b in zip(x, y)])
    return x == y


# ------------------------------------------------------------------- C15
def walk_graph(ctx, cfg):
    """random walk over an arbitrary graph"""
    n, goal = cfg['n'], cfg['goal']
    ar = ctx.mod('ababe.mlearn.arrange')
    E = {}
    for i in range(n):
        for j in range(i):
            E[(j, i)] = ([j, i] in cfg['edges']) if 'edges' in cfg else ctx.bool('e%d_%d' % (j, i))

    def adj(i, j):
        return ctx.truth(E[(min(i, j), max(i, j))])
    start = ctx.choose('start', n) if 'start' not in cfg else cfg['start']
    # enough sites can be reached
    seen, todo = {start}, [start]
    while todo and len(seen) < goal:
        i = todo.pop()
        for j in range(n):
            if j not in seen and adj(i, j):
                seen.add(j)
                todo.append(j)
    ctx.assume(len(seen) >= goal)
    asked = []

    class Problem(ar.ArrangeProblem):
        def get_start_position(self):
            return (start, 0)

        def is_goal(self, k):
            return k == goal

        def get_neighbors(self, p):
            asked.append(p)
            return [(j, 0) for j in range(n) if j != p[0] and adj(p[0], j)]
    with ctx.random():
        pr = Problem()
        if cfg.get('warm'):
            # walked before: the same problem, or another graph
            if ctx.choose('warm', 2):
                ar.random_walk_arrange(pr)
            else:
                class Line(Problem):
                    def get_neighbors(self, p):
                        return [((p[0] + 1) % n, 0), ((p[0] - 1) % n, 0)]
                ar.random_walk_arrange(Line())
        path = ar.random_walk_arrange(pr)
    path = [p[0] if p is not None else None for p in path]
    ctx.observe('len', len(path))
    ctx.check(len(path) == goal, 'the walk has the requested number of sites')
    ctx.check(path[0] == start, 'the walk begins at the start position')
    ctx.check(None not in path and len(set(path)) == goal, 'no site is visited twice')
    for k in range(1, len(path)):
        ctx.check(any(adj(path[k], q) for q in path[:k]),
                  'every site is a neighbour of an earlier one')


def walk_abstract(ctx, cfg):
    """an arrangement problem that lacks operations"""
    ar = ctx.mod('ababe.mlearn.arrange')
    goal = ctx.choose('goal', 3) + 1
    lacks = [ctx.bool('lacks%d' % k) for k in range(3)]
    lacks = [ctx.truth(v) for v in lacks]
    d = {}
    if not lacks[0]:
        d['get_start_position'] = lambda self: (0, 0)
    if not lacks[1]:
        d['is_goal'] = lambda self, k: k == goal
    if not lacks[2]:
        d['get_neighbors'] = lambda self, p: [(p[0] + 1, 0), (p[0] - 1, 0)]
    pr = type('Partial', (ar.ArrangeProblem,), d)()
    # the operations are asked for in this order
    first = [n for n, v in zip(('get_start_position', 'get_neighbors', 'is_goal'), (lacks[0], lacks[2], lacks[1])) if v]
    path, code = None, None
    with ctx.random():
        with ctx.capture() as cap:
            try:
                path = ar.random_walk_arrange(pr)
            except SystemExit as e:
                code = e.code
    said = cap.text() + str(code)
    if first:
        ctx.check(path is None and code not in (None, 0), 'a problem without one of its operations ends the run with an error')
        ctx.check(any(n in said for n in first), 'and names an operation that is missing')
    else:
        ctx.check(path is not None and len(path) == goal and len(set(path)) == goal, 'a complete problem is walked')


def walk_lattice(ctx, cfg):
    """the two built-in arrangement problems"""
    ag = ctx.mod('ababe.mlearn.arrangeAgent')
    ar = ctx.mod('ababe.mlearn.arrange')
    g = cfg['goal']
    if cfg['kind'] == 'boron':
        pr = ag.Boron2dArrangeProblem(g)
        m = [[2, 0], [1, 1.732058]]
    else:
        pr = ag.FCC3dArrangeProblem(g)
        m = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
    dim = len(m)
    with ctx.random():
        if cfg.get('warm'):
            w = ctx.choose('warm', 3)
            if w == 0:
                ar.random_walk_arrange(pr)
            elif w == 1:
                ar.random_walk_arrange(ag.Boron2dArrangeProblem(2))
            else:
                ar.random_walk_arrange(ag.FCC3dArrangeProblem(2))
        path = ar.random_walk_arrange(pr)
    ctx.observe('len', len(path))
    ctx.check(len(path) == g, 'the walk has the requested number of sites')
    ctx.check(tuple(path[0]) == (g // 2,) * dim, 'the walk begins at the middle of the grid')
    ctx.check(len(set(tuple(p) for p in path)) == g, 'no site is visited twice')
    for k, p in enumerate(path):
        ctx.check(len(p) == dim and all(0 <= x < g for x in p), 'sites lie on the grid')
        if k:
            ok = False
            for q in path[:k]:
                d = [sum((p[a] - q[a]) * m[a][b] for a in range(dim)) for b in range(dim)]
                ok = ok or sum(x * x for x in d) <= 2.1 ** 2 + 1e-9
            ctx.check(ok, 'every site lies within the neighbour distance of an earlier one')


def lattice_problem(ctx, cfg):
    """what the two built-in problems say about every position of their grid"""
    ag = ctx.mod('ababe.mlearn.arrangeAgent')
    g = ctx.choose('goal', cfg['goal']) + 1
    if cfg['kind'] == 'boron':
        pr = ag.Boron2dArrangeProblem(g)
        m = [[2, 0], [1, 1.732058]]
    else:
        pr = ag.FCC3dArrangeProblem(g)
        m = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
    dim = len(m)
    p = tuple(ctx.choose('p%d' % a, g) for a in range(dim))
    import itertools
    want = set()
    for q in itertools.product(range(g), repeat=dim):
        d = [sum((p[a] - q[a]) * m[a][b] for a in range(dim)) for b in range(dim)]
        if q != p and sum(x * x for x in d) <= 2.1 ** 2:
            want.add(q)
    ctx.check(tuple(pr.get_start_position()) == (g // 2,) * dim, 'the start is the middle of the grid')
    for again in range(2):
        got = [tuple(q) for q in pr.get_neighbors(p)]
        ctx.check(sorted(got) == sorted(want),
                  'the neighbours are the other grid points within the distance, each once')
    k = ctx.choose('len', 2 * g + 1)
    ctx.check(bool(pr.is_goal(k)) == (k == g), 'the goal is reached at the requested number of sites')


# ------------------------------------------------------------------- C17
class Game(object):
    """a game whose states are move sequences; all outcomes are inputs"""

    def __init__(self, ctx, arity, depth):
        self.ctx = ctx
        self.arity = arity
        self.depth = depth
        self.vals = {}
        self.pri = {}
        self.win = {}
        self.log = []

    def moves(self, seq):
        return [] if len(seq) >= self.depth else list(range(self.arity))

    def prior(self, seq, a):
        k = (tuple(seq), a)
        if k not in self.pri:
            self.pri[k] = self.ctx.real('P%s' % _nm(seq + (a,)), 0, 1)
        return self.pri[k]

    def value(self, seq):
        if seq not in self.vals:
            self.vals[seq] = self.ctx.real('V%s' % _nm(seq), -1, 1)
        return self.vals[seq]


def _nm(seq):
    return ''.join(str(x) for x in seq) or 'r'


class State(object):
    def __init__(self, game, seq):
        self.game = game
        self.seq = tuple(seq)

    def copy(self):
        return State(self.game, self.seq)

    def do_move(self, a):
        self.seq = self.seq + (a,)

    def get_current_player(self):
        return 1 if len(self.seq) % 2 == 0 else -1

    def get_winner(self):
        k = self.seq
        if k not in self.game.win:
            self.game.win[k] = self.game.ctx.choose('W%s' % _nm(k), 3) - 1
        return self.game.win[k]


def _pstr(x):
    return x


def mcts(ctx, cfg):
    """search statistics against a ledger of the playouts"""
    mod = ctx.mod('ababe.mlearn.mcts')
    game = Game(ctx, cfg['arity'], cfg['depth'])
    c = cfg.get('c', 5)
    if c == 'sym':
        c = ctx.real('c', 0.01, 8)
    lm = cfg.get('lmbda', 0)
    L = cfg.get('L', 2)
    NP = cfg['n']
    evals = []          # (sequence at the leaf, contribution)
    rolls = []

    def value_fn(s):
        evals.append(s.seq)
        return game.value(s.seq)

    def policy_fn(s):
        return [(a, game.prior(s.seq, a)) for a in game.moves(s.seq)]

    def rollout_fn(s):
        ms = game.moves(s.seq)
        rolls.append(s.seq)
        return [(a, 1 if a == len(s.seq) % max(1, len(ms)) else 0) for a in ms]
    kw = dict(lmbda=lm, c_puct=c, playout_depth=L, n_playout=NP, rollout_limit=cfg.get('limit', 10))
    t = mod.MCTS(value_fn, policy_fn, rollout_fn, **kw)

    if cfg.get('second'):
        # another search with its own tree, run in between
        t2 = mod.MCTS(lambda s: 0.5, policy_fn, rollout_fn, **kw)
        t2.get_move(State(game, ()))

    class N(object):
        """ledger entry of one node"""
        def __init__(self, prior):
            self.n = 0
            self.q = 0
            self.tot = 0
            self.u = prior
            self.p = prior
            self.kids = None
    root = N(1.0)
    base = ()
    state = State(game, base)

    def book(leaf):
        """check the descent to `leaf` against the ledger, then update it"""
        node, path = root, [root]
        ctx.check(leaf[:len(base)] == base, 'playouts start at the current state')
        seq = leaf[len(base):]
        ctx.check(len(seq) <= L, 'playouts stop at the depth limit')
        for k, a in enumerate(seq):
            if node.kids is None:
                node.kids = {b: N(game.prior(base + seq[:k], b)) for b in game.moves(base + seq[:k])}
            ctx.check(a in node.kids, 'moves come from the policy')
            me = node.kids[a]
            for b, o in sorted(node.kids.items()):
                if b != a:
                    ctx.check(me.q + me.u >= o.q + o.u - 1e-9,
                              'each step takes a child of greatest value plus bonus')
            node = me
            path.append(me)
        if len(seq) < L:
            ctx.check(game.moves(leaf) == [], 'playouts end early only at the end of the game')
            node.kids = node.kids or {}
        # leaf value
        v = game.value(leaf) if lm < 1 else 0
        z = 0
        if lm > 0:
            end = leaf
            me = 1 if len(leaf) % 2 == 0 else -1
            for _ in range(kw['rollout_limit']):
                ms = game.moves(end)
                if not ms:
                    break
                end = end + (len(end) % len(ms),)
            w = game.win.get(end)
            ctx.check(w is not None, 'the rollout plays the best move of its policy to the end')
            z = 0 if w == 0 else (1 if w == me else -1)
        val = (1 - lm) * v + lm * z
        for d, x in enumerate(path):
            x.n += 1
            x.tot = x.tot + val
            x.q = x.tot / x.n if not isinstance(x.tot, int) else float(x.tot) / x.n
            if d:
                x.u = c * x.p * (path[d - 1].n ** 0.5) / (1 + x.n)
    moves = []
    for rnd in range(cfg.get('rounds', 1)):
        del evals[:]
        leafs = []
        if lm < 1:
            a = t.get_move(state)
            leafs = list(evals)
        else:
            # value function unused: leaves are the first rollout states
            del rolls[:]
            a = t.get_move(state)
            prev = None
            for s in rolls:
                if prev is None or not (len(s) == len(prev) + 1 and s[:-1] == prev):
                    leafs.append(s)
                prev = s
            ctx.check(not evals, 'the value function is skipped when only rollouts count')
        ctx.check(state.seq == base, "the caller's state is left untouched")
        ctx.check(len(leafs) == NP, 'the requested number of playouts is run')
        for s in leafs:
            book(s)
        best = max(k.n for k in root.kids.values())
        ctx.check(a in root.kids and root.kids[a].n == best, 'the most visited action is returned')
        ctx.observe('leafs%d' % rnd, len(leafs))
        moves.append(a)
        if rnd + 1 < cfg.get('rounds', 1):
            if cfg.get('other'):
                a = (a + 1) % cfg['arity']
            if cfg.get('stay'):
                # the search goes on from the same state
                continue
            if cfg.get('foreign'):
                t.update_with_move(97)
                root = N(1.0)
                base = base + (0,)
                state = State(game, base)
                continue
            t.update_with_move(a)
            root = root.kids[a]
            base = base + (a,)
            state = State(game, base)
            if game.moves(base) == []:
                return


def treenode(ctx, cfg):
    """running statistics of single nodes for every sequence of evaluations"""
    mod = ctx.mod('ababe.mlearn.mcts')
    root = mod.TreeNode(None, 1.0)
    ctx.check(bool(root.is_root()) and bool(root.is_leaf()), 'a fresh node is a root and a leaf')
    k = cfg['k']
    c = ctx.real('c', 0.01, 9)
    P = [ctx.real('P%d' % i, 0, 1) for i in range(k)]
    root.expand([(i, P[i]) for i in range(k)])
    ctx.check(not bool(root.is_leaf()), 'an expanded node is no leaf')
    # expanding again never replaces what is known
    a0, n0 = root.select()
    kids = {}
    for i in range(k):
        pass
    ctx.check(ctx.And(*[P[a0] >= p for p in P]), 'before any visit the greatest prior is selected')
    ctx.check(not bool(n0.is_root()) and bool(n0.is_leaf()), 'children are leaves below the root')
    vals = {}
    seen = {a0: n0}
    allv = []
    for s in range(cfg['steps']):
        a, node = root.select()
        exp = {}
        for i in range(k):
            vs = vals.get(i, [])
            n = len(vs)
            q = sum(vs[1:], vs[0]) / n if n else 0
            exp[i] = (q, n)
        seen.setdefault(a, node)
        ctx.check(seen[a] is node, 'a child keeps its identity')
        v = ctx.real('v%d' % s, -1, 1)
        node.update_recursive(v, c)
        allv.append(v)
        vals.setdefault(a, []).append(v)
        n = len(vals[a])
        q = sum(vals[a][1:], vals[a][0]) / n
        u = c * P[a] * (len(allv) ** 0.5) / (1 + n)
        ctx.check(ctx.close(node.get_value(), q + u, 1e-6),
                  'the value of a node is the mean of its evaluations plus the exploration bonus')
        tot = sum(allv[1:], allv[0]) / len(allv)
        ctx.check(ctx.close(root.get_value(), tot + 1.0, 1e-6),
                  'the root averages every evaluation below it')
        root.expand([(i, 0.77) for i in range(k)])
        b, bn = root.select()
        if b in seen:
            ctx.check(seen[b] is bn, 'expanding again keeps the known children')
    ctx.observe('value', root.get_value())


def jobs(prop, tier):
    T = tier == 'thorough'
    J = []
    if prop == 'C09':
        for op in OPS:
            J.append(('history', {'n0': 2, 'ops': [op, '*']}))
            J.append(('history', {'n0': 1, 'ops': ['copy', op, '*'] if not T else ['copy', op, '*', '*']}))
            J.append(('history', {'n0': 2, 'ops': ['append', op, 'remove_sites', 'append']}))
        if T:
            for op in OPS:
                for op2 in OPS:
                    J.append(('history', {'n0': 2, 'ops': [op, op2, '*']}))
        for n, m in ((1, 1), (2, 2), (3, 3)):
            for at in ([0, 0], [n - 1, 2]):
                J.append(('mcell_eq', {'n': n, 'm': m, 'vary': 'pos', 'at': at}))
            J.append(('mcell_eq', {'n': n, 'm': m, 'vary': 'num', 'at': n - 1}))
            J.append(('mcell_eq', {'n': n, 'm': m, 'vary': 'lat', 'at': [n - 1, 0]}))
        for n, m in ((1, 2), (2, 1), (2, 3), (3, 1)):
            J.append(('mcell_eq', {'n': n, 'm': m, 'vary': None}))
            J.append(('mcell_eq', {'n': n, 'm': m, 'vary': None, 'same': 1}))
        for n in (1, 2, 3):
            J.append(('mcell_eq', {'n': n, 'm': n, 'vary': 'order'}))
            if n < 3 or T:
                J.append(('mcell_eq', {'n': n, 'm': n, 'vary': 'allnum'}))
        for op in ('in', 'count', 'index', 'remove'):
            for n in (1, 2) + ((3,) if T or op == 'remove' else ()):
                J.append(('mcell_find', {'n': n, 'op': op}))
            J.append(('mcell_find', {'n': 2, 'op': op, 'real': 1}))
        for n in (1, 2, 3):
            for a in range(3):
                J.append(('mcell_conv', {'n': n, 'free': [[n - 1, a]]}))
        J.append(('mcell_conv', {'n': 2, 'free': [], 'ops': ['append', 'remove_sites']}))
        J.append(('mcell_conv', {'n': 2, 'free': [], 'ops': ['append', 'reverse', 'set']}))
    if prop == 'C16':
        for op in SOPS:
            J.append(('popset', {'n0': 2, 'ops': [op, '*']}))
            J.append(('popset', {'n0': None, 'ops': ['add', op, '*'], 'tuples': 1}))
            J.append(('popset', {'n0': 3, 'ops': [op] if not T else [op, '*']}))
        if T:
            for op in SOPS:
                for op2 in SOPS:
                    J.append(('popset', {'n0': 2, 'ops': [op, op2, '*'], 'drain': False}))
        J.append(('popset', {'n0': 0, 'ops': ['random_pop', 'get_random', 'add', 'random_pop']}))
        J.append(('popset', {'n0': 3, 'ops': ['random_pop', 'discard', 'add']}))
        J.append(('popset', {'n0': 4, 'ops': ['discard'], 'drain': True}))
        for op in ('random_pop', 'get_random'):
            for n, d in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (4, 2)) + (((5, 2), (6, 1)) if T else ()):
                J.append(('popany', {'n': n, 'drops': d, 'op': op}))
    if prop == 'C15':
        for n in (1, 2, 3, 4) + ((5,) if T else ()):
            for g in range(1, n + 1):
                J.append(('walk_graph', {'n': n, 'goal': g}))
        if not T:
            J.append(('walk_graph', {'n': 5, 'goal': 2}))
        for n, g in ((2, 2), (3, 2), (3, 3)) + (((4, 3),) if T else ()):
            J.append(('walk_graph', {'n': n, 'goal': g, 'warm': 1}))
        J.append(('walk_lattice', {'kind': 'boron', 'goal': 2, 'warm': 1}))
        J.append(('walk_lattice', {'kind': 'fcc', 'goal': 2, 'warm': 1}))
        J.append(('walk_lattice', {'kind': 'boron', 'goal': 3, 'warm': 1}))
        # larger graphs, every random choice
        ring6 = [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [0, 5]]
        k33 = [[i, j] for i in range(3) for j in range(3, 6)]
        k5 = [[i, j] for j in range(5) for i in range(j)]
        wheel = [[0, i] for i in range(1, 6)] + [[1, 2], [2, 3], [3, 4], [4, 5], [1, 5]]
        for nm, n, ed in (('ring6', 6, ring6), ('chord6', 6, ring6 + [[0, 3]]), ('path6', 6, ring6[:5]), ('k5', 5, k5)) \
                + ((('k33', 6, k33), ('wheel', 6, wheel)) if T else ()):
            J.append(('walk_graph', {'n': n, 'goal': n, 'edges': ed, 'start': 0 if nm != 'path6' else 2}))
            J.append(('walk_graph', {'n': n, 'goal': n - 1, 'edges': ed, 'start': 1}))
        J.append(('walk_graph', {'n': 7, 'goal': 7, 'edges': [[0, i] for i in range(1, 5)] + [[1, 5], [2, 6]], 'start': 5}))
        J.append(('walk_abstract', {}))
        J.append(('lattice_problem', {'kind': 'boron', 'goal': 5 if not T else 7}))
        J.append(('lattice_problem', {'kind': 'fcc', 'goal': 3 if not T else 4}))
        for k in ('boron', 'fcc'):
            for g in (1, 2, 3) + ((4,) if T or k == 'boron' else ()):
                J.append(('walk_lattice', {'kind': k, 'goal': g}))
    if prop == 'C17':
        for k in (1, 2, 3):
            J.append(('treenode', {'k': k, 'steps': 3 if not T else 4}))
        J.append(('treenode', {'k': 1, 'steps': 6}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 3}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 2, 'n': 3}))
        J.append(('mcts', {'arity': 3, 'depth': 3, 'L': 1, 'n': 4}))
        J.append(('mcts', {'arity': 2, 'depth': 1, 'L': 3, 'n': 3, 'c': 'sym'}))
        J.append(('mcts', {'arity': 2, 'depth': 2, 'L': 3, 'n': 3}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 2, 'n': 2, 'rounds': 2}))
        J.append(('mcts', {'arity': 2, 'depth': 4, 'L': 2, 'n': 2, 'rounds': 2, 'other': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 4, 'L': 2, 'n': 2, 'rounds': 2, 'foreign': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 2, 'rounds': 2, 'stay': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 1, 'rounds': 3, 'stay': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 2, 'n': 2, 'second': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 2, 'lmbda': 0.5}))
        J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 2, 'lmbda': 1}))
        J.append(('mcts', {'arity': 2, 'depth': 2, 'L': 1, 'n': 2, 'lmbda': 0.25, 'c': 'sym'}))
        if T:
            J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 2, 'n': 4}))
            J.append(('mcts', {'arity': 3, 'depth': 3, 'L': 2, 'n': 3}))
            J.append(('mcts', {'arity': 2, 'depth': 4, 'L': 3, 'n': 3, 'rounds': 2}))
            J.append(('mcts', {'arity': 2, 'depth': 3, 'L': 1, 'n': 5}))
    return J
