"""Models of the libraries the package imports (symbolic side only).

Each model implements the documented contract of the functions the package
uses; anything else raises Unsupported, which ends the path as a recorded gap.
"""
import builtins
import collections
import collections.abc
import enum
import io
import itertools
import math
import re
import types

import numpy as np

from . import sym, snp, containers, geom
from .sym import SymNum, SymBool, SymSqrt, SymMin, Unsupported, is_sym, And, Or
from .snp import mk, norm, has_sym, SArr, s_sqrt
from .containers import SymDigest, CDigest, CHex, SymDict, SymCounter, SymOrderedDict, SymDefaultDict, SymSet


# -- xxhash (reference implementation for concrete content) --------------------
M64 = (1 << 64) - 1
P64 = (11400714785074694791, 14029467366897019727, 1609587929392839161,
       9650029242287828579, 2870177450012600261)
M32 = (1 << 32) - 1
P32 = (2654435761, 2246822519, 3266489917, 668265263, 374761393)


def _r64(x, r):
    return ((x << r) | (x >> (64 - r))) & M64


def _round64(a, v):
    return (_r64((a + v * P64[1]) & M64, 31) * P64[0]) & M64


def xxh64(b, seed=0):
    n, i = len(b), 0
    if n >= 32:
        v = [(seed + P64[0] + P64[1]) & M64, (seed + P64[1]) & M64, seed, (seed - P64[0]) & M64]
        while i <= n - 32:
            for k in range(4):
                v[k] = _round64(v[k], int.from_bytes(b[i:i + 8], 'little'))
                i += 8
        h = (_r64(v[0], 1) + _r64(v[1], 7) + _r64(v[2], 12) + _r64(v[3], 18)) & M64
        for k in range(4):
            h = ((h ^ _round64(0, v[k])) * P64[0] + P64[3]) & M64
    else:
        h = (seed + P64[4]) & M64
    h = (h + n) & M64
    while i + 8 <= n:
        h ^= _round64(0, int.from_bytes(b[i:i + 8], 'little'))
        h = (_r64(h, 27) * P64[0] + P64[3]) & M64
        i += 8
    if i + 4 <= n:
        h ^= (int.from_bytes(b[i:i + 4], 'little') * P64[0]) & M64
        h = (_r64(h, 23) * P64[1] + P64[2]) & M64
        i += 4
    while i < n:
        h ^= (b[i] * P64[4]) & M64
        h = (_r64(h, 11) * P64[0]) & M64
        i += 1
    h ^= h >> 33
    h = (h * P64[1]) & M64
    h ^= h >> 29
    h = (h * P64[2]) & M64
    return h ^ (h >> 32)


def _r32(x, r):
    return ((x << r) | (x >> (32 - r))) & M32


def xxh32(b, seed=0):
    n, i = len(b), 0
    if n >= 16:
        v = [(seed + P32[0] + P32[1]) & M32, (seed + P32[1]) & M32, seed, (seed - P32[0]) & M32]
        while i <= n - 16:
            for k in range(4):
                v[k] = (_r32((v[k] + int.from_bytes(b[i:i + 4], 'little') * P32[1]) & M32, 13) * P32[0]) & M32
                i += 4
        h = (_r32(v[0], 1) + _r32(v[1], 7) + _r32(v[2], 12) + _r32(v[3], 18)) & M32
    else:
        h = (seed + P32[4]) & M32
    h = (h + n) & M32
    while i + 4 <= n:
        h = (_r32((h + int.from_bytes(b[i:i + 4], 'little') * P32[2]) & M32, 17) * P32[3]) & M32
        i += 4
    while i < n:
        h = (_r32((h + b[i] * P32[4]) & M32, 11) * P32[0]) & M32
        i += 1
    h ^= h >> 15
    h = (h * P32[1]) & M32
    h ^= h >> 13
    h = (h * P32[2]) & M32
    return h ^ (h >> 16)


class _XX(object):
    def __init__(self, fn, width, data=None, seed=0):
        self.fn, self.width, self.seed = fn, width, seed
        self.parts = []
        if data is not None:
            self.update(data)

    def update(self, data):
        if isinstance(data, (SArr,)) or has_sym(data):
            kind = 'i' if all(getattr(e, 'isint', isinstance(e, (int, np.integer)))
                              for e in mk(data).flat) else 'f'
            self.parts.append((kind, list(mk(data).flat)))
        elif isinstance(data, snp.SymBytes):
            self.parts.append(('i', list(data.xs)))
        elif isinstance(data, np.ndarray):
            if not data.flags['C_CONTIGUOUS']:
                raise BufferError('ndarray is not C-contiguous')
            if data.dtype == np.int64:
                self.parts.append(('i', data.reshape(-1).tolist()))
            else:
                self.parts.append(('raw', list(data.tobytes())))
        elif isinstance(data, str):
            if any(0xE000 <= ord(c) < 0xF8FF for c in data):
                self.parts.append(('str', [data]))
            else:
                self.parts.append(('raw', list(data.encode())))
        elif isinstance(data, (bytes, bytearray, memoryview)):
            data = bytes(data)
            self.parts.append(('raw', list(data)))
        else:
            raise TypeError("a bytes-like object is required, not %r" % type(data).__name__)

    def content(self):
        if len(self.parts) == 1:
            return self.parts[0]
        return ('multi', [x for k, xs in self.parts for x in ([len(xs)] + xs)])

    def intdigest(self):
        c = self.content()
        if self.width < 64:
            sym.cur().flags.add('narrow-digest')
        if any(is_sym(x) for x in c[1]) or c[0] in ('str', 'multi', 'f'):
            return SymDigest(c, self.width, self.fn.__name__, self.seed)
        if c[0] == 'i':
            raw = np.array(c[1], dtype=np.int64).tobytes()
        else:
            raw = bytes(c[1])
        d = CDigest(self.fn(raw, self.seed))
        d.content = c if c[0] == 'i' else ('i', np.frombuffer(raw, dtype=np.int64).tolist()) \
            if len(raw) % 8 == 0 else c
        d.width = d.bits = self.width
        d.fn, d.seed = self.fn.__name__, self.seed
        return d

    def hexdigest(self):
        d = self.intdigest()
        if isinstance(d, SymDigest):
            d.form = 'hex'
            return d
        r = CHex('%0*x' % (self.width // 4, d))
        r.content, r.width, r.bits, r.fn, r.seed = d.content, d.width, d.bits, d.fn, d.seed
        return r

    def digest(self):
        d = self.intdigest()
        return d if isinstance(d, SymDigest) else int(d).to_bytes(self.width // 8, 'big')


def _xx(fn, width):
    def mkh(data=None, seed=0):
        return _XX(fn, width, data, seed)
    return mkh


def xx_module():
    m = types.SimpleNamespace()
    m.xxh64, m.xxh32 = _xx(xxh64, 64), _xx(xxh32, 32)
    m.xxh3_64 = m.xxh64
    m.xxh128 = m.xxh3_128 = _xx(lambda b, s: (xxh64(b, s) << 64) | xxh64(b, s + 1), 128)
    m.xxh64_intdigest = lambda d, seed=0: m.xxh64(d, seed).intdigest()
    m.xxh32_intdigest = lambda d, seed=0: m.xxh32(d, seed).intdigest()
    m.xxh64_hexdigest = lambda d, seed=0: m.xxh64(d, seed).hexdigest()
    m.xxh32_hexdigest = lambda d, seed=0: m.xxh32(d, seed).hexdigest()
    return m


# -- spglib ---------------------------------------------------------------------
class Spglib(object):
    """Symmetry search.  Rotations/translations are computed exactly for
    concrete geometry; a harness with symbolic geometry supplies its own."""
    __name__ = 'spglib'
    __version__ = '1.9.9'

    def __init__(self, ctx):
        self.ctx = ctx

    def _ops(self, cell, symprec=1e-3):
        lat, pos, num = cell[0], cell[1], cell[2]
        n = len(pos)
        nums = list(num)
        if has_sym(lat) or has_sym(pos):
            h = self.ctx.hooks.get('symmetry')
            if h is None:
                raise Unsupported('symmetry search on symbolic geometry')
            return h(lat, pos, num)
        lat = np.asarray(lat, dtype=float)
        pos = np.asarray(pos, dtype=float)
        if lat.shape != (3, 3) or pos.shape != (n, 3) or len(nums) != n:
            return None
        key = (lat.tobytes(), pos.tobytes(), tuple(snp.skey(x) for x in nums), float(symprec))
        c = _symcache.get(key)
        if c is None:
            c = geom.symmetry_ops(lat.tolist(), pos.tolist(),
                                  lambda i, j: bool(nums[i] == nums[j]), symprec=float(symprec))
            if not any(is_sym(x) for x in nums):
                _symcache[key] = c
        return c

    def get_symmetry(self, cell, symprec=1e-5, **kw):
        ops = self._ops(cell, symprec)
        if ops is None:
            return None
        tr = [list(o[1]) for o in ops]
        h = self.ctx.hooks.get('noise')
        if h is not None:
            tr = [h(k, t) for k, t in enumerate(tr)]
        rots = np.array([o[0] for o in ops], dtype=np.int64)
        perm = self.ctx.hooks.get('oporder')
        if perm is not None:
            order = perm(len(ops))
            rots, tr = rots[order], [tr[i] for i in order]
        trs = mk(tr) if has_sym(tr) else np.array(tr, dtype=float)
        same = [ops_perm for _, _, ops_perm in [(o[0], o[1], o[2]) for o in ops]]
        eq = geom.orbits(len(cell[1]), same)
        return {'rotations': rots, 'translations': trs,
                'equivalent_atoms': np.array(eq)}

    def get_symmetry_dataset(self, cell, symprec=1e-5, **kw):
        d = self.get_symmetry(cell, symprec)
        eq = [int(x) for x in d['equivalent_atoms']]
        h = self.ctx.hooks.get('wyckoff')
        letters = 'abcdefghijklmnopqrstuvwxyz'
        if h is not None:
            wy = h(eq)
        else:
            reps = sorted(set(eq))
            wy = [letters[reps.index(e)] for e in eq]
        d['wyckoffs'] = wy
        return d

    def get_spacegroup(self, cell, symprec=1e-5, **kw):
        h = self.ctx.hooks.get('spacegroup')
        if h is None:
            raise Unsupported('space-group type determination')
        return h(cell, symprec)

    def find_primitive(self, cell, symprec=1e-5, **kw):
        return self._prim(cell, symprec)

    def _prim(self, cell, symprec=1e-5):
        h = self.ctx.hooks.get('primitive')
        if h is not None:
            return h(cell)
        ops = self._ops(cell, symprec)
        lat, pos, num = cell[0], cell[1], cell[2]
        tr = geom.pure_translations(ops)
        if len(tr) == 1:
            if has_sym(pos) or has_sym(lat):
                return (lat, pos, num)
        L, P, rep = geom.primitive_cell(np.asarray(lat, float).tolist(),
                                        np.asarray(pos, float).tolist(), None, tr)
        return self._out(L, P, [num[i] for i in rep])

    def _out(self, L, P, nums):
        """the library promises neither an origin nor an order of the sites"""
        o = self.ctx.hooks.get('origin')
        if o is not None:
            P = [[(p[a] + o[a]) % 1.0 for a in range(3)] for p in P]
        h = self.ctx.hooks.get('siteorder')
        if h is not None:
            k = h(len(P))
            P, nums = [P[i] for i in k], [nums[i] for i in k]
        return (np.array(L, dtype=float), np.array(P, dtype=float),
                mk(nums) if has_sym(nums) else np.array(nums))

    def standardize_cell(self, cell, to_primitive=False, no_idealize=False, symprec=1e-5, **kw):
        h = self.ctx.hooks.get('standardize')
        if h is not None:
            return h(cell, to_primitive, no_idealize)
        if to_primitive:
            c = self._prim(cell, symprec)
            if self.ctx.hooks.get('idealize') and not no_idealize:
                # the idealized cell: a along x, b in the xy plane
                c = (np.array(geom.upright(np.asarray(c[0], float).tolist())), c[1], c[2])
            return c
        M = self.ctx.hooks.get('conv')
        if M is None:
            return (cell[0], cell[1], cell[2])
        # some cell of whole primitive cells
        L, P, Z = self._prim(cell, symprec)
        L = np.asarray(L, float).tolist()
        inv = geom.inv3(M)
        n = int(round(abs(geom.det3(M))))
        pos, nums = [], []
        for p, zz in zip(np.asarray(P, float).tolist(), list(Z)):
            got = []
            for s in itertools.product(range(-3, 4), repeat=3):
                q = geom.matmul([[p[a] + s[a] for a in range(3)]], inv)[0]
                q = [v - math.floor(v + 1e-9) for v in q]
                if not any(geom.same_site(q, g) for g in got):
                    got.append(q)
            assert len(got) == n
            pos += got
            nums += [zz] * n
        return (np.array(geom.matmul(M, L)), np.array(pos), mk(nums) if has_sym(nums) else np.array(nums))

    def refine_cell(self, cell, symprec=1e-5, **kw):
        return self.standardize_cell(cell, False, False, symprec)

    def __getattr__(self, k):
        raise Unsupported('spglib.%s' % k)


_symcache = {}


# -- scipy ------------------------------------------------------------------------
def euclid(u, v, *a, **k):
    u, v = mk(u), mk(v)
    if u.shape != v.shape:
        raise ValueError('shapes do not match')
    s = 0
    for x, y in zip(u.flat, v.flat):
        d = x - y
        s = s + d * d
    return s_sqrt(s)


def sqeuclid(u, v, *a, **k):
    s = 0
    for x, y in zip(mk(u).flat, mk(v).flat):
        d = x - y
        s = s + d * d
    return s


def _metric(name):
    if callable(name):
        return name
    return {'euclidean': euclid, 'sqeuclidean': sqeuclid,
            'cityblock': lambda u, v: sum(abs(x - y) for x, y in zip(mk(u).flat, mk(v).flat)),
            'chebyshev': lambda u, v: snp.smin([abs(x - y) for x, y in zip(mk(u).flat, mk(v).flat)], True)}[name]


def pdist(X, metric='euclidean', *a, **k):
    X = mk(X) if has_sym(X) else np.asarray(X, dtype=float)
    if X.ndim != 2:
        raise ValueError('A 2-dimensional array must be passed.')
    f = _metric(metric)
    r = [f(X[i], X[j]) for i in range(len(X)) for j in range(i + 1, len(X))]
    return norm(mk(r)) if r and has_sym(r) else np.array(r, dtype=float)


def cdist(A, B, metric='euclidean', *a, **k):
    A = mk(A) if has_sym(A) else np.asarray(A, dtype=float)
    B = mk(B) if has_sym(B) else np.asarray(B, dtype=float)
    f = _metric(metric)
    r = [[f(x, y) for y in B] for x in A]
    return norm(mk(r)) if has_sym(r) else np.array(r, dtype=float).reshape(len(A), len(B))


def squareform(v, *a, **k):
    v = mk(v)
    n = int(round((1 + math.sqrt(1 + 8 * len(v))) / 2))
    o = np.zeros((n, n), dtype=object)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            o[i, j] = o[j, i] = np.asarray(v)[k]
            k += 1
    return norm(o.view(SArr))


class KDTree(object):
    def __init__(self, data, *a, **k):
        self.data = mk(data) if has_sym(data) else np.asarray(data, dtype=float)
        if self.data.ndim != 2:
            raise ValueError('data must be 2 dimensions')
        self.n, self.m = self.data.shape

    def _ball(self, x, r, p=2):
        out = []
        x = list(mk(x).flat)
        if len(x) != self.m:
            raise ValueError('x must consist of vectors of length %d' % self.m)
        for i in range(self.n):
            if p == 1:
                d = 0
                for a, b in zip(self.data[i], x):
                    d = d + abs(a - b)
                inside = bool(d <= r)
            elif p == float('inf'):
                inside = all(bool(abs(a - b) <= r) for a, b in zip(self.data[i], x))
            else:
                s = 0
                for a, b in zip(self.data[i], x):
                    d = a - b
                    s = s + d * d
                inside = bool(s_sqrt(s) <= r)
            if inside:
                out.append(i)
        return out

    def query_ball_point(self, x, r, p=2., eps=0, **k):
        if p not in (1, 2, float('inf')):
            raise Unsupported('p-norm ball')
        x = mk(x)
        if x.ndim == 1:
            return self._ball(x, r, p)
        o = np.empty(len(x), dtype=object)
        for i in range(len(x)):
            o[i] = self._ball(x[i], r, p)
        return o

    def query_pairs(self, r, **k):
        return SymSet([(i, j) for i in range(self.n) for j in range(i + 1, self.n)
                       if bool(euclid(self.data[i], self.data[j]) <= r)])

    def query(self, x, k=1, **kw):
        x = mk(x)
        if x.ndim != 1:
            raise Unsupported('kd-tree query on several points')
        ds = [euclid(self.data[i], x) for i in range(self.n)]
        order = sorted(range(self.n), key=lambda i: snp._K([ds[i]]))
        if k == 1:
            return ds[order[0]], order[0]
        o = order[:k]
        return norm(mk([ds[i] for i in o])), np.array(o)


# -- yaml ---------------------------------------------------------------------------
class YamlStore(object):
    """text <-> document: a dumped document is an opaque line naming a stored
    plain value; load returns that value."""

    def __init__(self):
        self.docs = []

    def dump(self, obj):
        self.docs.append(self.plain(obj))
        return 'yaml-document: %d\n' % (len(self.docs) - 1)

    def plain(self, o):
        if o is None or isinstance(o, (bool, str)):
            return o
        if type(o) in (int, float, SymNum):
            return o
        if isinstance(o, (SymSqrt, SymMin)):
            return o
        if isinstance(o, dict):
            return {self.plain(k): self.plain(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self.plain(e) for e in o]
        raise YamlError('cannot represent an object: %r' % (type(o),))

    def load(self, text):
        if hasattr(text, 'read'):
            text = text.read()
        m = re.match(r'^\s*yaml-document: (\d+)\s*$', text)
        if not m:
            import yaml as real
            if any(0xE000 <= ord(c) < 0xF8FF for c in text):
                raise Unsupported('YAML text with symbolic numbers')
            return self.todict(real.safe_load(text))
        return self.todict(self.docs[int(m.group(1))])

    def todict(self, o):
        if isinstance(o, dict):
            d = SymDict()
            for k, v in o.items():
                d[k] = self.todict(v)
            return d
        if isinstance(o, list):
            return [self.todict(e) for e in o]
        return o


class YamlError(Exception):
    pass


def ruamel(store):
    class YAML(object):
        def __init__(self, typ=None, pure=False, **k):
            self.typ = typ
            self.default_flow_style = None

        def dump(self, data, stream=None, **kw):
            t = store.dump(data)
            if stream is None:
                raise TypeError('Need a stream argument when not dumping from context manager')
            stream.write(t)

        def load(self, s):
            return store.load(s)
    m = types.SimpleNamespace(YAML=YAML, compat=types.SimpleNamespace(StringIO=io.StringIO),
                              StringIO=io.StringIO)
    m.safe_load = lambda s: store.load(s)
    m.safe_dump = m.dump = lambda o, stream=None, **k: _emit(store, o, stream)
    return m


def _emit(store, o, stream=None):
    t = store.dump(o)
    if stream is not None:
        stream.write(t)
        return None
    return t


def pyyaml(store):
    m = types.SimpleNamespace()
    m.load = lambda s, *a, **k: store.load(s)
    m.safe_load = m.full_load = m.unsafe_load = m.load
    m.dump = m.safe_dump = lambda o, stream=None, *a, **k: _emit(store, o, stream)
    m.Loader = m.SafeLoader = m.FullLoader = m.Dumper = m.SafeDumper = object
    m.YAMLError = YamlError
    return m


# -- progress bar ---------------------------------------------------------------------
class ProgressBar(object):
    def __init__(self, *a, **k):
        pass

    def __call__(self, it, *a, **k):
        return it

    def start(self, *a, **k):
        return self

    def update(self, *a, **k):
        pass

    def finish(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- math ----------------------------------------------------------------------------------
def _m1(name, f):
    real = getattr(math, name)

    def g(x):
        return f(x) if is_sym(x) else real(x)
    return g


def math_module():
    m = types.SimpleNamespace(**{k: v for k, v in vars(math).items() if not k.startswith('__')})
    m.sqrt = _m1('sqrt', s_sqrt)
    m.floor = _m1('floor', sym.floor)
    m.ceil = _m1('ceil', lambda x: -SymNum._co(sym.floor(-x)))
    m.trunc = _m1('trunc', sym.trunc)
    m.fabs = _m1('fabs', abs)
    m.isnan = _m1('isnan', lambda x: False)
    m.isinf = _m1('isinf', lambda x: False)
    m.isfinite = _m1('isfinite', lambda x: True)
    m.hypot = lambda *a: s_sqrt(sum(x * x for x in a)) if any(is_sym(x) for x in a) else math.hypot(*a)
    m.fmod = lambda a, b: a - b * sym._toreal(sym.trunc(a / b)) if is_sym(a) or is_sym(b) else math.fmod(a, b)
    m.pow = lambda a, b: a ** b
    m.fsum = lambda it: sum(it) if True else None
    m.prod = lambda it, start=1: snp._fold(lambda a, b: a * b, list(it), start)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not (is_sym(a) or is_sym(b))
        else snp.absle(a - b, max(abs_tol, rel_tol)))
    m.dist = lambda p, q: euclid(list(p), list(q))
    m.gcd = lambda *a: math.gcd(*[x.__index__() if isinstance(x, SymNum) else x for x in a])
    m.copysign = lambda a, b: abs(a) if bool(b >= 0) else -abs(a)
    return m


def collections_module():
    m = types.SimpleNamespace(**{k: v for k, v in vars(collections).items() if not k.startswith('__')})
    for k in dir(collections.abc):
        if k[0].isupper():
            setattr(m, k, getattr(collections.abc, k))
    m.abc = collections.abc
    m.Counter, m.OrderedDict, m.defaultdict = SymCounter, SymOrderedDict, SymDefaultDict
    return m


class Stubs(object):
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.np = snp.make_facade(rng)
        self.store = YamlStore()
        dist = types.SimpleNamespace(pdist=pdist, cdist=cdist, euclidean=euclid,
                                     sqeuclidean=sqeuclid, squareform=squareform)
        spatial = types.SimpleNamespace(cKDTree=KDTree, KDTree=KDTree, distance=dist)
        import scipy.special as sps
        from . import clickstub
        special = types.SimpleNamespace(comb=sps.comb, binom=sps.binom, factorial=sps.factorial)
        ru = ruamel(self.store)
        pb = types.SimpleNamespace(ProgressBar=ProgressBar, progressbar=lambda it, **k: it)
        self.spg = Spglib(ctx)
        self.mods = {
            'numpy': self.np, 'numpy.linalg': self.np.linalg, 'numpy.random': self.np.random,
            'scipy': types.SimpleNamespace(spatial=spatial, special=special),
            'scipy.spatial': spatial, 'scipy.spatial.distance': dist, 'scipy.special': special,
            'spglib': self.spg, 'xxhash': xx_module(), 'progressbar': pb,
            'aenum': types.SimpleNamespace(Enum=enum.Enum, IntEnum=enum.IntEnum, unique=enum.unique),
            'yaml': pyyaml(self.store), 'ruamel': types.SimpleNamespace(yaml=ru),
            'ruamel.yaml': ru, 'ruamel.yaml.compat': ru.compat,
            'click': clickstub.module(),
            'math': math_module(), 'collections': collections_module(),
            'random': rng if rng is not None else None,
        }
        if rng is None:
            del self.mods['random']

    def builtins(self):
        return {}

    def module(self, name):
        return self.mods.get(name)
