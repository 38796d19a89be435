"""Digests that keep few bits.  A full 64-bit digest is modelled as injective.
A shortened one (32-bit hash, modulus, mask, shift, slice of the hexadecimal
text) is equal for equal contents or for one of a few collisions that are
computed with the real hash function; the solver decides whether the path
allows them."""
import itertools
import math

import numpy as np

from . import sym
from .sym import SymNum, And, Or

P64 = [np.uint64(x) for x in (11400714785074694791, 14029467366897019727, 1609587929392839161,
                              9650029242287828579, 2870177450012600261)]
P32 = [np.uint64(x) for x in (2654435761, 2246822519, 3266489917, 668265263, 374761393)]
M32 = np.uint64((1 << 32) - 1)
U = np.uint64
FULL = 56           # digests of at least so many bits never collide


def _r64(x, r):
    return (x << U(r)) | (x >> U(64 - r))


def _r32(x, r):
    return ((x << U(r)) | (x >> U(32 - r))) & M32


def vxxh64(a, seed=0):
    """a: (N, n) int64 -> N digests"""
    a = np.ascontiguousarray(a, dtype=np.int64).view(np.uint64)
    N, n = a.shape
    s = U(seed)
    with np.errstate(over='ignore'):
        i = 0
        full = lambda v: np.full(N, v, dtype=np.uint64)
        if n >= 4:
            v = [full(s + P64[0] + P64[1]), full(s + P64[1]), full(s), full(s - P64[0])]
            while i + 4 <= n:
                for k in range(4):
                    v[k] = _r64(v[k] + a[:, i] * P64[1], 31) * P64[0]
                    i += 1
            h = _r64(v[0], 1) + _r64(v[1], 7) + _r64(v[2], 12) + _r64(v[3], 18)
            for k in range(4):
                h = (h ^ (_r64(v[k] * P64[1], 31) * P64[0])) * P64[0] + P64[3]
        else:
            h = full(s + P64[4])
        h = h + U(8 * n)
        while i < n:
            h = h ^ (_r64(a[:, i] * P64[1], 31) * P64[0])
            h = _r64(h, 27) * P64[0] + P64[3]
            i += 1
        h = h ^ (h >> U(33))
        h = h * P64[1]
        h = h ^ (h >> U(29))
        h = h * P64[2]
        return h ^ (h >> U(32))


def vxxh32(a, seed=0):
    a = np.ascontiguousarray(a, dtype=np.int64).view(np.uint32).astype(np.uint64)
    N, n = a.shape
    s = U(seed)
    with np.errstate(over='ignore'):
        full = lambda v: np.full(N, v, dtype=np.uint64) & M32
        i = 0
        if n >= 4:
            v = [full(s + P32[0] + P32[1]), full(s + P32[1]), full(s), full(s - P32[0])]
            while i + 4 <= n:
                for k in range(4):
                    v[k] = (_r32((v[k] + a[:, i] * P32[1]) & M32, 13) * P32[0]) & M32
                    i += 1
            h = (_r32(v[0], 1) + _r32(v[1], 7) + _r32(v[2], 12) + _r32(v[3], 18)) & M32
        else:
            h = full(s + P32[4])
        h = (h + U(4 * n)) & M32
        while i < n:
            h = (_r32((h + a[:, i] * P32[2]) & M32, 17) * P32[3]) & M32
            i += 1
        h = h ^ (h >> U(15))
        h = (h * P32[1]) & M32
        h = h ^ (h >> U(13))
        h = (h * P32[2]) & M32
        return h ^ (h >> U(16))


def apply_ops(h, ops):
    """the shortened digest as an exact integer"""
    for op, v in ops:
        if op == '%':
            h = h % U(v)
        elif op == '&':
            h = h & U(v)
        elif op == '>>':
            h = h >> U(v)
        elif op == 'digits':            # (width in digits, start, stop) of the hex text
            w, a, b = v
            h = h >> U(4 * (w - b)) if w - b < 16 else h & U(0)
            if b - a < 16:
                h = h & U((1 << (4 * (b - a))) - 1)
    return h


def bits_after(bits, op, v):
    if op == '%':
        return min(bits, math.log2(v)) if v > 1 else 0
    if op == '&':
        return min(bits, bin(v).count('1'))
    if op == '>>':
        return max(0, bits - v)
    if op == 'digits':
        return min(bits, 4 * (v[2] - v[1]))
    return bits


def _vars(xs):
    out = set()
    for x in xs:
        if isinstance(x, SymNum):
            for m in x.p:
                out.update(m)
    return sorted(out)


def _evaluate(xs, vs, table):
    """contents for every row of the table of variable values"""
    col = {v: table[:, k] for k, v in enumerate(vs)}
    out = np.empty((len(table), len(xs)), dtype=np.int64)
    for j, x in enumerate(xs):
        if not isinstance(x, SymNum):
            out[:, j] = int(x)
            continue
        s = np.zeros(len(table), dtype=np.int64)
        for m, c in x.p.items():
            if c.denominator != 1:
                return None
            t = np.full(len(table), int(c), dtype=np.int64)
            for v in m:
                t = t * col[v]
            s = s + t
        out[:, j] = s
    return out


def _table(vs, cap, seed):
    dom = []
    for v in vs:
        w = sym.cur().vars[v]
        if w.lo is None or w.hi is None:
            return None
        dom.append((int(math.ceil(w.lo)), int(math.floor(w.hi))))
    size = 1
    for a, b in dom:
        size *= max(0, b - a + 1)
        if size > 10 ** 12:
            break
    if size == 0:
        return None
    if size <= cap:
        g = np.meshgrid(*[np.arange(a, b + 1) for a, b in dom], indexing='ij')
        return np.stack([x.reshape(-1) for x in g], axis=1) if g else np.zeros((1, 0), dtype=np.int64)
    r = np.random.RandomState(seed)
    return np.stack([r.randint(a, b + 1, size=cap) for a, b in dom], axis=1)


_cache = {}


def collisions(d1, d2, fn, ops, seed=0, most=6):
    """[(content1, content2)] that differ and share the shortened digest"""
    key = (d1.ckey(), d2.ckey(), fn, ops, seed,
           tuple((v, sym.cur().vars[v].lo, sym.cur().vars[v].hi) for v in _vars(list(d1.content[1]) + list(d2.content[1]))))
    if key in _cache:
        return _cache[key]
    out = []
    vec = {'xxh64': vxxh64, 'xxh32': vxxh32}.get(fn)
    x1, x2 = list(d1.content[1]), list(d2.content[1])
    if vec is not None and d1.content[0] == d2.content[0] == 'i':
        v1, v2 = _vars(x1), _vars(x2)
        val = lambda a: apply_ops(vec(a, seed), ops)
        if set(v1) & set(v2):
            vs = sorted(set(v1) | set(v2))
            t = _table(vs, 6000, 7)
            if t is not None:
                a, b = _evaluate(x1, vs, t), _evaluate(x2, vs, t)
                if a is not None and b is not None:
                    hit = np.nonzero((val(a) == val(b)) & (a.shape[1] != b.shape[1] or (a != b).any(axis=1)))[0]
                    out = [(a[i].tolist(), b[i].tolist()) for i in hit[:most]]
        else:
            t1, t2 = _table(v1, 800000, 7), _table(v2, 800000, 8)
            if t1 is not None and t2 is not None:
                a, b = _evaluate(x1, v1, t1), _evaluate(x2, v2, t2)
                if a is not None and b is not None:
                    ha, hb = val(a), val(b)
                    order = np.argsort(hb, kind='stable')
                    pos = np.searchsorted(hb[order], ha)
                    for i in range(len(ha)):
                        if len(out) >= most:
                            break
                        k = pos[i]
                        # skip ahead quickly over rows without a partner
                        if k < len(order) and hb[order[k]] == ha[i]:
                            while k < len(order) and hb[order[k]] == ha[i]:
                                j = order[k]
                                if a[i].tolist() != b[j].tolist():
                                    out.append((a[i].tolist(), b[j].tolist()))
                                    break
                                k += 1
    _cache[key] = out
    return out


def collide(d1, d2, fn, ops, seed):
    """formula: the contents are one of the known collisions"""
    alts = []
    for a, b in collisions(d1, d2, fn, ops, seed):
        alts.append(And(*([x == v for x, v in zip(d1.content[1], a)] + [x == v for x, v in zip(d2.content[1], b)])))
    return Or(*alts) if alts else False
