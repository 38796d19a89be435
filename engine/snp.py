"""numpy for symbolic elements.

`SArr` is an object-dtype ndarray whose elements are Python/symbolic numbers.
The `Facade` object stands for the `numpy` module inside the code under test:
every function is real numpy unless an argument holds a symbolic element.
"""
import builtins
import itertools
import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import (SymNum, SymBool, SymSqrt, SymMin, Unsupported, And, Or, Not,
                  is_sym)

_SYMT = (SymNum, SymBool, SymSqrt, SymMin)


def has_sym(x, depth=0):
    t = type(x)
    if t in _SYMT:
        return True
    if t is SArr:
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(type(e) in _SYMT for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def _deep(x):
    """nested lists with arrays turned into lists"""
    if isinstance(x, np.ndarray):
        return np.ndarray.tolist(np.asarray(x)) if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_deep(e) for e in x]
    if isinstance(x, (types.GeneratorType, map, zip, range)):
        return [_deep(e) for e in x]
    return x


def _shape(x):
    if isinstance(x, list):
        if not x:
            return (0,)
        s = _shape(x[0])
        for e in x[1:]:
            if _shape(e) != s:
                raise ValueError('setting an array element with a sequence')
        return (len(x),) + s
    return ()


def _fill(x, flat):
    if isinstance(x, list):
        for e in x:
            _fill(e, flat)
    else:
        flat.append(x)


def mk(x):
    """build an SArr from nested sequences / arrays"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        if x.ndim:
            fl = x.tolist()
            out = []
            _fill(fl, out)
            a.reshape(-1)[:] = _objs(out)
        else:
            a[()] = x.item()
        return a.view(SArr)
    d = _deep(x)
    s = _shape(d)
    flat = []
    _fill(d, flat)
    flat = [e.item() if isinstance(e, np.generic) else e for e in flat]
    a = np.empty(s, dtype=object)
    if s == ():
        a[()] = flat[0]
    elif flat:
        a.reshape(-1)[:] = _objs(flat)
    return a.view(SArr)


def _objs(lst):
    o = np.empty(len(lst), dtype=object)
    for i, e in enumerate(lst):
        o[i] = e
    return o


def keep():
    """float arrays stay symbolic arrays, for code that updates them in place"""
    c = sym.cur()
    return getattr(c, 'hooks', None) and c.hooks.get('keep_sarr')


def norm(a):
    """an object array without symbolic elements becomes a plain array"""
    if isinstance(a, tuple):
        return tuple(norm(e) for e in a)
    if isinstance(a, list):
        return [norm(e) for e in a]
    if not isinstance(a, np.ndarray) or a.dtype != object:
        return a
    if a.ndim == 0:
        return a[()]
    for e in a.flat:
        if type(e) in _SYMT:
            return a if isinstance(a, SArr) else a.view(SArr)
    b = np.asarray(a)
    kinds = {type(e) for e in b.flat}
    if not kinds:
        return b.astype(float)
    if keep() and kinds & {float, np.float64}:
        return a if isinstance(a, SArr) else a.view(SArr)
    if kinds <= {bool, np.bool_}:
        return b.astype(bool)
    if kinds <= {int, np.int64, bool, np.bool_, np.int32}:
        try:
            return b.astype(np.int64)
        except OverflowError:
            return b
    if kinds <= {int, float, bool, Fraction, np.float64, np.int64, np.bool_, np.int32}:
        return b.astype(float)
    return b


def fpf(f, n):
    u = np.frompyfunc(f, n, 1)

    def g(*a):
        return u(*[np.asarray(x, dtype=object) if isinstance(x, np.ndarray)
                   else _box(x) for x in a])
    return g


def _box(x):
    if isinstance(x, (list, tuple)):
        return np.asarray(mk(x))
    o = np.empty((), dtype=object)
    o[()] = x.item() if isinstance(x, np.generic) else x
    return o


def _land(a, b):
    return And(a, b)


def _lor(a, b):
    return Or(a, b)


def _band(a, b):
    if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
        return And(a, b)
    return operator.and_(_pyint(a), _pyint(b))


def _bor(a, b):
    if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
        return Or(a, b)
    return operator.or_(_pyint(a), _pyint(b))


def _pyint(a):
    return a.__index__() if isinstance(a, SymNum) else a


def _xor(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return Not(sym.Iff(a, b))
    return operator.xor(_pyint(a), _pyint(b))


def _inv(a):
    return Not(a) if isinstance(a, (bool, SymBool, np.bool_)) else ~_pyint(a)


def s_rint(x):
    if isinstance(x, _SYMT):
        return x.rint() if not isinstance(x, SymBool) else x
    return float(round(x)) if not isinstance(x, Fraction) else Fraction(round(x))


def s_floor(x):
    if isinstance(x, (SymNum, SymSqrt)):
        return sym._toreal(sym.floor(x))
    return float(math.floor(x))


def s_ceil(x):
    if isinstance(x, (SymNum, SymSqrt)):
        return sym._toreal(-SymNum._co(sym.floor(-x)))
    return float(math.ceil(x))


def s_trunc(x):
    if isinstance(x, (SymNum, SymSqrt)):
        return sym._toreal(sym.trunc(x))
    return float(math.trunc(x))


def s_sqrt(x):
    if isinstance(x, (SymNum, SymSqrt)):
        return sym.sqrt(x if isinstance(x, SymNum) else x.purify())
    if isinstance(x, SymMin):
        return SymMin([s_sqrt(e) for e in x.xs], x.ismax)
    return math.sqrt(x)


def s_min(a, b):
    r = a <= b
    if r is True:
        return a
    if r is False:
        return b
    return a if bool(r) else b


def s_max(a, b):
    r = a >= b
    if r is True:
        return a
    if r is False:
        return b
    return a if bool(r) else b


def s_sign(x):
    if bool(x > 0):
        return 1
    return -1 if bool(x < 0) else 0


def s_fix(x, f):
    return f(float(x))


def s_mod(a, b):
    return a % b


def _real_only(f):
    return lambda x: f(float(x))


UF = {
    'equal': fpf(lambda a, b: a == b, 2),
    'not_equal': fpf(lambda a, b: a != b, 2),
    'less': fpf(lambda a, b: a < b, 2),
    'less_equal': fpf(lambda a, b: a <= b, 2),
    'greater': fpf(lambda a, b: a > b, 2),
    'greater_equal': fpf(lambda a, b: a >= b, 2),
    'logical_and': fpf(_land, 2), 'logical_or': fpf(_lor, 2),
    'logical_not': fpf(Not, 1),
    'logical_xor': fpf(lambda a, b: Not(sym.Iff(sym._b(a), sym._b(b))), 2),
    'bitwise_and': fpf(_band, 2), 'bitwise_or': fpf(_bor, 2),
    'bitwise_xor': fpf(_xor, 2), 'invert': fpf(_inv, 1),
    'rint': fpf(s_rint, 1), 'floor': fpf(s_floor, 1), 'ceil': fpf(s_ceil, 1),
    'trunc': fpf(s_trunc, 1), 'sqrt': fpf(s_sqrt, 1),
    'square': fpf(lambda x: x * x, 1),
    'absolute': fpf(abs, 1), 'fabs': fpf(abs, 1),
    'add': fpf(lambda a, b: a + b, 2), 'subtract': fpf(lambda a, b: a - b, 2),
    'multiply': fpf(lambda a, b: a * b, 2),
    'divide': fpf(lambda a, b: a / b, 2), 'true_divide': fpf(lambda a, b: a / b, 2),
    'floor_divide': fpf(lambda a, b: a // b, 2),
    'remainder': fpf(s_mod, 2), 'mod': fpf(s_mod, 2),
    'fmod': fpf(lambda a, b: a - b * s_trunc(a / b), 2),
    'power': fpf(lambda a, b: a ** b, 2), 'float_power': fpf(lambda a, b: a ** b, 2),
    'negative': fpf(lambda a: -a, 1), 'positive': fpf(lambda a: a, 1),
    'conjugate': fpf(lambda a: a, 1),
    'minimum': fpf(s_min, 2), 'maximum': fpf(s_max, 2),
    'fmin': fpf(s_min, 2), 'fmax': fpf(s_max, 2),
    'sign': fpf(s_sign, 1),
    'isfinite': fpf(lambda x: True, 1), 'isnan': fpf(lambda x: False, 1),
    'isinf': fpf(lambda x: False, 1),
    'reciprocal': fpf(lambda x: 1 / x, 1),
    'hypot': fpf(lambda a, b: s_sqrt(a * a + b * b), 2),
}
for _n in ('sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'exp', 'log',
           'log2', 'log10', 'cbrt', 'deg2rad', 'rad2deg'):
    UF[_n] = fpf(_real_only(getattr(np, _n)), 1)
UF['arctan2'] = fpf(lambda a, b: math.atan2(float(a), float(b)), 2)

RED = {
    'add': lambda xs: _fold(operator.add, xs, 0),
    'multiply': lambda xs: _fold(operator.mul, xs, 1),
    'logical_and': lambda xs: And(*xs),
    'logical_or': lambda xs: Or(*xs),
    'bitwise_and': lambda xs: _fold(_band, xs, True),
    'bitwise_or': lambda xs: _fold(_bor, xs, False),
    'minimum': lambda xs: smin(xs, False),
    'maximum': lambda xs: smin(xs, True),
    'subtract': lambda xs: _fold(operator.sub, xs, 0),
}


def _fold(op, xs, e):
    if not xs:
        return e
    r = xs[0]
    for x in xs[1:]:
        r = op(r, x)
    return r


def smin(xs, ismax):
    if not xs:
        raise ValueError('zero-size array to reduction operation %s which has '
                         'no identity' % ('maximum' if ismax else 'minimum'))
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return max(xs) if ismax else min(xs)
    flat = []
    for x in xs:
        if isinstance(x, SymMin) and x.ismax == ismax:
            flat.extend(x.xs)
        elif isinstance(x, SymMin):
            flat.append(x.pick())
        else:
            flat.append(x)
    # drop structural duplicates
    seen, out = set(), []
    for x in flat:
        k = skey(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    if len(out) == 1:
        return out[0]
    return SymMin(out, ismax)


def skey(x):
    """structural identity of a scalar"""
    if isinstance(x, SymNum):
        if x.is_const():
            return ('c', x.constval())
        return ('n', x.key())
    if isinstance(x, SymSqrt):
        return ('r', x.sq.key())
    if isinstance(x, SymBool):
        return ('b', x.atom) if x.atom is not None else ('z', x.z.get_id())
    if isinstance(x, SymMin):
        return ('m', x.ismax, tuple(skey(e) for e in x.xs))
    f = sym.lift(x)
    if f is not None:
        return ('c', f)
    return ('o', x)


def reduce_axis(a, f, axis, keepdims=False):
    a = np.asarray(a)
    if axis is None:
        r = f(list(a.flat))
        if keepdims:
            return mk(_objs([r])).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        ax = [x % a.ndim for x in axis]
        rest = [i for i in range(a.ndim) if i not in ax]
        b = np.transpose(a, rest + ax)
        b = b.reshape(tuple(a.shape[i] for i in rest) + (-1,))
        r = reduce_axis(b, f, -1)
        if keepdims:
            shp = tuple(1 if i in ax else a.shape[i] for i in range(a.ndim))
            r = mk(r).reshape(shp)
        return r
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = f(list(b[ix]))
    out = out.view(SArr)
    if keepdims:
        out = np.expand_dims(np.asarray(out), axis).view(SArr)
    return norm(out)


def truth(x):
    """truth value of a scalar, forking if needed"""
    return bool(x)


def _unit_lemma(a, b, r):
    """v / |v| has unit length (a consequence of the definitions the solver
    would have to find by nonlinear reasoning)"""
    if isinstance(b, SymSqrt) and isinstance(a, np.ndarray) and a.ndim == 1 \
            and isinstance(r, np.ndarray):
        s = SymNum.const(0)
        for x in a:
            s = s + x * x
        if SymNum._co(s).key() == b.sq.key():
            q = SymNum.const(0)
            for x in r:
                q = q + x * x
            sym.cur().add(sym.zeq(q, 1))


class SArr(np.ndarray):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        pass

    # -- dispatch -----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        if name == 'matmul':
            r = _matmul(*inputs)
        elif method == '__call__':
            f = UF.get(name)
            where = kw.pop('where', True)
            if f is None:
                raise Unsupported('ufunc %s on symbolic data' % name)
            if where is not True:
                raise Unsupported('ufunc where=')
            r = f(*inputs)
            if name in ('divide', 'true_divide'):
                _unit_lemma(inputs[0], inputs[1], r)
        elif method == 'reduce':
            f = RED.get(name)
            if f is None:
                raise Unsupported('reduce %s' % name)
            a = mk(inputs[0])
            init = kw.get('initial', np._NoValue)
            g = f if init is np._NoValue else (lambda xs: f([init] + xs))
            r = reduce_axis(a, g, kw.get('axis', 0), kw.get('keepdims', False))
        elif method == 'accumulate':
            op = {'add': operator.add, 'multiply': operator.mul}[name]
            a = mk(inputs[0])
            axis = kw.get('axis', 0)
            b = np.moveaxis(np.asarray(a), axis, 0)
            o = np.empty(b.shape, dtype=object)
            acc = None
            for i in range(b.shape[0]):
                acc = b[i] if acc is None else UF[name](acc, b[i])
                o[i] = acc
            r = np.moveaxis(o, 0, axis).view(SArr)
        elif method == 'outer':
            a, b = mk(inputs[0]), mk(inputs[1])
            r = UF[name](np.asarray(a).reshape(a.shape + (1,) * b.ndim), np.asarray(b))
        elif method == 'at':
            tgt, ind = inputs[0], inputs[1]
            v = inputs[2] if len(inputs) > 2 else None
            ind = np.atleast_1d(np.asarray(ind))
            vv = np.broadcast_to(np.asarray(mk(v) if has_sym(v) else v, dtype=object), ind.shape)
            for i, e in zip(ind, vv):
                tgt[i] = UF[name](tgt[i], e)
            return None
        else:
            raise Unsupported('ufunc method %s' % method)
        if isinstance(r, np.ndarray):
            if r.ndim == 0:
                r = r[()]
            else:
                r = r.view(SArr)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                np.ndarray.__setitem__(o, Ellipsis, np.asarray(r))
            else:
                if o.dtype != object and has_sym(r):
                    # in-place update of a plain array: not representable
                    sym.cur().stats.cut('symbolic data stored in a plain array')
                o[...] = _plain(r, o.dtype)
            return o
        return norm(r)

    def __array_function__(self, func, typs, args, kwargs):
        name = func.__name__
        f = FUNCS.get(func) or FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        return generic(func, args, kwargs)

    # -- indexing -------------------------------------------------------------
    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, fixindex(ix, self.shape))
        if isinstance(r, SArr):
            return norm(r) if r.ndim == 0 else r
        return r

    def __setitem__(self, ix, v):
        if isinstance(v, np.generic):
            v = v.item()
        elif isinstance(v, np.ndarray) and v.dtype != object:
            v = np.asarray(mk(v))
        elif isinstance(v, (list, tuple)):
            v = np.asarray(mk(v))
        np.ndarray.__setitem__(self, fixindex(ix, self.shape), v)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(Or(*[e == v for e in self.flat]))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        return float(self.reshape(-1)[0])

    def __int__(self):
        return int(self.reshape(-1)[0])

    def __index__(self):
        return operator.index(self.reshape(-1)[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return 'array(%s)' % np.ndarray.tolist(self)

    def __str__(self):
        return _arrstr(self)

    def __deepcopy__(self, memo):
        return np.ndarray.copy(self).view(SArr)

    def __reduce__(self):
        return (mk, (np.ndarray.tolist(self),))

    # -- methods -----------------------------------------------------------------
    def all(self, axis=None, **kw):
        return reduce_axis(self, lambda xs: And(*xs), axis, kw.get('keepdims', False))

    def any(self, axis=None, **kw):
        return reduce_axis(self, lambda xs: Or(*xs), axis, kw.get('keepdims', False))

    def min(self, axis=None, **kw):
        return reduce_axis(self, lambda xs: smin(xs, False), axis, kw.get('keepdims', False))

    def max(self, axis=None, **kw):
        return reduce_axis(self, lambda xs: smin(xs, True), axis, kw.get('keepdims', False))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_axis(self, RED['add'], axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_axis(self, RED['multiply'], axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_axis(self, lambda xs: RED['add'](xs) / len(xs), axis, keepdims)

    def round(self, decimals=0, out=None):
        return s_around(self, decimals)

    def astype(self, dtype, **kw):
        return s_astype(self, dtype)

    def copy(self, order='C'):
        return np.ndarray.copy(self).view(SArr)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return s_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        r = s_sort(self, axis)
        np.ndarray.__setitem__(self, Ellipsis, np.asarray(mk(r)))

    def argmin(self, axis=None, **kw):
        return s_argext(self, axis, False)

    def argmax(self, axis=None, **kw):
        return s_argext(self, axis, True)

    def nonzero(self):
        return s_nonzero(self)

    def dot(self, o):
        return s_dot(self, o)

    def clip(self, lo=None, hi=None, **kw):
        return s_clip(self, lo, hi)

    def tolist(self):
        return np.ndarray.tolist(self)

    def item(self, *a):
        if a:
            return np.ndarray.item(self, *a)
        return self.reshape(-1)[0]

    def flatten(self, order='C'):
        return np.ndarray.flatten(self, order).view(SArr)

    def take(self, ind, axis=None, **kw):
        a = self if axis is not None else self.reshape(-1)
        axis = axis or 0
        return a[(slice(None),) * axis + (ind,)]

    def tobytes(self, order='C'):
        return SymBytes(list(self.flat))
    tostring = tobytes

    def cumsum(self, axis=None, **kw):
        return s_cumsum(self, axis)

    def std(self, *a, **k):
        raise Unsupported('std')

    @property
    def nbytes(self):
        return 8 * self.size

    @property
    def itemsize(self):
        return 8


class SymBytes(object):
    """raw bytes of a symbolic array (content kept)"""

    def __init__(self, xs):
        self.xs = xs

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            if len(self.xs) != len(o.xs):
                return False
            return And(*[a == b for a, b in zip(self.xs, o.xs)])
        if isinstance(o, (bytes, bytearray)):
            o = np.frombuffer(bytes(o), dtype=np.int64).tolist()
            return self == SymBytes(o)
        return False

    def __ne__(self, o):
        return Not(self == o)

    def symkey(self):
        return ('bytes', tuple(skey(x) for x in self.xs))

    def __hash__(self):
        return hash(tuple(hash(x) for x in self.xs))

    def __len__(self):
        return 8 * len(self.xs)


def _arrstr(a):
    if a.ndim == 0:
        return str(a[()])
    if all(isinstance(x, int) or getattr(x, 'isint', False) for x in a.ravel()):
        # whole numbers are padded to one width, wrapped and abbreviated as numpy does
        ix = np.arange(a.size).reshape(a.shape)
        shown = set()
        np.array2string(ix, formatter={'int': lambda i: shown.add(int(i)) or '0'})
        w = {i: str(a.ravel()[i]) for i in shown}
        k = max([len(x) for x in w.values()] or [0])
        return np.array2string(ix, formatter={'int': lambda i: w[int(i)].rjust(k)}, separator=' ')
    return '[' + ' '.join(_arrstr(x) if isinstance(x, np.ndarray) else str(x) for x in a) + ']'


def _plain(r, dtype):
    if isinstance(r, np.ndarray):
        if dtype.kind == 'f':
            return np.array([float(e) for e in r.flat]).reshape(r.shape)
        if dtype.kind in 'iu':
            return np.array([int(e) for e in r.flat]).reshape(r.shape)
        if dtype.kind == 'b':
            return np.array([bool(e) for e in r.flat]).reshape(r.shape)
    return r


def fixindex(ix, shape):
    """make an index concrete, forking where needed"""
    def one(i):
        if isinstance(i, SymNum):
            return i.__index__()
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            vals = [e for e in i.flat]
            if any(isinstance(e, (SymBool, bool, np.bool_)) for e in vals):
                return np.array([bool(e) for e in vals], dtype=bool).reshape(i.shape)
            return np.array([operator.index(e) for e in vals],
                            dtype=np.int64).reshape(i.shape)
        if isinstance(i, list) and has_sym(i):
            return one(np.asarray(mk(i)))
        if isinstance(i, slice):
            return slice(*[one(x) if isinstance(x, SymNum) else x
                           for x in (i.start, i.stop, i.step)])
        return i
    if isinstance(ix, tuple):
        return tuple(one(i) for i in ix)
    return one(ix)


# ---------------------------------------------------------------------------
def _matmul(a, b):
    a, b = mk(a), mk(b)
    A, B = np.asarray(a), np.asarray(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if A.ndim == 1 and B.ndim == 1:
        return s_dot1(A, B)
    if A.ndim == 1:
        return _matmul(A.reshape(1, -1), B)[..., 0, :]
    if B.ndim == 1:
        return _matmul(A, B.reshape(-1, 1))[..., 0]
    if A.shape[-1] != B.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core '
                         'dimension 0')
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    out = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(*lead):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                out[ix + (i, j)] = s_dot1(A[ix][i], B[ix][:, j])
    return out.view(SArr)


def s_dot1(x, y):
    if len(x) != len(y):
        raise ValueError('shapes not aligned')
    r = 0
    for p, q in zip(x, y):
        if not is_sym(p):
            if p == 0:
                continue
            if p == 1:
                r = r + q
                continue
        elif not is_sym(q):
            if q == 0:
                continue
        r = r + p * q
    return r


def s_dot(a, b, out=None):
    a, b = mk(a), mk(b)
    if a.ndim == 0 or b.ndim == 0:
        return norm(UF['multiply'](a, b))
    if b.ndim <= 2:
        return norm(_matmul(a, b))
    raise Unsupported('dot with ndim > 2')


def s_astype(a, dtype):
    a = mk(a)
    k = _kind(dtype)
    if k == 'O':
        return a
    if k in 'iu':
        return norm(fpf(_trunc_any, 1)(a).view(SArr))
    if k == 'f':
        return norm(fpf(lambda x: sym._toreal(x) if isinstance(x, SymNum) else
                        (x if is_sym(x) else float(x)), 1)(a).view(SArr))
    if k == 'b':
        return norm(fpf(sym._b, 1)(a).view(SArr))
    raise Unsupported('astype %r' % (dtype,))


def _trunc_any(x):
    if isinstance(x, SymNum):
        return x if x.isint else sym.trunc(x)
    if isinstance(x, SymBool):
        return x.as_num()
    if isinstance(x, (SymSqrt,)):
        return sym.trunc(x.purify())
    if isinstance(x, SymMin):
        return _trunc_any(x.pick())
    return int(x)


def _kind(dtype):
    if dtype is None:
        return 'O'
    if dtype is object:
        return 'O'
    if isinstance(dtype, type) and issubclass(dtype, int) and dtype is not bool:
        return 'i'
    if isinstance(dtype, type) and issubclass(dtype, float):
        return 'f'
    return np.dtype(dtype).kind


def rdt(dtype):
    """dtype argument as written in the code under test -> real dtype"""
    if isinstance(dtype, type):
        if dtype is not bool and issubclass(dtype, int):
            return np.int64
        if issubclass(dtype, float):
            return np.float64
    return dtype


def s_around(a, decimals=0, out=None):
    if not isinstance(a, np.ndarray):
        if not has_sym(a):
            return np.around(a, decimals)
        if is_sym(a):
            return _round1(a, decimals)
        a = mk(a)
    r = fpf(lambda x: _round1(x, decimals), 1)(a)
    return norm(r.view(SArr) if isinstance(r, np.ndarray) else r)


def _round1(x, n):
    if isinstance(x, SymNum):
        if x.isint and n >= 0:
            return x
        return sym.round_to(x, n)
    if isinstance(x, SymSqrt):
        return sym.round_to(x.purify(), n)
    if isinstance(x, SymMin):
        return _round1(x.pick(), n)
    return np.around(x, n).item() if not isinstance(x, Fraction) else round(x, n)


class _K(object):
    """sort key comparing lexicographically, forking when undecided"""
    __slots__ = ('ks',)

    def __init__(self, ks):
        self.ks = ks

    def __lt__(self, o):
        for a, b in zip(self.ks, o.ks):
            if skey(a) == skey(b):
                continue
            if bool(a < b):
                return True
            if not bool(a == b):
                return False
        return False


def s_lexsort(keys, axis=-1):
    ks = [mk(k) for k in keys]
    n = ks[0].shape[-1]
    cols = [[np.asarray(k)[i] for k in reversed(ks)] for i in range(n)]
    return np.array(sorted(range(n), key=lambda i: _K(cols[i])), dtype=np.int64)


def s_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = mk(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    for ix in np.ndindex(*b.shape[:-1]):
        row = list(b[ix])
        out[ix] = sorted(range(len(row)), key=lambda i: _K([row[i]]))
    return np.moveaxis(out, -1, axis)


def s_sort(a, axis=-1, **kw):
    a = mk(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        row = list(b[ix])
        for j, i in enumerate(sorted(range(len(row)), key=lambda i: _K([row[i]]))):
            out[ix + (j,)] = row[i]
    return norm(np.moveaxis(out, -1, axis).view(SArr))


def s_argext(a, axis=None, ismax=False, **kw):
    a = mk(a)

    def f(xs):
        if not xs:
            raise ValueError('attempt to get arg%s of an empty sequence'
                             % ('max' if ismax else 'min'))
        if ARGEXT is not None:
            r = ARGEXT(xs, ismax)
            if r is not None:
                return r
        b = 0
        for i in range(1, len(xs)):
            if skey(xs[i]) == skey(xs[b]):
                continue
            if bool(xs[i] > xs[b] if ismax else xs[i] < xs[b]):
                b = i
        return b
    if axis is None:
        return f(list(a.flat))
    r = reduce_axis(a, f, axis)
    return np.asarray(r).astype(np.int64) if isinstance(r, np.ndarray) else r


ARGEXT = None


def s_nonzero(a):
    a = mk(a)
    m = np.array([bool(sym._b(e)) for e in a.flat], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


def s_where(c, *xy):
    if not xy:
        return s_nonzero(c)
    x, y = xy
    c = mk(c) if not isinstance(c, np.ndarray) else c
    X = np.asarray(mk(x)) if isinstance(x, (list, tuple, np.ndarray)) else x
    Y = np.asarray(mk(y)) if isinstance(y, (list, tuple, np.ndarray)) else y
    r = fpf(lambda cc, a, b: a if bool(cc) else b, 3)(np.asarray(c, dtype=object), X, Y)
    return norm(r.view(SArr)) if isinstance(r, np.ndarray) and r.ndim else r


def s_argwhere(a):
    return np.transpose(s_nonzero(a))


def s_clip(a, lo=None, hi=None, **kw):
    def f(x):
        if lo is not None:
            x = s_max(x, lo)
        if hi is not None:
            x = s_min(x, hi)
        return x
    return norm(fpf(f, 1)(mk(a)).view(SArr))


def s_cumsum(a, axis=None, **kw):
    a = mk(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return np.add.accumulate(a, axis=axis)


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = 0
    for j in range(n):
        if not is_sym(M[0][j]) and M[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        t = M[0][j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def s_det(a):
    a = mk(a)
    if a.ndim != 2:
        return reduce_stack(a, s_det, 2)
    return _det([list(r) for r in np.asarray(a)])


def reduce_stack(a, f, k):
    a = np.asarray(a)
    lead = a.shape[:-k]
    rs = [f(a[ix].view(SArr)) for ix in np.ndindex(*lead)]
    return norm(mk(rs))


def s_inv(a):
    a = mk(a)
    if a.ndim != 2:
        return reduce_stack(a, s_inv, 2)
    M = [list(r) for r in np.asarray(a)]
    n = len(M)
    d = _det(M)
    if not is_sym(d):
        if d == 0:
            raise np.linalg.LinAlgError('Singular matrix')
    elif isinstance(d, SymNum) and d.is_const() and d.constval() == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    elif bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    dd = SymNum._co(d)
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(M) if k != j]
            c = _det(minor) if minor else 1
            if (i + j) % 2:
                c = -c
            out[i, j] = SymNum._co(c) / dd
    return norm(out.view(SArr))


def s_solve(a, b):
    return norm(_matmul(s_inv(a), b))


def s_norm(x, ord=None, axis=None, keepdims=False):
    a = mk(x)
    if ord in (None, 2, 'fro'):
        if axis is None and a.ndim == 2 and ord == 2:
            raise Unsupported('spectral norm')
        return reduce_axis(a, lambda xs: s_sqrt(_fold(operator.add, [e * e for e in xs], 0)),
                           axis, keepdims)
    if ord == 1 and (a.ndim == 1 or axis is not None):
        return reduce_axis(a, lambda xs: _fold(operator.add, [abs(e) for e in xs], 0), axis, keepdims)
    if ord == np.inf and (a.ndim == 1 or axis is not None):
        return reduce_axis(a, lambda xs: smin([abs(e) for e in xs], True), axis, keepdims)
    raise Unsupported('norm ord=%r' % (ord,))


def absle(d, t):
    """|d| <= t without forking"""
    return And(d <= t, -d <= t)


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        d = x - y
        if not is_sym(y):
            return absle(d, atol + rtol * abs(y))
        # |x-y| <= atol + rtol*|y|
        return Or(And(y >= 0, absle(d, atol + rtol * y)),
                  And(y < 0, absle(d, atol - rtol * y)))
    return norm(fpf(f, 2)(a, b))


def s_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = s_isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return And(*list(r.flat))
    return r


def s_array_equal(a, b, **kw):
    try:
        a, b = mk(a), mk(b)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    return And(*[x == y for x, y in zip(a.flat, b.flat)])


def s_concatenate(arrs, axis=0, out=None, **kw):
    xs = [np.asarray(mk(a)) for a in arrs]
    return norm(np.concatenate(xs, axis=axis).view(SArr))


def s_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if axis is not None:
        a = mk(a)
        rows = [list(np.asarray(a)[i].reshape(-1)) for i in range(a.shape[0])]
        order = sorted(range(len(rows)), key=lambda i: _K(rows[i]))
        keys = rows
        eq = lambda i, j: bool(And(*[x == y for x, y in zip(keys[i], keys[j])]))
        pick = lambda i: np.asarray(a)[i]
    else:
        a = mk(a).reshape(-1)
        keys = [e for e in a.flat]
        order = sorted(range(len(keys)), key=lambda i: _K([keys[i]]))
        eq = lambda i, j: bool(keys[i] == keys[j])
        pick = lambda i: keys[i]
    firsts, counts = [], []
    inv = [0] * len(order)
    for i in order:
        if firsts and eq(firsts[-1], i):
            counts[-1] += 1
            firsts[-1] = min(firsts[-1], i)
        else:
            firsts.append(i)
            counts.append(1)
        inv[i] = len(firsts) - 1
    res = norm(mk([pick(i) for i in firsts])) if firsts else np.array([])
    out = [res]
    if return_index:
        out.append(np.array(firsts))
    if return_inverse:
        out.append(np.array(inv))
    if return_counts:
        out.append(np.array(counts))
    return out[0] if len(out) == 1 else tuple(out)


def s_isin(a, vals, **kw):
    vs = list(mk(vals).flat) if isinstance(vals, (list, tuple, np.ndarray)) else list(vals)
    inv = kw.get('invert', False)
    r = fpf(lambda x: Not(Or(*[x == v for v in vs])) if inv else
            Or(*[x == v for v in vs]), 1)(mk(a))
    return norm(r.view(SArr))


def s_count_nonzero(a, axis=None, **kw):
    return reduce_axis(mk(a), lambda xs: sum(1 for e in xs if bool(sym._b(e))), axis)


def s_ediff(a, n=1, axis=-1):
    a = mk(a)
    b = np.moveaxis(np.asarray(a), axis, 0)
    return norm(np.moveaxis(UF['subtract'](b[1:], b[:-1]), 0, axis).view(SArr))


def s_cross(a, b, **kw):
    a, b = mk(a), mk(b)
    A, B = np.moveaxis(np.asarray(a), -1, 0), np.moveaxis(np.asarray(b), -1, 0)
    m, s = UF['multiply'], UF['subtract']
    r = [s(m(A[1], B[2]), m(A[2], B[1])), s(m(A[2], B[0]), m(A[0], B[2])),
         s(m(A[0], B[1]), m(A[1], B[0]))]
    if A.ndim == 1:
        return norm(mk([x[()] if isinstance(x, np.ndarray) else x for x in r]))
    return norm(np.moveaxis(np.stack(r), 0, -1).view(SArr))


def s_einsum(sub, *ops, **kw):
    sub = sub.replace(' ', '')
    if '...' in sub:
        raise Unsupported('einsum ellipsis')
    ins, out = sub.split('->') if '->' in sub else (sub, None)
    ins = ins.split(',')
    if out is None:
        alls = ''.join(ins)
        out = ''.join(sorted(c for c in set(alls) if alls.count(c) == 1))
    dims = {}
    ops = [np.asarray(mk(o)) for o in ops]
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    rest = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        tot = 0
        for jx in itertools.product(*[range(dims[c]) for c in rest]):
            env.update(zip(rest, jx))
            t = 1
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            tot = tot + t
        res[ix] = tot
    return norm(res.view(SArr)) if res.ndim else res[()]


def s_round_mod1(*a):
    raise Unsupported('mod')


def s_setdiff1d(a, b, assume_unique=False):
    a = s_unique(a)
    return norm(mk([x for x in mk(a).flat if not bool(Or(*[x == y for y in mk(b).flat]))])) \
        if len(a) else a


def s_repeat(a, n, axis=None):
    if isinstance(n, SymNum):
        n = n.__index__()
    if isinstance(n, np.ndarray) or isinstance(n, (list, tuple)):
        n = [operator.index(e) for e in n]
    return norm(np.repeat(np.asarray(mk(a)), n, axis=axis).view(SArr))


def s_array2string(a, *k, **kw):
    return _arrstr(mk(a))


def generic(func, args, kwargs):
    """structural numpy functions work on object arrays as they are"""
    def un(x):
        if isinstance(x, SArr):
            return np.asarray(x)
        if isinstance(x, list):
            return [un(e) for e in x]
        if isinstance(x, tuple):
            return tuple(un(e) for e in x)
        if isinstance(x, SymNum) and x.isint and x.is_const():
            return int(x)
        return x
    name = func.__name__
    if name not in STRUCT:
        sym.cur().stats.cut('numpy.%s evaluated generically' % name)
    r = func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()})

    def up(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return norm(x.view(SArr))
        if isinstance(x, tuple):
            return tuple(up(e) for e in x)
        if isinstance(x, list):
            return [up(e) for e in x]
        return x
    return up(r)


STRUCT = {'transpose', 'reshape', 'ravel', 'stack', 'vstack', 'hstack', 'dstack',
          'column_stack', 'row_stack', 'broadcast_to', 'broadcast_arrays', 'expand_dims', 'squeeze',
          'moveaxis', 'swapaxes', 'rollaxis', 'tile', 'roll', 'flip', 'fliplr', 'flipud', 'copy',
          'diag', 'diagonal', 'delete', 'insert', 'append', 'split', 'array_split', 'vsplit', 'hsplit',
          'atleast_1d', 'atleast_2d', 'atleast_3d', 'take', 'compress', 'shape',
          'ndim', 'size', 'ix_', 'meshgrid', 'block', 'trace', 'triu', 'tril',
          'take_along_axis', 'rot90', 'full_like', 'kron', 'outer', 'inner',
          'tensordot', 'vdot', 'resize', 'put', 'putmask', 'place', 'copyto',
          'pad', 'nan_to_num', 'iscomplexobj', 'isrealobj', 'real', 'imag', 'ndindex',
          'concatenate'}


def s_zeros_like(a, *k, **kw):
    return np.zeros(np.shape(a))


def s_ones_like(a, *k, **kw):
    return np.ones(np.shape(a))


def s_empty_like(a, *k, **kw):
    return mk(np.zeros(np.shape(a)))


FUNCS = {
    'all': lambda a, axis=None, **k: reduce_axis(mk(a), lambda xs: And(*xs), axis, k.get('keepdims', False)),
    'any': lambda a, axis=None, **k: reduce_axis(mk(a), lambda xs: Or(*xs), axis, k.get('keepdims', False)),
    'amin': lambda a, axis=None, **k: mk(a).min(axis, **k),
    'min': lambda a, axis=None, **k: mk(a).min(axis, **k),
    'amax': lambda a, axis=None, **k: mk(a).max(axis, **k),
    'max': lambda a, axis=None, **k: mk(a).max(axis, **k),
    'sum': lambda a, axis=None, *r, **k: mk(a).sum(axis, *r, **k),
    'prod': lambda a, axis=None, *r, **k: mk(a).prod(axis, *r, **k),
    'mean': lambda a, axis=None, **k: mk(a).mean(axis, **k),
    'average': lambda a, axis=None, **k: mk(a).mean(axis, **k),
    'around': s_around, 'round': s_around, 'round_': s_around,
    'lexsort': s_lexsort, 'argsort': s_argsort, 'sort': s_sort,
    'argmin': lambda a, axis=None, **k: s_argext(a, axis, False),
    'argmax': lambda a, axis=None, **k: s_argext(a, axis, True),
    'nonzero': s_nonzero, 'where': s_where, 'argwhere': s_argwhere,
    'flatnonzero': lambda a: s_nonzero(mk(a).reshape(-1))[0],
    'clip': s_clip, 'cumsum': s_cumsum, 'dot': s_dot, 'matmul': lambda a, b: norm(_matmul(a, b)),
    'allclose': s_allclose, 'isclose': s_isclose, 'array_equal': s_array_equal,
    'array_equiv': s_array_equal, 'concatenate': s_concatenate,
    'unique': s_unique, 'isin': s_isin, 'in1d': s_isin,
    'count_nonzero': s_count_nonzero, 'diff': s_ediff, 'cross': s_cross,
    'einsum': s_einsum, 'repeat': s_repeat, 'array2string': s_array2string,
    'array_str': s_array2string, 'array_repr': s_array2string,
    'zeros_like': s_zeros_like, 'ones_like': s_ones_like, 'empty_like': s_empty_like,
    'det': s_det, 'inv': s_inv, 'solve': s_solve, 'norm': s_norm,
    'setdiff1d': s_setdiff1d, 'fix': UF['trunc'],
    'astype': s_astype,
    'multi_dot': lambda arrs, **k: _fold(lambda a, b: norm(_matmul(a, b)), list(arrs), None),
}


# ---------------------------------------------------------------------------
class SVectorize(object):
    def __init__(self, pyfunc, otypes=None, **kw):
        self.f = pyfunc

    def __call__(self, *args, **kw):
        xs = [np.asarray(a, dtype=object) if isinstance(a, np.ndarray) else
              (np.asarray(mk(a)) if isinstance(a, (list, tuple)) else _box(a))
              for a in args]
        bs = np.broadcast_arrays(*xs)
        if bs[0].ndim == 0:
            return self.f(*[b[()] for b in bs], **kw)
        if bs[0].size == 0:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        out = np.empty(bs[0].shape, dtype=object)
        for ix in np.ndindex(*bs[0].shape):
            out[ix] = self.f(*[b[ix] for b in bs], **kw)
        return norm(out.view(SArr) if has_sym(out) else out)


class NS(object):
    """namespace delegating to a real module, with overrides"""

    def __init__(self, real, over, name):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['__name__'] = name

    def __getattr__(self, k):
        o = self._over
        if k in o:
            return o[k]
        v = getattr(self._real, k)
        if isinstance(v, type) or not callable(v):
            return v
        w = wrapped(v)
        o[k] = w
        return w

    def __setattr__(self, k, v):
        self._over[k] = v

    def __delattr__(self, k):
        self._over.pop(k, None)


def wrapped(fn):
    name = getattr(fn, '__name__', '')

    def conv(a):
        if isinstance(a, (list, tuple)) and has_sym(a):
            if isinstance(a, tuple) and any(isinstance(e, (np.ndarray, list)) for e in a):
                return tuple(conv(e) for e in a)
            if any(isinstance(e, np.ndarray) for e in a):
                return [conv(e) for e in a]
            return mk(a)
        return a

    def call(*a, **k):
        if 'dtype' in k:
            k['dtype'] = rdt(k['dtype'])
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if isinstance(fn, np.ufunc):
                f = UF.get(name)
                if f is not None:
                    args = [mk(x) if isinstance(x, (list, tuple)) else x for x in a]
                    if not any(isinstance(x, np.ndarray) for x in args):
                        r = f(*args)
                        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else norm(r)
                    out = k.pop('out', None)
                    r = f(*args)
                    r = norm(r.view(SArr)) if isinstance(r, np.ndarray) and r.ndim else r
                    if out is not None:
                        out[...] = r
                        return out
                    return r
            f = FUNCS.get(name)
            if f is not None:
                return f(*a, **k)
            a = [conv(x) for x in a]
            if not any(isinstance(x, SArr) or
                       (isinstance(x, (list, tuple)) and any(isinstance(e, SArr) for e in x))
                       for x in a):
                a = [mk(x) if is_sym(x) else x for x in a]
            return generic(fn, a, k)
        return fn(*a, **k)
    call.__name__ = name
    if isinstance(fn, np.ufunc):
        return UFW(fn, call)
    return call


class UFW(object):
    """a ufunc: callable, with reduce/outer/accumulate/at"""

    def __init__(self, u, call):
        self.u = u
        self.c = call
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return self.c(*a, **k)

    def __getattr__(self, k):
        m = getattr(self.u, k)
        if not callable(m):
            return m

        def f(*a, **kw):
            a = [mk(x) if has_sym(x) and not isinstance(x, np.ndarray) else x for x in a]
            return m(*a, **kw)
        return f


def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    if isinstance(x, (types.GeneratorType, map, zip)):
        x = list(x) if False else x
    if isinstance(x, SArr):
        r = x.copy() if copy is not False and copy is not None else x
    elif has_sym(x):
        r = mk(x)
        if r.ndim == 0:
            return s_astype(r, dtype) if dtype is not None else r
    else:
        r = np.array(x, dtype=rdt(dtype), ndmin=ndmin,
                     copy=True if copy is not False else None)
        if r.ndim and r.dtype.kind in 'fi':
            k = keep()
            if k and (r.dtype.kind == 'f' or k == 'all'):
                return mk(r)
        return r
    if dtype is not None:
        r = s_astype(r, dtype)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def f_asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return f_array(x, dtype, copy=False)


def f_full(shape, v, dtype=None, **kw):
    if is_sym(v):
        a = np.empty(fixshape(shape), dtype=object)
        a.fill(v)
        return a.view(SArr)
    return np.full(fixshape(shape), v, dtype=rdt(dtype))


def fixshape(s):
    if isinstance(s, SymNum):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(e) for e in s)
    return s


def f_shape_ctor(fn):
    def g(shape, dtype=None, **kw):
        return fn(fixshape(shape), dtype=rdt(dtype) if dtype is not None else float)
    return g


def f_empty(shape, dtype=None, **kw):
    # uninitialised memory: object array so that symbolic data can be stored
    k = _kind(dtype) if dtype is not None else 'f'
    a = np.empty(fixshape(shape), dtype=object)
    a.fill(0 if k in 'iu' else False if k == 'b' else 0.0)
    return a.view(SArr)


def f_zeros(shape, dtype=None, order=None, **kw):
    """plain zeros; object array when symbolic writes are likely"""
    if SYMZEROS:
        return f_empty(shape, dtype)
    return np.zeros(fixshape(shape), dtype=rdt(dtype) if dtype is not None else float)


SYMZEROS = False


def f_arange(*a, **k):
    a = [x.__index__() if isinstance(x, SymNum) and x.isint else x for x in a]
    if 'dtype' in k:
        k['dtype'] = rdt(k['dtype'])
    return np.arange(*a, **k)


def f_fromiter(it, dtype=None, count=-1, **k):
    xs = list(it)
    if has_sym(xs):
        return s_astype(mk(xs), dtype)
    return np.fromiter(xs, dtype=rdt(dtype), count=count)


def f_ndindex(*s):
    return np.ndindex(*[fixshape(e) for e in s])


def f_apply_along_axis(f, axis, arr, *a, **k):
    if not has_sym(arr):
        return np.apply_along_axis(f, axis, arr, *a, **k)
    b = np.moveaxis(np.asarray(mk(arr)), axis, -1)
    rs = [f(norm(b[ix].view(SArr)), *a, **k) for ix in np.ndindex(*b.shape[:-1])]
    r = mk(rs)
    r = r.reshape(b.shape[:-1] + r.shape[1:])
    if r.ndim == b.ndim:
        r = np.moveaxis(np.asarray(r), -1, axis).view(SArr)
    return norm(r)


class RandomNS(object):
    """numpy.random: every draw is an unconstrained input of the harness"""

    def __init__(self, src):
        self._src = src

    def __getattr__(self, k):
        src = self._src
        if src is None:
            raise Unsupported('numpy.random.%s without a random source' % k)
        f = getattr(src, 'np_' + k, None)
        if f is None:
            raise Unsupported('numpy.random.%s' % k)
        return f


def make_facade(random_src=None):
    lin = NS(np.linalg, {'inv': _sw(np.linalg.inv, s_inv), 'det': _sw(np.linalg.det, s_det),
                         'norm': _sw(np.linalg.norm, s_norm), 'solve': _sw(np.linalg.solve, s_solve)},
             'numpy.linalg')
    over = {
        'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray,
        'ascontiguousarray': f_asarray,
        'zeros': f_zeros, 'ones': f_shape_ctor(np.ones), 'full': f_full,
        'empty': f_empty, 'arange': f_arange, 'fromiter': f_fromiter,
        'vectorize': SVectorize, 'frompyfunc': None, 'linalg': lin,
        'apply_along_axis': f_apply_along_axis, 'ndindex': f_ndindex,
        'int': np.int64, 'float': np.float64, 'bool': np.bool_, 'object': object,
        'str': str, 'long': np.int64, 'random': RandomNS(random_src),
        'float64': SFloat64, 'int64': np.int64, 'in1d': wrapped(np.isin),
        'product': wrapped(np.prod), 'alltrue': wrapped(np.all), 'sometrue': wrapped(np.any),
        'round_': wrapped(np.around), 'row_stack': wrapped(np.vstack),
    }
    del over['frompyfunc']
    del over['float64']
    return NS(np, over, 'numpy')


def SFloat64(x=0.0):
    return sym._toreal(x) if isinstance(x, SymNum) else np.float64(x)


def _sw(real, s):
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            return s(*a, **k)
        return real(*a, **k)
    f.__name__ = real.__name__
    return f
