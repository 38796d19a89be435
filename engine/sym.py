"""Symbolic values and path exploration.

Numbers are multivariate polynomials with rational coefficients over solver
variables; everything that is not polynomial (floor, round, division by an
unknown, roots) is purified into a fresh variable with a defining constraint.
Boolean tests on such numbers become solver terms; Python asking for their
truth value forks the execution (the run is replayed from the start with a
longer decision prefix).  All arithmetic is exact: `int` is the mathematical
integers (as in Python) and `float` is modelled by the reals.
"""
import math
import re
import time
from fractions import Fraction

import numpy as np
import z3


# --------------------------------------------------------------------------
# control-flow exceptions: BaseException so `except Exception` / bare handlers
# written for ordinary errors do not swallow them (bare `except:` re-raises
# are handled in loader by rewriting, see loader.py)
class PathControl(BaseException):
    pass


class PathInfeasible(PathControl):
    pass


class PathViolation(PathControl):
    pass


class PathBudget(PathControl):
    pass


class Unsupported(PathControl):
    """An operation the encoding does not cover."""


CUR = None          # the running PathCtx


def cur():
    if CUR is None:
        raise RuntimeError("no symbolic execution is active")
    return CUR


# --------------------------------------------------------------------------
def nice(x):
    """float -> exact rational, snapping to the short rational it denotes."""
    f = Fraction(x)
    if f.denominator <= 1000000:
        return f
    g = f.limit_denominator(1000000)
    if abs(g - f) <= Fraction(1, 10 ** 13) * max(1, abs(f)):
        return g
    return f


def lift(x):
    """Python/numpy scalar -> Fraction, or None when it is not a number."""
    t = type(x)
    if t is int:
        return Fraction(x)
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return None
        return nice(x)
    if t is bool:
        return Fraction(int(x))
    if t is Fraction:
        return x
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    if isinstance(x, int):
        return Fraction(int(x))
    if isinstance(x, float):
        return lift(float(x))
    return None


class Var(object):
    __slots__ = ('id', 'name', 'z', 'isint', 'lo', 'hi', 'role')

    def __init__(self, vid, name, isint, lo, hi, role):
        self.id = vid
        self.name = name
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.role = role
        self.z = z3.Int(name) if isint else z3.Real(name)


def _iv_mul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (Fraction(0), Fraction(0))
    cands = []
    for x in a:
        for y in b:
            if x is None or y is None:
                return None
            cands.append(x * y)
    return (min(cands), max(cands))


def _zfrac(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


class SymNum(object):
    """polynomial; p: {monomial(tuple of var ids): Fraction}"""
    __slots__ = ('p', 'isint', '_key', '_iv')

    def __init__(self, p, isint):
        self.p = p
        self.isint = isint
        self._key = None
        self._iv = 0

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(f, isint=False):
        f = Fraction(f)
        return SymNum({(): f} if f else {}, isint)

    @staticmethod
    def make(p, isint):
        p = {m: c for m, c in p.items() if c}
        if isint and (not p or (len(p) == 1 and () in p)):
            c = p.get((), Fraction(0))
            if c.denominator == 1:
                return int(c)
        return SymNum(p, isint)

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def constval(self):
        return self.p.get((), Fraction(0))

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.p.items()))
        return self._key

    def degree(self):
        return max([len(m) for m in self.p] or [0])

    def interval(self):
        if self._iv != 0:
            return self._iv
        vs = cur().vars
        lo = hi = Fraction(0)
        for m, c in self.p.items():
            iv = (Fraction(1), Fraction(1))
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                v = vs[m[i]]
                one = (v.lo, v.hi)
                k = j - i
                if k == 1:
                    t = one
                else:
                    if one[0] is None or one[1] is None:
                        t = (Fraction(0), None) if k % 2 == 0 else (None, None)
                    else:
                        a, b = one[0] ** k, one[1] ** k
                        t = (min(a, b), max(a, b))
                        if k % 2 == 0 and one[0] < 0 < one[1]:
                            t = (Fraction(0), max(a, b))
                if iv == (1, 1):
                    iv = t
                elif None in iv or None in t:
                    iv = (None, None)
                else:
                    iv = _iv_mul(iv, t)
                i = j
            a, b = iv
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * c
            hi = None if hi is None or b is None else hi + b * c
            if lo is None and hi is None:
                break
        self._iv = (lo, hi)
        return self._iv

    # -- lowering ----------------------------------------------------------
    def z(self):
        """z3 term; Int sort when integral with integral coefficients."""
        c = cur()
        k = self.key()
        t = c.zcache.get((k, self.isint))
        if t is not None:
            return t
        vs = c.vars
        allint = all(f.denominator == 1 for f in self.p.values()) and \
            all(vs[i].isint for m in self.p for i in m)
        terms = []
        for m, f in self.p.items():
            fs = []
            if f != 1 or not m:
                fs.append(z3.IntVal(f.numerator) if allint else _zfrac(f))
            for i in m:
                v = vs[i]
                fs.append(v.z if allint or not v.isint else z3.ToReal(v.z))
            t = fs[0]
            for g in fs[1:]:
                t = t * g
            terms.append(t)
        if not terms:
            r = z3.IntVal(0) if allint else z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        c.zcache[(k, self.isint)] = r
        return r

    # -- arithmetic ---------------------------------------------------------
    @staticmethod
    def _co(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymSqrt):
            return x.purify()
        if isinstance(x, SymBool):
            return x.as_num()
        f = lift(x)
        if f is None:
            return None
        isint = isinstance(x, (int, bool)) or (hasattr(x, 'dtype') and
                                               x.dtype.kind in 'iub')
        return SymNum.const(f, isint)

    def _lin(self, o, s):
        p = dict(self.p)
        for m, c in o.p.items():
            v = p.get(m, 0) + (c if s > 0 else -c)
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return SymNum.make(p, self.isint and o.isint)

    def __add__(self, o):
        o = SymNum._co(o)
        return NotImplemented if o is None else self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = SymNum._co(o)
        return NotImplemented if o is None else self._lin(o, -1)

    def __rsub__(self, o):
        o = SymNum._co(o)
        return NotImplemented if o is None else o._lin(self, -1)

    def __mul__(self, o):
        if isinstance(o, SymSqrt):
            return o.__mul__(self)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        o = SymNum._co(o)
        if o is None:
            return NotImplemented
        p = {}
        for m1, c1 in self.p.items():
            for m2, c2 in o.p.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = p.get(m, 0) + c1 * c2
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        return SymNum.make(p, self.isint and o.isint)
    __rmul__ = __mul__

    def __neg__(self):
        return SymNum.make({m: -c for m, c in self.p.items()}, self.isint)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = SymNum._co(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = SymNum._co(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        o = SymNum._co(o)
        if o is None:
            return NotImplemented
        r = floor(_div(self, o))
        return r if (self.isint and o.isint) else _toreal(r)

    def __rfloordiv__(self, o):
        o = SymNum._co(o)
        return NotImplemented if o is None else o.__floordiv__(self)

    def __mod__(self, o):
        o = SymNum._co(o)
        if o is None:
            return NotImplemented
        isint = self.isint and o.isint
        r = self - o * floor(_div(self, o))
        if not isint:
            r = _toreal(r)
        return r

    def __rmod__(self, o):
        o = SymNum._co(o)
        return NotImplemented if o is None else o.__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, e, mod=None):
        if isinstance(e, SymNum):
            if e.is_const():
                e = e.constval()
            elif e.isint:
                e = e.__index__()
            else:
                raise Unsupported('symbolic exponent')
        f = lift(e)
        if f is None:
            return NotImplemented
        if f.denominator == 1:
            n = int(f)
            if n >= 0:
                r = SymNum.const(1, self.isint)
                for _ in range(n):
                    r = r * self
                return r if isinstance(e, int) or not self.isint else _toreal(r)
            return 1 / (self ** (-n))
        if f == Fraction(1, 2):
            return sqrt(self)
        return realize_fn(lambda x: x ** float(f), self)

    def __rpow__(self, b):
        return b ** (self.__index__() if self.isint else float(self))

    def __abs__(self):
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        return self if bool(self >= 0) else -self

    # -- comparison -----------------------------------------------------------
    def __lt__(self, o):
        return _cmp(self, o, 'lt')

    def __le__(self, o):
        return _cmp(self, o, 'le')

    def __gt__(self, o):
        return _cmp(self, o, 'gt')

    def __ge__(self, o):
        return _cmp(self, o, 'ge')

    def __eq__(self, o):
        return _cmp(self, o, 'eq')

    def __ne__(self, o):
        r = _cmp(self, o, 'eq')
        if r is NotImplemented:
            return r
        return Not(r)

    def __bool__(self):
        return bool(self != 0)

    # -- concretisation ---------------------------------------------------------
    def __hash__(self):
        if self.is_const():
            return hash(self.constval())
        if self.isint:
            return hash(self.__index__())
        return hash(float(self))

    def __index__(self):
        if self.is_const():
            c = self.constval()
            if c.denominator != 1:
                raise TypeError('not an integer')
            return int(c)
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize_int(self)

    def __int__(self):
        if self.isint:
            return self.__index__()
        t = trunc(self)
        return t if isinstance(t, int) else t.__index__()

    def __float__(self):
        if self.is_const():
            return float(self.constval())
        if self.isint:
            return float(self.__index__())
        return float(cur().concretize_real(self))

    def __complex__(self):
        return complex(float(self))

    # -- rounding ---------------------------------------------------------------
    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        r = floor(-self)
        return -r

    def __trunc__(self):
        return trunc(self)

    def __round__(self, n=None):
        if self.isint and (n is None or n >= 0):
            return self
        r = round_to(self, n or 0)
        return _toint(r) if n is None else r

    def rint(self):
        return _toreal(round_to(self, 0))

    def floor(self):
        return _toreal(floor(self))

    def ceil(self):
        return _toreal(self.__ceil__())

    def trunc(self):
        return _toreal(trunc(self))

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self
    conj = conjugate

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self
    tolist = item
    copy = item

    def astype(self, t, **kw):
        if t in (int, 'int', 'i', 'int64', 'i8') or \
                getattr(t, '__name__', '').startswith(('int', 'uint')):
            return trunc(self)
        return _toreal(self)

    def is_integer(self):
        return _is_integer(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        # numpy object ufuncs look for methods such as cos/exp/log on elements
        if name in _MATHFNS:
            fn = getattr(math, _MATHFNS[name])
            return lambda *a: realize_fn(fn, self)
        raise AttributeError(name)

    def __str__(self):
        if self.is_const() and self.isint:
            return str(int(self.constval()))
        return cur().token(self, '')

    __repr__ = __str__

    def __format__(self, spec):
        return cur().token(self, spec)

    def debug(self):
        c = CUR
        if c is None:
            return 'SymNum'
        return ' + '.join('%s*%s' % (f, '*'.join(c.vars[i].name for i in m) or '1')
                          for m, f in self.p.items()) or '0'


_MATHFNS = {'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'arccos': 'acos',
            'arcsin': 'asin', 'arctan': 'atan', 'exp': 'exp', 'log': 'log',
            'log2': 'log2', 'log10': 'log10', 'cbrt': 'cbrt'}


def realize_fn(fn, x):
    """Apply a real function outside the encoding by fixing its argument."""
    v = float(x)
    return fn(v)


def _toreal(x):
    if isinstance(x, SymNum):
        return SymNum(x.p, False) if x.isint else x
    if isinstance(x, int):
        return float(x)
    return x


def _toint(x):
    if isinstance(x, SymNum):
        return SymNum.make(x.p, True)
    return int(x)


# used by definitions: returns raw z3 equality
def zeq(a, b):
    a, b = SymNum._co(a), SymNum._co(b)
    d = a._lin(b, -1)
    d = SymNum._co(d)
    return d.z() == 0


def zle(a, b):
    d = SymNum._co(SymNum._co(a)._lin(SymNum._co(b), -1))
    return d.z() <= 0


def zlt(a, b):
    d = SymNum._co(SymNum._co(a)._lin(SymNum._co(b), -1))
    return d.z() < 0


def _div_def(a, b):
    return lambda v: [zeq(v * b, a)]


def _div2(a, b):
    return cur().define(('div', a.key(), b.key()), False, _div_def(a, b))


def _div(a, b):
    if b.is_const():
        c = b.constval()
        if c == 0:
            raise ZeroDivisionError('division by zero')
        return SymNum({m: v / c for m, v in a.p.items()}, False)
    if bool(b == 0):
        raise ZeroDivisionError('division by zero')
    if not a.p:
        return SymNum({}, False)
    if len(a.p) == len(b.p) and set(a.p) == set(b.p):
        ks = {a.p[m] / b.p[m] for m in a.p}
        if len(ks) == 1:
            return SymNum.const(ks.pop())
    return _div2(a, b)


def floor(x):
    """-> int or integral SymNum"""
    x = SymNum._co(x)
    if x.isint:
        return SymNum.make(x.p, True)
    if x.is_const():
        return math.floor(x.constval())
    # split off the integral part of the constant and of integer variables
    vs = cur().vars
    ip, fp = {}, {}
    for m, c in x.p.items():
        if not m:
            k = math.floor(c)
            if k:
                ip[m] = Fraction(k)
            if c - k:
                fp[m] = c - k
        elif c.denominator == 1 and all(vs[i].isint for i in m):
            ip[m] = c
        else:
            fp[m] = c
    base = SymNum.make(ip, True)
    f = SymNum(fp, False)
    if not fp:
        return base
    if f.is_const():
        return base + math.floor(f.constval())
    lo, hi = f.interval()
    ilo = ihi = None
    if lo is not None:
        ilo = math.floor(lo)
    if hi is not None:
        ihi = math.floor(hi)
    if ilo is not None and ilo == ihi:
        return base + ilo
    k = cur().define(('floor', f.key()), True,
                     lambda v: [zle(v, f), zlt(f, v + 1)], ilo, ihi)
    return base + k


def trunc(x):
    x = SymNum._co(x)
    lo, hi = x.interval()
    if lo is not None and lo >= 0:
        return floor(x)
    if hi is not None and hi <= 0:
        return -floor(-x) if not isinstance(-x, int) else -math.floor(-x)
    if bool(x >= 0):
        return floor(x)
    r = floor(-x)
    return -r


def _is_integer(x):
    x = SymNum._co(x)
    if x.isint:
        return True
    if x.is_const():
        return x.constval().denominator == 1
    return x == floor(x)


def round_to(x, n):
    """round half to even at n decimals, as a real."""
    x = SymNum._co(x)
    s = Fraction(10) ** n
    y = SymNum({m: c * s for m, c in x.p.items()}, False)
    if y.is_const():
        c = y.constval()
        return SymNum.const(Fraction(round(c)) / s)
    vs = cur().vars
    if all(c.denominator == 1 and all(vs[i].isint for i in m)
           for m, c in y.p.items()):
        return x if not x.isint else _toreal(x)
    ip, fp = {}, {}
    for m, c in y.p.items():
        # an even integer part never changes the tie-breaking
        if c.denominator == 1 and c % 2 == 0 and all(vs[i].isint for i in m):
            ip[m] = c
        elif not m:
            k = 2 * math.floor(c / 2)
            if k:
                ip[m] = Fraction(k)
            if c - k:
                fp[m] = c - k
        else:
            fp[m] = c
    f = SymNum(fp, False)
    lo, hi = f.interval()
    ilo = None if lo is None else round(lo)
    ihi = None if hi is None else round(hi)
    if ilo is not None and ilo == ihi:
        k = SymNum.const(ilo, True)
    else:
        half = Fraction(1, 2)

        def defs(v):
            h = cur().fresh_raw('even', True)
            z = [zle(v - half, f), zle(f, v + half)]
            tie = z3.Or(zeq(f, v - half), zeq(f, v + half))
            z.append(z3.Implies(tie, zeq(v, h * 2)))
            return z
        k = cur().define(('rint', f.key()), True, defs, ilo, ihi)
        k = SymNum._co(k)
    tot = k._lin(SymNum(ip, True), 1)
    tot = SymNum._co(tot)
    return SymNum({m: c / s for m, c in tot.p.items()}, False)


def _isqrt_frac(f):
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def sqrt(x):
    x = SymNum._co(x)
    if x.is_const():
        c = x.constval()
        if c < 0:
            raise ValueError('math domain error')
        r = _isqrt_frac(c)
        if r is not None:
            return SymNum.const(r)
        return SymSqrt(x)
    lo, _ = x.interval()
    if lo is None or lo < 0:
        sq = _square_root_poly(x)
        if sq is not None:
            return abs(sq)
        if not cur().entails_nonneg(x):
            if bool(x < 0):
                raise ValueError('math domain error')
    sq = _square_root_poly(x)
    if sq is not None:
        return abs(sq)
    return SymSqrt(x)


def _square_root_poly(x):
    """c*m**2 with c a rational square -> its root"""
    if len(x.p) != 1:
        return None
    (m, c), = x.p.items()
    if c <= 0 or len(m) % 2:
        return None
    r = _isqrt_frac(c)
    if r is None:
        return None
    if any(m[i] != m[i + 1] for i in range(0, len(m), 2)):
        return None
    return SymNum({m[::2]: r}, False)


class SymSqrt(object):
    """Non-negative root of a polynomial, compared through its square."""
    __slots__ = ('sq',)
    isint = False

    def __init__(self, sq):
        self.sq = sq

    def purify(self):
        sq = self.sq
        return cur().define(('sqrt', sq.key()), False,
                            lambda v: [v.z() >= 0, zeq(v * v, sq)], Fraction(0))

    def _cmp(self, o, kind):
        if isinstance(o, SymMin):
            return NotImplemented
        if isinstance(o, SymSqrt):
            return _cmp(self.sq, o.sq, kind)
        t = SymNum._co(o)
        if t is None:
            return False if kind == 'eq' else NotImplemented
        t2 = t * t
        if kind == 'lt':
            return And(t > 0, _cmp(self.sq, t2, 'lt'))
        if kind == 'le':
            return And(t >= 0, _cmp(self.sq, t2, 'le'))
        if kind == 'gt':
            return Or(t < 0, _cmp(self.sq, t2, 'gt'))
        if kind == 'ge':
            return Or(t <= 0, _cmp(self.sq, t2, 'ge'))
        return And(t >= 0, _cmp(self.sq, t2, 'eq'))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return Not(self._cmp(o, 'eq'))

    def __hash__(self):
        return hash(float(self.purify()))

    def __bool__(self):
        return bool(self.sq != 0)

    def __add__(self, o): return self.purify() + o
    __radd__ = __add__
    def __sub__(self, o): return self.purify() - o
    def __rsub__(self, o): return o - self.purify()

    def __mul__(self, o):
        if isinstance(o, SymSqrt):
            return sqrt(self.sq * o.sq) if o is not self else self.sq
        f = lift(o) if not isinstance(o, SymNum) else None
        if f is not None and f >= 0:
            return sqrt(self.sq * (f * f))
        return self.purify() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        f = lift(o) if not isinstance(o, (SymNum, SymSqrt)) else None
        if f is not None and f > 0:
            return sqrt(self.sq * (1 / (f * f)))
        return self.purify() / o

    def __rtruediv__(self, o): return o / self.purify()

    def __pow__(self, e):
        if e == 2:
            return self.sq
        return self.purify() ** e

    def __neg__(self): return -self.purify()
    def __pos__(self): return self
    def __abs__(self): return self

    def __float__(self):
        if self.sq.is_const():
            return math.sqrt(float(self.sq.constval()))
        return float(self.purify())

    def __round__(self, n=None): return round(self.purify(), n)
    def rint(self): return self.purify().rint()
    def sqrt(self): return sqrt(self.purify())
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __str__(self): return str(self.purify())
    __repr__ = __str__
    def __format__(self, spec): return format(self.purify(), spec)


class SymMin(object):
    """min (or max) of a list of symbolic numbers, compared element-wise."""
    __slots__ = ('xs', 'ismax')
    isint = False

    def __init__(self, xs, ismax=False):
        self.xs = xs
        self.ismax = ismax

    def _q(self, op, o):
        rs = [op(x, o) for x in self.xs]
        return rs

    def __lt__(self, o):
        rs = [x < o for x in self.xs]
        return And(*rs) if self.ismax else Or(*rs)

    def __le__(self, o):
        rs = [x <= o for x in self.xs]
        return And(*rs) if self.ismax else Or(*rs)

    def __gt__(self, o):
        rs = [x > o for x in self.xs]
        return Or(*rs) if self.ismax else And(*rs)

    def __ge__(self, o):
        rs = [x >= o for x in self.xs]
        return Or(*rs) if self.ismax else And(*rs)

    def __eq__(self, o):
        return And(self <= o, self >= o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def pick(self):
        """resolve by forking to the extreme element"""
        best = self.xs[0]
        for x in self.xs[1:]:
            if bool(x > best if self.ismax else x < best):
                best = x
        return best

    def __bool__(self): return bool(self.pick())
    def __float__(self): return float(self.pick())
    def __add__(self, o): return self.pick() + o
    __radd__ = __add__
    def __sub__(self, o): return self.pick() - o
    def __rsub__(self, o): return o - self.pick()
    def __mul__(self, o): return self.pick() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.pick() / o
    def __neg__(self): return -self.pick()
    def __abs__(self): return abs(self.pick())
    def __pow__(self, e): return self.pick() ** e
    def __index__(self): return self.pick().__index__()
    def __int__(self): return int(self.pick())
    def item(self): return self
    def __str__(self): return str(self.pick())
    __repr__ = __str__
    def __format__(self, s): return format(self.pick(), s)


# --------------------------------------------------------------------------
def _cmp(a, o, kind):
    if isinstance(o, SymSqrt):
        flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq'}
        return o._cmp(a, flip[kind])
    if isinstance(o, SymMin):
        return NotImplemented
    b = SymNum._co(o)
    if b is None:
        if isinstance(o, float):
            if o != o:
                return False
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False}[kind]
        return False if kind == 'eq' else NotImplemented
    if kind == 'gt':
        a, b, kind = b, a, 'lt'
    elif kind == 'ge':
        a, b, kind = b, a, 'le'
    p = dict(a.p)
    for m, c in b.p.items():
        v = p.get(m, 0) - c
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    d = SymNum(p, a.isint and b.isint)
    if d.is_const():
        c = d.constval()
        return c < 0 if kind == 'lt' else c <= 0 if kind == 'le' else c == 0
    lo, hi = d.interval()
    if kind == 'lt':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif kind == 'le':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    # canonical scaling
    k = min(p)
    if k == () and len(p) > 1:
        k = sorted(p)[1]
    s = abs(p[k]) if kind != 'eq' else p[k]
    if s != 1:
        d = SymNum({m: c / s for m, c in p.items()}, d.isint)
        if d.isint and any(c.denominator != 1 for c in d.p.values()):
            l = 1
            for c in d.p.values():
                l = l * c.denominator // math.gcd(l, c.denominator)
            d = SymNum({m: c * l for m, c in d.p.items()}, True)
    return SymBool(None, (kind, d.key()), d)


class SymBool(object):
    """z: z3 Bool (lazy for atoms); atom: canonical (kind, polykey) or None"""
    __slots__ = ('_z', 'atom', 'd')

    def __init__(self, z, atom=None, d=None):
        self._z = z
        self.atom = atom
        self.d = d

    @property
    def z(self):
        if self._z is None:
            t = self.d.z()
            k = self.atom[0]
            self._z = t < 0 if k == 'lt' else t <= 0 if k == 'le' else t == 0
        return self._z

    def __bool__(self):
        return cur().branch(self)

    def __and__(self, o):
        return And(self, o) if isinstance(o, (bool, SymBool)) or _isnpbool(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o) if isinstance(o, (bool, SymBool)) or _isnpbool(o) else NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return Not(Iff(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or _isnpbool(o):
            return Iff(self, o)
        return self.as_num() == o

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def as_num(self):
        return cur().define(('b2i', self.z.get_id()), True,
                            lambda v: [z3.If(self.z, v.z() == 1, v.z() == 0)],
                            0, 1, keep=self.z)

    def __add__(self, o): return self.as_num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.as_num() - o
    def __rsub__(self, o): return o - self.as_num()
    def __mul__(self, o): return self.as_num() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.as_num() < o
    def __gt__(self, o): return self.as_num() > o
    def __le__(self, o): return self.as_num() <= o
    def __ge__(self, o): return self.as_num() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def item(self): return self
    def logical_not(self): return Not(self)
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _isnpbool(o):
    return type(o).__module__ == 'numpy' and type(o).__name__ in ('bool', 'bool_')


def _b(x):
    if isinstance(x, SymBool):
        if x.atom is not None and CUR is not None:
            d = CUR.decided.get(x.atom)
            if d is not None:
                return d
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def And(*xs):
    zs = []
    one = None
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        one = x
        zs.append(x.z)
    if not zs:
        return True
    if len(zs) == 1:
        return one
    return SymBool(z3.And(zs))


def Or(*xs):
    zs = []
    one = None
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        one = x
        zs.append(x.z)
    if not zs:
        return False
    if len(zs) == 1:
        return one
    return SymBool(z3.Or(zs))


def Not(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    if x.atom is not None:
        kind, key = x.atom
        if kind == 'lt':        # d<0  ->  -d<=0
            d = SymNum({m: -c for m, c in x.d.p.items()}, x.d.isint)
            return SymBool(None, ('le', d.key()), d)
        if kind == 'le':
            d = SymNum({m: -c for m, c in x.d.p.items()}, x.d.isint)
            return SymBool(None, ('lt', d.key()), d)
    return SymBool(z3.Not(x.z))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return SymBool(a.z == b.z)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymSqrt, SymMin))


# --------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged_solver = 0
        self.discharged_syntactic = 0
        self.infeasible = 0
        self.unknown = 0
        self.cuts = {}
        self.gaps = []

    def cut(self, what):
        self.cuts[what] = self.cuts.get(what, 0) + 1

    def as_dict(self):
        return {k: getattr(self, k) for k in
                ('paths', 'branches', 'forks', 'queries', 'solver_s',
                 'obligations', 'discharged_solver', 'discharged_syntactic',
                 'infeasible', 'unknown', 'cuts', 'gaps')}


TOK0 = 0xE000       # private-use code point marking a formatted number


class PathCtx(object):
    """State of one symbolic execution path."""

    def __init__(self, stats, prefix, qtimeout=20000, logic=None):
        self.stats = stats
        self.prefix = prefix
        self.taken = []             # [(value, forced)]
        self.alts = []              # unexplored prefixes found on this path
        self.vars = []
        self.inputs = {}            # name -> ('num', SymNum) | ('bool', SymBool)
        self.memo = {}
        self.zcache = {}
        self.decided = {}
        self.known_id = {}
        self.keep = []
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.qtimeout = qtimeout
        self.solver.set('timeout', qtimeout)
        self.pc = []
        self.tokens = {}
        self.tokids = {}
        self.ntok = 0
        self.model = None           # a model of the current pc, if known
        self.nfresh = {}
        self.deadline = None

    # -- variables -------------------------------------------------------------
    def fresh_raw(self, name, isint, lo=None, hi=None, role='aux'):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        if role == 'aux':
            name = '%s!%d' % (name, n)
        v = Var(len(self.vars), name, isint,
                None if lo is None else Fraction(lo),
                None if hi is None else Fraction(hi), role)
        self.vars.append(v)
        if v.lo is not None:
            self.add(v.z >= (int(v.lo) if isint else _zfrac(v.lo)))
        if v.hi is not None:
            self.add(v.z <= (int(v.hi) if isint else _zfrac(v.hi)))
        return SymNum({(v.id,): Fraction(1)}, isint)

    def define(self, key, isint, constraints, lo=None, hi=None, keep=None):
        v = self.memo.get(key)
        if v is None:
            if keep is not None:
                self.keep.append(keep)
            v = self.fresh_raw(key[0], isint, lo, hi)
            for z in constraints(v):
                self.add(z)
            self.memo[key] = v
        return v

    def input_num(self, name, isint, lo, hi):
        assert name not in self.inputs, name
        if lo is not None and lo == hi and isint:
            self.inputs[name] = ('num', SymNum.const(lo, True))
            return int(lo)
        v = self.fresh_raw('in_' + name, isint, lo, hi, role='input')
        self.inputs[name] = ('num', v)
        return v

    def input_bool(self, name):
        assert name not in self.inputs, name
        b = SymBool(z3.Bool('in_' + name))
        self.inputs[name] = ('bool', b)
        return b

    # -- constraints -------------------------------------------------------------
    def add(self, z):
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(z, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None
        self.pc.append(z)
        self.solver.add(z)

    def query(self, *assumptions):
        st = self.stats
        if self.deadline and time.time() > self.deadline:
            raise PathBudget('time budget')
        t = time.time()
        st.queries += 1
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            r = self._retry(assumptions)
        st.solver_s += time.time() - t
        return r

    def _retry(self, assumptions):
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver(),
                   lambda: z3.SolverFor('ALL')):
            try:
                s = mk()
                s.set('timeout', self.qtimeout)
                s.add(self.pc)
                s.add(list(assumptions))
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self._alt = s
                return r
        self.stats.unknown += 1
        return z3.unknown

    def get_model(self):
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return self._alt.model()

    def ensure_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                return None
            self.model = self.get_model()
        return self.model

    def entails_nonneg(self, x):
        return self.query((x.z() < 0)) == z3.unsat

    # -- branching -----------------------------------------------------------------
    def branch(self, b):
        st = self.stats
        z = b.z
        if b.atom is not None:
            d = self.decided.get(b.atom)
            if d is not None:
                return d
        else:
            d = self.known_id.get(z.get_id())
            if d is not None:
                return d
            s = z3.simplify(z)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
        st.branches += 1
        if self.deadline and time.time() > self.deadline:
            raise PathBudget('time budget')
        i = len(self.taken)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            # use the model to learn one feasible side for free
            m = self.ensure_model()
            if m is not None:
                mv = z3.is_true(m.eval(z, model_completion=True))
                other = z3.Not(z) if mv else z
                r = self.query(other)
                if r == z3.unsat:
                    val, forced = mv, True
                else:
                    st.forks += 1
                    self.alts.append(self.taken + [(not mv, False)])
                    val, forced = mv, False
            else:
                rt, rf = self.query(z), self.query(z3.Not(z))
                if rt == z3.unsat and rf == z3.unsat:
                    raise PathInfeasible()
                if rt == z3.unsat:
                    val, forced = False, True
                elif rf == z3.unsat:
                    val, forced = True, True
                else:
                    st.forks += 1
                    self.alts.append(self.taken + [(False, False)])
                    val, forced = True, False
        self.taken.append((val, forced))
        if not forced:
            self.add(z if val else z3.Not(z))
        self.remember(b, val)
        return val

    def remember(self, b, val):
        if b.atom is not None:
            kind, key = b.atom
            self.decided[b.atom] = val
            neg = tuple((m, -c) for m, c in key)
            if kind == 'lt':
                self.decided[('le', neg)] = not val
                if val:
                    self.decided[('le', key)] = True
            elif kind == 'le':
                self.decided[('lt', neg)] = not val
                if not val:
                    self.decided[('lt', key)] = False
        else:
            self.keep.append(b.z)
            self.known_id[b.z.get_id()] = val

    def peek(self, b):
        """truth value if already decided syntactically, else None"""
        if isinstance(b, bool):
            return b
        if b.atom is not None:
            return self.decided.get(b.atom)
        return self.known_id.get(b.z.get_id())

    def assume(self, b):
        b = _b(b)
        if b is True:
            return
        if b is False:
            raise PathInfeasible()
        i = len(self.taken)
        self.add(b.z)
        self.remember(b, True)
        if i >= len(self.prefix):
            self.ensure_model()

    def concretize_int(self, x):
        """fork over every feasible value (complete when the domain is finite)"""
        while True:
            i = len(self.taken)
            if i < len(self.prefix):
                v, forced = self.prefix[i]
                if isinstance(v, tuple):        # ('is', value) / ('not', value)
                    tag, val = v
                    self.taken.append((v, forced))
                    e = x == val
                    if tag == 'is':
                        if isinstance(e, SymBool):
                            self.add(e.z)
                            self.remember(e, True)
                        return val
                    if isinstance(e, SymBool):
                        self.add(z3.Not(e.z))
                        self.remember(e, False)
                    continue
                raise RuntimeError('replay divergence')
            m = self.ensure_model()
            if m is None:
                raise PathBudget('solver returned unknown')
            val = m.eval(x.z(), model_completion=True)
            val = val.as_long() if z3.is_int_value(val) else \
                int(val.as_fraction())
            e = x == val
            if e is True:
                return val
            self.stats.branches += 1
            r = self.query(z3.Not(e.z))
            if r != z3.unsat:
                self.stats.forks += 1
                self.alts.append(self.taken + [(('not', val), False)])
            self.taken.append((('is', val), False))
            self.add(e.z)
            self.remember(e, True)
            return val

    def concretize_real(self, x):
        self.stats.cut('real value fixed at a C boundary')
        m = self.ensure_model()
        if m is None:
            raise PathBudget('solver returned unknown')
        i = len(self.taken)
        if i < len(self.prefix):
            val = self.prefix[i][0][1]
        else:
            val = model_frac(m, x.z())
        self.taken.append((('is', val), False))
        e = x == val
        if isinstance(e, SymBool):
            self.add(e.z)
            self.remember(e, True)
        return val

    # -- formatted numbers ---------------------------------------------------------
    def token(self, x, spec):
        """Formatted number: an opaque word whose length is that of the real
        text, carrying the value the text denotes."""
        mt = re.match(r'^([<>=^]?)([+ ]?)(0?)(\d*)(?:\.(\d+))?([fFdeEgG]?)$', spec)
        if not mt:
            raise Unsupported('format spec %r' % spec)
        if x.is_const():
            c = x.constval()
            if x.isint:
                return format(int(c), spec)
            return format(float(c), spec)
        prec, kind = mt.group(5), mt.group(6)
        if kind in ('f', 'F'):
            n = 6 if prec is None else int(prec)
            val = round_to(x, n)
            sgn = bool(val < 0)
            a = -val if sgn else val
            nd = 1
            while nd < 12 and bool(a >= 10 ** nd):
                nd += 1
            body = nd + (1 + n if n else 0) + (1 if sgn or mt.group(2) else 0)
        elif kind in ('', 'd') and x.isint:
            val = x
            sgn = bool(val < 0)
            a = -val if sgn else val
            nd = 1
            while nd < 12 and bool(a >= 10 ** nd):
                nd += 1
            body = nd + (1 if sgn or mt.group(2) else 0)
        elif spec == '' or kind in ('e', 'E', 'g', 'G'):
            if spec != '':
                self.stats.cut('%%%s formatting treated as exact' % kind)
            val = x
            body = 8
        else:
            raise Unsupported('format spec %r' % spec)
        # the first char identifies the value, the rest is filler
        val = SymNum._co(val)
        tk = (val.key(), val.isint)
        ch = self.tokids.get(tk)
        if ch is None:
            tid = self.ntok
            self.ntok += 1
            if tid >= 6000:
                raise Unsupported('too many formatted numbers')
            ch = self.tokids[tk] = chr(TOK0 + tid)
            self.tokens[ch] = val
        text = ch + '\uf8ff' * (body - 1)
        width = int(mt.group(4) or 0)
        if mt.group(1) == '<':
            return text.ljust(width)
        return text.rjust(width)

    def parse_token(self, s):
        """value of a text if it is exactly one formatted-number token"""
        t = s.strip()
        if not t or not (TOK0 <= ord(t[0]) < TOK0 + 6000):
            return None
        if t[1:].strip('\uf8ff'):
            raise ValueError('could not convert string to float: %r' % s)
        return self.tokens[t[0]]

    def input_values(self, m):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'bool':
                out[name] = bool(z3.is_true(m.eval(v.z, model_completion=True)))
            else:
                f = model_frac(m, v.z())
                out[name] = int(f) if v.isint else \
                    [str(f.numerator), str(f.denominator)]
        return out


def model_frac(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    s = z3.simplify(v)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return Fraction(0)


# -- numpy arrays on the other side: let the array's ufunc dispatch (snp.SArr)
def _array_ufunc(self, ufunc, method, *inputs, **kw):
    from . import snp
    return snp.SArr.__array_ufunc__(self, ufunc, method, *inputs, **kw)


def _defer(f):
    def g(self, o, *a):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        return f(self, o, *a)
    g.__name__ = f.__name__
    return g


for _c in (SymNum, SymSqrt, SymMin, SymBool):
    for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
        for _r in ('__%s__' % _op, '__r%s__' % _op):
            if _r in _c.__dict__:
                setattr(_c, _r, _defer(_c.__dict__[_r]))
    for _op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        _r = '__%s__' % _op
        if _r in _c.__dict__:
            setattr(_c, _r, _defer(_c.__dict__[_r]))
    _c.__array_ufunc__ = _array_ufunc
