"""dict / set / Counter whose keys may be symbolic.

With concrete keys they are the builtin containers.  As soon as a symbolic key
is stored, the container keeps its entries in a list; membership is a single
disjunction over the stored keys, and operations that need to know which keys
coincide (len, iteration, deletion, lookup) fork on the equalities.
"""
import collections
import collections.abc

import numpy as np

from . import sym, digest
from .sym import Unsupported
from .sym import SymNum, SymBool, SymSqrt, SymMin, Or, And
from .snp import skey, SymBytes


class SymDigest(object):
    """Hash value of a content: equal exactly when the contents are equal, or,
    when it is short, for one of a few known collisions (see digest.py)."""
    __slots__ = ('content', 'width', 'fn', 'seed', 'ops', 'bits', 'form')

    def __init__(self, content, width=64, fn=None, seed=0, ops=(), bits=None, form='int'):
        self.content = content
        self.width = width
        self.fn, self.seed, self.ops, self.form = fn, seed, ops, form
        self.bits = width if bits is None else bits

    def ckey(self):
        return content_key(self.content)

    def short(self, op, v, form=None):
        return SymDigest(self.content, self.width, self.fn, self.seed, self.ops + ((op, v),),
                         digest.bits_after(self.bits, op, v), form or self.form)

    def symkey(self):
        return ('dig', self.width, self.ops, self.form, content_key(self.content))

    def __eq__(self, o):
        c = getattr(o, 'content', None)
        if c is None:
            return False
        if (self.width, self.ops, self.form) != (o.width, o.ops, o.form):
            return False
        same = content_eq(self.content, c)
        if same is True or self.bits >= digest.FULL or self.fn is None:
            return same
        return Or(same, digest.collide(self, o, self.fn, self.ops, self.seed))

    def __ne__(self, o):
        return sym.Not(self == o)

    def __hash__(self):
        return hash(concrete_content(self.content))

    def _op(op):
        def f(self, v):
            if self.form != 'int' or not isinstance(v, (int, np.integer)):
                raise TypeError('unsupported operand for a digest')
            return self.short(op, int(v))
        return f
    __and__, __mod__, __rshift__ = _op('&'), _op('%'), _op('>>')
    __rand__ = __and__

    def __len__(self):
        if self.form != 'hex':
            raise TypeError("object of type 'int' has no len()")
        n = self.width // 4
        for op, v in self.ops:
            if op == 'digits':
                n = v[2] - v[1]
        return n

    def __getitem__(self, i):
        if self.form != 'hex':
            raise TypeError("'int' object is not subscriptable")
        n = len(self)
        if not isinstance(i, slice):
            i = slice(i, i + 1 if i != -1 else None)
        a, b, st = i.indices(n)
        if st != 1:
            raise Unsupported('digits of a digest out of order')
        return self.short('digits', (n, a, max(a, b)))

    def as_int(self):
        return SymDigest(self.content, self.width, self.fn, self.seed, self.ops, self.bits, 'int')

    def __index__(self):
        return hash(self) & 0x7fffffffffffffff

    __int__ = __index__

    def __str__(self):
        return 'dig%d' % hash(self)
    __repr__ = __str__

    def __format__(self, s):
        return str(self)


class CDigest(int):
    """digest of a concrete content"""
    content = None
    width = 64
    fn, seed, ops, bits, form = None, 0, (), 64, 'int'

    def ckey(self):
        return content_key(self.content)

    def short(self, op, v, r):
        d = type(self)(r)
        d.content, d.width, d.fn, d.seed, d.form = self.content, self.width, self.fn, self.seed, self.form
        d.ops = self.ops + ((op, v),)
        d.bits = digest.bits_after(self.bits, op, v)
        return d

    def __mod__(self, v):
        r = int.__mod__(self, v)
        return self.short('%', int(v), r) if isinstance(v, (int, np.integer)) else r

    def __and__(self, v):
        r = int.__and__(self, v)
        return self.short('&', int(v), r) if isinstance(v, (int, np.integer)) else r

    def __rshift__(self, v):
        r = int.__rshift__(self, v)
        return self.short('>>', int(v), r) if isinstance(v, (int, np.integer)) else r

    def __eq__(self, o):
        if isinstance(o, SymDigest):
            return o == self
        return int.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, SymDigest):
            return o != self
        return int.__ne__(self, o)

    def __hash__(self):
        return int.__hash__(self)


class CHex(str):
    """hexadecimal text of the digest of a concrete content"""
    content = None
    width = 64
    fn, seed, ops, bits, form = None, 0, (), 64, 'hex'
    ckey = CDigest.ckey
    short = CDigest.short

    def __getitem__(self, i):
        r = str.__getitem__(self, i)
        n = len(self)
        if not isinstance(i, slice):
            i = slice(i, i + 1 if i != -1 else None)
        a, b, st = i.indices(n)
        return self.short('digits', (n, a, max(a, b)), r) if st == 1 else r

    def __eq__(self, o):
        if isinstance(o, SymDigest):
            return o == self
        return str.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, SymDigest):
            return o != self
        return str.__ne__(self, o)

    def __hash__(self):
        return str.__hash__(self)


def content_key(c):
    kind, xs = c
    return (kind, tuple(skey(x) for x in xs))


def content_eq(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    return And(*[keq(x, y) for x, y in zip(a[1], b[1])])


def has_token(s):
    return any(sym.TOK0 <= ord(c) <= 0xF8FF for c in s)


def _segments(s):
    """[(start, end, value)] of the digits of a text, or None where a number
    is not a plain non-negative integer"""
    out, i = [], 0
    toks = sym.cur().tokens
    while i < len(s):
        if s[i] in toks:
            j = i + 1
            while j < len(s) and s[j] == '\uf8ff':
                j += 1
            out.append((i, j, toks[s[i]]))
            i = j
        else:
            out.append((i, i + 1, s[i]))
            i += 1
    return out


def text_eq(a, b):
    """equality of texts that contain formatted numbers"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    A, B = _segments(a), _segments(b)
    conds, i, j = [], 0, 0
    while i < len(A):
        i0, j0 = i, j
        i, j = i + 1, j + 1
        while A[i - 1][1] != B[j - 1][1]:
            if A[i - 1][1] < B[j - 1][1]:
                i += 1
            else:
                j += 1
        u, v = A[i0:i], B[j0:j]
        if len(u) == len(v) == 1:
            x, y = u[0][2], v[0][2]
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
                continue
            if not isinstance(x, str) and not isinstance(y, str):
                conds.append(x == y)
                continue
        r = []
        for seg in (u, v):
            end, val = seg[-1][1], 0
            for p, q, x in seg:
                if isinstance(x, str):
                    if not ('0' <= x <= '9'):
                        return False
                    x = int(x)
                elif not getattr(x, 'isint', False) or (x.interval()[0] is None or x.interval()[0] < 0):
                    raise Unsupported('texts with differently placed numbers')
                val = val + x * 10 ** (end - q)
            r.append(val)
        conds.append(r[0] == r[1])
    return And(*conds)


def v_eq(a, b):
    if type(a) is str and type(b) is str and not (a.isascii() and b.isascii()) and sym.CUR is not None:
        return text_eq(a, b)
    return a == b


def v_ne(a, b):
    if type(a) is str and type(b) is str and not (a.isascii() and b.isascii()) and sym.CUR is not None:
        return sym.Not(text_eq(a, b))
    return a != b


def flat_leaves(x):
    """(structure, leaves) of nested tuples"""
    if isinstance(x, tuple):
        ks, ls = [], []
        for e in x:
            k, l = flat_leaves(e)
            ks.append(k)
            ls += l
        return '(%s)' % ','.join(ks), ls
    return '.', [x]


def s_hash(x):
    import sys
    if sys._getframe(1).f_code.co_name == '__hash__':
        return hash(x)
    if isinstance(x, SymBytes):
        return SymDigest(('bytes', list(x.xs)), 64)
    if isinstance(x, str):
        if has_token(x):
            return SymDigest(('text', [x]), 64)
        d = CDigest(hash(x))
        d.content = ('text', [x])
        return d
    if isinstance(x, bytes) and len(x) % 8 == 0:
        d = CDigest(hash(x))
        d.content = ('bytes', np.frombuffer(x, dtype=np.int64).tolist())
        return d
    if isinstance(x, tuple):
        k, ls = flat_leaves(x)
        if symbolic_key(x):
            return SymDigest((k, ls), 64)
        d = CDigest(hash(x))
        d.content = (k, ls)
        return d
    return hash(x)


def concrete_content(c):
    return (c[0], tuple(x if not sym.is_sym(x) else
                        (x.__index__() if getattr(x, 'isint', False) else float(x))
                        for x in c[1]))


def symbolic_key(k):
    if isinstance(k, SymNum):
        return not k.is_const()
    if isinstance(k, (SymSqrt, SymMin, SymBool)):
        return True
    if isinstance(k, SymDigest):
        return True
    if isinstance(k, SymBytes):
        return any(sym.is_sym(x) for x in k.xs)
    if isinstance(k, str):
        return not k.isascii() and sym.CUR is not None and has_token(k)
    if isinstance(k, (tuple, frozenset)):
        return any(symbolic_key(e) for e in k)
    f = getattr(type(k), '_sym_hash_', None)
    if f is not None:
        return True
    return False


def structural(k):
    if hasattr(k, 'symkey'):
        return k.symkey()
    if isinstance(k, tuple):
        return ('t',) + tuple(structural(e) for e in k)
    if isinstance(k, SymDigest):
        return k.symkey()
    if isinstance(k, (CDigest, CHex)):
        if k.bits < digest.FULL:
            # short digests of different contents may be one value
            return ('dig', k.width, k.ops, k.form, int(k) if k.form == 'int' else str.__str__(k))
        return ('dig', k.width, k.ops, k.form, content_key(k.content))
    return skey(k)


def keq(a, b):
    """equality of keys as a bool/SymBool"""
    if a is b:
        return True
    if type(a) is str and type(b) is str and not (a.isascii() and b.isascii()) and sym.CUR is not None:
        return text_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[keq(x, y) for x, y in zip(a, b)])
    try:
        r = a == b
    except Exception:
        return False
    if isinstance(r, (bool, SymBool)):
        return r
    return bool(r)


_MISS = object()


class _Core(object):
    """insertion-ordered entries with possibly symbolic keys"""
    __slots__ = ('ents', 'index', 'lazy')

    def __init__(self):
        self.ents = []          # [key, value, alive]
        self.index = {}         # structural key -> entry
        self.lazy = False       # True: two entries may still denote equal keys

    def contains(self, k):
        s = structural(k)
        if s in self.index:
            return True
        return bool(Or(*[keq(e[0], k) for e in self.ents]))

    def find(self, k):
        self.resolve()
        e = self.index.get(structural(k))
        if e is not None:
            return e
        for e in self.ents:
            if bool(keq(e[0], k)):
                return e
        return None

    def put(self, k, v):
        s = structural(k)
        e = self.index.get(s)
        if e is not None and not self.lazy:
            e[1] = v
            return
        if e is not None:
            # move to the end so that "last write wins" survives resolution
            if v is e[1]:
                return
            self.resolve()
            e = self.find(k)
            e[1] = v
            return
        e = [k, v]
        self.ents.append(e)
        self.index[s] = e
        if len(self.ents) > 1:
            self.lazy = True

    def resolve(self):
        if not self.lazy:
            return
        self.lazy = False
        out = []
        idx = {}
        for e in self.ents:
            for o in out:
                if bool(keq(o[0], e[0])):
                    o[1] = e[1]
                    idx[structural(e[0])] = o
                    break
            else:
                out.append(e)
                idx[structural(e[0])] = e
        self.ents = out
        self.index = idx

    def remove(self, e):
        self.ents.remove(e) if False else None
        self.ents = [x for x in self.ents if x is not e]
        self.index = {s: x for s, x in self.index.items() if x is not e}


class SymDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self)
        self._c = None
        if a:
            src = a[0]
            if isinstance(src, dict):
                for kk in src.keys():
                    self[kk] = src[kk]
            elif hasattr(src, 'keys'):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _up(self):
        if self._c is None:
            c = _Core()
            for k, v in dict.items(self):
                e = [k, v]
                c.ents.append(e)
                c.index[structural(k)] = e
            self._c = c
            dict.clear(self)
        return self._c

    def _sym(self, k):
        return self._c is not None or symbolic_key(k)

    def __contains__(self, k):
        if not self._sym(k):
            return dict.__contains__(self, k)
        if self._c is None and not dict.__len__(self):
            return False
        return self._up().contains(k)

    def __getitem__(self, k):
        if not self._sym(k):
            if dict.__contains__(self, k):
                return dict.__getitem__(self, k)
            return self.__missing__(k)
        e = self._up().find(k)
        if e is None:
            return self.__missing__(k)
        return e[1]

    def __missing__(self, k):
        raise KeyError(k)

    def get(self, k, d=None):
        if not self._sym(k):
            return dict.get(self, k, d)
        e = self._up().find(k)
        return d if e is None else e[1]

    def __setitem__(self, k, v):
        if not self._sym(k):
            return dict.__setitem__(self, k, v)
        self._up().put(k, v)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __delitem__(self, k):
        if not self._sym(k):
            return dict.__delitem__(self, k)
        c = self._up()
        e = c.find(k)
        if e is None:
            raise KeyError(k)
        c.remove(e)

    def pop(self, k, *d):
        if not self._sym(k):
            return dict.pop(self, k, *d)
        c = self._up()
        e = c.find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        c.remove(e)
        return e[1]

    def popitem(self):
        if self._c is None:
            return dict.popitem(self)
        self._c.resolve()
        if not self._c.ents:
            raise KeyError('popitem(): dictionary is empty')
        e = self._c.ents[-1]
        self._c.remove(e)
        return (e[0], e[1])

    def clear(self):
        self._c = None
        dict.clear(self)

    def __len__(self):
        if self._c is None:
            return dict.__len__(self)
        self._c.resolve()
        return len(self._c.ents)

    def __bool__(self):
        if self._c is None:
            return dict.__len__(self) > 0
        return bool(self._c.ents)

    def __iter__(self):
        if self._c is None:
            return dict.__iter__(self)
        self._c.resolve()
        return iter([e[0] for e in self._c.ents])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def keys(self):
        return dict.keys(self) if self._c is None else SymKeys(self)

    def values(self):
        if self._c is None:
            return dict.values(self)
        self._c.resolve()
        return [e[1] for e in self._c.ents]

    def items(self):
        if self._c is None:
            return dict.items(self)
        self._c.resolve()
        return [(e[0], e[1]) for e in self._c.ents]

    def update(self, *a, **k):
        for x in a:
            if hasattr(x, 'keys'):
                for kk in x.keys():
                    self[kk] = x[kk]
            else:
                for kk, v in x:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        return type(self)(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = type(self).__new__(type(self))
        SymDict.__init__(r)
        memo[id(self)] = r
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if self._c is None and getattr(o, '_c', None) is None:
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        for k in self:
            if k not in o or not bool(self[k] == o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self


class SymKeys(list):
    def __init__(self, d):
        list.__init__(self, iter(d))
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __and__(self, o):
        return SymSet(self) & o

    def __or__(self, o):
        return SymSet(self) | o

    def __sub__(self, o):
        return SymSet(self) - o


class SymOrderedDict(SymDict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            items = list(self.items())
            self.clear()
            self[k] = v
            for kk, vv in items:
                self[kk] = vv

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        k = next(iter(self))
        return (k, self.pop(k))


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return SymDefaultDict(self.default_factory, self)


class SymCounter(SymDict):
    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        if it is not None:
            self.update(it)
        for kk, v in k.items():
            self[kk] = self[kk] + v

    def __missing__(self, k):
        return 0

    def update(self, it=(), **k):
        if isinstance(it, dict):
            for kk, v in it.items():
                self[kk] = self[kk] + v
        else:
            for e in it:
                if isinstance(e, np.generic):
                    e = e.item()
                self[e] = self[e] + 1

    def subtract(self, it=()):
        if isinstance(it, dict):
            for kk, v in it.items():
                self[kk] = self[kk] - v
        else:
            for e in it:
                self[e] = self[e] - 1

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        xs = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return xs if n is None else xs[:n]

    def total(self):
        return sum(self.values())

    def copy(self):
        r = SymCounter()
        for k, v in self.items():
            r[k] = v
        return r


class SymSet(set):
    """set with possibly symbolic elements"""

    def __init__(self, it=()):
        set.__init__(self)
        self._d = SymDict()
        for e in it:
            self._d[e] = True

    def _pl(self):
        return self._d._c is None

    def add(self, e):
        self._d[e] = True

    def discard(self, e):
        if e in self._d:
            del self._d[e]

    def remove(self, e):
        del self._d[e]

    def pop(self):
        if not len(self):
            raise KeyError('pop from an empty set')
        k = next(iter(self))
        del self._d[k]
        return k

    def clear(self):
        self._d.clear()

    def __contains__(self, e):
        return e in self._d

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __iter__(self):
        if self._pl():
            return iter(set(dict.keys(self._d)))      # builtin order
        return iter(self._d)

    def update(self, *its):
        for it in its:
            for e in list(it):
                self.add(e)

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *its):
        r = type(self)(self)
        SymSet.update(r, *its)
        return r

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def intersection(self, *its):
        r = list(self)
        for it in its:
            it = it if isinstance(it, (set, frozenset, dict)) else SymSet(it)
            r = [e for e in r if e in it]
        return type(self)(r)

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def __iand__(self, o):
        r = self.intersection(o)
        self.clear()
        self.update(r)
        return self
    intersection_update = __iand__

    def difference(self, *its):
        r = list(self)
        for it in its:
            it = it if isinstance(it, (set, frozenset, dict)) else SymSet(it)
            r = [e for e in r if e not in it]
        return type(self)(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def difference_update(self, *its):
        for it in its:
            for e in list(it):
                self.discard(e)

    def symmetric_difference(self, o):
        return (self - o) | (SymSet(o) - self)
    __xor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset, dict)) else SymSet(o)
        return all(e in o for e in self)
    __le__ = issubset

    def issuperset(self, o):
        return all(e in self for e in o)
    __ge__ = issuperset

    def __lt__(self, o):
        return self <= o and len(self) != len(o)

    def __gt__(self, o):
        return self >= o and len(self) != len(o)

    def isdisjoint(self, o):
        return not any(e in self for e in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(e in self for e in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return type(self)(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return type(self)([copy.deepcopy(e, memo) for e in self])

    def __repr__(self):
        return '{' + ', '.join(repr(e) for e in self) + '}'


class SymFrozenSet(SymSet):
    def __hash__(self):
        return hash(frozenset(self))


def mkdict(pairs):
    return SymDict(pairs)


def mkset(it):
    return SymSet(it)
