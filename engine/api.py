"""What a harness sees, and its concrete implementation (used for replay under
the interpreter and libraries the package really runs on).

Kept compatible with PyPy 3.9 / numpy 1.12.
"""
from __future__ import division
import contextlib
import importlib
import os
import random as _random
import shutil
import sys
import tempfile
from fractions import Fraction


class Violated(Exception):
    """an assertion of the harness failed"""


class Skip(Exception):
    """the concrete input falls outside the harness assumptions"""


class FakeRandom(object):
    """Every draw is an input of the harness.  Serves as the `random` module
    and, with np_ prefixed names, as numpy.random."""

    def __init__(self, ctx, repeats=2, zeros=1, labels=False):
        self.ctx = ctx
        self.zeros = zeros          # all-zero vectors that may be drawn
        self.tiny = 1               # very short vectors that may be drawn
        self.n = 0
        self.words = {}
        self.letters = []           # the rest of a word being drawn letter by letter
        self.repeats = repeats
        self.labels = labels        # large numbers matter only through equality
        self.log = []

    def _name(self, kind):
        self.n += 1
        return 'rnd%d_%s' % (self.n, kind)

    # -- random ----------------------------------------------------------------
    def randint(self, a, b):
        if self.labels and b - a >= 255:
            v = 0
            for d in self.choices('0123456789', k=4):
                v = v * 10 + int(d)
            return a + v % (b - a + 1)
        v = self.ctx.int(self._name('int'), a, b)
        self.log.append(('int', v))
        return v

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if b <= a:
            raise ValueError('empty range for randrange()')
        if step != 1:
            return a + step * self.randint(0, (b - a + step - 1) // step - 1)
        return self.randint(a, b - 1)

    def random(self):
        v = self.ctx.real(self._name('real'), 0, 1)
        self.ctx.assume(v < 1)
        return v

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self, mu=0, sigma=1):
        return mu + sigma * self.ctx.real(self._name('gauss'), -8, 8)
    normalvariate = gauss

    def _alphabet(self, seq):
        return len(seq) > 8 and (isinstance(seq, str) or all(
            isinstance(c, str) and len(c) == 1 for c in seq))

    def choice(self, seq):
        n = len(seq)
        if n == 0:
            raise IndexError('Cannot choose from an empty sequence')
        if self._alphabet(seq):
            # letters drawn one by one: words of four, like choices()
            if not self.letters:
                self.letters = list(self.choices(seq, k=4))
            return self.letters.pop(0)
        return seq[self.ctx.choose(self._name('pick'), n)]

    def choices(self, pop, weights=None, cum_weights=None, k=1):
        """k letters: which earlier word of this alphabet and length it equals,
        or a new one (words matter only through equality)."""
        if k < 2 or not self._alphabet(pop):
            return [self.choice(pop) for _ in range(k)]
        seen = self.words.setdefault((len(pop), k), [])
        i = 0
        if seen and self.repeats > 0:
            i = self.ctx.choose(self._name('word'), len(seen) + 1)
        if i:
            self.repeats -= 1
            return list(seen[i - 1])
        w, v = [], len(seen)
        for _ in range(k):
            w.append(pop[v % len(pop)])
            v //= len(pop)
        seen.append(w)
        return list(w)

    def sample(self, pop, k):
        if k >= 2 and self._alphabet(pop):
            return self.choices(pop, k=k)
        left = list(pop)
        out = []
        for _ in range(k):
            i = self.ctx.choose(self._name('pick'), len(left))
            out.append(left.pop(i))
        return out

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.ctx.choose(self._name('pick'), i + 1)
            x[i], x[j] = x[j], x[i]

    def seed(self, *a, **k):
        pass

    def getrandbits(self, k):
        return self.randint(0, 2 ** k - 1)

    # -- numpy.random ------------------------------------------------------------
    def _fill(self, size, f):
        if size is None:
            return f()
        if isinstance(size, int):
            size = (size,)
        size = tuple(int(s) for s in size)
        n = 1
        for s in size:
            n *= s
        a = self.ctx.np.array([f() for _ in range(n)])
        return a.reshape(size)

    def _normals(self, size):
        """independent normal deviates: any reals of moderate size; a vector
        is exactly zero, has a norm between 0.1/2**16 and 1/2**12 (each a bounded
        number of times), or a norm above 0.1"""
        if size is None or size == ():
            return self.ctx.real(self._name('gauss'), -4, 4)
        kinds = ['plain'] + ['zero'] * (self.zeros > 0) + ['tiny'] * (self.tiny > 0)
        kind = kinds[self.ctx.choose(self._name('vec'), len(kinds))] if len(kinds) > 1 else 'plain'
        if kind == 'zero':
            self.zeros -= 1
            return self._fill(size, lambda: 0.0)
        xs = []

        def f():
            xs.append(self.ctx.real(self._name('gauss'), -4, 4))
            return xs[-1]
        r = self._fill(size, f)
        self.ctx.assume(sum(x * x for x in xs) > 0.01)
        if kind == 'tiny':
            self.tiny -= 1
            r = r / 65536.0
        return r

    def np_randn(self, *size):
        return self._normals(size or None)

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._normals(size)

    def np_standard_normal(self, size=None):
        return self.np_normal(size=size)

    def np_rand(self, *size):
        return self._fill(size or None, self.random)

    def np_random(self, size=None):
        return self._fill(size, self.random)
    np_random_sample = np_random

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: self.uniform(low, high))

    def np_randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: self.randint(low, high - 1))

    def np_choice(self, a, size=None, replace=True, p=None):
        seq = list(range(a)) if isinstance(a, int) else list(a)
        if self._alphabet(seq) and isinstance(size, (int, tuple)) and size not in (0, 1, ()):
            k = 1
            for v in (size if isinstance(size, tuple) else (size,)):
                k *= v
            return self.ctx.np.array(self.choices(seq, k=k)).reshape(size)
        if size is not None and not replace:
            return self.ctx.np.array(self.sample(seq, size))
        return self._fill(size, lambda: self.choice(seq))

    def np_permutation(self, x):
        xs = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(xs)
        return self.ctx.np.array(xs)

    def np_shuffle(self, x):
        self.shuffle(x)

    def np_seed(self, *a, **k):
        pass


class BaseCtx(object):
    symbolic = False

    def dyadic(self, name, lo, hi, den):
        """a multiple of 1/den in [lo, hi] (den a power of two: exact float)"""
        k = self.int(name, int(lo * den), int(hi * den))
        return self.toreal(k) / den

    @contextlib.contextmanager
    def tmpdir(self):
        old = os.getcwd()
        d = tempfile.mkdtemp(prefix='verif')
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)

    def specie(self, Z, name='X'):
        """a species object with the given (possibly symbolic) atomic number"""
        S = self.mod('ababe.stru.element').Specie

        class Sp(S):
            def __init__(self):
                self.symbol = name
                self._Z = Z
                self.atom_mass = 1.0
                self.atom_radius = 1.0

            @property
            def Z(self):
                return Z

            @property
            def name(self):
                return name
        return Sp()

    def GeneralCell(self, lat, pos, num, **k):
        return self.mod('ababe.stru.scaffold').GeneralCell(
            self.farr(lat), self.farr(pos), self.iarr(num), **k)

    def cli(self, lib, *args):
        """run a command of the command-line interface"""
        m = self.mod('ababe.cmdline.' + lib)
        with self.capture() as cap:
            m.exec_from_cmdline.main([str(a) for a in args], prog_name=lib, standalone_mode=False)
        return cap.text()

    def tofloat(self, text):
        return float(text)

    def yaml_text(self, obj):
        import yaml
        return yaml.dump(obj)

    def yaml_load(self, text):
        import yaml
        return yaml.safe_load(text)

    def closevec(self, a, b, tol=1e-6):
        return self.And(*[self.close(x, y, tol) for x, y in zip(a, b)])

    def closevecmod(self, a, b, tol=1e-6):
        return self.And(*[self.closemod(x, y, tol) for x, y in zip(a, b)])


class ConcreteCtx(BaseCtx):
    def __init__(self, inputs, repo='/repo'):
        self.inputs = inputs
        self.used = {}
        self.obs = {}
        self.nchecks = 0
        self.hooks = {}
        self.env = None
        import numpy
        self.np = numpy
        self.failed = None
        self.flags = set()
        _wrap_spglib(self)

    # -- inputs --------------------------------------------------------------------
    def _get(self, name, default):
        v = self.inputs.get(name, default)
        if isinstance(v, list):
            v = float(Fraction(int(v[0]), int(v[1])))
        self.used[name] = v
        return v

    def real(self, name, lo, hi):
        return float(self._get(name, lo if lo is not None else 0.0))

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if v < lo or v > hi:
            v = lo
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, n):
        v = int(self._get(name, 0))
        return v if 0 <= v < n else 0

    # -- logic -----------------------------------------------------------------------
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, robust=None):
        self.nchecks += 1
        if not c:
            raise Violated(msg)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def same(self, a, b):
        """equality of identifiers of any type"""
        return bool(a == b)

    def If(self, c, a, b):
        return a if c else b

    def truth(self, x):
        return bool(x)

    def close(self, a, b, tol=1e-6):
        return abs(float(a) - float(b)) <= tol + 1e-9

    def closemod(self, a, b, tol=1e-6):
        d = float(a) - float(b)
        return abs(d - round(d)) <= tol + 1e-9

    def floor(self, x):
        import math
        return math.floor(x)

    def toreal(self, x):
        return float(x)

    def sq(self, d):
        return d

    # -- data --------------------------------------------------------------------------
    def farr(self, x):
        return self.np.array(x, dtype=float)

    def iarr(self, x):
        return self.np.array(x, dtype=int)

    def observe(self, name, v):
        self.obs[name] = plain(v)

    def mod(self, name):
        m = importlib.import_module(name)
        return m

    @contextlib.contextmanager
    def random(self, cls=FakeRandom, **kw):
        fr = cls(self, **kw)
        names = [k for k in dir(fr) if not k.startswith('_') and not k.startswith('np_')
                 and k not in ('ctx', 'n', 'words', 'repeats', 'log', 'zeros')]
        nn = [k for k in dir(fr) if k.startswith('np_')]
        import numpy.random as nr
        old = {k: getattr(_random, k) for k in names if hasattr(_random, k)}
        oldn = {k: getattr(nr, k[3:]) for k in nn if hasattr(nr, k[3:])}
        try:
            for k in old:
                setattr(_random, k, getattr(fr, k))
            for k in oldn:
                setattr(nr, k[3:], getattr(fr, k))
            yield fr
        finally:
            for k, v in old.items():
                setattr(_random, k, v)
            for k, v in oldn.items():
                setattr(nr, k[3:], v)

    @contextlib.contextmanager
    def quiet_bars(self):
        """progress bars replaced by a pass-through"""
        for mn in ('ababe.stru.sogen', 'ababe.stru.grid'):
            m = importlib.import_module(mn)
            if hasattr(m, 'ProgressBar'):
                m.ProgressBar = _NoBar
        yield

    def capture(self):
        return _Capture()


_spg = {}


def _wrap_spglib(ctx):
    """hooks on the reported translations and order of operations"""
    import spglib
    _spg['ctx'] = ctx
    if 'orig' in _spg:
        return
    _spg['orig'] = spglib.get_symmetry

    def get_symmetry(cell, *a, **k):
        r = _spg['orig'](cell, *a, **k)
        h = _spg['ctx'].hooks
        if r is not None and ('noise' in h or 'oporder' in h):
            import numpy as np
            rot, tr = r['rotations'], r['translations']
            if 'noise' in h:
                tr = np.array([h['noise'](i, list(t)) for i, t in enumerate(tr)], dtype=float)
            if 'oporder' in h:
                o = h['oporder'](len(rot))
                rot, tr = rot[o], tr[o]
            r = dict(r, rotations=rot, translations=tr)
        return r
    spglib.get_symmetry = get_symmetry
    orig = spglib.get_spacegroup

    def get_spacegroup(cell, symprec=1e-5, *a, **k):
        h = _spg['ctx'].hooks.get('spacegroup')
        if h is not None:
            return h(cell, symprec)
        return orig(cell, symprec, *a, **k)
    spglib.get_spacegroup = get_spacegroup


class _NoBar(object):
    def __init__(self, *a, **k):
        pass

    def __call__(self, it, *a, **k):
        return it

    def start(self, *a, **k):
        return self

    def update(self, *a, **k):
        pass
    finish = update

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Capture(object):
    def __enter__(self):
        import io
        self.old = sys.stdout
        self.buf = sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old

    def text(self):
        return self.buf.getvalue()


def plain(v):
    """JSON-able form of an observed value"""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if hasattr(v, 'tolist'):
        return plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [plain(e) for e in v]
    if isinstance(v, (set, frozenset)):
        return sorted([plain(e) for e in v], key=repr)
    if isinstance(v, dict):
        return {str(k): plain(e) for k, e in v.items()}
    return str(v)
