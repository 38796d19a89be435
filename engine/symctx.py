"""Symbolic implementation of the harness interface."""
import contextlib
import os
import sys
import time
from fractions import Fraction

import z3

from . import sym, snp, stubs, loader, api, containers
from .sym import (PathCtx, SymNum, SymBool, SymSqrt, SymMin, PathViolation,
                  PathInfeasible, And, Or, Not, Implies, Iff)


class SymCtx(PathCtx, api.BaseCtx):
    symbolic = True

    def __init__(self, stats, prefix, **kw):
        PathCtx.__init__(self, stats, prefix, **kw)
        self.hooks = {}
        self.ranges = {}
        self.obs = {}
        self.flags = set()
        self.env = None
        self.rng = api.FakeRandom(self)
        self.stubs = stubs.Stubs(self, _RngProxy(self))
        self.np = self.stubs.np
        self.loader = loader.Loader(self.stubs)
        self.reached = 0
        self.stdout = []
        self.env = self

    # -- inputs -------------------------------------------------------------------
    def real(self, name, lo, hi):
        self.ranges[name] = (Fraction(lo), Fraction(hi))
        return self.input_num(name, False, lo, hi)

    def int(self, name, lo, hi):
        if lo > hi:
            raise ValueError('empty range')
        self.ranges[name] = (Fraction(lo), Fraction(hi))
        return self.input_num(name, True, lo, hi)

    def bool(self, name):
        return self.input_bool(name)

    def choose(self, name, n):
        self.ranges[name] = (Fraction(0), Fraction(n - 1))
        v = self.input_num(name, True, 0, n - 1)
        return v if isinstance(v, int) else self.concretize_int(v)

    # -- logic -----------------------------------------------------------------------
    And, Or, Not, Implies, Iff = (staticmethod(And), staticmethod(Or), staticmethod(Not),
                                  staticmethod(Implies), staticmethod(Iff))
    same = staticmethod(containers.keq)

    def truth(self, x):
        return bool(x)

    def If(self, c, a, b):
        c = sym._b(c)
        if isinstance(c, bool):
            return a if c else b
        # linear choice through a fresh variable
        x, y = SymNum._co(a), SymNum._co(b)
        v = self.fresh_raw('ite', x.isint and y.isint)
        self.add(z3.If(c.z, sym.zeq(v, x), sym.zeq(v, y)))
        return v

    def close(self, a, b, tol=1e-6):
        d = a - b
        if not sym.is_sym(d):
            return abs(float(d)) <= tol
        t = sym.nice(tol)
        return And(d <= t, d >= -t)

    def closemod(self, a, b, tol=1e-6):
        d = a - b
        if not sym.is_sym(d):
            d = float(d)
            return abs(d - round(d)) <= tol
        if isinstance(d, SymSqrt):
            d = d.purify()
        k = sym.floor(d + Fraction(1, 2))
        r = d - k
        t = sym.nice(tol)
        return And(r <= t, r >= -t)

    def tofloat(self, text):
        return loader.SFloat(text)

    def yaml_text(self, obj):
        return self.stubs.store.dump(obj)

    def yaml_load(self, text):
        return self.stubs.store.load(text)

    def floor(self, x):
        return sym.floor(x)

    def toreal(self, x):
        return sym._toreal(x) if isinstance(x, SymNum) else float(x)

    def check(self, c, msg, robust=None):
        st = self.stats
        st.obligations += 1
        self.reached += 1
        if isinstance(c, snp.SArr):
            raise TypeError('array given to check')
        c = sym._b(c)
        if c is True:
            st.discharged_syntactic += 1
            return
        if c is False:
            m = self.ensure_model()
            if m is None:
                raise sym.PathBudget('solver returned unknown')
            self.violate(msg, None, m)
        if robust is not None:
            r = sym._b(robust)
            if r is not False:
                z = [Not(c).z] + ([r.z] if r is not True else [])
                if self.check_raw(*z) == z3.sat:
                    self.violate(msg, z, self.get_model())
        nz = Not(c)
        r = self.check_raw(nz.z)
        if r == z3.unsat:
            st.discharged_solver += 1
            self.remember(c, True)
            return
        if r == z3.unknown:
            st.gaps.append('solver answered unknown on: %s' % msg)
            self.assume(c)
            return
        self.violate(msg, [nz.z], self.get_model())

    def check_raw(self, *z):
        return self.query(*z)

    def violate(self, msg, neg, model):
        """collect several distinct models, all violating"""
        ms = [self.input_values(model)]
        self.solver.push()
        try:
            if neg:
                self.solver.add(neg)
                self.pc = self.pc + list(neg)
            self.model = None
            t0 = time.time()
            while len(ms) < 4 and time.time() - t0 < 10:
                last = ms[-1]
                diff = []
                for n, (kind, v) in self.inputs.items():
                    if kind == 'bool':
                        diff.append(v.z if not last[n] else z3.Not(v.z))
                    elif not v.is_const():
                        val = last[n]
                        f = Fraction(val) if isinstance(val, int) else \
                            Fraction(int(val[0]), int(val[1]))
                        if v.isint:
                            diff.append(v.z() != int(f))
                        else:
                            zf = sym._zfrac(f)
                            e = sym._zfrac(Fraction(1, 16))
                            diff.append(z3.Or(v.z() > zf + e, v.z() < zf - e))
                if not diff:
                    break
                self.solver.add(z3.Or(diff))
                self.pc.append(z3.Or(diff))
                if self.check_raw() != z3.sat:
                    break
                ms.append(self.input_values(self.get_model()))
        finally:
            self.solver.pop()
        e = PathViolation(msg)
        e.msg = msg
        e.models = ms
        raise e

    def diverse_models(self, rnd, n):
        """models of the path condition spread over the ranges of the inputs"""
        out = []
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(self.pc)
        items = [(k, v) for k, (kind, v) in self.inputs.items()
                 if kind == 'bool' or not v.is_const()]
        for _ in range(n):
            if time.time() - t0 > 6:
                break
            s.push()
            try:
                some = list(items)
                rnd.shuffle(some)
                for k, v in some[:10]:
                    if k in self.ranges:
                        lo, hi = self.ranges[k]
                        t = lo + (hi - lo) * Fraction(rnd.randrange(0, 65), 64)
                        w = (hi - lo) / 16
                        if v.isint:
                            t, w = Fraction(int(t)), Fraction(0)
                        z = z3.And(v.z() >= sym._zfrac(t - w), v.z() <= sym._zfrac(t + w))
                    else:
                        z = v.z if rnd.random() < .5 else z3.Not(v.z)
                    if s.check(z) == z3.sat:
                        s.add(z)
                if s.check() == z3.sat:
                    out.append(self.input_values(s.model()))
            finally:
                s.pop()
        return out

    # -- data ---------------------------------------------------------------------------
    def farr(self, x):
        if snp.has_sym(x):
            return snp.s_astype(snp.mk(x), float)
        import numpy as np
        return np.array(x, dtype=float)

    def iarr(self, x):
        if snp.has_sym(x):
            return snp.mk(x)
        import numpy as np
        return np.array(x, dtype=int)

    def observe(self, name, v):
        self.obs[name] = v

    def mod(self, name):
        return self.loader.load(name)

    @contextlib.contextmanager
    def random(self, cls=api.FakeRandom, **kw):
        old = self.rng
        self.rng = cls(self, **kw)
        try:
            yield self.rng
        finally:
            self.rng = old

    @contextlib.contextmanager
    def quiet_bars(self):
        yield

    def capture(self):
        return _Cap(self)

    def eval_obs(self, v, model):
        return _ev(self, v, model)


class _Cap(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.i = len(self.c.stdout)
        return self

    def __exit__(self, *a):
        self.out = self.c.stdout[self.i:]

    def text(self):
        return ''.join(self.out)


class _RngProxy(object):
    """the `random` module of the code under test"""

    def __init__(self, ctx):
        self._c = ctx

    def __getattr__(self, k):
        f = getattr(self._c.rng, k, None)
        if f is None:
            raise sym.Unsupported('random.%s' % k)
        return f

    def Random(self, *a):
        return self

    SystemRandom = Random


def _ev(c, v, m):
    if isinstance(v, SymNum):
        f = sym.model_frac(m, v.z())
        return int(f) if v.isint else float(f)
    if isinstance(v, SymSqrt):
        return float(sym.model_frac(m, v.sq.z())) ** 0.5
    if isinstance(v, SymMin):
        xs = [_ev(c, x, m) for x in v.xs]
        return max(xs) if v.ismax else min(xs)
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.z, model_completion=True))
    if isinstance(v, snp.SArr):
        return _ev(c, v.tolist(), m)
    if isinstance(v, (list, tuple)):
        return [_ev(c, e, m) for e in v]
    if isinstance(v, (set, frozenset)):
        return sorted([_ev(c, e, m) for e in v], key=repr)
    if isinstance(v, dict):
        return {str(k): _ev(c, e, m) for k, e in v.items()}
    return api.plain(v)
