"""Loads /repo/ababe from source for symbolic execution.

The source text is read from the working tree on every run, parsed, and
executed with three adjustments that do not change its meaning on concrete
data: dict/set displays build containers that accept symbolic keys, a bare
`except:` cannot swallow the engine's control exceptions, and the builtins and
library modules it imports are the ones in `stubs.py`.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import sym, containers, snp
from .sym import SymNum, SymBool, PathControl

REPO = os.environ.get('VERIF_REPO', '/repo')
_code_cache = {}
SOURCES = set()


class Rewrite(ast.NodeTransformer):
    def _call(self, node, fn, arg):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[arg], keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            # {**a, k: v}
            out = ast.List(elts=[], ctx=ast.Load())
            for k, v in zip(node.keys, node.values):
                if k is None:
                    it = ast.Call(func=ast.Attribute(value=v, attr='items', ctx=ast.Load()),
                                  args=[], keywords=[])
                    out.elts.append(ast.Starred(value=it, ctx=ast.Load()))
                else:
                    out.elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
            return self._call(node, '_v_dict_', out)
        lst = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                             for k, v in zip(node.keys, node.values)], ctx=ast.Load())
        return self._call(node, '_v_dict_', lst)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return self._call(node, '_v_dict_', g)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, '_v_set_', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, '_v_set_',
                          ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_Compare(self, node):
        # texts that contain formatted symbolic numbers are compared by value
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and \
                not any(isinstance(e, ast.Constant) for e in (node.left, node.comparators[0])):
            return ast.copy_location(
                ast.Call(func=ast.Name(id='_v_eq_' if isinstance(node.ops[0], ast.Eq) else '_v_ne_', ctx=ast.Load()),
                         args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        hs = []
        for h in node.handlers:
            t = h.type
            if t is None or (isinstance(t, ast.Name) and t.id == 'BaseException'):
                hs.append(ast.copy_location(ast.ExceptHandler(
                    type=ast.Name(id='_v_control_', ctx=ast.Load()), name=None,
                    body=[ast.Raise(exc=None, cause=None)]), h))
            hs.append(h)
        node.handlers = hs
        return node


def compile_file(path):
    with open(path, 'rb') as f:
        src = f.read()
    key = (path, src)
    c = _code_cache.get(key)
    if c is None:
        tree = ast.parse(src, path)
        # a str first statement / future imports stay first: only expressions change
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        c = compile(tree, path, 'exec', dont_inherit=True)
        _code_cache[key] = c
    SOURCES.add(path)
    return c


# -- builtins -----------------------------------------------------------------
class _MInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymNum) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(int)


class SInt(int, metaclass=_MInt):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return x if x.isint else sym.trunc(x)
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, (sym.SymSqrt, sym.SymMin)):
            return sym.trunc(x.purify() if isinstance(x, sym.SymSqrt) else x.pick())
        if isinstance(x, str):
            v = sym.CUR.parse_token(x) if sym.CUR is not None else None
            if v is not None:
                if not SymNum._co(v).isint:
                    raise ValueError('invalid literal for int() with base 10: %r' % x)
                return v
        if isinstance(x, snp.SArr):
            return SInt(x.item())
        if isinstance(x, (containers.CDigest,)):
            return x
        if isinstance(x, containers.SymDigest):
            return x.as_int()
        if isinstance(x, containers.CHex):
            d = containers.CDigest(int(x, *a))
            d.content, d.width, d.bits, d.fn, d.seed, d.ops = x.content, x.width, x.bits, x.fn, x.seed, x.ops
            return d
        return int(x, *a)


class _MFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and not x.isint) \
            or isinstance(x, (sym.SymSqrt, sym.SymMin))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(float)


class SFloat(float, metaclass=_MFloat):
    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return sym._toreal(x)
        if isinstance(x, (sym.SymSqrt, sym.SymMin)):
            return x
        if isinstance(x, SymBool):
            return sym._toreal(x.as_num())
        if isinstance(x, str):
            v = sym.CUR.parse_token(x) if sym.CUR is not None else None
            if v is not None:
                return sym._toreal(v)
        if isinstance(x, snp.SArr):
            return SFloat(x.item())
        return float(x)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_all(it):
    """conjunction without forking when every element is already at hand"""
    for x in it:
        if not bool(x):
            return False
    return True


def s_any(it):
    for x in it:
        if bool(x):
            return True
    return False


def s_range(*a):
    return range(*[x.__index__() if isinstance(x, SymNum) else x for x in a])


def s_print(*a, **k):
    f = k.get('file')
    if f is not None and f not in (sys.stdout, sys.stderr):
        sep = k.get('sep') or ' '
        f.write(sep.join(str(x) for x in a) + (k['end'] if k.get('end') is not None else '\n'))
        return
    env = getattr(sym.CUR, 'env', None)
    if env is not None:
        env.stdout.append((k.get('sep') or ' ').join(str(x) for x in a)
                          + (k['end'] if k.get('end') is not None else '\n'))


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, *m):
    return pow(a, b, *m) if m else a ** b


class Loader(object):
    """one fresh instance of the package per explored path"""

    def __init__(self, stubs, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.stubs = stubs
        b = dict(vars(builtins))
        b.update({
            '__import__': self.imp, 'int': SInt, 'float': SFloat, 'dict': containers.SymDict,
            'set': containers.SymSet, 'frozenset': containers.SymFrozenSet,
            'hash': containers.s_hash, 'sum': s_sum, 'range': s_range, 'print': s_print, 'divmod': s_divmod,
            '_v_dict_': containers.mkdict, '_v_set_': containers.mkset, '_v_eq_': containers.v_eq, '_v_ne_': containers.v_ne,
            '_v_control_': PathControl,
        })
        b.update(stubs.builtins())
        self.bi = types.ModuleType('builtins')
        self.bi.__dict__.update(b)
        self.bdict = self.bi.__dict__

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rpartition('.')[0])
        path, ispkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.bdict
        self.mods[name] = m
        try:
            if os.path.exists(path):
                exec(compile_file(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        if full == 'builtins':
            return self.bi
        if full == 'ababe' or full.startswith('ababe.'):
            m = self.load(full)
            if fromlist:
                for a in fromlist:
                    if a == '*':
                        for x in getattr(m, '__all__', ()):
                            if not hasattr(m, x):
                                self.load(full + '.' + x)
                    elif not hasattr(m, a):
                        try:
                            self.load(full + '.' + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(full.split('.')[0])
        m = self.stubs.module(full)
        if m is not None:
            if fromlist or '.' not in full:
                if fromlist:
                    for a in fromlist:
                        if a != '*' and not hasattr(m, a):
                            s = self.stubs.module(full + '.' + a)
                            if s is not None:
                                return _with(m, a, s)
                return m
            return self.stubs.module(full.split('.')[0]) or m
        try:
            importlib.import_module(full)
        except ModuleNotFoundError:
            raise
        return builtins.__import__(name, None, None, fromlist, 0)

    def __call__(self, name):
        return self.load(name)


def _with(m, a, s):
    n = types.SimpleNamespace(**{a: s})
    n.__getattr__ = lambda k: getattr(m, k)
    return n
