"""Model of the part of click that the command-line modules use: option and
argument declarations, parsing of an argument list, calling the command."""
import os
import types

from . import loader


class ClickException(Exception):
    pass


class UsageError(ClickException):
    pass


class Exit(Exception):
    pass


class ParamType(object):
    def convert(self, v):
        return v


class Choice(ParamType):
    def __init__(self, choices, case_sensitive=True):
        self.choices, self.cs = list(choices), case_sensitive

    def convert(self, v):
        for c in self.choices:
            if v == c or (not self.cs and v.lower() == c.lower()):
                return c
        raise UsageError('invalid choice: %s' % v)


class Path(ParamType):
    def __init__(self, exists=False, **k):
        self.exists = exists

    def convert(self, v):
        if self.exists and not os.path.exists(v):
            raise UsageError('Path %r does not exist.' % v)
        return v


class File(ParamType):
    def __init__(self, mode='r', **k):
        self.mode = mode

    def convert(self, v):
        return open(v, self.mode)


class Tuple(ParamType):
    def __init__(self, types):
        self.types = [_type(t) for t in types]
        self.arity = len(self.types)


class IntRange(ParamType):
    def __init__(self, min=None, max=None, **k):
        self.min, self.max = min, max

    def convert(self, v):
        v = _Int().convert(v)
        if (self.min is not None and v < self.min) or (self.max is not None and v > self.max):
            raise UsageError('%s is not in the range' % v)
        return v


class _Int(ParamType):
    def convert(self, v):
        try:
            return loader.SInt(v)
        except ValueError:
            raise UsageError('%r is not a valid integer' % v)


class _Float(ParamType):
    def convert(self, v):
        try:
            return loader.SFloat(v)
        except ValueError:
            raise UsageError('%r is not a valid float' % v)


class _Bool(ParamType):
    def convert(self, v):
        if isinstance(v, bool):
            return v
        return v.lower() in ('1', 'true', 'yes', 'on', 't', 'y')


def _type(t):
    if t is None or t is str:
        return ParamType()
    if isinstance(t, ParamType):
        return t
    if isinstance(t, (tuple, list)):
        return Tuple(t)
    if t == int:
        return _Int()
    if t == float:
        return _Float()
    if t is bool:
        return _Bool()

    class F(ParamType):
        def convert(self, v):
            return t(v)
    return F()


class Param(object):
    def __init__(self, decls, arg, type=None, default=None, nargs=None, multiple=False, required=None,
                 is_flag=None, flag_value=None, help=None, count=False, **k):
        self.arg = arg
        self.on, self.off = [], []
        self.name = None
        for d in decls:
            if not d.startswith('-'):
                self.name = d.replace('-', '_') if arg else d
                continue
            if '/' in d and not arg:
                a, b = d.split('/', 1)
                if a.strip():
                    self.on.append(a.strip())
                if b.strip():
                    self.off.append(b.strip())
                is_flag = True if is_flag is None else is_flag
            else:
                self.on.append(d)
        if self.name is None:
            self.name = sorted(self.on, key=lambda x: -len(x.lstrip('-')) if not x.startswith('--') else -100)[0]
            self.name = next((x for x in self.on if x.startswith('--')), self.on[0]).lstrip('-').replace('-', '_').lower()
        if type is None and default is not None and not is_flag and not isinstance(default, (tuple, list)):
            type = default.__class__
        if isinstance(default, bool) and is_flag is None and not arg and type is bool:
            pass
        self.type = _type(type)
        self.flag = bool(is_flag)
        if nargs is None:
            nargs = self.type.arity if isinstance(self.type, Tuple) else 1
        self.nargs, self.multiple = nargs, multiple
        self.default = default
        self.required = required if required is not None else (arg and default is None)

    def conv(self, vals):
        if isinstance(self.type, Tuple):
            return tuple(t.convert(v) for t, v in zip(self.type.types, vals))
        if self.nargs == 1:
            return self.type.convert(vals[0])
        return tuple(self.type.convert(v) for v in vals)

    def missing(self):
        if self.required:
            raise UsageError('Missing option %s' % self.name)
        d = self.default
        if callable(d):
            d = d()
        if self.multiple:
            return tuple(d or ())
        if d is None:
            return False if self.flag else None
        if self.flag:
            return d
        return self.conv(d) if self.nargs != 1 else self.conv([d])


class Command(object):
    def __init__(self, name, callback, params):
        self.name, self.callback, self.params = name, callback, params

    def main(self, args=None, prog_name=None, standalone_mode=True, **k):
        return self.invoke(list(args))

    __call__ = main

    def invoke(self, args):
        vals = {}
        pos = []
        opts = {}
        for p in self.params:
            for o in p.on:
                opts[o] = (p, True)
            for o in p.off:
                opts[o] = (p, False)
        i = 0
        while i < len(args):
            a = args[i]
            i += 1
            if a.startswith('-') and len(a) > 1 and not _number(a):
                v = None
                if a.startswith('--') and '=' in a:
                    a, v = a.split('=', 1)
                if a not in opts:
                    raise UsageError('No such option: %s' % a)
                p, on = opts[a]
                if p.flag:
                    vals[p.name] = on
                    continue
                raw = [v] if v is not None else []
                while len(raw) < p.nargs:
                    if i >= len(args):
                        raise UsageError('Option %s requires %d arguments' % (a, p.nargs))
                    raw.append(args[i])
                    i += 1
                if p.multiple:
                    vals.setdefault(p.name, []).append(p.conv(raw))
                else:
                    vals[p.name] = p.conv(raw)
            else:
                pos.append(a)
        for p in self.params:
            if p.arg:
                if p.nargs == -1:
                    vals[p.name] = tuple(p.type.convert(v) for v in pos)
                    pos = []
                elif len(pos) >= p.nargs:
                    vals[p.name] = p.conv(pos[:p.nargs])
                    pos = pos[p.nargs:]
        if pos:
            raise UsageError('unexpected arguments %r' % pos)
        kw = {}
        for p in self.params:
            if p.name is None:
                continue
            v = vals.get(p.name)
            if p.name not in vals:
                v = p.missing()
            kw[p.name] = tuple(v) if p.multiple and v is not None else v
        return self.callback(**kw)


def _number(a):
    try:
        float(a)
        return True
    except ValueError:
        return False


class Group(Command):
    def __init__(self, name, callback, params):
        Command.__init__(self, name, callback, params)
        self.commands = {}

    def command(self, name=None, **k):
        def deco(f):
            c = _mk(Command, name, f)
            self.commands[c.name] = c
            return c
        if callable(name):
            f, name = name, None
            return deco(f)
        return deco

    def add_command(self, c, name=None):
        self.commands[name or c.name] = c

    def group(self, name=None, **k):
        def deco(f):
            c = _mk(Group, name, f)
            self.commands[c.name] = c
            return c
        return deco

    def invoke(self, args):
        if not args:
            raise UsageError('no command')
        if args[0] not in self.commands:
            raise UsageError('No such command %r' % args[0])
        self.callback()
        return self.commands[args[0]].invoke(list(args[1:]))


def _mk(cls, name, f):
    ps = getattr(f, '__click_params__', [])
    return cls(name or f.__name__.lower().replace('_', '-'), f, list(reversed(ps)))


def _param(arg):
    def mk(*decls, **k):
        def deco(f):
            p = Param(decls, arg, **k)
            if isinstance(f, Command):
                f.params.append(p)
            else:
                if not hasattr(f, '__click_params__'):
                    f.__click_params__ = []
                f.__click_params__.append(p)
            return f
        return deco
    return mk


def module():
    m = types.SimpleNamespace()
    m.option, m.argument = _param(False), _param(True)
    m.version_option = lambda *a, **k: (lambda f: f)
    m.help_option = m.version_option
    m.group = lambda name=None, **k: (lambda f: _mk(Group, name if not callable(name) else None, f))
    m.command = lambda name=None, **k: (lambda f: _mk(Command, name, f))
    m.Choice, m.Path, m.File, m.Tuple, m.IntRange, m.ParamType = Choice, Path, File, Tuple, IntRange, ParamType
    m.INT, m.FLOAT, m.STRING, m.BOOL = _Int(), _Float(), ParamType(), _Bool()
    m.format_filename = lambda f, *a, **k: f
    m.echo = lambda msg='', **k: loader.s_print(msg)
    m.secho = m.echo
    m.ClickException, m.UsageError, m.BadParameter = ClickException, UsageError, UsageError
    m.Command, m.Group = Command, Group
    return m
