"""A symbolic interpreter for the Python subset the repository is written in.

It executes the abstract syntax trees of the repository's own source files; the
values may be symbolic (core.Sym), lists may contain runs of unknown length
(core.Gen).  Anything outside the subset raises core.Unsupported, never a guess.
"""
import ast
import os
import re
import z3

from . import core
from .core import (Unsupported, LoopCarried, Gen, Prior, Poison, Sym, SBool, SInt, SStr, Atom, JoinSeg,
                   Lines, Reindented, PriorSeg, mkstr, sym_eq, truth, zbool, zint, ctx, has_sym, segs_of)

REPO = os.environ.get('VERIF_REPO', '/repo')


CURRENT = []            # the interpreter of the present path


class PyExc(Exception):
    """A Python exception of the interpreted program."""
    def __init__(self, obj):
        self.obj = obj
        self.level = len(CURRENT[-1].frames) if CURRENT else 0      # 0: raised by the harness itself
        Exception.__init__(self, '%s: %r' % (obj.cls.name, obj.attrs.get('args')))


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Absent(object):
    pass


ABSENT = Absent()


class Unknown(object):
    """A name the verifier has no contract for."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<unknown %s>' % self.name


class Cond(object):
    """An attribute present only under a condition."""
    def __init__(self, cond, value):
        self.cond = cond
        self.value = value


class Lazy(object):
    def __init__(self, fn):
        self.fn = fn


class Env(object):
    def __init__(self, vars, parent=None, module=None, kind='function', locals_=None, func=None):
        self.vars = vars
        self.parent = parent
        self.module = module
        self.kind = kind
        self.locals_ = locals_
        self.func = func
        self.globals_ = ()
        self.nonlocals_ = ()


class ModuleObj(object):
    def __init__(self, name, vars=None, strict=True):
        self.name = name
        self.vars = vars if vars is not None else {}
        self.strict = strict

    def __repr__(self):
        return '<module %s>' % self.name


class Func(object):
    def __init__(self, node, env, module, name, defaults, kwdefaults, owner=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual()

    def qual(self):
        o = self.owner.name + '.' if self.owner is not None else ''
        return '%s:%s%s' % (self.module.name if self.module else '?', o, self.name)


class NativeFn(object):
    def __init__(self, fn, name=None):
        self.fn = fn
        self.name = name or getattr(fn, '__name__', '?')
        self.attrs = {}


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def eq_(self, other):
        return isinstance(other, Bound) and other.func is self.func and other.self_ is self.self_


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class Cls(object):
    def __init__(self, name, bases=(), ns=None, native=False, absent=(), module='django', kw=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = ns if ns is not None else {}
        self.native = native
        self.absent = set(absent)
        self.module = module
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)

    def __repr__(self):
        return '<class %s>' % self.name

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return ABSENT

    def issub(self, other):
        return other in self.mro


class Obj(object):
    def __init__(self, cls, attrs=None, absent=(), label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.absent = set(absent)
        self.label = label
        self.isin = None            # optional: symbolic class membership
        self.payload = None

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.label or hex(id(self))[-5:])


class SuperProxy(object):
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class BuiltinType(object):
    def __init__(self, name, pytypes, fn):
        self.name = name
        self.pytypes = pytypes
        self.fn = fn

    def __repr__(self):
        return '<type %s>' % self.name


# -- exceptions ---------------------------------------------------------------

EXC = {}


def _exc(name, *bases, **kw):
    EXC[name] = Cls(name, [EXC[b] for b in bases], {}, native=True, module='builtins',
                    absent=('errno', 'message'))
    return EXC[name]


_exc('object')
_exc('BaseException', 'object')
_exc('Exception', 'BaseException')
_exc('KeyboardInterrupt', 'BaseException')
_exc('SystemExit', 'BaseException')
_exc('GeneratorExit', 'BaseException')
for _n in ('ArithmeticError', 'AssertionError', 'AttributeError', 'ImportError', 'LookupError', 'NameError',
           'RuntimeError', 'StopIteration', 'TypeError', 'ValueError', 'OSError', 'Warning'):
    _exc(_n, 'Exception')
_exc('KeyError', 'LookupError')
_exc('IndexError', 'LookupError')
_exc('UnboundLocalError', 'NameError')
_exc('NotImplementedError', 'RuntimeError')
_exc('DeprecationWarning', 'Warning')
_exc('ZeroDivisionError', 'ArithmeticError')
_exc('FileNotFoundError', 'OSError')
_exc('ProcessLookupError', 'OSError')
_exc('PermissionError', 'OSError')
_exc('UnicodeDecodeError', 'ValueError')
OBJECT = EXC['object']
EXC['IOError'] = EXC['OSError']
EXC['EnvironmentError'] = EXC['OSError']


def make_exc(cls, *args):
    if isinstance(cls, str):
        cls = EXC[cls]
    return Obj(cls, {'args': tuple(args)})


def throw(cls, *args):
    raise PyExc(make_exc(cls, *args))


class Interp(object):
    def __init__(self, stubs, unroll=64):
        CURRENT[:] = [self]
        self.stubs = stubs              # module name -> dict of names (or callable)
        self.modules = {}
        self.unroll = unroll
        self.contracts = {}             # qualified name -> replacement callable
        self.builtins = {}
        self.depth = 0
        self.stack = []
        self.frames = []
        self.exc_stack = []
        self._install_builtins()

    # ------------------------------------------------------------------ modules
    _ast_cache = {}

    def path_of(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def parse(self, path):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in self._ast_cache:
            with open(path) as f:
                self._ast_cache[key] = ast.parse(f.read(), path)
        return self._ast_cache[key]

    def is_repo(self, name):
        return name == 'denorm' or name.startswith('denorm.')

    def load(self, name):
        """Import a module by its absolute name."""
        if name in self.modules:
            return self.modules[name]
        if self.is_repo(name) and name not in self.stubs:
            path, pkg = self.path_of(name)
            if path is None:
                throw('ImportError', 'No module named %s' % name)
            if '.' in name:
                self.load(name.rsplit('.', 1)[0])
                if name in self.modules:
                    return self.modules[name]
            m = ModuleObj(name, {'__name__': name, '__file__': path, '__doc__': None})
            m.package = name if pkg else name.rsplit('.', 1)[0]
            self.modules[name] = m
            env = Env(m.vars, None, m, kind='module')
            if '.' in name:
                parent, leaf = name.rsplit('.', 1)
                self.modules[parent].vars.setdefault(leaf, m)
            self.ex(self.parse(path).body, env)
            return m
        if name in self.stubs:
            v = self.stubs[name]
            if v is ABSENT:
                throw('ImportError', 'No module named %s' % name)
            m = ModuleObj(name, v, strict=True)
            m.package = name
            self.modules[name] = m
            return m
        # a package that only exists as a prefix of a stubbed module
        m = ModuleObj(name, {}, strict=True)
        m.package = name
        self.modules[name] = m
        return m

    def import_name(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            m = self.load(n)
            if i > 1:
                p = self.modules['.'.join(parts[:i - 1])]
                if parts[i - 1] not in p.vars:
                    p.vars[parts[i - 1]] = m
        return self.modules[parts[0]], self.modules[name]

    def module_attr(self, m, name):
        if name in m.vars:
            v = m.vars[name]
            if isinstance(v, Lazy):
                return v.fn()
            if v is ABSENT:
                throw('AttributeError', 'module %s has no attribute %s' % (m.name, name))
            return v
        full = m.name + '.' + name
        if full in self.stubs:
            return self.load(full)
        if self.is_repo(m.name) and m.name not in self.stubs:
            if self.path_of(full)[0]:
                return self.load(full)
            throw('AttributeError', 'module %s has no attribute %s' % (m.name, name))
        if any(s.startswith(full + '.') for s in self.stubs):
            return self.load(full)
        return Unknown(full)

    # ------------------------------------------------------------------ calls
    def qualname(self, f):
        return f.qual()

    def contract_elsewhere(self, f):
        """The contract of a module's name is that of the function it stands for, wherever that is defined."""
        for q in self.contracts:
            mod, name = q.split(':')
            if '.' not in name and mod in self.modules and self.modules[mod].vars.get(name) is f:
                return self.contracts[q]
        return None

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, (f.self_,) + tuple(args), kwargs)
        if isinstance(f, Func):
            q = f.qual()
            c = self.contracts.get(q) or self.contract_elsewhere(f)
            if c is not None:
                ctx().notes.add('callee contract used: %s' % q)
                return c(*args, **kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, NativeFn):
            return f.fn(*args, **kwargs)
        if isinstance(f, BuiltinType):
            return f.fn(*args, **kwargs)
        if isinstance(f, (StaticM,)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Unknown):
            raise Unsupported('call of %s (no contract)' % f.name)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is ABSENT:
                if f.cls.native:
                    raise Unsupported('call of %r' % f)
                throw('TypeError', 'not callable')
            return self.call(m, (f,) + tuple(args), kwargs)
        if isinstance(f, Poison):
            raise LoopCarried(f.why)
        if f is None or isinstance(f, (str, int, list, tuple, dict, SStr)):
            throw('TypeError', 'object is not callable')
        if callable(f):
            return f(*args, **kwargs)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        new = cls.lookup('__new__')
        if new is not ABSENT:
            r = self.call(new.f if isinstance(new, StaticM) else new, (cls,) + tuple(args), kwargs)
            if not (isinstance(r, Obj) and r.cls.issub(cls)):
                return r
            obj = r
        else:
            obj = Obj(cls)
        init = cls.lookup('__init__')
        if init is ABSENT:
            if any(c is EXC['BaseException'] for c in cls.mro):
                obj.attrs['args'] = tuple(args)
                return obj
            if any(c.native and c is not OBJECT for c in cls.mro):
                raise Unsupported('constructor of %s' % cls.name)
            if args or kwargs:
                throw('TypeError', 'object() takes no parameters')
            return obj
        if any(c is EXC['BaseException'] for c in cls.mro):
            obj.attrs['args'] = tuple(args)
        self.call(init, (obj,) + tuple(args), kwargs)
        return obj

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion too deep in %s' % f.qual())
        c = ctx()
        if c is not None:
            q = f.qual()
            c.interpreted[q] = c.interpreted.get(q, 0) + 1
        try:
            vars = self.bind(f, args, kwargs)
            env = Env(vars, f.env, f.module, 'function', func=f)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            info = scope_info(f.node)
            env.locals_, env.globals_, env.nonlocals_, is_gen = info
            if is_gen:
                env.yields = []
                self.frames.append(env)
                try:
                    self.ex(f.node.body, env)
                except ReturnSig:
                    pass
                finally:
                    self.frames.pop()
                return env.yields
            self.frames.append(env)
            try:
                self.ex(f.node.body, env)
            except ReturnSig as r:
                return r.value
            finally:
                self.frames.pop()
            return None
        finally:
            self.depth -= 1

    def bind(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        names = [x.arg for x in a.args]
        args = list(args)
        if any(isinstance(x, (Gen, Prior)) for x in args):
            raise Unsupported('call with an unbounded argument list')
        kwargs = dict(kwargs)
        for n in names:
            if args:
                vars[n] = args.pop(0)
                if n in kwargs:
                    throw('TypeError', '%s() got multiple values for argument %s' % (f.name, n))
        if args:
            if a.vararg is None:
                throw('TypeError', '%s() takes %d positional arguments' % (f.name, len(names)))
            vars[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        off = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n in vars:
                continue
            if n in kwargs:
                vars[n] = kwargs.pop(n)
            elif i >= off:
                vars[n] = f.defaults[i - off]
            else:
                throw('TypeError', '%s() missing required argument %s' % (f.name, n))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                vars[x.arg] = kwargs.pop(x.arg)
            elif f.kwdefaults[i] is not ABSENT:
                vars[x.arg] = f.kwdefaults[i]
            else:
                throw('TypeError', '%s() missing keyword argument %s' % (f.name, x.arg))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = kwargs
        elif kwargs:
            throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, list(kwargs)[0]))
        return vars

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=ABSENT):
        """Attribute access; raises PyExc(AttributeError) or returns default when absent."""
        r = self._getattr(o, name)
        if r is ABSENT:
            if default is not ABSENT:
                return default
            throw('AttributeError', '%r object has no attribute %r' % (typename(o), name))
        return r

    def resolve(self, v):
        if isinstance(v, Lazy):
            v = v.fn()
        if isinstance(v, Cond):
            if ctx().branch(v.cond):
                return self.resolve(v.value)
            return ABSENT
        return v

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, (o,))
            if isinstance(cv, Obj) and cv.cls.lookup('__get__') is not ABSENT and cv.cls.lookup('__set__') is not ABSENT:
                return self.call(cv.cls.lookup('__get__'), (cv, o, o.cls))
            if name in o.attrs:
                return self.resolve(o.attrs[name])
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            if name in o.absent:
                return ABSENT
            if cv is not ABSENT:
                if isinstance(cv, Obj) and cv.cls.lookup('__get__') is not ABSENT:
                    return self.call(cv.cls.lookup('__get__'), (cv, o, o.cls))
                return self.bind_attr(cv, o, o.cls)
            ga = o.cls.lookup('__getattr__')
            if ga is not ABSENT:
                try:
                    return self.call(ga, (o, name))
                except PyExc as e:
                    if e.obj.cls.issub(EXC['AttributeError']):
                        return ABSENT
                    raise
            for c in o.cls.mro:
                if name in c.absent:
                    return ABSENT
            if name == '__doc__':
                return None
            if name == '__module__':
                return o.cls.module
            if name in ('__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__init__'):
                raise Unsupported('special attribute %s' % name)
            if any(c.native and c is not OBJECT for c in o.cls.mro):
                raise Unsupported('attribute %s of %r is not specified' % (name, o))
            return ABSENT
        if isinstance(o, Cls):
            v = o.lookup(name)
            if v is not ABSENT:
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                if isinstance(v, StaticM):
                    return v.f
                return self.resolve(v)
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.module
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__doc__':
                return None
            if name == '__dict__':
                return o.ns
            if name == '__bases__':
                return o.bases
            for c in o.mro:
                if name in c.absent:
                    return ABSENT
            if name == '__init__' and not any(c.native and c is not OBJECT for c in o.mro):
                return NativeFn(lambda self, *a, **k: None, '__init__')
            if any(c.native and c is not OBJECT for c in o.mro):
                raise Unsupported('class attribute %s of %s is not specified' % (name, o.name))
            return ABSENT
        if isinstance(o, ModuleObj):
            try:
                return self.module_attr(o, name)
            except PyExc as e:
                if e.obj.cls.issub(EXC['AttributeError']):
                    return ABSENT
                raise
        if isinstance(o, SuperProxy):
            mro = o.self_.mro if isinstance(o.self_, Cls) else o.self_.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o.self_, mro[0])
            if name == '__init__':
                rest = mro[i + 1:]
                if any(c.native and c is not OBJECT for c in rest):
                    raise Unsupported('constructor of a base of %s' % o.cls.name)
                return NativeFn(lambda *a, **k: None, '__init__')
            for c in mro[i + 1:]:
                if name in c.absent:
                    return ABSENT
            if any(c.native and c is not OBJECT for c in mro[i + 1:]):
                raise Unsupported('super attribute %s of %s' % (name, o.cls.name))
            return ABSENT
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.module.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == '__dict__':
                return o.attrs
            if name.startswith('__'):
                raise Unsupported('function attribute %s' % name)
            return ABSENT
        if isinstance(o, NativeFn):
            if name in o.attrs:
                return self.resolve(o.attrs[name])
            if name == '__name__':
                return o.name
            return ABSENT
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Unknown):
            return Unknown(o.name + '.' + name)
        if isinstance(o, Poison):
            raise LoopCarried(o.why)
        if isinstance(o, BuiltinType):
            if name == '__name__':
                return o.name
            return NativeFn(lambda self_, *a, **k: self.call(self.getattr(self_, name), a, k), name)
        if o is None or isinstance(o, (bool, int, float, SInt, SBool)):
            if name == '__class__':
                return BTYPES[type(o).__name__] if type(o).__name__ in BTYPES else Unknown('type')
            if isinstance(o, int) and name == 'bit_length':
                return NativeFn(o.bit_length)
            return ABSENT
        m = method_of(self, o, name)
        return m

    def bind_attr(self, v, o, cls):
        if isinstance(v, (Func, NativeFn)):
            if isinstance(o, Cls):
                return v
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Prop):
            return self.call(v.fget, (o,))
        return self.resolve(v)

    def setattr(self, o, name, value):
        if isinstance(o, Obj):
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    throw('AttributeError', "can't set attribute %s" % name)
                self.call(cv.fset, (o, value))
                return
            if isinstance(cv, Obj) and cv.cls.lookup('__set__') is not ABSENT:
                self.call(cv.cls.lookup('__set__'), (cv, o, value))
                return
            sa = o.cls.lookup('__setattr__')
            if sa is not ABSENT:
                self.call(sa, (o, name, value))
                return
            ctx_touch(o.attrs)
            o.attrs[name] = value
        elif isinstance(o, Func) or isinstance(o, NativeFn):
            ctx_touch(o.attrs)
            o.attrs[name] = value
        elif isinstance(o, ModuleObj):
            ctx_touch(o.vars)
            o.vars[name] = value
        elif isinstance(o, Cls):
            ctx_touch(o.ns)
            o.ns[name] = value
        elif isinstance(o, (Unknown, Poison)):
            raise Unsupported('attribute assignment on %r' % (o,))
        else:
            throw('AttributeError', 'cannot set %s' % name)

    def hasattr(self, o, name):
        if isinstance(o, Obj) and name in o.attrs and isinstance(o.attrs[name], Cond):
            return ctx().branch(o.attrs[name].cond)
        try:
            return self._getattr(o, name) is not ABSENT
        except PyExc as e:
            if e.obj.cls.issub(EXC['AttributeError']):
                return False
            raise

    # ------------------------------------------------------------------ truth, equality
    def truth(self, v):
        t = truth(v)
        if t is None:
            if isinstance(v, Obj):
                b = v.cls.lookup('__bool__')
                if b is ABSENT:
                    b = v.attrs.get('__bool__', ABSENT)
                    if b is not ABSENT:
                        return self.truth(self.call(b, ()))
                    b = v.cls.lookup('__len__')
                if b is not ABSENT:
                    return self.truth(self.call(b, (v,)))
                return True
            if isinstance(v, Unknown):
                raise Unsupported('truth of %s' % v.name)
            if isinstance(v, (Cls, Func, NativeFn, Bound, ModuleObj, BuiltinType)):
                return True
            return bool(v)
        return t

    def test(self, v):
        return ctx_branch(self.truth(v))

    def eq(self, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Unsupported('comparison with %r, %r' % (a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = x.cls.lookup('__eq__')
                if m is not ABSENT:
                    return self.truth(self.call(m, (x, y)))
        if isinstance(a, dict) and isinstance(b, dict):
            if has_sym(list(a)) or has_sym(list(b)):
                raise Unsupported('comparison of symbolic dictionaries')
            if set(a) != set(b):
                return False
            out = [self.eq(a[k], b[k]) for k in a]
            if all(x is True for x in out):
                return True
            return SBool(z3.And([zbool(x) for x in out]))
        return sym_eq(a, b)

    def contains(self, item, c):
        if isinstance(c, Poison):
            raise LoopCarried(c.why)
        if isinstance(c, (str, SStr)):
            if isinstance(item, str) and isinstance(c, str):
                return item in c
            return str_contains(item, c)
        if isinstance(c, dict):
            return self.dict_find(c, item) is not None
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not ABSENT:
                return self.truth(self.call(m, (c, item)))
            raise Unsupported('in %r' % c)
        if isinstance(c, (list, tuple, set, frozenset, DictView)):
            if isinstance(c, DictView):
                c = c.items_()
            out = []
            for x in c:
                if isinstance(x, Prior):
                    out.append(prior_member(x, item))
                    continue
                if isinstance(x, Gen):
                    out.append(gen_member(self, x, item))
                    continue
                e = self.eq(item, x)
                if e is True:
                    return True
                if e is not False:
                    out.append(e.z)
            if not out:
                return False
            return SBool(z3.Or(out))
        raise Unsupported('in %r' % (c,))

    def dict_find(self, d, key):
        """The stored key equal to `key` (as a one-element tuple) or None; branches."""
        if not has_sym(key):
            try:
                if key in d:
                    return (key,)
            except TypeError:
                throw('TypeError', 'unhashable type')
            if not any(has_sym(k) or isinstance(k, Obj) for k in d):
                return None
        for k in list(d):
            if k is key:
                return (k,)
        for k in list(d):
            if isinstance(k, (Prior, Gen)):
                continue
            e = self.eq(k, key)
            if e is True or (e is not False and ctx_branch(e)):
                return (k,)
        for k in list(d):
            if isinstance(k, Prior):
                return prior_lookup(self, d, k, key)
            if isinstance(k, Gen):
                if ctx_branch(SBool(gen_member(self, k, key))):
                    raise Unsupported('lookup in a dictionary of unknown size')
        return None

    # ------------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            if e.kind == 'function' and name in e.globals_:
                break
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Lazy):
                    return v.fn()
                if v is ABSENT:
                    break
                return v
            if first and e.kind == 'function' and e.locals_ and name in e.locals_ and name not in e.nonlocals_:
                throw('UnboundLocalError', 'local variable %r referenced before assignment' % name)
            if e.kind == 'module':
                break
            first = False
            e = e.parent
        m = env.module
        if m is not None and name in m.vars and m.vars[name] is not ABSENT:
            return m.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC:
            return EXC[name]
        import builtins as _b
        if hasattr(_b, name):
            return Unknown('builtin ' + name)
        throw('NameError', 'name %r is not defined' % name)

    def assign_name(self, name, value, env):
        if env.kind == 'function' and name in env.globals_:
            ctx_touch(env.module.vars)
            env.module.vars[name] = value
            return
        if env.kind == 'function' and name in env.nonlocals_:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            ctx_touch(e.vars)
            e.vars[name] = value
            return
        ctx_touch(env.vars)
        env.vars[name] = value

    def assign(self, target, value, env):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, value, env)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, env), target.attr, value)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.ev(target.value, env), self.ev_index(target.slice, env), value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(t, ast.Starred) for t in target.elts):
                raise Unsupported('starred assignment')
            vals = self.iterate(value)
            if any(isinstance(v, (Gen, Prior)) for v in vals):
                if len(vals) == 1 and isinstance(vals[0], Gen):
                    vals = exact_run(self, vals[0], len(target.elts))
                else:
                    raise Unsupported('unpacking a list of unknown length')
            if len(vals) != len(target.elts):
                throw('ValueError', 'wrong number of values to unpack')
            for t, v in zip(target.elts, vals):
                self.assign(t, v, env)
        else:
            raise Unsupported('assignment to %s' % type(target).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            ctx_touch(o)
            found = self.dict_find(o, k)
            if found is not None:
                o[found[0]] = v
            else:
                o[k] = v
        elif isinstance(o, list):
            if isinstance(k, int) and not any(isinstance(x, (Gen, Prior)) for x in o):
                if not -len(o) <= k < len(o):
                    throw('IndexError', 'list assignment index out of range')
                ctx_touch(o)
                o[k] = v
            else:
                raise Unsupported('list item assignment')
        elif isinstance(o, Obj) and o.cls.lookup('__setitem__') is not ABSENT:
            self.call(o.cls.lookup('__setitem__'), (o, k, v))
        else:
            raise Unsupported('item assignment on %r' % (o,))

    # ------------------------------------------------------------------ statements
    def ex(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        self.line = (env.module.name if env.module else '?', s.lineno)
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.assign_name(t.id, self.inplace(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list):
            b = self.iterate(b)
            ctx_touch(a)
            a.extend(b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, set):
            ctx_touch(a)
            for x in self.iterate(b):
                set_add(self, a, x)
            return a
        return self.binop(op, a, b)

    def s_If(self, s, env):
        if self.test(self.ev(s.test, env)):
            self.ex(s.body, env)
        else:
            self.ex(s.orelse, env)

    def s_Return(self, s, env):
        raise ReturnSig(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise BreakSig()

    def s_Continue(self, s, env):
        raise ContinueSig()

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                ctx_touch(env.vars)
                if t.id not in env.vars:
                    throw('NameError', t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                self.delitem(o, self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    ctx_touch(o.attrs)
                    del o.attrs[t.attr]
                else:
                    throw('AttributeError', t.attr)
            else:
                raise Unsupported('del')

    def delitem(self, o, k):
        if isinstance(o, dict):
            found = self.dict_find(o, k)
            if found is None:
                throw('KeyError', k)
            ctx_touch(o)
            del o[found[0]]
        elif isinstance(o, list) and isinstance(k, int) and not any(isinstance(x, (Gen, Prior)) for x in o):
            ctx_touch(o)
            try:
                del o[k]
            except IndexError:
                throw('IndexError', 'list index out of range')
        elif isinstance(o, Obj) and o.cls.lookup('__delitem__') is not ABSENT:
            self.call(o.cls.lookup('__delitem__'), (o, k))
        else:
            raise Unsupported('del item of %r' % (o,))

    def s_Assert(self, s, env):
        if not self.test(self.ev(s.test, env)):
            throw('AssertionError')

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                throw('RuntimeError', 'No active exception to reraise')
            raise PyExc(self.exc_stack[-1])
        e = self.ev(s.exc, env)
        if isinstance(e, Cls):
            e = self.instantiate(e, (), {})
        if isinstance(e, Unknown):
            raise Unsupported('raise of %s' % e.name)
        if not isinstance(e, Obj) or not e.cls.issub(EXC['BaseException']):
            throw('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(e)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, Unknown):
            raise Unsupported('except %s' % t.name)
        if not isinstance(t, Cls):
            raise Unsupported('except clause %r' % (t,))
        return exc.cls.issub(t)

    def s_Try(self, s, env):
        def run():
            try:
                self.ex(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.obj, self.ev(h.type, env)):
                        if h.name:
                            self.assign_name(h.name, e.obj, env)
                        self.exc_stack.append(e.obj)
                        try:
                            self.ex(h.body, env)
                        finally:
                            self.exc_stack.pop()
                            if h.name and h.name in env.vars:
                                ctx_touch(env.vars)
                                del env.vars[h.name]
                        return
                raise
            self.ex(s.orelse, env)
        if not s.finalbody:
            run()
            return
        try:
            run()
        except (core.PathEnd, core.Infeasible, Unsupported):
            raise
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.ex(s.finalbody, env)
            raise
        else:
            self.ex(s.finalbody, env)

    def s_With(self, s, env):
        def enter(items):
            if not items:
                self.ex(s.body, env)
                return
            item = items[0]
            m = self.ev(item.context_expr, env)
            if isinstance(m, Unknown):
                raise Unsupported('with %s' % m.name)
            en = self.getattr(m, '__enter__')
            exi = self.getattr(m, '__exit__')
            v = self.call(en, ())
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            try:
                enter(items[1:])
            except PyExc as e:
                if self.test(self.call(exi, (e.obj.cls, e.obj, None))):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(exi, (None, None, None))
                raise
            self.call(exi, (None, None, None))
        enter(list(s.items))

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), (v,))
        self.assign_name(s.name, v, env)

    def make_func(self, node, env, name):
        a = node.args
        if a.posonlyargs:
            raise Unsupported('positional-only arguments')
        defaults = [self.ev(d, env) for d in a.defaults]
        kwdefaults = [ABSENT if d is None else self.ev(d, env) for d in a.kw_defaults]
        e = env
        return Func(node, e, env.module, name, defaults, kwdefaults)

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.ev(b, env)
            if isinstance(v, BuiltinType) and v.name == 'object':
                v = OBJECT
            if isinstance(v, Unknown):
                v = unknown_class(v.name)
            if not isinstance(v, Cls):
                raise Unsupported('base class %r' % (v,))
            bases.append(v)
        if not bases:
            bases = [OBJECT]
        ns = {}
        cenv = Env(ns, env, env.module, kind='class')
        self.ex(s.body, cenv)
        c = Cls(s.name, bases, ns, native=False, module=env.module.name)
        for k, v in ns.items():
            f = v.f if isinstance(v, (StaticM, ClassM)) else v.fget if isinstance(v, Prop) else v
            if isinstance(f, Func) and f.owner is None and f.env is cenv:
                f.owner = c
            if isinstance(v, Prop) and isinstance(v.fset, Func):
                v.fset.owner = c
        for hook in [b.ns['__classhook__'] for b in c.mro if '__classhook__' in b.ns]:
            hook(self, c)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), (v,))
        self.assign_name(s.name, v, env)

    def s_Import(self, s, env):
        for a in s.names:
            top, leaf = self.import_name(a.name)
            self.assign_name(a.asname or a.name.split('.')[0], leaf if a.asname else top, env)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            pkg = env.module.package
            for _ in range(s.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        if name == '__future__':
            return
        _, m = self.import_name(name)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            try:
                v = self.module_attr(m, a.name)
            except PyExc as e:
                if e.obj.cls.issub(EXC['AttributeError']):
                    throw('ImportError', 'cannot import name %s' % a.name)
                raise
            self.assign_name(a.asname or a.name, v, env)

    # -- loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        self.for_loop(it, s.target, s.body, s.orelse, env)

    def for_loop(self, it, target, body, orelse, env):
        rule = getattr(it, 'loop_rule', None)
        if rule is None and isinstance(it, Obj) and it.cls.lookup('__looprule__') is not ABSENT:
            r = it.cls.lookup('__looprule__')
            rule = lambda *a: r(it, *a)
        if rule is not None:
            r = rule(self, target, body, orelse, env)
            if r is not NotImplemented:
                return
        items = self.iterate(it)
        i = 0
        broke = False
        live = isinstance(it, list)
        seq = it if live else items
        while i < len(seq):
            x = seq[i]
            i += 1
            if i > 4 * self.unroll:
                raise Unsupported('loop too long')
            if isinstance(x, Prior):
                raise LoopCarried('iteration over a list under construction')
            if isinstance(x, Lines):
                x = lines_gen(x)
            if isinstance(x, Gen):
                from . import loops
                r = loops.summarize(self, x, target, body, env, others=len(seq) > 1)
                if r == 'break':
                    broke = True
                    break
                continue
            self.assign(target, x, env)
            try:
                self.ex(body, env)
            except ContinueSig:
                continue
            except BreakSig:
                broke = True
                break
        if not broke:
            self.ex(orelse, env)

    def s_While(self, s, env):
        c = ctx()
        if c is not None and c.ghost is not None and c.mode == 'U' and not getattr(c.ghost, 'no_while_rule', False):
            from . import loops
            loops.while_rule(self, s, env)
            return
        n = 0
        limit = getattr(c.ghost, 'while_limit', self.unroll) if c is not None and c.ghost is not None else self.unroll
        while True:
            if not self.test(self.ev(s.test, env)):
                self.ex(s.orelse, env)
                return
            n += 1
            if n > limit:
                if c.ghost is not None and getattr(c.ghost, 'while_cut', False):
                    raise core.PathEnd()
                raise Unsupported('while loop exceeds %d iterations' % limit)
            try:
                self.ex(s.body, env)
            except ContinueSig:
                continue
            except BreakSig:
                return

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """A native list of the elements (may contain Gen)."""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, DictView):
            return v.items_()
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SStr):
            raise Unsupported('iteration over a symbolic text')
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(v, Obj):
            m = v.cls.lookup('__iter__')
            if m is not ABSENT:
                return self.iterate(self.call(m, (v,)))
            m = v.cls.lookup('__elements__')
            if m is not ABSENT:
                return m(self, v)
            if v.cls.native:
                raise Unsupported('iteration over %r' % v)
            throw('TypeError', 'not iterable')
        if v is None or isinstance(v, (bool, int, SInt, SBool)):
            throw('TypeError', 'object is not iterable')
        if isinstance(v, range):
            return list(v)
        if hasattr(v, 'elements_'):
            return v.elements_(self)
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.ev_list(e.elts, env))

    def e_List(self, e, env):
        return self.ev_list(e.elts, env)

    def e_Set(self, e, env):
        s = set()
        for x in self.ev_list(e.elts, env):
            set_add(self, s, x)
        return s

    def ev_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.ev(v, env).items():
                    self.setitem(d, kk, vv)
            else:
                self.setitem(d, self.ev(k, env), self.ev(v, env))
        return d

    def e_IfExp(self, e, env):
        if self.test(self.ev(e.test, env)):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t.z))
        if isinstance(v, Obj):
            n = {ast.Invert: '__invert__', ast.USub: '__neg__'}.get(type(e.op))
            m = v.cls.lookup(n) if n else ABSENT
            if m is not ABSENT:
                return self.call(m, (v,))
            raise Unsupported('unary operator on %r' % v)
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else SInt(-zint(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        return self.binop(e.op, a, self.ev(e.right, env))

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Poison):
                raise LoopCarried(v.why)
            if isinstance(v, Unknown):
                raise Unsupported('operator on %s' % v.name)
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = BINOPS.get(type(op))
            if n:
                if isinstance(a, Obj):
                    m = a.cls.lookup('__%s__' % n)
                    if m is not ABSENT:
                        return self.call(m, (a, b))
                if isinstance(b, Obj):
                    m = b.cls.lookup('__r%s__' % n)
                    if m is not ABSENT:
                        return self.call(m, (b, a))
            if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
                return self.fmt(a, b)
            if (isinstance(a, Obj) and a.cls.native) or (isinstance(b, Obj) and b.cls.native):
                raise Unsupported('operator on %r, %r' % (a, b))
            throw('TypeError', 'unsupported operand')
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return self.fmt(a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return mkstr([a, b])
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, list, tuple)) and isinstance(y, int):
                    return x * y
                if isinstance(x, SStr) and isinstance(y, int):
                    return mkstr([x] * y)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            if isinstance(op, ast.BitOr):
                r = set(a)
                for x in b:
                    set_add(self, r, x)
                return r
            if isinstance(op, (ast.Sub, ast.BitAnd)):
                core.raise_if_open(a, b)
                want = isinstance(op, ast.BitAnd)
                return set(x for x in a if ctx_branch(self.contains(x, b)) == want)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                        ast.Div: lambda: a / b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b,
                        ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]()
            except ZeroDivisionError:
                throw('ZeroDivisionError')
            except KeyError:
                raise Unsupported('operator')
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            x, y = zint(a), zint(b)
            if isinstance(op, ast.Add):
                return SInt(x + y)
            if isinstance(op, ast.Sub):
                return SInt(x - y)
            if isinstance(op, ast.Mult):
                return SInt(x * y)
            if isinstance(b, int) and not isinstance(b, bool):
                # for positive divisors z3 and Python agree
                if isinstance(op, ast.Mod) and b > 0:
                    return SInt(x % y)
                if isinstance(op, ast.FloorDiv) and b > 0:
                    return SInt(x / y)
                if isinstance(op, ast.BitAnd) and b >= 0 and b & (b + 1) == 0:
                    return SInt(x % (b + 1))
                if isinstance(op, ast.RShift) and b >= 0:
                    return SInt(x / (1 << b))
                if isinstance(op, ast.LShift) and b >= 0:
                    return SInt(x * (1 << b))
            raise Unsupported('symbolic arithmetic')
        simple = (str, SStr, int, float, SInt, list, tuple, dict, set, type(None))
        if isinstance(a, simple) and isinstance(b, simple):
            throw('TypeError', 'unsupported operand types %s and %s' % (typename(a), typename(b)))
        if hasattr(a, 'binop_'):
            return a.binop_(self, op, b)
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if t is False:
                return False
            out = t if out is None or out is True else (out if t is True else SBool(z3.And(zbool(out), zbool(t))))
            left = right
        return out

    def compare(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Poison):
                raise LoopCarried(v.why)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else neg(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            return r if isinstance(op, ast.Eq) else neg(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else neg(r)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or \
                isinstance(a, str) and isinstance(b, str) or \
                (isinstance(a, tuple) and isinstance(b, tuple) and not has_sym(a) and not has_sym(b)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            x, y = zint(a), zint(b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        raise Unsupported('comparison of %r and %r' % (a, b))

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if hasattr(type(x), 'is_none_') and y is None:
                return x.is_none_()
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Unsupported('identity of unknown')
        if a is b:
            return True
        if isinstance(a, Cls) and isinstance(b, Cls):
            return core.model_eq(a, b)
        if isinstance(a, (SBool, SInt)) or isinstance(b, (SBool, SInt)):
            if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
                return sym_eq(a, b)
            if a is None or b is None:
                return False
            raise Unsupported('identity of numbers')
        if isinstance(a, str) and isinstance(b, str) or type(a) is int and type(b) is int:
            return a == b
        return False

    def e_Call(self, e, env):
        # locals() and super() need the environment
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'super', 'vars', 'globals') and \
                e.func.id not in env.vars:
            if e.func.id in ('locals', 'vars') and not e.args:
                return dict((k, v) for k, v in env.vars.items() if not k.startswith('$'))
            if e.func.id == 'globals':
                return env.module.vars
            if e.func.id == 'super':
                return self.make_super([self.ev(a, env) for a in e.args], env)
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Obj):
                    raise Unsupported('** of %r' % v)
                for kk in v:
                    if isinstance(kk, (Gen, Prior)):
                        raise Unsupported('** of a dictionary of unknown size')
                    kwargs[kk] = v[kk]
            else:
                kwargs[k.arg] = v
        if any(not isinstance(k, str) for k in kwargs):
            # symbolic keyword names can only be collected by **kw
            return self.call_symkw(f, args, kwargs)
        return self.call(f, args, kwargs)

    def call_symkw(self, f, args, kwargs):
        target = f
        if isinstance(f, Cls):
            target = f.lookup('__init__')
        if isinstance(target, Bound):
            target = target.func
        if isinstance(target, Func) and target.node.args.kwarg is not None:
            real = dict((k, v) for k, v in kwargs.items() if isinstance(k, str))
            sym = dict((k, v) for k, v in kwargs.items() if not isinstance(k, str))
            self._symkw = sym
            return self._call_symkw(f, args, real, sym)
        if isinstance(target, NativeFn) and getattr(target.fn, 'symkw', False):
            real = dict((k, v) for k, v in kwargs.items() if isinstance(k, str))
            sym = dict((k, v) for k, v in kwargs.items() if not isinstance(k, str))
            if isinstance(f, Bound):
                args = [f.self_] + list(args)
            return target.fn(*args, symkw_=sym, **real)
        raise Unsupported('symbolic keyword argument')

    def _call_symkw(self, f, args, real, sym):
        old = self.bind
        interp = self

        def bind(fn, a, k):
            interp.bind = old
            v = old(fn, a, k)
            v[fn.node.args.kwarg.arg].update(sym)
            return v
        if isinstance(f, Cls):
            obj = Obj(f)
            init = f.lookup('__init__')
            self.bind = bind
            try:
                self.call(init, (obj,) + tuple(args), real)
            finally:
                self.__dict__.pop('bind', None)
            return obj
        self.bind = bind
        try:
            return self.call(f, args, real)
        finally:
            self.__dict__.pop('bind', None)

    def make_super(self, args, env):
        if args:
            if not isinstance(args[0], Cls):
                raise Unsupported('super(%r)' % (args[0],))
            return SuperProxy(args[0], args[1])
        e = env
        while e is not None and not (e.kind == 'function' and e.func is not None and e.func.owner is not None):
            e = e.parent
        if e is None:
            raise Unsupported('super() outside a method')
        return SuperProxy(e.func.owner, e.vars[e.func.node.args.args[0].arg])

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def getitem(self, o, k):
        if isinstance(o, dict):
            found = self.dict_find(o, k)
            if found is None:
                throw('KeyError', k)
            return o[found[0]]
        if isinstance(o, (list, tuple)):
            if any(isinstance(x, (Gen, Prior, Lines)) for x in o):
                return gen_index(self, o, k)
            if isinstance(k, slice) or isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    throw('IndexError', 'list index out of range')
                except TypeError:
                    raise Unsupported('slice')
            raise Unsupported('symbolic index')
        if isinstance(o, str) and (isinstance(k, int) or isinstance(k, slice)):
            try:
                return o[k]
            except IndexError:
                throw('IndexError', 'string index out of range')
        if isinstance(o, SStr):
            return str_slice(o, k)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not ABSENT:
                return self.call(m, (o, k))
            if o.cls.native:
                raise Unsupported('index of %r' % o)
            throw('TypeError', 'not subscriptable')
        if isinstance(o, DictView):
            throw('TypeError', "'%s' object is not subscriptable" % o.kind)
        if o is None or isinstance(o, (int, SInt)):
            throw('TypeError', 'not subscriptable')
        if hasattr(o, 'getitem_'):
            return o.getitem_(self, k)
        raise Unsupported('index of %r' % (o,))

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                if p.format_spec is not None:
                    raise Unsupported('format specification')
                v = self.ev(p.value, env)
                out.append(self.repr(v) if p.conversion == 114 else self.str(v))
        return mkstr(out)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.ev(e.elt, en))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        s = set()
        for x in self.comp(e.generators, env, lambda en: self.ev(e.elt, en)):
            set_add(self, s, x)
        return s

    def e_DictComp(self, e, env):
        d = {}
        for kv in self.comp(e.generators, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en))):
            if isinstance(kv, Gen):
                d[Gen(kv.base, [(c, [i[0] for i in items]) for c, items in kv.alts])] = \
                    Gen(kv.base, [(c, [i[1] for i in items]) for c, items in kv.alts])
                continue
            self.setitem(d, kv[0], kv[1])
        return d

    def comp(self, gens, env, elt):
        """Comprehension: a list of results (with Gen for unbounded parts)."""
        cenv = Env({}, env, env.module, kind='function')
        from . import loops

        def level(i):
            if i == len(gens):
                return [elt(cenv)]
            g = gens[i]
            it = self.ev(g.iter, cenv if i else env)
            out = []
            for x in self.iterate(it):
                if isinstance(x, Prior):
                    raise LoopCarried('comprehension over a list under construction')
                if isinstance(x, Lines):
                    x = lines_gen(x)

                def body(x=x):
                    self.assign(g.target, x, cenv)
                    for cond in g.ifs:
                        if not self.test(self.ev(cond, cenv)):
                            return []
                    return level(i + 1)
                if isinstance(x, Gen):
                    def gbody(x, body=body):
                        self.assign(g.target, x, cenv)
                        for cond in g.ifs:
                            if not self.test(self.ev(cond, cenv)):
                                return []
                        return level(i + 1)
                    out.extend(loops.map_gen(self, x, gbody))
                else:
                    out.extend(body())
            return out
        return level(0)

    def e_Yield(self, e, env):
        en = env
        while not hasattr(en, 'yields'):
            en = en.parent
        ctx_touch(en.yields)
        en.yields.append(self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        en = env
        while not hasattr(en, 'yields'):
            en = en.parent
        ctx_touch(en.yields)
        en.yields.extend(self.iterate(self.ev(e.value, env)))
        return None

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    # ------------------------------------------------------------------ text
    def str(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, SInt):
            c = ctx()
            k = ('intstr', v.z.sexpr())
            if k not in c.memo:
                c.memo[k] = SStr((Atom('int(%s)' % v.z, 'digits', meta=v),))
            return c.memo[k]
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(v, Unknown):
            raise Unsupported('text of %s' % v.name)
        if isinstance(v, Obj):
            m = v.cls.lookup('__str__')
            if m is not ABSENT:
                return self.call(m, (v,))
            m = v.cls.lookup('__repr__')
            if m is not ABSENT:
                return self.call(m, (v,))
            if v.cls.issub(EXC['BaseException']):
                return opaque_text(('exc', id(v)), v)
        if hasattr(type(v), 'str_'):
            return v.str_(self)
        return self.repr(v)

    def repr(self, v):
        if isinstance(v, Obj):
            m = v.cls.lookup('__repr__')
            if m is not ABSENT:
                return self.call(m, (v,))
        if isinstance(v, Cls):
            return SStr((Atom('repr(%s)' % v.name, 'modelrepr', meta=v),))
        if isinstance(v, str) or v is None or isinstance(v, (bool, int, float)):
            return repr(v)
        if isinstance(v, (list, tuple, dict, set)) and not has_sym(v):
            return opaque_text(('repr', id(v)), v)
        return opaque_text(('repr', id(v)), v)

    def fmt(self, f, arg):
        """Python's % operator on texts."""
        out = []
        if isinstance(arg, tuple):
            pos = list(arg)
            mapping = None
        elif isinstance(arg, dict):
            pos = [arg]
            mapping = arg
        else:
            pos = [arg]
            mapping = None
        if any(isinstance(p, (Gen, Prior)) for p in pos):
            raise Unsupported('%-formatting with a tuple of unknown length')
        used_map = False
        for seg in segs_of(f):
            if not isinstance(seg, str):
                if isinstance(seg, Atom) and seg.kind in ('ident', 'digits'):
                    out.append(seg)
                    continue
                raise Unsupported('%-formatting of an unknown text')
            i = 0
            while True:
                j = seg.find('%', i)
                if j < 0:
                    out.append(seg[i:])
                    break
                out.append(seg[i:j])
                m = re.compile(r'%(\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([sdrifx%])').match(seg, j)
                if not m:
                    throw('ValueError', 'unsupported format character')
                i = m.end()
                conv = m.group(4)
                if conv == '%':
                    out.append('%')
                    continue
                if m.group(2) is not None:
                    if mapping is None:
                        throw('TypeError', 'format requires a mapping')
                    used_map = True
                    if m.group(2) not in mapping:
                        throw('KeyError', m.group(2))
                    v = mapping[m.group(2)]
                else:
                    if not pos:
                        throw('TypeError', 'not enough arguments for format string')
                    v = pos.pop(0)
                if m.group(3) and has_sym(v):
                    raise Unsupported('format flags on a symbolic value')
                if m.group(3):
                    out.append(('%' + m.group(3) + conv) % v)
                elif conv == 's':
                    out.append(self.str(v))
                elif conv == 'r':
                    out.append(self.repr(v))
                elif conv in 'di':
                    if isinstance(v, (str, SStr)) or v is None:
                        throw('TypeError', '%d format: a number is required')
                    out.append(self.str(v))
                else:
                    out.append(('%' + conv) % v)
        if pos and mapping is None and not used_map:
            throw('TypeError', 'not all arguments converted during string formatting')
        return mkstr(out)

    # ------------------------------------------------------------------ isinstance
    def isinstance(self, v, t):
        if isinstance(t, tuple):
            out = []
            for x in t:
                r = self.isinstance(v, x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r.z)
            return SBool(z3.Or(out)) if out else False
        if isinstance(t, Unknown):
            raise Unsupported('isinstance(.., %s)' % t.name)
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(t, BuiltinType):
            if t.name == 'object':
                return True
            if isinstance(v, SStr):
                return t.name in ('str', 'basestring')
            if isinstance(v, SInt):
                return t.name == 'int'
            if isinstance(v, SBool):
                return t.name in ('bool', 'int')
            if isinstance(v, Obj) and v.isin is not None:
                return v.isin(t)
            if hasattr(v, 'isinstance_'):
                return v.isinstance_(t)
            if isinstance(v, Cls):
                return t.name == 'type'
            if isinstance(v, DictView):
                return False
            return isinstance(v, t.pytypes)
        if isinstance(t, Cls):
            if isinstance(v, Obj):
                if v.cls.issub(t):
                    return True
                if v.isin is not None:
                    return v.isin(t)
                return False
            if hasattr(v, 'isinstance_'):
                return v.isinstance_(t)
            if t is OBJECT:
                return True
            return False
        raise Unsupported('isinstance(.., %r)' % (t,))

    # ------------------------------------------------------------------ builtins
    def _install_builtins(self):
        B = self.builtins
        I = self

        def b_len(v):
            if isinstance(v, (list, tuple, set, frozenset, dict, DictView)):
                if isinstance(v, DictView):
                    v = v.items_()
                if any(isinstance(x, Prior) for x in v):
                    raise LoopCarried('len of a container under construction')
                gens = [x for x in v if isinstance(x, Gen)]
                if not gens:
                    if any(isinstance(x, Lines) for x in v):
                        raise Unsupported('number of lines')
                    return len(v)
                n = z3.IntVal(len(v) - len(gens))
                for g in gens:
                    n = n + core.gen_len(g).z
                return SInt(n)
            if isinstance(v, str):
                return len(v)
            if isinstance(v, SStr):
                return str_len(v)
            if isinstance(v, Obj):
                m = v.cls.lookup('__len__')
                if m is not ABSENT:
                    return I.call(m, (v,))
                raise Unsupported('len of %r' % v)
            if v is None or isinstance(v, int):
                throw('TypeError', 'object has no len()')
            raise Unsupported('len of %r' % (v,))

        def b_int(v=0, base=10):
            if isinstance(v, (int, float)):
                return int(v)
            if isinstance(v, str):
                try:
                    return int(v, base)
                except ValueError:
                    throw('ValueError', 'invalid literal for int()')
            if isinstance(v, (SInt, SBool)):
                return SInt(zint(v))
            if hasattr(v, 'int_'):
                return v.int_(I)
            if isinstance(v, SStr):
                segs = [x for x in v.segs if not (isinstance(x, str) and x.isspace())] if v.segs[0] is not v.segs[-1] else v.segs
                if len(segs) == 1 and isinstance(segs[0], Atom) and (len(v.segs) == 1 or segs[0].kind == 'digits'):
                    a = segs[0]
                    if a.kind == 'digits':
                        return SInt(z3.Int('int_' + a.name))
                    if a.kind == 'text':
                        c = ctx()
                        key = ('isint', id(a))
                        if key not in c.memo:
                            c.memo[key] = z3.Bool(c.fresh('isint_' + a.name))
                        if c.branch(SBool(c.memo[key])):
                            return SInt(z3.Int('int_' + a.name))
                        throw('ValueError', 'invalid literal for int()')
                raise Unsupported('int of a symbolic text')
            if v is None:
                throw('TypeError', 'int() argument must be a string')
            raise Unsupported('int of %r' % (v,))

        def b_any(v):
            return quantify(I, v, False)

        def b_all(v):
            return quantify(I, v, True)

        def b_sum(v, start=0):
            out = start
            for x in I.iterate(v):
                if isinstance(x, (Gen, Prior)):
                    raise Unsupported('sum over an unbounded run')
                out = I.binop(ast.Add(), out, x)
            return out

        def b_enumerate(v, start=0):
            out = []
            c = ctx()
            seen_gen = False
            for i, x in enumerate(I.iterate(v)):
                if isinstance(x, Gen):
                    seen_gen = True
                    out.append(Gen(x.base, [(cc, [(SInt(z3.Int(c.fresh('idx'))), y) for y in items])
                                            for cc, items in x.alts], x.distinct))
                elif seen_gen:
                    out.append((SInt(z3.Int(c.fresh('idx'))), x))
                else:
                    out.append((start + i, x))
            return out

        def b_zip(*ls):
            ls = [I.iterate(l) for l in ls]
            if any(isinstance(x, (Gen, Prior)) for l in ls for x in l):
                return zip_gen(I, ls)
            return [tuple(t) for t in zip(*ls)]

        def b_sorted(v, key=None, reverse=False):
            l = I.iterate(v)
            if len(l) <= 1 or has_sym(l) or key is not None or any(isinstance(x, (Obj, Cls)) for x in l):
                if key is not None:
                    for x in l:
                        if not isinstance(x, Gen):
                            I.call(key, (x,))
                ctx().notes.add('order of sorted() left open')
                return list(l)
            return sorted(l, reverse=bool(reverse))

        def b_filter(f, v):
            from . import loops
            out = []
            for x in I.iterate(v):
                def keep(y):
                    return [y] if I.test(y if f is None else I.call(f, (y,))) else []
                if isinstance(x, Gen):
                    out.extend(loops.map_gen(I, x, keep))
                else:
                    out.extend(keep(x))
            return out

        def b_map(f, *vs):
            from . import loops
            out = []
            if len(vs) == 1:
                for x in I.iterate(vs[0]):
                    if isinstance(x, Gen):
                        out.extend(loops.map_gen(I, x, lambda y: [I.call(f, (y,))]))
                    else:
                        out.append(I.call(f, (x,)))
                return out
            for t in b_zip(*vs):
                if isinstance(t, Gen):
                    out.extend(loops.map_gen(I, t, lambda y: [I.call(f, y)]))
                else:
                    out.append(I.call(f, t))
            return out

        def b_getattr(o, name, *default):
            if isinstance(name, SStr):
                if hasattr(o, 'symgetattr_'):
                    return o.symgetattr_(I, name)
                if isinstance(o, (Obj, Cls)) and o_ns(o, '__symgetattr__') is not None:
                    return o_ns(o, '__symgetattr__')(I, o, name, *default)
                raise Unsupported('getattr with a symbolic name on %r' % (o,))
            if not isinstance(name, str):
                throw('TypeError', 'attribute name must be string')
            return I.getattr(o, name, *default)

        def b_hasattr(o, name):
            if isinstance(name, SStr):
                if isinstance(o, (Obj, Cls)) and o_ns(o, '__symhasattr__') is not None:
                    return o_ns(o, '__symhasattr__')(I, o, name)
                raise Unsupported('hasattr with a symbolic name')
            return I.hasattr(o, name)

        def b_setattr(o, name, v):
            if isinstance(name, SStr):
                if isinstance(o, (Obj, Cls)) and o_ns(o, '__symsetattr__') is not None:
                    return o_ns(o, '__symsetattr__')(I, o, name, v)
                raise Unsupported('setattr with a symbolic name')
            I.setattr(o, name, v)

        def b_import(name, g=None, l=None, fromlist=(), level=0):
            if not isinstance(name, str):
                raise Unsupported('__import__ of a symbolic name')
            top, leaf = I.import_name(name)
            return leaf if fromlist else top

        def b_list(v=()):
            if isinstance(v, Obj) and v.cls.lookup('__aslist__') is not ABSENT:
                return v.cls.lookup('__aslist__')(I, v)
            return I.iterate(v)

        def b_tuple(v=()):
            return tuple(I.iterate(v))

        def b_set(v=()):
            s = set()
            for x in I.iterate(v):
                set_add(I, s, x)
            return s

        def b_dict(*a, **k):
            d = {}
            if a:
                if isinstance(a[0], dict):
                    d.update(a[0])
                else:
                    for kv in I.iterate(a[0]):
                        if isinstance(kv, (Gen, Prior)):
                            raise Unsupported('dict of an unbounded run')
                        k2, v2 = I.iterate(kv)
                        I.setitem(d, k2, v2)
            d.update(k)
            return d

        def b_range(*a):
            if any(not isinstance(x, int) for x in a):
                raise Unsupported('range with a symbolic bound')
            return list(range(*a))

        def b_type(*a):
            if len(a) == 1:
                v = a[0]
                if isinstance(v, Obj):
                    return v.cls
                if v is None:
                    return NONETYPE
                n = typename(v)
                if n in BTYPES:
                    return B[n]
                raise Unsupported('type(%r)' % (v,))
            name, bases, ns = a
            return Cls(name, [OBJECT if isinstance(b, BuiltinType) else b for b in bases] or [OBJECT], dict(ns))

        def b_vars(*a):
            if len(a) != 1 or not isinstance(a[0], (Obj, Cls)):
                raise Unsupported('vars()')
            return I.getattr(a[0], '__dict__')

        def b_isinstance(v, t):
            return I.isinstance(v, t)

        def b_issubclass(c, t):
            if isinstance(t, tuple):
                return any(b_issubclass(c, x) for x in t)
            if isinstance(c, Cls) and isinstance(t, Cls):
                return c.issub(t)
            raise Unsupported('issubclass')

        def b_next(it, *d):
            if isinstance(it, list):
                if any(isinstance(x, (Gen, Prior)) for x in it):
                    if not I.test(it):
                        if d:
                            return d[0]
                        throw('StopIteration')
                    return gen_index(I, it, 0)
                if not it:
                    if d:
                        return d[0]
                    throw('StopIteration')
                ctx_touch(it)
                return it.pop(0)
            if isinstance(it, Obj) and it.cls.lookup('__next__') is not ABSENT:
                try:
                    return I.call(it.cls.lookup('__next__'), (it,))
                except PyExc as e:
                    if d and e.obj.cls.issub(EXC['StopIteration']):
                        return d[0]
                    raise
            raise Unsupported('next of %r' % (it,))

        def b_print(*a, **k):
            for x in a:
                I.str(x) if not isinstance(x, (tuple, list, Obj)) else None
            return None

        def b_min(*a):
            l = I.iterate(a[0]) if len(a) == 1 else list(a)
            if any(not isinstance(x, (int, float)) for x in l):
                if not l or any(not isinstance(x, (int, SInt)) for x in l):
                    raise Unsupported('min of symbolic values')
                z = zint(l[0])
                for x in l[1:]:
                    z = z3.If(z <= zint(x), z, zint(x))
                return SInt(z)
            return min(l)

        def b_max(*a):
            l = I.iterate(a[0]) if len(a) == 1 else list(a)
            if any(not isinstance(x, (int, float)) for x in l):
                if not l or any(not isinstance(x, (int, SInt)) for x in l):
                    raise Unsupported('max of symbolic values')
                z = zint(l[0])
                for x in l[1:]:
                    z = z3.If(z >= zint(x), z, zint(x))
                return SInt(z)
            return max(l)

        def b_callable(f):
            return isinstance(f, (Func, NativeFn, Bound, Cls, BuiltinType))

        def b_id(v):
            return id(v)

        def b_property(fget=None, fset=None):
            return Prop(fget, fset)

        def b_reversed(v):
            return list(reversed(I.iterate(v)))

        def b_iter(v):
            return I.iterate(v)

        for n, f in list(locals().items()):
            if n.startswith('b_'):
                B[n[2:]] = NativeFn(f, n[2:])
        B['__import__'] = B.pop('import')
        BT = lambda name, types, fn: BuiltinType(name, types, fn)
        types = {
            'str': ((str,), lambda v='', *a: I.str(v)),
            'unicode': None,
            'int': ((int,), b_int),
            'bool': ((bool,), lambda v=False: I.truth(v)),
            'float': ((float,), None),
            'list': ((list,), b_list),
            'tuple': ((tuple,), b_tuple),
            'dict': ((dict,), b_dict),
            'set': ((set,), b_set),
            'frozenset': ((frozenset,), lambda v=(): frozenset(b_set(v))),
            'object': ((object,), lambda: Obj(OBJECT)),
            'bytes': ((bytes,), None),
            'type': ((Cls,), b_type),
        }
        for n, spec in types.items():
            if spec is None:
                continue
            if n not in BTYPES:
                BTYPES[n] = BT(n, spec[0], None)
            t = BT(n, spec[0], spec[1] or (lambda *a, **k: (_ for _ in ()).throw(Unsupported('type call'))))
            B[n] = t
        B['str'].name = 'str'
        B['staticmethod'] = NativeFn(StaticM)
        B['classmethod'] = NativeFn(ClassM)
        B['property'] = NativeFn(b_property)
        B['repr'] = NativeFn(lambda v: I.repr(v))
        B['NotImplemented'] = Unknown('NotImplemented')
        B['Ellipsis'] = Ellipsis
        B['abs'] = NativeFn(lambda v: abs(v) if isinstance(v, int) else SInt(z3.If(zint(v) >= 0, zint(v), -zint(v))))
        B['open'] = Unknown('builtin open')
        B['object'].fn = lambda: Obj(OBJECT)


NONETYPE = Cls('NoneType', [OBJECT], {}, native=True)
BTYPES = {}
BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.BitOr: 'or', ast.BitAnd: 'and', ast.Mod: 'mod', ast.Mult: 'mul'}


def o_ns(o, name):
    c = o.cls if isinstance(o, Obj) else o
    if isinstance(o, Obj) and name in o.attrs:
        return o.attrs[name]
    v = c.lookup(name)
    return None if v is ABSENT else v


def unknown_class(name):
    c = Cls(name, [OBJECT], {}, native=True)
    return c


def neg(r):
    return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))


def typename(v):
    if isinstance(v, Obj):
        return v.cls.name
    if isinstance(v, SStr):
        return 'str'
    if isinstance(v, SInt):
        return 'int'
    if isinstance(v, SBool):
        return 'bool'
    return type(v).__name__


def ctx_touch(c):
    x = ctx()
    if x is not None and hasattr(x, 'recorders'):
        x.touch(c)


def ctx_branch(t):
    if t is True or t is False:
        return t
    return ctx().branch(t)


def opaque_text(key, v):
    c = ctx()
    if c is None:
        return 'text'
    k = ('text',) + key
    if k not in c.memo:
        c.memo[k] = SStr((Atom(c.fresh('text'), 'text', meta=('text', v)),))
        c.memo[('keep',) + key] = v
    return c.memo[k]


def set_add(interp, s, x):
    if isinstance(x, (list, dict, set)):
        throw('TypeError', 'unhashable type')
    if isinstance(x, Gen):
        ctx_touch(s)
        s.add(x)
        return
    if not has_sym(x) and not any(has_sym(y) or isinstance(y, (Gen, Prior)) for y in s):
        ctx_touch(s)
        s.add(x)
        return
    for y in s:
        if isinstance(y, (Gen, Prior)):
            continue
        e = interp.eq(x, y)
        if e is True:
            return
        if e is not False and ctx_branch(e):
            return
    ctx_touch(s)
    s.add(x)


def prior_member(p, item):
    """Membership of item in what earlier iterations put into a set or list."""
    c = ctx()
    b = z3.Bool(c.fresh('seen'))
    c.memo.setdefault('seen', []).append((b, p, item))
    return b


def prior_lookup(interp, d, p, key):
    c = ctx()
    b = z3.Bool(c.fresh('seen'))
    c.memo.setdefault('seen', []).append((b, p, key))
    if c.branch(SBool(b)):
        # the entry made for an equal key by an earlier iteration
        v = p.entry(key) if hasattr(p, 'entry') else None
        if v is None:
            raise LoopCarried('reads a dictionary entry of an earlier iteration')
        ctx_touch(d)
        d[key] = v
        return (key,)
    return None


def gen_member(interp, g, item):
    """A fresh truth value for "item is among the run g"; true if it is the generic element."""
    c = ctx()
    mk = ('gmember', id(g), skey(item) if isinstance(item, (str, SStr)) else id(item))
    if mk in c.memo:
        return c.memo[mk]
    b = z3.Bool(c.fresh('member_%s' % g.base.name))
    c.memo[mk] = b
    c.memo[('keep',) + mk] = (g, item)
    c.axiom(z3.Implies(b, core.gen_nonempty(g).z))
    for conds, items in g.alts:
        for x in items:
            if isinstance(x, Gen):
                continue
            e = interp.eq(x, item)
            if e is False:
                continue
            cs = list(conds) + ([] if e is True else [e.z])
            c.axiom(z3.Implies(z3.And(cs) if cs else z3.BoolVal(True), b))
    c.memo.setdefault('member', []).append((b, g, item))
    return b


def exact_run(interp, g, n):
    raise Unsupported('unpacking a run of unknown length')


def quantify(interp, v, universal):
    out = []
    for x in interp.iterate(v):
        if isinstance(x, Prior):
            raise LoopCarried('quantification over a list under construction')
        if isinstance(x, Gen):
            from . import loops
            out.append(loops.quantify_gen(interp, x, universal))
            continue
        t = interp.truth(x)
        if t is (not universal):
            return t
        if t is not universal:
            out.append(t.z)
    if not out:
        return universal
    return SBool(z3.And(out) if universal else z3.Or(out))


def lines_gen(l):
    raise Unsupported('iteration over the lines of an unknown text')


def zip_gen(interp, ls):
    if all(len(l) == len(ls[0]) for l in ls):
        out = []
        for col in zip(*ls):
            if all(not isinstance(x, (Gen, Prior)) for x in col):
                out.append(tuple(col))
            elif all(isinstance(x, Gen) for x in col) and all(x.base is col[0].base for x in col) and \
                    all(len(x.alts) == 1 and len(x.alts[0][1]) == 1 for x in col) and \
                    all([str(c) for c in x.alts[0][0]] == [str(c) for c in col[0].alts[0][0]] for x in col):
                out.append(Gen(col[0].base, [(col[0].alts[0][0], [tuple(x.alts[0][1][0] for x in col)])]))
            else:
                raise Unsupported('zip of unbounded runs')
        return out
    raise Unsupported('zip of unbounded runs')


def gen_index(interp, l, k):
    """Indexing a list that contains runs of unknown length."""
    from . import loops
    if any(isinstance(x, Prior) for x in l):
        raise LoopCarried('index into a list under construction')
    if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
        return list(l)
    if isinstance(k, int) and k >= 0 and k < len(l) and not any(isinstance(x, (Gen, Lines)) for x in l[:k + 1]):
        return l[k]
    if isinstance(k, int) and k < 0 and -k <= len(l) and not any(isinstance(x, (Gen, Lines)) for x in l[k:]):
        return l[k]
    if k in (0, -1) and not isinstance(k, bool):
        seq = l if k == 0 else list(reversed(l))
        for x in seq:
            if not isinstance(x, Gen):
                return x
            if ctx_branch(core.gen_nonempty(x)):
                return loops.pick(interp, x)
        throw('IndexError', 'list index out of range')
    if isinstance(k, slice) and isinstance(k.start, int) and k.start > 0 and k.stop is None and k.step is None and \
            not any(isinstance(x, (Gen, Lines)) for x in l[:k.start]):
        return l[k.start:]
    raise Unsupported('index into a list of unknown length')


# -- texts --------------------------------------------------------------------

def str_len(s):
    n = 0
    zs = []
    for seg in s.segs:
        if isinstance(seg, str):
            n += len(seg)
        elif isinstance(seg, Atom):
            zs.append(atom_len(seg))
        else:
            raise Unsupported('length of an unbounded text')
    return SInt(z3.Sum([z3.IntVal(n)] + zs))


def atom_len(a):
    c = ctx()
    k = ('atomlen', id(a))
    if k not in c.memo:
        v = z3.Int(c.fresh('len_' + a.name))
        c.memo[k] = v
        c.memo[('keepatom', id(a))] = a
        c.axiom(v >= (1 if a.kind in ('ident', 'digits') else 0))
    return c.memo[k]


class SubText(object):
    """s[i:j] of a text of unknown length, as a segment."""
    def __init__(self, text, start, stop):
        self.text, self.start, self.stop = text, start, stop
        self.name = 'sub'
        self.kind = 'sub'

    @property
    def z(self):
        t = z3.StringVal(self.text) if isinstance(self.text, str) else self.text.z()
        return z3.SubString(t, self.start, self.stop - self.start)

    def __repr__(self):
        return 'Sub(%r,%s,%s)' % (self.text, self.start, self.stop)


def str_slice(s, k):
    if isinstance(k, slice) and k.step is None:
        start, stop = k.start, k.stop
        first = s.segs[0]
        last = s.segs[-1]
        if start in (None, 0) and stop is None:
            return s
        if isinstance(start, int) and start > 0 and stop is None and isinstance(first, str) and len(first) >= start:
            return mkstr((first[start:],) + s.segs[1:])
        if start in (None, 0) and isinstance(stop, int) and stop < 0 and isinstance(last, str) and len(last) >= -stop:
            return mkstr(s.segs[:-1] + (last[:stop],))
        if start in (None, 0) and isinstance(stop, int) and stop >= 0 and isinstance(first, str) and len(first) >= stop:
            return first[:stop]
        if start in (None, 0) and isinstance(stop, int) and stop >= 0:
            # prefix of unknown text: literal part, then a piece of what follows
            if isinstance(first, str):
                return mkstr([first, SStr((SubText(mkstr(s.segs[1:]), 0, stop - len(first)),))])
            return mkstr([SStr((SubText(s, 0, stop),))])
        if isinstance(start, int) and start < 0 and stop is None:
            if isinstance(last, str) and len(last) >= -start:
                return last[start:]
            n = z3.Length(s.z())
            if ctx().valid(n >= -start):
                return mkstr([SStr((SubText(s, n + start, n),))])
    if isinstance(k, int):
        if k == 0 and isinstance(s.segs[0], str):
            return s.segs[0][0]
        if k == -1 and isinstance(s.segs[-1], str):
            return s.segs[-1][-1]
    raise Unsupported('slice of a symbolic text')


def str_contains(item, c):
    if isinstance(item, str):
        if item == '':
            return True
        if isinstance(c, str):
            return item in c
        for seg in c.segs:
            if isinstance(seg, str) and item in seg:
                return True
        return text_pred('contains', c, item)
    return text_pred('contains', c, item)


def text_pred(op, s, arg):
    """Uninterpreted predicate on a text, memoised; constant-folded where the kinds of the pieces decide it."""
    c = ctx()
    if isinstance(s, SStr) and isinstance(arg, str):
        if all(isinstance(x, Atom) and x.kind in ('ident', 'digits') or isinstance(x, str) for x in s.segs):
            if op == 'contains' and all(ch in " \t\n.,;'\"`%()" for ch in arg):
                return False
    if op == 'contains' and isinstance(s, SStr) and isinstance(arg, str) and s.simple():
        return SBool(z3.Contains(s.z(), z3.StringVal(arg)))
    if op == 'endswith' and isinstance(s, SStr) and isinstance(arg, str) and s.simple():
        return SBool(z3.SuffixOf(z3.StringVal(arg), s.z()))
    if op == 'startswith' and isinstance(s, SStr) and isinstance(arg, str) and s.simple():
        return SBool(z3.PrefixOf(z3.StringVal(arg), s.z()))
    k = (op, skey(s), skey(arg))
    if k not in c.memo:
        c.memo[k] = z3.Bool(c.fresh(op))
        c.memo[('keep',) + k] = (s, arg)
    return SBool(c.memo[k])


def skey(s):
    return s if isinstance(s, str) else s.key() if isinstance(s, SStr) else id(s)


def str_endswith(s, suf):
    if isinstance(suf, tuple):
        out = [str_endswith(s, x) for x in suf]
        if any(o is True for o in out):
            return True
        zs = [o.z for o in out if o is not False]
        return SBool(z3.Or(zs)) if zs else False
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if isinstance(suf, str) and suf == '':
        return True
    if isinstance(suf, str):
        last = s.segs[-1]
        if isinstance(last, str):
            if len(last) >= len(suf):
                return last.endswith(suf)
            if not suf.endswith(last):
                return False
        if isinstance(last, Atom) and last.kind == 'filter' and suf[-1] in ';\n':
            return False
        if isinstance(last, Atom) and last.kind == 'ident' and suf[-1] in " \t\n.,;'\"`%()":
            return False
        if isinstance(last, Atom) and last.kind == 'digits' and not suf[-1].isdigit():
            return False
        if isinstance(last, JoinSeg):
            outs = []
            for p in last.parts:
                for it in (i for _, items in p.alts for i in items) if isinstance(p, Gen) else [p]:
                    outs.append(str_endswith(it, suf))
            if outs and all(o is True for o in outs):
                return True
            if outs and all(o is False for o in outs) and len(s.segs) > 1:
                return False
        if s.simple() and len(s.segs) == 1 and s.segs[0].kind in ('ident',):
            return SBool(z3.SuffixOf(z3.StringVal(suf), s.z()))
    return text_pred('endswith', s, suf)


def str_startswith(s, pre):
    if isinstance(pre, tuple):
        out = [str_startswith(s, x) for x in pre]
        if any(o is True for o in out):
            return True
        zs = [o.z for o in out if o is not False]
        return SBool(z3.Or(zs)) if zs else False
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if isinstance(pre, str) and isinstance(s, SStr):
        first = s.segs[0]
        if isinstance(first, str):
            if len(first) >= len(pre):
                return first.startswith(pre)
            if not pre.startswith(first):
                return False
        if s.simple():
            return SBool(z3.PrefixOf(z3.StringVal(pre), s.z()))
    return text_pred('startswith', s, pre)


def str_split(s, sep):
    if isinstance(s, str):
        return s.split(sep)
    if sep == '\n':
        out = [[]]
        for seg in s.segs:
            if isinstance(seg, str):
                parts = seg.split('\n')
                out[-1].append(parts[0])
                for p in parts[1:]:
                    out.append([p])
            else:
                out[-1].append(seg)
        res = []
        for line in out:
            v = mkstr(line)
            if isinstance(v, SStr) and any(not (isinstance(x, str) or isinstance(x, Atom) and x.kind in ('ident', 'digits', 'filter'))
                                           for x in v.segs):
                res.append(Lines(v))
            else:
                res.append(v)
        # a text of unknown content keeps its line structure to itself
        merged = []
        if any(isinstance(r, Lines) for r in res):
            return [Lines(s)]
        return res
    if sep == '.' and all(isinstance(x, (str, Atom)) for x in s.segs):
        out = [[]]
        for seg in s.segs:
            if isinstance(seg, str):
                parts = seg.split(sep)
                out[-1].append(parts[0])
                for p in parts[1:]:
                    out.append([p])
            elif seg.kind in ('ident', 'digits'):
                out[-1].append(seg)
            else:
                raise Unsupported('split of an unknown text')
        return [mkstr(x) for x in out]
    raise Unsupported('split of a symbolic text')


def str_join(interp, sep, items):
    items = interp.iterate(items)
    if any(isinstance(x, Prior) for x in items):
        raise LoopCarried('join of a list under construction')
    if not any(isinstance(x, (Gen, Lines)) for x in items):
        out = []
        for i, x in enumerate(items):
            if not isinstance(x, (str, SStr)):
                if isinstance(x, Poison):
                    raise LoopCarried(x.why)
                if isinstance(x, Unknown):
                    raise Unsupported('join of %r' % x)
                throw('TypeError', 'sequence item: expected str instance')
            if i:
                out.append(sep)
            out.append(x)
        return mkstr(out)
    if len(items) == 1 and isinstance(items[0], Lines) and isinstance(sep, str) and items[0].sep == '\n' and sep == '\n':
        return items[0].text
    return SStr((JoinSeg(sep, list(items)),))


def method_of(I, o, name):
    """Bound methods of built-in values."""
    def fn(f):
        return NativeFn(f, name)
    if isinstance(o, (str, SStr)):
        if name == 'join':
            return fn(lambda items: str_join(I, o, items))
        if name == 'format':
            return fn(lambda *a, **k: str_format(I, o, a, k))
        if isinstance(o, SStr):
            if name == 'endswith':
                return fn(lambda x: str_endswith(o, x))
            if name == 'startswith':
                return fn(lambda x: str_startswith(o, x))
            if name == 'split':
                return fn(lambda sep=None: str_split(o, sep))
            if name == 'splitlines':
                return fn(lambda: str_split(o, '\n'))
            if name in ('upper', 'lower', 'title', 'capitalize'):
                return fn(lambda: str_case(o, name))
            if name in ('strip', 'rstrip', 'lstrip'):
                return fn(lambda ch=None: str_strip(o, name, ch))
            if name == 'replace':
                return fn(lambda a, b, *n: str_replace(o, a, b))
            if name in ('rsplit', 'partition', 'rpartition', 'find', 'index', 'count', 'encode', 'isdigit'):
                return fn(lambda *a: (_ for _ in ()).throw(Unsupported('method %s of a symbolic text' % name)))
            return ABSENT
        if name == 'endswith':
            return fn(lambda x: str_endswith(o, x))
        if name == 'startswith':
            return fn(lambda x: str_startswith(o, x))
        if hasattr(o, name):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    if name == 'replace':
                        return str_replace(o, *a)
                    raise Unsupported('method %s with symbolic arguments' % name)
                try:
                    return getattr(o, name)(*a, **k)
                except ValueError as e:
                    throw('ValueError', str(e))
            return fn(g)
        return ABSENT
    if isinstance(o, list):
        return list_method(I, o, name, fn)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return list_method(I, list(o), name, fn)
        return ABSENT
    if isinstance(o, dict):
        return dict_method(I, o, name, fn)
    if isinstance(o, (set, frozenset)):
        return set_method(I, o, name, fn)
    if isinstance(o, (slice, range)):
        return getattr(o, name, ABSENT)
    if isinstance(o, DictView):
        return ABSENT
    if isinstance(o, bytes):
        return fn(getattr(o, name)) if hasattr(o, name) else ABSENT
    if hasattr(o, 'getattr_'):
        return o.getattr_(I, name)
    raise Unsupported('attribute %s of %r' % (name, o))


def list_method(I, o, name, fn):
    def append(x):
        ctx_touch(o)
        o.append(x)

    def extend(xs):
        xs = I.iterate(xs)
        ctx_touch(o)
        o.extend(xs)

    def insert(i, x):
        if any(isinstance(y, (Gen, Prior)) for y in o):
            if i == 0 and not any(isinstance(y, Prior) for y in o):
                ctx_touch(o)
                o.insert(0, x)
                return
            raise Unsupported('insert into a list of unknown length')
        ctx_touch(o)
        o.insert(i, x)

    def pop(i=-1):
        if any(isinstance(y, (Gen, Prior)) for y in o):
            raise Unsupported('pop from a list of unknown length')
        if not o:
            throw('IndexError', 'pop from empty list')
        ctx_touch(o)
        return o.pop(i)

    def remove(x):
        for y in list(o):
            if isinstance(y, (Gen, Prior)):
                raise Unsupported('remove from a list of unknown length')
            e = I.eq(x, y)
            if e is True or e is not False and ctx_branch(e):
                ctx_touch(o)
                for i, z in enumerate(o):
                    if z is y:
                        del o[i]
                        return
        throw('ValueError', 'list.remove(x): x not in list')

    def clear():
        ctx_touch(o)
        if any(isinstance(y, Prior) for y in o):
            raise LoopCarried('clears a list')
        del o[:]

    def copy():
        return list(o)

    def sort(key=None, reverse=False):
        if len(o) > 1:
            ctx().notes.add('order of sort() left open')

    def index(x):
        for i, y in enumerate(o):
            if isinstance(y, (Gen, Prior)):
                raise Unsupported('index in a list of unknown length')
            e = I.eq(x, y)
            if e is True or e is not False and ctx_branch(e):
                return i
        throw('ValueError', 'not in list')

    def reverse():
        ctx_touch(o)
        o.reverse()

    def count(x):
        n = z3.IntVal(0)
        for y in o:
            if isinstance(y, (Gen, Prior)):
                raise Unsupported('count in a list of unknown length')
            n = n + z3.If(zbool(I.eq(x, y)), 1, 0)
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else SInt(n)
    f = {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'remove': remove, 'clear': clear,
         'copy': copy, 'sort': sort, 'index': index, 'reverse': reverse, 'count': count}.get(name)
    if f is None:
        return ABSENT
    return fn(f)


class DictView(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def items_(self):
        out = []
        if getattr(self.d, 'partial', False):
            raise Unsupported('iteration over a dictionary known in part')
        for k, v in self.d.items():
            if isinstance(k, Prior):
                raise LoopCarried('iteration over a dictionary under construction')
            if isinstance(k, Gen):
                alts = []
                for i, (c, keys) in enumerate(k.alts):
                    vals = v.alts[i][1] if isinstance(v, Gen) else [v] * len(keys)
                    if self.kind == 'dict_keys':
                        alts.append((c, list(keys)))
                    elif self.kind == 'dict_values':
                        alts.append((c, list(vals)))
                    else:
                        alts.append((c, list(zip(keys, vals))))
                out.append(Gen(k.base, alts, k.distinct))
                continue
            out.append({'dict_keys': k, 'dict_values': v, 'dict_items': (k, v)}[self.kind])
        return out


def dict_method(I, o, name, fn):
    def get(k, d=None):
        found = I.dict_find(o, k)
        return d if found is None else o[found[0]]

    def setdefault(k, d=None):
        found = I.dict_find(o, k)
        if found is not None:
            return o[found[0]]
        ctx_touch(o)
        o[k] = d
        return d

    def pop(k, *d):
        found = I.dict_find(o, k)
        if found is None:
            if d:
                return d[0]
            throw('KeyError', k)
        ctx_touch(o)
        return o.pop(found[0])

    def update(*a, **k):
        for src in list(a) + ([k] if k else []):
            if isinstance(src, dict):
                for kk, vv in src.items():
                    I.setitem(o, kk, vv)
            else:
                for kv in I.iterate(src):
                    kk, vv = I.iterate(kv)
                    I.setitem(o, kk, vv)

    def clear():
        ctx_touch(o)
        o.clear()
    f = {'get': get, 'setdefault': setdefault, 'pop': pop, 'update': update, 'clear': clear,
         'keys': lambda: DictView(o, 'dict_keys'), 'values': lambda: DictView(o, 'dict_values'),
         'items': lambda: DictView(o, 'dict_items'), 'copy': lambda: dict(o),
         'iteritems': None, 'has_key': None}.get(name)
    if f is None:
        return ABSENT
    return fn(f)


def set_method(I, o, name, fn):
    def add(x):
        set_add(I, o, x)

    def update(*xs):
        for x in xs:
            for y in I.iterate(x):
                set_add(I, o, y)

    def discard(x):
        for y in list(o):
            e = I.eq(x, y)
            if e is True or e is not False and ctx_branch(e):
                ctx_touch(o)
                o.discard(y)
                return

    def union(*xs):
        r = set(o)
        for x in xs:
            for y in I.iterate(x):
                set_add(I, r, y)
        return r
    f = {'add': add, 'update': update, 'discard': discard, 'remove': discard, 'union': union,
         'copy': lambda: set(o), 'clear': None,
         'difference': lambda x: I.binop(ast.Sub(), o, set(I.iterate(x))),
         'intersection': lambda x: I.binop(ast.BitAnd(), o, set(I.iterate(x)))}.get(name)
    if f is None:
        return ABSENT
    return fn(f)


def str_case(s, how):
    out = []
    for seg in s.segs:
        if isinstance(seg, str):
            out.append(getattr(seg, how)())
        elif isinstance(seg, Atom) and seg.kind == 'digits':
            out.append(seg)
        elif isinstance(seg, Atom) and seg.kind == 'modelrepr':
            out.append(seg)
        elif isinstance(seg, Atom):
            c = ctx()
            k = ('case', how, id(seg))
            if k not in c.memo:
                c.memo[k] = Atom(c.fresh('%s_%s' % (how, seg.name)), seg.kind, meta=(how, seg))
            out.append(c.memo[k])
        else:
            raise Unsupported('%s of %r' % (how, s))
    return mkstr(out)


def str_strip(s, how, ch):
    segs = list(s.segs)
    if how in ('strip', 'lstrip') and isinstance(segs[0], str):
        segs[0] = segs[0].lstrip(ch)
        if not segs[0] and len(segs) > 1 and not (isinstance(segs[1], Atom) and segs[1].kind in ('ident', 'digits') and ch is None):
            raise Unsupported('strip')
    elif how in ('strip', 'lstrip') and not (isinstance(segs[0], Atom) and segs[0].kind in ('ident', 'digits') and
                                             (ch is None or all(x in " \t\n.,;'\"`%()" for x in ch))):
        raise Unsupported('strip of an unknown text')
    if how in ('strip', 'rstrip') and isinstance(segs[-1], str):
        segs[-1] = segs[-1].rstrip(ch)
        if not segs[-1] and len(segs) > 1 and not (isinstance(segs[-2], Atom) and segs[-2].kind in ('ident', 'digits')):
            raise Unsupported('strip')
    elif how in ('strip', 'rstrip') and not (isinstance(segs[-1], Atom) and segs[-1].kind in ('ident', 'digits') and
                                             (ch is None or all(x in " \t\n.,;'\"`%()" for x in ch))):
        raise Unsupported('strip of an unknown text')
    return mkstr(segs)


def str_replace(s, a, b):
    if isinstance(a, str) and a:
        out = []
        segs = segs_of(s)
        for i, seg in enumerate(segs):
            if isinstance(seg, str):
                if isinstance(b, str):
                    out.append(seg.replace(a, b))
                else:
                    parts = seg.split(a)
                    for j, p in enumerate(parts):
                        if j:
                            out.append(b)
                        out.append(p)
            elif isinstance(seg, Atom) and seg.kind in ('ident', 'digits') and any(ch in " \t\n.,;'\"`%()" for ch in a):
                out.append(seg)
            elif isinstance(seg, Atom) and seg.kind in ('ident',):
                raise Unsupported('replace inside an identifier')
            else:
                raise Unsupported('replace in an unknown text')
        return mkstr(out)
    raise Unsupported('replace of a symbolic text')


def str_format(I, f, args, kwargs):
    import string
    out = []
    n = 0
    for seg in segs_of(f):
        if not isinstance(seg, str):
            if isinstance(seg, Atom) and seg.kind in ('ident', 'digits'):
                out.append(seg)
                continue
            raise Unsupported('format of an unknown text')
        for lit, field, spec, conv in string.Formatter().parse(seg):
            out.append(lit)
            if field is None:
                continue
            if spec:
                raise Unsupported('format specification')
            m = re.match(r'^(\w*)((?:\.\w+)*)$', field)
            if not m:
                raise Unsupported('format field')
            key = m.group(1)
            if key == '':
                if n >= len(args):
                    throw('IndexError', 'tuple index out of range')
                v = args[n]
                n += 1
            elif key.isdigit():
                if int(key) >= len(args):
                    throw('IndexError', 'tuple index out of range')
                v = args[int(key)]
            else:
                if key not in kwargs:
                    throw('KeyError', key)
                v = kwargs[key]
            for a in [x for x in m.group(2).split('.') if x]:
                v = I.getattr(v, a)
            out.append(I.repr(v) if conv == 'r' else I.str(v))
    return mkstr(out)


# -- scopes -------------------------------------------------------------------

_scope_cache = {}


def scope_info(node):
    k = id(node)
    if k in _scope_cache and _scope_cache[k][0] is node:
        return _scope_cache[k][1]
    locals_, globs, nonl = set(), set(), set()
    gen = [False]

    def targets(t):
        if isinstance(t, ast.Name):
            locals_.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                locals_.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if not isinstance(c, ast.Lambda):
                    for x in ast.walk(c):
                        if isinstance(x, (ast.Yield, ast.YieldFrom)):
                            raise Unsupported('yield in a comprehension')
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(c, ast.Global):
                globs.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                targets(c.target)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        targets(i.optional_vars)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    locals_.add(a.asname or a.name.split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                locals_.add(c.name)
            walk(c)
    for s in node.body:
        wrapper = ast.Module(body=[s], type_ignores=[])
        walk(wrapper)
    info = (locals_ - globs - nonl, globs, nonl, gen[0])
    _scope_cache[k] = (node, info)
    return info
