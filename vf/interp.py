"""
Interpreter of Python source over the values of terms.py.

It executes the functions of the code under verification from their
abstract syntax trees, parsed afresh from the source files on every run.
Nothing is dropped except annotations, docstrings and the text of error
messages. A construct it does not know raises Unsupported.
"""
import ast
import builtins
import enum
import functools
import inspect
import operator
import struct
import types

import z3

from .terms import *
from .engine import (Engine, PyRaise, Infeasible, Failed, Abort, Flow, MISSING,
                     occurs, ufs, monomials)
from . import builtin_ops as ops


class Frame:
    __slots__ = ('vars', 'parent', 'globs', 'cells', 'fn', 'globals_decl', 'nonlocals', 'defcls', 'self_', 'yields')

    def __init__(self, globs, parent=None, fn=None):
        self.vars = D()
        self.parent = parent
        self.globs = globs
        self.cells = {}
        self.fn = fn
        self.globals_decl = set()
        self.nonlocals = set()
        self.defcls = parent.defcls if parent else None
        self.self_ = parent.self_ if parent else None
        self.yields = None


class IFunc:
    """A function defined by interpreted code"""
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame = node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = name


class Bound:
    """A method bound to an interpreted object"""
    __slots__ = ('fn', 'obj', 'cls')

    def __init__(self, fn, obj, cls=None):
        self.fn, self.obj, self.cls = fn, obj, cls


class BoundOp:
    """A method of a built-in type bound to a value"""
    __slots__ = ('name', 'obj')

    def __init__(self, name, obj):
        self.name, self.obj = name, obj


class Super:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Seq:
    """Something to iterate over: chunks of (count, element at index)"""
    def __init__(self, chunks):
        self.chunks = chunks


_trees = {}


def module_index(path):
    """(name, line) -> function node, for one source file"""
    if path not in _trees:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                name = getattr(n, 'name', '<lambda>')
                decs = getattr(n, 'decorator_list', [])
                line = decs[0].lineno if decs else n.lineno
                index[name, line] = n
        _trees[path] = index
    return _trees[path]


def node_of(fn):
    code = fn.__code__
    try:
        return module_index(code.co_filename)[code.co_name, code.co_firstlineno]
    except KeyError:
        raise Unsupported(f'no source for {fn!r}')


_assigned = {}


def has_yield(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    """Nodes of a function without those of nested functions"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Interp:
    def __init__(self, E, package=('ndspy',)):
        self.E = E
        self.package = package
        self.fork = False          # never join the branches of an if statement
        self.contracts = {}        # function -> handler(interp, args, kwargs)
        self.cuts = {}             # (function name, number of a loop in it) -> its invariant
        self.depth = 0
        E.interp = self

    # --------------------------------------------------------------- calls

    def call(self, fn, *args, **kwargs):
        return self.call_value(fn, list(args), kwargs)

    def call_value(self, fn, args, kwargs):
        E = self.E
        fn = self.res(fn)
        if isinstance(fn, Bound):
            return self.call_value_with_cls(fn.fn, [fn.obj] + args, kwargs, fn.cls)
        if isinstance(fn, BoundOp):
            return ops.method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, IFunc):
            h = self.contracts.get(fn.name)
            if h is not None:
                r = h(self, fn, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call_value_with_cls(fn.__func__, [fn.__self__] + args, kwargs, None)
        if isinstance(fn, types.FunctionType):
            return self.call_value_with_cls(fn, args, kwargs, None)
        if isinstance(fn, functools.partial):
            return self.call_value(fn.func, list(fn.args) + args, {**fn.keywords, **kwargs})
        h = self.contracts.get(fn) if isinstance(fn, types.BuiltinFunctionType) else None
        if h is not None:
            r = h(self, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        return ops.call_native(self, fn, args, kwargs)

    def call_value_with_cls(self, fn, args, kwargs, cls):
        if isinstance(fn, types.FunctionType):
            h = self.contracts.get(fn)
            if h is None:
                h = self.contracts.get(f'{fn.__module__}.{fn.__qualname__}')
            if h is not None:
                r = h(self, fn, args, kwargs)
                if r is not NotImplemented:
                    return r
            mod = fn.__module__ or ''
            if mod.split('.')[0] in self.package:
                return self.call_pyfunc(fn, args, kwargs, cls)
            return ops.call_native(self, fn, args, kwargs)
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs, cls)
        return ops.call_native(self, fn, args, kwargs)

    def call_pyfunc(self, fn, args, kwargs, cls=None):
        node = node_of(fn)
        key = f'{fn.__module__}.{fn.__qualname__}'
        self.E.touched[key] = self.E.touched.get(key, 0) + 1
        frame = Frame(fn.__globals__, None, fn)
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                if name == '__class__':
                    cls = cell.cell_contents
                else:
                    frame.cells[name] = cell
        frame.defcls = cls or self.class_of_function(fn, args)
        frame.self_ = args[0] if args else None
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        return self.run_function(node, frame, args, kwargs, defaults, kwd, key)

    def class_of_function(self, fn, args):
        if '.' not in fn.__qualname__ or not args:
            return None
        o = args[0]
        c = o.cls if isinstance(o, Obj) else o if isinstance(o, type) else None
        if c is None:
            return None
        for k in c.__mro__:
            for v in k.__dict__.values():
                f = getattr(v, '__func__', v)
                if f is fn or getattr(v, 'fget', None) is fn:
                    return k
        return None

    def call_ifunc(self, fn, args, kwargs, cls=None):
        self.E.touched[fn.name] = self.E.touched.get(fn.name, 0) + 1
        frame = Frame(fn.frame.globs, fn.frame, fn)
        if cls is not None:
            frame.defcls = cls
        return self.run_function(fn.node, frame, args, kwargs, fn.defaults, fn.kwdefaults, fn.name)

    def run_function(self, node, frame, args, kwargs, defaults, kwdefaults, name):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported(f'recursion in {name}')
        try:
            self.bind_args(node.args, frame, args, kwargs, defaults, kwdefaults, name)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            for n in walk_own(node):
                if isinstance(n, ast.Global):
                    frame.globals_decl.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    frame.nonlocals.update(n.names)
            gen = has_yield(node)
            if gen and frame.yields is None:
                frame.yields = MList()
            try:
                self.block(node.body, frame)
            except Flow as f:
                if f.kind != 'return':
                    raise
                return frame.yields if gen else f.value
            return frame.yields if gen else None
        finally:
            self.depth -= 1

    def bind_args(self, a, frame, args, kwargs, defaults, kwdefaults, name):
        E = self.E
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(params) - len(defaults)
        for i, p in enumerate(params):
            if args:
                v = args.pop(0)
                if p in kwargs:
                    raise PyRaise(TypeError, (f'multiple values for {p}',))
            elif p in kwargs:
                v = kwargs.pop(p)
            elif i >= nd:
                v = self.lift(defaults[i - nd])
            else:
                raise PyRaise(TypeError, (f'{name}() missing argument {p}',))
            E.set(frame.vars, p, v)
        if a.vararg:
            E.set(frame.vars, a.vararg.arg, tuple(args))
        elif args:
            raise PyRaise(TypeError, (f'{name}() takes fewer arguments',))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                v = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                v = self.lift(kwdefaults[p.arg])
            else:
                raise PyRaise(TypeError, (f'{name}() missing argument {p.arg}',))
            E.set(frame.vars, p.arg, v)
        if a.kwarg:
            E.set(frame.vars, a.kwarg.arg, MDict(kwargs))
        elif kwargs:
            raise PyRaise(TypeError, (f'{name}() unexpected argument {list(kwargs)}',))

    def construct(self, cls, args, kwargs):
        h = self.contracts.get(cls)
        if h is not None:
            return h(self, cls, args, kwargs)
        if cls.__module__.split('.')[0] not in self.package or issubclass(cls, (enum.Enum, tuple, BaseException)):
            return ops.construct_native(self, cls, args, kwargs)
        o = Obj(cls)
        init = self.find(cls, '__init__')
        if init is not None and init[0] is not object.__init__:
            self.call_value_with_cls(init[0], [o] + args, kwargs, init[1])
        elif args or kwargs:
            raise PyRaise(TypeError, ('no arguments expected',))
        return o

    def find(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None

    # ---------------------------------------------------------- attributes

    def lift(self, v):
        """Bring a concrete Python value into the interpreter"""
        return ops.lift(v)

    def res(self, v):
        """Decide which alternative a value is"""
        while True:
            if isinstance(v, Choice):
                v = v.a if self.E.decide(v.c) else v.b
            elif isinstance(v, Opt):
                v = None if self.E.decide(v.c) else v.v
            elif isinstance(v, Poison):
                v = self.unpoison(v)
            else:
                return v

    def unpoison(self, v):
        lazy = getattr(v, 'lazy', None)
        if lazy is None:
            raise Abort('poison', v.slot)
        return lazy()

    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, Obj):
            f = self.find(o.cls, name)
            if f is not None and isinstance(f[0], property):
                if f[0].fget is None:
                    raise PyRaise(AttributeError, (name,))
                return self.call_value_with_cls(f[0].fget, [o], {}, f[1])
            if name in o.d:
                return self.res(o.d[name])
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if f is None:
                g = self.find(o.cls, '__getattr__')
                if g is not None:
                    return self.call_value_with_cls(g[0], [o, name], {}, g[1])
                raise PyRaise(AttributeError, (f'{o.cls.__name__} has no attribute {name}',))
            return self.bind(f[0], o, o.cls, f[1])
        if isinstance(o, SEnum):
            f = self.find(o.cls, name)
            if f is not None and isinstance(f[0], types.FunctionType) and f[1].__module__.split('.')[0] in self.package:
                return self.bind(f[0], o, o.cls, f[1])
            if f is not None and name in o.cls.__members__:
                return o.cls[name]
        if isinstance(o, Super):
            obj = o.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            mro = cls.__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj if isinstance(obj, Obj) else None, cls, c)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, type):
            f = self.find(o, name)
            if f is not None and o.__module__.split('.')[0] in self.package and not issubclass(o, enum.Enum):
                return self.bind(f[0], None, o, f[1])
            return self.lift(getattr(o, name))
        if isinstance(o, types.ModuleType):
            ov = self.E.overlay.get(o.__name__)
            if ov is not None and name in ov:
                return self.res(ov[name])
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                raise PyRaise(AttributeError, (name,))
        return ops.getattr_(self, o, name)

    def bind(self, f, obj, cls, owner):
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return Bound(f.__func__, cls, owner)
        if isinstance(f, types.FunctionType):
            return Bound(f, obj, owner) if obj is not None else f
        if obj is not None and isinstance(f, (types.BuiltinFunctionType, types.WrapperDescriptorType,
                                              types.MethodDescriptorType)):
            return BoundOp(f.__name__, obj)
        return self.lift(f)

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Obj):
            f = self.find(o.cls, name)
            if f is not None and isinstance(f[0], property):
                if f[0].fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call_value_with_cls(f[0].fset, [o, v], {}, f[1])
                return
            self.E.set(o.d, name, v)
            return
        raise Unsupported(f'assignment to attribute {name} of {o!r}')

    # --------------------------------------------------------------- names

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars and name not in f.globals_decl:
                return self.res(f.vars[name])
            if name in f.cells:
                v = f.cells[name].cell_contents
                return self.lift(v)
            f = f.parent
        g = frame.globs
        ov = self.E.overlay.get(g.get('__name__'))
        if ov is not None and name in ov:
            return self.res(ov[name])
        if name in g:
            return self.lift(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def store_name(self, name, frame, v):
        E = self.E
        if name in frame.globals_decl:
            mod = frame.globs.get('__name__')
            if mod not in E.overlay:
                E.overlay[mod] = D()
            E.set(E.overlay[mod], name, v)
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None:
                if name in f.vars:
                    E.set(f.vars, name, v)
                    return
                f = f.parent
            raise Unsupported(f'nonlocal {name}')
        E.set(frame.vars, name, v)

    # ---------------------------------------------------------- statements

    def block(self, stmts, frame):
        for s in stmts:
            self.stmt(s, frame)

    def stmt(self, s, frame):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        try:
            m(s, frame)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                fn = frame.fn
                name = getattr(fn, '__qualname__', None) or getattr(fn, 'name', '?')
                e.where = f'{name}:{s.lineno}'
                e.args = (f'{e.args[0]} (in {e.where})',) + e.args[1:]
            raise

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Import(self, s, f):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, f, m)
            else:
                self.store_name(a.name.split('.')[0], f, importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, f):
        import importlib
        pkg = f.globs.get('__package__') or ''
        for a in s.names:
            m = importlib.import_module('.' * s.level + (s.module or ''), pkg) if s.module or not s.level \
                else importlib.import_module(pkg)
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + '.' + a.name)
            self.store_name(a.asname or a.name, f, v)

    def s_Global(self, s, f):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, f):
        defaults = [self.ev(d, f) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, f) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        outer = f.fn.name if isinstance(f.fn, IFunc) else f'{f.fn.__module__}.{f.fn.__qualname__}' if f.fn is not None else None
        self.store_name(s.name, f, IFunc(s, f, defaults, kwd, f'{outer}.{s.name}' if outer else s.name))

    def s_Return(self, s, f):
        raise Flow('return', self.ev(s.value, f) if s.value is not None else None)

    def s_Break(self, s, f):
        raise Flow('break')

    def s_Continue(self, s, f):
        raise Flow('continue')

    def s_Raise(self, s, f):
        if s.exc is None:
            raise getattr(self, 'handling', None) or PyRaise(RuntimeError, ('no active exception',))
        e = s.exc
        cls = None
        if isinstance(e, ast.Call):
            cls = self.ev(e.func, f)
        else:
            cls = self.ev(e, f)
        if isinstance(cls, PyRaise):
            raise cls
        if isinstance(cls, type) and issubclass(cls, BaseException):
            # the text of the message is not interpreted
            raise PyRaise(cls, ())
        raise Unsupported('raise of something else')

    def s_Assert(self, s, f):
        if not self.truth(self.ev(s.test, f)):
            raise PyRaise(AssertionError, ())

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.E.unset(f.vars, t.id)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self, self.ev(t.value, f), self.index(t.slice, f))
            elif isinstance(t, ast.Attribute):
                o = self.res(self.ev(t.value, f))
                if not isinstance(o, Obj) or self.find(o.cls, '__delattr__') and o.cls.__delattr__ is not object.__delattr__:
                    raise Unsupported('del')
                if t.attr not in o.d:
                    raise PyRaise(AttributeError, (t.attr,))
                self.E.unset(o.d, t.attr)
            else:
                raise Unsupported('del')

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), f)
            self.store_name(t.id, f, ops.inplace(self, type(s.op), old, self.ev(s.value, f)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, f)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, ops.inplace(self, type(s.op), old, self.ev(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            i = self.index(t.slice, f)
            old = self.res(ops.getitem(self, o, i))
            ops.setitem(self, o, i, ops.inplace(self, type(s.op), old, self.ev(s.value, f)))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store_name(t.id, f, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            ops.setitem(self, self.ev(t.value, f), self.index(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = ops.unpack_all(self, v)
                i = star[0]
                n = len(t.elts)
                if len(items) < n - 1:
                    raise PyRaise(ValueError, ())
                rest = len(items) - (n - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, f)
                self.assign(t.elts[i].value, MList([El(x) for x in items[i:i + rest]]), f)
                for e, x in zip(t.elts[i + 1:], items[i + rest:]):
                    self.assign(e, x, f)
                return
            items = ops.unpack_n(self, v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, f)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def s_If(self, s, f):
        c = self.ev(s.test, f)
        t = self.truth_term(c)
        if isinstance(t, bool):
            self.block(s.body if t else s.orelse, f)
            return
        if not self.fork and simple_branches(s) and self.merge_if(t, s, f):
            return
        if self.E.decide(t):
            self.block(s.body, f)
        else:
            self.block(s.orelse, f)

    def merge_if(self, t, s, f):
        """Execute both branches and join the integers they set"""
        E = self.E
        if E.valid(t):
            self.block(s.body, f)
            return True
        if E.valid(z3.Not(t)):
            self.block(s.orelse, f)
            return True
        since = serial()
        res = []
        for cond, body in ((t, s.body), (z3.Not(t), s.orelse)):
            mo, md = len(E.obligations), len(E.deferred)

            def branch():
                E.assume(cond, False)
                self.block(body, f)
            try:
                outs = E.explore(branch, since)
            except (Abort, Unsupported):
                del E.obligations[mo:]
                del E.deferred[md:]
                return False
            if len(E.deferred) > md or len(outs) != 1 or outs[0][1][0] != 'ok':
                del E.obligations[mo:]
                del E.deferred[md:]
                return False
            res.append(outs[0][2])
        keys = set(res[0]) | set(res[1])
        sets = []
        for k in keys:
            d, key, _ = (res[0].get(k) or res[1].get(k))
            old = d.get(key, False if d.isset else MISSING)
            a = res[0][k][2] if k in res[0] else old
            b = res[1][k][2] if k in res[1] else old
            m = join_values(t, a, b)
            if m is MISSING:
                return False
            sets.append((d, key, m))
        for d, key, m in sets:
            E.set(d, key, m)
        return True

    def s_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except PyRaise as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, f):
                        if h.name:
                            self.store_name(h.name, f, Opq('exception', ()))
                        saved = getattr(self, 'handling', None)
                        self.handling = e
                        try:
                            self.block(h.body, f)
                        finally:
                            self.handling = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, f)
        finally:
            if s.finalbody:
                self.block(s.finalbody, f)

    def handler_matches(self, h, e, f):
        if h.type is None:
            return True
        c = self.ev(h.type, f)
        cs = c if isinstance(c, tuple) else (c,)
        return any(issubclass(e.cls, x) for x in cs)

    def s_With(self, s, f):
        for item in s.items:
            v = self.ev(item.context_expr, f)
            if not isinstance(v, ops.File):
                raise Unsupported('with statement')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
        self.block(s.body, f)

    # -------------------------------------------------------------- truth

    def truth_term(self, v):
        """bool, or the z3 condition under which v is true"""
        v = self.res(v)
        if isinstance(v, (bool, int, str, bytes, type(None), float)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return z3.simplify(v.t != 0)
        if isinstance(v, (SBytes, MBytes, MList, SStr, STuple)):
            n = ropelen(v.segs)
            return n != 0 if isinstance(n, int) else n.t > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, MDict):
            n = ops.length(self, v)
            return n > 0 if isinstance(n, int) else n.t > 0
        if isinstance(v, MSet):
            return z3.Or([B(c) for c in v.d.values()]) if v.d else False
        if isinstance(v, Obj):
            for name in ('__bool__', '__len__'):
                m = self.find(v.cls, name)
                if m is not None:
                    return self.truth_term(self.call_value_with_cls(m[0], [v], {}, m[1]))
            return True
        if isinstance(v, (FStr, Opq)):
            raise Unsupported(f'truth of {v!r}')
        return True if not hasattr(v, '__len__') else bool(v)

    def truth(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.E.decide(t)

    # --------------------------------------------------------- expressions

    def ev(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return self.lookup(e.id, f)

    def e_Attribute(self, e, f):
        return self.getattr(self.ev(e.value, f), e.attr)

    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_Tuple(self, e, f):
        items = self.elements(e.elts, f)
        if isinstance(items, list):
            return tuple(items)
        return STuple(items)

    def e_List(self, e, f):
        items = self.elements(e.elts, f)
        if isinstance(items, list):
            return MList([El(x) for x in items])
        return MList(items)

    def elements(self, elts, f):
        """Python list of values, or a rope if a starred part is symbolic"""
        out = []
        symbolic = False
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, f)
                segs = ops.list_segs(self, v)
                if any(not isinstance(s, El) for s in segs):
                    symbolic = True
                out += list(segs)
            else:
                out.append(El(self.ev(x, f)))
        if symbolic:
            return tuple(out)
        return [s.v for s in out]

    def e_Set(self, e, f):
        return ops.make_set(self, [self.ev(x, f) for x in e.elts])

    def e_Dict(self, e, f):
        d = MDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, f)
                for kk, vv in m.d.items():
                    d.d[kk] = vv
            else:
                ops.setitem(self, d, self.ev(k, f), self.ev(v, f))
        return d

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, f)
                if v.conversion != -1 or v.format_spec is not None:
                    if isinstance(x, (int, str, bytes)) and v.format_spec is None:
                        parts.append({114: repr, 115: str, 97: ascii}[v.conversion](x))
                        continue
                    parts.append(Opq('formatted', ()))
                    continue
                parts.append(x)
        if all(isinstance(p, (str, int)) for p in parts):
            return ''.join(str(p) for p in parts)
        return FStr(parts)

    def e_FormattedValue(self, e, f):
        raise Unsupported('formatted value')

    def e_Lambda(self, e, f):
        defaults = [self.ev(d, f) for d in e.args.defaults]
        return IFunc(e, f, defaults, {}, '<lambda>')

    def e_IfExp(self, e, f):
        t = self.truth_term(self.ev(e.test, f))
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse, f)
        if simple_expr(e.body) and simple_expr(e.orelse):
            a, b = self.ev(e.body, f), self.ev(e.orelse, f)
            m = join_values(t, a, b)
            if m is not MISSING:
                if m is not a:
                    if self.E.valid(t):
                        return a
                    if self.E.valid(z3.Not(t)):
                        return b
                return m
        return self.ev(e.body if self.E.decide(t) else e.orelse, f)

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            if acc and not pure_test(x):
                # decide what came before
                c = z3.And(acc) if isand else z3.Or(acc)
                d = self.E.decide(c)
                if d != isand:
                    return d
                acc = []
            v = self.ev(x, f)
            t = self.truth_term(v)
            if isinstance(t, bool):
                if t != isand:
                    if not acc:
                        return v
                    return t
                if i == len(e.values) - 1 and not acc:
                    return v
                continue
            if isinstance(self.res(v), SBool):
                acc.append(t)
                continue
            # a value that is not a boolean: its own value matters
            if i == len(e.values) - 1 and not acc:
                return v
            if acc:
                acc.append(t)
                continue
            d = self.E.decide(t)
            if d != isand:
                return v
            if i == len(e.values) - 1:
                return v
        if acc:
            return mkb(z3.And(acc) if isand else z3.Or(acc))
        return v

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return not t if isinstance(t, bool) else mkb(z3.Not(t))
        v = self.res(v)
        if isinstance(v, (SInt, SBool)):
            if isinstance(e.op, ast.USub):
                return mk(-I(v))
            if isinstance(e.op, ast.Invert):
                return mk(-I(v) - 1)
            return v
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.Invert):
            return ~v
        return +v

    def e_BinOp(self, e, f):
        return ops.binop(self, type(e.op), self.ev(e.left, f), self.ev(e.right, f))

    def e_Compare(self, e, f):
        left = self.ev(e.left, f)
        acc = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, f)
            v = ops.compare(self, type(op), left, right)
            t = self.truth_term(v)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                acc.append(t)
            left = right
        if not acc:
            return True
        return mkb(z3.And(acc) if len(acc) > 1 else acc[0])

    def e_Subscript(self, e, f):
        o = self.ev(e.value, f)
        return self.res(ops.getitem(self, o, self.index(e.slice, f)))

    def index(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, f)

    def e_Starred(self, e, f):
        raise Unsupported('starred expression')

    def e_Call(self, e, f):
        fn = self.ev(e.func, f)
        if fn is super and not e.args:
            fr = f
            return Super(fr.defcls, fr.self_)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, f)
                segs = ops.list_segs(self, v)
                if all(isinstance(s, El) for s in segs):
                    args += [s.v for s in segs]
                else:
                    args.append(ops.Splat(segs))
            else:
                args.append(self.ev(a, f))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, f).d)
            else:
                kwargs[k.arg] = self.ev(k.value, f)
        return self.call_value(fn, args, kwargs)

    def e_Yield(self, e, f):
        fr = f
        while fr.yields is None:
            fr = fr.parent
        v = self.ev(e.value, f) if e.value else None
        if callable(fr.yields):
            fr.yields(v)
        else:
            ops.method(self, fr.yields, 'append', [v], {})
        return None

    def e_YieldFrom(self, e, f):
        fr = f
        while fr.yields is None:
            fr = fr.parent
        if callable(fr.yields):
            raise Unsupported('yield from')
        ops.method(self, fr.yields, 'extend', [self.ev(e.value, f)], {})
        return None

    # ------------------------------------------------------ comprehensions

    def comprehension(self, gens, f, emit):
        if not gens:
            emit()
            return
        g = gens[0]
        it = self.ev(g.iter, f)

        def body():
            for c in g.ifs:
                if not self.truth(self.ev(c, f)):
                    return
            self.comprehension(gens[1:], f, emit)
        self.iterate(it, lambda v: self.assign(g.target, v, f), body, f)

    def e_ListComp(self, e, f):
        fr = Frame(f.globs, f, f.fn)
        out = MList()
        self.comprehension(e.generators, fr,
                           lambda: self.E.set(out.d, 'v', out.segs + (El(self.ev(e.elt, fr)),)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, f):
        fr = Frame(f.globs, f, f.fn)
        out = ops.make_set(self, [])
        self.comprehension(e.generators, fr, lambda: ops.method(self, out, 'add', [self.ev(e.elt, fr)], {}))
        return out

    def e_DictComp(self, e, f):
        fr = Frame(f.globs, f, f.fn)
        out = MDict()
        self.comprehension(e.generators, fr,
                           lambda: ops.setitem(self, out, self.ev(e.key, fr), self.ev(e.value, fr)))
        return out

    # ---------------------------------------------------------------- loops

    def s_For(self, s, f):
        from . import loops
        it = self.lazily(s, f)
        if it is None:
            return
        cut = loops.find_cut(self, s, f)
        if cut is not None:
            broke = loops.run_cut(self, cut, s, f, ops.sequence(self, self.res(it)))
        else:
            broke = self.iterate(it, lambda v: self.assign(s.target, v, f),
                                 lambda: self.block(s.body, f), f, s)
        if not broke and s.orelse:
            self.block(s.orelse, f)

    def lazily(self, s, f):
        """
        The iterable of a loop; None if it was a generator: its body runs with
        the body of the loop in place of each yield
        """
        from . import loops
        c = s.iter
        if not isinstance(c, ast.Call) or c.args or c.keywords:
            return self.ev(c, f)
        fn = self.res(self.ev(c.func, f))
        if not isinstance(fn, IFunc) or not has_yield(fn.node) or loops.find_cut(self, s, f) is not None:
            return self.call_value(fn, [], {})
        if s.orelse:
            raise Unsupported('else of a loop over a generator')

        def each(v):
            self.assign(s.target, v, f)
            try:
                self.block(s.body, f)
            except Flow as fl:
                if fl.kind != 'continue':
                    raise Unsupported('a loop over a generator is left')
        frame = Frame(fn.frame.globs, fn.frame, fn)
        frame.yields = each
        self.run_function(fn.node, frame, [], {}, fn.defaults, fn.kwdefaults, fn.name)
        return None

    UNROLL = 80

    def iterate(self, it, bind, body, frame, node=None):
        """Run body for each element; True if it was left by break"""
        from . import loops
        it = self.res(it)
        if isinstance(it, MSet):
            return self.iterate_set(it, bind, body)
        seq = ops.sequence(self, it)
        for n, get in seq.chunks:
            if isinstance(n, int) and n <= self.UNROLL:
                for j in range(n):
                    bind(get(j))
                    try:
                        body()
                    except Flow as fl:
                        if fl.kind == 'break':
                            return True
                        if fl.kind != 'continue':
                            raise
                continue

            def one(k, get=get):
                bind(get(k))
                body()
            if loops.summarise_for(self, n, one, frame, node):
                return True
        return False

    def iterate_set(self, it, bind, body):
        E = self.E
        for m, c in sorted(it.d.items()):
            if c is True:
                bind(m)
                try:
                    body()
                except Flow as fl:
                    if fl.kind == 'break':
                        return True
                    if fl.kind != 'continue':
                        raise
                continue
            if c is False:
                continue
            since = serial()

            def branch():
                E.assume(B(c))
                bind(m)
                body()
            outs = E.explore(branch, since)
            if not outs:
                continue
            if len(outs) != 1 or outs[0][1][0] != 'ok':
                raise Unsupported('loop over a set with branching body')
            for d, key, new in outs[0][2].values():
                old = d.get(key, False if d.isset else MISSING)
                m2 = join_values(B(c), new, old)
                if m2 is MISSING:
                    if old is MISSING or isinstance(old, Poison):
                        m2 = Poison((d, key))
                    else:
                        raise Unsupported('loop over a set: cannot join')
                E.set(d, key, m2)
        return False

    def s_While(self, s, f):
        from . import loops
        loops.run_while(self, s, f)


def join_values(c, a, b):
    """The value that is a if c else b, or MISSING if it cannot be expressed"""
    if a is b:
        return a
    if is_int(a) and is_int(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkb(z3.If(c, B(a), B(b)))
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            if a == b:
                return a
        ca, cb = (x.cls if isinstance(x, SEnum) else type(x) for x in (a, b))
        if ca is cb and issubclass(ca, enum.IntEnum):
            return SEnum(z3.If(c, I(a), I(b)), ca)
        d = sub(a, b)
        if isinstance(d, int) and d and isinstance(b, SInt):
            # keeps the digits of bit fields apart
            return mk(I(b) + d * z3.If(c, z3.IntVal(1), z3.IntVal(0)))
        return mk(z3.If(c, I(a), I(b)))
    if isinstance(a, (SBool, bool, z3.BoolRef)) and isinstance(b, (SBool, bool, z3.BoolRef)):
        return mkb(z3.If(c, B(a), B(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
            and not any(isinstance(x, Seg) for x in a + b):
        items = [join_values(c, x, y) for x, y in zip(a, b)]
        if any(x is MISSING for x in items):
            return MISSING
        return type(a)._make(items) if hasattr(a, '_make') else tuple(items)
    if isinstance(a, (str, bytes)) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, (SBytes, SStr)) and type(a) is type(b) and len(a.segs) == len(b.segs):
        # packed integers at the same places
        segs = []
        for x, y in zip(a.segs, b.segs):
            if isinstance(x, Pk) and isinstance(y, Pk) and (x.w, x.big, x.signed) == (y.w, y.big, y.signed):
                x = Pk(join_values(c, x.t, y.t), x.w, x.big, x.signed)
            elif not alike(x, y):
                break
            segs.append(x)
        else:
            return type(a)(segs)
    if a is None and b is None:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and (a or b) \
            and all(isinstance(x, (Lit, Pk, Pb, Sl, Fi, Al)) for x in a + b):
        # byte ropes of the same shape
        if len(a) == len(b) and all(x is y for x, y in zip(a[:-1], b[:-1])):
            return a[:-1] + (Al(c, a[-1:], b[-1:]),)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[-1], El) \
            and isinstance(b[-1], El) and all(
                x is y or isinstance(x, El) and isinstance(y, El) and alike_values(x.v, y.v) for x, y in zip(a[:-1], b[:-1])):
        # lists with different last elements
        v = join_values(c, a[-1].v, b[-1].v)
        if v is not MISSING:
            return a[:-1] + (El(v),)
    return MISSING


def simple_branches(s):
    """Branches without control flow"""
    for n in ast.walk(s):
        if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.While, ast.For,
                          ast.Assert, ast.Try, ast.With, ast.Yield)):
            return False
    both = s.body + s.orelse
    if len(s.body) == len(s.orelse) == 1 and all(
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)
            and x.value.func.attr == 'append' and len(x.value.args) == 1 for x in both):
        both = [x.value.args[0] for x in both]
    for st_ in both:
        for n in ast.walk(st_):
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr == 'add':
                    continue
                if isinstance(fn, ast.Name) and fn.id in ('len', 'min', 'max', 'bool', 'int'):
                    continue
                return False
    return True


def simple_expr(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.IfExp, ast.BoolOp)):
            if isinstance(n, ast.Attribute) or isinstance(n, ast.IfExp):
                continue
            return False
    return True


def pure_test(e):
    """Can be evaluated even if an earlier operand already decides"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Subscript, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Attribute):
            return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.Div, ast.LShift, ast.RShift)):
            return False
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn, ast.Lt, ast.Gt, ast.LtE, ast.GtE))
                                              for o in n.ops):
            # the operands might be None
            if not all(isinstance(x, (ast.Constant, ast.Name, ast.BinOp)) for x in [n.left] + n.comparators):
                return False
    return True


# ---------------------------------------------------------------- equality

def prove_equal(E, a, b, name, depth=0):
    """Obligations for a == b (content equality)"""
    if depth > 40:
        raise Unsupported('comparison too deep')
    ip = E.interp
    a, b = ip.res(a), ip.res(b)
    if a is b:
        E.record(name, 'proved', 0)
        return
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        E.prove(B(a) == B(b), name)
        return
    if is_int(a) and is_int(b):
        E.prove(I(a) == I(b), name)
        return
    if ops.is_bytes(a) and ops.is_bytes(b):
        E.ropes_equal(ops.byte_segs(a), ops.byte_segs(b), name, depth)
        return
    if ops.is_text(a) and ops.is_text(b):
        if isinstance(a, str) and isinstance(b, str):
            E.prove(a == b, name)
            return
        E.ropes_equal(ops.text_segs(a), ops.text_segs(b), name, depth)
        return
    if isinstance(a, (MList, STuple)) or isinstance(b, (MList, STuple)):
        if isinstance(a, (MList, STuple, tuple)) and isinstance(b, (MList, STuple, tuple)):
            E.ropes_equal(ops.list_segs(ip, a), ops.list_segs(ip, b), name, depth)
            return
    if isinstance(a, tuple) and isinstance(b, tuple):
        E.prove(len(a) == len(b), f'{name}: length')
        for i, (x, y) in enumerate(zip(a, b)):
            prove_equal(E, x, y, f'{name}[{i}]', depth + 1)
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        E.prove(a.cls is b.cls, f'{name}: class')
        E.prove(set(a.d) == set(b.d), f'{name}: attributes {sorted(set(a.d) ^ set(b.d))}')
        for k in sorted(a.d):
            prove_equal(E, a.d[k], b.d[k], f'{name}.{k}', depth + 1)
        return
    if isinstance(a, MSet) and isinstance(b, MSet):
        for k in sorted(set(a.d) | set(b.d)):
            E.prove(B(a.d.get(k, False)) == B(b.d.get(k, False)), f'{name}: member {k}')
        return
    if isinstance(a, Map) or isinstance(b, Map):
        a, b = ops.as_map(a), ops.as_map(b)
        if a is not None and b is not None:
            x = I(E.int('key'))
            E.prove(a[0](x) == b[0](x), f'{name}: keys')
            E.prove(z3.Implies(a[0](x), a[1](x) == b[1](x)), f'{name}: values')
            return
    if isinstance(a, MDict) and isinstance(b, MDict):
        if PAIRS in a.d or PAIRS in b.d:
            E.ropes_equal(ops.dict_pairs(ip, a, True), ops.dict_pairs(ip, b, True), name, depth)
            return
        E.prove(list(a.d) == list(b.d), f'{name}: keys')
        for k in a.d:
            prove_equal(E, a.d[k], b.d[k], f'{name}[{k!r}]', depth + 1)
        return
    if isinstance(a, Opq) and isinstance(b, Opq):
        E.prove(a.name == b.name and len(a.args) == len(b.args), f'{name}: same function')
        for x, y in zip(a.args, b.args):
            prove_equal(E, x, y, f'{name}: argument', depth + 1)
        return
    if isinstance(a, (str, bytes, type(None), enum.Enum, type)) and isinstance(b, (str, bytes, type(None), enum.Enum, type)):
        E.prove(a == b, name)
        return
    E.record(name, 'failed', 0, f'{a!r} is not {b!r}', model=E.model())
    raise Failed(name)
