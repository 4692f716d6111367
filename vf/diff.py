"""
Compares the interpreter with CPython.

Calls of the real code made by the run-time contracts are recorded: the
arguments before, and the result, the exception and the arguments after.
Each call is then repeated by the interpreter, once with the same values
and once with arguments that are symbols known only to equal them, so that
the treatment of loops, slices and packing of symbols is exercised too.
"""
import copy
import enum
import functools
import importlib
import inspect
import pkgutil
import random
import signal
import sys
import time
import traceback
import types

import z3

from .terms import *
from .engine import Engine, PyRaise, Failed, Abort
from .interp import Interp, prove_equal
from . import builtin_ops as ops

LARGE = 400
SKIP = {'__str__', '__repr__', '__new__', '__eq__', '__hash__', 'fromFile', 'saveToFile'}


class TooLarge(Exception):
    pass


class Late(Exception):
    pass


def size(x, depth=0):
    """Rough number of leaves of a value"""
    if depth > 12:
        raise TooLarge
    if isinstance(x, (bytes, bytearray, str)):
        n = len(x)
    elif isinstance(x, (list, tuple, set, frozenset)):
        n = len(x) + sum(size(v, depth + 1) for v in list(x)[:LARGE])
    elif isinstance(x, dict):
        n = len(x) + sum(size(k, depth + 1) + size(v, depth + 1) for k, v in list(x.items())[:LARGE])
    elif x is None or isinstance(x, (int, enum.Enum)):
        n = 1
    elif type(x).__module__.startswith('ndspy'):
        n = 1 + sum(size(v, depth + 1) for v in vars(x).values())
    else:
        raise TooLarge
    if n > LARGE:
        raise TooLarge
    return n


class Recorder:
    """Wraps the functions of ndspy while it is active"""
    def __init__(self, each):
        self.each, self.calls, self.counts, self.undo = each, [], {}, []

    def __enter__(self):
        import ndspy
        names = ['ndspy'] + [f'ndspy.{m.name}' for m in pkgutil.iter_modules(ndspy.__path__)]
        mods = []
        for n in names:
            try:
                mods.append(importlib.import_module(n))
            except ImportError:
                pass
        wrapped = {}
        for m in mods:
            for k, v in list(vars(m).items()):
                if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                    wrapped[v] = w = self.wrap(v)
                    self.put(m, k, v, w)
                elif isinstance(v, type) and v.__module__ == m.__name__ and not issubclass(v, enum.Enum):
                    self.enter_class(v)
        for m in mods:
            for k, v in list(vars(m).items()):
                if isinstance(v, types.FunctionType) and v in wrapped:
                    self.put(m, k, v, wrapped[v])
        return self

    def enter_class(self, c):
        for k, v in list(vars(c).items()):
            if k in SKIP:
                continue
            if isinstance(v, types.FunctionType):
                self.put(c, k, v, self.wrap(v))
            elif isinstance(v, (staticmethod, classmethod)) and isinstance(v.__func__, types.FunctionType):
                self.put(c, k, v, type(v)(self.wrap(v.__func__)))

    def put(self, where, name, old, new):
        self.undo.append((where, name, old))
        setattr(where, name, new)

    def __exit__(self, *a):
        for where, name, old in reversed(self.undo):
            setattr(where, name, old)

    def wrap(self, fn):
        key = f'{fn.__module__}.{fn.__qualname__}'
        if inspect.isgeneratorfunction(fn) or not key.startswith('ndspy.'):
            return fn

        @functools.wraps(fn)
        def call(*args, **kw):
            if self.counts.get(key, 0) >= self.each:
                return fn(*args, **kw)
            try:
                size((list(args), kw))
                before = copy.deepcopy((list(args), kw))
            except Exception:
                return fn(*args, **kw)
            try:
                r = fn(*args, **kw)
            except Exception as e:
                self.add(key, fn, before, None, type(e), args, kw)
                raise
            self.add(key, fn, before, r, None, args, kw)
            return r
        return call

    def add(self, key, fn, before, r, exc, args, kw):
        try:
            size(r)
            size((list(args), kw))
            after = copy.deepcopy((r, list(args), kw))
        except Exception:
            return
        self.counts[key] = self.counts.get(key, 0) + 1
        self.calls.append((key, fn, before, exc, after))


def lift(x, leaf=None, memo=None, depth=0):
    """The value of the interpreter for a plain one"""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][0]
    go = lambda v: lift(v, leaf, memo, depth + 1)
    if leaf is not None:
        r = leaf(x)
        if r is not None:
            if isinstance(x, (list, bytearray)):
                memo[id(x)] = r, x
            return r
    if isinstance(x, bytearray):
        r = MBytes([Lit(bytes(x))] if x else [])
    elif isinstance(x, list):
        r = MList([El(go(v)) for v in x])
    elif isinstance(x, tuple):
        return tuple(go(v) for v in x)
    elif isinstance(x, dict):
        r = MDict({lift(k, None, memo): go(v) for k, v in x.items()})
    elif isinstance(x, (set, frozenset)):
        r = MSet({k: True for k in x})
    elif x is None or isinstance(x, (int, str, bytes, enum.Enum, type, types.FunctionType)):
        return x
    elif type(x).__module__.startswith('ndspy'):
        r = Obj(type(x), {})
        memo[id(x)] = r, x
        for k, v in vars(x).items():
            r.d[k] = go(v)
        return r
    else:
        raise Unsupported(f'value of type {type(x).__name__}')
    memo[id(x)] = r, x
    return r


def symbols(E, rng):
    """Replaces numbers, strings and lists of these by symbols equal to them"""
    def pin(src, data, *args):
        E.assume(src.length(*[I(a) for a in args]) == len(data))
        for j, b in enumerate(data):
            E.assume(src.byte(*[I(a) for a in args], I(j)) == b)

    def leaf(x):
        if isinstance(x, (bool, enum.Enum)) or x is None or rng.random() < .25:
            return None
        if type(x) is int:
            v = E.int(E.uniq('v'))
            E.assume(I(v) == x)
            return v
        if isinstance(x, (bytes, bytearray)):
            s = E.source(E.uniq('b'))
            pin(s, x)
            return (MBytes if isinstance(x, bytearray) else SBytes)(E.whole(s))
        if isinstance(x, list) and x and all(type(v) is int for v in x):
            f = E.fun(E.uniq('f'), 1)
            n = E.int(E.uniq('n'))
            E.assume(I(n) == len(x))
            for j, v in enumerate(x):
                E.assume(f(I(j)) == v)
            return E.list(n, lambda k: SInt(f(I(k))))
        if isinstance(x, list) and x and all(type(v) is bytes for v in x):
            s = E.source(E.uniq('s'), 1)
            n = E.int(E.uniq('n'))
            E.assume(I(n) == len(x))
            for j, v in enumerate(x):
                pin(s, v, j)
            return E.list(n, lambda k: SBytes(E.whole(s, k)))
        return None
    return leaf


def equals(E, got, want, name):
    """Obligations for got being the value of the plain want"""
    ip = E.interp
    got = ip.res(got)
    if isinstance(want, (bytes, bytearray)) and ops.is_bytes(got):
        E.prove(isinstance(want, bytearray) == isinstance(got, (MBytes, bytearray)), f'{name}: type')
        segs = ops.byte_segs(got)
        E.prove(I(ropelen(segs)) == len(want), f'{name}: length')
        for j, b in enumerate(want):
            E.prove(I(E.read_uint((E.at(segs, j),), 1, False, False)) == b, f'{name}[{j}]', fatal=False)
        return
    if isinstance(want, (list, tuple)) and isinstance(got, (MList, STuple, tuple)):
        E.prove(isinstance(want, tuple) == isinstance(got, (STuple, tuple)), f'{name}: type')
        segs = ops.list_segs(ip, got)
        E.prove(I(ropelen(segs)) == len(want), f'{name}: length')
        for j, v in enumerate(want):
            equals(E, E.at(segs, j).v, v, f'{name}[{j}]')
        return
    if isinstance(got, Obj):
        E.prove(got.cls is type(want), f'{name}: class')
        E.prove(set(got.d) == set(vars(want)), f'{name}: attributes')
        for k, v in vars(want).items():
            equals(E, got.d[k], v, f'{name}.{k}')
        return
    if isinstance(want, dict) and isinstance(got, MDict) and PAIRS not in got.d:
        plain = [k for k in want if not type(k).__module__.startswith('ndspy')]
        E.prove(len(got.d) == len(want) and [k for k in got.d if not isinstance(k, Obj)] == plain, f'{name}: keys')
        for k, v in zip(got.d.values(), want.values()):
            equals(E, k, v, f'{name}: value')
        return
    prove_equal(E, got, lift(want), name)


def repeat(call, symbolic, seed, limit=10):
    """'same', 'differs: …', 'open: …' or 'skipped: …'"""
    key, fn, before, exc, after = call
    E = Engine(timeout=3000)
    ip = Interp(E, ('ndspy',))

    def go():
        leaf = symbols(E, random.Random(seed)) if symbolic else None
        memo = {}
        args = [lift(v, leaf, memo) for v in before[0]]
        kw = {k: lift(v, leaf, memo) for k, v in before[1].items()}
        raised, r = None, None
        try:
            r = ip.call_value(fn, list(args), kw)
        except PyRaise as e:
            raised = e.cls
        E.discharge()
        if not E.sat(z3.BoolVal(True)):
            E.record('inputs are possible', 'failed', 0, 'contradiction')
            return
        E.prove(raised is exc, f'exception {raised} instead of {exc}')
        want, wargs, wkw = after
        if exc is None:
            equals(E, r, want, 'result')
        for i, v in enumerate(wargs):
            equals(E, args[i], v, f'argument {i} afterwards')
        for k, v in wkw.items():
            equals(E, kw[k], v, f'argument {k} afterwards')

    was_late = []

    def late(sig, frame):
        was_late.append(1)
        raise Late
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        E.run(go)
    except (Unsupported, Abort, RecursionError) as e:
        return f'skipped: {e}'
    except Exception as e:
        if was_late:
            return 'skipped: time'
        return f'skipped: {traceback.format_exc()[-600:]}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if was_late:
        return 'skipped: time'
    bad = [o for o in E.obligations if o.status != 'proved']
    if not E.ends and not bad:
        return 'differs: no path'
    if bad:
        return f"{'open' if symbolic else 'differs'}: {bad[0].name}: {bad[0].detail[:300]}"
    return 'same'


def record(mod, prop, cases, each, seed, wall):
    """Calls made by some cases of a property"""
    from . import run
    end = time.time() + wall
    rec = Recorder(each)
    todo = [mk for i, mk in run.cases(mod, prop, cases, seed)]
    random.Random(seed).shuffle(todo)
    with rec:
        for mk in todo[:cases]:
            if time.time() > end:
                break
            try:
                mod.check(mk())
            except Exception:
                pass
    return rec.calls


def compare(mod, prop, cases=60, each=2, seed=1, wall=10, only=None):
    """Outcomes of the comparison: counts, and what differs or is open"""
    end = time.time() + wall
    calls = record(mod, prop, cases, each, seed, wall / 2)
    if only is not None:
        calls = [c for c in calls if c[0] in only]
    random.Random(seed).shuffle(calls)
    counts = {'same': 0, 'same with symbols': 0, 'skipped': 0, 'open': 0}
    functions, bad = set(), []
    for i, c in enumerate(calls):
        for symbolic in (False, True):
            if time.time() > end:
                break
            r = repeat(c, symbolic, f'{seed}/{i}')
            if r == 'same':
                counts['same with symbols' if symbolic else 'same'] += 1
                functions.add(c[0])
            elif r.startswith('skipped'):
                counts['skipped'] += 1
                bad.append((c[0], r))
            elif r.startswith('open'):
                counts['open'] += 1
                bad.append((c[0], r))
            else:
                bad.append((c[0], r))
    return counts, sorted(functions), bad
