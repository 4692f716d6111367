"""
Path exploration, solver queries, facts about uninterpreted functions,
obligations, and the rope operations that need the solver.
"""
import math
import time

import z3

from .terms import *


class PyRaise(Exception):
    """The interpreted code raised an exception"""
    def __init__(self, cls, args=()):
        super().__init__(cls, args)
        self.cls, self.pyargs = cls, tuple(args)

    def __repr__(self):
        return f'PyRaise({self.cls.__name__}, {self.pyargs})'


class Infeasible(Exception):
    pass


class Failed(Exception):
    """An obligation could not be proved and the path cannot go on"""


class Abort(Exception):
    """Speculation (a guessed loop summary) did not work out"""


class Path:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []


class Level:
    def __init__(self):
        self.seen0 = set()
        self.seen1 = set()
        self.apps = {}        # decl name -> list of (app, depth)
        self.gens = []        # (decl name, gen)
        self.first = set()


class Fn:
    """A registered uninterpreted function with facts about its values"""
    def __init__(self, decl, gen=None, rec=None, pair=None):
        self.decl, self.gen, self.rec, self.pair = decl, gen, rec, pair
        self.fixed = True     # what is known no longer changes


class Obligation:
    def __init__(self, name, status, seconds, detail='', smt=None, model=None):
        self.name, self.status, self.seconds = name, status, seconds
        self.detail, self.smt, self.model = detail, smt, model


class Dual:
    """
    The solver, and one with another implementation of arithmetic, which is
    asked if the answer takes time
    """
    def __init__(self, solver, other, timeout):
        self.solver, self.other, self.timeout = solver, other, timeout
        self.missing = [[]]
        self.last = solver

    def push(self):
        self.solver.push()
        self.missing.append([])

    def pop(self):
        self.solver.pop()
        if self.missing.pop() is None:
            self.other.pop()

    def add(self, *terms):
        self.solver.add(*terms)
        if self.missing[-1] is None:
            self.other.add(*terms)
        else:
            self.missing[-1] += terms

    def check(self):
        self.last = self.solver
        self.solver.set('timeout', 200)
        r = self.solver.check()
        if r == z3.unknown:
            # the other solver catches up
            for i, terms in enumerate(self.missing):
                if terms is not None:
                    self.other.push()
                    self.other.add(*terms)
                    self.missing[i] = None
            self.last = self.other
            r = self.other.check()
        if r == z3.unknown:
            self.last = self.solver
            self.solver.set('timeout', self.timeout)
            r = self.solver.check()
        return r

    def model(self):
        return self.last.model()

    def assertions(self):
        return self.solver.assertions()

    def sexpr(self):
        return self.solver.sexpr()

    def reason_unknown(self):
        return self.solver.reason_unknown()


class Engine:
    def __init__(self, timeout=20000, keep_smt=False, linear=False):
        self.timeout = timeout
        self.linear = linear
        self.proved_products = False
        self.keep_smt = keep_smt
        self.fns = {}
        self.obligations = []
        self.deferred = []
        self.queries = 0
        self.solver_s = 0.0
        self.counter = 0
        self.paths = 0
        self.ends = 0
        self.touched = {}         # qualified function name -> calls interpreted
        self.trusted = set()      # contracts / axioms used
        self.inputs = {}
        self.sums = {}
        self.factcache = {}
        self.appcache = {}        # id of a term -> the term, its function applications
        self.reset()

    def reset(self):
        """Start of a path: nothing is assumed"""
        self.inside = {}          # recursive functions being verified
        self.solver = self.new_solver()
        self.levels = [Level()]
        self.pc = []              # (term, True: decision, False: assumption, None: deferred)
        self.log = []
        self.path = Path()
        self.gvars = []
        self.names = {}
        self.overlay = {}
        self.recurrences = {}     # shared solutions of equal recurrences
        self.skip = 0             # > 0: looking for the form of a loop, nothing is proved
        self.skipped = False
        self.outermost = None     # length of pc where the outermost exploration began

    # ---------------------------------------------------------- the journal

    def set(self, d, key, val):
        if d.frozen:
            raise Unsupported('mutation of an element of a summarised sequence')
        self.log.append((d, key, d.get(key, _MISSING)))
        d[key] = val

    def unset(self, d, key):
        if d.frozen:
            raise Unsupported('mutation of an element of a summarised sequence')
        self.log.append((d, key, d[key]))
        del d[key]

    def undo(self, mark):
        while len(self.log) > mark:
            d, key, old = self.log.pop()
            if old is _MISSING:
                d.pop(key, None)
            else:
                d[key] = old

    # -------------------------------------------------------------- solver

    def new_solver(self):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        if self.linear:
            # products of variables are variables
            s.set('arith.nl', False)
            old = z3.Solver()
            old.set('timeout', 1000)
            old.set('arith.solver', 2)
            old.set('arith.nl', False)
            return Dual(s, old, self.timeout)
        return s

    def push(self):
        self.solver.push()
        self.levels.append(Level())

    def pop(self):
        self.solver.pop()
        self.levels.pop()

    def uniq(self, base):
        """A name never used before"""
        self.counter += 1
        return f'{base}#{self.counter}'

    def fresh_name(self, base):
        """Deterministic within a path, so that re-execution agrees"""
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f'{base}!{n}' if n else base

    def note(self, term, depth=0):
        """Assert the facts about the function applications in term"""
        todo = [(term, depth)]
        while todo:
            t, dp = todo.pop()
            for app in self._new_apps(t, dp):
                fn = self.fns[app.decl().name()]
                facts = []
                if dp == 0 and fn.rec is not None:
                    facts += self._facts(fn, fn.rec, app)
                if dp == 0:
                    # not for the applications these facts bring in
                    for lv in self.levels:
                        for dn, gen in lv.gens:
                            if dn == fn.decl.name() and getattr(gen, 'shallow', False):
                                facts += gen(*app.children())
                if self._first(app):
                    if fn.gen is not None:
                        facts += self._facts(fn, fn.gen, app)
                    if fn.pair is not None:
                        for other in self._apps_of(fn.decl.name()):
                            facts += self._facts(fn, fn.pair, app, other)
                    for lv in self.levels:
                        for dn, gen in lv.gens:
                            if dn == fn.decl.name() and not getattr(gen, 'shallow', False):
                                facts += gen(*app.children())
                    self.levels[-1].apps.setdefault(fn.decl.name(), []).append(app)
                for f in facts:
                    self.solver.add(f)
                    todo.append((f, dp + 1))

    def _facts(self, fn, gen, app, other=None):
        if not fn.fixed:
            return gen(*app.children()) if other is None else gen(app, other)
        key = id(gen), app.get_id(), other is not None and other.get_id()
        if key not in self.factcache:
            facts = gen(*app.children()) if other is None else gen(app, other)
            # the objects stay alive, and so the key is not used again
            self.factcache[key] = [f for f in facts if not z3.is_true(f)], gen, app, other
        return self.factcache[key][0]

    def note_sums(self, term):
        """Sums over the terms a goal is about are related to their totals"""
        new = False
        for app in ufs(term):
            for name in self.sums.get(app.decl().name(), ()):
                fn = self.fns[name]
                if fn.decl.arity() == app.num_args():
                    self.note(fn.decl(*app.children()) >= fn.decl(*app.children()))
                    new = True
        return new

    def _apps_of(self, name):
        for lv in self.levels:
            yield from lv.apps.get(name, ())

    def _first(self, app):
        i = app.get_id()
        if any(i in lv.first for lv in self.levels):
            return False
        self.levels[-1].first.add(i)
        return True

    def _apps_in(self, term):
        """All function applications in a term, as (id, name, application)"""
        cache = self.appcache
        stack = [term]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in cache:
                stack.pop()
                continue
            if z3.is_quantifier(t) or not t.num_args():
                cache[i] = t, ()
                stack.pop()
                continue
            ch = t.children()
            rest = [c for c in ch if c.get_id() not in cache]
            if rest:
                stack += rest
                continue
            parts = []
            for c in ch:
                x = cache[c.get_id()][1]
                if x and not any(x is y for y in parts):
                    parts.append(x)
            own = ()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                own = ((i, t.decl().name(), t),)
            if len(parts) == 1:
                apps = own + parts[0]
            else:
                d = {x[0]: x for x in own}
                for p in parts:
                    for x in p:
                        d[x[0]] = x
                apps = tuple(d.values())
            cache[i] = t, apps
            stack.pop()
        return cache[term.get_id()][1]

    def _new_apps(self, term, depth):
        out = []
        levels = self.levels
        top = levels[-1]
        for i, name, t in self._apps_in(term):
            if name not in self.fns:
                continue
            if depth == 0:
                if any(i in lv.seen0 for lv in levels):
                    continue
                top.seen0.add(i)
            else:
                if any(i in lv.seen1 or i in lv.seen0 for lv in levels):
                    continue
                top.seen1.add(i)
            out.append(t)
        return out

    def forall(self, declname, gen):
        """A fact about every application of a function, on this path"""
        self.levels[-1].gens.append((declname, gen))
        for app in list(self._apps_of(declname)):
            for f in gen(*app.children()):
                self.solver.add(f)
                self.note(f, 1)

    def _check(self):
        self.queries += 1
        t = time.time()
        r = self.solver.check()
        if r == z3.unknown:
            # a fresh solver is often luckier than the incremental one
            s = self.new_solver()
            s.add(self.solver.assertions())
            r = s.check()
        self.solver_s += time.time() - t
        return r

    def sat(self, cond):
        if isinstance(cond, bool):
            return cond
        self.solver.push()
        self.levels.append(Level())
        try:
            self.note(cond)
            self.solver.add(cond)
            return self._check() != z3.unsat
        finally:
            self.solver.pop()
            self.levels.pop()

    def valid(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.sat(z3.BoolVal(True))
        return not self.sat(z3.Not(cond))

    def valid_under(self, hyp, cond):
        self.push()
        try:
            self.note(hyp)
            self.solver.add(hyp)
            return self.valid(cond)
        finally:
            self.pop()

    def lasting(self, hyp, cond):
        """
        Whether hyp implies cond by what holds on the rest of this path and
        does not itself await a proof; otherwise a guard under which it does
        (conditions of the exploration going on), or None
        """
        mark = len(self.pc) if self.outermost is None else self.outermost
        base = [c for c, kind in self.pc[:mark] if kind is not None]
        local = [c for c, kind in self.pc[mark:] if kind is not None]
        keep = self.solver, self.levels
        try:
            for guard in ([], local) if local else ([],):
                self.solver = self.new_solver()
                self.levels = [Level()]
                for lv in keep[1]:
                    self.levels[0].gens += lv.gens
                for c in base + guard + [hyp]:
                    self.note(c)
                    self.solver.add(c)
                if self.valid(cond):
                    return guard
        finally:
            self.solver, self.levels = keep
        return None

    def assume(self, cond, decision=False):
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise Infeasible
        self.note(cond)
        self.solver.add(cond)
        self.pc.append((cond, decision))

    def decide(self, cond):
        """Truth of a condition on this path, exploring both if possible"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        p = self.path
        n = len(p.taken)
        if n < len(p.prefix):
            v, forced = p.prefix[n]
            p.taken.append((v, forced))
            if not forced:
                self.assume(cond if v else z3.Not(cond), True)
            return v
        t = self.sat(cond)
        f = self.sat(z3.Not(cond))
        if t and f:
            p.alts.append(p.taken + [(False, False)])
            p.taken.append((True, False))
            self.assume(cond, True)
            return True
        if not t and not f:
            raise Infeasible
        p.taken.append((t, True))
        return t

    def split_on(self, cond):
        return self.decide(cond)

    # ------------------------------------------------------- explorations

    def explore(self, fn, since):
        """
        Run fn on every path. Returns a list of (decisions, outcome, delta):
        delta maps (id of store, key) to (store, key, frozen final value) for
        the stores that existed before.
        """
        outs = []
        stack = [[]]
        saved = self.path
        mark = len(self.log)
        pcmark = len(self.pc)
        names = dict(self.names)
        gv = list(self.gvars)
        nested = self.outermost
        if nested is None:
            self.outermost = pcmark
        try:
            self._explore(fn, since, outs, stack, saved, mark, pcmark, names, gv)
        finally:
            self.outermost = nested
        self.names = names
        return outs

    def _explore(self, fn, since, outs, stack, saved, mark, pcmark, names, gv):
        while stack:
            prefix = stack.pop()
            self.push()
            self.path = Path(prefix)
            self.names = dict(names)
            self.gvars = list(gv)
            alive = True
            try:
                try:
                    res = ('ok', fn())
                except PyRaise as e:
                    res = ('raise', e)
                except Flow as e:
                    res = (e.kind, e.value)
                except Infeasible:
                    alive = False
                if alive:
                    delta = {}
                    for d, key, old in self.log[mark:]:
                        if d.serial <= since:
                            delta[id(d), key] = (d, key, freeze(d.get(key, _MISSING), since))
                    dec = [c for c, kind in self.pc[pcmark:] if kind]
                    outs.append((dec, (res[0], freeze(res[1], since) if res[0] == 'return' else res[1]), delta))
            finally:
                self.undo(mark)
                self.pop()
                del self.pc[pcmark:]
                alts = self.path.alts
                self.path = saved
                self.gvars = list(gv)
            stack.extend(reversed(alts))
            if len(outs) > 400:
                raise Unsupported('too many paths through a loop body')

    def run(self, fn):
        """Run a lemma on every path"""
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.reset()
            self.path = Path(prefix)
            self.paths += 1
            if self.paths > 3000:
                raise Unsupported('too many paths')
            self.deferred = []
            try:
                fn()
                self.ends += 1
            except Infeasible:
                pass
            except PyRaise as e:
                self.record('no exception', 'failed', 0,
                            f'{e!r} on path {[str(c) for c, _ in self.pc][-6:]}', model=self.model())
            except Failed:
                pass
            finally:
                stack.extend(reversed(self.path.alts))
            self.discharge()

    # --------------------------------------------------------- obligations

    def record(self, name, status, seconds, detail='', smt=None, model=None):
        self.obligations.append(Obligation(name, status, seconds, detail, smt, model))

    def model(self):
        try:
            if self.solver.check() == z3.sat:
                return self.describe(self.solver.model())
        except z3.Z3Exception:
            pass
        return None

    def describe(self, m):
        out = {}
        for name, t in self.inputs.items():
            try:
                v = m.eval(t, model_completion=True)
                out[name] = v.as_long() if z3.is_int_value(v) else str(v)
            except Exception:
                pass
        for d in m.decls():
            if d.arity() and d.name() in self.fns:
                try:
                    fi = m[d]
                    out[f'fun {d.name()}'] = {
                        'entries': [[[e.arg_value(j).as_long() for j in range(e.num_args())], plain(e.value())]
                                    for e in map(fi.entry, range(fi.num_entries()))],
                        'else': plain(fi.else_value())}
                except Exception:
                    pass
        return out

    def prove(self, cond, name, fatal=True):
        """One obligation"""
        if self.skip and fatal:
            self.skipped = True
            return True
        t0 = time.time()
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        self.push()
        neg = z3.Not(cond)
        self.note(neg)
        self.solver.add(neg)
        r = self._check()
        if r == z3.sat and self.note_sums(neg):
            r = self._check()
        smt = None
        if self.keep_smt:
            smt = self.solver.sexpr()
        model = None
        detail = ''
        if r == z3.sat:
            m = self.solver.model()
            model = self.describe(m)
            detail = str(m)[:2000]
        elif r == z3.unknown:
            detail = self.solver.reason_unknown()
        self.pop()
        status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
        if status != 'proved':
            detail = f'goal: {cond}\n{detail}'
        self.record(name, status, time.time() - t0, detail, smt, model)
        if status != 'proved' and fatal:
            raise Failed(name)
        return status == 'proved'

    def defer(self, cond, name, exc=ValueError):
        """
        An obligation proved later, under what is then known in addition;
        assumed from here on
        """
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise PyRaise(exc, (name,))
            return
        if self.valid(cond):
            self.record(name, 'proved', 0)
            return
        if not self.sat(cond):
            raise PyRaise(exc, (name,))
        self.deferred.append(([c for c, _ in self.pc], cond, name))
        self.assume(cond, None)

    def discharge(self):
        """
        Prove everything deferred on this path: from what was known where it
        was deferred and what the path has learned since, but not from any
        later deferred condition
        """
        todo, self.deferred = self.deferred, []
        if not todo:
            return
        keep = self.solver, self.levels
        for pc, cond, name in todo:
            self.solver = self.new_solver()
            self.levels = [Level()]
            for c in [c for c, kind in self.pc if kind is not None] + pc:
                self.note(c)
                self.solver.add(c)
            self.prove(cond, name, fatal=False)
        self.solver, self.levels = keep

    # ------------------------------------------------------ symbolic inputs

    def int(self, name, lo=None, hi=None):
        """An arbitrary integer (within the current loop iterations)"""
        n = self.fresh_name(name)
        if self.gvars:
            f = self.fun(n, len(self.gvars), lo, hi)
            return SInt(f(*self.gvars))
        v = z3.Int(n)
        self.inputs.setdefault(n, v)
        if lo is not None:
            self.assume(v >= I(lo))
        if hi is not None:
            self.assume(v <= I(hi))
        return SInt(v)

    def bool(self, name):
        n = self.fresh_name(name)
        if self.gvars:
            return SBool(self.fun(n, len(self.gvars), boolean=True)(*self.gvars))
        v = z3.Bool(n)
        self.inputs.setdefault(n, v)
        return SBool(v)

    def fun(self, name, arity=1, lo=None, hi=None, gen=None, boolean=False):
        """An uninterpreted function; facts hold for all arguments"""
        decl = z3.Function(name, *([z3.IntSort()] * arity),
                           z3.BoolSort() if boolean else z3.IntSort())

        def facts(*args):
            out = []
            if lo is not None:
                out.append(decl(*args) >= lo)
            if hi is not None:
                out.append(decl(*args) <= hi)
            if gen is not None:
                out += gen(*args)
            return out
        self.fns[name] = Fn(decl, facts)
        return decl

    def quotient(self, a, b):
        """a // b for b > 0, as a function with the defining facts"""
        decl = z3.Function('quotient', z3.IntSort(), z3.IntSort(), z3.IntSort())
        if 'quotient' not in self.fns:
            def facts(x, y):
                q = decl(x, y)
                return [z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y)),
                        z3.Implies(z3.And(y > 0, x >= 0), q >= 0)]
            self.fns['quotient'] = Fn(decl, facts)
        return decl(I(a), I(b))

    def products(self, a, b, c):
        """An instance of: a <= b and c >= 0 imply a*c <= b*c"""
        if not self.proved_products:
            x, y, z = z3.Ints('x y z')
            s = z3.Solver()
            s.add(x <= y, z >= 0, x * z > y * z)
            r = s.check()
            self.record('products of ordered numbers', 'proved' if r == z3.unsat else 'unknown', 0)
            self.proved_products = True
        a, b, c = I(a), I(b), I(c)
        self.assume(z3.Implies(z3.And(a <= b, c >= 0), a * c <= b * c))

    def increasing(self, name, n, lo, hi):
        """An uninterpreted function, strictly increasing on 0..n-1"""
        decl = self.fun(name, 1, lo, hi)
        n = I(n)

        def pair(a, b):
            x, y = a.arg(0), b.arg(0)
            return [z3.Implies(z3.And(x >= 0, x < y, y < n), decl(x) < decl(y)),
                    z3.Implies(z3.And(y >= 0, y < x, x < n), decl(y) < decl(x))]
        self.fns[name].pair = pair
        return decl

    def source(self, name, arity=0, lo=0, hi=None, without=(), length=None, gen=None):
        """An opaque byte string, or a family of them"""
        if length is None:
            if arity:
                length = self.fun(f'len_{name}', arity, lo, hi)
            else:
                c = z3.Int(f'len_{name}')
                self.inputs.setdefault(f'len_{name}', c)
                self.assume(c >= lo)
                if hi is not None:
                    self.assume(c <= hi)
                length = lambda: c
        wo = sorted(without)

        def bgen(*args):
            b = byte(*args)
            out = [b >= 0, b <= 255]
            out += [b != x for x in wo]
            if gen is not None:
                out += gen(*args)
            return out
        byte = z3.Function(f'byte_{name}', *([z3.IntSort()] * (arity + 1)), z3.IntSort())
        self.fns[f'byte_{name}'] = Fn(byte, bgen)
        return Src(name, byte, length, wo)

    def code(self, src):
        """
        A number for each byte string of a family: equal strings have equal
        numbers, different strings different ones (also across families)
        """
        if src.code is None:
            src.code = self.fun(f'code_{src.name}', src.byte.arity() - 1)
        return src.code

    def all_different(self, src, n):
        """The strings 0..n-1 of a family are different from each other"""
        code, n = self.code(src), I(n)

        def pair(a, b):
            x, y = a.arg(0), b.arg(0)
            return [z3.Implies(z3.And(x >= 0, y >= 0, x < n, y < n, x != y), a != b)]
        self.fns[code.name()].pair = pair

    def bytes(self, name, lo=0, hi=None, without=(), cls=SBytes):
        s = self.source(self.fresh_name(name), 0, lo, hi, without)
        return cls([Sl(s, (), 0, mk(s.length()))])

    def whole(self, src, *args):
        return (Sl(src, tuple(mk(I(a)) for a in args), 0, mk(src.length(*[I(a) for a in args]))),)

    def family(self, n, elem, name='k'):
        """Rope of the list [elem(0), ..., elem(n-1)]"""
        k = z3.Int(self.uniq(f'i_{name}'))
        return (FM(Body(k, [El(elem(k))], SInt(k)), 0, n),)

    def seq(self, n, segs, name='k'):
        """segs(0) + ... + segs(n-1)"""
        k = z3.Int(self.uniq(f'i_{name}'))
        self.gvars.append(k)
        try:
            s = tuple(segs(SInt(k)))
            return FM(Body(k, s, self.prefix_sum(k, ropelen(s), n)), 0, n)
        finally:
            self.gvars.pop()

    def list(self, n, elem, name='k'):
        return MList(self.family(n, elem, name))

    # ----------------------------------------------------------- arithmetic

    def le(self, a, b):
        d = sub(b, a)
        return d >= 0 if isinstance(d, int) else self.valid(I(d) >= 0)

    def lt(self, a, b):
        d = sub(b, a)
        return d > 0 if isinstance(d, int) else self.valid(I(d) > 0)

    def eq(self, a, b):
        d = sub(a, b)
        return d == 0 if isinstance(d, int) else self.valid(I(d) == 0)

    def prefix_sum(self, k, d, n):
        """
        Term over k for d(0) + ... + d(k-1), built from one canonical
        uninterpreted sum per summand so that equal sums are equal terms
        """
        d = mk(I(d))
        if isinstance(d, int):
            return mul(d, SInt(k))
        total = z3.IntVal(0)
        for coeff, atom in monomials(d.t):
            if atom is None:
                total = total + coeff * k
            elif not occurs(k, atom):
                total = total + coeff * (k * atom)
            else:
                g, atom = common_factor(atom)
                total = total + coeff * g * self._sum_of(k, atom)
        return mk(total)

    def _sum_of(self, k, atom):
        outer = [g for g in self.gvars if not g.eq(k) and occurs(g, atom)]
        canon = [z3.Int(f'sum?{i}') for i in range(len(outer))]
        K = z3.Int('sum?k')
        key = z3.substitute(atom, (k, K), *zip(outer, canon))
        name = f'Sum[{key.sexpr()}]'
        if name not in self.fns:
            decl = z3.Function(name, *([z3.IntSort()] * (len(outer) + 1)), z3.IntSort())

            def at(args):
                return z3.substitute(key, (K, args[-1]), *zip(canon, args[:-1]))
            nonneg = self._always_nonneg(key)
            positive = nonneg and self._always_nonneg(key - 1)

            def gen(*args):
                out = [z3.Implies(args[-1] == 0, decl(*args) == 0)]
                if nonneg:
                    out.append(z3.Implies(args[-1] >= 0, decl(*args) >= (args[-1] if positive else 0)))
                return out

            def rec(*args):
                nxt = list(args[:-1]) + [simp(args[-1] + 1)]
                return [z3.Implies(args[-1] >= 0, decl(*nxt) == decl(*args) + at(args))]

            def pair(a, b):
                if not nonneg:
                    return []
                return monotone(decl, a, b, least=1 if positive else 0)
            self.fns[name] = Fn(decl, gen, rec, pair)
            if key.num_args() == len(outer) + 1 and all(x.eq(y) for x, y in zip(key.children(), canon + [K])):
                self.sums.setdefault(key.decl().name(), []).append(name)
        return self.fns[name].decl(*outer, k)

    def _always_nonneg(self, t):
        """t >= 0 from the facts about functions alone"""
        s = z3.Solver()
        s.set('timeout', 3000)
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().name() in self.fns and \
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                fn = self.fns[x.decl().name()]
                if fn.gen:
                    for f in fn.gen(*x.children()):
                        s.add(f)
                        todo.append(f)
            todo.extend(x.children())
        s.add(z3.Not(t >= 0))
        return s.check() == z3.unsat

    def pending_prefix(self, base, n, guard=None):
        """
        A new prefix function for the loop being summarised: P(outer..., k).
        Its recurrence is filled in once the body is known.
        """
        name = self.uniq(base)
        outer = list(self.gvars)
        decl = z3.Function(name, *([z3.IntSort()] * (len(outer) + 1)), z3.IntSort())
        fn = Fn(decl)
        fn.fixed = False

        def gen(*args):
            return [z3.Implies(args[-1] == 0, decl(*args) == 0)]
        fn.gen = gen
        self.fns[name] = fn
        return fn, outer

    def fix_prefix(self, fn, outer, k, d, n, nonneg, facts=()):
        # nonneg and facts come with the conditions they were derived under
        """Give the recurrence P(k+1) = P(k) + d(k) for 0 <= k < n"""
        decl = fn.decl
        d, n = I(d), I(n)

        def inst(t, args):
            return z3.substitute(t, (k, args[-1]), *zip(outer, args[:-1]))

        def gen(*args):
            out = [z3.Implies(args[-1] == 0, decl(*args) == 0)]
            rng = [args[-1] >= 0, args[-1] <= inst(n, args)]
            if nonneg is not None:
                out.append(z3.Implies(z3.And(rng + [inst(c, args) for c in nonneg]), decl(*args) >= 0))
            for fact, guard in facts:
                out.append(z3.Implies(z3.And(rng + [inst(c, args) for c in guard]), fact(decl(*args))))
            return out

        def rec(*args):
            nxt = list(args[:-1]) + [simp(args[-1] + 1)]
            return [z3.Implies(z3.And(args[-1] >= 0, args[-1] < inst(n, args)),
                               decl(*nxt) == decl(*args) + inst(d, args))]

        def pair(a, b):
            if nonneg is None:
                return []
            return monotone(decl, a, b, lambda args: inst(n, args), lambda args: [inst(c, args) for c in nonneg])
        fn.gen, fn.rec, fn.pair = gen, rec, pair
        fn.fixed = True

    # ---------------------------------------------------------------- ropes

    def split(self, segs, off):
        """Split a rope at an offset that lies within it"""
        left = []
        segs = list(segs)
        rem = off
        i = 0
        while True:
            if isinstance(rem, int) and rem == 0:
                return tuple(left), tuple(segs[i:])
            if i >= len(segs):
                if self.eq(rem, 0):
                    return tuple(left), ()
                raise Unsupported('offset beyond the end of a rope')
            s = segs[i]
            n = seglen(s)
            if isinstance(rem, int) and isinstance(n, int):
                if rem >= n:
                    left.append(s)
                    rem -= n
                    i += 1
                    continue
                if isinstance(s, Al):
                    segs[i:i + 1] = s.a if self.decide(s.c) else s.b
                    continue
                a, b = self.split_seg(s, rem)
                return tuple(left) + a, b + tuple(segs[i + 1:])
            if self.le(n, rem):
                left.append(s)
                rem = sub(rem, n)
                i += 1
                continue
            if self.eq(rem, 0):
                return tuple(left), tuple(segs[i:])
            if isinstance(s, Al):
                segs[i:i + 1] = s.a if self.decide(s.c) else s.b
                continue
            if not self.le(rem, n):
                if isinstance(s, FM) and isinstance(rem, int) and self.le(1, ropelen(s.body.at(s.lo))):
                    # a few bytes are taken from the first elements, if any
                    if self.decide(I(s.lo) < I(s.hi)):
                        segs[i:i + 1] = tuple(s.body.at(s.lo)) + (FM(s.body, add(s.lo, 1), s.hi),)
                    else:
                        i += 1
                    continue
                if not self.decide(I(rem) < I(n)):
                    left.append(s)
                    rem = sub(rem, n)
                    i += 1
                    continue
            if isinstance(s, El):
                if self.decide(I(rem) == 0):
                    return tuple(left), tuple(segs[i:])
                left.append(s)
                rem = sub(rem, 1)
                i += 1
                continue
            a, b = self.split_seg(s, rem)
            return tuple(left) + a, b + tuple(segs[i + 1:])

    def split_seg(self, s, off):
        if isinstance(s, Lit):
            if not isinstance(off, int):
                off = self.concretize(off, 0, len(s.b))
            return (Lit(s.b[:off]),), (Lit(s.b[off:]),)
        if isinstance(s, Pk):
            if not isinstance(off, int):
                off = self.concretize(off, 0, s.w)
            order = range(s.w - 1, -1, -1) if s.big else range(s.w)
            bs = [Pb(s, i) for i in order]
            return tuple(bs[:off]), tuple(bs[off:])
        if isinstance(s, Sl):
            return (Sl(s.src, s.args, s.off, off),), (Sl(s.src, s.args, add(s.off, off), sub(s.n, off)),)
        if isinstance(s, Fi):
            return (Fi(s.b, off),), (Fi(s.b, sub(s.n, off)),)
        if isinstance(s, FM):
            t, r = self.find_index(s, off)
            if isinstance(r, int) and r == 0:
                return (FM(s.body, s.lo, t),), (FM(s.body, t, s.hi),)
            a, b = self.split(s.body.at(t), r)
            left = join((FM(s.body, s.lo, t),), a)
            right = join(b, (FM(s.body, add(t, 1), s.hi),))
            return left, right
        e = Unsupported(f'cut inside {s!r} at {off}')
        if isinstance(s, Pend):
            e.pend = (s, off)
        raise e

    def constant(self, x):
        """The only value x can have, or x"""
        if isinstance(x, int) or self.gvars:
            return x
        self.push()
        try:
            self.note(I(x) == 0)
            if self._check() != z3.sat:
                return x
            v = self.solver.model().eval(I(x), model_completion=True)
        finally:
            self.pop()
        if z3.is_int_value(v) and self.valid(I(x) == v):
            return v.as_long()
        return x

    def concretize(self, x, lo, hi):
        """Case split an integer with a small known range"""
        for v in range(lo, hi):
            if self.decide(I(x) == v):
                return v
        return hi

    def find_index(self, s, off):
        """Index t and remainder r with off = P(t) - P(lo) + r inside body(t)"""
        b = s.body
        target = add(off, b.prefix(s.lo))
        k = b.k
        # constant element size
        if not isinstance(b.P, int):
            step = mk(z3.substitute(I(b.P), (k, k + 1)) - I(b.P))
            if isinstance(step, int) and step > 0:
                base = b.prefix(0)
                x = sub(target, base)
                q, r = divmod_syntactic(x, step)
                if q is None:
                    q, r = mk(I(x) / step), mk(I(x) % step)
                if self.le(s.lo, q) and (self.lt(q, s.hi) or isinstance(r, int) and r == 0 and self.le(q, s.hi)):
                    return q, r
            elif not isinstance(step, int) and not occurs(k, step.t):
                # step is the same for all k but not a number
                q = self.factor(sub(target, b.prefix(0)), step)
                if q is not None:
                    q, r = q
                    if self.le(s.lo, q) and self.lt(q, s.hi):
                        return q, r
        # match P(t) in the offset
        pnames = {a.decl().name() for a in ufs(I(b.P)) if occurs(k, a)}
        cands = []
        for a in ufs(I(target)):
            if a.decl().name() in pnames:
                cands.append(a.arg(a.num_args() - 1))
                cands.append(simp(a.arg(a.num_args() - 1) - 1))
        cands += [s.lo]
        if self.gvars:
            cands += list(reversed(self.gvars))
        seen = set()
        for t in cands:
            t = mk(I(t))
            key = str(t)
            if key in seen:
                continue
            seen.add(key)
            r = sub(target, b.prefix(t))
            if self.le(s.lo, t) and self.lt(t, s.hi) and self.le(0, r) and \
                    self.le(r, ropelen(b.at(t))):
                return t, r
        # the end of the sequence may be possible, too
        for t in cands:
            t = mk(I(t))
            r = sub(target, b.prefix(t))
            if self.le(s.lo, t) and self.le(t, s.hi) and self.eq(r, 0):
                return (t, 0) if self.decide(I(t) < I(s.hi)) else (s.hi, 0)
        raise Unsupported(f'cannot locate offset {off} in {s!r}')

    def factor(self, x, step):
        """q, r with x = q*step + r, guessed from the monomials of x"""
        x, step = mk(I(x)), mk(I(step))
        stepm = monomials(I(step))
        if len(stepm) != 1:
            # try the loop variables as quotient
            for g in reversed(self.gvars):
                r = mk(I(x) - g * I(step))
                if self.le(0, r) and self.lt(r, step):
                    return SInt(g), r
            return None
        c, atom = stepm[0]
        q = z3.IntVal(0)
        r = z3.IntVal(0)
        for cx, ax in monomials(I(x)):
            rest = divide_atom(ax, atom)
            if rest is not None and cx % c == 0:
                q = q + (cx // c) * rest
            else:
                r = r + cx * (ax if ax is not None else 1)
        q, r = mk(q), mk(r)
        if self.le(0, r) and self.lt(r, step):
            return q, r
        return None

    def slice(self, segs, a, b):
        """segs[a:b] for offsets known to be within the rope, a <= b"""
        left, right = self.split(segs, a)
        mid, _ = self.split(right, sub(b, a))
        return join(mid)

    def norm_index(self, i, n):
        """Python slice index to an offset in 0..n"""
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            return min(max(i, 0), n)
        if isinstance(i, int) and i < 0:
            i = add(n, i)
            if self.le(0, i) or self.decide(I(i) >= 0):
                return i
            return 0
        if not isinstance(i, int) and not self.le(0, i):
            if self.decide(I(i) < 0):
                i = add(n, i)
                if not self.decide(I(i) >= 0):
                    return 0
        if self.le(i, n):
            return i
        if self.decide(I(i) <= I(n)):
            return i
        return n

    def pyslice(self, segs, a, b):
        n = ropelen(segs)
        a = 0 if a is None else self.norm_index(a, n)
        b = n if b is None else self.norm_index(b, n)
        if not self.le(a, b):
            if not self.decide(I(a) <= I(b)):
                return ()
        return self.slice(segs, a, b)

    def at(self, segs, i):
        """The single segment at index i (list element or byte)"""
        _, right = self.split(segs, i)
        one, _ = self.split(right, 1)
        one = tuple(s for s in one if not (isinstance(s, (Fi, FM, Al)) and self.eq(seglen(s), 0)))
        if len(one) != 1:
            one = join(one)
        if len(one) != 1:
            raise Unsupported(f'element at {i}: {one!r}')
        s = one[0]
        if isinstance(s, Al):
            return self.at(s.a if self.decide(s.c) else s.b, 0)
        if isinstance(s, FM):
            return self.at(s.body.at(s.lo), 0)
        return s

    def byte_terms(self, segs):
        """Integer values of the bytes of a rope of known length"""
        out = []
        todo = list(segs)
        while todo:
            s = todo.pop(0)
            if isinstance(s, Lit):
                out += list(s.b)
            elif isinstance(s, Pk):
                order = range(s.w - 1, -1, -1) if s.big else range(s.w)
                out += [pk_byte(s, i) for i in order]
            elif isinstance(s, Pb):
                out.append(pk_byte(s.pk, s.i))
            elif isinstance(s, Sl):
                n = s.n
                if not isinstance(n, int):
                    n = self.concretize(n, 0, 16)
                out += [mk(s.src.byte(*[I(a) for a in s.args], I(add(s.off, j)))) for j in range(n)]
            elif isinstance(s, Fi):
                n = s.n
                if not isinstance(n, int):
                    n = self.concretize(n, 0, 16)
                out += [s.b] * n
            elif isinstance(s, Al):
                todo[:0] = s.a if self.decide(s.c) else s.b
            elif isinstance(s, FM):
                n = sub(s.hi, s.lo)
                if not isinstance(n, int):
                    n = self.concretize(n, 0, 16)
                for j in range(n):
                    todo[j:j] = s.body.at(add(s.lo, j))
            else:
                raise Unsupported(f'bytes of {s!r}')
        return out

    def read_uint(self, segs, w, big, signed):
        """Integer stored in a rope of exactly w bytes"""
        segs = join(segs)
        while any(isinstance(x, (Al, FM)) for x in segs):
            i = next(i for i, x in enumerate(segs) if isinstance(x, (Al, FM)))
            x = segs[i]
            if isinstance(x, Al):
                new = x.a if self.decide(x.c) else x.b
            else:
                n = sub(x.hi, x.lo)
                if not isinstance(n, int):
                    n = 1 if self.eq(n, 1) else self.concretize(n, 0, 16)
                new = tuple(y for j in range(n) for y in x.body.at(add(x.lo, j)))
            segs = join(segs[:i], new, segs[i + 1:])
        if len(segs) == 1 and isinstance(segs[0], Pk):
            s = segs[0]
            if s.w == w and (s.big == big or w == 1):
                if s.signed == signed:
                    return s.t
                u = s.unsigned()
                return self.to_signed(u, w) if signed else u
        if all(isinstance(s, Lit) for s in segs):
            return int.from_bytes(b''.join(s.b for s in segs), 'big' if big else 'little', signed=signed)
        if all(isinstance(s, Pb) for s in segs) and len({id(s.pk) for s in segs}) == 1 \
                and segs[0].pk.big == big:
            idx = [s.i for s in segs]
            if big:
                idx.reverse()
            if idx == list(range(idx[0], idx[0] + w)):
                u = mk((I(segs[0].pk.unsigned()) / (1 << (8 * idx[0]))) % (1 << (8 * w)))
                return self.to_signed(u, w) if signed else u
        bs = self.byte_terms(segs)
        if len(bs) != w:
            raise Unsupported('wrong length')
        if big:
            bs = bs[::-1]
        u = add(*[mul(b, 1 << (8 * i)) for i, b in enumerate(bs)])
        return self.to_signed(u, w) if signed else u

    def to_signed(self, u, w):
        h = 1 << (8 * w - 1)
        if isinstance(u, int):
            return u - 2 * h if u >= h else u
        if self.lt(u, h):
            return u
        return mk(z3.If(u.t >= h, u.t - 2 * h, u.t))

    def drop_empty(self, segs):
        out = []
        for s in segs:
            if isinstance(s, (Fi, FM, Al, Sl)):
                n = seglen(s)
                if self.eq(n, 0):
                    continue
            out.append(s)
        return join(out)

    # ----------------------------------------------------------- comparing

    def ropes_equal(self, a, b, name, depth=0):
        """Obligations for the equality of two ropes"""
        if self.skip:
            self.skipped = True
            return
        from .interp import prove_equal
        a, b = list(a), list(b)
        steps = 0
        while True:
            steps += 1
            if steps > 3000:
                raise Unsupported('comparison does not end')
            while a and self.zero(a[0]):
                a.pop(0)
            while b and self.zero(b[0]):
                b.pop(0)
            if not a or not b:
                if not a and not b:
                    self.record(name, 'proved', 0)
                    return
                rest = a or b
                self.prove(I(ropelen(rest)) == 0, f'{name}: same length')
                return
            x, y = a[0], b[0]
            if isinstance(x, Al):
                a[0:1] = x.a if self.decide(x.c) else x.b
                continue
            if isinstance(y, Al):
                b[0:1] = y.a if self.decide(y.c) else y.b
                continue
            if isinstance(x, Lit) and isinstance(y, Lit):
                n = min(len(x.b), len(y.b))
                self.prove(x.b[:n] == y.b[:n], f'{name}: literal bytes')
                a[0:1] = [Lit(x.b[n:])] if len(x.b) > n else []
                b[0:1] = [Lit(y.b[n:])] if len(y.b) > n else []
                continue
            if isinstance(x, Pk) and isinstance(y, Pk) and x.w == y.w and x.big == y.big:
                self.prove(I(x.unsigned()) == I(y.unsigned()), f'{name}: packed value')
                a.pop(0), b.pop(0)
                continue
            if isinstance(x, El) and isinstance(y, El):
                prove_equal(self, x.v, y.v, f'{name}: element', depth + 1)
                a.pop(0), b.pop(0)
                continue
            if isinstance(x, FM) and isinstance(y, FM):
                if self.same_count(a, b) or self.same_count(b, a):
                    continue
                if self.fm_equal(x, y, name, depth):
                    a.pop(0), b.pop(0)
                    continue
                if self.threshold(a, y) or self.threshold(b, x):
                    continue
            if isinstance(x, Fi) and isinstance(y, Fi) and self.eq(x.n, y.n):
                prove_equal(self, x.b, y.b, f'{name}: filler', depth + 1)
                a.pop(0), b.pop(0)
                continue
            if isinstance(x, Sl) and isinstance(y, Sl) and x.src is y.src:
                ok = all(self.eq(p, q) for p, q in zip(x.args, y.args)) and self.eq(x.off, y.off)
                if ok:
                    if self.eq(x.n, y.n):
                        self.record(f'{name}: opaque bytes', 'proved', 0)
                        a.pop(0), b.pop(0)
                        continue
                    if self.le(x.n, y.n) or not self.le(y.n, x.n) and self.decide(I(x.n) <= I(y.n)):
                        a.pop(0)
                        b[0] = Sl(y.src, y.args, add(y.off, x.n), sub(y.n, x.n))
                    else:
                        b.pop(0)
                        a[0] = Sl(x.src, x.args, add(x.off, y.n), sub(x.n, y.n))
                    continue
            # peel or compare byte-wise / element-wise
            if isinstance(x, FM):
                if self.peel(a):
                    continue
            if isinstance(y, FM):
                if self.peel(b):
                    continue
            nx, ny = seglen(x), seglen(y)
            if isinstance(nx, int) and isinstance(ny, int):
                n = min(nx, ny)
            elif self.le(nx, ny):
                n = nx
            elif self.le(ny, nx):
                n = ny
            else:
                n = nx if self.decide(I(nx) <= I(ny)) else ny
            xa, xb = self.split([x], n)
            ya, yb = self.split([y], n)
            if isinstance(n, int) and n <= 64:
                if isinstance(x, El) or isinstance(y, El) or (isinstance(x, Fi) and not isinstance(x.b, int)):
                    p, q = self.at(xa, 0), self.at(ya, 0)
                    xa2, xr = self.split(xa, 1)
                    ya2, yr = self.split(ya, 1)
                    pv = p.v if isinstance(p, El) else p.b
                    qv = q.v if isinstance(q, El) else q.b
                    prove_equal(self, pv, qv, f'{name}: element', depth + 1)
                    a[0:1] = list(xr) + list(xb)
                    b[0:1] = list(yr) + list(yb)
                    continue
                xs, ys = self.byte_terms(xa), self.byte_terms(ya)
                self.prove(z3.And([I(p) == I(q) for p, q in zip(xs, ys)] or [z3.BoolVal(True)]),
                           f'{name}: bytes')
                a[0:1] = list(xb)
                b[0:1] = list(yb)
                continue
            if isinstance(x, (Sl, Fi)) and isinstance(y, (Sl, Fi)):
                # generic byte
                j = SInt(z3.Int(self.uniq('j')))
                self.push()
                mark = len(self.pc)
                try:
                    self.assume(z3.And(j.t >= 0, j.t < I(n)))
                    p, q = byte_at(x, j), byte_at(y, j)
                    self.prove(I(p) == I(q), f'{name}: byte at any position')
                finally:
                    del self.pc[mark:]
                    self.pop()
                a[0:1] = list(xb)
                b[0:1] = list(yb)
                continue
            if (isinstance(x, FM) and isinstance(y, (Fi, Sl))) or (isinstance(y, FM) and isinstance(x, (Fi, Sl))):
                self.fm_against(x, y, n, name)
                a[0:1] = list(xb)
                b[0:1] = list(yb)
                continue
            self.record(name, 'failed', 0, f'cannot match {x!r} with {y!r}', model=self.model())
            raise Failed(name)

    def fm_against(self, x, y, n, name):
        raise Unsupported(f'{name}: comparing {x!r} with {y!r}')

    def zero(self, s):
        n = seglen(s)
        if isinstance(n, int):
            return n == 0
        return self.eq(n, 0)

    def peel(self, segs):
        """Expand an FM of known small count"""
        s = segs[0]
        n = sub(s.hi, s.lo)
        if isinstance(n, SInt) and self.eq(n, 1):
            n = 1
        if isinstance(n, int) and n <= 64:
            out = []
            for j in range(n):
                out += s.body.at(add(s.lo, j))
            segs[0:1] = out
            return True
        return False

    def threshold(self, segs, other):
        """
        Elements of the one kind followed by elements of the other kind,
        when there are as many of the first kind as there are in other
        """
        s = segs[0]
        if len(s.body.segs) != 1 or not isinstance(s.body.segs[0], Al):
            return False
        t = add(s.lo, sub(other.hi, other.lo))
        k = z3.Int(self.uniq('k'))
        al, = s.body.at(SInt(k))
        c = al.c.t if isinstance(al.c, SBool) else al.c
        if not (self.le(s.lo, t) and self.le(t, s.hi) and
                self.valid(z3.Implies(z3.And(I(s.lo) <= k, k < I(t)), c)) and
                self.valid(z3.Implies(z3.And(I(t) <= k, k < I(s.hi)), z3.Not(c)))):
            return False
        self.gvars.append(k)
        one, two = (FM(Body(k, p, self.prefix_sum(k, ropelen(p), s.hi)), lo, hi) for p, lo, hi in ((al.a, s.lo, t), (al.b, t, s.hi)))
        self.gvars.pop()
        segs[0:1] = [one, two]
        return True

    def same_count(self, a, b):
        """Cut the longer of two sequences that begin ropes; whether it was b"""
        x, y = a[0], b[0]
        lx, ly = ropelen(x.body.segs), ropelen(y.body.segs)
        nx, ny = sub(x.hi, x.lo), sub(y.hi, y.lo)
        if len(a) == 1 or same(nx, ny):
            return False
        if isinstance(lx, SInt) or not same(lx, ly):
            g = SInt(z3.Int('g?'))
            if x.body is not y.body and repr(x.body.at(g)) != repr(y.body.at(g)) or not self.eq(x.lo, y.lo):
                return False
        if not self.lt(nx, ny):
            return False
        m = add(y.lo, nx)
        b[0:1] = [FM(y.body, y.lo, m), FM(y.body, m, y.hi)]
        return True

    def fm_equal(self, x, y, name, depth):
        from .interp import prove_equal
        if x.body is y.body and self.eq(x.lo, y.lo) and self.eq(x.hi, y.hi):
            self.record(f'{name}: same elements', 'proved', 0)
            return True
        if not self.eq(sub(x.hi, x.lo), sub(y.hi, y.lo)):
            lx, ly = ropelen(x.body.segs), ropelen(y.body.segs)
            if same(lx, ly) and not isinstance(lx, SInt):
                self.prove(I(sub(x.hi, x.lo)) == I(sub(y.hi, y.lo)), f'{name}: number of elements')
            return False
        g = z3.Int(self.uniq('g'))
        outs = []

        def one():
            self.gvars.append(g)
            self.assume(z3.And(g >= I(x.lo), g < I(x.hi)))
            self.ropes_equal(x.body.at(SInt(g)), y.body.at(add(SInt(g), sub(y.lo, x.lo))),
                             f'{name}[i]', depth + 1)
        outs = self.explore(one, serial())
        for dec, (kind, v), _ in outs:
            if kind == 'raise':
                raise v
        return True


def plain(v):
    return v.as_long() if z3.is_int_value(v) else z3.is_true(v)


def pk_byte(pk, i):
    t = pk.unsigned()
    if isinstance(t, int):
        return (t >> (8 * i)) & 255
    t = I(t)
    if pk.w == 1:
        return mk(t)
    if i == pk.w - 1:
        return mk(t / (1 << (8 * i)))
    return mk((t / (1 << (8 * i))) % 256)


def byte_at(s, j):
    if isinstance(s, Sl):
        return mk(s.src.byte(*[I(a) for a in s.args], I(add(s.off, j))))
    if isinstance(s, Fi):
        return s.b
    raise Unsupported(f'byte of {s!r}')


def monotone(decl, a, b, bound=None, guard=None, least=0):
    ax, bx = a.children(), b.children()
    same_outer = [p == q for p, q in zip(ax[:-1], bx[:-1])]
    out = []
    for u, v, ua, va in ((a, b, ax, bx), (b, a, bx, ax)):
        cond = same_outer + [ua[-1] >= 0, ua[-1] <= va[-1]]
        if bound is not None:
            cond.append(va[-1] <= bound(va))
        if guard is not None:
            cond += guard(va)
        out.append(z3.Implies(z3.And(cond), u + (va[-1] - ua[-1]) <= v if least else u <= v))
    return out


def occurs(k, t):
    if not isinstance(t, z3.ExprRef):
        t = I(t)
    stack = [t]
    seen = set()
    kid = k.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() == kid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def ufs(t):
    """Uninterpreted applications in a term, outermost first"""
    out = []
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


def monomials(t):
    """[(coefficient, atom or None)] of a simplified sum"""
    t = simp(t)
    terms = t.children() if z3.is_add(t) else [t]
    out = []
    for x in terms:
        if z3.is_int_value(x):
            out.append((x.as_long(), None))
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)):
            rest = x.children()[1:]
            out.append((x.arg(0).as_long(), rest[0] if len(rest) == 1 else z3.Product(*rest)))
        else:
            out.append((1, x))
    return out


def common_factor(t):
    """g, u with t = g * u, for a conditional term"""
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return 1, t
    c, x, y = t.children()
    mx, my = monomials(z3.simplify(x)), monomials(z3.simplify(y))
    g = 0
    for q, _ in mx + my:
        g = math.gcd(g, q)
    if g <= 1:
        return 1, t

    def scaled(ms):
        return z3.simplify(z3.Sum([z3.IntVal(q // g) * (z3.IntVal(1) if a is None else a) for q, a in ms] + [z3.IntVal(0)]))
    return g, z3.simplify(z3.If(c, scaled(mx), scaled(my)))


def factors(a):
    if z3.is_mul(a):
        out = []
        for c in a.children():
            out += factors(c)
        return out
    return [a]


def divide_atom(a, b):
    """a / b for products of atoms, or None"""
    if a is None:
        return None
    fa = factors(a)
    fb = factors(b)
    for f in fb:
        for i, x in enumerate(fa):
            if x.eq(f):
                del fa[i]
                break
        else:
            return None
    if not fa:
        return z3.IntVal(1)
    return fa[0] if len(fa) == 1 else z3.Product(*fa)


def divmod_syntactic(x, c):
    """x = c*q + r with 0 <= r < c, read off the coefficients"""
    if isinstance(x, int):
        return divmod(x, c)
    q = z3.IntVal(0)
    const = 0
    for co, atom in monomials(x.t):
        if atom is None:
            const = co
        elif co % c == 0:
            q = q + (co // c) * atom
        else:
            return None, None
    d, r = divmod(const, c)
    return mk(q + d), r


class Flow(Exception):
    """break, continue or return of the interpreted code"""
    def __init__(self, kind, value=None):
        super().__init__(kind)
        self.kind, self.value = kind, value


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()
MISSING = _MISSING
