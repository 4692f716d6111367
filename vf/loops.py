"""
Loops of unknown length.

A loop is summarised by induction over the iteration number k: every slot
(variable, attribute, byte string, list) that an iteration may change gets
a form, i.e. its value as a function of k. One generic iteration is
executed with all slots in form(k); the forms are accepted if the
iteration leaves every slot in form(k+1), on every path, and if they hold
at k = 0. Nothing is assumed about a slot without a form: reading it ends
the attempt.
"""
import ast

import z3

from .terms import *
from .engine import (PyRaise, Infeasible, Failed, Abort, Flow, MISSING,
                     occurs, ufs, monomials)
from . import builtin_ops as ops


DEBUG = False


class Slot:
    """
    kind: temp   set in every iteration before it is read
          int    old + P(k)
          prev   If(k == 0, old, val(k-1))
          bool   pending boolean
          rope   old ++ what iterations 0..k-1 appended
          value  the same for an immutable byte string, text or tuple in a variable
          array  old[:base] ++ what iterations 0..k-1 stored ++ old[base + done(k):],
                 done(k) = k*step, or the offset stored at less base
    """
    def __init__(self, d, key, old):
        self.d, self.key, self.old = d, key, old
        self.kind = 'temp'
        self.fn = None          # pending prefix function
        self.outer = None
        self.P = None           # closed form: term over self.K
        self.K = None
        self.prev = None        # value of one iteration, over self.K
        self.base = self.step = None
        self.nonneg = True
        self.candidate = None

    def __repr__(self):
        return f'Slot({self.key},{self.kind})'

    def done(self, t):
        """Length of what t iterations stored in an array"""
        t = mk(t) if isinstance(t, z3.ExprRef) else t
        if self.step is not None:
            return mul(t, self.step)
        return sub(mk(z3.substitute(I(self.offset), (self.K, I(t)))), self.base)

    def prefix(self, t):
        """Term for P(t)"""
        if self.P is not None:
            if isinstance(self.P, int):
                return self.P
            return mk(z3.substitute(I(self.P), (self.K, I(t))))
        return SInt(self.fn.decl(*self.outer, I(t)))


def assigned(node):
    """Local names a loop assigns to"""
    out = []
    stack = list(node.body) + [node.target] if isinstance(node, ast.For) else list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
            out.append(x.id)
        stack.extend(ast.iter_child_nodes(x))
    return out


def wrap(slot, segs):
    """Value of a slot from its rope"""
    if slot.kind == 'value':
        o = slot.old
        if ops.is_text(o):
            return SStr(segs)
        if isinstance(o, (tuple, STuple)):
            return STuple(segs)
        return SBytes(segs)
    return tuple(segs)


def old_segs(ip, slot):
    o = slot.old
    if slot.kind == 'value':
        if ops.is_text(o):
            return ops.text_segs(o)
        if isinstance(o, (tuple, STuple)):
            return ops.list_segs(ip, o)
        return ops.byte_segs(o)
    return o


def new_segs(ip, slot, v):
    if slot.kind == 'value':
        if ops.is_text(v):
            return ops.text_segs(v)
        if isinstance(v, (tuple, STuple)):
            return ops.list_segs(ip, v)
        if ops.is_bytes(v):
            return ops.byte_segs(v)
        raise Unsupported(f'{slot.key} changes its type in a loop')
    return v


class Summary:
    def __init__(self, ip, n, one, frame=None, node=None, noexit=False):
        self.ip, self.E = ip, ip.E
        self.n, self.one = n, one
        self.frame, self.node = frame, node
        self.noexit = noexit
        self.slots = {}
        self.since = serial()
        self.k = z3.Int(self.E.uniq('k'))
        if frame is not None and isinstance(node, (ast.For, ast.While)):
            for name in assigned(node):
                if name not in frame.globals_decl and name not in frame.nonlocals \
                        and not isinstance(frame.vars.get(name), (MBytes, MList)):
                    self.add_slot(frame.vars, name)

    # ------------------------------------------------------------ forms

    def pend(self, slot):
        E = self.E
        if slot.fn is None:
            slot.fn, slot.outer = E.pending_prefix(f'P_{slot.key}', self.n)
            decl = slot.fn.decl

            def gen(*args):
                out = [z3.Implies(args[-1] == 0, decl(*args) == 0)]
                if slot.nonneg:
                    out.append(z3.Implies(args[-1] >= 0, decl(*args) >= 0))
                return out
            slot.fn.gen = gen

    def form(self, slot, t):
        """Value of a slot before iteration t"""
        E = self.E
        if slot.kind == 'temp':
            p = Poison(slot)
            return p
        if slot.kind == 'int':
            self.pend(slot)
            return add(slot.old, slot.prefix(t))
        if slot.kind == 'bool':
            if slot.fn is None:
                name = E.uniq(f'B_{slot.key}')
                slot.outer = list(E.gvars)
                slot.fn = z3.Function(name, *([z3.IntSort()] * (len(slot.outer) + 1)), z3.BoolSort())
                slot.pname = name
            return SBool(slot.fn(*slot.outer, I(t)))
        if slot.kind == 'prev':
            t = I(t)
            v = subst(slot.prev, [(slot.K, simp(t - 1))])
            if isinstance(t, z3.IntNumRef) and t.as_long() == 0:
                return slot.old
            from .interp import join_values
            j = join_values(t == 0, slot.old, v)
            if j is MISSING:
                j = Choice(t == 0, slot.old, v)
            return j
        if slot.kind in ('rope', 'value'):
            self.pend(slot)
            return wrap(slot, join(old_segs(self.ip, slot), (Pend(slot.prefix(t), slot),)))
        if slot.kind == 'array':
            done = slot.done(t)
            left, rest = E.split(slot.old, slot.base)
            _, right = E.split(rest, done)
            return join(left, (Pend(done, slot),), right)
        raise AssertionError(slot.kind)

    def setup(self, k):
        """Put all slots in the state before iteration k"""
        for s in self.slots.values():
            v = self.form(s, SInt(k))
            s.set = v
            self.E.set(s.d, s.key, v)

    def attempt(self):
        E = self.E
        k = self.k

        def one():
            # pending functions have the enclosing variables as arguments
            for s in self.slots.values():
                if s.kind in ('int', 'rope', 'value'):
                    self.pend(s)
                elif s.kind == 'bool':
                    self.form(s, 0)
            E.gvars.append(k)
            E.assume(z3.And(k >= 0, k < I(self.n)))
            self.setup(k)
            try:
                self.one(SInt(k))
            except Flow as f:
                if f.kind != 'continue':
                    raise
        return E.explore(one, self.since)

    # ------------------------------------------------------------ solving

    def solve(self):
        """Find forms; leaves self.outs (no-exit paths) and self.exits"""
        E = self.E
        mo, md = len(E.obligations), len(E.deferred)
        # obligations within the loop wait until its form is known
        dry = True
        was = E.skipped
        for _ in range(40):
            del E.obligations[mo:]
            del E.deferred[md:]
            E.skipped = False
            try:
                E.skip += dry
                try:
                    outs = self.attempt()
                finally:
                    E.skip -= dry
            except Abort as e:
                if e.args[0] != 'poison' or not isinstance(e.args[1], Slot) \
                        or e.args[1] not in self.slots.values():
                    raise
                self.upgrade(e.args[1])
                continue
            except Unsupported as e:
                if self.rearrange(e):
                    continue
                raise
            if self.discover(outs):
                dry = True
                continue
            self.exits = [o for o in outs if o[1][0] != 'ok']
            self.outs = [o for o in outs if o[1][0] == 'ok']
            if not self.outs:
                # every iteration leaves the loop
                if self.noexit:
                    raise Unsupported('the loop may end earlier')
            elif self.close():
                dry = True
                continue
            if self.noexit and self.exits:
                raise Unsupported('the loop may end earlier')
            if E.skipped and not E.skip:
                dry = False
                continue
            E.skipped = E.skipped or was
            return
        raise Unsupported('no stable loop summary')

    def discover(self, outs):
        found = False
        for dec, res, delta in outs:
            for key, (d, name, v) in delta.items():
                if key not in self.slots and not (isinstance(v, (MBytes, MList)) and v is d.get(name)):
                    self.add_slot(d, name)
                    found = True
        return found

    def add_slot(self, d, name):
        old = d.get(name, False if d.isset else MISSING)
        s = Slot(d, name, old)
        if d.isrope and name == 'v':
            s.kind = 'rope'
        elif name == PAIRS:
            s.kind = 'rope'
            if old is MISSING:
                s.old = ()
        elif d.isset:
            s.kind = 'bool'
        self.slots[id(d), name] = s

    def upgrade(self, s):
        o = s.old
        if isinstance(o, (bool, SBool)):
            s.kind = 'bool'
        elif is_int(o):
            s.kind = 'int'
        elif ops.is_bytes(o) and not isinstance(o, MBytes) or ops.is_text(o) or isinstance(o, (tuple, STuple)):
            s.kind = 'value'
        elif s.prev is not None:
            s.kind = 'prev'
        else:
            raise Unsupported(f'loop variable {s.key} with initial value {o!r}')

    def rearrange(self, e):
        """After a failure: other forms worth trying"""
        E = self.E
        pd = getattr(e, 'pend', None)
        if pd is not None and isinstance(pd[0].tag, Slot) and pd[0].tag in self.slots.values():
            s = pd[0].tag
            if s.kind == 'rope' and s.candidate is None:
                # stored at an offset before the end
                s.candidate = 'array'
        # a cursor that follows the elements of a rope in scope
        ints = [s for s in self.slots.values() if s.kind == 'int' and s.P is None]
        for s in ints:
            if s.candidate is None:
                s.candidate = self.steps(s) or self.cursor_forms()
            if s.candidate:
                P, K = s.candidate.pop(0)
                s.P, s.K = P, K
                s.guessed = True
                return True
        guessed = [s for s in self.slots.values() if getattr(s, 'guessed', False)]
        for s in guessed:
            if s.candidate:
                s.P, s.K = s.candidate.pop(0)
                return True
        return False

    def steps(self, s):
        """A variable to which the same is added in every iteration"""
        if not isinstance(self.node, ast.For) or s.d is not self.frame.vars:
            return []
        names = [x for x in ast.walk(self.node) if isinstance(x, ast.Name) and x.id == s.key and isinstance(x.ctx, ast.Store)]
        adds = [x for x in self.node.body if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add)
                and isinstance(x.target, ast.Name) and x.target.id == s.key]
        if len(names) != 1 or len(adds) != 1:
            return []
        e = adds[0].value
        v = e.value if isinstance(e, ast.Constant) else None
        if isinstance(e, ast.Name) and (id(s.d), e.id) not in self.slots:
            v = self.frame.vars.get(e.id)
        return [(mul(v, SInt(self.k)), self.k)] if is_int(v) and not isinstance(v, bool) else []

    def cursor_forms(self):
        """Prefix functions of the sequences reachable from the frame"""
        out = []
        seen = set()
        for fm in self.sequences():
            b = fm.body
            if isinstance(b.P, int) or not same(fm.lo, 0):
                continue
            key = str(b.P) if not isinstance(b.P, SInt) else z3.substitute(b.P.t, (b.k, z3.Int('sum?k'))).sexpr()
            if key in seen:
                continue
            seen.add(key)
            if occurs(b.k, b.P):
                out.append((sub(b.P, b.prefix(0)), b.k))
        return out

    def sequences(self):
        out = []

        def walk(segs, depth=0):
            for s in segs:
                if isinstance(s, FM):
                    out.append(s)
                elif isinstance(s, Al):
                    walk(s.a), walk(s.b)
        fr = self.frame
        while fr is not None:
            for v in list(fr.vars.values()):
                if isinstance(v, (SBytes, MBytes, MList, STuple)):
                    walk(v.segs)
            fr = fr.parent
        return out

    # ------------------------------------------------------------ closing

    def value(self, outs, s):
        """Merged value of a slot after the iteration, over all paths"""
        vals = [(dec, delta[id(s.d), s.key][2] if (id(s.d), s.key) in delta else s.old)
                for dec, _, delta in outs]
        return vals

    def merge(self, vals):
        from .interp import join_values
        acc = vals[-1][1]
        for dec, v in reversed(vals[:-1]):
            c = z3.And(dec) if dec else z3.BoolVal(True)
            if v is MISSING or acc is MISSING:
                return Poison(None) if v is not acc else acc
            j = join_values(c, v, acc)
            if j is MISSING:
                j = Choice(c, v, acc)
            acc = j
        return acc

    def pending_names(self):
        out = set()
        for s in self.slots.values():
            if s.fn is not None and s.P is None:
                if s.kind in ('int', 'rope', 'value'):
                    out.add(s.fn.decl.name())
                elif s.kind == 'bool':
                    out.add(s.pname)
        return out

    def appended(self, s, v):
        """Segments an iteration added to a rope"""
        segs = new_segs(self.ip, s, v)
        before = join(old_segs(self.ip, s), (Pend(0, None),))[:-1]
        segs = tuple(segs)
        n = len(before)
        if len(segs) > n and isinstance(segs[n], Pend) and segs[n].tag is s \
                and all(same_by_identity(a, b) for a, b in zip(before, segs)):
            return segs[n + 1:]
        e = Unsupported(f'{s.key} is not only appended to')
        e.slot = s
        off = 0
        for a, b in zip(list(before) + [None], segs):
            if a is None or not same_by_identity(a, b):
                if isinstance(a, Fi) and isinstance(b, Fi) and a.b is b.b \
                        or isinstance(a, Sl) and isinstance(b, Sl) and a.src is b.src and same(a.off, b.off) \
                        or isinstance(a, FM) and isinstance(b, FM) and a.body is b.body and same(a.lo, b.lo):
                    off = add(off, seglen(b))
                break
            off = add(off, seglen(b))
        e.off = off
        raise e

    def stored(self, s, v, dec):
        """Segments an iteration stored in place"""
        E = self.E
        left, rest = E.split(s.old, s.base)
        segs = list(v)
        i = next((i for i, x in enumerate(segs) if isinstance(x, Pend) and x.tag is s), None)
        if i is None or len(left) != i or not all(ops.same_seg(E, a, b) or same_by_identity(a, b) for a, b in zip(left, segs)):
            raise Unsupported(f'{s.key} is changed elsewhere')
        E.push()
        try:
            E.solver.add(z3.And(self.k >= 0, self.k < I(self.n), *dec))
            after = s.done(add(SInt(self.k), 1))
            a, b = E.split(segs[i + 1:], s.step if s.step is not None else sub(after, s.done(SInt(self.k))))
            _, right = E.split(rest, after)
            right = join(right)
            b = join(b)
            if len(right) != len(b) or not all(same_by_identity(x, y) or ops.same_seg(E, x, y) for x, y in zip(right, b)):
                raise Unsupported(f'{s.key} is changed elsewhere')
            return a
        finally:
            E.pop()

    def close(self):
        """
        Determine forms from the results of the generic iteration. True if
        something changed, so that the iteration has to be run again.
        """
        E = self.E
        k = self.k
        changed = False
        pend = self.pending_names()
        for s in list(self.slots.values()):
            vals = self.value(self.outs, s)
            if s.kind == 'temp':
                s.prev, s.K = self.merge(vals), k
                continue
            if s.kind == 'int':
                m = self.merge(vals)
                if not is_int(m):
                    raise Unsupported(f'{s.key} is not always an integer')
                s.new = m
                if s.P is not None:
                    continue
                names = {a.decl().name() for a in ufs(I(m))}
                if not names & pend:
                    # does not depend on the previous value
                    at = mk(z3.substitute(I(m), (k, simp(k - 1))))
                    first = mk(z3.substitute(I(m), (k, z3.IntVal(-1))))
                    if E.eq(first, s.old):
                        s.P, s.K = sub(at, s.old), k
                    else:
                        s.P, s.K = mk(z3.If(k == 0, z3.IntVal(0), I(sub(at, s.old)))), k
                    changed = True
                    continue
                d = sub(m, add(s.old, s.prefix(SInt(k))))
                if not ({a.decl().name() for a in ufs(I(d))} & pend):
                    E.gvars.append(k)
                    s.P, s.K = E.prefix_sum(k, d, self.n), k
                    E.gvars.pop()
                    changed = True
                    continue
                s.d_ = d
                continue
            if s.kind == 'bool':
                m = self.merge(vals)
                if not isinstance(m, (bool, SBool)):
                    raise Unsupported(f'{s.key} is not always a boolean')
                if {a.decl().name() for a in ufs(B(m))} & pend:
                    if E.valid_under(z3.And(k >= 0, k < I(self.n)), B(m) == s.fn(*s.outer, k)):
                        # unchanged
                        s.prev, s.K, s.kind = s.old, k, 'prev'
                        changed = True
                        continue
                    raise Unsupported(f'boolean loop state {s.key}')
                s.prev, s.K, s.kind = m, k, 'prev'
                changed = True
                continue
            if s.kind == 'prev':
                m = self.merge(vals)
                from .interp import prove_equal
                s.newprev = m
                continue
            if s.kind in ('rope', 'value'):
                try:
                    parts = [(dec, self.appended(s, v)) for dec, v in vals]
                except Unsupported as e:
                    off = getattr(e, 'off', None)
                    if s.kind == 'rope' and off is not None and self.to_array(s, off):
                        return True
                    raise
                acc = parts[-1][1]
                for dec, segs in reversed(parts[:-1]):
                    if len(segs) == len(acc) and all(same_by_identity(a, b) for a, b in zip(segs, acc)):
                        continue
                    acc = ops.merge_segs(z3.And(dec) if dec else z3.BoolVal(True), segs, acc)
                s.segs = acc
                if s.P is not None:
                    continue
                d = ropelen(acc)
                if isinstance(d, int) or not ({a.decl().name() for a in ufs(I(d))} & pend):
                    E.gvars.append(k)
                    s.P, s.K = E.prefix_sum(k, d, self.n), k
                    E.gvars.pop()
                    changed = True
                else:
                    s.d_ = d
                continue
            if s.kind == 'array':
                parts = [(dec, self.stored(s, v, dec)) for dec, v in vals]
                acc = parts[-1][1]
                for dec, segs in reversed(parts[:-1]):
                    acc = ops.merge_segs(z3.And(dec) if dec else z3.BoolVal(True), segs, acc)
                s.segs = acc
        if changed:
            return True
        rest = [s for s in self.slots.values() if s.kind in ('int', 'rope', 'value') and s.P is None]
        rng = z3.And(k >= 0, k < I(self.n))
        for s in rest:
            if s.kind == 'int' and s.nonneg:
                if not E.valid_under(rng, I(s.prefix(SInt(k))) + I(s.d_) >= 0):
                    s.nonneg = False
                    return True
        redo = False
        if len(rest) == 1 and self.unpadded(rest[0], rng):
            return True
        for s in rest:
            nonneg = E.lasting(rng, I(s.d_) >= 0)
            key = self.recurrence_key(s) if len(rest) == 1 else None
            if key is not None and key in E.recurrences and E.recurrences[key][1:] == (nonneg is None, E.outermost is None):
                # the same recurrence has the same solution
                fn = E.recurrences[key][0]
                s.P, s.K = SInt(fn.decl(*s.outer, k)), k
            else:
                E.fix_prefix(s.fn, s.outer, k, s.d_, self.n, nonneg, self.alignments(s, rng))
                s.P, s.K = SInt(s.fn.decl(*s.outer, k)), k
                if key is not None:
                    E.recurrences[key] = s.fn, nonneg is None, E.outermost is None
            redo = True
        if redo:
            return True
        # all forms are closed: check that the iteration keeps them
        for s in self.slots.values():
            if s.kind == 'int':
                goal = I(add(s.old, s.prefix(add(SInt(k), 1)))) == I(s.new)
                if not E.valid_under(rng, goal):
                    if self.rearrange(Unsupported('')):
                        return True
                    raise Unsupported(f'form of {s.key} is not kept')
                if not E.eq(s.prefix(0), 0):
                    raise Unsupported(f'form of {s.key} does not hold initially')
            elif s.kind in ('rope', 'value'):
                goal = I(s.prefix(add(SInt(k), 1))) == I(s.prefix(SInt(k))) + I(ropelen(s.segs))
                if not E.valid_under(rng, goal):
                    raise Unsupported(f'length of {s.key} is not as expected')
            elif s.kind == 'prev':
                if not self.same_value(s.newprev, s.prev):
                    if mentions_poison(s.newprev):
                        raise Unsupported(f'loop state {s.key}')
                    s.prev, s.K = s.newprev, k
                    s.rounds = getattr(s, 'rounds', 0) + 1
                    if s.rounds > 3:
                        raise Unsupported(f'loop state {s.key} does not settle')
                    return True
        return False

    def unpadded(self, s, rng):
        """Whether a growth is as if its remainders were all 0"""
        E, k = self.E, self.k
        mods = []
        stack = [I(s.d_)]
        while stack:
            t = stack.pop()
            if z3.is_app_of(t, z3.Z3_OP_MOD):
                mods.append((t, z3.IntVal(0)))
            else:
                stack.extend(t.children())
        if not mods:
            return False
        d = mk(simp(z3.substitute(I(s.d_), *mods)))
        if s.fn.decl.name() in {a.decl().name() for a in ufs(I(d))}:
            return False
        E.gvars.append(k)
        P = E.prefix_sum(k, d, self.n)
        E.gvars.pop()
        # if it was so before
        if not E.valid_under(rng, z3.substitute(I(s.d_), (I(s.prefix(SInt(k))), I(P))) == I(d)):
            return False
        s.P, s.K = P, k
        return True

    def recurrence_key(self, s):
        decl = s.fn.decl
        n = decl.arity()
        me = z3.Function('self?', *([z3.IntSort()] * (n + 1)))
        t = z3.substitute_funs(I(s.d_), (decl, me(*[z3.Var(i, z3.IntSort()) for i in range(n)])))
        pairs = [(self.k, z3.Int('rec?k'))] + [(g, z3.Int(f'rec?{i}')) for i, g in enumerate(s.outer)]
        return z3.substitute(t, *pairs).sexpr(), z3.substitute(I(self.n), *pairs).sexpr()

    def alignments(self, s, rng):
        """Inductive facts P(k) = c (mod m), for the moduli in the recurrence"""
        E = self.E
        mods = set()
        stack = [I(s.d_)]
        while stack:
            t = stack.pop()
            if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)):
                mods.add(t.arg(1).as_long())
            stack.extend(t.children())
        old = s.old if s.kind == 'int' else ropelen(old_segs(self.ip, s))
        out = []
        P = I(s.prefix(SInt(self.k)))
        for m in sorted(mods, reverse=True):
            if m < 2:
                continue
            c = 0
            # either the total or the growth is aligned
            for c in {0, ops.divmod_const(E, mk(-I(old)), m, False)} if isinstance(old, int) else {0}:
                if c != 0:
                    continue
                g = E.lasting(z3.And(rng, P % m == 0), (P + I(s.d_)) % m == 0)
                if g is not None:
                    out.append((lambda p, m=m: p % m == 0, g))
                    return out
        return out

    def same_value(self, a, b):
        E = self.E
        if a is b:
            return True
        if is_int(a) and is_int(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return E.valid_under(z3.And(self.k >= 0, self.k < I(self.n)), B(a) == B(b))
            return E.valid_under(z3.And(self.k >= 0, self.k < I(self.n)), I(a) == I(b))
        return repr(a) == repr(b)

    def to_array(self, s, off):
        k = self.k
        if s.fn is not None and s.fn.decl.name() in {a.decl().name() for a in ufs(I(off))}:
            return False
        step = mk(z3.substitute(I(off), (k, simp(k + 1))) - I(off))
        base = self.E.constant(mk(z3.substitute(I(off), (k, z3.IntVal(0)))))
        if not isinstance(step, int):
            # at a place that grows with the iterations
            if {a.decl().name() for a in ufs(I(off))} & self.pending_names() \
                    or not self.E.valid_under(z3.And(k >= 0, k < I(self.n)), I(step) >= 0):
                return False
            s.kind, s.base, s.step, s.offset, s.K = 'array', base, None, off, k
            return True
        if step <= 0:
            return False
        s.kind = 'array'
        s.base = base
        s.step = step
        return True

    # ------------------------------------------------------------ results

    def at(self, s, n):
        """Value of a slot after n iterations"""
        E = self.E
        if s.kind == 'temp':
            p = Poison(s)

            def lazy():
                if E.eq(n, 0) or (not E.lt(0, n) and not E.decide(I(n) > 0)):
                    if s.old is MISSING:
                        raise PyRaise(NameError, (s.key,))
                    return s.old
                v = subst(s.prev, [(s.K, simp(I(n) - 1))])
                if v is MISSING or isinstance(v, Poison):
                    raise Unsupported(f'value of {s.key} after the loop')
                return self.ip.res(v)
            p.lazy = lazy
            return p
        if s.kind in ('int', 'prev'):
            return self.form(s, n if not isinstance(n, int) else z3.IntVal(n))
        if s.kind in ('rope', 'value'):
            if len(s.segs) == 1 and isinstance(s.segs[0], Lit) and len(s.segs[0].b) == 1:
                return wrap(s, join(old_segs(self.ip, s), (Fi(s.segs[0].b[0], n),)))
            body = Body(self.k, s.segs, s.P if not isinstance(s.P, SInt) else
                        mk(z3.substitute(s.P.t, (s.K, self.k))))
            return wrap(s, join(old_segs(self.ip, s), (FM(body, 0, n),)))
        if s.kind == 'array':
            left, rest = E.split(s.old, s.base)
            _, right = E.split(rest, s.done(n))
            body = Body(self.k, s.segs, s.done(SInt(self.k)))
            return join(left, (FM(body, 0, n),), right)
        raise AssertionError(s.kind)

    def leave(self, n):
        """The state after n iterations"""
        vals = [(s, self.at(s, n)) for s in self.slots.values()]
        for s, v in vals:
            self.E.set(s.d, s.key, v)


def same_by_identity(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lit):
        return a.b == b.b
    if isinstance(a, El):
        return a.v is b.v
    return False


def mentions_poison(v):
    if isinstance(v, Poison):
        return True
    if isinstance(v, tuple):
        return any(mentions_poison(x) for x in v)
    if isinstance(v, Choice):
        return mentions_poison(v.a) or mentions_poison(v.b)
    return False


def summarise_for(ip, n, one, frame, node, peel=True):
    """Run one(k) for k = 0..n-1. True if the loop was left by break"""
    E = ip.E
    if isinstance(n, int) and n <= 0:
        return False
    if not isinstance(n, int) and not E.le(0, n):
        if not E.decide(I(n) >= 0):
            return False
    if E.eq(n, 0):
        return False
    S = Summary(ip, n, one, frame, node)
    mo, md, skipped = len(E.obligations), len(E.deferred), E.skipped
    try:
        S.solve()
    except Unsupported as e:
        if not peel or isinstance(n, int) or not E.lt(0, n):
            raise
        # the last iteration on its own
        del E.obligations[mo:]
        del E.deferred[md:]
        E.skipped = skipped
        try:
            if summarise_for(ip, sub(n, 1), one, frame, node, False):
                return True
        except Unsupported as e2:
            raise e from e2
        try:
            one(sub(n, 1))
        except Flow as f:
            if f.kind == 'break':
                return True
            if f.kind != 'continue':
                raise
        return False
    if not S.exits:
        S.leave(n)
        return False
    conds = [z3.And(dec) if dec else z3.BoolVal(True) for dec, _, _ in S.exits]
    c = z3.simplify(z3.Or(conds))
    m = first_index(ip, n, S.k, c)
    if m is None:
        S.leave(n)
        return False
    if S.outs:
        S.leave(m)
    else:
        E.assume(I(m) == 0)
        m = 0
    try:
        one(m)
    except Flow as f:
        if f.kind == 'break':
            return True
        if f.kind != 'continue':
            raise
    # not an exit after all: cannot happen
    raise Infeasible


def first_index(ip, n, k, c):
    """
    The least index below n at which c (over k) holds, or None if there is
    none: both are explored
    """
    E = ip.E
    found = E.bool('found')
    if E.decide(found.t):
        m = E.int('first')
        E.assume(z3.And(m.t >= 0, m.t < I(n)))
        E.assume(z3.substitute(c, (k, m.t)))
        assume_all(E, k, m, z3.Not(c))
        if not E.sat(z3.BoolVal(True)):
            raise Infeasible
        return m
    assume_all(E, k, n, z3.Not(c))
    if not E.sat(z3.BoolVal(True)):
        raise Infeasible
    return None


def assume_all(E, k, n, fact):
    """fact(k) for all 0 <= k < n"""
    for a in ufs(fact):
        if not occurs(k, a):
            E.note(a)
    done = set()
    fs = [a for a in ufs(fact) if any(x.eq(k) for x in a.children()) and a.decl().name() in E.fns]
    for a in fs:
        pos = next(i for i, x in enumerate(a.children()) if x.eq(k))
        others = [(i, x) for i, x in enumerate(a.children()) if i != pos]
        name = a.decl().name()
        if (name, pos) in done:
            continue
        done.add((name, pos))

        def gen(*args, pos=pos, others=others):
            t = args[pos]
            same_others = [args[i] == x for i, x in others if not occurs(k, x)]
            return [z3.Implies(z3.And([t >= 0, t < I(n)] + same_others),
                               z3.substitute(fact, (k, t)))]
        E.forall(name, gen)
    if not fs:
        v = z3.Int(E.uniq('q'))
        E.assume(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < I(n)), z3.substitute(fact, (k, v)))))


# ------------------------------------------------- loops with an invariant

class ForAll:
    """
    fact(j) for lo <= j < hi. Where it is assumed it is instantiated for the
    applications of the function named trigger: at(args of the application)
    is the j meant.
    """
    def __init__(self, lo, hi, fact, trigger, at):
        self.lo, self.hi, self.fact = lo, hi, fact
        self.trigger, self.at = trigger, at

    def instance(self, j):
        return z3.Implies(z3.And(I(j) >= I(self.lo), I(j) < I(self.hi)), B(self.fact(mk(I(j)))))

    def assume(self, E):
        def gen(*args):
            j = self.at(*args)
            return [] if j is None else [self.instance(j)]
        gen.shallow = True
        E.forall(self.trigger, gen)

    def prove(self, E, what):
        j = E.int('j')
        E.prove(self.instance(j), what)


class Cut:
    """
    A loop with a given invariant: the state before an iteration is the one
    described by state(S, g) for some ghost values g.

    ghost(S, i)     fresh ghost values (i: iteration number of a for loop)
    first(S)        ghost values on entry
    next(S, g, i)   ghost values after an iteration that began with g
    state(S, g, i)  {variable: value}, [facts]
    measure(S, g)   a number that decreases and stays >= 0, for while loops

    What is assumed before an iteration is what was proved on entry and
    what is proved after an iteration: the same variables and facts.

    context(S)      {variable: value} for the variables the loop only uses;
                    proved on entry, and an iteration can use no others.
                    With this, iterations may be left to another lemma
                    with the same context (elsewhere = True).
    """
    unroll = False
    measure = None
    elsewhere = False

    def context(self, S):
        return None

    def ghost(self, S, i):
        return None

    def first(self, S):
        return None

    def next(self, S, g, i):
        return None

    def state(self, S, g, i):
        raise NotImplementedError

    def exit(self, S, g):
        """After the last iteration"""

    def assume(self, S, g, i):
        vals, facts = self.state(S, g, i)
        for name, v in vals.items():
            S.put(name, v)
        for x in facts:
            if isinstance(x, ForAll):
                x.assume(S.E)
            else:
                S.E.assume(x)

    def check(self, S, g, i, when):
        from .interp import prove_equal
        E = S.E
        if E.skip:
            E.skipped = True
            return
        vals, facts = self.state(S, g, i)
        for name, v in vals.items():
            prove_equal(E, S.get(name), v, f'invariant {when}: {name}')
        for n, x in enumerate(facts):
            what = f'invariant {when}: fact {n}'
            if isinstance(x, ForAll):
                x.prove(E, what)
            else:
                E.prove(x, what)


class Recursion:
    """
    Contract of a recursive inner function.

    enter(S)           puts an arbitrary state in which the function may be
                       called into the variables of the enclosing function;
                       returns the arguments and ghost values
    apply(S, args)     proves that the state and the arguments are of that
                       kind, puts the state after the call; returns the result
    leave(S, g, r)     proves that state and result are what apply says
    uses               variables of the enclosing function the function uses

    The body is verified once, for an arbitrary call, with the contract
    in place of the calls it makes; measure(S, g) is proved to be smaller
    for these calls (g: ghost values, which apply gives as S.ghost).
    With elsewhere = True the body is left to another lemma.
    """
    uses = ()
    elsewhere = False

    def __call__(self, ip, fn, args, kw):
        from .interp import IFunc
        E = ip.E
        if kw:
            raise Unsupported('keywords for a function with a contract')
        S = State(ip, fn.frame)
        E.touched[f'contract of {fn.name}'] = 1
        if self not in E.inside and not self.elsewhere and not E.skip and E.decide(E.bool('verify').t):
            since = serial()
            for name, v in list(fn.frame.vars.items()):
                if name not in self.uses and not isinstance(v, IFunc):
                    E.set(fn.frame.vars, name, Poison(None))
            mark = len(E.log)
            args, g = self.enter(S)
            if not E.sat(z3.BoolVal(True)):
                raise Infeasible
            known = {(id(d), key) for d, key, _ in E.log[mark:]}
            m = self.measure(S, g)
            E.prove(I(m) >= 0, f'{fn.name}: measure')
            E.inside[self] = m
            mark = len(E.log)
            r = ip.call_ifunc(fn, args, {})
            for d, key, _ in E.log[mark:]:
                if d.serial <= since and (id(d), key) not in known:
                    raise Unsupported(f'{fn.name} changes {key}, which its contract does not mention')
            self.leave(S, g, r)
            E.touched[f'verified {fn.name}'] = 1
            raise Infeasible
        r = self.apply(S, args)
        if self in E.inside and not E.skip:
            E.prove(z3.And(I(self.measure(S, S.ghost)) >= 0, I(self.measure(S, S.ghost)) < I(E.inside[self])), f'{fn.name}: recursion ends')
        return r


class State:
    """The variables a loop invariant is about"""
    def __init__(self, ip, frame):
        self.ip, self.E, self.frame = ip, ip.E, frame

    def find(self, name):
        f = self.frame
        while f is not None:
            if name in f.vars:
                return f.vars
            f = f.parent
        return self.frame.vars

    def get(self, name):
        return self.ip.res(self.find(name)[name])

    def put(self, name, v):
        """Byte arrays and lists keep their identity"""
        d = self.find(name)
        old = d.get(name)
        if isinstance(old, Poison):
            old = None
        if old is not None:
            old = self.ip.res(old)
        if isinstance(v, (MBytes, MList)) and isinstance(old, type(v)):
            self.E.set(old.d, 'v', tuple(v.segs))
        else:
            self.E.set(d, name, v)


def loop_numbers(node):
    """Loops of a function in source order"""
    from .interp import walk_own
    return sorted((n for n in walk_own(node) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))


def find_cut(ip, s, f):
    if not ip.cuts or f.fn is None:
        return None
    from .interp import IFunc, node_of
    if isinstance(f.fn, IFunc):
        name, node = f.fn.name, f.fn.node
    else:
        name, node = f'{f.fn.__module__}.{f.fn.__qualname__}', None
    if not any(k[0] == name for k in ip.cuts):
        return None
    node = node or node_of(f.fn)
    for i, n in enumerate(loop_numbers(node)):
        if n is s:
            c = ip.cuts.get((name, i))
            if c is not None:
                ip.E.touched[f'invariant of loop {i} of {name}'] = 1
            return c
    return None


def run_cut(ip, cut, s, f, seq=None):
    """True if the loop was left by break"""
    from .interp import prove_equal
    E = ip.E
    S = State(ip, f)
    since = serial()
    isfor = isinstance(s, ast.For)
    where = f'of the loop in line {s.lineno}'
    if isfor:
        if not seq.chunks:
            return False
        if len(seq.chunks) != 1:
            raise Unsupported('an invariant for a loop over several sequences')
        n, get = seq.chunks[0]
        if not E.le(0, n):
            raise Unsupported('number of iterations')
    context = cut.context(S)
    if context is not None and not E.skip:
        for name, v in context.items():
            if v is not None:
                prove_equal(E, S.get(name), v, f'context {where}: {name}')
                S.put(name, v)
        if isfor:
            if not isinstance(s.iter, ast.Name):
                raise Unsupported('a loop with a context over something else than a variable')
            from . import builtin_ops as ops
            n, get = ops.sequence(ip, S.get(s.iter.id)).chunks[0]
    cut.check(S, cut.first(S), 0, f'{where} on entry')
    if isfor and cut.unroll:
        if not isinstance(n, int):
            raise Unsupported('number of iterations')
        i = n
        for j in range(n):
            if E.decide(E.bool('this').t):
                i = j
                break
        again = i < n
    else:
        again = E.decide(E.bool('again').t)
        if again and cut.elsewhere:
            raise Infeasible
        i = None
        if isfor:
            i = E.int('i') if again else n
            if again:
                E.assume(z3.And(I(i) >= 0, I(i) < I(n)))
                if not E.sat(z3.BoolVal(True)):
                    raise Infeasible
    mark = len(E.log)
    for name in assigned(s):
        if name not in f.globals_decl and name not in f.nonlocals:
            E.set(f.vars, name, Poison(None))
    if again and context is not None:
        frame = f
        while frame is not None:
            for name in list(frame.vars):
                if name not in context:
                    E.set(frame.vars, name, Poison(None))
            frame = frame.parent
    S.again = again
    g = cut.ghost(S, i)
    cut.assume(S, g, i)
    known = {(id(d), key) for d, key, _ in E.log[mark:]}
    mark = len(E.log)
    if not E.sat(z3.BoolVal(True)):
        raise Infeasible
    if not again:
        if not isfor:
            t = ip.truth_term(ip.ev(s.test, f))
            if t if isinstance(t, bool) else E.decide(t):
                raise Infeasible
        cut.exit(S, g)
        return False
    if isfor:
        ip.assign(s.target, get(i), f)
    else:
        t = ip.truth_term(ip.ev(s.test, f))
        if not (t if isinstance(t, bool) else E.decide(t)):
            raise Infeasible
    before = cut.measure(S, g) if cut.measure else None
    broke = False
    try:
        ip.block(s.body, f)
    except Flow as fl:
        if fl.kind == 'break':
            broke = True
        elif fl.kind != 'continue':
            raise
    for d, key, _ in E.log[mark:]:
        if d.serial <= since and (id(d), key) not in known:
            raise Unsupported(f'the loop in line {s.lineno} changes {key}, which its invariant does not mention')
    if broke:
        return True
    h = cut.next(S, g, i)
    cut.check(S, h, None if i is None else add(i, 1), f'{where} after an iteration')
    if before is not None and not E.skip:
        after = cut.measure(S, h)
        E.prove(z3.And(I(before) >= 0, I(after) < I(before)), f'the loop in line {s.lineno} ends')
    raise Infeasible


# ------------------------------------------------------------------- while

def run_while(ip, s, f):
    E = ip.E
    cut = find_cut(ip, s, f)
    if cut is not None:
        if not run_cut(ip, cut, s, f):
            ip.block(s.orelse, f)
        return
    tries = 0
    unrolled = 0
    always = isinstance(s.test, ast.Constant) and bool(s.test.value)
    if always:
        tries += 1
        accelerate(ip, s, f)
    while True:
        t = ip.truth_term(ip.ev(s.test, f))
        if not isinstance(t, bool):
            if tries < 2:
                tries += 1
                if accelerate(ip, s, f):
                    continue
            unrolled += 1
            if unrolled > 64:
                raise Unsupported('loop does not end')
            t = E.decide(t)
        if not t:
            ip.block(s.orelse, f)
            return
        try:
            ip.block(s.body, f)
        except Flow as fl:
            if fl.kind == 'break':
                return
            if fl.kind != 'continue':
                raise
        unrolled += 1 if always else 0
        if unrolled > 400:
            raise Unsupported('loop does not end')


def accelerate(ip, s, f):
    """Execute as many iterations at once as can be proved to happen"""
    E = ip.E
    terms = []

    def one(k):
        t = ip.truth_term(ip.ev(s.test, f))
        terms.append((k, t))
        if not (t if isinstance(t, bool) else E.decide(t)):
            raise Flow('exit')
        ip.block(s.body, f)

    cands = []
    mo, md = len(E.obligations), len(E.deferred)
    # the shape of the condition
    N = SInt(z3.Int(E.uniq('N')))
    probe = Summary(ip, N, one, f, s)
    E.push()
    E.skip += 1
    try:
        E.solver.add(N.t > 0)
        probe.solve()
        k, t = terms[-1]
        cands += counts(E, k.t, t)
    except (Unsupported, Abort, Infeasible, Failed) as e:
        if DEBUG:
            print('probe', repr(e))
    finally:
        E.skip -= 1
        E.pop()
        del E.obligations[mo:]
        del E.deferred[md:]
    for fm in probe.sequences():
        n = sub(fm.hi, fm.lo)
        if isinstance(n, SInt) and not any(same(n, c) for c in cands):
            cands.append(n)
    for n in cands:
        if isinstance(n, int):
            if n > 0 and n <= 64:
                continue
        if not E.sat(I(n) > 0):
            continue
        if not E.le(0, n):
            continue
        S = Summary(ip, n, one, f, s, noexit=True)
        try:
            S.solve()
        except (Unsupported, Abort, Failed) as e:
            del E.obligations[mo:]
            del E.deferred[md:]
            if DEBUG:
                print('accelerate', n, repr(e))
            continue
        S.leave(n)
        return True
    return False


def counts(E, k, t):
    """Iterations after which a condition over k can first fail"""
    if isinstance(t, bool):
        return []
    neg = False
    t = z3.simplify(t)
    while z3.is_not(t):
        neg = not neg
        t = t.arg(0)
    out = []
    if z3.is_eq(t) and neg or z3.is_distinct(t) and not neg:
        a, b = t.children()
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(y) and y.as_long() == 0 and z3.is_app_of(x, z3.Z3_OP_MOD) \
                    and z3.is_int_value(x.arg(1)):
                m = x.arg(1).as_long()
                lin = x.arg(0)
                step = mk(z3.substitute(lin, (k, simp(k + 1))) - lin)
                x0 = mk(z3.substitute(lin, (k, z3.IntVal(0))))
                if isinstance(step, int) and step % m == 1:
                    out.append(ops.divmod_const(E, mk(-I(x0)), m, False))
                elif isinstance(step, int) and step % m == m - 1:
                    out.append(ops.divmod_const(E, x0, m, False))
        d = I(mk(a - b))
        step = mk(z3.substitute(d, (k, simp(k + 1))) - d)
        d0 = mk(z3.substitute(d, (k, z3.IntVal(0))))
        if isinstance(step, int) and abs(step) == 1:
            out.append(mk(-I(d0)) if step == 1 else d0)
    if z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t):
        a, b = t.children()
        if z3.is_ge(t) or z3.is_gt(t):
            a, b = b, a
        strict = z3.is_lt(t) or z3.is_gt(t)
        # a <= b or a < b; negated: b < a or b <= a
        if neg:
            a, b = b, a
            strict = not strict
        d = I(mk(b - a))
        if not strict:
            d = d + 1
        # holds while d > 0
        step = mk(z3.substitute(d, (k, simp(k + 1))) - d)
        d0 = mk(z3.substitute(d, (k, z3.IntVal(0))))
        if isinstance(step, int) and step < 0:
            out.append(ops.ceildiv(d0, -step))
    return out
