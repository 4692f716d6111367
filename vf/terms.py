"""
Values of the verifier: symbolic integers, booleans, byte strings, text,
lists and objects.

Integers are z3 mathematical integers, which is exactly what Python's are.
Byte strings and lists are ropes: sequences of segments, some of which
stand for unboundedly many bytes or elements (see Body / FM).
"""
import z3


class Unsupported(Exception):
    """The verifier cannot follow this code."""


def I(x):
    """Turn an int, SInt or SBool into a z3 integer term"""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported(f'not an integer: {x!r}')


def simp(t):
    return z3.simplify(t, som=True, arith_lhs=False)


def mk(t):
    """Python value for an integer term: an int if it is a numeral"""
    if isinstance(t, int):
        return t
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkb(t):
    """Python value for a boolean term"""
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def B(x):
    """z3 boolean for a bool or SBool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f'not a boolean: {x!r}')


class SInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SInt({self.t})'


class SEnum(SInt):
    """An unknown member of an IntEnum"""
    __slots__ = ('cls',)

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return f'{self.cls.__name__}({self.t})'


def senum(cls, t):
    v = mk(t)
    return cls(v) if isinstance(v, int) else SEnum(v.t, cls)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'


def is_int(x):
    return isinstance(x, (int, SInt, SBool))


def add(*xs):
    c = 0
    ts = []
    for x in xs:
        if isinstance(x, int):
            c += x
        else:
            ts.append(I(x))
    if not ts:
        return c
    return mk(z3.Sum(*ts, z3.IntVal(c)) if c or len(ts) > 1 else ts[0])


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return mk(I(a) - I(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return mk(I(a) * I(b))


def same(a, b):
    """Syntactic equality of two integers after simplification"""
    d = sub(a, b)
    return isinstance(d, int) and d == 0


# ---------------------------------------------------------------- segments

class Seg:
    __slots__ = ()


class Lit(Seg):
    """Literal bytes"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return f'Lit({self.b[:24]!r}{"..." if len(self.b) > 24 else ""}/{len(self.b)})'


class Pk(Seg):
    """
    An integer packed into w bytes. t is the value itself: the range
    condition was an obligation when it was packed.
    """
    __slots__ = ('t', 'w', 'big', 'signed')

    def __init__(self, t, w, big=False, signed=False):
        self.t, self.w, self.big, self.signed = t, w, big, signed

    def unsigned(self):
        if not self.signed:
            return self.t
        t = I(self.t)
        return mk(z3.If(t < 0, t + (1 << (8 * self.w)), t))

    def __repr__(self):
        return f'Pk({self.t},{self.w})'


class Pb(Seg):
    """Byte i (0 = least significant) of a packed integer"""
    __slots__ = ('pk', 'i')

    def __init__(self, pk, i):
        self.pk, self.i = pk, i

    def __repr__(self):
        return f'Pb({self.pk},{self.i})'


class Src:
    """
    An opaque byte string (or a family of them, indexed by integers):
    byte(args..., j) and length(args...) are uninterpreted.
    """
    def __init__(self, name, byte, length, without=()):
        self.name, self.byte, self.length = name, byte, length
        self.without = frozenset(without)
        self.reverse = self.code = None

    def __repr__(self):
        return self.name

    def trigger(self):
        """Name of the function behind byte"""
        return self.byte.name()

    def index(self, args, app):
        """The position an application of that function is about"""
        return mk(app[-1])


class Rev(Src):
    """The bytes of another one in reverse order, of which there are args[-1]"""
    def __init__(self, base):
        self.base = base
        self.name = f'reversed {base.name}'
        self.without = base.without
        self.length = None
        base.reverse = self

    def byte(self, *args):
        return self.base.byte(*args[:-2], simp(args[-2] - 1 - args[-1]))

    def trigger(self):
        return self.base.trigger()

    def index(self, args, app):
        return sub(sub(args[-1], 1), mk(app[-1]))


def reversed_segs(segs):
    """The bytes of a rope in reverse order, or None"""
    out = []
    for s in segs:
        if isinstance(s, Lit):
            s = Lit(s.b[::-1])
        elif isinstance(s, Sl) and isinstance(s.src, Rev):
            s = Sl(s.src.base, s.args[:-1], sub(sub(s.args[-1], s.off), s.n), s.n)
        elif isinstance(s, Sl):
            s = Sl(s.src.reverse or Rev(s.src), s.args + (add(s.off, s.n),), 0, s.n)
        elif isinstance(s, Al):
            a, b = reversed_segs(s.a), reversed_segs(s.b)
            if a is None or b is None:
                return None
            s = Al(s.c, a, b)
        elif isinstance(s, Pk) and s.w > 1:
            s = Pk(s.t, s.w, not s.big, s.signed)
        elif not isinstance(s, (Pk, Pb, Fi)):
            return None
        out.append(s)
    return tuple(out[::-1])


class Sl(Seg):
    """A slice of an opaque byte string"""
    __slots__ = ('src', 'args', 'off', 'n')

    def __init__(self, src, args, off, n):
        self.src, self.args, self.off, self.n = src, args, off, n

    def __repr__(self):
        return f'Sl({self.src}{list(self.args)}[{self.off}:+{self.n}])'


class Fi(Seg):
    """n copies of one byte (for lists: of one value)"""
    __slots__ = ('b', 'n')

    def __init__(self, b, n):
        self.b, self.n = b, n

    def __repr__(self):
        return f'Fi({self.b}*{self.n})'


class El(Seg):
    """One list element"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'El({self.v!r})'


class Body:
    """
    What iteration k contributes to a rope. P is a term over k: the total
    length of what iterations 0..k-1 contributed; P(0) = 0.
    """
    __slots__ = ('k', 'segs', 'P', 'key')

    def __init__(self, k, segs, P, key=None):
        self.k, self.segs, self.P, self.key = k, tuple(segs), P, key

    def at(self, t):
        return subst_segs(self.segs, [(self.k, I(t))])

    def prefix(self, t):
        if isinstance(self.P, int):
            return self.P
        if isinstance(t, int) and t == 0:
            return 0
        return mk(z3.substitute(I(self.P), (self.k, I(t))))


class FM(Seg):
    """What iterations lo..hi-1 contribute"""
    __slots__ = ('body', 'lo', 'hi')

    def __init__(self, body, lo, hi):
        self.body, self.lo, self.hi = body, lo, hi

    def __repr__(self):
        return f'FM({self.body.k}:{self.lo}..{self.hi} {list(self.body.segs)} P={self.body.P})'


class Pend(Seg):
    """
    What the iterations before the current one of the loop being
    summarised contributed: only its length is known.
    """
    __slots__ = ('n', 'tag')

    def __init__(self, n, tag):
        self.n, self.tag = n, tag

    def __repr__(self):
        return f'Pend({self.n})'


class Al(Seg):
    """One of two ropes, depending on a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return f'Al({self.c},{list(self.a)},{list(self.b)})'


def seglen(s):
    if isinstance(s, Lit):
        return len(s.b)
    if isinstance(s, Pk):
        return s.w
    if isinstance(s, (Pb, El)):
        return 1
    if isinstance(s, (Sl, Fi, Pend)):
        return s.n
    if isinstance(s, FM):
        return sub(s.body.prefix(s.hi), s.body.prefix(s.lo))
    if isinstance(s, Al):
        a, b = ropelen(s.a), ropelen(s.b)
        if same(a, b):
            return a
        return mk(z3.If(s.c, I(a), I(b)))
    raise Unsupported(f'segment {s!r}')


def ropelen(segs):
    return add(*[seglen(s) for s in segs])


def join(*ropes):
    """Concatenate ropes, merging literals and dropping empty pieces"""
    out = []
    for r in ropes:
        for s in r:
            if isinstance(s, Lit):
                if not s.b:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].b + s.b)
                    continue
            elif isinstance(s, (Sl, Fi)) and isinstance(s.n, int) and s.n == 0:
                continue
            elif isinstance(s, FM) and same(s.lo, s.hi):
                continue
            elif isinstance(s, Fi) and isinstance(s.n, int) and isinstance(s.b, int) and s.n <= 64:
                lit = Lit(bytes([s.b]) * s.n)
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].b + lit.b)
                else:
                    out.append(lit)
                continue
            elif isinstance(s, Sl) and out and isinstance(out[-1], Sl):
                p = out[-1]
                if p.src is s.src and all(same(x, y) for x, y in zip(p.args, s.args)) \
                        and same(add(p.off, p.n), s.off):
                    out[-1] = Sl(p.src, p.args, p.off, add(p.n, s.n))
                    continue
            elif isinstance(s, FM) and out and isinstance(out[-1], FM):
                p = out[-1]
                if p.body is s.body and same(p.hi, s.lo):
                    out[-1] = FM(p.body, p.lo, s.hi)
                    continue
            elif isinstance(s, Pb) and out and isinstance(out[-1], Pb):
                out.append(s)
                _join_pb(out)
                continue
            out.append(s)
    return tuple(out)


def _join_pb(out):
    """Put the bytes of a packed integer back together"""
    s = out[-1]
    w = s.pk.w
    if len(out) < w:
        return
    tail = out[-w:]
    order = range(w - 1, -1, -1) if s.pk.big else range(w)
    if all(isinstance(x, Pb) and x.pk is s.pk and x.i == i for x, i in zip(tail, order)):
        del out[-w:]
        out.append(s.pk)


# ------------------------------------------------------------------ values

_serial = [0]


class D(dict):
    """A journaled mutable store; serial tells how old it is"""
    __slots__ = ('serial', 'frozen', 'isset', 'isrope')

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        _serial[0] += 1
        self.serial = _serial[0]
        self.frozen = False
        self.isset = False
        self.isrope = False

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def serial():
    return _serial[0]


class SBytes:
    """An immutable byte string"""
    __slots__ = ('segs',)
    pytype = bytes

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f'SBytes{list(self.segs)}'


class SStr:
    """
    A text string all of whose characters are below U+0100, as the rope of
    its latin-1 encoding
    """
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f'SStr{list(self.segs)}'


class MBytes:
    """A bytearray"""
    __slots__ = ('d',)
    pytype = bytearray

    def __init__(self, segs=()):
        self.d = D(v=tuple(segs))
        self.d.isrope = True

    @property
    def segs(self):
        return self.d['v']

    def __repr__(self):
        return f'MBytes{list(self.segs)}'


class MList:
    """A list"""
    __slots__ = ('d',)

    def __init__(self, segs=()):
        self.d = D(v=tuple(segs))
        self.d.isrope = True

    @property
    def segs(self):
        return self.d['v']

    def __repr__(self):
        return f'MList{list(self.segs)}'


class STuple:
    """A tuple of unknown length (list rope)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f'STuple{list(self.segs)}'


PAIRS = '__pairs__'


class MDict:
    """
    A dict with concrete keys, or with the single key PAIRS: a rope of
    (key, value) pairs in the order of insertion, whose keys are shown to
    be distinct before the dict is read. unordered: the order of insertion
    is not known; only what does not depend on it may be computed.
    """
    __slots__ = ('d', 'unordered')

    def __init__(self, items=(), unordered=False):
        self.d = D(items)
        self.unordered = unordered

    def __repr__(self):
        return f'MDict{dict(self.d)}'


class MSet:
    """
    A set of integers of a finite universe: member -> condition under which
    it is in the set
    """
    __slots__ = ('d',)

    def __init__(self, items=()):
        self.d = D(items)
        self.d.isset = True

    def __repr__(self):
        return f'MSet{dict(self.d)}'


class Obj:
    """An instance of a class of the code under verification"""
    __slots__ = ('cls', 'd', 'ident')

    def __init__(self, cls, fields=(), ident=None):
        self.cls = cls
        self.d = D(fields)
        self.ident = ident

    def __repr__(self):
        return f'<{self.cls.__name__} {dict(self.d)}>'


class Opt:
    """Either None (when c holds) or v"""
    __slots__ = ('c', 'v')

    def __init__(self, c, v):
        self.c, self.v = c, v


class Choice:
    """a when c holds, else b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'Choice({self.c},{self.a!r},{self.b!r})'


class Poison:
    """The value of a loop temporary outside the iteration that set it"""
    def __init__(self, slot=None):
        self.slot = slot


class FStr:
    """A formatted string with symbolic parts"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)


class Opq:
    """A value nothing is known about, identified by a function and arguments"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f'Opq({self.name},{self.args})'


class Weak:
    """
    A dict of which only some keys are known, and what holds for each entry:
    entry(E, key) gives an arbitrary value and the facts about it,
    stored(E, key, value) proves these facts for a new entry
    """
    def __init__(self, entry, stored, known=()):
        self.entry, self.stored = entry, stored
        self.d = D(known=tuple(known), reads=())


class Map:
    """
    A dict from integers to integers given by two functions on terms: which
    keys it has, and their values. The order of insertion is not known.
    """
    def __init__(self, has, value):
        self.d = D(v=(has, value))


# ------------------------------------------------------------ substitution

def st(t, pairs):
    return z3.substitute(t, *pairs)


def si(x, pairs):
    if isinstance(x, int):
        return x
    return mk(st(I(x), pairs))


def subst_seg(s, p):
    if isinstance(s, Lit):
        return s
    if isinstance(s, Pk):
        return Pk(si(s.t, p), s.w, s.big, s.signed)
    if isinstance(s, Pb):
        return Pb(subst_seg(s.pk, p), s.i)
    if isinstance(s, Sl):
        return Sl(s.src, tuple(si(a, p) for a in s.args), si(s.off, p), si(s.n, p))
    if isinstance(s, Fi):
        return Fi(subst(s.b, p), si(s.n, p))
    if isinstance(s, El):
        return El(subst(s.v, p))
    if isinstance(s, FM):
        b = s.body
        nb = Body(b.k, subst_segs(b.segs, p), b.P if isinstance(b.P, int) else mk(st(I(b.P), p)), b.key)
        if nb.segs == b.segs and same(nb.P, b.P):
            nb = b
        return FM(nb, si(s.lo, p), si(s.hi, p))
    if isinstance(s, Al):
        c = z3.simplify(st(s.c, p))
        if z3.is_true(c):
            return s.a and _only(subst_segs(s.a, p)) or Al(c, subst_segs(s.a, p), ())
        return Al(c, subst_segs(s.a, p), subst_segs(s.b, p))
    if isinstance(s, Pend):
        return Pend(si(s.n, p), s.tag)
    raise Unsupported(f'substitution in {s!r}')


def _only(segs):
    return segs[0] if len(segs) == 1 else None


def subst_segs(segs, p):
    return tuple(subst_seg(s, p) for s in segs)


_ATOMIC = (int, str, bytes, type(None), float, type)


def subst(v, p):
    """Replace terms inside a value; mutable values are copied and frozen"""
    if isinstance(v, _ATOMIC):
        return v
    if isinstance(v, SEnum):
        return senum(v.cls, st(v.t, p))
    if isinstance(v, SInt):
        return mk(st(v.t, p))
    if isinstance(v, SBool):
        return mkb(st(v.t, p))
    if isinstance(v, SBytes):
        return SBytes(join(subst_segs(v.segs, p)))
    if isinstance(v, SStr):
        return SStr(join(subst_segs(v.segs, p)))
    if isinstance(v, STuple):
        return STuple(subst_segs(v.segs, p))
    if isinstance(v, tuple):
        items = [subst(x, p) for x in v]
        return type(v)._make(items) if hasattr(v, '_make') else tuple(items)
    if isinstance(v, (MBytes, MList)):
        n = type(v)(join(subst_segs(v.segs, p)))
        n.d.frozen = True
        return n
    if isinstance(v, (MDict, MSet)):
        n = type(v)({k: subst(x, p) for k, x in v.d.items()})
        if isinstance(v, MDict):
            n.unordered = v.unordered
        n.d.frozen = True
        n.d.isset = v.d.isset
        return n
    if isinstance(v, Obj):
        n = Obj(v.cls, {k: subst(x, p) for k, x in v.d.items()}, v.ident)
        n.d.frozen = True
        return n
    if isinstance(v, z3.BoolRef):
        return st(v, p)
    if isinstance(v, Opt):
        return Opt(z3.simplify(st(v.c, p)), subst(v.v, p))
    if isinstance(v, Choice):
        c = mkb(st(v.c, p))
        if c is True:
            return subst(v.a, p)
        if c is False:
            return subst(v.b, p)
        return Choice(c.t, subst(v.a, p), subst(v.b, p))
    if isinstance(v, Opq):
        return Opq(v.name, [subst(a, p) for a in v.args])
    if isinstance(v, FStr):
        return FStr([subst(a, p) for a in v.parts])
    if isinstance(v, Seg):
        return subst_seg(v, p)
    return v


def alike(a, b):
    """Structural equality of byte segments"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lit):
        return a.b == b.b
    if isinstance(a, Pk):
        return a.w == b.w and a.big == b.big and a.signed == b.signed and same(a.t, b.t)
    if isinstance(a, Pb):
        return a.i == b.i and alike(a.pk, b.pk)
    if isinstance(a, Sl):
        return a.src is b.src and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args)) \
            and same(a.off, b.off) and same(a.n, b.n)
    if isinstance(a, Fi):
        return is_int(a.b) and is_int(b.b) and same(a.b, b.b) and same(a.n, b.n)
    if isinstance(a, FM):
        return a.body is b.body and same(a.lo, b.lo) and same(a.hi, b.hi)
    if isinstance(a, Al):
        return a.c.eq(b.c) and len(a.a) == len(b.a) and len(a.b) == len(b.b) \
            and all(alike(x, y) for x, y in zip(a.a + a.b, b.a + b.b))
    return False


def alike_values(a, b):
    """Structural equality of integers and tuples of them"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(alike_values(x, y) for x, y in zip(a, b))
    return is_int(a) and is_int(b) and type(a) is type(b) and same(a, b)


def freeze(v, since, memo=None):
    """
    Copy of a value that later undoing does not change; what existed
    already before `since` is kept by reference
    """
    if isinstance(v, _ATOMIC) or isinstance(v, (SInt, SBool)):
        return v
    if isinstance(v, (SBytes, SStr, STuple)):
        return type(v)(freeze_segs(v.segs, since))
    if isinstance(v, tuple):
        items = [freeze(x, since) for x in v]
        return type(v)._make(items) if hasattr(v, '_make') else tuple(items)
    if isinstance(v, (MBytes, MList)):
        if v.d.serial <= since:
            return v
        n = type(v)(freeze_segs(v.segs, since))
        n.d.frozen = True
        return n
    if isinstance(v, (MDict, MSet)):
        if v.d.serial <= since:
            return v
        n = type(v)({k: freeze(x, since) for k, x in v.d.items()})
        if isinstance(v, MDict):
            n.unordered = v.unordered
        n.d.frozen = True
        n.d.isset = v.d.isset
        return n
    if isinstance(v, Obj):
        if v.d.serial <= since:
            return v
        n = Obj(v.cls, {k: freeze(x, since) for k, x in v.d.items()}, v.ident)
        n.d.frozen = True
        return n
    if isinstance(v, Opt):
        return Opt(v.c, freeze(v.v, since))
    if isinstance(v, Choice):
        return Choice(v.c, freeze(v.a, since), freeze(v.b, since))
    if isinstance(v, Seg):
        return freeze_segs((v,), since)[0]
    return v


def freeze_segs(segs, since):
    out = []
    for s in segs:
        if isinstance(s, El):
            v = freeze(s.v, since)
            if v is not s.v:
                s = El(v)
        elif isinstance(s, Al):
            s = Al(s.c, freeze_segs(s.a, since), freeze_segs(s.b, since))
        elif isinstance(s, Fi) and not isinstance(s.b, int):
            s = Fi(freeze(s.b, since), s.n)
        out.append(s)
    return tuple(out)
