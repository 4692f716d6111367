"""
Operators, built-in functions and methods of built-in types over the
values of terms.py. These are the semantics of Python and of the struct
module that the verifier assumes; they are cross-checked against CPython
by tools/difftest.py.
"""
import ast
import enum
import itertools
import math
import operator
import struct
import types

import z3

from .terms import *
from .engine import PyRaise, Abort, Infeasible, Flow, MISSING, occurs

BYTESY = (bytes, bytearray, SBytes, MBytes)


class Splat:
    """A starred argument of unknown length"""
    def __init__(self, segs):
        self.segs = segs


class SRange:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SeqVal:
    """A lazily described sequence (enumerate, zip, ...): chunks of (n, get)"""
    def __init__(self, chunks):
        self.chunks = chunks


class File:
    """An open file of the modelled file system"""
    def __init__(self, path, mode):
        self.path, self.mode = path, mode


class Frac:
    """The float a / b of two integers, not rounded yet"""
    def __init__(self, a, b):
        self.a, self.b = a, b


class StructOp:
    def __init__(self, fmt, name):
        self.fmt, self.name = fmt, name


def lift(v):
    return v


# ------------------------------------------------------------- conversions

def is_bytes(v):
    return isinstance(v, BYTESY)


def is_text(v):
    return isinstance(v, (str, SStr))


def byte_segs(v):
    if isinstance(v, (bytes, bytearray)):
        return (Lit(bytes(v)),) if v else ()
    return v.segs


def mkbytes(segs, cls=SBytes):
    segs = join(segs)
    if cls is SBytes and all(isinstance(s, Lit) for s in segs):
        return b''.join(s.b for s in segs)
    return cls(segs)


def mktext(segs):
    segs = join(segs)
    if all(isinstance(s, Lit) for s in segs):
        return b''.join(s.b for s in segs).decode('latin-1')
    return SStr(segs)


def text_segs(v):
    if isinstance(v, str):
        try:
            b = v.encode('latin-1')
        except UnicodeEncodeError:
            raise Unsupported('text beyond latin-1')
        return (Lit(b),) if b else ()
    return v.segs


def list_segs(ip, v):
    """Rope of list elements of any iterable value"""
    v = ip.res(v)
    if isinstance(v, (MList, STuple)):
        return v.segs
    if isinstance(v, (tuple, list)):
        return tuple(El(x) for x in v)
    if isinstance(v, Splat):
        return v.segs
    if isinstance(v, (MDict,)):
        if v.unordered and len(v.d) > 1 or PAIRS in v.d:
            return map_segs(ip, dict_pairs(ip, v), lambda p: (El(p[0]),))
        return tuple(El(k) for k in v.d)
    if isinstance(v, dict):
        return tuple(El(k) for k in v)
    if isinstance(v, range) and len(v) <= 4096:
        return tuple(El(k) for k in v)
    if isinstance(v, MSet):
        if all(isinstance(c, bool) for c in v.d.values()):
            return tuple(El(k) for k in v.d if v.d[k])
    if isinstance(v, str):
        return tuple(El(c) for c in v)
    if isinstance(v, (SeqVal, SRange, range)) or is_bytes(v):
        return seq_to_segs(ip, sequence(ip, v))
    raise Unsupported(f'iteration over {v!r}')


def seq_to_segs(ip, seq):
    E = ip.E
    out = []
    for n, get in seq.chunks:
        if isinstance(n, int) and n <= 4096:
            out += [El(get(j)) for j in range(n)]
        else:
            out.append(generic_fm(ip, n, lambda g: (El(get(g)),)))
    return tuple(out)


def generic_fm(ip, n, make, lo=0):
    """FM whose iteration g contributes make(g), make being pure"""
    E = ip.E
    g = z3.Int(E.uniq('g'))
    since = serial()

    def one():
        E.gvars.append(g)
        E.assume(z3.And(g >= I(lo), g < I(n)))
        raise Flow('return', STuple(make(SInt(g))))
    outs = E.explore(one, since)
    segs = merge_outs(outs)
    if segs is None:
        # never executed
        return FM(Body(g, (), 0), lo, lo)
    E.gvars.append(g)
    P = E.prefix_sum(g, ropelen(segs), n)
    E.gvars.pop()
    return FM(Body(g, segs, P), lo, n)


def merge_outs(outs):
    """One rope for all paths"""
    segs = None
    for dec, (kind, v), _ in reversed(outs):
        if kind == 'raise':
            raise v
        if kind != 'return':
            raise Unsupported('control flow in a generic element')
        s = v.segs
        if segs is None:
            segs = s
        else:
            segs = merge_segs(z3.And(dec) if dec else z3.BoolVal(True), s, segs)
    return segs


def merge_segs(c, a, b):
    """Rope that is a if c else b"""
    if len(a) == len(b) == 1 and isinstance(a[0], El) and isinstance(b[0], El):
        from .interp import join_values
        m = join_values(c, a[0].v, b[0].v)
        if m is MISSING:
            m = Choice(c, a[0].v, b[0].v)
        return (El(m),)
    return (Al(c, a, b),)


def map_segs(ip, segs, fn):
    """Rope of fn(element) (each a rope) for every element of a list rope"""
    E = ip.E
    out = []
    for s in segs:
        if isinstance(s, El):
            out += list(fn(s.v))
        elif isinstance(s, FM):
            b = s.body
            out.append(generic_fm(ip, s.hi, lambda g, b=b: map_segs(ip, b.at(g), fn), s.lo))
        elif isinstance(s, Fi):
            one = fn(s.b)
            if isinstance(s.n, int) and s.n <= 64:
                out += list(one) * s.n
            elif len(one) == 1 and isinstance(one[0], Lit) and len(one[0].b) == 1:
                out.append(Fi(one[0].b[0], s.n))
            else:
                out.append(generic_fm(ip, s.n, lambda g: one))
        elif isinstance(s, Al):
            out.append(Al(s.c, map_segs(ip, s.a, fn), map_segs(ip, s.b, fn)))
        else:
            raise Unsupported(f'mapping over {s!r}')
    return tuple(out)


# --------------------------------------------------------------- sequences

class _Seq:
    def __init__(self, chunks):
        self.chunks = chunks


def sequence(ip, v):
    """Chunks (count, get) of an iterable"""
    E = ip.E
    v = ip.res(v)
    if isinstance(v, SeqVal):
        return v
    if isinstance(v, range):
        return SeqVal([(len(v), lambda j: v[j] if isinstance(j, int) else add(v.start, mul(v.step, j)))])
    if isinstance(v, SRange):
        return SeqVal([(range_len(ip, v), lambda j: add(v.start, mul(v.step, j)))])
    if is_bytes(v):
        segs = byte_segs(v)
        return SeqVal([(ropelen(segs), lambda j: byte_item(ip, segs, j))])
    if isinstance(v, str):
        return SeqVal([(len(v), lambda j: v[j])])
    if isinstance(v, SStr):
        return SeqVal([(ropelen(v.segs), lambda j: SStr(E.slice(v.segs, j, add(j, 1))))])
    segs = list_segs(ip, v)
    chunks = []
    i = 0
    segs = list(segs)
    while i < len(segs):
        s = segs[i]
        if isinstance(s, El):
            j = i
            while j < len(segs) and isinstance(segs[j], El):
                j += 1
            vals = [x.v for x in segs[i:j]]
            if j - i <= ip.UNROLL or True:
                chunks.append((j - i, lambda k, vals=vals: pick(ip, vals, k)))
            i = j
            continue
        if isinstance(s, FM):
            b = s.body
            if not all(isinstance(x, El) for x in b.segs) or len(b.segs) != 1:
                n = sub(s.hi, s.lo)
                if isinstance(n, int) and n <= 64:
                    segs[i:i + 1] = [x for j in range(n) for x in b.at(add(s.lo, j))]
                    continue
                raise Unsupported('iteration over a sequence with varying contributions')
            chunks.append((sub(s.hi, s.lo), lambda k, s=s: s.body.at(add(s.lo, k))[0].v))
        elif isinstance(s, Fi):
            chunks.append((s.n, lambda k, s=s: s.b))
        elif isinstance(s, Al):
            segs[i:i + 1] = s.a if E.decide(s.c) else s.b
            continue
        else:
            raise Unsupported(f'iteration over {s!r}')
        i += 1
    return SeqVal(chunks)


def pick(ip, vals, k):
    """vals[k] for an index within range"""
    if isinstance(k, int):
        return vals[k]
    from .interp import join_values
    acc = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        acc = join_values(I(k) == j, vals[j], acc)
        if acc is MISSING:
            break
    else:
        return acc
    for j in range(len(vals) - 1):
        if ip.E.decide(I(k) == j):
            return vals[j]
    return vals[-1]


def range_len(ip, r):
    E = ip.E
    if isinstance(r.step, int) and r.step > 0:
        d = sub(r.stop, r.start)
        if E.le(0, d):
            if r.step == 1:
                return d
            return ceildiv(d, r.step)
        if r.step == 1:
            return mk(z3.If(I(d) > 0, I(d), z3.IntVal(0)))
        return mk(z3.If(I(d) > 0, (I(d) + r.step - 1) / r.step, z3.IntVal(0)))
    if not isinstance(r.step, int) and E.lt(0, r.step):
        d = sub(r.stop, r.start)
        if E.le(0, d):
            # exact multiple, if it can be seen
            q = E.factor(d, r.step)
            if q is not None and E.eq(q[1], 0):
                return q[0]
            return mk((I(d) + I(r.step) - 1) / I(r.step))
    raise Unsupported('range')


def ceildiv(d, c):
    """ceil(d / c), reading off exact quotients"""
    from .engine import divmod_syntactic
    if isinstance(d, int):
        return -(-d // c)
    q, r = divmod_syntactic(d, c)
    if q is not None:
        return q if r == 0 else add(q, 1)
    return mk((I(d) + (c - 1)) / c)


def length(ip, v):
    v = ip.res(v)
    if isinstance(v, (SBytes, MBytes, MList, SStr, STuple)):
        return ropelen(v.segs)
    if isinstance(v, (bytes, bytearray, str, tuple, list, dict, range)):
        return len(v)
    if isinstance(v, MDict):
        if PAIRS in v.d:
            return ropelen(dict_pairs(ip, v, True))
        return len(v.d)
    if isinstance(v, MSet):
        return add(*[mk(I(mkb(B(c)))) if not isinstance(c, bool) else int(c) for c in v.d.values()])
    if isinstance(v, SRange):
        return range_len(ip, v)
    if isinstance(v, Obj):
        m = ip.find(v.cls, '__len__')
        if m:
            return ip.call_value_with_cls(m[0], [v], {}, m[1])
    if isinstance(v, SeqVal):
        return add(*[n for n, _ in v.chunks])
    if v is None or is_int(v):
        raise PyRaise(TypeError, ('no len()',))
    raise Unsupported(f'len of {v!r}')


def unpack_n(ip, v, n):
    """Exactly n elements of an iterable"""
    E = ip.E
    v = ip.res(v)
    if isinstance(v, (tuple, list)):
        items = list(v)
    elif isinstance(v, SeqVal):
        items = [s.v for s in expand(ip, seq_to_segs(ip, v), n)]
    elif is_bytes(v):
        segs = byte_segs(v)
        ln = ropelen(segs)
        if not E.eq(ln, n):
            if not E.decide(I(ln) == n):
                raise PyRaise(ValueError, ('unpack',))
        return E.byte_terms(segs)
    else:
        if v is None or is_int(v):
            raise PyRaise(TypeError, ('cannot unpack',))
        items = [s.v for s in expand(ip, list_segs(ip, v), n)]
    if len(items) != n:
        raise PyRaise(ValueError, ('unpack',))
    return [ip.res(x) if isinstance(x, Poison) else x for x in items]


def expand(ip, segs, n):
    if all(isinstance(s, El) for s in segs):
        return segs
    ln = ropelen(segs)
    if not ip.E.eq(ln, n):
        if not ip.E.decide(I(ln) == n):
            raise PyRaise(ValueError, ('unpack',))
    return [ip.E.at(segs, j) for j in range(n)]


def unpack_all(ip, v):
    segs = list_segs(ip, v)
    if all(isinstance(s, El) for s in segs):
        return [s.v for s in segs]
    raise Unsupported('unpacking a sequence of unknown length')


# -------------------------------------------------------------- arithmetic

def bits_and(E, a, m):
    """a & m for a constant m >= 0"""
    if m == 0:
        return 0
    total = z3.IntVal(0)
    i = 0
    parts = []
    while m >> i:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while (m >> j) & 1:
            j += 1
        parts.append((i, j))
        i = j
    for lo, hi in parts:
        x = divmod_const(E, a, 1 << lo, True) if lo else a
        total = total + I(divmod_const(E, x, 1 << (hi - lo), False)) * (1 << lo)
    return mk(total)


def bit(a, i):
    return (I(a) / (1 << i)) % 2


def bit_of(E, a, i):
    return divmod_const(E, divmod_const(E, a, 1 << i, True), 2, False)


def multiple_of(E, a):
    """Largest known power of two (up to 2^32) dividing a"""
    best = 0
    from .engine import monomials
    if isinstance(a, int):
        return 64 if a == 0 else (a & -a).bit_length() - 1
    lows = []
    for c, atom in monomials(a.t):
        z = (c & -c).bit_length() - 1 if c else 64
        lows.append(z)
    return min(lows) if lows else 0


def bits_or(E, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(b, int):
        a, b = b, a
    # disjoint bits: addition
    for x, y in ((a, b), (b, a)):
        z = multiple_of(E, x)
        if z and E.valid(z3.And(I(y) >= 0, I(y) < (1 << min(z, 64)))) :
            return add(x, y)
    if isinstance(a, int):
        if a == 0:
            return b
        if a < 0:
            raise Unsupported('or with a negative constant')
        # set the bits of the constant
        t = bits_and(E, b, a)
        return mk(I(b) - I(t) + a)
    # b's bits may be disjoint in the middle: use z where known
    hi = None
    for w in (8, 16, 32):
        if E.valid(z3.And(I(a) >= 0, I(a) < (1 << w), I(b) >= 0, I(b) < (1 << w))):
            hi = w
            break
    if hi is None:
        raise Unsupported(f'or of {a} and {b}')
    return mk(z3.Sum([z3.If(z3.Or(bit(a, i) == 1, bit(b, i) == 1), z3.IntVal(1 << i), z3.IntVal(0))
                      for i in range(hi)]))


def bits_xor(E, a, b):
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        if a < 0:
            raise Unsupported('xor with a negative constant')
        t = bits_and(E, b, a)
        return mk(I(b) + a - 2 * I(t))
    for w in (8, 16, 32):
        if E.valid(z3.And(I(a) >= 0, I(a) < (1 << w), I(b) >= 0, I(b) < (1 << w))):
            return mk(z3.Sum([(1 << i) * z3.If(I(bit_of(E, a, i)) != I(bit_of(E, b, i)), z3.IntVal(1), z3.IntVal(0))
                              for i in range(w)]))
    raise Unsupported(f'xor of {a} and {b}')


PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
         ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.LShift: operator.lshift,
         ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
         ast.BitXor: operator.xor, ast.Div: operator.truediv, ast.Pow: operator.pow}


def concrete(v):
    return isinstance(v, (int, float, str, bytes, type(None), enum.Enum))


def binop(ip, op, a, b):
    E = ip.E
    a, b = ip.res(a), ip.res(b)
    if concrete(a) and concrete(b):
        if op is ast.Mult and isinstance(a, (str, bytes)) and isinstance(b, int) and len(a) * b > 100000:
            return SBytes([Fi(a[0], b)])
        try:
            return PYOPS[op](a, b)
        except (TypeError, ZeroDivisionError, ValueError) as e:
            raise PyRaise(type(e), ())
    if is_int(a) and is_int(b):
        return int_op(ip, op, a, b)
    if op is ast.Add:
        if is_bytes(a) and is_bytes(b):
            segs = join(byte_segs(a), byte_segs(b))
            if isinstance(a, (MBytes, bytearray)):
                return MBytes(segs)
            return mkbytes(segs)
        if isinstance(a, MList) and isinstance(b, MList):
            return MList(join(a.segs, b.segs))
        if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return STuple(list_segs(ip, a) + list_segs(ip, b))
        if is_text(a) and is_text(b):
            return mktext(text_segs(a) + text_segs(b))
        if isinstance(a, (FStr, str, SStr)) and isinstance(b, (FStr, str, SStr)):
            pa = a.parts if isinstance(a, FStr) else (a,)
            pb = b.parts if isinstance(b, FStr) else (b,)
            return FStr(pa + pb)
        if isinstance(a, MList) and isinstance(b, list):
            return MList(join(a.segs, list_segs(ip, b)))
        if isinstance(a, list) and isinstance(b, (MList, list)):
            return MList(join(list_segs(ip, a), list_segs(ip, b)))
    if op is ast.Mult:
        if is_int(a):
            a, b = b, a
        if is_int(b):
            return repeat(ip, a, b)
    if op in (ast.BitOr, ast.BitAnd, ast.Sub) and isinstance(a, MSet) and isinstance(b, MSet):
        out = MSet()
        out.d.isset = True
        for k in set(a.d) | set(b.d):
            x, y = B(a.d.get(k, False)), B(b.d.get(k, False))
            out.d[k] = mkb(z3.Or(x, y) if op is ast.BitOr else z3.And(x, y) if op is ast.BitAnd
                           else z3.And(x, z3.Not(y)))
        return out
    if op is ast.Mod and isinstance(a, str):
        return FStr([Opq('formatted', ())])
    if a is None or b is None:
        raise PyRaise(TypeError, ('unsupported operand',))
    if is_int(a) != is_int(b):
        raise PyRaise(TypeError, ('unsupported operand',))
    raise Unsupported(f'{op.__name__} of {a!r} and {b!r}')


def repeat(ip, a, n):
    E = ip.E
    if not isinstance(n, int):
        if not E.le(0, n) and not E.decide(I(n) >= 0):
            n = 0
    elif n < 0:
        n = 0
    if is_bytes(a):
        segs = byte_segs(a)
        cls = MBytes if isinstance(a, (MBytes, bytearray)) else SBytes
        if isinstance(n, int) and n <= 4096:
            return mkbytes(segs * n, cls)
        if len(segs) == 1 and isinstance(segs[0], Lit) and len(set(segs[0].b)) == 1:
            return mkbytes((Fi(segs[0].b[0], mul(n, len(segs[0].b))),), cls)
        if len(segs) == 1 and isinstance(segs[0], Pk) and segs[0].w == 1:
            return mkbytes((Fi(segs[0].t, n),), cls)
        return mkbytes((generic_fm(ip, n, lambda g: segs),), cls)
    if isinstance(a, (MList, tuple, list)):
        segs = list_segs(ip, a)
        if isinstance(n, int) and n * len(segs) <= 4096:
            out = segs * n
        elif len(segs) == 1 and isinstance(segs[0], El):
            out = (Fi(segs[0].v, n),)
        else:
            raise Unsupported('repeating a list')
        if isinstance(a, tuple):
            return tuple(s.v for s in out) if all(isinstance(s, El) for s in out) else STuple(out)
        return MList(out)
    if isinstance(a, str):
        return FStr([a, n])
    if isinstance(a, SStr):
        raise Unsupported('repeating text')
    raise Unsupported(f'repeating {a!r}')


def int_op(ip, op, a, b):
    E = ip.E
    if op is ast.Add:
        return add(a if not isinstance(a, (bool, SBool)) else mk(I(a)), b if not isinstance(b, (bool, SBool)) else mk(I(b)))
    if op is ast.Sub:
        return mk(I(a) - I(b))
    if op is ast.Mult:
        return mk(I(a) * I(b))
    if op is ast.Div:
        if not E.valid(I(b) != 0) and E.decide(I(b) == 0):
            raise PyRaise(ZeroDivisionError, ())
        return Frac(a, b)
    if op in (ast.FloorDiv, ast.Mod):
        if isinstance(b, int):
            if b == 0:
                raise PyRaise(ZeroDivisionError, ())
            if b < 0:
                q = mk((-I(a)) / (-b))
                return q if op is ast.FloorDiv else mk(I(a) - I(q) * b)
            return divmod_const(E, a, b, op is ast.FloorDiv)
        if E.lt(0, b):
            q = E.factor(a, b)
            if q is not None:
                return q[0] if op is ast.FloorDiv else q[1]
            q = E.quotient(a, b)
            return mk(q) if op is ast.FloorDiv else mk(I(a) - q * I(b))
        if not E.valid(I(b) != 0) and E.decide(I(b) == 0):
            raise PyRaise(ZeroDivisionError, ())
        if E.decide(I(b) > 0):
            q = E.quotient(a, b)
            return mk(q) if op is ast.FloorDiv else mk(I(a) - q * I(b))
        raise Unsupported('division by a negative number')
    if op is ast.LShift:
        if not isinstance(b, int):
            b = small(ip, b)
        if b < 0:
            raise PyRaise(ValueError, ())
        return mul(a, 1 << b)
    if op is ast.RShift:
        if not isinstance(b, int):
            b = small(ip, b)
        if b < 0:
            raise PyRaise(ValueError, ())
        return divmod_const(E, a, 1 << b, True)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op]
        return mkb(f(B(a), B(b)))
    a = mk(I(a)) if isinstance(a, SBool) else int(a) if isinstance(a, int) else a
    b = mk(I(b)) if isinstance(b, SBool) else int(b) if isinstance(b, int) else b
    if op is ast.BitAnd:
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b < 0:
                # clear the bits of ~b
                return mk(I(a) - I(bits_and(E, a, ~b)))
            return bits_and(E, a, b)
        for w in (1, 8, 16):
            if E.valid(z3.And(I(a) >= 0, I(a) < (1 << w), I(b) >= 0, I(b) < (1 << w))):
                return mk(z3.Sum([z3.If(z3.And(bit(a, i) == 1, bit(b, i) == 1), z3.IntVal(1 << i), z3.IntVal(0))
                                  for i in range(w)]))
        raise Unsupported('and of two symbolic integers')
    if op is ast.BitOr:
        return bits_or(E, a, b)
    if op is ast.BitXor:
        return bits_xor(E, a, b)
    if op is ast.Pow and isinstance(a, int) and not isinstance(b, int):
        return a ** small(ip, b)
    raise Unsupported(f'integer operator {op.__name__}')


def small(ip, b):
    """Case split a shift count"""
    E = ip.E
    if E.le(0, b) and E.le(b, 64):
        for v in range(64):
            if E.decide(I(b) == v):
                return v
        return 64
    raise Unsupported('symbolic shift count')


def divmod_const(E, a, c, want_q):
    """Floor division or modulus by a positive constant, simplified if exact"""
    from .engine import monomials
    a = mk(I(a))
    if isinstance(a, int):
        return a // c if want_q else a % c
    q = z3.IntVal(0)
    r = z3.IntVal(0)
    for co, atom in monomials(a.t):
        if atom is None:
            d, m = divmod(co, c)
            q = q + d
            r = r + m
        elif co % c == 0:
            q = q + (co // c) * atom
        else:
            r = r + co * atom
    r = mk(r)
    if isinstance(r, int):
        d, r = divmod(r, c)
        return mk(q + d) if want_q else r
    if E.valid(z3.And(r.t >= 0, r.t < c)):
        return mk(q) if want_q else r
    return mk(q + r.t / c) if want_q else mk(r.t % c)


def inplace(ip, op, a, b):
    a = ip.res(a)
    if op is ast.Add and isinstance(a, (MBytes, MList)):
        method(ip, a, 'extend', [b], {})
        return a
    if op is ast.BitOr and isinstance(a, MSet):
        method(ip, a, 'update', [b], {})
        return a
    return binop(ip, op, a, b)


# -------------------------------------------------------------- comparison

def compare(ip, op, a, b):
    E = ip.E
    a, b = ip.res(a), ip.res(b)
    if op is ast.Is or op is ast.IsNot:
        r = identical(a, b)
        return r if op is ast.Is else not r
    if op is ast.In or op is ast.NotIn:
        r = contains(ip, b, a)
        if op is ast.In:
            return r
        return (not r) if isinstance(r, bool) else mkb(z3.Not(B(r)))
    if op is ast.Eq or op is ast.NotEq:
        r = equal(ip, a, b)
        if op is ast.Eq:
            return r
        return (not r) if isinstance(r, bool) else mkb(z3.Not(B(r)))
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        x, y = I(a), I(b)
        return mkb({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])
    if a is None or b is None:
        raise PyRaise(TypeError, ('not supported',))
    if concrete(a) and concrete(b):
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
    raise Unsupported(f'comparison of {a!r} and {b!r}')


def identical(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (SBool, bool)) and isinstance(b, bool):
        if isinstance(a, bool):
            return a is b
        raise Unsupported('is with a boolean')
    if isinstance(a, SEnum) and isinstance(b, (enum.Enum, SEnum)) or isinstance(b, SEnum) and isinstance(a, enum.Enum):
        return mkb(I(a) == I(b)) if pytype(a) is pytype(b) else False
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum) or isinstance(a, type):
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if a.ident is not None or b.ident is not None or a.d.frozen or b.d.frozen:
            raise Unsupported('identity of sequence elements')
        return False
    if is_int(a) and is_int(b):
        raise Unsupported('identity of integers')
    if a is b:
        return True
    if isinstance(a, (MList, MBytes, MDict, Obj)) and isinstance(b, (MList, MBytes, MDict, Obj)):
        if a.d.frozen or b.d.frozen:
            raise Unsupported('identity of sequence elements')
        return False
    if pytype(a) is not pytype(b) or not isinstance(pytype(a), type):
        return False
    raise Unsupported(f'identity of {a!r} and {b!r}')


def equal(ip, a, b):
    """bool or SBool"""
    E = ip.E
    a, b = ip.res(a), ip.res(b)
    if a is b:
        return True
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return mkb(I(a) == I(b))
    if concrete(a) and concrete(b):
        return a == b
    if is_bytes(a) and is_bytes(b):
        return ropes_cond(ip, byte_segs(a), byte_segs(b))
    if is_text(a) and is_text(b):
        try:
            return ropes_cond(ip, text_segs(a), text_segs(b))
        except Unsupported:
            raise
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([equal(ip, x, y) for x, y in zip(a, b)])
    if isinstance(a, (MList, list)) and isinstance(b, (MList, list)):
        x, y = list_segs(ip, a), list_segs(ip, b)
        if all(isinstance(s, El) for s in x + y):
            if len(x) != len(y):
                return False
            return conj([equal(ip, p.v, q.v) for p, q in zip(x, y)])
        if E.lt(ropelen(x), ropelen(y)) or E.lt(ropelen(y), ropelen(x)):
            return False
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, Obj) and isinstance(b, Obj):
        m = ip.find(a.cls, '__eq__')
        if m and m[0] is not object.__eq__:
            return ip.call_value_with_cls(m[0], [a, b], {}, m[1])
        return identical(a, b)
    kinds = (is_int, is_bytes, is_text, lambda v: v is None, lambda v: isinstance(v, (tuple, STuple)),
             lambda v: isinstance(v, (MList, list)), lambda v: isinstance(v, Obj),
             lambda v: isinstance(v, (MDict, dict)), lambda v: isinstance(v, enum.Enum))
    ka = [k(a) for k in kinds]
    kb = [k(b) for k in kinds]
    if any(ka) and any(kb) and not any(x and y for x, y in zip(ka, kb)):
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            m = ip.find(o.cls, '__eq__')
            if m and m[0] is not object.__eq__:
                raise Unsupported('__eq__ across types')
        return False
    if isinstance(a, (type, types.FunctionType)) or isinstance(b, (type, types.FunctionType)):
        return a is b
    if isinstance(a, Opq) and isinstance(b, Opq) and a.name == b.name and a.name in getattr(E, 'individuals', ()):
        # different numbers stand for different objects
        return mkb(z3.And([I(x) == I(y) for x, y in zip(a.args, b.args)]))
    raise Unsupported(f'equality of {a!r} and {b!r}')


def conj(xs):
    if any(x is False for x in xs):
        return False
    xs = [B(x) for x in xs if x is not True]
    return mkb(z3.And(xs)) if xs else True


def ropes_cond(ip, a, b):
    """Condition under which two ropes are equal"""
    E = ip.E
    a, b = E.drop_empty(a), E.drop_empty(b)
    la, lb = ropelen(a), ropelen(b)
    if all(isinstance(s, Lit) for s in a + b):
        return b''.join(s.b for s in a) == b''.join(s.b for s in b)
    if not E.eq(la, lb):
        if not E.sat(I(la) == I(lb)):
            return False
        # an unknown length against a literal
        for x, y in ((a, b), (b, a)):
            if all(isinstance(s, Lit) for s in y):
                n = sum(len(s.b) for s in y)
                if n <= 64 and len(x) == 1 and isinstance(x[0], Sl):
                    s = x[0]
                    lit = b''.join(q.b for q in y)
                    return mkb(z3.And([I(s.n) == n] + [
                        s.src.byte(*[I(q) for q in s.args], I(add(s.off, j))) == lit[j] for j in range(n)]))
        if len(a) == len(b) == 1 and isinstance(a[0], Sl) and isinstance(b[0], Sl):
            return same_opaque(ip, a[0], b[0])
        if not E.decide(I(la) == I(lb)):
            return False
    if isinstance(la, int) or isinstance(lb, int):
        n = la if isinstance(la, int) else lb
        if n <= 64:
            x, y = E.byte_terms(a), E.byte_terms(b)
            return conj([mkb(I(p) == I(q)) for p, q in zip(x, y)])
    if len(a) == len(b) and all(same_seg(E, x, y) for x, y in zip(a, b)):
        return True
    if len(a) == len(b) == 1 and isinstance(a[0], Sl) and isinstance(b[0], Sl):
        return same_opaque(ip, a[0], b[0])
    raise Unsupported('equality of symbolic byte strings')


def same_opaque(ip, x, y):
    """Equality of two opaque byte strings as an uninterpreted relation"""
    E = ip.E
    if x.src is y.src and all(E.eq(p, q) for p, q in zip(x.args, y.args)) and E.eq(x.off, y.off) and E.eq(x.n, y.n):
        return True
    p, q = string_code(E, [x]), string_code(E, [y])
    if p is not None and q is not None:
        return mkb(p == q)
    raise Unsupported('equality of opaque byte strings')


def same_seg(E, x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, Lit):
        return x.b == y.b
    if isinstance(x, Sl):
        return x.src is y.src and all(E.eq(p, q) for p, q in zip(x.args, y.args)) \
            and E.eq(x.off, y.off) and E.eq(x.n, y.n)
    if isinstance(x, Pk):
        return x.w == y.w and x.big == y.big and E.eq(x.unsigned(), y.unsigned())
    if isinstance(x, Fi):
        return (x.b is y.b or isinstance(x.b, int) and isinstance(y.b, int) and x.b == y.b) and E.eq(x.n, y.n)
    if isinstance(x, FM):
        return x.body is y.body and E.eq(x.lo, y.lo) and E.eq(x.hi, y.hi)
    return False


def contains(ip, c, x):
    E = ip.E
    c = ip.res(c)
    if isinstance(c, (tuple, list, MList, STuple)):
        segs = list_segs(ip, c)
        if all(isinstance(s, El) for s in segs):
            return disj([equal(ip, s.v, x) for s in segs])
        i = list_index(ip, segs, x)
        return i is not None
    if isinstance(c, (MDict, dict)):
        d = c.d if isinstance(c, MDict) else c
        if isinstance(c, MDict) and PAIRS in d:
            return dict_find(ip, c, x) is not None
        if isinstance(x, SInt):
            x = E.constant(x)
        if isinstance(x, SInt):
            return disj([mkb(I(x) == k) for k in d if isinstance(k, int)])
        return dict_key(x) in d
    if isinstance(c, Map):
        return mkb(c.d['v'][0](I(x)))
    if isinstance(c, Weak):
        known = c.d['known']
        if any(E.eq(x, k) for k in known):
            return True
        b = E.bool('has')
        for k in known:
            E.assume(z3.Implies(I(x) == I(k), b.t))
        if E.decide(b.t):
            E.set(c.d, 'known', known + (x,))
            return True
        return False
    if isinstance(c, MSet):
        if isinstance(x, SInt):
            return disj([conj([mkb(I(x) == k), mkb(B(v))]) for k, v in c.d.items()])
        v = c.d.get(x, False)
        return v
    if isinstance(c, range):
        if isinstance(x, int):
            return x in c
        if is_int(x) and c.step == 1:
            return mkb(z3.And(I(x) >= c.start, I(x) < c.stop))
    if isinstance(c, SRange) and c.step == 1 and is_int(x):
        return mkb(z3.And(I(x) >= I(c.start), I(x) < I(c.stop)))
    if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes, int)):
        return x in c
    if isinstance(c, type) and issubclass(c, enum.Enum):
        return x in c
    if isinstance(c, Opq):
        h = getattr(E, 'contains_hook', None)
        if h is not None:
            return h(c, x)
    if isinstance(c, SStr):
        h = getattr(E, 'text_contains_hook', None)
        if h is not None:
            return h(c, x)
    if isinstance(c, Obj):
        m = ip.find(c.cls, '__contains__')
        if m:
            return mkb_any(ip, ip.call_value_with_cls(m[0], [c, x], {}, m[1]))
    if isinstance(c, (frozenset, set)):
        if is_int(x) and not isinstance(x, int):
            return disj([mkb(I(x) == k) for k in c if isinstance(k, int)])
        return x in c
    if is_bytes(c) and is_int(x):
        segs = byte_segs(c)
        i = find_bytes(ip, segs, (x,), 0)
        return not (isinstance(i, int) and i == -1)
    if is_bytes(c) and is_bytes(x) and getattr(E, 'find_hook', None) is not None:
        r = E.find_hook(byte_segs(c), x, 0)
        if r is not None:
            return not (isinstance(r, int) and r == -1)
    raise Unsupported(f'membership in {c!r}')


def mkb_any(ip, v):
    t = ip.truth_term(v)
    return t if isinstance(t, bool) else SBool(t)


def disj(xs):
    if any(x is True for x in xs):
        return True
    xs = [B(x) for x in xs if x is not False]
    return mkb(z3.Or(xs)) if xs else False


def list_index(ip, segs, x, start=0):
    """Index of the first element equal to x, or None (forks)"""
    E = ip.E
    pos = 0
    for s in segs:
        if isinstance(s, El):
            r = equal(ip, s.v, x)
            if r is True or r is not False and E.decide(r):
                return pos
            pos = add(pos, 1)
        elif isinstance(s, FM):
            m = first_match(ip, s, x)
            if m is not None:
                return add(pos, m)
            pos = add(pos, seglen(s))
        elif isinstance(s, Fi):
            r = equal(ip, s.b, x)
            if r is not False and E.decide(conj([r, mkb(I(s.n) > 0)])):
                return pos
            pos = add(pos, s.n)
        else:
            raise Unsupported(f'search in {s!r}')
    return None


def first_match(ip, s, x):
    """First index of an FM of single elements equal to x, or None"""
    from . import loops
    E = ip.E
    b = s.body
    if len(b.segs) != 1 or not isinstance(b.segs[0], El):
        raise Unsupported('search in a sequence with varying contributions')
    n = sub(s.hi, s.lo)
    g = z3.Int(E.uniq('g'))

    def one():
        E.gvars.append(g)
        E.assume(z3.And(g >= 0, g < I(n)))
        r = equal(ip, b.at(add(s.lo, SInt(g)))[0].v, x)
        raise Flow('return', r)
    outs = E.explore(one, serial())
    conds = []
    for dec, (kind, r), _ in outs:
        if kind == 'raise':
            raise r
        conds.append(z3.And(dec + [B(r)]))
    c = z3.simplify(z3.Or(conds)) if conds else z3.BoolVal(False)
    if z3.is_false(c):
        return None
    # the element may be known
    if is_int(x):
        from .engine import ufs
        names = {a.decl().name() for a in ufs(c)}
        for t in {t.get_id(): t for a in ufs(I(x)) if a.decl().name() in names for t in a.children()}.values():
            t = z3.simplify(t - I(s.lo))
            if E.valid(z3.And(t >= 0, t < I(n), z3.substitute(c, (g, t)))) and \
                    E.valid(z3.Implies(z3.And(g >= 0, g < t), z3.Not(c))):
                return mk(t)
    return loops.first_index(ip, n, g, c)


# ---------------------------------------------------------------- indexing

def byte_item(ip, segs, i):
    """Value of the byte at an index within range"""
    s = ip.E.at(segs, i)
    if isinstance(s, Fi):
        return s.b
    return ip.E.byte_terms([s])[0]


def check_index(ip, i, n):
    """Offset for a Python index; raises IndexError"""
    E = ip.E
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise(IndexError, ())
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0:
        i = add(n, i)
    elif not isinstance(i, int) and not E.le(0, i):
        if E.decide(I(i) < 0):
            i = add(n, i)
    if not (E.le(0, i) and E.lt(i, n)):
        if not E.decide(z3.And(I(i) >= 0, I(i) < I(n))):
            raise PyRaise(IndexError, ())
    return i


def getitem(ip, o, i):
    E = ip.E
    o = ip.res(o)
    i = slice(ip.res(i.start), ip.res(i.stop), ip.res(i.step)) if isinstance(i, slice) else ip.res(i)
    if isinstance(o, type):
        if issubclass(o, enum.Enum):
            return o[i]
        raise Unsupported('subscripted class')
    if isinstance(i, slice):
        return getslice(ip, o, i)
    if isinstance(o, Map):
        has, value = o.d['v']
        if not E.decide(has(I(i))):
            raise PyRaise(KeyError, ())
        return mk(value(I(i)))
    if isinstance(o, Weak):
        for k, v in o.d['reads']:
            if E.eq(k, i):
                return v
        known = [I(i) == I(k) for k in o.d['known']]
        if not known or not E.valid(z3.Or(known)):
            raise PyRaise(KeyError, ())
        v, facts = o.entry(E, i)
        for x in facts:
            E.assume(x)
        E.set(o.d, 'reads', o.d['reads'] + ((i, v),))
        return v
    if isinstance(o, (MDict, dict)):
        d = o.d if isinstance(o, MDict) else o
        if isinstance(o, MDict) and PAIRS in d:
            r = dict_find(ip, o, i)
            if r is None:
                raise PyRaise(KeyError, ())
            return r[0]
        if isinstance(i, SInt):
            i = E.constant(i)
        if isinstance(i, SInt):
            return dict_sym(ip, d, i)
        k = dict_key(i)
        if k not in d:
            raise PyRaise(KeyError, (k,))
        return d[k]
    if isinstance(o, Obj):
        m = ip.find(o.cls, '__getitem__')
        if m is None:
            raise PyRaise(TypeError, ('not subscriptable',))
        return ip.call_value_with_cls(m[0], [o, i], {}, m[1])
    if o is None:
        raise PyRaise(TypeError, ('not subscriptable',))
    if not is_int(i):
        if isinstance(o, (bytes, str, tuple, list, MList, MBytes, SBytes)):
            raise PyRaise(TypeError, ('bad index',))
        raise Unsupported(f'index {i!r} of {o!r}')
    if isinstance(i, (bool, SBool)):
        i = mk(I(i))
    if isinstance(o, (bytes, bytearray, str, tuple, list)) and isinstance(i, int):
        try:
            return o[i]
        except IndexError:
            raise PyRaise(IndexError, ())
    if isinstance(o, str):
        i = check_index(ip, i, len(o))
        return pick(ip, list(o), i)
    if is_bytes(o):
        segs = byte_segs(o)
        i = check_index(ip, i, ropelen(segs))
        if not isinstance(i, int) and all(isinstance(s, Lit) for s in segs):
            return pick(ip, list(b''.join(s.b for s in segs)), i)
        return byte_item(ip, segs, i)
    if isinstance(o, SStr):
        i = check_index(ip, i, ropelen(o.segs))
        return mktext(E.slice(o.segs, i, add(i, 1)))
    segs = list_segs(ip, o)
    if len(segs) > 0 and all(isinstance(s, El) for s in segs):
        i = check_index(ip, i, len(segs))
        return pick(ip, [s.v for s in segs], i)
    i = check_index(ip, i, ropelen(segs))
    s = E.at(segs, i)
    return s.v if isinstance(s, El) else s.b


def dict_sym(ip, d, i):
    E = ip.E
    keys = [k for k in d if isinstance(k, int)]
    if keys and E.valid(z3.Or([I(i) == int(k) for k in keys])):
        from .interp import join_values
        acc = d[keys[-1]]
        for k in keys[-2::-1]:
            acc = join_values(I(i) == int(k), d[k], acc)
            if acc is MISSING:
                break
        else:
            return acc
    for k in keys:
        if E.decide(I(i) == int(k)):
            return d[k]
    raise PyRaise(KeyError, ())


def getslice(ip, o, s):
    E = ip.E
    if s.step is not None and s.step != 1:
        if isinstance(o, (bytes, str, tuple)):
            return o[s]
        if isinstance(o, (MList, STuple)) and all(isinstance(x, El) for x in o.segs):
            return MList(o.segs[s])
        if is_bytes(o) and s.step == -1 and s.start is None and s.stop is None:
            n = ropelen(byte_segs(o))
            if isinstance(n, int) and n <= 64:
                bs = E.byte_terms(byte_segs(o))[::-1]
                return mkbytes([Pk(b, 1) if not isinstance(b, int) else Lit(bytes([b])) for b in bs],
                               MBytes if isinstance(o, MBytes) else SBytes)
            r = reversed_segs(byte_segs(o))
            if r is not None:
                return mkbytes(r, MBytes if isinstance(o, MBytes) else SBytes)
        if is_bytes(o):
            raise Unsupported('reversed byte string')
        raise Unsupported('extended slice')
    a, b = s.start, s.stop
    if isinstance(o, (bytes, str, tuple)) and all(x is None or isinstance(x, int) for x in (a, b)):
        return o[a:b]
    if isinstance(o, Obj):
        m = ip.find(o.cls, '__getitem__')
        return ip.call_value_with_cls(m[0], [o, s], {}, m[1])
    if is_bytes(o):
        segs = E.pyslice(byte_segs(o), a, b)
        return mkbytes(segs, MBytes if isinstance(o, (MBytes, bytearray)) else SBytes)
    if is_text(o):
        return mktext(E.pyslice(text_segs(o), a, b))
    if isinstance(o, (MList, list)):
        return MList(E.pyslice(list_segs(ip, o), a, b))
    if isinstance(o, (STuple, tuple)):
        return STuple(E.pyslice(list_segs(ip, o), a, b))
    raise Unsupported(f'slice of {o!r}')


def one_byte(ip, v, exc=ValueError):
    """Segment for an integer stored as one byte"""
    if isinstance(v, int):
        if not 0 <= v <= 255:
            raise PyRaise(exc, ())
        return Lit(bytes([v]))
    v = mk(I(v))
    if isinstance(v, int):
        return one_byte(ip, v, exc)
    ip.E.defer(z3.And(v.t >= 0, v.t <= 255), 'byte in range(256)', exc)
    return Pk(v, 1)


def setitem(ip, o, i, v):
    E = ip.E
    o = ip.res(o)
    if not isinstance(i, slice):
        i = ip.res(i)
    if isinstance(o, Map):
        E.set(o.d, 'v', put_map(o.d['v'], i, v))
        return
    if isinstance(o, Weak):
        o.stored(E, i, v)
        E.set(o.d, 'known', o.d['known'] + (i,))
        E.set(o.d, 'reads', ())
        return
    if isinstance(o, MDict):
        if isinstance(i, SInt) and PAIRS not in o.d:
            i = E.constant(i)
        if PAIRS in o.d or symbolic_key(i):
            if PAIRS not in o.d and o.d:
                raise Unsupported('dict with concrete and symbolic keys')
            E.set(o.d, PAIRS, o.d.get(PAIRS, ()) + (El((i, v)),))
            return
        E.set(o.d, dict_key(i), v)
        return
    if isinstance(o, Obj):
        m = ip.find(o.cls, '__setitem__')
        if m is None:
            raise PyRaise(TypeError, ('no item assignment',))
        ip.call_value_with_cls(m[0], [o, i, v], {}, m[1])
        return
    if isinstance(o, (MBytes, MList)):
        isb = isinstance(o, MBytes)
        segs = o.segs
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('extended slice assignment')
            n = ropelen(segs)
            a = 0 if i.start is None else E.norm_index(ip.res(i.start), n)
            b = n if i.stop is None else E.norm_index(ip.res(i.stop), n)
            if not E.le(a, b) and not E.decide(I(a) <= I(b)):
                b = a
            left, rest = E.split(segs, a)
            _, right = E.split(rest, sub(b, a))
            mid = to_byte_segs(ip, v) if isb else list_segs(ip, v)
            E.set(o.d, 'v', join(left, mid, right))
            return
        n = ropelen(segs)
        i = check_index(ip, i, n)
        left, rest = E.split(segs, i)
        _, right = E.split(rest, 1)
        mid = (one_byte(ip, ip.res(v)),) if isb else (El(v),)
        E.set(o.d, 'v', join(left, mid, right))
        return
    if isinstance(o, (bytes, SBytes, tuple, STuple, str, SStr)):
        raise PyRaise(TypeError, ('no item assignment',))
    raise Unsupported(f'item assignment to {o!r}')


def delitem(ip, o, i):
    E = ip.E
    o = ip.res(o)
    if isinstance(o, MDict):
        k = dict_key(i)
        if k not in o.d:
            raise PyRaise(KeyError, (k,))
        E.unset(o.d, k)
        return
    if isinstance(o, (MBytes, MList)):
        if isinstance(i, slice):
            setitem(ip, o, i, b'' if isinstance(o, MBytes) else ())
            return
        i = check_index(ip, ip.res(i), ropelen(o.segs))
        left, rest = E.split(o.segs, i)
        _, right = E.split(rest, 1)
        E.set(o.d, 'v', join(left, right))
        return
    raise Unsupported('del')


def dict_pairs(ip, o, anyorder=False):
    """Rope of the items of a dict"""
    if o.unordered and not anyorder:
        raise Unsupported('the order of a dict')
    if PAIRS not in o.d:
        return tuple(El((k, v)) for k, v in o.d.items())
    segs = o.d[PAIRS]
    distinct_keys(ip, o)
    return segs


def distinct_keys(ip, o):
    """The pairs of a dict were stored under different keys"""
    E = ip.E
    segs = o.d[PAIRS]
    if any(isinstance(s, Pend) for s in segs):
        raise Unsupported('reading a dict that is being filled')
    done = E.__dict__.setdefault('distinct', [])
    if any(a is segs and b is E.path for a, b in done):
        return
    if not E.gvars:
        done.append((segs, E.path))
    parts = []
    for s in segs:
        if isinstance(s, El):
            parts.append((s, None))
        elif isinstance(s, FM) and len(s.body.segs) == 1:
            parts.append((s, s))
        else:
            raise Unsupported(f'keys of {s!r}')

    def key(s, t):
        if isinstance(s, El):
            return [(True, s.v[0])]
        x = s.body.at(t)[0]
        if isinstance(x, El):
            return [(True, x.v[0])]
        if isinstance(x, Al):
            return [(c, e.v[0]) for c, es in ((x.c, x.a), (z3.Not(x.c), x.b)) for e in es]
        raise Unsupported(f'keys of {s!r}')
    for i, (s, fi) in enumerate(parts):
        for j, (r, fj) in enumerate(parts[:i + 1]):
            if i == j and fi is None:
                continue
            if fi is None and fj is None:
                c = equal(ip, s.v[0], r.v[0])
                if c is not False:
                    E.prove(z3.Not(B(c)), 'dictionary keys are distinct')
                continue
            a, b = z3.Int(E.uniq('g')), z3.Int(E.uniq('g'))
            hyp = [z3.And(x >= I(f.lo), x < I(f.hi)) for x, f in ((a, fi), (b, fj)) if f is not None]
            if i == j:
                hyp.append(a < b)
            for c, p in key(s, SInt(a)):
                for d, q in key(r, SInt(b)):
                    E.prove(z3.Implies(z3.And(hyp + [B(c), B(d)]), z3.Not(same_key(E, p, q))), 'dictionary keys are distinct')


def put_map(m, i, v):
    has, value = m
    i, v = I(i), I(v)
    return lambda x: z3.Or(x == i, has(x)), lambda x: z3.If(x == i, v, value(x))


def as_map(o):
    """The two functions of a Map, for any dict with single integer keys"""
    if isinstance(o, Map):
        return o.d['v']
    m = lambda x: z3.BoolVal(False), lambda x: z3.IntVal(0)
    if not isinstance(o, MDict):
        return None
    items = list(o.d.items())
    if PAIRS in o.d:
        if not all(isinstance(s, El) for s in o.d[PAIRS]):
            return None
        items = [s.v for s in o.d[PAIRS]]
    for k, v in items:
        if not is_int(k) or not is_int(v):
            return None
        m = put_map(m, k, v)
    return m


def dict_find(ip, o, key):
    """(value,) of a key, or None"""
    E = ip.E
    segs = dict_pairs(ip, o, True)
    for s in segs:
        if isinstance(s, El):
            r = equal(ip, s.v[0], key)
            if r is True or r is not False and E.decide(r):
                return (s.v[1],)
            continue
        b = s.body
        if len(b.segs) != 1 or not isinstance(b.segs[0], El):
            raise Unsupported('lookup in a dict with varying contributions')
        # an index whose key is this key
        cands = []
        from .engine import ufs
        names = {a.decl().name() for x in key_terms(E, b.segs[0].v[0]) for a in ufs(x)}
        for x in key_terms(E, key):
            for a in ufs(x):
                if a.decl().name() in names:
                    cands += a.children()
        if isinstance(key, Opq):
            cands += key_terms(E, key)
        for t in cands:
            t = mk(t)
            if E.le(s.lo, t) and E.lt(t, s.hi) and E.valid(same_key(E, b.at(t)[0].v[0], key)):
                return (b.at(t)[0].v[1],)
        n = sub(s.hi, s.lo)
        g = z3.Int(E.uniq('g'))
        from . import loops
        c = same_key(E, b.at(add(s.lo, SInt(g)))[0].v[0], key)
        m = loops.first_index(ip, n, g, z3.simplify(c))
        if m is not None:
            return (b.at(add(s.lo, m))[0].v[1],)
    return None


def key_terms(E, k):
    """A dict key as integers"""
    if is_int(k):
        return [I(k)]
    if isinstance(k, tuple):
        return [t for x in k for t in key_terms(E, x)]
    if isinstance(k, Opq) and set(getattr(E, 'individuals', ())) == {k.name}:
        return [t for x in k.args for t in key_terms(E, x)]
    if is_text(k) or is_bytes(k) and not isinstance(k, MBytes):
        segs = text_segs(k) if is_text(k) else byte_segs(k)
        t = string_code(E, segs)
        if t is not None:
            return [t]
    raise Unsupported(f'{k!r} as a dictionary key')


def string_code(E, segs):
    if len(segs) == 1 and type(getattr(segs[0], 'src', None)) is Src and segs[0].args:
        s = segs[0]
        args = [I(a) for a in s.args]
        if same_int(s.off, 0) and E.eq(s.n, mk(s.src.length(*args))):
            return E.code(s.src)(*args)
    return None


def same_int(a, b):
    return isinstance(a, int) and a == b


def same_key(E, a, b):
    def shape(k):
        return [shape(x) for x in k] if isinstance(k, tuple) else 'int' if is_int(k) else 'text' if is_text(k) else ('individual', k.name) if isinstance(k, Opq) else 'bytes'
    if shape(a) != shape(b):
        raise Unsupported('keys of different types')
    return z3.And([x == y for x, y in zip(key_terms(E, a), key_terms(E, b))])


def symbolic_key(k):
    if isinstance(k, Opq):
        k = tuple(k.args)
    return isinstance(k, (SInt, SStr, SBytes)) or isinstance(k, tuple) and any(symbolic_key(x) for x in k)


def dict_key(k):
    if isinstance(k, (SInt, SBool, SBytes, SStr, FStr)):
        raise Unsupported('symbolic dictionary key')
    return k


def make_set(ip, items):
    s = MSet()
    s.d.isset = True
    for x in items:
        if not isinstance(x, int):
            raise Unsupported('set of other than concrete integers')
        s.d[x] = True
    return s


def to_byte_segs(ip, v):
    """Rope of anything bytearray.extend accepts"""
    v = ip.res(v)
    if is_bytes(v):
        return byte_segs(v)
    if v is None or is_int(v):
        raise PyRaise(TypeError, ('not iterable',))
    return map_segs(ip, list_segs(ip, v), lambda x: (one_byte(ip, ip.res(x)),))


# ------------------------------------------------------------------ struct

SIZES = {'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def parse_fmt(fmt):
    """(big, [(count, code)])"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if not isinstance(fmt, str):
        raise Unsupported(f'struct format {fmt!r}')
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    if order == '@':
        # native sizes are the same here; native alignment adds padding
        codes = [c for c in fmt if c.isalpha()]
        if any(SIZES.get(c, 1) > 1 for c in codes) and len(set(codes)) > 1:
            raise Unsupported('native alignment')
        if any(c in 'lL' for c in codes):
            raise Unsupported('native long')
    out = []
    i = 0
    while i < len(fmt):
        j = i
        while fmt[j].isdigit():
            j += 1
        n = int(fmt[i:j]) if j > i else None
        c = fmt[j]
        if c in 'sx' or c in SIZES:
            out.append((n, c))
        elif c == ' ':
            pass
        else:
            raise Unsupported(f'struct code {c}')
        i = j + 1
    return order in '>!', out


def fmt_size(items):
    t = 0
    for n, c in items:
        k = 1 if n is None else n
        t += k if c in 'sx' else k * SIZES[c]
    return t


def pack_int(ip, v, c, big):
    E = ip.E
    v = ip.res(v)
    w = SIZES[c]
    if c == '?':
        t = ip.truth_term(v)
        if isinstance(t, bool):
            return Lit(bytes([t]))
        return Pk(mk(z3.If(t, z3.IntVal(1), z3.IntVal(0))), 1)
    if not is_int(v):
        if isinstance(v, Obj) or v is None or is_bytes(v) or is_text(v) or isinstance(v, (tuple, MList)):
            raise PyRaise(struct.error, ())
        raise Unsupported(f'packing {v!r}')
    signed = c.islower()
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    v = mk(I(v)) if not isinstance(v, int) else int(v)
    if isinstance(v, int):
        if not lo <= v <= hi:
            raise PyRaise(struct.error, ())
        return Lit(v.to_bytes(w, 'big' if big else 'little', signed=signed))
    E.defer(z3.And(v.t >= lo, v.t <= hi), f"value fits struct code '{c}'", struct.error)
    return Pk(v, w, big, signed)


def pack(ip, fmt, args):
    E = ip.E
    if isinstance(fmt, FStr):
        return pack_counted(ip, fmt, args)
    if any(isinstance(a, Splat) for a in args):
        big, items = parse_fmt(fmt)
        n = sum((1 if k is None else k) for k, c in items if c not in 'sx') + sum(1 for k, c in items if c == 's')
        flat = []
        for a in args:
            if isinstance(a, Splat):
                rest = n - len([x for x in args if not isinstance(x, Splat)])
                ln = ropelen(a.segs)
                if not E.eq(ln, rest) and not E.decide(I(ln) == rest):
                    raise PyRaise(struct.error, ())
                if rest > 64:
                    code = items[0][1]
                    if len(items) == 1 and len(args) == 1:
                        segs = map_segs(ip, a.segs, lambda x: (pack_int(ip, x, code, big),))
                        return mkbytes(segs)
                flat += [(lambda s: s.v if isinstance(s, El) else s.b)(E.at(a.segs, j)) for j in range(rest)]
            else:
                flat.append(a)
        args = flat
    big, items = parse_fmt(fmt)
    args = list(args)
    out = []
    for n, c in items:
        if c == 'x':
            out.append(Lit(bytes(1 if n is None else n)))
            continue
        if c == 's':
            if not args:
                raise PyRaise(struct.error, ())
            v = ip.res(args.pop(0))
            if not is_bytes(v):
                raise PyRaise(struct.error, ())
            n = 1 if n is None else n
            segs = byte_segs(v)
            ln = ropelen(segs)
            if E.eq(ln, n):
                out += list(segs)
            elif E.le(ln, n) or E.decide(I(ln) <= n):
                out += list(segs) + [Fi(0, sub(n, ln))]
            else:
                out += list(E.slice(segs, 0, n))
            continue
        for _ in range(1 if n is None else n):
            if not args:
                raise PyRaise(struct.error, ())
            out.append(pack_int(ip, args.pop(0), c, big))
    if args:
        raise PyRaise(struct.error, ())
    return mkbytes(out)


def counted_fmt(fmt):
    """(order, count, code) of a format string like f'<{n}H'"""
    p = [x for x in fmt.parts if x != '']
    if len(p) == 2 and is_int(p[0]) and isinstance(p[1], str) and len(p[1]) == 1:
        p = ['@'] + p
    if len(p) == 3 and isinstance(p[0], str) and len(p[0]) == 1 and isinstance(p[2], str) \
            and len(p[2]) == 1 and (p[2] in SIZES or p[2] == 's') and is_int(p[1]):
        return p[0] in '>!', p[1], p[2]
    raise Unsupported(f'struct format {fmt.parts!r}')


def pack_counted(ip, fmt, args):
    E = ip.E
    big, n, c = counted_fmt(fmt)
    if c == 's':
        raise Unsupported('symbolic string width')
    segs = []
    for a in args:
        segs += list(a.segs) if isinstance(a, Splat) else [El(a)]
    ln = ropelen(segs)
    if not E.eq(ln, n) and not E.decide(I(ln) == I(n)):
        raise PyRaise(struct.error, ())
    return mkbytes(map_segs(ip, segs, lambda x: (pack_int(ip, x, c, big),)))


def unpack_values(ip, fmt, segs):
    """Values of a rope that has exactly the size of the format"""
    E = ip.E
    big, items = parse_fmt(fmt)
    out = []
    # a large homogeneous format stays a rope
    if len(items) == 1 and items[0][1] in SIZES and (items[0][0] or 1) > 64:
        return unpack_rope(ip, segs, items[0][0], items[0][1], big)
    rest = segs
    for n, c in items:
        k = 1 if n is None else n
        if c == 'x':
            _, rest = E.split(rest, k)
        elif c == 's':
            a, rest = E.split(rest, k)
            out.append(mkbytes(a))
        else:
            w = SIZES[c]
            for _ in range(k):
                a, rest = E.split(rest, w)
                v = E.read_uint(a, w, big, c.islower() and c != '?')
                if c == '?':
                    v = v != 0 if isinstance(v, int) else mkb(I(v) != 0)
                out.append(v)
    return tuple(out)


def unpack_rope(ip, segs, n, c, big):
    E = ip.E
    w = SIZES[c]

    def make(g):
        off = mul(g, w)
        a = E.slice(segs, off, add(off, w))
        return (El(E.read_uint(a, w, big, c.islower())),)
    return STuple((generic_fm(ip, n, make),))


def unpack(ip, fmt, data):
    E = ip.E
    segs = byte_segs(ip.res(data))
    ln = ropelen(segs)
    if isinstance(fmt, FStr):
        big, n, c = counted_fmt(fmt)
        size = mul(n, SIZES[c])
        if not E.eq(ln, size) and not E.decide(I(ln) == I(size)):
            raise PyRaise(struct.error, ())
        return unpack_rope(ip, segs, n, c, big)
    size = fmt_size(parse_fmt(fmt)[1])
    if not E.eq(ln, size) and not E.decide(I(ln) == size):
        raise PyRaise(struct.error, ())
    return unpack_values(ip, fmt, segs)


def unpack_from(ip, fmt, data, off=0):
    E = ip.E
    data = ip.res(data)
    if not is_bytes(data):
        raise PyRaise(TypeError, ())
    segs = byte_segs(data)
    ln = ropelen(segs)
    off = ip.res(off)
    if isinstance(fmt, FStr):
        big, n, c = counted_fmt(fmt)
        size = mul(n, SIZES[c])
    else:
        size = fmt_size(parse_fmt(fmt)[1])
    off = buffer_offset(ip, off, size, ln)
    piece = E.slice(segs, off, add(off, size))
    if isinstance(fmt, FStr):
        return unpack_rope(ip, piece, n, c, big)
    return unpack_values(ip, fmt, piece)


def buffer_offset(ip, off, size, ln):
    E = ip.E
    if isinstance(off, int) and off < 0:
        off = add(ln, off)
    elif not isinstance(off, int) and not E.le(0, off):
        if E.decide(I(off) < 0):
            off = add(ln, off)
    if not E.le(0, off) and not E.decide(I(off) >= 0):
        raise PyRaise(struct.error, ())
    if not E.le(add(off, size), ln) and not E.decide(I(add(off, size)) <= I(ln)):
        raise PyRaise(struct.error, ())
    return off


def pack_into(ip, fmt, buf, off, args):
    E = ip.E
    buf = ip.res(buf)
    if not isinstance(buf, MBytes):
        raise PyRaise(TypeError, ())
    new = byte_segs(pack(ip, fmt, args))
    size = ropelen(new)
    off = buffer_offset(ip, ip.res(off), size, ropelen(buf.segs))
    left, rest = E.split(buf.segs, off)
    _, right = E.split(rest, size)
    E.set(buf.d, 'v', join(left, new, right))


# -------------------------------------------------------------- attributes

def getattr_(ip, o, name):
    from .interp import BoundOp
    if isinstance(o, struct.Struct):
        return StructOp(o.format, name)
    if isinstance(o, tuple) and hasattr(o, '_fields') and name in o._fields:
        return ip.res(getattr(o, name))
    if isinstance(o, enum.Enum) and not (isinstance(o, int) and name in ('to_bytes', 'bit_length')):
        try:
            return getattr(o, name)
        except AttributeError:
            raise PyRaise(AttributeError, (name,))
    if isinstance(o, (SBytes, MBytes, MList, SStr, STuple, MDict, MSet, SInt, SBool, bytes, str, int,
                      tuple, list, dict, FStr, type(None))):
        if isinstance(o, type(None)) or (isinstance(o, (int, SInt)) and name not in
                                         ('to_bytes', 'bit_length', 'from_bytes', 'value', 'name')):
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, SInt) and name in ('value',):
            return o
        if not isinstance(o, (int, SInt)) and not hasattr(pytype(o), name):
            raise PyRaise(AttributeError, (name,))
        return BoundOp(name, o)
    if isinstance(o, File):
        return BoundOp(name, o)
    if isinstance(o, Opq):
        h = getattr(ip.E, 'attribute_hook', None)
        if h is not None:
            return h(o, name)
        raise Unsupported(f'attribute {name} of {o!r}')
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type(struct))):
        return getattr(o, name)
    try:
        return getattr(o, name)
    except AttributeError:
        raise PyRaise(AttributeError, (name,))


# ----------------------------------------------------------------- methods

def method(ip, o, name, args, kwargs):
    E = ip.E
    o = ip.res(o)
    args = [ip.res(a) if isinstance(a, (Choice, Opt)) and name not in ('append', 'setdefault') else a for a in args]
    if isinstance(o, MBytes):
        r = mbytes_method(ip, o, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if is_bytes(o):
        return bytes_method(ip, o, name, args, kwargs)
    if isinstance(o, MList):
        return list_method(ip, o, name, args, kwargs)
    if is_text(o) or isinstance(o, FStr):
        return text_method(ip, o, name, args, kwargs)
    if isinstance(o, (MDict, dict)):
        return dict_method(ip, o, name, args, kwargs)
    if isinstance(o, MSet):
        return set_method(ip, o, name, args, kwargs)
    if isinstance(o, (int, SInt, SBool)):
        return int_method(ip, o, name, args, kwargs)
    if isinstance(o, (tuple, STuple, list)):
        if name == 'index':
            i = list_index(ip, list_segs(ip, o), args[0])
            if i is None:
                raise PyRaise(ValueError, ())
            return i
        if name == 'count' and isinstance(o, tuple):
            return o.count(*args)
        if name == '_replace':
            return o._replace(**kwargs)
    if isinstance(o, File):
        return file_method(ip, o, name, args)
    if isinstance(o, Obj):
        if name in ('__init__', '__init_subclass__'):
            return None
        if name in ('__repr__', '__str__'):
            return FStr([Opq('text', ())])
    raise Unsupported(f'method {name} of {o!r}')


def n_open(ip, a, k):
    """Files of the modelled file system: name -> content"""
    E = ip.E
    path = a[0]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if not isinstance(path, str) or mode not in ('rb', 'wb'):
        raise Unsupported('open')
    fs = E.overlay.setdefault('file system', D())
    if mode == 'rb':
        if path not in fs:
            raise PyRaise(FileNotFoundError, ())
    else:
        E.set(fs, path, b'')
    return File(path, mode)


def file_method(ip, o, name, args):
    E = ip.E
    fs = E.overlay['file system']
    if name == 'read' and o.mode == 'rb' and not args:
        return fs[o.path]
    if name == 'write' and o.mode == 'wb':
        E.set(fs, o.path, mkbytes(join(byte_segs(fs[o.path]), byte_segs(ip.res(args[0])))))
        return length(ip, args[0])
    if name == 'close':
        return None
    raise Unsupported(f'file method {name}')


def mbytes_method(ip, o, name, args, kwargs):
    E = ip.E
    if name == 'append':
        E.set(o.d, 'v', join(o.segs, (one_byte(ip, args[0]),)))
        return None
    if name == 'extend':
        E.set(o.d, 'v', join(o.segs, to_byte_segs(ip, args[0])))
        return None
    if name == 'insert':
        n = ropelen(o.segs)
        i = E.norm_index(args[0], n)
        left, right = E.split(o.segs, i)
        E.set(o.d, 'v', join(left, (one_byte(ip, args[1]),), right))
        return None
    if name == 'clear':
        E.set(o.d, 'v', ())
        return None
    if name == 'copy':
        return MBytes(o.segs)
    if name == 'reverse':
        if all(isinstance(s, Lit) for s in o.segs):
            E.set(o.d, 'v', (Lit(b''.join(s.b for s in o.segs)[::-1]),))
            return None
        h = getattr(E, 'reverse_hook', None)
        if h is not None:
            return h(o)
        raise Unsupported('reverse')
    if name == 'pop':
        n = ropelen(o.segs)
        i = check_index(ip, args[0] if args else -1, n)
        v = byte_item(ip, o.segs, i)
        delitem(ip, o, i)
        return v
    return NotImplemented


def bytes_method(ip, o, name, args, kwargs):
    E = ip.E
    if isinstance(o, (bytes, bytearray)) and all(concrete(a) for a in args) and not kwargs:
        if name == 'decode':
            try:
                return o.decode(*args)
            except UnicodeDecodeError as e:
                raise PyRaise(UnicodeDecodeError, ())
        if name in ('startswith', 'endswith', 'find', 'rfind', 'ljust', 'rjust', 'rstrip', 'lstrip', 'strip',
                    'hex', 'count', 'index', 'split', 'replace', 'upper', 'lower', 'isdigit'):
            r = getattr(o, name)(*args)
            return MList([El(x) for x in r]) if isinstance(r, list) else r
    segs = byte_segs(o)
    cls = MBytes if isinstance(o, (MBytes, bytearray)) else SBytes
    n = ropelen(segs)
    if name == 'startswith' or name == 'endswith':
        p = args[0]
        if isinstance(p, tuple):
            return disj([bytes_method(ip, o, name, [x], {}) for x in p])
        ps = byte_segs(p)
        m = ropelen(ps)
        if not E.le(m, n) and not E.decide(I(m) <= I(n)):
            return False
        piece = E.slice(segs, 0, m) if name == 'startswith' else E.slice(segs, sub(n, m), n)
        return ropes_cond(ip, piece, ps)
    if name in ('ljust', 'rjust'):
        w = args[0]
        fill = args[1] if len(args) > 1 else b' '
        if E.le(w, n):
            return mkbytes(segs, cls)
        if E.le(n, w) or E.decide(I(n) <= I(w)):
            pad = (Fi(fill[0], sub(w, n)),)
            return mkbytes(join(segs, pad) if name == 'ljust' else join(pad, segs), cls)
        return mkbytes(segs, cls)
    if name == 'rstrip':
        return mkbytes(rstrip(ip, segs, args[0] if args else None), cls)
    if name == 'decode':
        enc = (args[0] if args else kwargs.get('encoding', 'utf-8'))
        return decode(ip, segs, enc)
    if name in ('find', 'rfind') and len(args) == 3 and is_bytes(args[0]):
        return find_piece(ip, segs, byte_segs(args[0]), args[1], args[2])
    if name in ('find', 'index'):
        pat = args[0]
        start = args[1] if len(args) > 1 else 0
        if len(args) > 2:
            raise Unsupported('find with an end')
        if isinstance(pat, int):
            pat = bytes([pat])
        h = getattr(E, 'find_hook', None)
        r = h(segs, pat, start) if h is not None else None
        if r is not None:
            if name == 'index' and isinstance(r, int) and r == -1:
                raise PyRaise(ValueError, ())
            return r
        if not isinstance(pat, bytes):
            raise Unsupported('find of a symbolic pattern')
        r = find_bytes(ip, segs, pat, start)
        if name == 'index' and isinstance(r, int) and r == -1:
            raise PyRaise(ValueError, ())
        return r
    if name == 'join':
        items = list_segs(ip, args[0])
        if isinstance(o, bytes) and o == b'':
            return mkbytes(map_segs(ip, items, lambda x: byte_segs(ip.res(x))))
        if all(isinstance(s, El) for s in items):
            out = []
            for i, s in enumerate(items):
                if i:
                    out += list(segs)
                out += list(byte_segs(ip.res(s.v)))
            return mkbytes(out)
        raise Unsupported('join with a separator')
    if name == 'hex':
        return FStr([Opq('hex', ())])
    if name == 'copy':
        return MBytes(segs)
    raise Unsupported(f'bytes method {name}')


def rstrip(ip, segs, chars):
    E = ip.E
    if chars is None or not isinstance(chars, bytes) or len(chars) != 1:
        if all(isinstance(s, Lit) for s in segs):
            b = b''.join(s.b for s in segs)
            return (Lit(b.rstrip(chars)),)
        raise Unsupported('rstrip')
    c = chars[0]
    segs = list(join(segs))
    while segs:
        s = segs[-1]
        if isinstance(s, Lit):
            b = s.b.rstrip(chars)
            if b:
                segs[-1] = Lit(b)
                break
            segs.pop()
        elif isinstance(s, Fi):
            if isinstance(s.b, int) and s.b == c:
                segs.pop()
            else:
                raise Unsupported('rstrip of filler')
        elif isinstance(s, Al):
            segs[-1:] = s.a if E.decide(s.c) else s.b
        elif isinstance(s, FM) and E.eq(sub(s.hi, s.lo), 1):
            segs[-1:] = join(s.body.at(s.lo))
        elif isinstance(s, Sl):
            if E.eq(s.n, 0):
                segs.pop()
                continue
            if len(segs) == 1 and E.valid(z3.Implies(I(s.n) > 0, I(s.src.byte(
                    *[I(a) for a in s.args], I(add(s.off, s.n, -1)))) != c)):
                break
            last = I(byte_item(ip, [s], sub(s.n, 1))) if E.lt(0, s.n) else None
            if last is None:
                if not E.decide(I(s.n) > 0):
                    segs.pop()
                    continue
                last = I(s.src.byte(*[I(a) for a in s.args], I(add(s.off, s.n, -1))))
            if E.valid(last != c):
                break
            if isinstance(s.n, int) and s.n <= 16:
                if E.decide(last == c):
                    segs[-1] = Sl(s.src, s.args, s.off, s.n - 1)
                    continue
                break
            raise Unsupported('rstrip of unknown bytes')
        elif isinstance(s, (Pk, Pb)):
            a, b = E.split([s], seglen(s) - 1) if seglen(s) > 1 else ((), (s,))
            last = E.byte_terms(b)[0]
            if E.valid(I(last) != c):
                break
            if not E.decide(I(last) == c):
                break
            segs[-1:] = list(a)
        else:
            raise Unsupported(f'rstrip of {s!r}')
    return tuple(segs)


def decode(ip, segs, enc):
    enc = enc.lower().replace('_', '-') if isinstance(enc, str) else enc
    if enc in ('latin-1', 'latin1', 'iso-8859-1'):
        return mktext(segs)
    if enc in ('ascii', 'shift-jis', 'shiftjis', 'utf-8', 'cp1252', 'utf-16le', 'utf-16-le', 'utf-16be', 'utf-16-be') \
            or isinstance(enc, Opq):
        h = getattr(ip.E, 'decode_hook', None)
        if h is not None:
            r = h(segs, enc)
            if r is not None:
                return r
        if all(isinstance(s, Lit) for s in segs):
            try:
                return b''.join(s.b for s in segs).decode(enc)
            except UnicodeDecodeError:
                raise PyRaise(UnicodeDecodeError, ())
    raise Unsupported(f'decoding {enc}')


def find_piece(ip, segs, pat, start, end):
    """
    Some occurrence of a piece of a byte string between two offsets, or -1:
    both are explored, and which occurrence it is remains open
    """
    from .loops import ForAll
    E = ip.E
    start, end = ip.res(start), ip.res(end)
    n = ropelen(segs)
    if len(segs) != 1 or not isinstance(segs[0], Sl) or not E.le(0, start) or not E.le(end, n):
        raise Unsupported('search for a piece')
    s, m = segs[0], ropelen(pat)
    if not E.decide(E.bool('found').t):
        return -1
    p = E.int('position')
    E.assume(z3.And(p.t >= I(start), p.t + I(m) <= I(end)))
    if not E.sat(z3.BoolVal(True)):
        raise Infeasible
    if E.eq(m, 0):
        return p
    if len(pat) != 1 or not isinstance(pat[0], Sl):
        raise Unsupported('search for a piece')
    q = pat[0]
    ForAll(0, m, lambda j: q.src.byte(*map(I, q.args), I(add(q.off, j))) == s.src.byte(*map(I, s.args), I(add(add(s.off, p), j))),
           q.src.trigger(), lambda *args: sub(q.src.index(q.args, args), q.off)).assume(E)
    return p


def find_bytes(ip, segs, pat, start):
    """Offset of the first occurrence at or after start, or -1"""
    E = ip.E
    if len(pat) != 1:
        if all(isinstance(s, Lit) for s in segs) and isinstance(start, int):
            return b''.join(s.b for s in segs).find(pat, start)
        raise Unsupported('search for more than one byte')
    c = pat[0]
    n = ropelen(segs)
    start = E.norm_index(start, n)
    _, rest = E.split(segs, start)
    pos = start
    rest = list(rest)
    while rest:
        s = rest.pop(0)
        if isinstance(s, Lit) and isinstance(c, int):
            i = s.b.find(bytes([c]))
            if i >= 0:
                return add(pos, i)
            pos = add(pos, len(s.b))
        elif isinstance(s, Sl) and c in s.src.without:
            pos = add(pos, s.n)
        elif isinstance(s, (Pk, Pb)):
            for b in E.byte_terms([s]):
                if E.decide(I(b) == I(c)):
                    return pos
                pos = add(pos, 1)
        elif isinstance(s, Fi):
            if isinstance(s.b, int) and s.b != c:
                pos = add(pos, s.n)
            elif isinstance(s.b, int):
                if E.decide(I(s.n) > 0):
                    return pos
            else:
                raise Unsupported('search in filler')
        elif isinstance(s, Al):
            rest[:0] = s.a if E.decide(s.c) else s.b
        elif isinstance(s, Sl) and isinstance(s.n, int) and s.n <= 16:
            for b in E.byte_terms([s]):
                if E.decide(I(b) == I(c)):
                    return pos
                pos = add(pos, 1)
        elif isinstance(s, FM) and E.decide(I(s.lo) < I(s.hi)):
            rest[:0] = list(s.body.at(s.lo)) + [FM(s.body, add(s.lo, 1), s.hi)]
            E.budget = getattr(E, 'budget', 0) + 1
            if E.budget > 2000:
                raise Unsupported('search in a sequence')
        elif isinstance(s, FM):
            continue
        else:
            raise Unsupported(f'search in {s!r}')
    return -1


def list_method(ip, o, name, args, kwargs):
    E = ip.E
    if name == 'append':
        E.set(o.d, 'v', o.segs + (El(args[0]),))
        return None
    if name == 'extend':
        E.set(o.d, 'v', join(o.segs, list_segs(ip, args[0])))
        return None
    if name == 'index':
        if len(args) > 1:
            start = args[1]
            left, right = E.split(o.segs, E.norm_index(start, ropelen(o.segs)))
            i = list_index(ip, right, args[0])
            i = None if i is None else add(i, start)
        else:
            i = list_index(ip, o.segs, args[0])
        if i is None:
            raise PyRaise(ValueError, ())
        return i
    if name == 'insert':
        i = E.norm_index(args[0], ropelen(o.segs))
        left, right = E.split(o.segs, i)
        E.set(o.d, 'v', join(left, (El(args[1]),), right))
        return None
    if name == 'pop':
        n = ropelen(o.segs)
        if n == 0:
            raise PyRaise(IndexError, ())
        i = check_index(ip, args[0] if args else -1, n)
        s = E.at(o.segs, i)
        delitem(ip, o, i)
        return s.v if isinstance(s, El) else s.b
    if name == 'remove':
        i = list_index(ip, o.segs, args[0])
        if i is None:
            raise PyRaise(ValueError, ())
        delitem(ip, o, i)
        return None
    if name == 'copy':
        return MList(o.segs)
    if name == 'clear':
        E.set(o.d, 'v', ())
        return None
    if name == 'reverse' and all(isinstance(s, El) for s in o.segs):
        E.set(o.d, 'v', o.segs[::-1])
        return None
    if name == 'count' and all(isinstance(s, El) for s in o.segs):
        return add(*[mk(I(equal(ip, s.v, args[0]))) for s in o.segs])
    if name == 'sort' and all(isinstance(s, El) for s in o.segs):
        E.set(o.d, 'v', tuple(El(v) for v in sort_values(ip, [s.v for s in o.segs], kwargs)))
        return None
    if name == 'sort' and not kwargs and is_sorted(E, o.segs):
        return None
    raise Unsupported(f'list method {name}')


def is_sorted(E, segs):
    """Whether a list of integers is known to be in order"""
    parts = []
    for s in segs:
        if isinstance(s, El) and is_int(s.v):
            parts.append((True, lambda t, s=s: s.v))
        elif isinstance(s, FM) and len(s.body.segs) == 1 and isinstance(s.body.segs[0], El) and is_int(s.body.segs[0].v):
            t = E.uniq('g')
            parts.append((s, lambda t, s=s: s.body.at(t)[0].v))
        else:
            return False

    def inside(s, t):
        return True if s is True else z3.And(t >= I(s.lo), t < I(s.hi))
    for i, (s, x) in enumerate(parts):
        for j, (r, y) in enumerate(parts[:i + 1]):
            if i == j and s is True:
                continue
            a, b = z3.Int(E.uniq('g')), z3.Int(E.uniq('g'))
            hyp = z3.And(inside(r, a), inside(s, b), a < b if i == j else True)
            if not E.valid(z3.Implies(hyp, I(y(SInt(a))) <= I(x(SInt(b))))):
                return False
    return True


def sort_values(ip, vals, kwargs):
    key = kwargs.get('key')
    keys = [ip.call_value(key, [v], {}) if key is not None else v for v in vals]
    if not all(concrete(k) or isinstance(k, tuple) and all(concrete(x) for x in k) for k in keys):
        if not all(isinstance(k, (int, SInt)) for k in keys) or kwargs.get('reverse', False):
            raise Unsupported('sorting symbolic values')
        # insertion sort: an element goes behind those that are not greater
        order = []
        for i, k in enumerate(keys):
            at = len(order)
            while at and ip.E.decide(I(k) < I(keys[order[at - 1]])):
                at -= 1
            order.insert(at, i)
        return [vals[i] for i in order]
    order = sorted(range(len(vals)), key=lambda i: keys[i], reverse=bool(kwargs.get('reverse', False)))
    return [vals[i] for i in order]


def text_method(ip, o, name, args, kwargs):
    E = ip.E
    if isinstance(o, str) and name == 'join':
        items = list_segs(ip, args[0])
        if all(isinstance(s, El) and isinstance(s.v, str) for s in items):
            return o.join(s.v for s in items)
        if o == '' and all(isinstance(s, El) and is_text(s.v) for s in items):
            return mktext([x for s in items for x in text_segs(s.v)])
        h = getattr(E, 'text_join_hook', None)
        if h is not None:
            r = h(o, items)
            if r is not None:
                return r
        return FStr([Opq('joined', ())])
    if isinstance(o, str) and all(concrete(a) for a in args):
        r = None
        try:
            r = getattr(o, name)(*args, **kwargs)
        except (ValueError, UnicodeEncodeError) as e:
            raise PyRaise(type(e), ())
        return MList([El(x) for x in r]) if isinstance(r, list) else r
    if name == 'encode':
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        e = enc.lower().replace('_', '-') if isinstance(enc, str) else enc
        if isinstance(o, (SStr, str)) and e in ('latin-1', 'latin1', 'iso-8859-1'):
            return mkbytes(text_segs(o))
        h = getattr(E, 'encode_hook', None)
        if h is not None:
            r = h(o, e)
            if r is not None:
                return r
        if e == 'ascii' and isinstance(o, SStr):
            return mkbytes(o.segs)
        raise Unsupported(f'encoding {enc}')
    if isinstance(o, FStr):
        return FStr([Opq('text', ())])
    if name in ('startswith', 'endswith') and is_text(args[0]):
        return bytes_method(ip, SBytes(text_segs(o)), name, [SBytes(text_segs(args[0]))], {})
    h = getattr(E, 'text_hook', None)
    if h is not None:
        r = h(o, name, args, kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f'text method {name}')


def dict_method(ip, o, name, args, kwargs):
    E = ip.E
    d = o.d if isinstance(o, MDict) else o
    if isinstance(o, MDict) and (PAIRS in d or o.unordered):
        if name == 'items':
            return STuple(dict_pairs(ip, o))
        if name == 'get':
            r = dict_find(ip, o, args[0])
            return r[0] if r is not None else args[1] if len(args) > 1 else None
        if name == 'keys' and o.unordered:
            return o
        if name in ('keys', 'values'):
            return STuple(map_segs(ip, dict_pairs(ip, o), lambda p: (El(p[name == 'values']),)))
        raise Unsupported(f'dict method {name}')
    if name == 'get':
        k = args[0]
        if isinstance(k, SInt):
            try:
                return dict_sym(ip, d, k)
            except PyRaise:
                return args[1] if len(args) > 1 else None
        return d.get(dict_key(k), args[1] if len(args) > 1 else None)
    if name == 'items':
        return tuple((k, v) for k, v in d.items())
    if name == 'keys':
        return tuple(d)
    if name == 'values':
        return tuple(d.values())
    if isinstance(o, MDict):
        if name == 'setdefault':
            k = dict_key(args[0])
            if k not in d:
                E.set(d, k, args[1] if len(args) > 1 else None)
            return d[k]
        if name == 'pop':
            k = dict_key(args[0])
            if k in d:
                v = d[k]
                E.unset(d, k)
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError, (k,))
        if name == 'update':
            m = args[0]
            for k, v in (m.d if isinstance(m, MDict) else m).items():
                E.set(d, k, v)
            return None
        if name == 'copy':
            return MDict(dict(d))
    raise Unsupported(f'dict method {name}')


def set_method(ip, o, name, args, kwargs):
    E = ip.E
    if name == 'add':
        x = args[0]
        if not isinstance(x, int):
            raise Unsupported('adding a symbolic member to a set')
        E.set(o.d, x, True)
        return None
    if name == 'remove' and isinstance(args[0], int):
        if not o.d.get(args[0]):
            raise PyRaise(KeyError, (args[0],))
        E.set(o.d, args[0], False)
        return None
    if name == 'discard':
        if args[0] in o.d:
            E.set(o.d, args[0], False)
        return None
    if name == 'copy':
        return MSet(dict(o.d))
    if name == 'update':
        for s in list_segs(ip, args[0]):
            set_method(ip, o, 'add', [s.v], {})
        return None
    raise Unsupported(f'set method {name}')


def int_method(ip, o, name, args, kwargs):
    E = ip.E
    if name == 'to_bytes':
        n = args[0] if args else kwargs.get('length', 1)
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
        signed = bool(kwargs.get('signed', False))
        if isinstance(o, int) and isinstance(n, int):
            try:
                return int(o).to_bytes(n, order, signed=signed)
            except OverflowError:
                raise PyRaise(OverflowError, ())
        if isinstance(n, int):
            t = I(o)
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1))) if signed else (0, 1 << (8 * n))
            E.defer(z3.And(t >= lo, t < hi), f'value fits {n} bytes', OverflowError)
            return SBytes([Pk(mk(t), n, order == 'big', signed)])
    if name == 'bit_length':
        if isinstance(o, int):
            return o.bit_length()
        if E.le(0, o):
            for w in (8, 16, 35, 64):
                if E.lt(o, 1 << w):
                    return mk(z3.Sum([z3.If(I(o) >= (1 << i), z3.IntVal(1), z3.IntVal(0)) for i in range(w)]))
        raise Unsupported('bit_length')
    if name == 'from_bytes':
        return call_native(ip, int.from_bytes, args, kwargs)
    raise Unsupported(f'int method {name}')


# --------------------------------------------------------------- functions

def call_native(ip, fn, args, kwargs):
    E = ip.E
    if isinstance(fn, StructOp):
        if fn.name == 'pack':
            return pack(ip, fn.fmt, args)
        if fn.name == 'pack_into':
            return pack_into(ip, fn.fmt, args[0], args[1], args[2:])
        if fn.name == 'unpack':
            return unpack(ip, fn.fmt, args[0])
        if fn.name == 'unpack_from':
            return unpack_from(ip, fn.fmt, *args, **kwargs)
        if fn.name == 'size':
            return fn.fmt
        raise Unsupported(fn.name)
    h = NATIVE.get(fn) if _hashable(fn) else None
    if h is not None:
        return h(ip, args, kwargs)
    vals = list(args) + list(kwargs.values())
    if all(concrete(a) or isinstance(a, (type, tuple, list, types.FunctionType)) for a in vals) \
            and not any(isinstance(x, (SInt, SBool, SBytes, MBytes)) for a in vals if isinstance(a, tuple) for x in a):
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodType, types.MethodWrapperType)) or callable(fn):
            mod = getattr(fn, '__module__', None) or ''
            if mod in ('math', 'operator', 'builtins', '_operator', '_struct', 'itertools') \
                    or getattr(fn, '__self__', None) is not None and isinstance(fn.__self__, (str, bytes, int, type)):
                try:
                    return fn(*args, **kwargs)
                except Exception as e:
                    raise PyRaise(type(e), ())
    raise Unsupported(f'call of {fn!r}')


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def n_len(ip, a, k):
    return length(ip, a[0])


def n_range(ip, a, k):
    a = [ip.res(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    return SRange(start, stop, step)


def n_enumerate(ip, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    seq = sequence(ip, a[0])
    chunks = []
    off = start
    for n, get in seq.chunks:
        chunks.append((n, lambda j, get=get, off=off: (add(off, j), get(j))))
        off = add(off, n)
    return SeqVal(chunks)


def n_zip(ip, a, k):
    E = ip.E
    if len(a) == 1 and isinstance(a[0], Splat):
        raise Unsupported('zip of a starred sequence')
    seqs = [list(sequence(ip, x).chunks) for x in a]
    out = []
    while all(seqs) and seqs:
        counts = [s[0][0] for s in seqs]
        n = counts[0]
        for c in counts[1:]:
            if E.le(n, c):
                pass
            elif E.le(c, n):
                n = c
            else:
                n = n if E.decide(I(n) <= I(c)) else c
        gets = [s[0][1] for s in seqs]
        out.append((n, lambda j, gets=gets: tuple(g(j) for g in gets)))
        for s in seqs:
            c, g = s.pop(0)
            rest = sub(c, n)
            if not E.eq(rest, 0):
                s.insert(0, (rest, lambda j, g=g, n=n: g(add(n, j))))
    if k.get('strict') and any(seqs):
        raise PyRaise(ValueError, ())
    return SeqVal(out)


def n_zip_longest(ip, a, k):
    E = ip.E
    fill = k.get('fillvalue')
    seqs = [list(sequence(ip, x).chunks) for x in a]
    out = []
    while any(seqs):
        # drop empty chunks
        for s in seqs:
            while s and E.eq(s[0][0], 0):
                s.pop(0)
        if not any(seqs):
            break
        counts = [s[0][0] for s in seqs if s]
        n = counts[0]
        for c in counts[1:]:
            if E.le(n, c):
                pass
            elif E.le(c, n):
                n = c
            else:
                n = n if E.decide(I(n) <= I(c)) else c
        gets = [s[0][1] if s else (lambda j: fill) for s in seqs]
        out.append((n, lambda j, gets=gets: tuple(g(j) for g in gets)))
        for s in seqs:
            if s:
                c, g = s.pop(0)
                rest = sub(c, n)
                if not E.eq(rest, 0):
                    s.insert(0, (rest, lambda j, g=g, n=n: g(add(n, j))))
    return SeqVal(out)


def n_reversed(ip, a, k):
    if is_bytes(ip.res(a[0])):
        r = reversed_segs(byte_segs(ip.res(a[0])))
        if r is not None:
            return mkbytes(r)
    seq = sequence(ip, a[0])
    out = []
    for n, get in reversed(seq.chunks):
        out.append((n, lambda j, n=n, get=get: get(sub(sub(n, 1), j))))
    return SeqVal(out)


def n_sum(ip, a, k):
    E = ip.E
    total = a[1] if len(a) > 1 else 0
    for s in list_segs(ip, a[0]):
        if isinstance(s, El):
            total = binop(ip, ast.Add, total, s.v)
        elif isinstance(s, FM):
            b = s.body
            g = z3.Int(E.uniq('g'))

            def one():
                E.gvars.append(g)
                E.assume(z3.And(g >= I(s.lo), g < I(s.hi)))
                acc = 0
                for x in b.at(SInt(g)):
                    if not isinstance(x, El):
                        raise Unsupported('sum')
                    acc = binop(ip, ast.Add, acc, x.v)
                raise Flow('return', acc)
            outs = E.explore(one, serial())
            d = None
            for dec, (kind, v), _ in reversed(outs):
                if kind == 'raise':
                    raise v
                d = v if d is None else mk(z3.If(z3.And(dec), I(v), I(d)))
            if d is None:
                continue
            E.gvars.append(g)
            P = E.prefix_sum(g, d, s.hi)
            E.gvars.pop()
            f = lambda t: mk(z3.substitute(I(P), (g, I(t))))
            total = add(total, sub(f(s.hi), f(s.lo)))
        elif isinstance(s, Fi):
            total = add(total, mul(s.b, s.n))
        else:
            raise Unsupported('sum')
    return total


def minmax(ip, a, k, ismin):
    E = ip.E
    if len(a) == 1:
        segs = list_segs(ip, a[0])
        if not all(isinstance(s, El) for s in segs):
            raise Unsupported('min/max of a symbolic sequence')
        vals = [ip.res(s.v) for s in segs]
        if not vals:
            if 'default' in k:
                return k['default']
            raise PyRaise(ValueError, ())
    else:
        vals = [ip.res(x) for x in a]
    if k.get('key') is not None:
        raise Unsupported('min/max with a key')
    best = vals[0]
    for v in vals[1:]:
        if isinstance(best, int) and isinstance(v, int):
            best = min(best, v) if ismin else max(best, v)
        elif E.le(best, v):
            best = best if ismin else v
        elif E.le(v, best):
            best = v if ismin else best
        else:
            best = mk(z3.If((I(v) < I(best)) if ismin else (I(v) > I(best)), I(v), I(best)))
    return best


def n_all(ip, a, k, isall=True):
    E = ip.E
    acc = []
    for s in list_segs(ip, a[0]):
        if isinstance(s, El):
            t = ip.truth_term(s.v)
            if isinstance(t, bool):
                if t != isall:
                    return not isall
            else:
                acc.append(t)
        elif isinstance(s, FM):
            from . import loops
            b = s.body
            n = sub(s.hi, s.lo)
            g = z3.Int(E.uniq('g'))

            def one():
                E.gvars.append(g)
                E.assume(z3.And(g >= 0, g < I(n)))
                v = b.at(add(s.lo, SInt(g)))[0].v
                t = ip.truth_term(v)
                raise Flow('return', t if isinstance(t, bool) else SBool(t))
            outs = E.explore(one, serial())
            stop = []
            for dec, (kind, v), _ in outs:
                if kind == 'raise':
                    raise v
                c = B(v)
                stop.append(z3.And(dec + [z3.Not(c) if isall else c]))
            c = z3.simplify(z3.Or(stop)) if stop else z3.BoolVal(False)
            if z3.is_false(c):
                continue
            if loops.first_index(ip, n, g, c) is not None:
                return not isall
        elif isinstance(s, Fi):
            t = ip.truth_term(s.b)
            if isinstance(t, bool) and t == isall:
                continue
            raise Unsupported('all/any of filler')
        else:
            raise Unsupported('all/any')
    if not acc:
        return isall
    return mkb(z3.And(acc) if isall else z3.Or(acc))


def n_bytes(ip, a, k, cls=SBytes):
    E = ip.E
    if not a:
        return b'' if cls is SBytes else MBytes()
    v = ip.res(a[0])
    if is_text(v):
        v2 = text_method(ip, v, 'encode', a[1:], k)
        return n_bytes(ip, [v2], {}, cls)
    if isinstance(v, (bool, SBool)):
        v = mk(I(v))
    if is_int(v):
        if isinstance(v, int):
            if v < 0:
                raise PyRaise(ValueError, ())
            segs = (Lit(bytes(v)),) if v <= 65536 else (Fi(0, v),)
        else:
            if not E.le(0, v) and not E.decide(v.t >= 0):
                raise PyRaise(ValueError, ())
            segs = (Fi(0, v),)
        return mkbytes(segs, cls)
    return mkbytes(to_byte_segs(ip, v), cls)


def n_list(ip, a, k):
    return MList(list_segs(ip, a[0])) if a else MList()


def n_tuple(ip, a, k):
    if not a:
        return ()
    segs = list_segs(ip, a[0])
    if all(isinstance(s, El) for s in segs):
        return tuple(s.v for s in segs)
    return STuple(segs)


def n_set(ip, a, k):
    if not a:
        return make_set(ip, [])
    v = ip.res(a[0])
    if isinstance(v, MSet):
        out = MSet(dict(v.d))
        out.d.isset = True
        return out
    segs = list_segs(ip, v)
    if all(isinstance(s, El) for s in segs):
        return make_set(ip, [s.v for s in segs])
    raise Unsupported('set of a symbolic sequence')


def n_dict(ip, a, k):
    d = MDict()
    if a:
        v = ip.res(a[0])
        if isinstance(v, (MDict, dict)):
            d.d.update(v.d if isinstance(v, MDict) else v)
        else:
            for s in list_segs(ip, v):
                x, y = unpack_n(ip, s.v, 2)
                d.d[dict_key(x)] = y
    d.d.update(k)
    return d


def n_int(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, Frac):
        # for 0 <= a < 2^53 and b > 0 the rounded quotient reaches the next
        # integer only if the exact one does
        if ip.E.valid(z3.And(I(v.a) >= 0, I(v.a) < 1 << 53, I(v.b) > 0, I(v.b) < 1 << 53)):
            return binop(ip, ast.FloorDiv, v.a, v.b)
        raise Unsupported('truncated quotient')
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (SInt, SBool)):
        return mk(I(v))
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError:
            raise PyRaise(ValueError, ())
    if isinstance(v, float):
        return int(v)
    raise Unsupported('int()')


def n_bool(ip, a, k):
    t = ip.truth_term(a[0]) if a else False
    return t if isinstance(t, bool) else SBool(t)


def n_isinstance(ip, a, k):
    v, c = ip.res(a[0]), a[1]
    cs = c if isinstance(c, tuple) else (c,)
    t = pytype(v)
    return any(issubclass(t, x) for x in cs)


def pytype(v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SEnum):
        return v.cls
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, MBytes):
        return bytearray
    if isinstance(v, MList):
        return list
    if isinstance(v, STuple):
        return tuple
    if isinstance(v, (SStr, FStr)):
        return str
    if isinstance(v, MDict):
        return dict
    if isinstance(v, MSet):
        return set
    if isinstance(v, Opq):
        raise Unsupported('type of an opaque value')
    return type(v)


def n_divmod(ip, a, k):
    return (binop(ip, ast.FloorDiv, a[0], a[1]), binop(ip, ast.Mod, a[0], a[1]))


def n_abs(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, int):
        return abs(v)
    return mk(z3.If(I(v) >= 0, I(v), -I(v)))


def n_from_bytes(ip, a, k):
    data = ip.res(a[0])
    order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
    signed = bool(k.get('signed', False))
    segs = byte_segs(data)
    n = ropelen(segs)
    if not isinstance(n, int):
        raise Unsupported('int.from_bytes of unknown length')
    if n == 0:
        return 0
    return ip.E.read_uint(segs, n, order == 'big', signed)


def n_str(ip, a, k):
    v = ip.res(a[0]) if a else ''
    if isinstance(v, (str, int, bytes, float, type(None))) and not isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, SStr):
        return v
    return FStr([v])


def n_text(ip, a, k):
    v = ip.res(a[0])
    if concrete(v):
        return {True: hex}.get(isinstance(v, int), repr)(v)
    return FStr([Opq('text', ())])


def n_repr(ip, a, k):
    v = ip.res(a[0])
    return repr(v) if concrete(v) else FStr([Opq('text', ())])


def n_hasattr(ip, a, k):
    try:
        ip.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def n_getattr(ip, a, k):
    try:
        return ip.getattr(a[0], a[1])
    except PyRaise as e:
        if issubclass(e.cls, AttributeError) and len(a) > 2:
            return a[2]
        raise


def n_sorted(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, MDict) and not k:
        pairs = dict_pairs(ip, v, True)
        if len(pairs) == 1 and isinstance(pairs[0], FM):
            s = pairs[0]
            E = ip.E
            g = z3.Int(E.uniq('g'))
            x, y = s.body.at(SInt(g)), s.body.at(add(SInt(g), 1))
            if len(x) == 1 and isinstance(x[0], El):
                E.prove(z3.Implies(z3.And(g >= I(s.lo), g + 1 < I(s.hi)), I(x[0].v[0]) < I(y[0].v[0])),
                        'the dictionary is given in the order of its keys')
                return MList(map_segs(ip, pairs, lambda p: (El(p[0]),)))
    segs = list_segs(ip, a[0])
    if not all(isinstance(s, El) for s in segs):
        raise Unsupported('sorted of a symbolic sequence')
    return MList([El(v) for v in sort_values(ip, [s.v for s in segs], k)])


def n_chr(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, int):
        return chr(v)
    h = getattr(ip.E, 'chr_hook', None)
    if h is not None:
        return h(v)
    if ip.E.le(0, v) and ip.E.le(v, 255):
        return SStr([Pk(v, 1)])
    raise Unsupported('chr')


def n_ord(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, str):
        return ord(v)
    if isinstance(v, SStr):
        return ip.E.byte_terms(v.segs)[0]
    raise Unsupported('ord')


def n_type(ip, a, k):
    return pytype(ip.res(a[0]))


def n_map(ip, a, k):
    if len(a) != 2:
        raise Unsupported('map of several sequences')
    seq = sequence(ip, a[1])
    return SeqVal([(n, lambda j, get=get: ip.call_value(a[0], [get(j)], {})) for n, get in seq.chunks])


def n_id(ip, a, k):
    v = ip.res(a[0])
    if isinstance(v, Obj) and not v.d.frozen:
        return 1 << 60 | id(v)
    raise Unsupported('id')


def n_ceil(ip, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return math.ceil(v)
    raise Unsupported('ceil')


def n_issubclass(ip, a, k):
    return issubclass(*a)


def n_print(ip, a, k):
    return None


def n_chain_from_iterable(ip, a, k):
    return MList(map_segs(ip, list_segs(ip, a[0]), lambda x: list_segs(ip, x)))


NATIVE = {
    len: n_len, range: n_range, enumerate: n_enumerate, zip: n_zip, reversed: n_reversed,
    sum: n_sum, all: n_all, isinstance: n_isinstance, divmod: n_divmod, abs: n_abs,
    int.from_bytes: n_from_bytes, repr: n_repr, hex: n_text, hasattr: n_hasattr, getattr: n_getattr,
    sorted: n_sorted, chr: n_chr, ord: n_ord, id: n_id, math.ceil: n_ceil, issubclass: n_issubclass,
    print: n_print, open: n_open,
    any: lambda ip, a, k: n_all(ip, a, k, False),
    min: lambda ip, a, k: minmax(ip, a, k, True),
    max: lambda ip, a, k: minmax(ip, a, k, False),
    struct.pack: lambda ip, a, k: pack(ip, a[0], a[1:]),
    struct.pack_into: lambda ip, a, k: pack_into(ip, a[0], a[1], a[2], a[3:]),
    struct.unpack: lambda ip, a, k: unpack(ip, a[0], a[1]),
    struct.unpack_from: lambda ip, a, k: unpack_from(ip, a[0], *a[1:], **{('off' if x == 'offset' else x): y for x, y in k.items()}),
    struct.calcsize: lambda ip, a, k: fmt_size(parse_fmt(a[0])[1]),
    struct.iter_unpack: lambda ip, a, k: n_iter_unpack(ip, a, k),
    setattr: lambda ip, a, k: ip.setattr(a[0], a[1], a[2]),
    bytes.join: lambda ip, a, k: method(ip, a[0], 'join', a[1:], k),
    itertools.chain.from_iterable: n_chain_from_iterable,
    itertools.chain: lambda ip, a, k: MList([s for x in a for s in list_segs(ip, x)]),
}


def n_iter_unpack(ip, a, k):
    E = ip.E
    fmt = a[0]
    segs = byte_segs(ip.res(a[1]))
    size = fmt_size(parse_fmt(fmt)[1])
    n = divmod_const(E, ropelen(segs), size, True)
    r = divmod_const(E, ropelen(segs), size, False)
    if not E.eq(r, 0) and not E.decide(I(r) == 0):
        raise PyRaise(struct.error, ())
    return SeqVal([(n, lambda j: unpack_values(ip, fmt, E.slice(segs, mul(j, size), add(mul(j, size), size))))])


TYPES = {
    bytes: n_bytes, bytearray: lambda ip, a, k: n_bytes(ip, a, k, MBytes), list: n_list, tuple: n_tuple,
    set: n_set, dict: n_dict, int: n_int, bool: n_bool, str: n_str, type: n_type, range: n_range,
    enumerate: n_enumerate, zip: n_zip, reversed: n_reversed, map: n_map,
    itertools.zip_longest: n_zip_longest, itertools.chain: NATIVE[itertools.chain],
    memoryview: lambda ip, a, k: a[0],
}


def construct_native(ip, cls, args, kwargs):
    E = ip.E
    if cls in TYPES:
        return TYPES[cls](ip, args, kwargs)
    if issubclass(cls, BaseException):
        return PyRaise(cls, ())
    if issubclass(cls, enum.Enum):
        v = ip.res(args[0])
        if isinstance(v, (SInt, SBool)):
            if issubclass(cls, enum.IntEnum):
                if not E.decide(z3.Or([I(v) == int(m) for m in cls])):
                    raise PyRaise(ValueError, ())
                return senum(cls, I(v))
            for m in cls:
                if isinstance(m.value, int) and E.decide(I(v) == int(m.value)):
                    return m
            raise PyRaise(ValueError, ())
        try:
            return cls(v)
        except ValueError:
            raise PyRaise(ValueError, ())
    if issubclass(cls, tuple) and hasattr(cls, '_fields'):
        if len(args) == 1 and isinstance(args[0], Splat):
            args = [s.v for s in expand(ip, args[0].segs, len(cls._fields))]
        try:
            return cls(*args, **kwargs)
        except TypeError:
            raise PyRaise(TypeError, ())
    if cls is object:
        return Obj(object)
    if cls is struct.Struct:
        return struct.Struct(args[0])
    raise Unsupported(f'construction of {cls!r}')
