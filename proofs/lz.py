"""Invariants of the loops of LZ10 compression and decompression."""
import z3

from vf.terms import *
from vf.loops import Cut, ForAll
from vf.engine import Failed


class Chain:
    """
    The tokens of a stream: block b has a flag byte and eight tokens; before
    token i of block b, rho(b, i) bytes of the stream and gamma(b, i) bytes of
    the output are done; kappa(b, i) is its flag. The stream is T, the output
    D, of length N. There are `blocks` blocks.
    """
    ordered = False         # rho is monotone
    exact = False           # no match goes beyond the end

    def __init__(self, E, D, T, N, blocks, plus, backwards=False):
        self.E, self.D, self.T, self.N, self.blocks, self.plus = E, D, T, N, blocks, plus
        n = I(N)
        self.backwards = backwards
        self.g = E.fun('gamma', 2, gen=lambda b, i: [self.g(b, i) >= 0, self.g(b, i) <= n])
        self.r = E.fun('rho', 2)
        self.k = E.fun('kappa', 2, 0, 1)

    def byte(self, x):
        """Byte x of the output"""
        return self.D.byte(simp(I(self.N) - 1 - I(x))) if self.backwards else self.D.byte(I(x))

    def about(self, f):
        """Trigger of facts about the output: f of the index"""
        return self.D.byte.name(), (lambda x: f(mk(I(self.N) - 1 - x))) if self.backwards else (lambda x: f(mk(x)))

    def gamma(self, b, i):
        return SInt(self.g(I(b), I(i)))

    def rho(self, b, i):
        return SInt(self.r(I(b), I(i)))

    def kappa(self, b, i):
        return SInt(self.k(I(b), I(i)))

    def flags(self, b, i=8):
        """The first i flags, as they are in the flag byte"""
        out = 0
        for j in range(i):
            out = add(out, mul(self.kappa(b, j), 1 << (7 - j)))
        return out

    def token(self, b, i):
        """Length and distance of a match"""
        r = self.rho(b, i)
        x, y = self.T.byte(I(r)), self.T.byte(I(r) + 1)
        return x / 16 + 3, x % 16 * 256 + y + self.plus

    def meaning(self, b, i):
        """What the format says about one token, as a list of facts"""
        g, r, k = I(self.gamma(b, i)), I(self.rho(b, i)), I(self.kappa(b, i))
        g2, r2 = I(self.gamma(b, i + 1)), I(self.rho(b, i + 1))
        n = I(self.N)
        length, dist = self.token(b, i)
        match = z3.And(r2 == r + 2, dist <= g, g2 == (g + length if self.exact else z3.If(g + length > n, n, g + length)))
        literal = z3.And(r2 == r + 1, g2 == g + 1, self.byte(g) == self.T.byte(r))
        return [z3.Implies(g >= n, g2 == g), z3.Implies(z3.And(g < n, k == 1), match),
                z3.Implies(z3.And(g < n, k == 0), literal)]

    def copied(self, b, i):
        """The output of a match"""
        g, k = I(self.gamma(b, i)), I(self.kappa(b, i))
        length, dist = self.token(b, i)
        n = I(self.N)
        return ForAll(0, length, lambda j: z3.Implies(z3.And(g < n, k == 1, g + I(j) < n),
                                                      self.byte(g + I(j)) == self.byte(g + I(j) - dist)),
                      *self.about(lambda x: sub(x, mk(g))))

    def block(self, b):
        """What holds for one block and its position"""
        g, n = I(self.gamma(b, 0)), I(self.N)
        r = I(self.rho(b, 0))
        order = [I(self.rho(b, i)) <= I(self.rho(b, i + 1)) for i in range(8)] if self.ordered else []
        return order + [g < n, self.T.byte(r - 1) == I(self.flags(b)), r >= 1,
                I(self.gamma(add(b, 1), 0)) == I(self.gamma(b, 8)), I(self.rho(add(b, 1), 0)) == I(self.rho(b, 8)) + 1]

    def within(self, b, facts):
        return z3.Implies(z3.And(I(b) >= 0, I(b) < I(self.blocks)), z3.And(facts))

    def use(self, b, i=None):
        """Instances of the facts about all blocks"""
        if i is None:
            self.E.assume(self.within(b, self.block(b)))
            self.E.assume(z3.Implies(I(b) == I(self.blocks), I(self.gamma(b, 0)) == I(self.N)))
        else:
            self.E.assume(self.within(b, self.meaning(b, i)))

    def monotone(self):
        """
        gamma and rho grow from token to token and from block to block; so, by
        induction, the order of two positions is that of their values
        """
        n = I(self.blocks)

        def place(b, i):
            return z3.Or(z3.And(b >= 0, b < n, i >= 0, i <= 8), z3.And(b == n, i == 0))

        def pair(p, q):
            out = []
            for (b, i), (b2, i2), x, y in ((p.children(), q.children(), p, q), (q.children(), p.children(), q, p)):
                le = z3.Or(b < b2, z3.And(b == b2, i <= i2))
                out.append(z3.Implies(z3.And(place(b, i), place(b2, i2), le), x <= y))
            return out
        for f in (self.g, self.r):
            self.E.fns[f.name()].pair = pair

    def define(self, facts):
        """Values of the chain nothing has been assumed about"""
        for x in facts:
            self.E.assume(x)
        if not self.E.sat(z3.BoolVal(True)):
            self.E.record('definition', 'failed', 0, 'contradiction')
            raise Failed('definition')

    def start(self):
        self.E.assume(z3.And(I(self.gamma(0, 0)) == 0, I(self.rho(0, 0)) == 1))


# -------------------------------------------------------- decompression

class Blocks(Cut):
    def __init__(self, box):
        self.box = box

    def first(self, S):
        return 0

    def ghost(self, S, i):
        c = self.box['chain']
        b = S.E.int('b')
        c.use(b)
        self.box['b'] = b
        return b

    def next(self, S, b, i):
        return add(b, 1)

    def out(self, c, g):
        return MBytes((Sl(c.D, (), 0, g), Fi(0, sub(c.N, g))))

    def state(self, S, b, i):
        c = self.box['chain']
        g = c.gamma(b, 0)
        return {'inPos': add(3, c.rho(b, 0)), 'outPos': g, 'dataLen': sub(c.N, g), 'out': self.out(c, g)}, \
            [z3.And(I(b) >= 0, I(b) <= I(c.blocks)), I(c.rho(b, 0)) >= 1]

    def measure(self, S, b):
        return S.get('dataLen')


class Tokens(Blocks):
    unroll = True
    measure = None
    flags = True

    def first(self, S):
        return self.box['b']

    def ghost(self, S, i):
        c, b = self.box['chain'], self.box['b']
        if i < 8:
            c.use(b, i)
            self.box['i'] = i
        return b

    def next(self, S, b, i):
        return b

    def state(self, S, b, i):
        c = self.box['chain']
        g = c.gamma(b, i)
        vals = {'inPos': add(4, c.rho(b, i)), 'outPos': g, 'dataLen': sub(c.N, g), 'out': self.out(c, g)}
        if self.flags:
            vals['d'] = mul(c.flags(b), 1 << i)
        return vals, [I(g) >= I(c.gamma(b, 0)) + i, I(g) < I(c.N), I(c.rho(b, i)) >= 1]


class Literals(Tokens):
    flags = False


class Copy(Blocks):
    measure = None

    def first(self, S):
        return self.box['b'], self.box['i']

    def ghost(self, S, j):
        b, i = g = self.first(S)
        c = self.box['chain']
        S.E.assume(c.within(b, [c.copied(b, i).instance(j)]))
        return g

    def next(self, S, g, j):
        return g

    def state(self, S, g, j):
        c = self.box['chain']
        b, i = g
        done = add(c.gamma(b, i), j)
        length, dist = c.token(b, i)
        return {'outPos': done, 'windowOffset': sub(done, mk(dist)), 'dataLen': sub(c.N, done), 'out': self.out(c, done)}, \
            [I(done) < I(c.N)]


def decompression(ip, box):
    f = 'ndspy.lz10.decompress'
    ip.cuts.update({(f, 0): Blocks(box), (f, 1): Tokens(box), (f, 2): Copy(box), (f, 3): Literals(box)})


# ---------------------------------------------------------- compression
#
# The chain describes what has been written: rho, gamma, kappa and T are
# defined step by step while the tokens are written. A definition is made
# (Chain.define) only for values about which nothing but their range has
# been assumed before, and the range is proved first.

class Search(Cut):
    """compressionSearch: what was found so far is a match"""
    def __init__(self, box):
        self.box = box

    def first(self, S):
        return tuple(S.get(x) for x in ('lower', 'upper', 'recordMatchPos', 'recordMatchLen'))

    def ghost(self, S, i):
        return tuple(S.E.int(x) for x in ('lower', 'upper', 'recordMatchPos', 'recordMatchLen'))

    def next(self, S, g, i):
        return self.first(S)

    def state(self, S, g, i):
        c = self.box['chain']
        lo, hi, at, size = map(I, g)
        pos = I(S.get('pos'))
        top = I(sub(c.N, mk(pos)))
        most = S.get('maxMatchLen')
        same = ForAll(0, mk(size), lambda j: c.byte(pos + I(j)) == c.byte(at + I(j)), *c.about(lambda x: sub(x, mk(pos))))
        return dict(zip(('lower', 'upper', 'recordMatchPos', 'recordMatchLen'), g)), [
            z3.And(lo >= 0, hi <= top, hi <= most, lo <= hi + 1), z3.And(size >= 0, size <= top, size <= most),
            z3.Implies(size > 0, z3.And(at >= 0, at >= pos - S.get('maxMatchDiff'), at + size <= pos)), same]

    def measure(self, S, g):
        return add(sub(S.get('upper'), S.get('lower')), 1)


def entries(box):
    """ignoreDict: every entry is a position between two tokens, or (0, 0)"""
    def entry(E, key):
        c = box['chain']
        if not c.exact:
            # whole streams: what may be ignored does not matter
            return (E.int('x'), E.int('y')), []
        if E.decide(E.bool('nothing').t):
            return (0, 0), []
        b, i = E.int('endBlock'), E.int('endToken')
        box['end'] = b, i
        return (c.gamma(b, i), c.rho(b, i)), [z3.And(b.t >= 0, b.t < I(c.blocks), i.t >= 1, i.t <= 8)]

    def stored(E, key, value):
        # checked at the end of the iteration, when the position is defined
        box['pending'].append(value)
    return entry, stored


class Written(Cut):
    """The loop over the blocks of compress"""
    def __init__(self, box):
        self.box = box

    def bookkeeping(self, S, best):
        return {'bestSavingsSoFar': best, 'ignorableDataAmount': S.E.int('x'), 'ignorableCompressedAmount': S.E.int('y'),
                'ignoreDict': Weak(*entries(self.box), known=(best,))}

    def assume(self, S, g, i):
        super().assume(S, g, i)
        self.box['pending'] = []
        for name, v in self.bookkeeping(S, S.E.int('best')).items():
            S.put(name, v)

    def check(self, S, g, i, when):
        super().check(S, g, i, when)
        E = S.E
        best, d = S.get('bestSavingsSoFar'), S.get('ignoreDict')
        if isinstance(d, MDict):
            E.prove(all(v == (0, 0) for v in d.d.values()), f'invariant {when}: ignoreDict')
        known = list(d.d) if isinstance(d, MDict) else d.d['known']
        E.prove(z3.Or([I(best) == I(k) for k in known]), f'invariant {when}: the best savings are recorded')

    def first(self, S):
        return 0

    def ghost(self, S, i):
        c = self.box['chain']
        b = self.box['b'] = S.E.int('b')
        return b

    def next(self, S, b, i):
        # the flag byte, and where the next block begins
        c, E = self.box['chain'], S.E
        out = S.get('result').segs
        at = sub(c.rho(b, 0), 1)
        flag = E.byte_terms(E.slice(out, at, add(at, 1)))
        E.prove(I(flag[0]) == I(c.flags(b)), 'flag byte')
        c.define([c.T.byte(I(at)) == I(flag[0]), I(c.gamma(add(b, 1), 0)) == I(c.gamma(b, 8)),
                  I(c.rho(add(b, 1), 0)) == I(c.rho(b, 8)) + 1])
        for x in c.block(b):
            E.prove(x, 'block')
        return add(b, 1)

    def state(self, S, b, i):
        c = self.box['chain']
        g = c.gamma(b, 0)
        return {'current': g, 'result': MBytes((Sl(c.T, (), 0, sub(c.rho(b, 0), 1)),))}, \
            [I(b) >= 0, I(c.rho(b, 0)) >= 1, self.before(b)]

    def exit(self, S, b):
        # the blocks written are all there is
        c = self.box['chain']
        c.blocks = b
        c.use(0)
        c.use(b)
        if c.exact:
            c.monotone()
        self.box['end'] = b, 0

    def before(self, b):
        """Earlier blocks end before this one"""
        c = self.box['chain']
        return ForAll(0, b, lambda j: I(c.rho(j, 8)) < I(c.rho(b, 0)), 'rho', lambda x, y: mk(x))

    def measure(self, S, b):
        c = self.box['chain']
        return sub(c.N, S.get('current'))


class WrittenTokens(Written):
    unroll = True
    measure = None

    def exit(self, S, b):
        pass

    def first(self, S):
        return self.box['b']

    def ghost(self, S, i):
        return self.box['b']

    def next(self, S, b, i):
        c, E = self.box['chain'], S.E
        out = S.get('result').segs
        r, g = c.rho(b, i), c.gamma(b, i)
        size = sub(ropelen(out), r)
        size = E.concretize(size, 0, 3)
        new = E.byte_terms(E.split(out, r)[1])
        current = S.get('current')
        E.prove(z3.And(I(current) >= 0, I(current) <= I(c.N)), 'position within the data')
        flag = sub(S.get('blockFlags'), c.flags(b, i))
        flag = 1 if E.eq(flag, 1 << (7 - i)) else 0
        c.define([c.T.byte(I(add(r, j))) == I(x) for j, x in enumerate(new)] + [
            I(c.gamma(b, i + 1)) == I(current), I(c.rho(b, i + 1)) == I(add(r, size)), I(c.kappa(b, i)) == flag])
        for x in c.meaning(b, i):
            E.prove(x, f'token {i}')
        c.copied(b, i).prove(E, f'data of token {i}')
        for x, y in self.box['pending']:
            E.prove(z3.And(I(x) == I(c.gamma(b, i + 1)), I(y) == I(c.rho(b, i + 1))), 'entry of ignoreDict')
        return b

    def state(self, S, b, i):
        c = self.box['chain']
        r0, g = c.rho(b, 0), c.gamma(b, i)
        facts = [I(g) >= I(c.gamma(b, 0)), I(c.rho(b, i)) >= I(r0), I(c.gamma(b, 0)) < I(c.N)]
        if i > 0:
            facts.append(I(g) > I(c.gamma(b, 0)))
        facts += [I(c.rho(b, j)) <= I(c.rho(b, j + 1)) for j in range(i)]
        return {'current': g, 'blockFlags': c.flags(b, i),
                'result': MBytes((Sl(c.T, (), 0, sub(r0, 1)), Lit(b'\0'), Sl(c.T, (), r0, sub(c.rho(b, i), r0))))}, facts


class Final(Cut):
    def __init__(self, box):
        self.box = box

    def first(self, S):
        return S.get('finalSavings')

    def ghost(self, S, i):
        return S.E.int('savings')

    def next(self, S, g, i):
        return S.get('finalSavings')

    def state(self, S, g, i):
        return {'finalSavings': g}, [I(g) <= I(S.get('bestSavingsSoFar'))]

    def measure(self, S, g):
        return sub(S.get('bestSavingsSoFar'), S.get('finalSavings'))


def compression(ip, box):
    f = 'ndspy._lzCommon.compress'
    ip.cuts.update({(f, 0): Written(box), (f, 1): WrittenTokens(box), (f, 2): Final(box),
                    (f + '.compressionSearch', 0): Search(box)})


# -------------------------------------------------- code decompression

class Backwards(Cut):
    """The loop over the tokens; the output is filled from its end"""
    def __init__(self, box):
        self.box = box

    def first(self, S):
        return 0, 0

    def ghost(self, S, k):
        c, E = self.box['chain'], S.E
        b, i = E.int('b'), E.concretize(E.int('token', 0, 7), 0, 7)
        c.use(b)
        c.use(b, i)
        self.box['at'] = b, i
        return b, i

    def next(self, S, g, k):
        b, i = g
        return (b, i + 1) if i < 7 else (add(b, 1), 0)

    def out(self, S, done):
        c = self.box['chain']
        return MBytes((Fi(0, sub(S.get('decompLen'), done)), Sl(c.D, (), sub(c.N, done), done)))

    def state(self, S, g, k):
        c = self.box['chain']
        b, i = g
        done = c.gamma(b, i)
        vals = {'currentOutSize': done, 'readBytes': c.rho(b, i) if i else sub(c.rho(b, 0), 1),
                'mask': 0x80 >> (i - 1) if i else 1, 'decompData': self.out(S, done)}
        if i:
            vals['flags'] = c.flags(b)
        return vals, [z3.And(I(b) >= 0, I(b) <= I(c.blocks), z3.Implies(I(b) == I(c.blocks), i == 0)),
                      I(done) <= I(S.get('decompLen'))]

    def measure(self, S, g):
        return sub(S.get('decompLen'), S.get('currentOutSize'))


class BackwardsCopy(Backwards):
    measure = None

    def first(self, S):
        return self.box['at']

    def ghost(self, S, j):
        c = self.box['chain']
        b, i = self.box['at']
        S.E.assume(c.within(b, [c.copied(b, i).instance(j)]))
        return b, i

    def next(self, S, g, j):
        return g

    def state(self, S, g, j):
        c = self.box['chain']
        b, i = g
        done = add(c.gamma(b, i), j)
        length, dist = c.token(b, i)
        return {'currentOutSize': done, 'bufIdx': sub(done, mk(dist)), 'decompData': self.out(S, done)}, \
            [I(c.gamma(b, i)) + length <= I(S.get('decompLen'))]


def code_decompression(ip, box):
    f = 'ndspy.codeCompression.decompress'
    ip.cuts.update({(f, 1): Backwards(box), (f, 2): BackwardsCopy(box)})
