"""C11: BMG message files."""
import struct

import z3

from vf.terms import *
from vf.interp import prove_equal
from vf.loops import Cut
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import bmg

M16, M32 = 0xFFFF, 0xFFFFFFFF


class Box:
    pass


def build(se, enc, flow, script, odd):
    def build(E):
        w = 2 if enc == 'utf-16' else 1
        one = 1 if w == 1 else 2
        X = E.X = Box()
        X.se, X.w = se, w
        X.n = E.int('n', 0, M16)
        null = X.null = E.fun('null', 1, boolean=True)
        X.np = E.fun('parts', 1, 0, gen=lambda k: [z3.Implies(null(k), X.np(k) == 0)])
        esc = X.esc = E.fun('esc', 2, boolean=True)
        E.fns['esc'].pair = apart
        units = X.units = E.fun('units', 2, 1)

        def chars(k, j, i):
            """No unit of a text is that of character 0 or 26"""
            b = X.text.byte(k, j, i)
            return [b != 0, b != 26]

        def wide(a, b):
            """The same for two bytes in a row that are a unit"""
            out = []
            for a, b in ((a, b), (b, a)):
                (*p, i), (*q, l) = a.children(), b.children()
                lo, hi = (a, b) if se == '<' else (b, a)
                out.append(z3.Implies(z3.And([x == y for x, y in zip(p, q)] + [l == i + 1, i % 2 == 0]),
                                      z3.Or(hi != 0, z3.And(lo != 0, lo != 26))))
            return out
        X.text = E.source('text', 2, length=lambda k, j: one * units(k, j), gen=chars if w == 1 else None)
        if w == 2:
            E.fns[X.text.byte.name()].pair = wide
        X.data = E.source('data', 2, lo=0, hi=253 - w)
        X.type = E.fun('type', 2, 0, 255)
        infolen = E.int('infolen', 0, M16 - 4)
        info = X.info = E.source('info', 1, length=lambda k: I(infolen))

        def part(k, j):
            return Choice(esc(I(k), I(j)), Obj(bmg.Message.Escape, {'type': SInt(X.type(I(k), I(j))), 'data': SBytes(E.whole(X.data, k, j))}),
                          SStr(E.whole(X.text, k, j)))
        X.part = part

        def messages(n):
            return E.list(n, lambda k: Obj(bmg.Message, {
                'info': SBytes(E.whole(info, k)), 'isNull': SBool(null(I(k))),
                'stringParts': E.list(SInt(X.np(I(k))), lambda j: part(k, j))}))
        X.messages = messages
        msgs = messages(X.n)
        inst = E.source('inst', 1, length=lambda k: z3.IntVal(8),
                        gen=lambda k, i: [z3.Or([inst.byte(k, z3.IntVal(x)) != 0 for x in range(8)])])
        lid, lix = E.fun('labelid', 1, -128, 127), E.fun('label', 1, -32768, 32767, gen=lambda k: [z3.Or(lid(k) != 0, lix(k) != 0)])
        sid, six = E.fun('scriptid', 1, 0, M32), E.fun('script', 1, 0, M16)
        ninsts = add(mul(2, E.int('insts', 0, M16 // 2 - 1)), odd)
        nlabels, nscripts = E.int('labels', 0, M16 - 7), E.int('scripts', 0, M16)
        E.assume(z3.Or(I(ninsts) > 0, I(nlabels) > 0) if flow else z3.And(I(ninsts) == 0, I(nlabels) == 0))
        E.assume(I(nscripts) > 0 if script else I(nscripts) == 0)
        insts = E.list(ninsts if flow else 0, lambda k: SBytes(E.whole(inst, k)))
        labels = E.list(nlabels if flow else 0, lambda k: (SInt(lid(I(k))), SInt(lix(I(k)))))
        scripts = E.list(nscripts if script else 0, lambda k: (SInt(sid(I(k))), SInt(six(I(k)))))
        unk = [E.int(x, 0, M32) for x in ('unk14', 'unk18', 'unk1C')]

        def encode(o, e):
            if isinstance(o, SStr):
                return SBytes(o.segs)
        E.encode_hook = encode
        E.decode_hook = lambda segs, e: SStr(segs)
        E.text_contains_hook = lambda c, o: False
        return se, enc, msgs, insts, labels, scripts, E.int('id', 0, M32), unk
    return build


def apart(a, b):
    """Of two parts in a row one is an escape sequence"""
    (k, i), (l, j) = a.children(), b.children()
    return [z3.Implies(z3.And(k == l, z3.Or(i == j + 1, j == i + 1)), z3.Or(a, b))]


# ------------------------------------------------------- reading messages

def start(S, i):
    """Where message i begins, and the sequence of its parts"""
    off = 0
    for s in S.get('DAT1').segs:
        if isinstance(s, FM):
            break
        off = add(off, seglen(s))
    else:
        return 0, None
    al, = s.body.at(i)
    return add(off, s.body.prefix(i)), al.b[0]


class Messages(Cut):
    """The messages read so far"""
    def __init__(self, elsewhere):
        self.elsewhere = elsewhere

    def context(self, S):
        E, X = S.E, S.E.X
        nul, esc = bytes(X.w), b'\x1A' if X.w == 1 else b'\x1A\0' if X.se == '<' else b'\0\x1A'

        def part(k, j):
            e = Lit(esc), Pk(add(X.w + 2, SInt(X.data.length(I(k), I(j)))), 1), Pk(SInt(X.type(I(k), I(j))), 1), *E.whole(X.data, k, j)
            return [Al(X.esc(I(k), I(j)), e, E.whole(X.text, k, j))]
        texts = E.seq(X.n, lambda k: [Al(X.null(I(k)), [], [E.seq(SInt(X.np(I(k))), lambda j: part(k, j)), Lit(nul)])])
        pad = mk(I(sub(24 - X.w, texts.body.prefix(X.n))) % 32)
        where = E.list(X.n, lambda k: (mk(z3.If(X.null(k), 0, I(add(X.w, texts.body.prefix(SInt(k)))))), SBytes(E.whole(X.info, k))))
        me = S.get('self')
        return {'INF1': where, 'DAT1': SBytes([Lit(nul), texts, Fi(0, pad)]), 'nullChar': nul, 'escapeSequenceStart': esc,
                'self': None}

    def assume(self, S, g, i):
        E = S.E
        E.X.i = i
        me = S.get('self')
        if S.again:
            for name in me.d:
                if name not in ('messages', 'encoding', 'endianness'):
                    E.set(me.d, name, Poison())
        m = E.X.messages(i)
        E.set(S.ip.getattr(me, 'messages').d, 'v', tuple(m.segs))

    def check(self, S, g, i, when):
        if S.E.skip:
            S.E.skipped = True
            return
        prove_equal(S.E, S.ip.getattr(S.get('self'), 'messages'), S.E.X.messages(i), f'invariant {when}: messages')


class Scan(Cut):
    """
    u units into part j of the message, if that is a text, which may also be
    just behind it; otherwise at the beginning of part j
    """
    def ghost(self, S, i):
        E, X = S.E, S.E.X
        j, u = E.int('j', 0), E.int('u', 0)
        k = I(X.i)
        E.assume(I(j) <= X.np(k))
        intext = z3.And(I(j) < X.np(k), z3.Not(X.esc(k, I(j))))
        E.assume(z3.If(intext, I(u) <= X.units(k, I(j)), I(u) == 0))
        return j, u

    def first(self, S):
        return 0, 0

    def next(self, S, g, i):
        E, X = S.E, S.E.X
        j, u = g
        k = I(X.i)
        if E.decide(X.esc(k, I(j))):
            return add(j, 1), 0
        if E.decide(I(u) == X.units(k, I(j))):
            return add(j, 2), 0
        return j, add(u, 1)

    def state(self, S, g, i):
        E, X = S.E, S.E.X
        j, u = g
        k = I(X.i)
        intext = z3.And(I(j) < X.np(k), z3.Not(X.esc(k, I(j))))
        facts = [z3.And(I(j) >= 0, I(u) >= 0, I(j) <= X.np(k)), z3.If(intext, I(u) <= X.units(k, I(j)), I(u) == 0)]
        if E.decide(X.null(k)):
            begin = 0
        else:
            base, parts = start(S, X.i)
            begin = add(base, parts.body.prefix(j))
        at = add(begin, mul(X.w, u))
        if E.decide(intext):
            if E.decide(I(u) == X.units(k, I(j))):
                at = add(base, parts.body.prefix(add(j, 1)))
        vals = {'currentStringStart': begin, 'offset': at, 'stringParts': E.list(j, lambda t: X.part(X.i, t)),
                'nextBytes': SBytes(E.slice(S.get('DAT1').segs, at, add(at, X.w)))}
        return vals, facts

    def measure(self, S, g):
        return sub(ropelen(S.get('DAT1').segs), S.get('offset'))


def contracts(elsewhere):
    def contracts(E, ip):
        ip.cuts['ndspy.bmg.BMG._initFromData', 1] = Messages(elsewhere)
        ip.cuts['ndspy.bmg.BMG._initFromData', 2] = Scan()
    return contracts


def roundtrip(se, enc, msgs, insts, labels, scripts, ident, unk):
    b = bmg.BMG.fromMessages(msgs, insts, labels, scripts, id=ident)
    b.endianness = se
    b.encoding = enc
    b.unk14, b.unk18, b.unk1C = unk
    before = snapshot(b)
    data = b.save()
    assume(len(data) < 0xFFFFFFE0)
    same(b, before, 'BMG after save')
    c = bmg.BMG(data)
    same(c, before, 'loaded')


READING = ['invariant of loop 1 of ndspy.bmg.BMG._initFromData', 'invariant of loop 2 of ndspy.bmg.BMG._initFromData']
SAVING = ['ndspy.bmg.BMG.save', 'ndspy.bmg.BMG._initFromData', 'ndspy.bmg.Message.save', 'ndspy.bmg.Message.Escape.save']
SECTIONS = {'': (0, 0, 0), 'scripts': (0, 1, 0), 'flow': (1, 0, 0), 'odd flow': (1, 0, 1), 'flow, scripts': (1, 1, 0), 'odd flow, scripts': (1, 1, 1)}

# the loop that reads the messages is verified where there are no more sections,
# and used with the same context in the other lemmas
LEMMAS = [
    Lemma(f'round trip, {enc}, {se}' + (f', {name}' if name else ''), build(se, enc, *kinds), roundtrip, contracts=contracts(name != ''),
          linear=True, covers=SAVING + READING if not name else SAVING)
    for name, kinds in SECTIONS.items() for enc in ('cp1252', 'utf-16', 'shift-jis', 'utf-8') for se in '<>'
]

TRUSTED = [
    'Python codecs: decoding the encoded form of a text gives the text again, and a text without the characters 0 and 0x1A has no such code unit',
]

ASSUMPTIONS = [
    'text parts are not empty, no two of them are adjacent, and they do not contain the characters 0 and 0x1A',
    'instructions and labels are not all zero (that is what padding looks like)',
    'all messages have an info value of the same length; null messages have no parts',
    'escape sequences have at most 253 bytes of data less the size of a code unit; the file is smaller than 4 GB',
]
