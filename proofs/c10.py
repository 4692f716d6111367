"""C10: main code file sections."""
import struct

import z3

from vf.terms import *
from vf.interp import prove_equal
from vf.loops import Cut
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import code, codeCompression

M32 = 0xFFFFFFFF
Section = code.MainCodeFile.Section


class Box:
    pass


def sections(E):
    """Sections with data, and then sections without"""
    X = E.X = Box()
    n, m = X.n, X.m = E.int('n', 0), E.int('m', 0)
    w = E.fun('words', 1, 1)
    data = E.source('section', 1, length=lambda k: 4 * w(k))
    ram, bss = E.fun('ram', 1, 0, M32), E.fun('bss', 1, 0, M32)
    ram0, bss0 = E.fun('ram0', 1, 0, M32), E.fun('bss0', 1, 0, M32)

    def full(n):
        return E.family(n, lambda k: Obj(Section, {'data': MBytes(E.whole(data, k)), 'ramAddress': SInt(ram(I(k))), 'bssSize': SInt(bss(I(k))), 'implicit': False}))

    def void(m):
        return E.family(m, lambda k: Obj(Section, {'data': MBytes([]), 'ramAddress': SInt(ram0(I(k))), 'bssSize': SInt(bss0(I(k))), 'implicit': False}))
    X.full, X.void = full, void
    X.before = E.seq(n, lambda k: E.whole(data, k)).body.prefix
    return MList(full(n) + void(m))


class Table(Cut):
    """j entries of the section table have been read"""
    def ghost(self, S, i):
        E, X = S.E, S.E.X
        j = E.int('j', 0)
        E.assume(I(j) <= I(add(X.n, X.m)))
        return j

    def first(self, S):
        S.E.X.head = S.ip.getattr(S.get('self'), 'sections').segs
        S.E.X.begin = S.get('copyTableBegin'), S.get('dataBegin')
        return 0

    def next(self, S, j, i):
        return add(j, 1)

    def sections(self, E, j):
        X = E.X
        if E.decide(I(j) <= I(X.n)):
            return j, tuple(X.full(j))
        return X.n, tuple(X.full(X.n)) + tuple(X.void(sub(j, X.n)))

    def state(self, S, j, i):
        E, X = S.E, S.E.X
        k, X.segs = self.sections(E, j)
        return ({'copyTablePos': add(X.begin[0], mul(12, j)), 'dataBegin': add(X.begin[1], X.before(k))},
                [z3.And(I(j) >= 0, I(j) <= I(add(X.n, X.m)))])

    def assume(self, S, j, i):
        super().assume(S, j, i)
        E = S.E
        E.set(S.ip.getattr(S.get('self'), 'sections').d, 'v', tuple(E.X.head) + E.X.segs)

    def check(self, S, j, i, when):
        super().check(S, j, i, when)
        E = S.E
        if not E.skip:
            prove_equal(E, S.ip.getattr(S.get('self'), 'sections'), MList(tuple(E.X.head) + E.X.segs), f'invariant {when}: sections')

    def measure(self, S, j):
        return sub(S.get('copyTableEnd'), S.get('copyTablePos'))


def build(kind):
    """The settings block (24 bytes) somewhere in the first section, and perhaps a pointer to it before or behind"""
    def build(E):
        words = [E.int(f'{x} words', 0) for x in 'abc']
        parts = [SBytes(E.whole(E.source(x, 0, length=lambda w=w: 4 * I(w)))) for x, w in zip('abc', words)]
        return kind, E.int('addr', 0, M32), parts, SBytes(E.whole(E.source('settings', 0, length=lambda: z3.IntVal(24)))), sections(E)
    return build


def contracts(E, ip):
    contracts_none(E, ip)
    ip.cuts['ndspy.code.MainCodeFile.__init__', 0] = Table()


def contracts_none(E, ip):
    # plain code is not taken for compressed code: decided by C03
    ip.contracts[codeCompression.decompress] = lambda ip, fn, args, kw: args[0]

    def found(ip, fn, args, kw):
        E.found = args[0]
    ip.contracts[given] = found
    ip.contracts[code.MainCodeFile._searchForCodeSettingsOffs] = lambda ip, fn, args, kw: E.found


def given(offset):
    """Where the search is assumed to find the code settings"""


def roundtrip(kind, ram, parts, settings, others):
    a, b, c = parts
    first = bytearray(a)
    cso = len(a) + 4 + len(b) if kind == 'pointer before' else len(a)
    at = None
    if kind == 'pointer before':
        at = ram + len(first) + 4
        assume(ram + cso <= 0xFFFFFFFF)
        first.extend(struct.pack('<I', ram + cso))
        first.extend(b)
    first.extend(settings)
    if kind == 'pointer behind':
        first.extend(b)
        at = ram + len(first) + 4
        assume(ram + cso <= 0xFFFFFFFF)
        first.extend(struct.pack('<I', ram + cso))
    first.extend(c)
    given(None)
    whole = [Section(first, ram, 0, implicit=True)]
    whole.extend(others)
    m = code.MainCodeFile.fromSections(whole, ram)
    m.codeSettingsOffs = cso
    old = snapshot(m)
    out = m.save()
    assume(ram + len(out) <= 0xFFFFFFFF)
    same(m, old, 'file after save')
    same(m.save(), out, 'saved twice')
    want = bytearray(first)
    table = bytearray()
    for s in others:
        want.extend(s.data)
        table.extend(struct.pack('<III', s.ramAddress, len(s.data), s.bssSize))
    end = len(want)
    want.extend(table)
    want[cso:cso + 4] = struct.pack('<I', ram + end)
    want[cso + 4:cso + 8] = struct.pack('<I', ram + end + len(table))
    want[cso + 8:cso + 12] = struct.pack('<I', ram + len(first))
    want[cso + 20:cso + 24] = bytes(4)
    same(out, want, 'written code')
    given(cso)
    l = code.MainCodeFile(bytes(out), ram, at)
    prove(l.codeSettingsOffs == cso and l.ramAddress == ram, 'loaded attributes')
    head = whole[0]
    head.data = out[:len(first)]
    same(l.sections, whole, 'loaded sections')
    same(l.save(), out, 'second save')


def build_none(E):
    return E.int('addr', 0, M32), E.bytes('a')


def none(ram, data):
    given(None)
    n = len(data)
    m = code.MainCodeFile.fromSections([Section(data, ram, 0, implicit=True)], ram)
    old = snapshot(m)
    prove(m.codeSettingsOffs is None, 'no code settings')
    out = m.save()
    same(m, old, 'file after save')
    same(m.save(), out, 'saved twice')
    same(out[:n], data, 'written code')
    same(out[n:], bytes(-n % 4), 'padding')
    l = code.MainCodeFile(out, ram)
    same(l, code.MainCodeFile.fromSections([Section(out, ram, 0, implicit=True)], ram), 'loaded')
    l.saveToFile('file')
    same(code.MainCodeFile.fromFile('file', ram), l, 'loaded from a file')
    same(code.MainCodeFile.fromCompressed(out, ram), l, 'loaded')


# ------------------------------------------- searching for the settings

MAGIC = b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21'


class Search(Cut):
    """None of the i words before is the beginning of the magic number"""
    def state(self, S, g, i):
        E, X = S.E, S.E.X
        if i is not None:
            E.note(X.magic(I(i)))
        return {}, [I(i) <= I(X.j)] if X.j is not None else []


def build_search(found, mentioned=False):
    """mentioned: there is no magic number, but the address of the end follows that of a plausible table"""
    def build(E):
        X = E.X = Box()
        data = E.source('data')
        magic = X.magic = E.fun('magic', 1, boolean=True, gen=lambda i: [magic(i) == z3.And(
            4 * i + 8 <= data.length(), *[data.byte(4 * i + t) == MAGIC[t] for t in range(8)])])
        j = X.j = E.int('j', 0, 0x1FFF) if found else None
        E.forall('magic', lambda i: [z3.Implies(z3.And(i >= 0, i < I(j)), z3.Not(magic(i)))] if found else [z3.Not(magic(i))])
        if found:
            E.assume(magic(I(j)))
        ram = E.int('addr', 0, M32)
        end = add(ram, SInt(data.length()))
        q = E.int('mention', 4) if mentioned else -1
        if mentioned:
            E.assume(I(q) + 4 <= data.length())
            E.assume(I(end) - 12 * I(E.int('entries', 0, 21)) == sum(data.byte(I(q) - 4 + t) * 256 ** t for t in range(4)))
            E.assume(I(end) % 4 == 0)

        def find(segs, x, at):
            # the first mention of the end
            if at == 0:
                prove_equal(E, x, SBytes([Pk(end, 4)]), 'what is searched for')
                return q
        E.find_hook = find
        return Obj(code.MainCodeFile, {'ramAddress': ram}), SBytes(E.whole(data)), j, ram, q
    return build


def contracts_search(E, ip):
    ip.cuts['ndspy.code.MainCodeFile._searchForCodeSettingsOffs', 0] = Search()


def search(m, data, j, ram, mention):
    assume(ram + len(data) <= 0xFFFFFFFF)
    r = m._searchForCodeSettingsOffs(data)
    if j is None and mention != -1:
        prove(r == mention - 4, 'the settings are found')
    elif j is None:
        prove(r is None, 'nothing is found')
    else:
        prove(r == 4 * j - 0x1C, 'the first magic number is found')


M = 'ndspy.code.MainCodeFile.'
LEMMAS = [
    Lemma(f'round trip, {kind}', build(kind), roundtrip, contracts=contracts, covers=[M + '__init__', M + 'save', M + 'fromSections', M + 'Section.__init__', f'invariant of loop 0 of {M}__init__'])
    for kind in ('search', 'pointer before', 'pointer behind')
] + [
    Lemma('no code settings', build_none, none, contracts=contracts_none, covers=[M + '__init__', M + 'save', M + 'fromFile', M + 'saveToFile', M + 'fromCompressed']),
    Lemma('search for the magic number', build_search(True), search, contracts=contracts_search,
          covers=[M + '_searchForCodeSettingsOffs', f'invariant of loop 0 of {M}_searchForCodeSettingsOffs']),
    Lemma('search in vain', build_search(False), search, contracts=contracts_search,
          covers=[M + '_searchForCodeSettingsOffs', f'invariant of loop 0 of {M}_searchForCodeSettingsOffs']),
    Lemma('search without magic number', build_search(False, True), search, contracts=contracts_search,
          covers=[M + '_searchForCodeSettingsOffs', f'invariant of loop 0 of {M}_searchForCodeSettingsOffs']),
]
TRUSTED = ['codeCompression.decompress returns plain code as it is (decided by C03)']
ASSUMPTIONS = [
    'the sections after the first have lengths that are multiples of 4, and the empty ones come last',
    'in the round trip the search finds the settings block of the file; the search has its own lemmas: the first magic number, or the first mention of the end address if it follows a plausible table address',
    'the end of the code in memory lies below 2**32',
]
LEVEL = 'other'
BOUNDED = ['saving with compress=True and loading the result is checked on concrete files']
