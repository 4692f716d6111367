"""C15: SBNK instrument banks."""
import itertools
import struct

import z3

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import soundBank as B

RANGES = [('waveID', 0xFFFF), ('waveArchiveIDID', 0xFFFF), ('pitch', 255), ('attack', 255), ('decay', 255), ('sustain', 255),
          ('release', 255), ('pan', 255)]


def note(E, name, known, hi=0xFFFF, lo=0):
    """A note definition of a known type (1 to 3), or another one"""
    f = {x: E.int(f'{name}.{x}', 0, m) for x, m in RANGES}
    t = E.int(f'{name}.type', 1, 3) if known else E.int(f'{name}.type', lo, hi)
    if not known:
        E.assume(z3.Or(I(t) < 1, I(t) > 3))
    f['type'] = SEnum(I(t), B.NoteType) if known else t
    return Obj(B.NoteDefinition, f)


def notes(E, name, n, known):
    """n note definitions"""
    f = {x: E.fun(f'{name}.{x}', 1, 0, m) for x, m in RANGES}
    t = E.fun(f'{name}.type', 1, 1, 3) if known else E.fun(f'{name}.type', 1, 0, 0xFFFF, gen=lambda k: [z3.Or(t(k) < 1, t(k) > 3)])

    def elem(k):
        d = {x: SInt(f[x](I(k))) for x in f}
        d['type'] = SEnum(t(I(k)), B.NoteType) if known else SInt(t(I(k)))
        return Obj(B.NoteDefinition, d)
    return MList(E.family(n, elem))


def roundtrip(inst, cls, before, after):
    old = snapshot(inst)
    t, data = inst.save()
    same(inst, old, 'instrument after save')
    prove(t == inst.type, 'type')
    prove(B.instrumentClass(t) is cls, 'class')
    got, n = cls.fromData(t, before + data + after, len(before))
    same(got, inst, 'loaded instrument')
    prove(n == len(data), 'bytes consumed')
    same(got.save(), (t, data), 'second save')


def build_single(known):
    def build(E):
        n = note(E, 'note', known, 15, 4)
        return n, E.bytes('a'), E.bytes('b')
    return build


def single(n, before, after):
    roundtrip(B.SingleNoteInstrument(n), B.SingleNoteInstrument, before, after)


def build_range(known):
    def build(E):
        n = E.int('n', 1, 256)
        first = E.int('first', 0, 255)
        E.assume(I(first) + I(n) <= 256)
        return first, notes(E, 'note', n, known), E.bytes('a'), E.bytes('b')
    return build


def range_(first, notes, before, after):
    roundtrip(B.RangeInstrument(first, notes), B.RangeInstrument, before, after)


def build_regional(n):
    def build(E):
        regions = []
        for i in range(n):
            regions.append(Obj(B.RegionalInstrument.Region, {'lastPitch': E.int(f'end {i}', 1 if i else 0, 255), 'noteDefinition': note(E, f'note {i}', i % 2 == 0)}))
        return MList([El(r) for r in regions]), E.bytes('a'), E.bytes('b')
    return build


def regional(regions, before, after):
    roundtrip(B.RegionalInstrument(regions), B.RegionalInstrument, before, after)


# ------------------------------------------- the bank

def build_bank(shape):
    """One instrument for each letter: nothing, a single note, a range of 1 or 2 notes, 1 or 2 regions"""
    def build(E):
        found = []
        for i, x in enumerate(shape):
            if x == '-':
                found.append(None)
                continue
            if x == 's':
                o = Obj(B.SingleNoteInstrument, {'noteDefinition': note(E, f'{i}', i % 2 == 0, 15, 4)})
            elif x in 'rR':
                k = 1 if x == 'r' else 2
                o = Obj(B.RangeInstrument, {'type': 16, 'firstPitch': E.int(f'{i}.first', 0, 256 - k),
                                            'noteDefinitions': MList([El(note(E, f'{i}.{j}', j % 2 == 0)) for j in range(k)])})
            else:
                k = 1 if x == 'g' else 2
                o = Obj(B.RegionalInstrument, {'type': 17, 'regions': MList([El(Obj(B.RegionalInstrument.Region, {
                    'lastPitch': E.int(f'{i}.end {j}', 1 if j else 0, 255), 'noteDefinition': note(E, f'{i}.{j}', j % 2 == 0)})) for j in range(k)])})
            E.set(o.d, 'bankOrderKey', E.int(f'{i}.key', -100, 100))
            E.set(o.d, 'dataMergeOptimizationID', E.int(f'{i}.merge', 0, 100))
            found.append(o)
        return MList([El(o) for o in found]), E.int('unk', 0, 0xFFFF), MList([El(E.int('wa', 0, 0xFFFF)), El(None), El(E.int('wb', 0, 0xFFFF))])
    return build


def bank(instruments, unk, archives):
    b = B.SBNK.fromInstruments(instruments, unk, archives)
    same(b.waveArchiveIDs, archives, 'archives')
    old = snapshot(b)
    data, u, w = b.save()
    same(b, old, 'bank after save')
    same(b.save(), (data, u, w), 'second save')
    prove(u == unk, 'unk02')
    same(w, archives, 'archives')
    head = struct.pack('<4sHHIHH4sI32xI', b'SBNK', 0xFEFF, 0x100, len(data), 16, 1, b'DATA', len(data) - 16, len(instruments))
    same(data[:0x3C], head, 'headers')
    l = B.SBNK(bytes(data), u, w)
    prove(len(l.inaccessibleInstruments) == 0, 'no inaccessible instruments')
    same(l.save(), (data, u, w), 'saved again')
    # order and sharing of the data are not stored
    for x in l.instruments:
        if x is not None:
            x.bankOrderKey = x.dataMergeOptimizationID = 0
    for x in instruments:
        if x is not None:
            x.bankOrderKey = x.dataMergeOptimizationID = 0
    same(l, b, 'loaded bank')


M = 'ndspy.soundBank.'
LEMMAS = [
    Lemma(f'single note, {"known" if k else "other"} type', build_single(k), single,
          covers=[M + 'SingleNoteInstrument.save', M + 'SingleNoteInstrument.fromData', M + 'NoteDefinition.save', M + 'NoteDefinition.fromData'])
    for k in (True, False)
] + [
    Lemma(f'range, {"known" if k else "other"} types', build_range(k), range_,
          covers=[M + 'RangeInstrument.save', M + 'RangeInstrument.fromData', M + 'NoteDefinition.saveWithType', M + 'NoteDefinition.fromDataWithType'])
    for k in (True, False)
] + [
    Lemma(f'{n} regions', build_regional(n), regional, covers=[M + 'RegionalInstrument.save', M + 'RegionalInstrument.fromData'])
    for n in range(1, 9)
]


def banks(n, kinds='-srRgG'):
    return [Lemma(f'bank {"".join(s)!r}', build_bank(s), bank, covers=[M + 'SBNK.save', M + 'SBNK._initFromData'])
            for s in itertools.product(kinds, repeat=n)]


LEMMAS += banks(0) + banks(1) + banks(2) + banks(3, '-srg')
THOROUGH = [l for l in banks(3) if any(c in l.name for c in 'RG')] + banks(4, '-srg')
# the instruments are unbounded, the banks are not
LEVEL = 'other'
BOUNDED = ['whole banks: every combination of up to 3 (thorough: 4) instruments, with ranges of up to 2 notes and up to 2 regions, any contents and any order keys; larger banks are checked on concrete inputs']
ASSUMPTIONS = ['instruments without inaccessible ones; the file is smaller than 64 KB (offsets have 16 bits)']
