"""C19: BNBL, BNCL and alignment packing."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

import ndspy
from ndspy import bnbl, bncl, _common

HS, VS = (0x01, 0x02, 0x04), (0x10, 0x20, 0x40)


def alignment(E, name, k):
    """Any of the nine alignments, for element k"""
    h, v = E.fun(f'{name}_h', 1, 0, 2)(k), E.fun(f'{name}_v', 1, 0, 2)(k)
    pick = lambda t, xs: z3.If(t == 0, xs[0], z3.If(t == 1, xs[1], xs[2]))
    return mk(pick(h, [z3.IntVal(x) for x in HS]) + pick(v, [z3.IntVal(x) for x in VS]))


def build_bnbl(E):
    n = E.int('n', 0, 65535)
    f = {a: E.fun(a, 1, 0, hi) for a, hi in (('x', 4095), ('y', 4095), ('width', 255), ('height', 255))}
    return E.list(n, lambda k: Obj(bnbl.BNBLTouchArea, {
        **{a: SInt(g(k)) for a, g in f.items()}, 'alignment': alignment(E, 'al', k)})), E.int('unk', 0, 65535)


def build_bncl(E):
    n = E.int('n', 0, 65535)
    f = {a: E.fun(a, 1, 0, hi) for a, hi in (('x', 4095), ('y', 4095), ('imageID', 0xFFFFFFFF))}
    return E.list(n, lambda k: Obj(bncl.BNCLImagePosition, {
        **{a: SInt(g(k)) for a, g in f.items()}, 'alignment': alignment(E, 'al', k)})), E.int('unk', 0, 65535)


def roundtrip_bnbl(entries, unk):
    a = bnbl.BNBL.fromTouchAreas(entries, unk)
    same(a.touchAreas, entries, 'entries')
    prove(a.unk04 == unk, 'unknown value')
    before = snapshot(a)
    data = a.save()
    same(a, before, 'object after save')
    magic, u, n = struct.unpack_from('<4sHH', data)
    prove(magic == b'JNBL' and u == unk and n == len(entries), 'header')
    prove(len(data) == 8 + 6 * n, 'length')
    for i, e in enumerate(entries):
        x, y, w, h = struct.unpack_from('<HHBB', data, 8 + 6 * i)
        prove(x & 0xFFF == e.x and y & 0xFFF == e.y and w == e.width and h == e.height, 'entry in file')
    b = bnbl.BNBL(data)
    same(b, before, 'loaded')
    same(bnbl.BNBL(bytearray(data)), before, 'loaded from a bytearray')
    same(b.save(), data, 'second save')


def roundtrip_bncl(entries, unk):
    a = bncl.BNCL.fromImagePositions(entries, unk)
    same(a.imagePositions, entries, 'entries')
    prove(a.unk04 == unk, 'unknown value')
    before = snapshot(a)
    data = a.save()
    same(a, before, 'object after save')
    magic, u, n = struct.unpack_from('<4sHH', data)
    prove(magic == b'JNCL' and u == unk and n == len(entries), 'header')
    prove(len(data) == 8 + 8 * n, 'length')
    for i, e in enumerate(entries):
        x, y, d = struct.unpack_from('<HHI', data, 8 + 8 * i)
        prove(x & 0xFFF == e.x and y & 0xFFF == e.y and d == e.imageID, 'entry in file')
    b = bncl.BNCL(data)
    same(b, before, 'loaded')
    same(bncl.BNCL(bytearray(data)), before, 'loaded from a bytearray')
    same(b.save(), data, 'second save')


def build_pos(E):
    h = E.concretize(E.int('h', 0, 2), 0, 2)
    v = E.concretize(E.int('v', 0, 2), 0, 2)
    return E.int('x', 0, 4095), E.int('y', 0, 4095), E.int('w', 0, 255), E.int('hh', 0, 255), h, v


def position(x, y, w, h, hi, vi):
    A = ndspy.Alignment
    hs, vs = (A.LEFT, A.RIGHT, A.H_CENTER), (A.TOP, A.BOTTOM, A.V_CENTER)
    prove(hs == HS and vs == VS, 'values of the alignments')
    a = hs[hi] | vs[vi]
    xp, yp = _common.packAlignmentIntoPos(x, y, a)
    prove(0 <= xp <= 0xFFFF and 0 <= yp <= 0xFFFF, 'packed position in range')
    prove(xp & 0xFFF == x and yp & 0xFFF == y, 'packed coordinates')
    prove(xp >> 12 == (0, 2, 1)[hi] and yp >> 12 == (0, 2, 1)[vi], 'packed alignment')
    x2, y2, a2 = _common.unpackAlignmentFromPos(xp, yp)
    prove(x2 == x and y2 == y and a2 == a, 'unpacked')
    ex = x - (0, w, (w + 1) // 2)[hi]
    ey = y - (0, h, (h + 1) // 2)[vi]
    tx, ty = _common.getTopLeftOfAlignedRect(x, y, w, h, a)
    prove(tx == ex and ty == ey, 'top left corner')
    t = bnbl.BNBLTouchArea(x, y, w, h, a)
    prove(t.x == x and t.y == y and t.width == w and t.height == h and t.alignment == a, 'touch area')
    tx, ty = t.getTopLeft()
    prove(tx == ex and ty == ey, 'top left corner of a touch area')


def build_raw(E):
    return E.int('xp', 0, 65535), E.int('yp', 0, 65535)


def raw(xp, yp):
    """Any 16-bit coordinates, also with unused bits set"""
    x, y, a = _common.unpackAlignmentFromPos(xp, yp)
    prove(x == xp % 4096 and y == yp % 4096, 'coordinates')
    prove(a == (1, 4, 2, 1)[xp // 4096 % 4] + (16, 64, 32, 16)[yp // 4096 % 4], 'alignment')


def pick(i, xs):
    return xs[i]


def case_list(kind):
    def case(m):
        n = m.int('n')
        al = lambda k: HS[m.fun('al_h', k)] | VS[m.fun('al_v', k)]
        if kind == 'bnbl':
            es = [(m.fun('x', k), m.fun('y', k), m.fun('width', k), m.fun('height', k), al(k)) for k in range(n)]
        else:
            es = [(m.fun('x', k), m.fun('y', k), al(k), m.fun('imageID', k)) for k in range(n)]
        return (kind, m.int('unk'), es)
    return case


LEMMAS = [
    Lemma('bnbl round trip', build_bnbl, roundtrip_bnbl, case=case_list('bnbl'),
          covers=['ndspy.bnbl.BNBL.save', 'ndspy.bnbl.BNBL._initFromData', 'ndspy.bnbl.BNBLTouchArea.save',
                  'ndspy.bnbl.BNBLTouchArea.fromData']),
    Lemma('bncl round trip', build_bncl, roundtrip_bncl, case=case_list('bncl'),
          covers=['ndspy.bncl.BNCL.save', 'ndspy.bncl.BNCL._initFromData', 'ndspy.bncl.BNCLImagePosition.save',
                  'ndspy.bncl.BNCLImagePosition.fromData']),
    Lemma('alignment packing', build_pos, position,
          case=lambda m: ('pos', m.int('x'), m.int('y'), m.int('w'), m.int('hh'), HS[m.int('h')] | VS[m.int('v')]),
          covers=['ndspy._common.packAlignmentIntoPos', 'ndspy._common.unpackAlignmentFromPos',
                  'ndspy._common.getTopLeftOfAlignedRect']),
    Lemma('unpacking any coordinates', build_raw, raw, case=lambda m: ('raw', m.int('xp'), m.int('yp'))),
]
