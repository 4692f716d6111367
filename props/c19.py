"""C19: BNBL, BNCL and alignment packing."""
import struct
from vf.gen import ri
from .base import eq, ensure

import ndspy
from ndspy import bnbl, bncl, _common

QUICK, THOROUGH = 4000, 40000
A = ndspy.Alignment
ALIGNS = [h | v for h in (0x01, 0x02, 0x04) for v in (0x10, 0x20, 0x40)]
# case: ('bnbl', unk04, [(x, y, w, h, align)]) | ('bncl', unk04, [(x, y, align, id)]) | ('pos', x, y, w, h, align)
#     | ('raw', xPack, yPack)


def boundary():
    for a in ALIGNS:
        for x in (0, 1, 0x7FF, 0x800, 0xFFE, 0xFFF):
            yield ('pos', x, 0xFFF - x, 255, x & 255, a)
        yield ('bnbl', 0xFFFF, [(1, 2, 3, 4, a), (0xFFF, 0xFFE, 255, 254, a)])
        yield ('bncl', 0xFFFF, [(1, 2, a, 3), (0xFFF, 0xFFE, a, 0xFFFFFFFF)])
    for k in range(16):
        for l in range(16):
            yield ('raw', k << 12 | 0x123, l << 12 | 0xFED)
    for n in (0, 1, 2, 255, 256, 257, 65535):
        yield ('bnbl', n, [(i & 0xFFF, i >> 4, i & 255, i >> 8, ALIGNS[i % 9]) for i in range(n)])
        yield ('bncl', n, [(i & 0xFFF, i >> 4, ALIGNS[i % 9], i * 65537) for i in range(n)])


def gen(rng):
    k = rng.random()
    p = lambda: (ri(rng, 0, 0xFFF), ri(rng, 0, 0xFFF))
    if k < 0.3:
        return ('pos', *p(), ri(rng, 0, 255), ri(rng, 0, 255), rng.choice(ALIGNS))
    if k < 0.4:
        return ('raw', ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF))
    n = rng.choice((0, 1, 2, 3, 10, 40))
    if k < 0.7:
        return ('bnbl', ri(rng, 0, 0xFFFF), [(*p(), ri(rng, 0, 255), ri(rng, 0, 255), rng.choice(ALIGNS)) for _ in range(n)])
    return ('bncl', ri(rng, 0, 0xFFFF), [(*p(), rng.choice(ALIGNS), ri(rng, 0, 0xFFFFFFFF)) for _ in range(n)])


def make(case):
    if case[0] == 'bnbl':
        return bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(*e) for e in case[2]], case[1])
    return bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(*e) for e in case[2]], case[1])


def dump(o):
    if isinstance(o, bnbl.BNBL):
        return ('bnbl', o.unk04, [(e.x, e.y, e.width, e.height, e.alignment) for e in o.touchAreas])
    return ('bncl', o.unk04, [(e.x, e.y, e.alignment, e.imageID) for e in o.imagePositions])


def topleft(x, y, w, h, a):
    x -= (w + 1) // 2 if a & A.H_CENTER else w if a & A.RIGHT else 0
    y -= (h + 1) // 2 if a & A.V_CENTER else h if a & A.BOTTOM else 0
    return x, y


def check(case):
    if case[0] == 'pos':
        _, x, y, w, h, a = case
        xp, yp = _common.packAlignmentIntoPos(x, y, a)
        ensure(0 <= xp <= 0xFFFF and 0 <= yp <= 0xFFFF, 'packed position out of range')
        eq('packed coordinates', (xp & 0xFFF, yp & 0xFFF), (x, y))
        eq('unpacked', tuple(_common.unpackAlignmentFromPos(xp, yp)), (x, y, a))
        eq('top left', tuple(_common.getTopLeftOfAlignedRect(x, y, w, h, a)), topleft(x, y, w, h, a))
        eq('top left of area', tuple(bnbl.BNBLTouchArea(x, y, w, h, a).getTopLeft()), topleft(x, y, w, h, a))
        return
    if case[0] == 'raw':
        x, y, a = _common.unpackAlignmentFromPos(case[1], case[2])
        eq('coordinates', (x, y), (case[1] & 0xFFF, case[2] & 0xFFF))
        eq('alignment', a, [A.LEFT, A.H_CENTER, A.RIGHT, A.LEFT][case[1] >> 12 & 3] | [A.TOP, A.V_CENTER, A.BOTTOM, A.TOP][case[2] >> 12 & 3])
        return
    o = make(case)
    eq('content', dump(o), case)
    data = o.save()
    eq('content after save', dump(o), case)
    eq('header', struct.unpack_from('<4sHH', data), (b'JNBL' if case[0] == 'bnbl' else b'JNCL', case[1], len(case[2])))
    eq('length', len(data), 8 + (6 if case[0] == 'bnbl' else 8) * len(case[2]))
    eq('reloaded', dump(type(o)(data)), case)
