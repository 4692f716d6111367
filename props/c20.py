"""C20: color conversions."""
import struct
from vf.gen import ri, rb, rlen
from .base import eq, ensure

from ndspy import color

QUICK, THOROUGH = 4000, 100000
F = color.ColorFormat
INT, BYT, T51, T55, T255 = F.INT_16, F.BYTES_2, F.TUPLE_RGB5A1, F.TUPLE_RGB5A5, F.TUPLE_RGBA255
# case: ('ints', lo, hi) | ('5a1', t) | ('5a5', t) | ('255', t) | ('pal', bytes)


def up(v):
    return (v * 255 + 15) // 31 if v not in UP else UP[v]


UP = {v: v << 3 | v >> 2 for v in range(32)}
NEAR = [{v for v in range(32) if abs(UP[v] - x) == min(abs(UP[w] - x) for w in range(32))} for x in range(256)]
NEARA = [{v for v in (0, 1) if abs(255 * v - x) == min(abs(255 * w - x) for w in (0, 1))} for x in range(256)]


def boundary():
    for lo in range(0, 65536, 4096):
        yield ('ints', lo, lo + 4096)
    for v in range(256):
        yield ('255', (v, 255 - v, v ^ 0x55, v))
        yield ('255', (255 - v, v, v, 255 - v))
    for v in range(32):
        yield ('5a5', (v, 31 - v, v, v))
        yield ('5a5', (31, 0, 31 - v, 31 - v))
        yield ('5a1', (v, v, 31 - v, v & 1))
        yield ('5a1', (31 - v, v, v, 1 - v & 1))
    for n in (0, 1, 2, 3, 16, 256, 65536):
        yield ('pal', n)


def gen(rng):
    k = rng.randrange(8)
    if k == 0:
        return ('pal', rb(rng, rlen(rng, 600)))
    if k < 3:
        return ('5a1', tuple(ri(rng, 0, 31) for _ in range(3)) + (rng.randrange(2),))
    if k < 5:
        return ('5a5', tuple(ri(rng, 0, 31) for _ in range(4)))
    return ('255', tuple(ri(rng, 0, 255) for _ in range(4)))


def one(v):
    b = struct.pack('<H', v)
    r, g, bl, a = v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15
    t51, t55, t255 = (r, g, bl, a), (r, g, bl, 31 * a), (UP[r], UP[g], UP[bl], 255 * a)
    reps = {INT: v, BYT: b, T51: t51, T55: t55, T255: t255}
    for f, x in reps.items():
        for t, y in reps.items():
            z = color.convert(x, f, t)
            if z != y or type(z) is not (color.ColorTuple if isinstance(y, tuple) else type(y)):
                eq(f'convert({x!r}, {f}, {t})', z, y)
    eq('unpack', color.unpack(v), t51)
    eq('pack', color.pack(*t51), v)
    eq('unpack255', color.unpack255(v), t255)
    eq('pack255', color.pack255(*t255), v)
    eq('expand', color.expand(*t51), t255)
    eq('contract', color.contract(*t255), t51)
    eq('load', color.load(b), t51)
    eq('save', color.save(*t51), b)
    if a:
        eq('default alpha', (color.pack(r, g, bl), color.pack255(*t255[:3]), color.expand(r, g, bl), color.contract(*t255[:3]), color.save(r, g, bl)),
           (v, v, t255, t51, b))
    R, G, B, A = t255
    eq('LUTs', (color.LUT_UNPACKED[v], color.LUT_UNPACKED_255[v], color.LUT_RGBA_255[v], color.LUT_ARGB_255[v], color.LUT_BGRA_255[v], color.LUT_ABGR_255[v]),
       (t51, t255, R << 24 | G << 16 | B << 8 | A, A << 24 | R << 16 | G << 8 | B, B << 24 | G << 16 | R << 8 | A, A << 24 | B << 16 | G << 8 | R))


def inrange(what, t, hi, ahi):
    ensure(len(t) == 4 and all(0 <= c <= hi for c in t[:3]) and 0 <= t[3] <= ahi, f'{what}: {t} out of range')


def check(case):
    k, x = case[0], case[1]
    if k == 'ints':
        color.prepareLUTs()
        for lut in (color.LUT_UNPACKED, color.LUT_UNPACKED_255, color.LUT_RGBA_255, color.LUT_ARGB_255, color.LUT_BGRA_255, color.LUT_ABGR_255):
            eq('LUT length', len(lut), 65536)
        for v in range(case[1], case[2]):
            one(v)
        return
    if k == 'pal':
        data = struct.pack(f'<{x}H', *(i * 40503 & 0xFFFF for i in range(x))) if isinstance(x, int) else x
        data = data[:len(data) // 2 * 2]
        p = color.loadPalette(data)
        eq('palette', [tuple(c) for c in p], [(v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15) for v, in struct.iter_unpack('<H', data)])
        eq('palette saved', color.savePalette(p), data)
        return
    C = color.convert
    if k == '5a1':
        v = x[0] | x[1] << 5 | x[2] << 10 | x[3] << 15
        eq('to int', C(x, T51, INT), v)
        one(v) if color._lutsPrepared else None
    elif k == '5a5':
        eq('same format', C(x, T55, T55), x)
        e = C(x, T55, T255)
        eq('to 255', e, tuple(UP[c] for c in x))
        eq('to 255 and back', C(e, T255, T55), x)
        near = x[:3] + (1 if x[3] >= 16 else 0,)
        eq('to 5a1', C(x, T55, T51), near)
        eq('to int', C(x, T55, INT), C(near, T51, INT))
        eq('to bytes', C(x, T55, BYT), C(near, T51, BYT))
    else:
        eq('same format', C(x, T255, T255), x)
        d = C(x, T255, T55)
        inrange('to 5a5', d, 31, 31)
        ensure(all(v in NEAR[c] for v, c in zip(d, x)), f'255 to 5a5: {x} -> {d} is not nearest')
        e = C(x, T255, T51)
        inrange('to 5a1', e, 31, 1)
        ensure(all(v in NEAR[c] for v, c in zip(e[:3], x)) and e[3] in NEARA[x[3]], f'255 to 5a1: {x} -> {e} is not nearest')
        i = C(x, T255, INT)
        ensure(0 <= i <= 0xFFFF, 'to int out of range')
        eq('to int', C(i, INT, T51), e)
        eq('to bytes', C(x, T255, BYT), struct.pack('<H', i))
        eq('pack255', color.pack255(*x), i)
        eq('contract', color.contract(*x), e)
