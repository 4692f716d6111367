"""C20: color conversions."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import color

F = color.ColorFormat
INT, BYT, T51, T55, T255 = F.INT_16, F.BYTES_2, F.TUPLE_RGB5A1, F.TUPLE_RGB5A5, F.TUPLE_RGBA255


def up(c):
    """Five bits to eight: the top bits repeated at the bottom"""
    return c * 8 + c // 4


def near(v, x, w):
    """up(v) is at least as close to x as up(w)"""
    return abs(up(v) - x) <= abs(up(w) - x)


def build_packed(E):
    return [E.int(c, 0, 31) for c in 'rgb'] + [E.int('a', 0, 1)]


def packed(r, g, b, a):
    v = r + 32 * g + 1024 * b + 32768 * a
    raw = struct.pack('<H', v)
    t51 = color.ColorTuple(r, g, b, a)
    t55 = color.ColorTuple(r, g, b, 31 * a)
    t255 = color.ColorTuple(up(r), up(g), up(b), 255 * a)
    reps = [(INT, v), (BYT, raw), (T51, t51), (T55, t55), (T255, t255)]
    for f, x in reps:
        for t, y in reps:
            z = color.convert(x, f, t)
            same(z, y, 'conversion')
            prove(type(z) is type(y), 'type of the result')
    same(color.convert(bytearray(raw), BYT, T51), t51, 'conversion of a bytearray')
    same(color.convert((r, g, b, a), T51, INT), v, 'conversion of a plain tuple')
    same(color.unpack(v), t51, 'unpack')
    prove(color.pack(r, g, b, a) == v, 'pack')
    same(color.unpack255(v), t255, 'unpack255')
    prove(color.pack255(up(r), up(g), up(b), 255 * a) == v, 'pack255')
    same(color.expand(r, g, b, a), t255, 'expand')
    same(color.contract(up(r), up(g), up(b), 255 * a), t51, 'contract')
    same(color.load(raw), t51, 'load')
    same(color.save(r, g, b, a), raw, 'save')
    if a == 1:
        prove(color.pack(r, g, b) == v, 'pack: default alpha')
        prove(color.pack255(up(r), up(g), up(b)) == v, 'pack255: default alpha')
        same(color.expand(r, g, b), t255, 'expand: default alpha')
        same(color.contract(up(r), up(g), up(b)), t51, 'contract: default alpha')
        same(color.save(r, g, b), raw, 'save: default alpha')


def setup_luts(E, ip):
    """The tables have not been prepared"""
    E.overlay['ndspy.color'] = D({'_lutsPrepared': False})


def luts(r, g, b, a):
    v = r + 32 * g + 1024 * b + 32768 * a
    color.prepareLUTs()
    R, G, B, A = up(r), up(g), up(b), 255 * a
    for lut in (color.LUT_UNPACKED, color.LUT_UNPACKED_255, color.LUT_RGBA_255, color.LUT_ARGB_255,
                color.LUT_BGRA_255, color.LUT_ABGR_255):
        prove(len(lut) == 0x10000, 'size of a table')
    same(color.LUT_UNPACKED[v], color.ColorTuple(r, g, b, a), 'LUT_UNPACKED')
    same(color.LUT_UNPACKED_255[v], color.ColorTuple(R, G, B, A), 'LUT_UNPACKED_255')
    prove(color.LUT_RGBA_255[v] == R * 0x1000000 + G * 0x10000 + B * 0x100 + A, 'LUT_RGBA_255')
    prove(color.LUT_ARGB_255[v] == A * 0x1000000 + R * 0x10000 + G * 0x100 + B, 'LUT_ARGB_255')
    prove(color.LUT_BGRA_255[v] == B * 0x1000000 + G * 0x10000 + R * 0x100 + A, 'LUT_BGRA_255')
    prove(color.LUT_ABGR_255[v] == A * 0x1000000 + B * 0x10000 + G * 0x100 + R, 'LUT_ABGR_255')
    color.prepareLUTs()
    same(color.LUT_UNPACKED[v], color.ColorTuple(r, g, b, a), 'LUT_UNPACKED after a second call')


def build_5a5(E):
    return [E.int(c, 0, 31) for c in 'rgba']


def from_5a5(r, g, b, a):
    x = (r, g, b, a)
    C = color.convert
    same(C(x, T55, T55), x, 'same format')
    e = C(x, T55, T255)
    same(e, (up(r), up(g), up(b), up(a)), 'to 255')
    same(C(e, T255, T55), x, 'to 255 and back')
    d = C(x, T55, T51)
    same(d[:3], x[:3], 'to 5a1: color')
    prove(d[3] == (1 if a >= 16 else 0), 'to 5a1: nearest alpha')
    v = r + 32 * g + 1024 * b + 32768 * d[3]
    prove(C(x, T55, INT) == v, 'to int')
    same(C(x, T55, BYT), struct.pack('<H', v), 'to bytes')


def build_255(E):
    return [E.int(c, 0, 255) for c in 'rgba'] + [E.int('w', 0, 31)]


def from_255(r, g, b, a, w):
    x = (r, g, b, a)
    C = color.convert
    same(C(x, T255, T255), x, 'same format')
    d = C(x, T255, T55)
    prove(type(d) is color.ColorTuple and len(d) == 4, 'to 5a5: kind')
    for i in range(4):
        prove(0 <= d[i] <= 31, 'to 5a5: range')
        prove(near(d[i], x[i], w), 'to 5a5: nearest')
    e = C(x, T255, T51)
    prove(type(e) is color.ColorTuple and len(e) == 4, 'to 5a1: kind')
    for i in range(3):
        prove(0 <= e[i] <= 31, 'to 5a1: range')
        prove(near(e[i], x[i], w), 'to 5a1: nearest')
    prove(e[3] == 0 or e[3] == 1, 'to 5a1: alpha range')
    prove(abs(255 * e[3] - a) <= abs(255 - 255 * e[3] - a), 'to 5a1: nearest alpha')
    v = e[0] + 32 * e[1] + 1024 * e[2] + 32768 * e[3]
    prove(C(x, T255, INT) == v, 'to int')
    same(C(x, T255, BYT), struct.pack('<H', v), 'to bytes')
    prove(color.pack255(r, g, b, a) == v, 'pack255')
    same(color.contract(r, g, b, a), e, 'contract')


def build_palette(E):
    n = E.int('n', 0)
    f = E.fun('color', 1, 0, 0xFFFF)
    return E.list(n, lambda k: SInt(f(k))), E.bytes('tail', 0, 1)


def palette(values, tail):
    """Palettes of any length, from and to bytes"""
    data = struct.pack(f'<{len(values)}H', *values)
    p = color.loadPalette(data)
    prove(len(p) == len(values), 'number of colors')
    for i, v in enumerate(values):
        same(p[i], color.ColorTuple(v % 32, v // 32 % 32, v // 1024 % 32, v // 32768), 'color')
    before = snapshot(p)
    same(color.savePalette(p), data, 'palette saved')
    same(p, before, 'palette after save')
    same(color.loadPalette(data + tail), p, 'odd byte at the end is ignored')


def packed_case(m):
    v = m.int('r') + 32 * m.int('g') + 1024 * m.int('b') + 32768 * m.int('a')
    return ('ints', v, v + 1)


LEMMAS = [
    Lemma('packed colors', build_packed, packed, case=packed_case,
          covers=['ndspy.color.convert', 'ndspy.color.pack', 'ndspy.color.unpack', 'ndspy.color.pack255',
                  'ndspy.color.unpack255', 'ndspy.color.expand', 'ndspy.color.contract', 'ndspy.color.load',
                  'ndspy.color.save']),
    Lemma('lookup tables', build_packed, luts, setup=setup_luts, covers=['ndspy.color.prepareLUTs'],
          case=packed_case),
    Lemma('5-bit alpha', build_5a5, from_5a5, case=lambda m: ('5a5', tuple(m.int(c) for c in 'rgba'))),
    Lemma('8-bit channels', build_255, from_255, case=lambda m: ('255', tuple(m.int(c) for c in 'rgba'))),
    Lemma('palettes', build_palette, palette, covers=['ndspy.color.loadPalette', 'ndspy.color.savePalette'],
          case=lambda m: ('pal', struct.pack(f"<{m.int('n')}H", *(m.fun('color', k) for k in range(m.int('n')))))),
]
