"""C22: NSBTX."""
import struct
from vf.gen import ri, rb, rname, build_bytes
from .base import eq, ensure

from ndspy import texture

QUICK, THOROUGH = 1500, 15000
BPP = [0, 8, 2, 4, 8, 2, 8, 16]
# case: (6 unknowns, [(name, unk00, unk02, params, unk04, seed)], [(name, unk00, unk02, unkHeader02, colors data)])


def size(params):
    w, h, f = 8 << (params >> 4 & 7), 8 << (params >> 7 & 7), params >> 10 & 7
    n = w * h * BPP[f] // 8
    return n, n // 2 if f == 5 else 0


def boundary():
    U = (0xFFFFFFFF, 1, 2, 3, 4, 0xFFFF)
    yield ((0,) * 6, [], [])
    yield (U, [], [])
    for f in range(8):
        for wh in (0, 1 << 4, 1 << 7, 3 << 4 | 2 << 7):
            yield (U, [('t', 1, 2, f << 10 | wh | 0xF, 3, 5)], [])
        yield (U, [('t%d' % i, 1, 0xFFFF, (f + i) % 8 << 10 | 0xE00F & (i * 0x4321), 0xFFFFFFFF, i) for i in range(9)], [('p', 1, 2, 3, bytes(range(32)))])
    for b in range(16):
        if b < 4 or b > 9:
            yield (U, [('t', 0, 0, 1 << b, 0, 1)], [])
    for n in (1, 2, 254, 255):
        yield (U, [('tex%d' % i, i, 2 * i, (i % 8) << 10 | (i * 0x2003 & 0xE00F), i, i) for i in range(n)],
               [('pal%d' % i, i, n - i, i * 3, bytes([i] * (8 * (i % 4 + 1)))) for i in range(n)])
    yield (U, [('', 1, 2, 0x400, 3, 4), ('x' * 16, 1, 2, 0x1400, 3, 4), ('\xff' * 15, 1, 2, 0x800, 3, 4), ('a\0b', 1, 2, 0x1400, 3, 4)],
           [('', 1, 2, 3, bytes(8)), ('y' * 16, 1, 2, 3, b'\xFF' * 16), ('\0z', 0xFFFF, 0, 0xFFFF, b'12345678')])
    yield (U, [('big', 1, 2, 7 << 10 | 4 << 4 | 7 << 7, 3, 4), ('next', 1, 2, 1 << 10, 0, 1)], [])          # 256 KiB
    yield (U, [('big', 1, 2, 5 << 10 | 7 << 4 | 6 << 7, 3, 4), ('next', 1, 2, 5 << 10, 0, 1), ('o', 1, 2, 1 << 10, 0, 1)], [])
    yield (U, [], [('p', 1, 2, 3, bytes(range(256)) * 2047), ('q', 1, 2, 3, b'abcdefgh')])
    yield (U, [], [('p', 1, 2, 3, b'abcdefgh'), ('q', 1, 2, 3, b'abcdefgh'), ('r', 1, 2, 3, b'abcdefgh' * 4)])


def gen(rng):
    def name():
        while True:
            n = rname(rng, 0, 16, bad='')
            if not n.endswith('\0'):
                return n
    tex = []
    total = [0, 0]
    for _ in range(rng.choice((0, 1, 2, 3, 5, 9))):
        p = rng.randrange(65536)
        if rng.random() < 0.8:
            p &= ~0x3F0 | (rng.randrange(3) << 4 | rng.randrange(3) << 7)
        if rng.random() < 0.3:
            p = p & ~0x1C00 | 5 << 10
        n = size(p)[0]
        k = (p >> 10 & 7) == 5
        if total[k] + n > 0x7FFF8:
            continue
        total[k] += n
        tex.append((name(), ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), p, ri(rng, 0, 0xFFFFFFFF), rng.randrange(1 << 30)))
    pal, seen = [], set()
    for _ in range(rng.choice((0, 1, 2, 3, 5, 9))):
        n = name()
        if n in seen:
            continue
        seen.add(n)
        pal.append((n, ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), rb(rng, 8 * rng.choice((1, 2, 4, 64)))))
    return (tuple(ri(rng, 0, 0xFFFFFFFF) for _ in range(5)) + (ri(rng, 0, 0xFFFF),), tex, pal)


def make(case):
    tx, pl = [], []
    for n, u0, u2, p, u4, seed in case[1]:
        n1, n2 = size(p)
        d = build_bytes([('rand', seed, n1 + n2)])
        tx.append((n, texture.Texture(u0, u2, p, u4, d[:n1], d[n1:])))
    for n, u0, u2, uh, d in case[2]:
        pl.append((n, texture.Palette(u0, u2, uh, d)))
    return texture.NSBTX.fromTexturesAndPalettes(*case[0], tx, pl)


def dump(o):
    return (tuple(getattr(o, a) for a in ('unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32')),
            [(n, t.unk00, t.unk02, bool(t.repeatS), bool(t.repeatT), bool(t.mirrorS), bool(t.mirrorT), t.width, t.height, int(t.format),
              bool(t.isColor0Transparent), int(t.coordsTransformationMode), t.unk04, bytes(t.data1), bytes(t.data2)) for n, t in o.textures],
            [(n, p.unk00, p.unk02, p.unkHeader02, [tuple(c) for c in p.colors]) for n, p in o.palettes])


def check(case):
    o = make(case)
    want = dump(o)
    eq('palettes', want[2], [(n, a, b, c, [(v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15) for v, in struct.iter_unpack('<H', d)]) for n, a, b, c, d in case[2]])
    for (n, u0, u2, p, u4, seed), (_, t) in zip(case[1], o.textures):
        eq('parameters', t.save()[:4], (u0, u2, p, u4))
        eq('flags', (bool(t.repeatS), bool(t.repeatT), bool(t.mirrorS), bool(t.mirrorT), t.width, t.height, int(t.format), bool(t.isColor0Transparent), int(t.coordsTransformationMode)),
           (bool(p & 1), bool(p & 2), bool(p & 4), bool(p & 8), 8 << (p >> 4 & 7), 8 << (p >> 7 & 7), p >> 10 & 7, bool(p & 0x2000), p >> 14))
        u = texture.Texture.fromFlags(t.unk00, t.unk02, t.repeatS, t.repeatT, t.mirrorS, t.mirrorT, t.width, t.height, t.format, t.isColor0Transparent,
                                      t.coordsTransformationMode, t.unk04, t.data1, t.data2)
        eq('fromFlags', u.save(), t.save())
        eq('expected data sizes', (t.width * t.height * t.format.bitsPerPixel1() // 8, t.width * t.height * t.format.bitsPerPixel2() // 8), size(p))
    data = o.save()
    eq('content after save', dump(o), want)
    eq('header', struct.unpack_from('<4sHHIHH', data), (b'BTX0', 0xFEFF, 1, len(data), 16, 1))
    got = dump(texture.NSBTX(data))
    for a, b, w in zip(got, want, ('unknown values', 'textures', 'palettes')):
        eq(w, a, b)
