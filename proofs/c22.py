"""C22: NSBTX texture files."""
import struct

import z3

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import texture

F = texture.TextureFormat
MODE = texture.TextureCoordinatesTransformationMode
BPP = [0, 8, 2, 4, 8, 2, 8, 16]
M16, M32 = 0xFFFF, 0xFFFFFFFF
FLAGS = ('repeatS', 'repeatT', 'mirrorS', 'mirrorT', 'isColor0Transparent')
FIELDS = ('repeatS', 'repeatT', 'mirrorS', 'mirrorT', 'width', 'height', 'format', 'isColor0Transparent', 'coordsTransformationMode')


# ------------------------------------------------- texture parameters
#
# save and __init__ of a texture are inverse to each other as far as the
# parameter word is concerned; the other values are passed through.

def build_params(E):
    flags = [E.int(x, 0, 1) for x in FLAGS]
    w, h = (E.concretize(E.int(x, 0, 7), 0, 7) for x in ('w', 'h'))
    fmt, mode = E.int('format', 0, 7), E.int('mode', 0, 3)
    p = add(*[mul(x, 1 << i) for i, x in enumerate(flags[:4])], w * 16 + h * 128, mul(fmt, 1024), mul(flags[4], 8192), mul(mode, 16384))
    return p, tuple(flags), 8 << w, 8 << h, fmt, mode, tuple(E.int(x, 0, M16) for x in ('unk00', 'unk02')) + (E.int('unk04', 0, M32), E.bytes('data1'), E.bytes('data2'))


def params(params, flags, w, h, fmt, mode, values):
    unk00, unk02, unk04, data1, data2 = values
    t = texture.Texture(unk00, unk02, params, unk04, data1, data2)
    a, b, c, d, e = flags
    prove(t.repeatS == (a == 1) and t.repeatT == (b == 1) and t.mirrorS == (c == 1) and t.mirrorT == (d == 1), 'flags')
    prove(t.width == w and t.height == h, 'size')
    prove(t.format == fmt and t.isColor0Transparent == (e == 1), 'format')
    prove(t.coordsTransformationMode == mode, 'mode')
    prove(t.unk00 == unk00 and t.unk02 == unk02 and t.unk04 == unk04, 'unknown values')
    same((t.data1, t.data2), (data1, data2), 'data')
    before = snapshot(t)
    same(t.save(), (unk00, unk02, params, unk04, data1, data2), 'saved values')
    same(t, before, 'texture after save')
    u = texture.Texture.fromFlags(unk00, unk02, t.repeatS, t.repeatT, t.mirrorS, t.mirrorT, t.width, t.height, t.format,
                                  t.isColor0Transparent, t.coordsTransformationMode, unk04, data1, data2)
    same(u, before, 'texture of the given values')
    prove(t.format.bitsPerPixel1() == [0, 8, 2, 4, 8, 2, 8, 16][int(t.format)], 'bits per pixel')
    prove(t.format.bitsPerPixel2() == (1 if t.format == 5 else 0), 'bits per pixel of the second region')
    t.size = t.height, t.width
    prove(t.width == u.height and t.height == u.width and t.size == (t.width, t.height), 'size')


# ------------------------------------------------------------- files

def contracts(E, ip):
    """What the lemma about texture parameters proves"""
    P = E.fun('params', 9, 0, M16)

    def save(ip, fn, args, kw):
        d = args[0].d
        v = {x: ip.res(d[x]) for x in FIELDS}
        for x in ('width', 'height'):
            E.prove(z3.Or([I(v[x]) == 8 << i for i in range(8)]), f'{x} of a texture')
        E.prove(z3.And(I(v['format']) >= 0, I(v['format']) < 8, I(v['coordsTransformationMode']) >= 0,
                       I(v['coordsTransformationMode']) < 4), 'format of a texture')
        p = SInt(P(*[I(mk(I(v[x]))) for x in FIELDS]))
        return d['unk00'], d['unk02'], p, d['unk04'], d['data1'], d['data2']

    def init(ip, fn, args, kw):
        self, unk00, unk02, p, unk04, data1, data2 = args
        t = z3.simplify(I(p))
        if t.decl().name() != 'params':
            raise Unsupported('parameters that are not known to be those of a texture')
        vals = dict(zip(FIELDS, t.children()))
        for x in FIELDS:
            v = vals[x]
            v = mkb(v == 1) if x in FLAGS else senum(F if x == 'format' else MODE, v) if x in (
                'format', 'coordsTransformationMode') else mk(v)
            E.set(self.d, x, v)
        for x, v in zip(('unk00', 'unk02', 'unk04', 'data1', 'data2'), (unk00, unk02, unk04, data1, data2)):
            E.set(self.d, x, v)
    ip.contracts.update({texture.Texture.save: save, texture.Texture.__init__: init})


def name(E, what):
    """A name of up to 16 characters not ending in NUL"""
    n = E.fun(f'len_{what}', 1, 0, 16)
    src = E.source(what, 1, length=n, gen=lambda k, j: [z3.Implies(j == n(k) - 1, src.byte(k, j) != 0)])
    return src


def build(E):
    n, m = E.int('textures', 0, 255), E.int('palettes', 0, 255)
    ints = {x: E.fun(x, 1, 0, hi) for x, hi in (
        ('unk00', M16), ('unk02', M16), ('unk04', M32), ('format', 7), ('mode', 3))}
    size = {x: E.fun(x, 1, gen=lambda k, x=x: [z3.Or([size[x](k) == 8 << i for i in range(8)])]) for x in ('width', 'height')}
    bools = {x: E.fun(x, 1, boolean=True) for x in FLAGS}

    def bpp(k):
        f = ints['format'](k)
        t = z3.IntVal(BPP[7])
        for i in range(7):
            t = z3.If(f == i, z3.IntVal(BPP[i]), t)
        return t
    # the data of a texture has as many bits as its size and format say
    words = E.fun('words', 1, 0, gen=lambda k: [words(k) * 64 == size['width'](k) * size['height'](k) * bpp(k)])
    d1 = E.source('data1', 1, length=lambda k: 8 * words(k))
    d2 = E.source('data2', 1, length=lambda k: z3.If(z3.IntVal(5) == ints['format'](k), 4 * words(k), 0))
    names = name(E, 'name')

    def tex(k):
        f = {x: SInt(ints[x](k)) for x in ('unk00', 'unk02', 'unk04')}
        f.update({x: SBool(bools[x](k)) for x in FLAGS})
        f.update({x: SInt(size[x](k)) for x in size})
        f['format'] = SEnum(ints['format'](k), F)
        f['coordsTransformationMode'] = SEnum(ints['mode'](k), MODE)
        f['data1'], f['data2'] = SBytes(E.whole(d1, k)), SBytes(E.whole(d2, k))
        return SStr(E.whole(names, k)), Obj(texture.Texture, f)

    pints = {x: E.fun('p' + x, 1, 0, M16) for x in ('unk00', 'unk02', 'unkHeader02')}
    count = E.fun('colors', 1, 1)
    color = [E.fun('color' + x, 2, 0, hi) for x, hi in (('r', 31), ('g', 31), ('b', 31), ('a', 1))]
    pnames = name(E, 'pname')
    E.all_different(pnames, m)

    def pal(k):
        f = {x: SInt(pints[x](k)) for x in pints}
        f['colors'] = E.list(mk(4 * count(k)), lambda j: tuple(SInt(c(k, j)) for c in color))
        return SStr(E.whole(pnames, k)), Obj(texture.Palette, f)

    unk = tuple(E.int(x, 0, M32) for x in ('u08', 'u10', 'u18', 'u20', 'u2C')) + (E.int('u32', 0, M16),)
    return unk, E.list(n, tex), E.list(m, pal)


def roundtrip(unk, textures, palettes):
    o = texture.NSBTX.fromTexturesAndPalettes(*unk, textures, palettes)
    prove((o.unk08, o.unk10, o.unk18, o.unk20, o.unk2C, o.unk32) == unk, 'given values')
    same((o.textures, o.palettes), (textures, palettes), 'given textures and palettes')
    before = snapshot(o)
    plain, texeled = bytearray(), bytearray()
    colors = 0
    for _, t in textures:
        if t.format == F.TEXELED:
            texeled.extend(t.data1)
        else:
            plain.extend(t.data1)
    for _, p in palettes:
        colors += len(p.colors)
    assume(len(plain) <= 0x7FFF8 and len(texeled) <= 0x7FFF8 and colors <= 0x3FFFC)
    out = o.save()
    same(o, before, 'content after save')
    magic, bom, version, size, hsize, blocks = struct.unpack_from('<4sHHIHH', out)
    prove(magic == b'BTX0' and bom == 0xFEFF and version == 1 and size == len(out) and hsize == 16 and blocks == 1, 'header')
    b = texture.NSBTX(out)
    same(b, before, 'loaded')
    same(o.save(), out, 'second save')


LEMMAS = [
    Lemma('texture parameters', build_params, params, covers=['ndspy.texture.Texture.' + x for x in (
        '__init__', 'save', 'fromFlags')] + ['ndspy.texture.TextureFormat.bitsPerPixel1', 'ndspy.texture.TextureFormat.bitsPerPixel2']),
    Lemma('file round trip', build, roundtrip, contracts=contracts, covers=[
        'ndspy.texture.NSBTX.save', 'ndspy.texture._saveTEX0', 'ndspy.texture._readTEX0', 'ndspy.texture.NSBTX._initFromData',
        'ndspy.texture.NSBTX.fromTexturesAndPalettes', 'ndspy.texture.Palette.__init__', 'ndspy.texture.Palette.save',
        'ndspy._common.loadInfoBlock', 'ndspy._common.saveInfoBlock', 'ndspy.color.loadPalette', 'ndspy.color.savePalette']),
]
