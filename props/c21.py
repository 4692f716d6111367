"""C21: 2D tiles and tilemaps."""
import struct
from vf.gen import ri, rb
from .base import eq, ensure, raises

from ndspy import graphics2D as g

QUICK, THOROUGH = 1500, 15000
IF = {4: g.ImageFormat.I4, 8: g.ImageFormat.I8}
TF = {8: g.TilemapFormat.I8, 10: g.TilemapFormat.I10H1V1P4}
# case: ('img', bits, data) | ('pixels', bits, [pixel lists]) | ('map', bits, data) | ('params', [(num, h, v, pal)])
#     | ('rimg', bits, data, palette, palette number, width) | ('rmap', bits, data, map bits, map data, offset, width)
#     | ('at', n, width, x, y)


def pal(n, k=0):
    return [((i * 7 + k) & 31, (i * 13 >> 2) & 31, (i * 29 >> 3) & 31, i & 1) for i in range(n)]


def boundary():
    for bits in (4, 8):
        size = bits * 8
        for n in (0, 1, 2, 33):
            yield ('img', bits, bytes((i * 37 + (i >> 8)) & 255 for i in range(n * size)))
        yield ('img', bits, bytes(range(256)) * 2)
        yield ('pixels', bits, [[(i * 5 + k) & ((1 << bits) - 1) for i in range(64)] for k in range(5)])
        for n in (0, 1, 2, 3, 7, 32, 33):
            for w in (1, 2, 3, 32):
                yield ('rimg', bits, bytes((i * 41 + (i >> 6)) & 255 for i in range(n * size)), 3, w)
        for p in range(16):
            yield ('rimg', bits, bytes(range(256)), p, 2)
        for mb in (8, 10):
            for fl in range(4):
                yield ('rmap', bits, bytes((i * 41 + (i >> 6)) & 255 for i in range(4 * size)), mb,
                       bytes([5, 6, 7, 5, 8, 5, 6]) if mb == 8 else struct.pack('<7H', *[(5 + i % 4) | fl << 10 | i << 12 for i in range(7)]), 5, 3)
    yield ('map', 8, bytes(range(256)))
    for lo in range(0, 65536, 8192):
        yield ('map', 10, struct.pack('<8192H', *range(lo, lo + 8192)))
    yield ('map', 10, b'')
    yield ('map', 8, b'')
    yield ('params', [(n, h, v, p) for n in (0, 1, 0x1FF, 0x3FF) for h in (False, True) for v in (False, True) for p in (0, 7, 8, 15)])
    for w in (1, 3, 32):
        for n in (0, 1, 5, 64):
            for y in range(-2, 5):
                for x in (-1, 0, 1, 2, w - 1, w, w + 1):
                    yield ('at', n, w, x, y)
    yield ('at', 32 * 40, 32, 5, 35)


def gen(rng):
    k = rng.randrange(7)
    bits = rng.choice((4, 8))
    if k == 0:
        return ('img', bits, rb(rng, bits * 8 * rng.randint(0, 6)))
    if k == 1:
        return ('pixels', bits, [[ri(rng, 0, (1 << bits) - 1) for _ in range(64)] for _ in range(rng.randint(0, 3))])
    if k == 2:
        mb = rng.choice((8, 10))
        return ('map', mb, rb(rng, 2 * rng.randint(0, 40)))
    if k == 3:
        return ('params', [(ri(rng, 0, 0x3FF), rng.random() < .5, rng.random() < .5, rng.randrange(16)) for _ in range(rng.randint(0, 9))])
    if k == 4:
        return ('rimg', bits, rb(rng, bits * 8 * rng.randint(0, 6)), rng.randrange(4), rng.randint(1, 8))
    if k == 5:
        mb = rng.choice((8, 10))
        nt = rng.randint(1, 5)
        off = rng.choice((0, 0, 1, 7))
        vals = [off + rng.randrange(nt) | (0 if mb == 8 else rng.randrange(4) << 10 | rng.randrange(4) << 12) for _ in range(rng.randint(0, 9))]
        return ('rmap', bits, rb(rng, bits * 8 * nt), mb, bytes(vals) if mb == 8 else struct.pack(f'<{len(vals)}H', *vals), off, rng.randint(1, 6))
    return ('at', rng.randint(0, 70), rng.randint(1, 40), ri(rng, -3, 40), ri(rng, -3, 40))


def pixels(bits, data):
    """The tiles' pixels by the format's definition."""
    if bits == 8:
        px = list(data)
    else:
        px = [v for b in data for v in (b & 15, b >> 4)]
    return [px[i:i + 64] for i in range(0, len(px), 64)]


def expected(px, bits, palnum, colors):
    out = []
    for v in px:
        if v == 0:
            out.append((0, 0, 0, 0))
        else:
            r, gr, b, a = colors[palnum * (1 << bits) + v]
            out.append((r, gr, b, 1))
    return out


def place(tiles, width):
    """Tile pixel lists -> expected image, or None for cells without a tile."""
    h = -(-len(tiles) // width)
    img = [None] * (width * h * 64)
    for i, t in enumerate(tiles):
        ty, tx = divmod(i, width)
        for j, c in enumerate(t):
            y, x = divmod(j, 8)
            img[(ty * 8 + y) * width * 8 + tx * 8 + x] = c
    return img


def same_image(got, want):
    eq('image size', len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if b is not None and tuple(a) != b:
            eq(f'pixel {i}', tuple(a), b)


def check(case):
    k = case[0]
    if k == 'img':
        _, bits, data = case
        tiles = g.loadImageTiles(data, IF[bits])
        eq('pixels', [list(t.pixels) for t in tiles], pixels(bits, data))
        ensure(all(t.format == IF[bits] for t in tiles), 'format')
        eq('saved', g.saveImageTiles(tiles), data)
        for i, t in enumerate(tiles):
            eq('tile saved', t.save(), data[i * bits * 8:(i + 1) * bits * 8])
    elif k == 'pixels':
        _, bits, px = case
        tiles = [g.ImageTile.fromPixels(list(p), IF[bits]) for p in px]
        data = g.saveImageTiles(tiles)
        eq('tiles after save', [t.pixels for t in tiles], px)
        t2 = g.loadImageTiles(data, IF[bits])
        eq('reloaded', [(list(t.pixels), t.format) for t in t2], [(p, IF[bits]) for p in px])
    elif k == 'map':
        _, bits, data = case
        tiles = g.loadTilemapTiles(data, TF[bits])
        if bits == 8:
            want = [(v, False, False, 0) for v in data]
        else:
            want = [(v & 0x3FF, bool(v & 0x400), bool(v & 0x800), v >> 12) for v, in struct.iter_unpack('<H', data)]
        eq('tilemap', [(t.tileNum, bool(t.hFlip), bool(t.vFlip), t.paletteNum) for t in tiles], want)
        ensure(all(t.format == TF[bits] for t in tiles), 'format')
        eq('saved', g.saveTilemapTiles(tiles), data)
    elif k == 'params':
        tiles = [g.TilemapTile.fromParameters(n, TF[10], h, v, p) for n, h, v, p in case[1]]
        t2 = g.loadTilemapTiles(g.saveTilemapTiles(tiles), TF[10])
        eq('reloaded', [(t.tileNum, t.hFlip, t.vFlip, t.paletteNum) for t in t2], case[1])
        for (n, h, v, p), t in zip(case[1], tiles):
            u = g.TilemapTile(t.value, TF[10])
            eq('value', (u.tileNum, u.hFlip, u.vFlip, u.paletteNum), (n, h, v, p))
        t8 = [g.TilemapTile.fromParameters(n & 255, TF[8]) for n, h, v, p in case[1]]
        eq('reloaded 8-bit', [t.tileNum for t in g.loadTilemapTiles(g.saveTilemapTiles(t8), TF[8])], [n & 255 for n, _, _, _ in case[1]])
    elif k == 'rimg':
        _, bits, data, palnum, width = case
        tiles = g.loadImageTiles(data, IF[bits])
        colors = pal((palnum + 1) << bits)
        want = [expected(p, bits, palnum, colors) for p in pixels(bits, data)]
        for t, w in zip(tiles, want):
            eq('tile', [tuple(c) for c in t.render(colors, palnum)], w)
        same_image(g.renderImageTiles(tiles, colors, palnum, width), place(want, width))
        if palnum == 0 and len(tiles) <= 40:
            same_image(g.renderImageTiles(tiles, colors), place(want, 32))
    elif k == 'rmap':
        _, bits, data, mb, mdata, off, width = case
        tiles = g.loadImageTiles(data, IF[bits])
        tm = g.loadTilemapTiles(mdata, TF[mb])
        colors = pal(16 << bits)
        px = pixels(bits, data)
        want = []
        for v in (mdata if mb == 8 else [v for v, in struct.iter_unpack('<H', mdata)]):
            num, h, vf, p = (v, 0, 0, 0) if mb == 8 else (v & 0x3FF, v >> 10 & 1, v >> 11 & 1, v >> 12)
            c = expected(px[num - off], bits, p, colors)
            want.append([c[(7 - y if vf else y) * 8 + (7 - x if h else x)] for y in range(8) for x in range(8)])
        for t, w in zip(tm, want):
            eq('tilemap tile', [tuple(c) for c in t.render(tiles, colors, off)], w)
        same_image(g.renderTilemapTiles(tm, tiles, colors, width, off), place(want, width))
        if off and tm:
            tm[0].tileNum = off - 1
            raises(ValueError, 'tile number below the offset', tm[0].render, tiles, colors, off)
    else:
        _, n, w, x, y = case
        tiles = [('t', i) for i in range(n)]
        i = y * w + x
        ok = 0 <= x < w and y >= 0 and i < n
        eq('tileAt', g.tileAt(tiles, x, y, width=w), tiles[i] if ok else None)
        want = list(tiles)
        if ok:
            want[i] = 'new'
        eq('putTile', g.putTile(tiles, x, y, 'new', width=w), ok)
        eq('tiles after putTile', tiles, want)
