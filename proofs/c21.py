"""C21: 2D tiles and tilemaps."""
import ast
import struct

from vf.terms import *
from vf import builtin_ops as ops
from vf.interp import prove_equal
from vf.loops import Cut
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import graphics2D as g

IF, TF = g.ImageFormat, g.TilemapFormat
BOX = {}


# ------------------------------------------------------------ image tiles

def build_image(bits):
    def build(E):
        px = E.fun('pixel', 2, 0, (1 << bits) - 1)
        n = E.int('n', 0)
        tiles = E.list(n, lambda t: MList([El(SInt(px(I(t), I(j)))) for j in range(64)]))
        return bits, tiles
    return build


def image(bits, pixels):
    format = IF.I4 if bits == 4 else IF.I8
    tiles = []
    want = bytearray()
    for p in pixels:
        tiles.append(g.ImageTile.fromPixels(p, format))
        if bits == 8:
            want += bytes(p)
        else:
            for j in range(32):
                want.append(p[2 * j] + 16 * p[2 * j + 1])
    before = snapshot(tiles)
    data = g.saveImageTiles(tiles)
    same(data, want, 'bytes saved')
    same(tiles, before, 'tiles after save')
    back = g.loadImageTiles(data, format)
    prove(len(back) == len(pixels), 'number of tiles')
    for i, t in enumerate(back):
        same(t.pixels, pixels[i], 'pixels')
        prove(t.format == format, 'format')
    same(g.saveImageTiles(back), data, 'saved again')
    for i, t in enumerate(tiles):
        same(t.save(), data[i * bits * 8:(i + 1) * bits * 8], 'one tile')
    g.saveImageTilesToFile(tiles, 'file')
    with open('file', 'rb') as f:
        same(f.read(), data, 'file')
    same(g.loadImageTilesFromFile('file', format), back, 'from a file')
    same(g.ImageTile(None, format).pixels, [0] * 64, 'empty tile')
    if bits == 8:
        same(g.loadImageTiles(data), back, 'default format')
        same(g.loadImageTilesFromFile('file'), back, 'default format, file')


def build_raw(bits):
    def build(E):
        n = E.int('n', 0)
        return bits, n, E.bytes('data', mul(n, bits * 8), mul(n, bits * 8))
    return build


# ---------------------------------------------------------------- tilemaps

def build_map(E):
    n = E.int('n', 0)
    num, pal = E.fun('num', 1, 0, 0x3FF), E.fun('pal', 1, 0, 15)
    h, v = E.fun('h', 1, boolean=True), E.fun('v', 1, boolean=True)
    return E.list(n, lambda k: STuple([El(SInt(num(I(k)))), El(SBool(h(I(k)))), El(SBool(v(I(k)))), El(SInt(pal(I(k))))])),


def tilemap(params):
    tiles, tiles8 = [], []
    want, want8 = bytearray(), bytearray()
    for num, h, v, pal in params:
        tiles.append(g.TilemapTile.fromParameters(num, TF.I10H1V1P4, h, v, pal))
        tiles8.append(g.TilemapTile.fromParameters(num % 256, TF.I8))
        want += struct.pack('<H', num + (1024 if h else 0) + (2048 if v else 0) + 4096 * pal)
        want8.append(num % 256)
    before = snapshot(tiles)
    data = g.saveTilemapTiles(tiles)
    same(data, want, 'bytes saved')
    same(tiles, before, 'tiles after save')
    back = g.loadTilemapTiles(data, TF.I10H1V1P4)
    prove(len(back) == len(params), 'number of tiles')
    for i, t in enumerate(back):
        num, h, v, pal = params[i]
        prove(t.tileNum == num and t.hFlip == h and t.vFlip == v and t.paletteNum == pal, 'tile')
        prove(t.format == TF.I10H1V1P4, 'format')
    same(g.saveTilemapTiles(back), data, 'saved again')
    same(g.loadTilemapTiles(data), back, 'default format')
    g.saveTilemapTilesToFile(tiles, 'file')
    with open('file', 'rb') as f:
        same(f.read(), data, 'file')
    same(g.loadTilemapTilesFromFile('file', TF.I10H1V1P4), back, 'from a file')
    same(g.loadTilemapTilesFromFile('file'), back, 'from a file, default format')

    before = snapshot(tiles8)
    data = g.saveTilemapTiles(tiles8)
    same(data, want8, '8-bit tiles saved')
    same(tiles8, before, '8-bit tiles after save')
    back = g.loadTilemapTiles(data, TF.I8)
    prove(len(back) == len(params), 'number of 8-bit tiles')
    for i, t in enumerate(back):
        prove(t.tileNum == params[i][0] % 256, '8-bit tile')
        prove(not t.hFlip and not t.vFlip and t.paletteNum == 0 and t.format == TF.I8, '8-bit tile')
    same(g.saveTilemapTiles(back), data, '8-bit tiles saved again')
    g.saveTilemapTilesToFile(tiles8, 'file8')
    same(g.loadTilemapTilesFromFile('file8', TF.I8), back, '8-bit tiles from a file')


def build_value(E):
    return E.int('value', 0, 65535), E.int('value8', 0, 255)


def value(v, v8):
    t = g.TilemapTile(v)
    prove(t.tileNum == v % 1024 and t.paletteNum == v // 4096, 'number and palette')
    prove(t.hFlip == (v // 1024 % 2 == 1) and t.vFlip == (v // 2048 % 2 == 1), 'flips')
    prove(t.format == TF.I10H1V1P4 and t.value == v, 'value')
    prove(g.TilemapTile(v, TF.I10H1V1P4).value == v, 'value')
    t = g.TilemapTile(v8, TF.I8)
    prove(t.tileNum == v8 and t.value == v8 and t.format == TF.I8, '8-bit value')
    t.value = v8
    prove(t.tileNum == v8 and not t.hFlip and not t.vFlip and t.paletteNum == 0, '8-bit value')


# --------------------------------------------------------------- rendering

def color_list(E):
    n = E.int('colors', 0)
    r, gr, b, a = (E.fun(c, 1, 0, 31) for c in ('red', 'green', 'blue', 'alpha'))
    return E.list(n, lambda k: STuple([El(SInt(f(I(k)))) for f in (r, gr, b, a)])), n


def build_render(bits):
    def build(E):
        colors, n = color_list(E)
        pal = E.int('pal', 0)
        E.assume(I(n) >= (I(pal) + 1) * (1 << bits))
        px = E.fun('pixel', 1, 0, (1 << bits) - 1)
        return bits, [SInt(px(j)) for j in range(64)], colors, pal
    return build


def rendered(tile, colors, pal):
    """What a tile looks like"""
    out = []
    first = pal * (16 if tile.format == IF.I4 else 256)
    for p in tile.pixels:
        if p == 0:
            out.append((0, 0, 0, 0))
        else:
            out.append((colors[first + p][0], colors[first + p][1], colors[first + p][2], 1))
    return out


def render(bits, pixels, colors, pal):
    t = g.ImageTile.fromPixels(pixels, IF.I4 if bits == 4 else IF.I8)
    before = snapshot([t, colors])
    same(t.render(colors, pal), rendered(t, colors, pal), 'pixels')
    same([t, colors], before, 'tile and colors after rendering')
    if pal == 0:
        same(t.render(colors), rendered(t, colors, 0), 'default palette')


def contract_render(E, ip):
    """What an image tile looks like depends on the tile, the colors and the palette number"""
    R = [E.fun('pixel' + x, 3) for x in 'rgba']

    def handler(ip, fn, args, kw):
        tile, colors, pal = args
        E.prove(z3.BoolVal(colors is BOX['colors']), 'colors given')
        k = ip.getattr(tile, 'pixels')
        return MList([El(tuple(SInt(f(I(k), I(pal), I(j))) for f in R)) for j in range(64)])
    ip.contracts[g.ImageTile.render] = handler


def build_maptile(mapbits):
    def build(E):
        BOX['colors'] = Opq('colors', ())
        num, h, v, pal = E.int('num', 0, (1 << mapbits) - 1), E.bool('h'), E.bool('v'), E.int('pal', 0, 15)
        t = Obj(g.TilemapTile, {'tileNum': num, 'format': TF.I8 if mapbits == 8 else TF.I10H1V1P4, 'hFlip': h, 'vFlip': v,
                                'paletteNum': pal})
        return t, tile_list(E, g.ImageTile, E.int('n', 0), 'pixels'), BOX['colors'], E.int('offset', 0)
    return build


def tile_list(E, cls, n, key):
    """Different tiles"""
    return E.list(n, lambda k: Obj(cls, {key: SInt(k)}))


def flipped(t, tile, colors):
    """What a tilemap tile showing the image tile looks like"""
    if t.format == TF.I8:
        return tile.render(colors, 0)
    px = tile.render(colors, t.paletteNum)
    if t.hFlip:
        if t.vFlip:
            return [px[(7 - y) * 8 + (7 - x)] for y in range(8) for x in range(8)]
        return [px[y * 8 + (7 - x)] for y in range(8) for x in range(8)]
    if t.vFlip:
        return [px[(7 - y) * 8 + x] for y in range(8) for x in range(8)]
    return px


def maptile(t, tiles, colors, offset):
    if t.tileNum < offset:
        prove(outcome(t.render, tiles, colors, offset) == 'ValueError', 'tile number below the offset')
        return
    assume(t.tileNum - offset < len(tiles))
    tile = tiles[t.tileNum - offset]
    want = flipped(t, tile, colors)
    before = snapshot(t)
    same(t.render(tiles, colors, offset), want, 'pixels')
    same(t.renderSingle(tile, colors), want, 'pixels, tile given')
    same(t, before, 'tile after rendering')
    if offset == 0:
        same(t.render(tiles, colors), want, 'default offset')


# --------------------------------------------------------------- placement


class Placed(Cut):
    """
    Tiles drawn so far: about the pixel in column c of row r of the tile in
    column X of row Y of the image (given; any one)
    """
    def where(self, S):
        return mk(((BOX['Y'] * 8 + BOX['r']) * BOX['W'] + BOX['X']) * 8 + BOX['c'])

    def done(self, S, i):
        return BOX['T'] < I(i)

    def size(self, S):
        return mk(I(S.get('width')) * I(S.get('height')) * 64)

    def want(self):
        j = BOX['r'] * 8 + BOX['c']
        return tuple(SInt(f(BOX['T'], j)) for f in BOX['R'])

    def assume(self, S, g, i):
        E = S.E
        p, n = self.where(S), self.size(S)
        self.facts(S, i)
        E.prove(z3.And(I(p) >= 0, I(p) < I(n)), 'the pixel is within the image')
        before, after, here = (E.fun(E.fresh_name(x), 1) for x in ('before', 'after', 'here'))
        v = tuple(SInt(here(k)) for k in range(4))
        for a, b in zip(v, self.want()):
            E.assume(z3.Implies(self.done(S, i), I(a) == I(b)))
        segs = E.family(p, lambda k: SInt(before(k))) + (El(v),) + E.family(sub(sub(n, p), 1), lambda k: SInt(after(k)))
        S.put('img', MList(segs))

    def facts(self, S, i):
        E, W, H, Y = S.E, BOX['W'], I(S.get('height')), BOX['Y']
        E.products(0, Y, W)
        E.products(0, BOX['r'], W)
        E.products(BOX['r'], 7, W)
        E.products(H, Y, W)
        E.products(Y + 1, H, W)

    def check(self, S, g, i, when):
        E = S.E
        if E.skip:
            E.skipped = True
            return
        img = S.get('img')
        E.prove(z3.simplify(I(ropelen(img.segs)) == I(self.size(S))), f'invariant {when}: size of the image')
        if E.decide(self.done(S, i)):
            prove_equal(E, ops.getitem(S.ip, img, self.where(S)), self.want(), f'invariant {when}: pixel')


class PlacedRows(Placed):
    """The same while one tile is being drawn"""
    def done(self, S, y2):
        i = I(S.get('i'))
        return z3.Or(BOX['T'] < i, z3.And(BOX['T'] == i, BOX['r'] < I(y2)))

    def facts(self, S, y2):
        """A position determines row and column"""
        super().facts(S, y2)
        E, W, y = S.E, BOX['W'], I(S.get('y'))
        a, b = y * 8 + I(y2), BOX['Y'] * 8 + BOX['r']
        E.products(a + 1, b, W)
        E.products(b + 1, a, W)
        E.products(0, y, W)
        E.products(0, y2, W)
        E.products(y2, 7, W)
        E.products(I(S.get('height')), y, W)
        E.products(y + 1, I(S.get('height')), W)
        E.products(y + 1, BOX['Y'], W)
        E.products(BOX['Y'] + 1, y, W)


def build_place(E):
    n, W = E.int('n', 1), E.int('W', 1)
    BOX.update({k: I(E.int(k, 0)) for k in 'YX'}, r=I(E.int('r', 0, 7)), c=I(E.int('c', 0, 7)), W=I(W))
    BOX['T'] = T = BOX['Y'] * BOX['W'] + BOX['X']
    E.assume(BOX['X'] < BOX['W'])
    E.assume(T < I(n))
    BOX['R'] = [E.fun('pixel' + x, 2) for x in 'rgba']
    return n, W


def build_place_image(E):
    n, W = build_place(E)
    return tile_list(E, g.ImageTile, n, 'pixels'), Opq('colors', ()), E.int('pal', 0), W


def build_place_map(E):
    n, W = build_place(E)
    return tile_list(E, g.TilemapTile, n, 'tileNum'), Opq('tiles', ()), Opq('colors', ()), W, E.int('offset', 0)


def contracts_place(E, ip):
    """Rendering one tile gives 64 pixels that depend on nothing else"""
    def result(k):
        return E.list(64, lambda j: tuple(SInt(f(I(k), I(j))) for f in BOX['R']))

    def image(ip, fn, args, kw):
        tile, colors, pal = args
        E.prove(z3.And(BOX['colors'] is colors, I(pal) == I(BOX['pal'])), 'colors and palette number given')
        return result(ip.getattr(tile, 'pixels'))

    def tilemap(ip, fn, args, kw):
        tile, tiles, colors, offset = args
        E.prove(z3.And(BOX['colors'] is colors, BOX['tiles'] is tiles, I(offset) == I(BOX['offset'])), 'tiles, colors and offset given')
        return result(ip.getattr(tile, 'tileNum'))

    def remember(ip, fn, args, kw):
        BOX.update(colors=args[0], pal=args[1], tiles=args[2], offset=args[3])
        E.decide(I(ops.binop(ip, ast.Mod, args[4], SInt(BOX['W']))) == 0)

    def final(ip, fn, args, kw):
        img, n, W = args
        rows = I(ops.binop(ip, ast.FloorDiv, sub(add(n, W), 1), W))
        E.prove(I(ropelen(img.segs)) == rows * 64 * I(W), 'size of the image')
        p = Placed()
        prove_equal(E, ops.getitem(ip, img, p.where(None)), p.want(), 'pixel')
    ip.contracts.update({g.ImageTile.render: image, g.TilemapTile.render: tilemap, given: remember, at: final})
    for f in 'renderImageTiles', 'renderTilemapTiles':
        ip.cuts['ndspy.graphics2D.' + f, 0] = Placed()
        ip.cuts['ndspy.graphics2D.' + f, 1] = PlacedRows()


def given(colors, pal, tiles, offset, n):
    pass


def at(img, n, width):
    """The pixel in question is right"""


def place_image(tiles, colors, pal, W):
    given(colors, pal, None, 0, len(tiles))
    img = g.renderImageTiles(tiles, colors, pal, W)
    at(img, len(tiles), W)
    if pal == 0 and W == 32:
        at(g.renderImageTiles(tiles, colors), len(tiles), W)
    same(g.renderImageTiles([], colors, pal, W), [], 'no tiles')


def place_map(tilemap, tiles, colors, W, offset):
    given(colors, 0, tiles, offset, len(tilemap))
    img = g.renderTilemapTiles(tilemap, tiles, colors, W, offset)
    at(img, len(tilemap), W)
    if offset == 0:
        at(g.renderTilemapTiles(tilemap, tiles, colors, W), len(tilemap), W)
    same(g.renderTilemapTiles([], tiles, colors, W, offset), [], 'no tiles')


# ------------------------------------------------------------ single tiles

def build_at(E):
    f = E.fun('tile', 1)
    return E.list(E.int('n', 0), lambda k: SInt(f(k))), E.int('x'), E.int('y'), E.int('new'), E.int('W', 1)


def tile_at(tiles, x, y, new, W):
    k = y * W + x
    n = len(tiles)
    got = g.tileAt(tiles, x, y, width=W)
    if x < 0 or y < 0 or x >= W or k >= n:
        prove(got is None, 'no tile')
        before = snapshot(tiles)
        prove(g.putTile(tiles, x, y, new, width=W) is False, 'nothing placed')
        same(tiles, before, 'tiles unchanged')
        if W == 32:
            prove(g.tileAt(tiles, x, y) is None, 'no tile, default width')
            prove(g.putTile(tiles, x, y, new) is False, 'nothing placed, default width')
        return
    prove(k >= 0, 'index')
    prove(got == tiles[k], 'tile')
    want = tiles[:k] + [new] + tiles[k + 1:]
    default = tiles[:]
    prove(g.putTile(tiles, x, y, new, width=W) is True, 'placed')
    same(tiles, want, 'tiles')
    if W == 32:
        prove(g.tileAt(default, x, y) == got, 'tile, default width')
        prove(g.putTile(default, x, y, new) is True, 'placed, default width')
        same(default, want, 'tiles, default width')


P = 'ndspy.graphics2D.'

LEMMAS = [
    Lemma('image tiles, 4 bits', build_image(4), image, covers=[P + 'ImageTile.save', P + 'ImageTile.__init__', P + 'ImageTile.fromPixels',
          P + 'loadImageTiles', P + 'saveImageTiles', P + 'loadImageTilesFromFile', P + 'saveImageTilesToFile']),
    Lemma('image tiles, 8 bits', build_image(8), image, covers=[P + 'ImageTile.save', P + 'ImageTile.__init__', P + 'ImageTile.fromPixels',
          P + 'loadImageTiles', P + 'saveImageTiles', P + 'loadImageTilesFromFile', P + 'saveImageTilesToFile']),
    Lemma('tilemaps', build_map, tilemap, covers=[P + 'TilemapTile.fromParameters', P + 'loadTilemapTiles', P + 'saveTilemapTiles',
          P + 'loadTilemapTilesFromFile', P + 'saveTilemapTilesToFile']),
    Lemma('tilemap tile values', build_value, value, covers=[P + 'TilemapTile.__init__']),
    Lemma('a tile rendered, 4 bits', build_render(4), render, covers=[P + 'ImageTile.render']),
    Lemma('a tile rendered, 8 bits', build_render(8), render, covers=[P + 'ImageTile.render']),
] + [
    Lemma(f'a tilemap tile rendered, {m} bits', build_maptile(m), maptile, contracts=contract_render,
          covers=[P + 'TilemapTile.render', P + 'TilemapTile.renderSingle']) for m in (8, 10)
] + [
    Lemma('tiles placed', build_place_image, place_image, contracts=contracts_place, linear=True,
          covers=[P + 'renderImageTiles'] + [f'invariant of loop {i} of {P}renderImageTiles' for i in (0, 1)]),
    Lemma('tilemap placed', build_place_map, place_map, contracts=contracts_place, linear=True,
          covers=[P + 'renderTilemapTiles'] + [f'invariant of loop {i} of {P}renderTilemapTiles' for i in (0, 1)]),
    Lemma('single tiles', build_at, tile_at, covers=[P + 'tileAt', P + 'putTile']),
]
