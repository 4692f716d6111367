"""C24: saving is repeatable and leaves the object as it was."""
from vf.terms import *
from vf.interp import prove_equal
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import c04, c06, c07, c10, c11, c13, c14, c15, c16, c17, c18, c19, c21, c22, romlib

from ndspy import _common, bmg, bnbl, bncl, code, color, fnt, graphics2D, narc, soundArchive, soundBank, soundSequence, soundSequenceArchive
from ndspy import soundStream, soundWave, soundWaveArchive, texture


def twice(o, most=0xFFFFFFFF):
    """What saving gives"""
    before = snapshot(o)
    data = o.save()
    assume(len(data if isinstance(data, (bytes, bytearray)) else data[0]) <= most)
    same(o, before, 'object after save')
    same(o.save(), data, 'second save')
    same(o, before, 'object after the second save')
    return data


def tables(root, want):
    same(fnt.save(root), want, 'first save')
    same(fnt.save(root), want, 'second save')


def archive(files, names, end):
    a = narc.NARC.fromFilesAndNames(files, names)
    a.endiannessOfBeginning = end
    data = twice(a)
    same(twice(narc.NARC(data)), data, 'loaded and saved')


def again():
    """For the contract of crc16"""


def checksums(E, ip):
    """crc16 gives equal values for equal data"""
    romlib.contracts(E, ip)
    first = ip.contracts[_common.crc16]

    def crc(ip, fn, args, kw):
        if not E.saved:
            return first(ip, fn, args, kw)
        data, v = E.saved.pop(0)
        prove_equal(E, args[0], data, 'data of a checksum')
        return v

    def repeat(ip, fn, args, kw):
        E.saved = list(E.X.crcs)
    ip.contracts[_common.crc16] = crc
    ip.contracts[again] = repeat


def rom(**kw):
    def build(E):
        E.saved = []
        return c07.build(**kw)(E)
    return build


def image(r):
    before = snapshot(r)
    data = r.save()
    same(r, before, 'ROM after save')
    again()
    same(r.save(), data, 'second save')
    same(r, before, 'ROM after the second save')


def messages(se, enc, msgs, insts, labels, scripts, ident, unk):
    b = bmg.BMG.fromMessages(msgs, insts, labels, scripts, id=ident)
    b.endianness = se
    b.encoding = enc
    b.unk14, b.unk18, b.unk1C = unk
    twice(b, 0xFFFFFFDF)


def events(events, notable):
    length = 0
    for e in events:
        length += e.dataLength
    assume(length < 1 << 24)
    before = list(events), list(notable)
    saved = soundSequence.saveSequenceEvents(events, notable)
    same((events, notable), before, 'events after save')
    same(soundSequence.saveSequenceEvents(events, notable), saved, 'second save')
    same((events, notable), before, 'events after the second save')


def sequence(events, data, meta, other):
    s = soundSequence.SSEQ.fromEvents(events, *meta)
    saved = twice(s)
    t = soundSequence.SSEQ(*saved)
    same(twice(t), saved, 'loaded and saved')
    t.parse()
    same(twice(t), saved, 'parsed and saved')


def sequences(data, seqs, unk02, other):
    a = soundSequenceArchive.SSAR(unk02=unk02)
    a.parsed = False
    a._eventsData = data
    a.sequences = seqs
    saved = twice(a)
    same(twice(soundSequenceArchive.SSAR(saved[0], unk02, saved[2])), saved, 'loaded and saved')


def parsed(events, data, shape, unk02):
    seqs = [(name, soundSequenceArchive.SSARSequence(first, *f)) for name, first, f in shape]
    a = soundSequenceArchive.SSAR.fromEventsAndSequences(events, seqs, unk02)
    saved = twice(a)
    t = soundSequenceArchive.SSAR(*saved)
    same(twice(t), saved, 'loaded and saved')
    t.parse()
    same(twice(t), saved, 'parsed and saved')


def bank(instruments, unk, archives):
    b = soundBank.SBNK.fromInstruments(instruments, unk, archives)
    saved = twice(b)
    same(twice(soundBank.SBNK(bytes(saved[0]), saved[1], saved[2])), saved, 'loaded and saved')


def wave(w, tail):
    data = twice(w)
    same(twice(soundWave.SWAV(data)), data, 'loaded and saved')


def waves(waves, unk, tail):
    a = soundWaveArchive.SWAR.fromWaves(waves, unk)
    saved = twice(a)
    # so saving it again gives the same
    same(soundWaveArchive.SWAR(*saved), a, 'loaded')


def stream(channels, fields, meta, n, size, last):
    s = c17.stream(channels, fields, meta)
    if n == 0:
        assume(s.samplesPerBlock <= s.samplesInLastBlock)
    samples = (n - 1) * s.samplesPerBlock + s.samplesInLastBlock
    assume(samples <= c17.M32 and n <= c17.M32 and size <= c17.M32 and last <= c17.M32)
    saved = twice(s)
    same(twice(soundStream.STRM(*saved)), saved, 'loaded and saved')


def sounds(lists, opts):
    a = soundArchive.SDAT()
    groups = [(n, c18.group(g)) for n, g in lists[5]]
    a.sequences, a.sequenceArchives, a.banks, a.waveArchives = lists[:4]
    a.sequencePlayers, a.streamPlayers, a.streams = lists[4], lists[6], lists[7]
    a.groups = groups
    a.fatLengthsIncludePadding, a.firstFileAlignment, a.fileAlignment, a.padAtEnd, a.padSymbSizeTo4InSDATHeader = opts
    twice(a)


def areas(entries, unk):
    data = twice(bnbl.BNBL.fromTouchAreas(entries, unk))
    same(twice(bnbl.BNBL(data)), data, 'loaded and saved')


def positions(entries, unk):
    data = twice(bncl.BNCL.fromImagePositions(entries, unk))
    same(twice(bncl.BNCL(data)), data, 'loaded and saved')


def tiles(bits, pixels):
    format = c21.IF.I4 if bits == 4 else c21.IF.I8
    tiles = [graphics2D.ImageTile.fromPixels(p, format) for p in pixels]
    before = snapshot(tiles)
    data = graphics2D.saveImageTiles(tiles)
    same(tiles, before, 'tiles after save')
    same(graphics2D.saveImageTiles(tiles), data, 'second save')
    same(tiles, before, 'tiles after the second save')
    same(graphics2D.saveImageTiles(graphics2D.loadImageTiles(data, format)), data, 'loaded and saved')


def tilemap(params):
    tiles = [graphics2D.TilemapTile.fromParameters(num, c21.TF.I10H1V1P4, h, v, pal) for num, h, v, pal in params]
    before = snapshot(tiles)
    data = graphics2D.saveTilemapTiles(tiles)
    same(tiles, before, 'tiles after save')
    same(graphics2D.saveTilemapTiles(tiles), data, 'second save')
    same(tiles, before, 'tiles after the second save')
    same(graphics2D.saveTilemapTiles(graphics2D.loadTilemapTiles(data, c21.TF.I10H1V1P4)), data, 'loaded and saved')


def textures(unk, textures, palettes):
    plain, texeled = bytearray(), bytearray()
    colors = 0
    for _, t in textures:
        if t.format == c22.F.TEXELED:
            texeled.extend(t.data1)
        else:
            plain.extend(t.data1)
    for _, p in palettes:
        colors += len(p.colors)
    assume(len(plain) <= 0x7FFF8 and len(texeled) <= 0x7FFF8 and colors <= 0x3FFFC)
    o = texture.NSBTX.fromTexturesAndPalettes(*unk, textures, palettes)
    data = twice(o)
    # so saving it again gives the same
    same(texture.NSBTX(data), o, 'loaded')


# ------------------------------------------------------------------ files

CLASSES = [  # class, whether save gives further values, options of saveToFile, extra arguments of fromFile
    (narc.NARC, False, (), 0), (bmg.BMG, False, (), 0), (bnbl.BNBL, False, (), 0), (bncl.BNCL, False, (), 0),
    (code.MainCodeFile, False, ('compress',), 1), (soundArchive.SDAT, False, (), 0),
    (soundBank.SBNK, True, (), 2), (soundSequence.SSEQ, True, (), 3), (soundSequenceArchive.SSAR, True, (), 1),
    (soundStream.STRM, True, ('updateTime',), 2), (soundWave.SWAV, False, ('updateTime', 'updateTotalLength'), 0),
    (soundWaveArchive.SWAR, True, (), 1),
]


def build_file(cls, more, options, extra):
    def build(E):
        image = E.bytes('image')
        E.saved = (image, E.int('a'), E.int('b')) if more else image
        E.options = {}
        return (Obj(cls, {}), cls, image, tuple(options), tuple(E.int(f'extra{i}') for i in range(extra)),
                tuple(E.decide(E.bool(o)) for o in options))
    return build


def contracts_file(cls):
    def contracts(E, ip):
        """What save gives, and what the constructor is given: decided by the other lemmas and properties"""
        def save(ip, fn, args, kw):
            E.options = dict(kw)
            return E.saved

        def init(ip, fn, args, kw):
            ip.setattr(args[0], 'given', tuple(args[1:]))
        ip.contracts[cls.save] = save
        ip.contracts[cls.__init__] = init
        ip.contracts[option] = lambda ip, fn, args, kw: E.options.get(args[0], False)
    return contracts


def option(name):
    """What the last save was told (for the contracts)"""


def in_file(o, cls, image, options, extra, values):
    o.saveToFile('file')
    same(cls.fromFile('file', *extra).given, (image,) + extra, 'file')
    for k in options:
        prove(not option(k), 'option by default')
    if len(options) == 1:
        o.saveToFile('file', **{options[0]: values[0]})
    elif len(options) == 2:
        o.saveToFile('file', **{options[0]: values[0], options[1]: values[1]})
    for k, v in zip(options, values):
        prove(option(k) == v, 'option')
    same(cls.fromFile('file', *extra).given, (image,) + extra, 'file with options')


def build_tiles_file(E):
    E.image = E.bytes('image')
    return E.image,


FUNCTIONS = {
    'color': (color.savePalette, color.loadPalette),
    'image': (graphics2D.saveImageTiles, graphics2D.loadImageTiles),
    'tilemap': (graphics2D.saveTilemapTiles, graphics2D.loadTilemapTiles),
}


def contracts_functions(E, ip):
    for k, (save, load) in FUNCTIONS.items():
        ip.contracts[save] = lambda ip, fn, args, kw, k=k: SBytes(list(E.image.segs)) if args == [k] else None
        ip.contracts[load] = lambda ip, fn, args, kw, k=k: tuple([k] + args + list(kw.values()))


def functions_file(image):
    color.savePaletteToFile('color', 'a')
    same(color.loadPaletteFromFile('a'), ('color', image), 'palette')
    graphics2D.saveImageTilesToFile('image', 'b')
    same(graphics2D.loadImageTilesFromFile('b'), ('image', image, graphics2D.ImageFormat.I8), 'image tiles')
    same(graphics2D.loadImageTilesFromFile('b', graphics2D.ImageFormat.I4), ('image', image, graphics2D.ImageFormat.I4), 'image tiles of 4 bits')
    graphics2D.saveTilemapTilesToFile('tilemap', 'c')
    same(graphics2D.loadTilemapTilesFromFile('c', graphics2D.TilemapFormat.I8), ('tilemap', image, graphics2D.TilemapFormat.I8), 'tilemap')


LEMMAS = [
    Lemma('fnt', c04.build, tables, c04.contracts, covers=['ndspy.fnt.save']),
    Lemma('NARC', c06.build, archive, c06.contracts, covers=['ndspy.narc.NARC.save']),
    Lemma('ROM', rom(tables=(True, True), banner='other', debug=True), image, checksums, covers=[romlib.SAVE]),
    Lemma('ROM without overlays', rom(), image, checksums, covers=[romlib.SAVE]),
] + [
    Lemma(f'code, {kind}', c10.build(kind), c10.roundtrip, c10.contracts, covers=[c10.M + 'save']) for kind in ('search', 'pointer before', 'pointer behind')
] + [
    Lemma('code without settings', c10.build_none, c10.none, c10.contracts_none, covers=[c10.M + 'save']),
] + [
    Lemma(f'BMG, {enc}, {name or "messages"}', c11.build('<', enc, *c11.SECTIONS[name]), messages, c11.contracts(True), linear=True, covers=['ndspy.bmg.BMG.save'])
    for enc in ('cp1252', 'utf-16', 'shift-jis', 'utf-8') for name in ('', 'odd flow, scripts')
] + [
    Lemma('events', c13.build_any, events, covers=[c13.N + 'saveSequenceEvents']),
    Lemma('SSEQ', c14.build_sseq, sequence, c14.contracts, covers=[c14.S + 'save']),
    Lemma('SSAR, not parsed', c14.build_ssar, sequences, covers=[c14.A + 'save']),
] + [
    Lemma(f'SSAR, parsed, sequences with events: {x}', c14.build_parsed(x), parsed, c14.contracts, covers=[c14.A + 'save']) for x in c14.shapes(2)
] + [
    Lemma(f'SBNK {x!r}', c15.build_bank(x), bank, covers=[c15.M + 'SBNK.save']) for x in ('', '-', 's', 'R', 'G', 'sr', 'gR', 'rs-')
] + [
    Lemma('SWAV', c16.build_wave, wave, covers=[c16.SW + 'save']),
    Lemma('SWAR', c16.build_archive, waves, covers=[c16.SA + 'save']),
] + [
    Lemma(f'STRM, {c} channels, {b if b < 2 else "more"} blocks', c17.build(c, b), stream, covers=[c17.ST + 'save'])
    for c, b in ((0, 0), (1, 0), (1, 1), (1, 2), (2, 2))
] + [
    Lemma(f'SDAT, {name}', c18.build(x, o), sounds, c18.contracts, covers=[c18.S + 'save'])
    for name, x, o in (('all lists', c18.FULL, c18.DEFAULT), ('no names', c18.NONAMES, c18.WIDE), ('some names', c18.SPARSE, c18.OPTIONS[-1]))
] + [
    Lemma('BNBL', c19.build_bnbl, areas, covers=['ndspy.bnbl.BNBL.save']),
    Lemma('BNCL', c19.build_bncl, positions, covers=['ndspy.bncl.BNCL.save']),
    Lemma('image tiles, 4 bits', c21.build_image(4), tiles, covers=[c21.P + 'saveImageTiles']),
    Lemma('image tiles, 8 bits', c21.build_image(8), tiles, covers=[c21.P + 'saveImageTiles']),
    Lemma('tilemap tiles', c21.build_map, tilemap, covers=[c21.P + 'saveTilemapTiles']),
    Lemma('NSBTX', c22.build, textures, c22.contracts, covers=['ndspy.texture.NSBTX.save']),
] + [
    Lemma(f'file of {x[0].__name__}', build_file(*x), in_file, contracts_file(x[0]),
          covers=[f'{x[0].__module__}.{x[0].__name__}.{f}' for f in ('saveToFile', 'fromFile')]) for x in CLASSES
] + [
    Lemma('files of palettes and tiles', build_tiles_file, functions_file, contracts_functions,
          covers=['ndspy.color.savePaletteToFile', c21.P + 'saveImageTilesToFile', c21.P + 'saveTilemapTilesToFile']),
]
LEVEL = 'other'
BOUNDED = ['whole banks, parsed sequence archives, sound archives and streams: the small shapes listed as lemmas, with arbitrary contents; '
           'the other formats: any number and size of parts',
           'saving a loaded ROM or sound archive: concrete inputs only']
TRUSTED = [f'{name}: {t}' for name, m in (('C06', c06), ('C10', c10), ('C11', c11), ('C13', c13), ('C14', c14), ('C18', c18))
           for t in getattr(m, 'TRUSTED', [])]
TRUSTED += ['saving depends on the contents of an object only: for wave archives and textures the loaded object is shown to be equal to the saved one']
ASSUMPTIONS = ['the domains of the properties of the formats']
