"""C24: saving is repeatable and leaves the object as it was."""
import itertools
import os
import tempfile
from vf.gen import build_bytes
from .base import eq, ensure
from . import c04, c06, c07, c10, c11, c13, c14, c15, c16, c17, c18, c19, c21, c22
from ndspy import (fnt, narc, rom, bmg, soundArchive, soundBank, soundSequence, soundSequenceArchive, soundWave, soundWaveArchive, soundStream,
                   bnbl, bncl, texture, graphics2D)

QUICK, THOROUGH = 2500, 25000
# case: (kind, case of the kind's own property)


def plain(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, (tuple, list)):
        return tuple(plain(i) for i in x)
    return x


class Kind:
    """make(case) or None outside the domain; dump; save; load(saved)."""
    def __init__(self, src, make, dump, save=lambda o: o.save(), load=None, ok=lambda c: True, bytes_stable=True):
        self.src, self.make, self.dump, self.save, self.load, self.ok, self.bytes_stable = src, make, dump, save, load, ok, bytes_stable


def unpacked(cls):
    return lambda s: cls(bytes(s[0]), *s[1:])


def c10_make(c):
    return c10.make(c)[0]


KINDS = {
    'fnt': Kind(c04, lambda c: c04.build(c04.norm(c[0])), c04.dump, fnt.save, lambda s: fnt.load(bytes(s))),
    'narc': Kind(c06, c06.make, c06.dump, load=lambda s: narc.NARC(bytes(s))),
    'rom': Kind(c07, c07.make, c07.dump, load=lambda s: rom.NintendoDSRom(bytes(s)), ok=c07.precond),
    'code': Kind(c10, c10_make, c10.dump, lambda o: o.save(compress=False)),
    'bmg': Kind(c11, c11.make, c11.dump, load=lambda s: bmg.BMG(bytes(s))),
    'events': Kind(c13, lambda c: c13.make(c[0]), c13.dump, lambda e: soundSequence.saveSequenceEvents(e, [])[0]),
    'seq': Kind(c14, c14.make, c14.dump, load=lambda s: (soundSequence.SSEQ if len(s) == 7 else soundSequenceArchive.SSAR)(bytes(s[0]), *s[1:])),
    'sbnk': Kind(c15, c15.make, c15.dump, load=unpacked(soundBank.SBNK), ok=lambda c: c15.size(c[2]) <= 0xFFFF),
    'swar': Kind(c16, c16.make, c16.dump, load=unpacked(soundWaveArchive.SWAR)),
    'swav': Kind(c16, lambda c: c16.mkwave(c[1][0]), c16.dwave, load=lambda s: soundWave.SWAV(bytes(s)), ok=lambda c: len(c[1]) > 0),
    'strm': Kind(c17, c17.make, c17.dump, load=unpacked(soundStream.STRM), ok=lambda c: not (c[3][1] == 0 and c[2][5] > c[2][6])),
    'sdat': Kind(c18, lambda c: c18.make(c), c18.dump, load=lambda s: soundArchive.SDAT(bytes(s)), ok=c18.valid, bytes_stable=False),
    'layout': Kind(c19, c19.make, c19.dump, load=lambda s: (bnbl.BNBL if s[:4] == b'JNBL' else bncl.BNCL)(bytes(s)), ok=lambda c: c[0] in ('bnbl', 'bncl')),
    'tiles': Kind(c21, lambda c: graphics2D.loadImageTiles(c[2], c21.IF[c[1]]), lambda ts: [(list(t.pixels), t.format) for t in ts],
                  graphics2D.saveImageTiles, ok=lambda c: c[0] == 'img'),
    'tilemap': Kind(c21, lambda c: graphics2D.loadTilemapTiles(c[2], c21.TF[c[1]]), lambda ts: [(t.value, t.format) for t in ts],
                    graphics2D.saveTilemapTiles, ok=lambda c: c[0] == 'map'),
    'nsbtx': Kind(c22, c22.make, c22.dump, load=lambda s: texture.NSBTX(bytes(s))),
}


def boundary():
    for k, kind in KINDS.items():
        for c in itertools.islice((c for c in kind.src.boundary() if kind.ok(c)), 60):
            yield (k, c)


def gen(rng):
    while True:
        k = rng.choice(list(KINDS))
        c = KINDS[k].src.gen(rng)
        if KINDS[k].ok(c):
            return (k, c)


def in_file(k, o, want):
    """Saving to a file and loading from it, in a directory of its own"""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'file')
        o.saveToFile(path)
        with open(path, 'rb') as f:
            eq(f'{k}: file', f.read(), want)
        if k not in ('code', 'seq', 'sbnk', 'swar', 'strm', 'sdat'):
            t = type(o).fromFile(path)
            eq(f'{k}: loaded from a file', plain(t.save()), want)


def check(case):
    k, c = case
    kind = KINDS[k]
    o = kind.make(c)
    before = kind.dump(o)
    s1 = plain(kind.save(o))
    eq(f'{k}: object after save', kind.dump(o), before)
    s2 = plain(kind.save(o))
    eq(f'{k}: second save', s2, s1)
    eq(f'{k}: object after second save', kind.dump(o), before)
    if hasattr(o, 'saveToFile'):
        in_file(k, o, s1 if isinstance(s1, bytes) else s1[0])
    if kind.load is None:
        return
    o2 = kind.load(s1)
    d2 = kind.dump(o2)
    s3 = plain(kind.save(o2))
    eq(f'{k}: loaded object after save', kind.dump(o2), d2)
    eq(f'{k}: loaded object saved twice', plain(kind.save(o2)), s3)
    if kind.bytes_stable:
        eq(f'{k}: loaded object saved', s3, s1)
    else:
        # the loader guesses the padding options, so only the content is kept
        eq(f'{k}: loaded again', kind.dump(kind.load(s3)), d2)
