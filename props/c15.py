"""C15: SBNK instrument banks."""
import struct
from vf.gen import ri
from .base import eq, ensure

from ndspy import soundBank as B

QUICK, THOROUGH = 3000, 30000
# case: (unk02, waveArchiveIDs, instruments); instrument: None | ('s', note, key, merge) |
# ('r', firstPitch, [notes], key, merge) | ('g', [(lastPitch, note)], key, merge); note: 9-tuple
NF = ('waveID', 'waveArchiveIDID', 'pitch', 'attack', 'decay', 'sustain', 'release', 'pan')


def note(k, t=1):
    return (k, k + 1, k & 127, 1 + k & 255, 2 + k & 255, 3 + k & 255, 4 + k & 255, 5 + k & 255, t)


def boundary():
    yield (0, [], [])
    yield (0xFFFF, [1, None, 3], [None])
    yield (7, [None, None], [None, None, None])
    yield (7, [0xFFFF, 0, None, None], [None, None, None])
    for t in range(1, 16):
        yield (1, [], [('s', note(t, t), 0, 0)])
    for f in range(9):
        for v in ((255, 256, 0xFFFF, 0x102) if f < 2 else (0, 127, 128, 255)):
            n = list(note(5))
            if f < 8:
                n[f] = v
            n = tuple(n)
            yield (1, [], [('s', n, 0, 0), ('r', 3, [n], 0, 0), ('g', [(127, n)], 0, 0)])
    for t in (0, 1, 2, 3, 4, 5, 0x102, 0xFFFF):
        yield (1, [], [('r', 0, [note(1, t), note(2, 1)], 0, 0), ('g', [(20, note(1, t)), (21, note(2))], 0, 0)])
    for k in (1, 2, 3, 16, 100, 128, 256):
        yield (1, [], [('r', (256 - k) if k < 100 else 0, [note(i) for i in range(k)], 0, 0)])
    for k in range(1, 9):
        yield (1, [], [('g', [(10 * i, note(i)) if i else (0, note(9)) for i in range(k)], 0, 0)])
        yield (1, [], [('g', [(255 - i, note(i)) for i in range(k)], 0, 0)])
    yield (1, [], [('s', note(3), 0, 0)] * 5 + [('s', note(3), 0, 1)])
    yield (1, [], [('s', note(3), 0, 0), ('s', note(3, 2), 0, 0), ('s', note(4), 0, 0), None, ('s', note(3), 0, 0)])
    yield (1, [], [('g', [(1, note(1))], 5, 0), ('r', 5, [note(1)], 1, 0), ('s', note(2), 9, 0), ('s', note(1), 3, 0),
                   ('r', 5, [note(9)], 0, 0), ('g', [(1, note(7))], 0, 0), None])
    yield (1, [], [('s', note(i), -i, 0) if i % 3 else None for i in range(300)])
    yield (1, [], [('r', 1, [note(i)], 0, 0) for i in range(60)] + [('s', note(2), 0, 0)])


def rnote(rng, t=None):
    return (ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF)) + tuple(ri(rng, 0, 255) for _ in range(6)) + (t if t else ri(rng, 0, 0xFFFF) if rng.random() < 0.3 else ri(rng, 1, 5),)


def gen(rng):
    pool = [rnote(rng, rng.randint(1, 3)) for _ in range(3)]

    def nt(t=None):
        if rng.random() < 0.4:
            return rng.choice(pool)
        return rnote(rng, t)

    def inst():
        k, m = rng.choice((0, 0, 1, 2, -1)), rng.choice((0, 0, 0, 1))
        c = rng.randrange(6)
        if c == 0:
            return None
        if c <= 2:
            return ('s', nt(rng.randint(1, 15)), k, m)
        if c == 3:
            n = rng.choice((1, 2, 3, rng.randint(1, 20)))
            return ('r', ri(rng, 0, 256 - n), [nt() for _ in range(n)], k, m)
        n = rng.randint(1, 8)
        ends = [ri(rng, 0, 255)] + [ri(rng, 1, 255) for _ in range(n - 1)]
        return ('g', [(e, nt()) for e in ends], k, m)
    ins = [inst() for _ in range(rng.choice((0, 1, 2, 3, 5, rng.randint(0, 30))))]
    if ins and rng.random() < 0.4:
        ins += [rng.choice(ins) for _ in range(3)]
    return (ri(rng, 0, 0xFFFF), [rng.choice((None, ri(rng, 0, 0x7FFF))) for _ in range(rng.randint(0, 4))], ins)


def mknote(n):
    return B.NoteDefinition(*n)


def mkinst(i):
    if i is None:
        return None
    if i[0] == 's':
        o = B.SingleNoteInstrument(mknote(i[1]))
    elif i[0] == 'r':
        o = B.RangeInstrument(i[1], [mknote(n) for n in i[2]])
    else:
        o = B.RegionalInstrument([B.RegionalInstrument.Region(e, mknote(n)) for e, n in i[1]])
    o.bankOrderKey, o.dataMergeOptimizationID = i[-2:]
    return o


def dnote(n):
    return tuple(getattr(n, f) for f in NF) + (int(n.type),)


def dinst(i):
    if i is None:
        return None
    if type(i) is B.SingleNoteInstrument:
        return ('s', int(i.type), dnote(i.noteDefinition))
    if type(i) is B.RangeInstrument:
        return ('r', int(i.type), i.firstPitch, [dnote(n) for n in i.noteDefinitions])
    return ('g', int(i.type), [(r.lastPitch, dnote(r.noteDefinition)) for r in i.regions])


def want_inst(i):
    if i is None:
        return None
    if i[0] == 's':
        return ('s', i[1][8], i[1])
    if i[0] == 'r':
        return ('r', 16, i[1], list(i[2]))
    return ('g', 17, list(i[1]))


def make(case):
    unk, wa, ins = case
    return B.SBNK.fromInstruments([mkinst(i) for i in ins], unk, wa)


def dump(b):
    return (b.unk02, list(b.waveArchiveIDs), [dinst(i) for i in b.instruments],
            {k: [dinst(i) for i in v] for k, v in b.inaccessibleInstruments.items()})


def size(ins):
    return 0x3C + 4 * len(ins) + sum(0 if i is None else 10 if i[0] == 's' else 2 + 12 * len(i[2]) if i[0] == 'r' else 8 + 12 * len(i[1]) for i in ins)


def check(case):
    unk, wa, ins = case
    if size(ins) > 0xFFFF:
        return
    wa = list(wa)
    while wa and wa[-1] is None:
        wa.pop()
    b = make(case)
    want = (unk, wa, [want_inst(i) for i in ins], {})
    eq('bank', dump(b), want)
    saved = b.save()
    eq('bank after save', dump(b), want)
    data = bytes(saved[0])
    eq('metadata', (saved[1], list(saved[2])), (unk, wa))
    eq('header', struct.unpack_from('<4sHHIHH', data, 0), (b'SBNK', 0xFEFF, 0x100, len(data), 16, 1))
    eq('data block', struct.unpack_from('<4sI32xI', data, 16), (b'DATA', len(data) - 16, len(ins)))
    b2 = B.SBNK(data, *saved[1:])
    eq('loaded bank', dump(b2), want)
    s2 = b2.save()
    b3 = B.SBNK(bytes(s2[0]), *s2[1:])
    eq('second round trip', dump(b3), want)
    eq('saved again', (bytes(s2[0]), s2[1], list(s2[2])), (data, unk, wa))
