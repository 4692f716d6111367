"""C17: STRM streams."""
import struct
from vf.gen import ri, rb
from .base import eq, ensure, raises

from ndspy import soundStream, WaveType

QUICK, THOROUGH = 4000, 40000
META = ('unk02', 'volume', 'priority', 'playerID', 'unk07')
HEAD = ('isLooped', 'unk03', 'sampleRate', 'time', 'loopOffset', 'samplesPerBlock', 'samplesInLastBlock', 'unk28', 'unk2C', 'unk30', 'unk34',
        'unk38', 'unk3C', 'unk40', 'unk44')
# case: (wave type, meta 5, head 15, (channels, blocks, block length, last length), seed)


def boundary():
    meta, head = (1, 2, 3, 4, 5), (True, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19)
    m = 0xFFFFFFFF
    for t in (0, 1, 2):
        for nc in (0, 1, 2, 3, 255):
            for nb in (0, 1, 2, 3):
                if nc == 0 and nb:
                    continue
                for bl, ll in ((4, 4), (8, 4), (5, 7), (6, 4), (4, 256), (1 + 3 * (t == 2), 4), (7, 5), (300, 301)):
                    yield (t, meta, head, (nc, nb, bl, ll), 1)
        for i in range(5):
            yield (t, meta[:i] + (0xFFFF,) + meta[i + 1:], head, (1, 2, 4, 4), 1)
        for i in range(15):
            v = [False, 255, 0xFFFF, 0xFFFF, m, 0, m - 10, m, m, m, m, m, m, m, m][i]
            yield (t, meta, head[:i] + (v,) + head[i + 1:], (1, 2, 4, 4), 1)
    yield (0, meta, head, (2, 300, 4, 4), 1)
    yield (2, meta, head, (2, 1, 0x200, 0x200), 1)
    yield (0, meta, head, (1, 1, 0, 0), 1)
    yield (1, meta, head, (2, 2, 8, 0), 1)


def gen(rng):
    t = rng.randrange(3)
    nc, nb = rng.choice((1, 1, 2, 2, 3, rng.randint(0, 8))), rng.choice((0, 1, 1, 2, 3, rng.randint(0, 20)))
    if nc == 0:
        nb = 0
    bl, ll = rng.randint(0, 40), rng.randint(0, 40)
    if t == 2 and nb == 1:
        bl = ll = max(ll, 4)
    spb = ri(rng, 0, 0xFFFFFFFF // max(1, nb))
    lim = max(0, 0xFFFFFFFF - (nb - 1) * spb)
    sil = ri(rng, 0, min(lim, 0xFFFFFFFF))
    if nb == 0:
        spb = min(spb, sil)
    head = (rng.random() < 0.5, ri(rng, 0, 255), ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFFFFFF), spb, sil) + tuple(ri(rng, 0, 0xFFFFFFFF) for _ in range(8))
    return (t, tuple(ri(rng, 0, 255) for _ in range(5)), head, (nc, nb, bl, ll), rng.randrange(1 << 30))


def make(case):
    t, meta, head, (nc, nb, bl, ll), seed = case
    import random
    r = random.Random(seed)
    ch = [[r.randbytes(ll if j == nb - 1 else bl) for j in range(nb)] for i in range(nc)]
    s = soundStream.STRM.fromChannels(ch, *meta)
    s.waveType = WaveType(t)
    for f, v in zip(HEAD, head):
        setattr(s, f, v)
    return s


def dump(s):
    return (int(s.waveType), tuple(getattr(s, f) for f in META), tuple(getattr(s, f) for f in HEAD), [[bytes(b) for b in c] for c in s.channels])


def check(case):
    t, meta, head, (nc, nb, bl, ll), seed = case
    s = make(case)
    want = dump(s)
    eq('stream', want[:3], (t, meta, head))
    if nb == 0 and head[5] > head[6]:
        return
    saved = s.save()
    eq('stream after save', dump(s), want)
    data = bytes(saved[0])
    eq('metadata', tuple(saved[1:]), meta)
    eq('header', struct.unpack_from('<4sHHIHH', data, 0), (b'STRM', 0xFEFF, 0x100, len(data), 16, 2))
    eq('HEAD', struct.unpack_from('<4sI', data, 16), (b'HEAD', 0x50))
    eq('DATA', struct.unpack_from('<4sI', data, 0x60), (b'DATA', len(data) - 0x60))
    eq('number of samples', struct.unpack_from('<I', data, 0x24)[0], (nb - 1) * head[5] + head[6])
    adj = 4 if t == 2 and nb == 1 else 0
    if nb and nc:
        eq('block fields', struct.unpack_from('<6I', data, 0x28),
           (0x68, nb, (ll if nb == 1 else bl) - adj, head[5], ll - adj, head[6]))
    s2 = soundStream.STRM(data, *saved[1:])
    eq('loaded stream', dump(s2), want)
    eq('saved again', (bytes(s2.save()[0]), tuple(s2.save()[1:])), (data, meta))
    # layouts that cannot be written
    if nc >= 2 and nb >= 1:
        s.channels = [list(c) for c in s.channels]
        s.channels[-1].append(b'')
        raises(ValueError, 'different numbers of blocks', s.save)
        s.channels[-1].pop()
        s.channels[-1][-1] = s.channels[-1][-1] + b'x'
        raises(ValueError, 'different last block', s.save)
        s.channels[-1][-1] = s.channels[-1][-1][:-1]
        if nb >= 2:
            s.channels[-1][0] = s.channels[-1][0] + b'x'
            raises(ValueError, 'different block', s.save)
            s.channels[-1][0] = s.channels[-1][0][:-1]
    if nc >= 1 and nb >= 3:
        s.channels = [list(c) for c in s.channels]
        for c in s.channels:
            c[-2] = c[-2] + b'x'
        raises(ValueError, 'different inner block', s.save)
        for c in s.channels:
            c[-2] = c[-2][:-1]
    eq('stream restored', dump(s), want)
    if head[2] >= 8:
        s.save(updateTime=True)
        eq('updated time', abs(s.time - 16756991 / 32 / head[2]) < 1.001, True)
