"""C16: SWAV and SWAR."""
import struct
from vf.gen import build_bytes, ri, rb, rlen
from .base import eq, ensure, raises

from ndspy import soundWave, soundWaveArchive, WaveType

QUICK, THOROUGH = 4000, 40000
# case: (unk02, [(type, looped, rate, time, loop offset, total length, data spec)])
F = ('waveType', 'isLooped', 'sampleRate', 'time', 'loopOffset', 'totalLength', 'data')


def boundary():
    yield (0, [])
    base = (1, True, 0x102, 0x304, 0x506, 0x708, b'datadata')
    for t in (0, 1, 2):
        yield (1, [(t,) + base[1:]])
    yield (1, [base[:1] + (False,) + base[2:]])
    for i in (2, 3):
        for v in (0, 1, 0xFF, 0x100, 0xFFFF):
            yield (2, [base[:i] + (v,) + base[i + 1:]])
    for lo, tot in ((0, 0), (0xFFFF, 0xFFFF), (0xFFFF, 0xFFFF + 0xFFFFFFFF), (0, 0xFFFFFFFF), (1, 1), (0, 1), (5, 0x10005)):
        yield (2, [base[:4] + (lo, tot) + base[6:]])
    for n in (0, 1, 2, 3, 4, 5, 8, 12, 100, 256, 70000):
        yield (0xFFFF, [base[:6] + ([('rand', n, n)],)])
        yield (3, [base[:6] + ([('rand', n, n)],), base[:6] + (b'',), base[:6] + (b'SWAV',)])
    yield (3, [base[:6] + ([('rand', n, n % 13)],) for n in range(260)])


def gen(rng):
    def wave():
        lo = ri(rng, 0, 0xFFFF)
        return (rng.randrange(3), rng.random() < 0.5, ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), lo, lo + ri(rng, 0, 0xFFFFFFFF), rb(rng, rlen(rng, 300)))
    return (ri(rng, 0, 0xFFFF), [wave() for _ in range(rng.choice((0, 1, 2, 3, rng.randint(0, 20))))])


def mkwave(w):
    return soundWave.SWAV.fromData(build_bytes(w[6]), waveType=WaveType(w[0]), isLooped=w[1], sampleRate=w[2], time=w[3], loopOffset=w[4], totalLength=w[5])


def dwave(w):
    return (int(w.waveType), bool(w.isLooped), w.sampleRate, w.time, w.loopOffset, w.totalLength, bytes(w.data))


def make(case):
    return soundWaveArchive.SWAR.fromWaves([mkwave(w) for w in case[1]], case[0])


def dump(a):
    return (a.unk02, [dwave(w) for w in a.waves])


def check(case):
    unk, waves = case
    want = [w[:6] + (build_bytes(w[6]),) for w in waves]
    for w in want[:5]:
        s = mkwave(w)
        eq('wave', dwave(s), w)
        data = bytes(s.save())
        eq('wave after save', dwave(s), w)
        eq('header', struct.unpack_from('<4sHHIHH', data, 0), (b'SWAV', 0xFEFF, 0x100, len(data), 16, 1))
        eq('data block', struct.unpack_from('<4sI', data, 16), (b'DATA', len(data) - 16))
        eq('loaded wave', dwave(soundWave.SWAV(data)), w)
        eq('loaded wave with trailing bytes', dwave(soundWave.SWAV(data + b'\0\0\0')), w)
        eq('samples at the end', data[0x24:], w[6])
        if w[4] > 0:
            s.totalLength = w[4] - 1
            raises(ValueError, 'loop start beyond the end', s.save)
            s.totalLength = w[5]
        if w[2] >= 256:
            s.save(updateTime=True)
            eq('updated time', s.time, 16756991 // w[2])
        s.loopOffset = 0
        data = s.save(updateTotalLength=True)
        eq('updated length', (s.totalLength, soundWave.SWAV(bytes(data)).totalLength), (len(w[6]) // 4,) * 2)
    a = make(case)
    saved = a.save()
    eq('archive after save', dump(a), (unk, want))
    data = bytes(saved[0])
    eq('metadata', tuple(saved[1:]), (unk,))
    eq('header', struct.unpack_from('<4sHHIHH', data, 0), (b'SWAR', 0xFEFF, 0x100, len(data), 16, 1))
    eq('data block', struct.unpack_from('<4sI32xI', data, 16), (b'DATA', len(data) - 16, len(want)))
    off = 0x3C + 4 * len(want)
    for i, w in enumerate(want):
        eq(f'offset {i}', struct.unpack_from('<I', data, 0x3C + 4 * i)[0], off)
        off += 12 + len(w[6])
    eq('end', off, len(data))
    eq('loaded archive', dump(soundWaveArchive.SWAR(data, *saved[1:])), (unk, want))
    eq('loaded archive with trailing bytes', dump(soundWaveArchive.SWAR(data + b'\0' * 9, *saved[1:])), (unk, want))
