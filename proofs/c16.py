"""C16: SWAV waves and SWAR wave archives."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import soundWave, soundWaveArchive, WaveType

M32 = 0xFFFFFFFF


def wave(E, t, looped, rate, time, lo, rest, data):
    return Obj(soundWave.SWAV, {'waveType': t, 'isLooped': looped, 'sampleRate': rate, 'time': time,
                                'loopOffset': lo, 'totalLength': add(lo, rest), 'data': data})


def build_wave(E):
    w = wave(E, E.int('type', 0, 2), E.bool('looped'), E.int('rate', 0, 65535), E.int('time', 0, 65535),
             E.int('lo', 0, 65535), E.int('rest', 0, M32), E.bytes('data', 0, M32 - 0x24))
    return w, E.bytes('tail')


def roundtrip_wave(w, tail):
    data = w.data
    s = soundWave.SWAV.fromData(data, waveType=w.waveType, isLooped=w.isLooped, sampleRate=w.sampleRate, time=w.time,
                                loopOffset=w.loopOffset, totalLength=w.totalLength)
    same(s, w, 'wave of the given values')
    out = s.save()
    same(s, w, 'wave after save')
    magic, bom, version, size, hsize, blocks = struct.unpack_from('<4sHHIHH', out)
    prove(magic == b'SWAV' and bom == 0xFEFF and version == 0x100 and hsize == 16 and blocks == 1, 'header')
    prove(size == len(out), 'file size field')
    magic, size = struct.unpack_from('<4sI', out, 16)
    prove(magic == b'DATA' and size == len(out) - 16, 'data block')
    t, l, r, ti, lo, ln = struct.unpack_from('<BBHHHI', out, 0x18)
    prove(t == w.waveType and l == (1 if w.isLooped else 0) and r == w.sampleRate and ti == w.time, 'fields in file')
    prove(lo == w.loopOffset and ln == w.totalLength - w.loopOffset, 'loop in file')
    same(out[0x24:], data, 'samples in file')
    b = soundWave.SWAV(out)
    same(b, w, 'loaded')
    same(soundWave.SWAV(out + tail), w, 'loaded with bytes after the file')
    same(soundWave.SWAV(bytearray(out)), w, 'loaded from a bytearray')
    same(b.save(), out, 'second save')
    s.saveToFile('file')
    same(soundWave.SWAV.fromFile('file'), w, 'loaded from a file')
    same(soundWave.SWAV(), soundWave.SWAV.fromData(), 'default wave')
    e = soundWave.SWAV()
    prove(e.waveType == 0 and not e.isLooped and e.sampleRate == 8000 and e.time == 0, 'default wave')
    prove(e.loopOffset == 0 and e.totalLength == 0 and e.data == b'', 'default wave')


def build_update(E):
    return build_wave(E)[0], E.int('total', 0)


def update(w, total):
    s = soundWave.SWAV.fromData(w.data, waveType=w.waveType, isLooped=w.isLooped, sampleRate=w.sampleRate, time=w.time,
                                loopOffset=w.loopOffset, totalLength=total)
    if total < w.loopOffset:
        prove(outcome(s.save) == 'ValueError', 'loop start beyond the end')
    s.totalLength = w.totalLength
    if w.sampleRate >= 256:
        out = s.save(updateTime=True)
        prove(s.time == 16756991 // w.sampleRate, 'updated time')
        prove(soundWave.SWAV(out).time == s.time, 'loaded updated time')
        s.time = w.time
        same(s, w, 'other fields')
    s.loopOffset = 0
    out = s.save(updateTotalLength=True)
    prove(s.totalLength == len(w.data) // 4, 'updated length')
    prove(soundWave.SWAV(out).totalLength == len(w.data) // 4, 'loaded updated length')
    prove(s.time == w.time, 'time is kept')


def build_archive(E):
    n = E.int('n', 0)
    f = {a: E.fun(a, 1, 0, hi) for a, hi in (('type', 2), ('rate', 65535), ('time', 65535), ('lo', 65535), ('rest', M32))}
    looped = E.fun('looped', 1, boolean=True)
    d = E.source('data', 1)
    waves = E.list(n, lambda k: wave(E, SInt(f['type'](k)), SBool(looped(k)), SInt(f['rate'](k)), SInt(f['time'](k)),
                                     SInt(f['lo'](k)), SInt(f['rest'](k)), SBytes(E.whole(d, k))))
    return waves, E.int('unk02', 0, 65535), E.bytes('tail')


def roundtrip_archive(waves, unk, tail):
    a = soundWaveArchive.SWAR.fromWaves(waves, unk)
    same(a.waves, waves, 'waves')
    before = snapshot(a)
    saved = a.save()
    prove(len(saved) == 2, 'saved values')
    out, u = saved
    assume(len(out) < 0x100000000)
    prove(u == unk, 'unknown value')
    same(a, before, 'archive after save')
    magic, bom, version, size, hsize, blocks = struct.unpack_from('<4sHHIHH', out)
    prove(magic == b'SWAR' and bom == 0xFEFF and version == 0x100 and hsize == 16 and blocks == 1, 'header')
    prove(size == len(out), 'file size field')
    magic, size, count = struct.unpack_from('<4sI32xI', out, 16)
    prove(magic == b'DATA' and size == len(out) - 16 and count == len(waves), 'data block')
    same(out[0x18:0x38], bytes(32), 'reserved area')
    at = 0x3C + 4 * len(waves)
    for i, w in enumerate(waves):
        prove(struct.unpack_from('<I', out, 0x3C + 4 * i)[0] == at, 'offset of a wave')
        same(out[at:at + 12 + len(w.data)], w.save()[0x18:], 'wave in the archive')
        at = at + 12 + len(w.data)
    prove(at == len(out), 'end of the last wave')
    b = soundWaveArchive.SWAR(out, u)
    same(b, before, 'loaded')
    same(soundWaveArchive.SWAR(bytes(out) + tail, u), before, 'loaded with bytes after the file')
    same(a.save(), saved, 'second save')
    a.saveToFile('file')
    same(soundWaveArchive.SWAR.fromFile('file', u), before, 'loaded from a file')
    same(soundWaveArchive.SWAR.fromFile('file').unk02, 0, 'default unknown value')
    same(soundWaveArchive.SWAR(), soundWaveArchive.SWAR.fromWaves([]), 'new archive')
    prove(soundWaveArchive.SWAR().unk02 == 0 and soundWaveArchive.SWAR.dataMergeOptimizationID == 0, 'new archive')
    same(soundWaveArchive.SWAR().waves, [], 'new archive')


def case_wave(m):
    lo = m.int('lo')
    return (0, [(m.int('type'), m.bool('looped'), m.int('rate'), m.int('time'), lo, lo + m.int('rest'), m.bytes('data'))])


def case_archive(m):
    return (m.int('unk02'), [(m.fun('type', k), m.fun('looped', k) in (True, 'True'), m.fun('rate', k), m.fun('time', k),
                              m.fun('lo', k), m.fun('lo', k) + m.fun('rest', k), m.bytes('data', k))
                             for k in range(min(m.int('n'), 1000))])


SW, SA = 'ndspy.soundWave.SWAV.', 'ndspy.soundWaveArchive.SWAR.'
LEMMAS = [
    Lemma('wave round trip', build_wave, roundtrip_wave, case=case_wave,
          covers=[SW + 'save', SW + '_initFromData', SW + 'fromData', SW + 'fromFile', SW + 'saveToFile', SW + '__init__']),
    Lemma('wave updates on save', build_update, update, case=case_wave, covers=[SW + 'save']),
    Lemma('archive round trip', build_archive, roundtrip_archive, case=case_archive,
          covers=[SA + 'save', SA + '_initFromData', SA + 'fromWaves', SA + 'fromFile', SA + 'saveToFile']),
]
