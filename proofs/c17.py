"""C17: STRM streams."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from props.c17 import META, HEAD

from ndspy import soundStream, WaveType

M32 = 0xFFFFFFFF
WORDS = ('loopOffset', 'samplesPerBlock', 'samplesInLastBlock', 'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C',
         'unk40', 'unk44')


def fields(E, t):
    f = {'waveType': WaveType(t), 'isLooped': E.bool('isLooped'), 'unk03': E.int('unk03', 0, 255),
         'sampleRate': E.int('sampleRate', 0, 65535), 'time': E.int('time', 0, 65535)}
    f.update({a: E.int(a, 0, M32) for a in WORDS})
    return f


def build(channels, blocks):
    """channels: their number; blocks: 0, 1 or 2 (any number >= 2)"""
    def go(E):
        t = E.concretize(E.int('type', 0, 2), 0, 2)
        f = fields(E, t)
        size, last = E.int('size', 0), E.int('last', 4 if t == 2 and blocks == 1 else 0)
        n = E.int('blocks', 2) if blocks == 2 else blocks
        chans = []
        for c in range(channels):
            segs = ()
            if blocks == 2:
                d = E.source(f'c{c}', 1, length=lambda k: size.t)
                segs += E.family(sub(n, 1), lambda k: SBytes(E.whole(d, k)))
            if blocks:
                d = E.source(f'last{c}', 0, length=lambda: last.t)
                segs += (El(SBytes(E.whole(d))),)
            chans.append(El(MList(segs)))
        return MList(chans), f, tuple(E.int(a, 0, 65535) for a in META), n, size if blocks == 2 else last, last
    return go


def stream(channels, fields, meta):
    s = soundStream.STRM.fromChannels(channels, *meta)
    for name, v in fields.items():
        setattr(s, name, v)
    return s


def roundtrip(channels, fields, meta, n, size, last):
    s = stream(channels, fields, meta)
    if n == 0:
        assume(s.samplesPerBlock <= s.samplesInLastBlock)
    same(s.channels, channels, 'channels')
    same([s.unk02, s.volume, s.priority, s.playerID, s.unk07], list(meta), 'metadata')
    before = snapshot(s)
    saved = s.save()
    same(s, before, 'stream after save')
    prove(len(saved) == 6, 'saved values')
    same(saved[1:], meta, 'saved metadata')
    data = saved[0]
    samples = (n - 1) * s.samplesPerBlock + s.samplesInLastBlock
    assume(len(data) <= M32 and samples <= M32 and n <= M32 and size <= M32 and last <= M32)
    magic, bom, version, length, hsize, count = struct.unpack_from('<4sHHIHH', data)
    prove(magic == b'STRM' and bom == 0xFEFF and version == 0x100 and hsize == 16 and count == 2, 'header')
    prove(length == len(data), 'file size field')
    magic, length = struct.unpack_from('<4sI', data, 16)
    prove(magic == b'HEAD' and length == 0x50, 'HEAD block')
    magic, length = struct.unpack_from('<4sI', data, 0x60)
    prove(magic == b'DATA' and length == len(data) - 0x60, 'DATA block')
    prove(data[0x18] == s.waveType and data[0x19] == (1 if s.isLooped else 0), 'type and loop flag in file')
    prove(data[0x1A] == len(channels), 'number of channels in file')
    prove(struct.unpack_from('<I', data, 0x24)[0] == samples, 'number of samples in file')
    if len(channels) > 0 and n > 0:
        adj = 4 if s.waveType == 2 and n == 1 else 0
        start, blocks, bs, sb, bl, sl = struct.unpack_from('<6I', data, 0x28)
        prove(start == 0x68 and blocks == n and bs == size - adj and bl == last - adj, 'blocks in file')
        prove(sb == s.samplesPerBlock and sl == s.samplesInLastBlock, 'samples per block in file')
    t = soundStream.STRM(data, *saved[1:])
    same(t, before, 'loaded')
    same(s.save(), saved, 'second save')
    s.saveToFile('file')
    same(soundStream.STRM.fromFile('file', *meta), before, 'loaded from a file')


def build_default(E):
    return ()


def default():
    s = soundStream.STRM()
    same(s, soundStream.STRM.fromChannels([]), 'default stream')
    same([s.unk02, s.volume, s.priority, s.playerID, s.unk07], [0, 127, 64, 0, 0], 'default metadata')
    same([s.waveType, s.isLooped, s.channels, s.unk03, s.sampleRate, s.time], [0, False, [], 0, 8000, 0], 'defaults')
    same([s.loopOffset, s.samplesPerBlock, s.samplesInLastBlock, s.unk28, s.unk2C, s.unk30, s.unk34, s.unk38, s.unk3C,
          s.unk40, s.unk44], [0] * 11, 'default header')
    same(s.dataMergeOptimizationID, 0, 'default optimization ID')


def build_bad(channels):
    def go(E):
        chans = []
        counts = [E.int(f'n{c}', 0) for c in range(channels)]
        for c in range(channels):
            d = E.source(f'c{c}', 1)
            chans.append(El(MList(E.family(counts[c], lambda k: SBytes(E.whole(d, k))))))
        return MList(chans), fields(E, 0), (0, 127, 64, 0, 0), E.concretize(E.int('c', 0, channels - 1), 0, channels - 1), \
            E.int('j', 0)
    return go


def bad_counts(channels, fields, meta, c, j):
    s = stream(channels, fields, meta)
    assume(len(channels[c]) != len(channels[0]))
    prove(outcome(s.save) == 'ValueError', 'different numbers of blocks')


def bad_block(channels, fields, meta, c, j):
    s = stream(channels, fields, meta)
    assume(len(channels[0]) == len(channels[-1]))
    assume(len(channels[0]) == len(channels[c]) and j < len(channels[c]) - 1)
    assume(len(channels[c][j]) != len(channels[0][0]))
    prove(outcome(s.save) == 'ValueError', 'different block')


def bad_last(channels, fields, meta, c, j):
    s = stream(channels, fields, meta)
    assume(len(channels[0]) == len(channels[-1]))
    assume(len(channels[0]) == len(channels[c]) and len(channels[0]) > 0)
    assume(len(channels[c][-1]) != len(channels[0][-1]))
    prove(outcome(s.save) == 'ValueError', 'different last block')


def case(channels, blocks):
    def go(m):
        n = m.int('blocks') if blocks == 2 else blocks
        if n > 2000 or m.int('size') > 100000 or m.int('last') > 100000:
            raise ValueError
        return (m.int('type'), tuple(m.int(a) for a in META), tuple(
            m.bool(a) if a == 'isLooped' else m.int(a) for a in HEAD), (channels, n, m.int('size'), m.int('last')), 1)
    return go


ST = 'ndspy.soundStream.STRM.'


def lemmas(channels):
    out = []
    for c in channels:
        for b in (0, 1, 2):
            if c == 0 and b:
                continue
            out.append(Lemma(f'round trip, {c} channels, {b if b < 2 else "two or more"} blocks', build(c, b), roundtrip,
                             case=case(c, b), covers=[ST + 'save', ST + '_initFromData', ST + 'fromFile', ST + 'saveToFile']))
    return out


LEMMAS = lemmas(range(4)) + [
    Lemma('default stream', build_default, default),
    Lemma('different numbers of blocks', build_bad(2), bad_counts),
    Lemma('different block', build_bad(2), bad_block),
    Lemma('different last block', build_bad(2), bad_last),
]
THOROUGH = lemmas(range(4, 9))
LEVEL = 'other'
BOUNDED = ['streams of more than 3 (quick) or 8 (thorough) channels are covered by concrete inputs only; the number and the lengths of the blocks are not bounded']
