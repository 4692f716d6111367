"""C14: SSEQ and SSAR files."""
import itertools
import struct

import z3

from vf.terms import *
from vf.interp import prove_equal
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from props.c14 import META

from ndspy import soundSequence, soundSequenceArchive

SSEQ, SSAR, SSARSequence = soundSequence.SSEQ, soundSequenceArchive.SSAR, soundSequenceArchive.SSARSequence
S = 'ndspy.soundSequence.SSEQ.'
A = 'ndspy.soundSequenceArchive.SSAR.'


def contracts(E, ip):
    """readSequenceEvents inverts saveSequenceEvents (C13)"""
    def save(ip, fn, args, kw):
        prove_equal(E, args[0], E.events, 'the events to save')
        return SBytes(E.whole(E.data)), MList([El(SInt(E.pos(I(s.v.args[0])))) for s in args[1].segs])

    def read(ip, fn, args, kw):
        prove_equal(E, args[0], SBytes(E.whole(E.data)), 'the events data to parse')
        return MList(E.events.segs), MList([El(Opq('event', (SInt(E.at(I(s.v))),))) for s in args[1].segs])
    ip.contracts[soundSequence.saveSequenceEvents] = save
    ip.contracts[soundSequence.readSequenceEvents] = read


def some_events(E):
    n = E.int('events', 1)
    E.individuals = {'event'}
    E.data = E.source('data')
    E.events = E.list(n, lambda k: Opq('event', (SInt(k),)))
    # where an event is saved, and which event is there
    E.at = E.fun('at', 1, 0)
    E.pos = E.fun('pos', 1, 0, 0x7FFFFFFF, gen=lambda k: [E.at(E.pos(k)) == k])
    return n, MList(E.events.segs)


def build_sseq(E):
    n, events = some_events(E)
    return events, SBytes(E.whole(E.data)), tuple(E.int(a, 0, 65535) for a in META), E.bytes('other')


def check_sseq(s, meta, events):
    before = snapshot(s)
    saved = s.save()
    same(s, before, 'sequence after save')
    prove(len(saved) == 7, 'saved values')
    same(saved[1:], meta, 'saved metadata')
    data = saved[0]
    assume(len(data) <= 0xFFFFFFFF)
    magic, bom, version, length, hsize, count = struct.unpack_from('<4sHHIHH', data)
    prove(magic == b'SSEQ' and bom == 0xFEFF and version == 0x100 and hsize == 16 and count == 1, 'header')
    prove(length == len(data), 'file size field')
    magic, length, at = struct.unpack_from('<4sII', data, 16)
    prove(magic == b'DATA' and length == len(data) - 16 and at == 0x1C, 'DATA block')
    same(data[at:], events, 'events')
    same(s.save(), saved, 'second save')
    return saved


def meta_of(s):
    return [s.unk02, s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID]


def sseq(events, data, meta, other):
    s = SSEQ.fromEvents(events, *meta)
    prove(s.parsed, 'parsed')
    same(s.events, events, 'events')
    same(meta_of(s), list(meta), 'metadata')
    saved = check_sseq(s, meta, data)
    t = SSEQ(saved[0] + other, *saved[1:])
    prove(not t.parsed, 'not parsed')
    same(t.eventsData, data, 'events data')
    same(meta_of(t), list(meta), 'loaded metadata')
    same(check_sseq(t, meta, data), saved, 'saved without parsing')
    prove(outcome(getattr, t, 'events') == 'ValueError', 'events before parsing')
    t.parse()
    prove(t.parsed, 'parsed')
    same(t.events, events, 'loaded events')
    same(meta_of(t), list(meta), 'metadata after parsing')
    same(check_sseq(t, meta, data), saved, 'saved after parsing')
    t.parse()
    same(t.events, events, 'events after parsing again')
    prove(outcome(getattr, t, 'eventsData') == 'ValueError', 'events data after parsing')
    s.saveToFile('file')
    u = SSEQ.fromFile('file', *meta)
    u.parse()
    same(u.events, events, 'events from a file')
    same(meta_of(u), list(meta), 'metadata with a file')
    u = SSEQ()
    same(meta_of(u), [0, 0, 127, 64, 50, 0], 'defaults')
    same(u.events, [], 'no events')
    prove(outcome(SSEQ, b'SSER' + saved[0][4:]) == 'ValueError', 'wrong magic')
    prove(outcome(SSEQ, saved[0][:6] + b'\1' + saved[0][7:]) == 'ValueError', 'wrong version')


FIELDS = {'bankID': 0xFFFF, 'volume': 255, 'channelPressure': 255, 'polyphonicPressure': 255, 'playerID': 255}


def build_ssar(E):
    """Any number of sequences, not parsed"""
    n = E.int('n', 0)
    E.data = E.source('data')
    off, none = E.fun('off', 1, 0, 0x7FFFFFFF), E.fun('none', 1, boolean=True)
    name = E.source('name', 1)
    f = {a: E.fun(a, 1, 0, hi) for a, hi in FIELDS.items()}

    def seq(k):
        return (Opq('name', (SInt(k),)), Obj(SSARSequence, {
            '_firstEvent': None, '_firstEventOffset': Opt(none(k), SInt(off(k))),
            **{a: SInt(f[a](k)) for a in FIELDS}, 'parsed': False}))
    return SBytes(E.whole(E.data)), E.list(n, seq), E.int('unk02', 0, 65535), E.bytes('other')


def check_ssar(a, unk02, n, events):
    before = snapshot(a)
    saved = a.save()
    same(a, before, 'archive after save')
    prove(len(saved) == 3 and saved[1] == unk02, 'saved values')
    data = saved[0]
    assume(len(data) <= 0xFFFFFFFF)
    magic, bom, version, length, hsize, count = struct.unpack_from('<4sHHIHH', data)
    prove(magic == b'SSAR' and bom == 0xFEFF and version == 0x100 and hsize == 16 and count == 1, 'header')
    prove(length == len(data), 'file size field')
    magic, length, at, count = struct.unpack_from('<4sIII', data, 16)
    prove(magic == b'DATA' and length == len(data) - 16 and count == n and at == 0x20 + 12 * n, 'DATA block')
    same(data[at:], events, 'events')
    same(a.save(), saved, 'second save')
    return saved


def ssar(data, seqs, unk02, other):
    a = SSAR(unk02=unk02)
    a.parsed = False
    a._eventsData = data
    a.sequences = seqs
    same(a.eventsData, data, 'events data')
    saved = check_ssar(a, unk02, len(seqs), data)
    t = SSAR(saved[0] + other, *saved[1:])
    prove(not t.parsed and t.unk02 == unk02, 'not parsed')
    same(t.eventsData, data, 'loaded events data')
    same(t.sequences, seqs, 'loaded sequences')
    same(check_ssar(t, unk02, len(seqs), data), saved, 'saved again')
    prove(outcome(getattr, t, 'events') == 'ValueError', 'events before parsing')
    a.saveToFile('file')
    u = SSAR.fromFile('file', unk02, saved[2])
    same(u.sequences, seqs, 'sequences from a file')
    same(u.eventsData, data, 'events data from a file')
    u = SSAR(saved[0])
    same(u.unk02, 0, 'default unk02')
    prove(outcome(SSAR, b'SSER' + saved[0][4:]) == 'ValueError', 'wrong magic')
    prove(outcome(SSAR, saved[0][:6] + b'\1' + saved[0][7:]) == 'ValueError', 'wrong version')


def build_parsed(shape):
    """shape: for each sequence whether it has events"""
    def build(E):
        n, events = some_events(E)
        seqs = []
        for k, has in enumerate(shape):
            first = None
            if has:
                i = E.int('first', 0)
                E.assume(i.t < n.t)
                E.note(E.pos(i.t))
                first = Opq('event', (i,))
            seqs.append((Opq('name', (k,)), first, tuple(E.int(a, 0, hi) for a, hi in FIELDS.items())))
        return events, SBytes(E.whole(E.data)), tuple(seqs), E.int('unk02', 0, 65535)
    return build


def parsed(events, data, shape, unk02):
    seqs = []
    for name, first, f in shape:
        s = SSARSequence(first, *f)
        same([s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID], list(f), 'fields')
        same(s.firstEvent, first, 'first event')
        prove(outcome(getattr, s, 'firstEventOffset') == 'ValueError', 'offset of a parsed sequence')
        same(s.save(), (first,) + f, 'saved sequence')
        seqs.append((name, s))
    a = SSAR.fromEventsAndSequences(events, seqs, unk02)
    prove(a.parsed, 'parsed')
    same(a.events, events, 'events')
    saved = check_ssar(a, unk02, len(shape), data)
    same(saved[2], [name for name, _, _ in shape], 'names')
    t = SSAR(*saved)
    for name, s in t.sequences:
        prove(outcome(getattr, s, 'firstEvent') == 'ValueError', 'first event before parsing')
    t.parse()
    same(t.events, events, 'loaded events')
    prove(t.unk02 == unk02, 'loaded unk02')
    prove(len(t.sequences) == len(shape), 'loaded sequences')
    for (name, s), (name0, first, f) in zip(t.sequences, shape):
        same(name, name0, 'name')
        same(s.save(), (first,) + f, 'loaded sequence')
        prove(s.parsed, 'sequence parsed')
    same(check_ssar(t, unk02, len(shape), data), saved, 'saved after parsing')
    t.parse()
    same(t.events, events, 'events after parsing again')
    prove(outcome(getattr, t, 'eventsData') == 'ValueError', 'events data after parsing')
    u = SSAR(saved[0], unk02, [])
    same([name for name, _ in u.sequences], [None] * len(shape), 'names are optional')


def shapes(n):
    return [x for k in range(n + 1) for x in itertools.product((True, False), repeat=k)]


def lemma(x):
    return Lemma(f'SSAR parsed, sequences with events: {x}', build_parsed(x), parsed, contracts,
                 covers=[A + 'save', A + 'parse', A + '_initFromData', A + '__init__'])


LEMMAS = [
    Lemma('SSEQ', build_sseq, sseq, contracts, covers=[S + x for x in ('__init__', 'save', 'parse', 'fromEvents', 'fromFile', 'saveToFile')]),
    Lemma('SSAR not parsed', build_ssar, ssar, covers=[A + x for x in ('__init__', 'save', 'fromFile', 'saveToFile')]),
] + [lemma(x) for x in shapes(3)]
THOROUGH = [lemma(x) for k in (4, 5) for x in itertools.product((True, False), repeat=k)]
LEVEL = 'other'
BOUNDED = ['parsed sequence archives: every combination of up to 3 sequences (5 in the thorough tier) with arbitrary contents '
           'and any events; archives that are not parsed and sequence files: any number and size',
           'events are saved and read by contract; the contract is decided by C13, which is bounded']
TRUSTED = ['readSequenceEvents(*saveSequenceEvents(events, notable)) gives events like the given ones and the notable ones among them (C13)']
ASSUMPTIONS = ['sequence offsets are None or 0..0x7FFFFFFF, files are shorter than 4 GB',
               'events of a parsed file can be parsed again (domain of C13)']
