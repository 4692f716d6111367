"""C14: SSEQ and SSAR files."""
import struct
from vf.gen import build_bytes, ri, rb, rlen, rname
from .base import eq, ensure
from . import c12, c13

from ndspy import soundSequence as S, soundSequenceArchive as A

QUICK, THOROUGH = 3000, 30000
# case: ('sseq', meta 6-tuple, bytes spec | c13 event list, parsed?)
#       ('ssar', unk02, bytes spec | event list, [(name, start, 5 fields)], parsed?)
META = ('unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID')


def boundary():
    m = (0, 0, 127, 64, 50, 0)
    for i in range(6):
        for v in (0, 1, 255, 0xFFFF, -1):
            yield ('sseq', m[:i] + (v,) + m[i + 1:], b'\xFF', False)
    for n in (0, 1, 2, 3, 4, 5, 255, 256, 70000):
        yield ('sseq', (1, 2, 3, 4, 5, 6), [('rand', n, n)], False)
    for ev, notable in c13.boundary():
        if all(i == 0 for i in notable):
            yield ('sseq', (1, 2, 3, 4, 5, 6), ev, True)
        seqs = [('n%d' % k if k % 3 else None, i, (k, k + 1, k + 2, k + 3, k + 4)) for k, i in enumerate(notable or [0])]
        yield ('ssar', 5, ev, seqs, True)
        yield ('ssar', 5, ev, seqs + [('none', None, (65535, 255, 254, 253, 252))], True)
    yield ('ssar', 0, b'', [], False)
    yield ('ssar', 0, [], [], True)
    yield ('ssar', 1, b'', [('a', None, (0, 0, 0, 0, 0))], False)
    yield ('ssar', 1, b'anything', [('a', 3, (0xFFFF, 255, 255, 255, 255)), (None, None, (1, 2, 3, 4, 5)), ('', 0x7FFFFFFF, (1, 2, 3, 4, 5)),
                                    ('b', 0, (0, 1, 0, 1, 0)), ('c', 3, (6, 7, 8, 9, 10))], False)
    for n in (1, 2, 300):
        yield ('ssar', 1, [('rand', 1, 77)], [('s%d' % i, i, (i, i & 255, 1, 2, 3)) for i in range(n)], False)


def gen(rng):
    meta = tuple(ri(rng, 0, 0xFFFF) if i < 2 else ri(rng, 0, 255) for i in range(6))
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            return ('sseq', meta, rb(rng, rlen(rng, 600)), False)
        return ('sseq', meta, c13.gen(rng)[0], True)

    def fields():
        return (ri(rng, 0, 0xFFFF),) + tuple(ri(rng, 0, 255) for _ in range(4))

    def name():
        return rng.choice((None, '', rname(rng, 1, 20)))
    if rng.random() < 0.5:
        seqs = [(name(), rng.choice((None, ri(rng, 0, 0x7FFFFFFF))), fields()) for _ in range(rng.randint(0, 6))]
        return ('ssar', ri(rng, 0, 0xFFFF), rb(rng, rlen(rng, 600)), seqs, False)
    ev, notable = c13.gen(rng)
    seqs = [(name(), i, fields()) for i in notable or [0]]
    for _ in range(rng.choice((0, 0, 1, 2))):
        seqs.insert(rng.randint(0, len(seqs)), (name(), None, fields()))
    return ('ssar', ri(rng, 0, 0xFFFF), ev, seqs, True)


def sseq_dump(s):
    ev = c13.dump(s.events) if s.parsed else bytes(s.eventsData)
    return tuple(getattr(s, f) for f in META) + (s.parsed, ev)


def make(case):
    if case[0] == 'sseq':
        _, meta, body, parsed = case
        if parsed:
            return S.SSEQ.fromEvents(c13.make(body), *meta)
        s = S.SSEQ(b'SSEQ\xFF\xFE\0\1' + struct.pack('<IHH4sII', 0x1C, 16, 1, b'DATA', 12, 0x1C), *meta)
        s.eventsData = build_bytes(body)
        return s
    _, unk, body, seqs, parsed = case
    if parsed:
        evs = c13.make(body)
        return A.SSAR.fromEventsAndSequences(
            evs, [(n, A.SSARSequence(None if i is None else evs[i], *f)) for n, i, f in seqs], unk)
    a = A.SSAR(b'SSAR\xFF\xFE\0\1' + struct.pack('<IHH4sIII', 0x20, 16, 1, b'DATA', 16, 0x20, 0), unk)
    a.eventsData = build_bytes(body)
    a.sequences = [(n, A.SSARSequence(i, *f, parsed=False)) for n, i, f in seqs]
    return a


def ssar_dump(a):
    out = []
    if a.parsed:
        ev = c13.dump(a.events)
        idx = {id(e): i for i, e in enumerate(a.events)}
    else:
        ev = bytes(a.eventsData)
    for n, s in a.sequences:
        if a.parsed:
            start = idx[id(s.firstEvent)] if s.firstEvent is not None else None
        else:
            start = s.firstEventOffset
        out.append((n, start, (s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID)))
    return (a.unk02, a.parsed, ev, out)


def dump(o):
    return sseq_dump(o) if isinstance(o, S.SSEQ) else ssar_dump(o)


def check(case):
    o = make(case)
    want = dump(o)
    kind, parsed = case[0], case[-1]
    if kind == 'sseq':
        eq('metadata', want[:7], tuple(case[1]) + (parsed,))
    else:
        eq('sequences', want[3], [tuple(s) for s in case[3]])
    saved = o.save()
    eq('object after save', dump(o), want)
    file = bytes(saved[0])
    magic, bom, ver, size, hs, nb = struct.unpack_from('<4sHHIHH', file, 0)
    eq('header', (magic, bom, ver, size, hs, nb), (kind.upper().encode(), 0xFEFF, 0x100, len(file), 16, 1))
    m, n, off = struct.unpack_from('<4sII', file, 16)
    eq('data block', (m, n), (b'DATA', len(file) - 16))
    eq('constructor arguments', len(saved), 7 if kind == 'sseq' else 3)
    cls = type(o)
    o2 = cls(file, *saved[1:])
    eq('loaded unparsed', o2.parsed, False)
    if not parsed:
        eq('loaded', dump(o2), want)
    else:
        eq('events data', bytes(o2.eventsData), bytes(S.saveSequenceEvents(o.events, [])[0]))
    # without parsing: the same file again
    s2 = o2.save()
    eq('saved again', (bytes(s2[0]), s2[1:]), (file, saved[1:]))
    if not parsed:
        return
    if kind == 'ssar' and (not any(s[1] is not None for s in case[3]) and not case[2]):
        return
    o2.parse()
    got = dump(o2)
    eq('parsed', o2.parsed, True)
    eq('loaded and parsed', got, want)
    s3 = o2.save()
    eq('saved after parsing', (bytes(s3[0]), s3[1:]), (file, saved[1:]))
