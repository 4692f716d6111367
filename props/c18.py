"""C18: SDAT sound archives."""
import struct
from vf.gen import ri, rname
from .base import eq, ensure
from . import c13, c14, c15, c16, c17

from ndspy import soundArchive, soundGroup, soundSequencePlayer, soundStreamPlayer

QUICK, THOROUGH = 1500, 15000
LISTS = ('sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers', 'streams')
OPTS = ('fatLengthsIncludePadding', 'firstFileAlignment', 'fileAlignment', 'padAtEnd', 'padSymbSizeTo4InSDATHeader')
MODS = {'sequences': c14, 'sequenceArchives': c14, 'banks': c15, 'waveArchives': c16, 'streams': c17}
# case: {list name: [(name, None | (merge ID, content))], 'opts': 5-tuple}
SS = ('sseq', (1, 2, 3, 4, 5, 6), b'\xFF', False)
SA = ('ssar', 5, b'\xFF\xFF', [('one', 0, (1, 2, 3, 4, 5)), (None, 1, (6, 7, 8, 9, 10)), ('three', None, (1, 2, 3, 4, 5))], False)
BK = (7, [1, None, 3], [('s', c15.note(3), 0, 0), None])
WA = (9, [(1, True, 1, 2, 3, 4, b'abcdefgh'), (0, False, 1, 2, 3, 4, b'')])
ST = (1, (1, 2, 3, 4, 5), (True, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19), (2, 2, 8, 4), 1)
SP, GR, TP = (3, 0x8001, 77), [(0, 15, 5), (3, 2, 0xFFFFFFFF)], [0, 255, 7]
SAMPLE = dict(zip(LISTS, (SS, SA, BK, WA, SP, GR, TP, ST)))


def boundary():
    yield {}
    for k in LISTS:
        for nm in ('name', None, '', '\xff' * 40):
            yield {k: [(nm, (0, SAMPLE[k]))]}
            yield {k: [(nm, None)]}
            yield {k: [(None, None), (nm, (0, SAMPLE[k])), ('x', None), ('y', (0, SAMPLE[k])), (None, (1, SAMPLE[k]))]}
        yield {k: [('n%d' % i, (i % 2, SAMPLE[k])) for i in range(257)]}
    full = {k: [('a', (0, SAMPLE[k])), (None, None), ('bb', (1, SAMPLE[k])), ('ccc', (0, SAMPLE[k]))] for k in LISTS}
    yield full
    noname = {k: [(None, (0, SAMPLE[k])), (None, None), (None, (1, SAMPLE[k]))] for k in LISTS}
    noname['sequenceArchives'] = [(None, (0, SA[:3] + ([(None, 0, (1, 2, 3, 4, 5))], False))), (None, None)]
    yield noname
    for fl in (False, True):
        for first in (None, 1, 4, 0x20, 0x200):
            for al in (1, 2, 4, 8, 0x10, 0x20, 0x200):
                for pad in (True, False):
                    yield dict(full, opts=(fl, first, al, pad, pad))
    # equal prefixes and files equal up to metadata
    yield {'sequences': [('a', (0, SS)), ('b', (0, ('sseq', (9, 8, 7, 6, 5, 4), b'\xFF', False))), ('c', (0, ('sseq', SS[1], b'\xFF\xFF', False)))]}
    yield {'sequenceArchives': [('a', (0, SA)), ('b', (0, SA[:1] + (6,) + SA[2:])), ('c', (0, SA[:3] + ([(None,) + s[1:] for s in SA[3]], False)))]}
    for n in range(5):
        yield {'banks': [('b', (0, (1, [0, 1, 0x7FFF, 2][:n], [])))]}
        yield {'banks': [('b', (0, (1, [None] * (n - 1) + [5], [])))] if n else []}
    for o in range(16):
        yield {'groups': [('g', (0, [(t, o, t) for t in range(4)]))]}
    yield {'groups': [('g', (0, [])), (None, (0, [(1, 2, 3)] * 300))]}
    for m in (0, 1, 0x8000, 0xFFFF):
        yield {'sequencePlayers': [('p', (0, (0xFFFF, m, 0xFFFFFFFF)))]}
    for n in (0, 1, 15, 16, 17, 255):
        yield {'streamPlayers': [('p', (0, [i & 255 for i in range(n)])), ('q', (0, [9]))]}


def gen(rng):
    case = {}

    def name():
        return rng.choice((None, '', rname(rng, 1, 12, bad='\0')))
    allnone = rng.random() < 0.2
    for k in LISTS:
        if rng.random() < 0.5:
            continue
        pool = []
        for _ in range(rng.choice((1, 2, 3))):
            if k == 'sequences':
                while True:
                    c = c14.gen(rng)
                    if c[0] == 'sseq':
                        break
                pool.append(c[:1] + (tuple(v & (0xFFFF if i < 2 else 255) for i, v in enumerate(c[1])),) + c[2:])
            elif k == 'sequenceArchives':
                while True:
                    c = c14.gen(rng)
                    if c[0] == 'ssar' and all('\0' not in (s[0] or '') for s in c[3]):
                        break
                if allnone:
                    c = c[:3] + ([(None,) + s[1:] for s in c[3]], c[4])
                pool.append(c)
            elif k in MODS:
                pool.append(MODS[k].gen(rng))
            elif k == 'sequencePlayers':
                pool.append((ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFF), ri(rng, 0, 0xFFFFFFFF)))
            elif k == 'groups':
                pool.append([(rng.randrange(4), rng.randrange(16), ri(rng, 0, 0xFFFFFFFF)) for _ in range(rng.randint(0, 4))])
            else:
                pool.append([ri(rng, 0, 255) for _ in range(rng.randint(0, 20))])
        case[k] = [(None if allnone else name(), None if rng.random() < 0.2 else (rng.choice((0, 0, 1)), rng.choice(pool)))
                   for _ in range(rng.choice((1, 2, 3, 5)))]
    if rng.random() < 0.5:
        case['opts'] = (rng.random() < 0.3, rng.choice((None, None, 1, 4, 0x20, 0x80)), rng.choice((0x20, 0x20, 1, 4, 0x10, 0x40, 0x200)),
                        rng.random() < 0.7, rng.random() < 0.3)
    return case


def valid(case):
    for nm, x in case.get('banks', []):
        if x and c15.size(x[1][2]) > 0xFFFF:
            return False
    for nm, x in case.get('streams', []):
        if x and x[1][3][1] == 0 and x[1][2][5] > x[1][2][6]:
            return False
    return True


def make(case):
    s = soundArchive.SDAT()
    for k in LISTS:
        lst = []
        for nm, x in case.get(k, []):
            if x is None:
                o = None
            else:
                merge, c = x
                if k in MODS:
                    o = MODS[k].make(c)
                    o.dataMergeOptimizationID = merge
                elif k == 'sequencePlayers':
                    o = soundSequencePlayer.SequencePlayer(c[0], {i for i in range(16) if c[1] >> i & 1}, c[2])
                elif k == 'groups':
                    o = [soundGroup.GroupEntry(*e) for e in c]
                else:
                    o = soundStreamPlayer.StreamPlayer(list(c))
            lst.append((nm, o))
        setattr(s, k, lst)
    for f, v in zip(OPTS, case.get('opts', (False, None, 0x20, True, False))):
        setattr(s, f, v)
    return s


def content(k, o):
    if o is None:
        return None
    if k == 'sequencePlayers':
        return (o.maxSequences, set(o.channels), o.heapSize)
    if k == 'groups':
        return [(int(e.type), e.id, bool(e.loadSSEQ), int(e.loadSBNKSWARsFrom), bool(e.loadSWAR), bool(e.loadSSAR)) for e in o]
    if k == 'streamPlayers':
        return list(o.channels)
    if k in ('banks', 'waveArchives', 'streams'):
        return MODS[k].dump(o)
    if not o.parsed:
        return c14.dump(o)
    s = o.save()
    return c14.dump(type(o)(bytes(s[0]), *s[1:]))


def dump(s):
    return {k: [(n, content(k, o)) for n, o in getattr(s, k)] for k in LISTS}


def check(case):
    if not valid(case):
        return
    s = make(case)
    want = dump(s)
    opts = [getattr(s, f) for f in OPTS]
    for k in LISTS:
        eq(f'{k}: names and empty slots', [(n, c is None) for n, c in want[k]], [(n, x is None) for n, x in case.get(k, [])])
    for n, (nm, x) in enumerate(case.get('groups', [])):
        if x:
            eq('group', want['groups'][n][1], [(t, i, bool(o & 1), o >> 1 & 1, bool(o & 4), bool(o & 8)) for t, o, i in x[1]])
    data = bytes(s.save())
    eq('archive after save', (dump(s), [getattr(s, f) for f in OPTS]), (want, opts))
    eq('header', struct.unpack_from('<4sHHI', data, 0), (b'SDAT', 0xFEFF, 0x100, len(data)))
    s2 = soundArchive.SDAT(data)
    got = dump(s2)
    for k in LISTS:
        eq(k, got[k], want[k])
    # blocks and files: no overlap, all inside
    blocks = [b for b in zip(*[iter(struct.unpack_from('<8I', data, 16))] * 2)]
    prev = 0x40
    for i, (o, n) in enumerate(blocks):
        if i == 0 and o == 0:
            continue
        ensure(prev <= o and o + n <= len(data), f'block {i} at {o:#x}+{n:#x}')
        eq(f'block {i} magic', data[o:o + 4], [b'SYMB', b'INFO', b'FAT ', b'FILE'][i])
        prev = o + n
    fo = blocks[2][0]
    nfiles, = struct.unpack_from('<I', data, fo + 8)
    prev = blocks[3][0] + 12
    al = opts[2]
    for i in range(nfiles):
        o, n = struct.unpack_from('<II', data, fo + 12 + 16 * i)
        ensure(prev <= o and (o + n <= len(data) or opts[0]), f'file {i} at {o:#x}+{n:#x}')
        eq(f'file {i} alignment', o % al, 0)
        prev = o + n
    # a second round trip changes nothing
    eq('second round trip', dump(soundArchive.SDAT(bytes(s2.save()))), want)
