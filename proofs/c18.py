"""C18: SDAT sound archives."""
import itertools
import struct

import z3

from vf.terms import *
from vf import builtin_ops as ops
from vf.interp import prove_equal
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from props.c18 import LISTS, OPTS

from ndspy import _common, soundArchive, soundBank, soundGroup, soundSequence, soundSequenceArchive, soundSequencePlayer
from ndspy import soundStream, soundStreamPlayer, soundWaveArchive

SDAT = soundArchive.SDAT
S = 'ndspy.soundArchive.SDAT.'
B16, B8 = 0xFFFF, 0xFF
# class and the values that are kept outside of the file
FILES = {
    'sequences': (soundSequence.SSEQ, {'unk02': B16, 'bankID': B16, 'volume': B8, 'channelPressure': B8, 'polyphonicPressure': B8, 'playerID': B8}),
    'sequenceArchives': (soundSequenceArchive.SSAR, {'unk02': B16}),
    'banks': (soundBank.SBNK, {'unk02': B16}),
    'waveArchives': (soundWaveArchive.SWAR, {'unk02': B16}),
    'streams': (soundStream.STRM, {'unk02': B16, 'volume': B8, 'priority': B8, 'playerID': B8, 'unk07': B8}),
}
DEFAULT = (False, None, 0x20, True, False)


def contracts(E, ip):
    """
    Files: saving gives some bytes and the values outside of the file, and
    loading them, with more bytes behind, restores the contents (C14 - C17)
    """
    for kind, (cls, fields) in FILES.items():
        def save(ip, fn, args, kw, kind=kind, fields=fields):
            o = args[0]
            r = (SBytes(E.whole(E.contents[kind, o.d['content']])),) + tuple(o.d[a] for a in fields)
            if kind == 'sequenceArchives':
                return r + (MList([El(s.v[0]) for s in o.d['sequences'].segs]),)
            if kind == 'banks':
                return r + (MList(o.d['waveArchiveIDs'].segs),)
            return r

        def init(ip, fn, args, kw, kind=kind, fields=fields):
            o, file, *rest = args
            c = E.loading.pop(0)
            src = SBytes(E.whole(E.contents[c]))
            segs = ops.byte_segs(file)
            n = ropelen(src.segs)
            E.prove(I(ropelen(segs)) >= I(n), 'the file is complete')
            prove_equal(E, SBytes(E.split(segs, n)[0]), src, 'the file to load')
            E.prove(z3.BoolVal(c[0] == kind and len(rest) >= len(fields) and not kw), 'the kind of file to load')
            E.set(o.d, 'content', c[1])
            for a, v in zip(fields, rest):
                E.set(o.d, a, v)
            if kind == 'sequenceArchives':
                names = rest[1]
                names = [] if names is None else [s.v for s in names.segs]
                k = E.counts[c[1]]
                names = (names + [None] * k)[:k]
                E.set(o.d, 'sequences', MList([El((x, i)) for i, x in enumerate(names)]))
            elif kind == 'banks':
                E.set(o.d, 'waveArchiveIDs', rest[1])
            E.set(o.d, 'dataMergeOptimizationID', 0)

        ip.contracts[cls.save] = save
        ip.contracts[cls.__init__] = init

    def find(ip, fn, args, kw):
        """Different contents are different files (they are told apart by cases)"""
        L, x, *start = args
        s, = ops.byte_segs(x)
        for i, e in enumerate(L.segs):
            t, = e.v.segs
            if i >= (start[0] if start else 0) and t.src is s.src:
                return i
        return -1
    ip.contracts[_common.listFind] = find


def build_find(E):
    n = E.int('n', 0)
    f = E.fun('file', 1)
    start = E.int('start', 0)
    E.individuals = {'file'}
    return E.list(n, lambda k: Opq('file', (SInt(f(k)),))), Opq('file', (E.int('x'),)), start


def find(files, x, start):
    for r, at in ((_common.listFind(files, x), 0), (_common.listFind(files, x, start), start)):
        if r == -1:
            for i in range(len(files)):
                prove(i < at or files[i] != x, 'not there')
        else:
            prove(at <= r and r < len(files), 'in the list')
            prove(files[r] == x, 'found')
            for i in range(len(files)):
                prove(i < at or i >= r or files[i] != x, 'the first one')


def length(E, name, a):
    """Any length, as a multiple of a less some padding"""
    blocks, pad = E.int(f'blocks {name}', 1), E.int(f'pad {name}', 0, a - 1)
    n = a * blocks.t - I(pad)
    return lambda: n


def build(shape, opts):
    """
    shape: for each list its slots: (has a name, None | contents), contents:
    (number of the contents, merge ID[, more]) of a file, the number of entries
    of a group
    """
    def build(E):
        E.encode_hook = lambda o, e: SBytes(o.segs) if isinstance(o, SStr) else None
        E.decode_hook = lambda segs, e: SStr(segs)
        E.contents, E.counts, E.loading = {}, {}, []
        n = itertools.count()

        def name(has):
            return SStr(E.whole(E.source(f'name{next(n)}', without=(0,)))) if has else None

        def thing(k, c):
            if c is None:
                return None
            if k in FILES:
                cls, fields = FILES[k]
                number, merge = c[:2]
                if (k, number) not in E.contents:
                    E.contents[k, number] = E.source(f'{k}{number}', length=length(E, f'{k}{number}', opts[2]))
                E.loading.append((k, number))
                f = {'content': number, 'dataMergeOptimizationID': merge}
                f.update((a, E.int(a, 0, hi)) for a, hi in fields.items())
                if k == 'sequenceArchives':
                    f['sequences'] = MList([El((name(x), i)) for i, x in enumerate(c[2])])
                    E.counts[number] = len(c[2])
                elif k == 'banks':
                    f['waveArchiveIDs'] = MList([El(E.int('id', 0, 0x7FFF) if x else None) for x in c[2]])
                return Obj(cls, f)
            if k == 'sequencePlayers':
                return Obj(soundSequencePlayer.SequencePlayer, {
                    'maxSequences': E.int('max', 0, B16), 'heapSize': E.int('heap', 0, 0xFFFFFFFF),
                    'channels': MSet({c: E.bool('channel').t for c in range(16)})})
            if k == 'groups':
                return MList([El((E.int('type', 0, 3), E.int('options', 0, 15), E.int('id', 0, 0xFFFFFFFF))) for _ in range(c)])
            return Obj(soundStreamPlayer.StreamPlayer, {'channels': MList([El(E.int('channel', 0, 255)) for _ in range(c)])})
        lists = tuple(MList([El((name(x), thing(k, c))) for x, c in shape.get(k, ())]) for k in LISTS)
        return lists, tuple(opts)
    return build


def group(entries):
    if entries is None:
        return None
    r = []
    for t, o, i in entries:
        e = soundGroup.GroupEntry(t, o, i)
        prove(e.type == t and e.id == i and e.loadSSEQ == (o % 2 >= 1) and (e.loadSBNKSWARsFrom == 1) == (o % 4 >= 2)
              and e.loadSWAR == (o % 8 >= 4) and e.loadSSAR == (o >= 8), 'group entry')
        r.append(e)
    return r


def check_slots(what, got, want):
    prove(len(got) == len(want), what + ': number')
    for i in range(len(want)):
        same(got[i][0], want[i][0], what + ': name')
        a, b = got[i][1], want[i][1]
        prove((a is None) == (b is None), what + ': empty slot')
        if b is None:
            continue
        if what == 'groups':
            same([e.save() for e in a], [e.save() for e in b], 'group')
        elif what == 'streamPlayers':
            same(a.channels, b.channels, 'stream player')
        elif what == 'sequencePlayers':
            prove(a.maxSequences == b.maxSequences and a.heapSize == b.heapSize, 'sequence player')
            for c in range(16):
                prove((c in a.channels) == (c in b.channels), 'channels')
        else:
            prove(a.content == b.content and a.unk02 == b.unk02, what + ': file')
            if what == 'sequences':
                prove(a.bankID == b.bankID and a.volume == b.volume and a.channelPressure == b.channelPressure
                      and a.polyphonicPressure == b.polyphonicPressure and a.playerID == b.playerID, 'sequence')
            elif what == 'sequenceArchives':
                same(a.sequences, b.sequences, 'sequence names')
            elif what == 'banks':
                n = len(b.waveArchiveIDs)
                same(a.waveArchiveIDs, b.waveArchiveIDs + [None] * (4 - n), 'wave archives')
            elif what == 'streams':
                prove(a.volume == b.volume and a.priority == b.priority and a.playerID == b.playerID and a.unk07 == b.unk07, 'stream')


def check_archive(a, lists):
    check_slots('sequences', a.sequences, lists[0])
    check_slots('sequenceArchives', a.sequenceArchives, lists[1])
    check_slots('banks', a.banks, lists[2])
    check_slots('waveArchives', a.waveArchives, lists[3])
    check_slots('sequencePlayers', a.sequencePlayers, lists[4])
    check_slots('groups', a.groups, lists[5])
    check_slots('streamPlayers', a.streamPlayers, lists[6])
    check_slots('streams', a.streams, lists[7])


def archive(lists, opts):
    a = SDAT()
    for x in (a.sequences, a.sequenceArchives, a.banks, a.waveArchives, a.sequencePlayers, a.groups, a.streamPlayers, a.streams):
        same(x, [], 'an empty archive')
    groups = [(n, group(g)) for n, g in lists[5]]
    lists = lists[:5] + (groups,) + lists[6:]
    a.sequences, a.sequenceArchives, a.banks, a.waveArchives = lists[:4]
    a.sequencePlayers, a.groups, a.streamPlayers, a.streams = lists[4:]
    a.fatLengthsIncludePadding, a.firstFileAlignment, a.fileAlignment, a.padAtEnd, a.padSymbSizeTo4InSDATHeader = opts
    before = snapshot(a)
    data = a.save()
    same(a, before, 'archive after save')
    assume(len(data) <= 0xFFFFFFFF)
    magic, bom, version, length, hsize, count = struct.unpack_from('<4sHHIHH', data)
    prove(magic == b'SDAT' and bom == 0xFEFF and version == 0x100 and length == len(data) and hsize == 0x40, 'header')
    so, sn, io, il, fo, fl, do, dl = struct.unpack_from('<8I', data, 16)
    prove(so == 0 or so == 0x40, 'symbols block')
    prove(count == (4 if so else 3), 'number of blocks')
    end = 0x40
    if so:
        same(data[so : so + 4], b'SYMB', 'symbols block')
        end = so + sn
    prove(end <= io and io + il <= fo and fo + fl <= do and do + dl == len(data), 'order of the blocks')
    prove(io % 4 == 0 and fo % 4 == 0 and do % 4 == 0, 'alignment of the blocks')
    same(data[io : io + 4], b'INFO', 'info block')
    same(data[fo : fo + 4], b'FAT ', 'file allocation table')
    same(data[do : do + 4], b'FILE', 'files')
    files, = struct.unpack_from('<I', data, fo + 8)
    same(data[do + 4 : do + 12], struct.pack('<II', dl, files), 'header of the files')
    end = do + 12
    for i in range(files):
        at, n = struct.unpack_from('<II', data, fo + 12 + 16 * i)
        prove(end <= at and at % a.fileAlignment == 0, 'place of a file')
        end = at + n
    b = SDAT(bytes(data))
    check_archive(b, lists)


def slots(k, n):
    """All lists of n slots: with and without names and contents, files shared or not"""
    def content(i):
        if k == 'sequenceArchives':
            return [None, (i, i, ()), (i, i, (True, False))]
        if k == 'banks':
            return [None, (i, i, (True, False, True)[:i + 1])]
        if k in FILES:
            return [None, (i, i)]
        return [None] + ([0, 2] if k == 'groups' else [1, 16] if k == 'streamPlayers' else [1])
    return list(itertools.product(*[[(x, c) for x in (True, False) for c in content(i)] for i in range(n)]))


def small(k, s, rest=(), opts=DEFAULT):
    shape = dict(rest)
    shape[k] = s
    text = lambda c: '-' if c is None else str(c).replace(' ', '')
    label = ' '.join(('named:' if x else '') + text(c) for x, c in s)
    return Lemma(f'{k} [{label}]' + (' among others' if rest else '') + ('' if opts == DEFAULT else f' {opts}'), build(shape, opts), archive, contracts,
                 covers=[S + x for x in ('__init__', 'save', '_initFromData')])


def contents(k, i, merge=None):
    """Something to put in a slot"""
    if k in FILES:
        more = ((True, False),) if k == 'sequenceArchives' else ((True, False, True, True)[:i + 1],) if k == 'banks' else ()
        return (i, i if merge is None else merge) + more
    return 1 + i


def shared(k):
    """Files that are equal, with and without permission to merge them"""
    c = contents
    return [tuple((True, x) for x in xs) for xs in (
        (c(k, 0, 0), c(k, 0, 0)), (c(k, 0, 0), c(k, 0, 1)), (c(k, 0, 0), c(k, 1, 0), c(k, 0, 0)), (c(k, 0, 0), c(k, 0, 1), c(k, 0, 1)))]


FULL = {k: ((True, contents(k, 0)), (False, None), (True, contents(k, 1))) for k in LISTS}
NONAMES = {k: ((False, contents(k, 0)[:2] + ((False,),) if k == 'sequenceArchives' else contents(k, 0)), (False, None)) for k in LISTS}
SPARSE = {k: ((True, None), (i % 2 == 0, contents(k, 0))) for i, k in enumerate(LISTS)}
OPTIONS = [DEFAULT, (True, None, 0x20, True, False), (False, 4, 0x20, True, False), (False, 0x80, 0x20, True, False), (False, None, 1, True, True),
           (False, None, 0x200, False, False), (True, 1, 4, False, True)]


def whole(name, shape, opts):
    return Lemma(f'{name} {opts}', build(shape, opts), archive, contracts, covers=[S + x for x in ('__init__', 'save', '_initFromData')])


def two(k):
    return [small(k, s) for s in slots(k, 2)]


WIDE = (False, None, 0x200, False, False)
LEMMAS = [Lemma('searching a list', build_find, find, covers=['ndspy._common.listFind'])]
LEMMAS += [whole('all lists', FULL, WIDE), whole('some names', SPARSE, WIDE), whole('some names', SPARSE, DEFAULT)]
LEMMAS += [whole('no names', NONAMES, o) for o in OPTIONS]
LEMMAS += [small(k, s) for k in LISTS for s in slots(k, 1)]
LEMMAS += [l for k in LISTS if k not in FILES for l in two(k)] + two('waveArchives')
LEMMAS += [small(k, s) for k in FILES for s in shared(k)[1:3]]
THOROUGH = [whole('some names', SPARSE, o) for o in OPTIONS if o not in (WIDE, DEFAULT)]
THOROUGH += [l for k in FILES if k != 'waveArchives' for l in two(k)]
THOROUGH += [small(k, s) for k in FILES for s in shared(k)[:1] + shared(k)[3:]]
LEVEL = 'other'
BOUNDED = ['archives: every list of one slot (two for players, groups and wave archives; thorough: for every list) with and without name and contents, '
           'equal files with equal and different merge IDs, all eight lists at once with up to three slots, seven combinations of the options; '
           'names, files and numbers are arbitrary']
TRUSTED = ['SSEQ, SSAR, SBNK, SWAR, STRM: loading a saved file, also with bytes behind it, restores its contents (C14 to C17)']
ASSUMPTIONS = ['the archive is shorter than 4 GB, files have at least one byte']
