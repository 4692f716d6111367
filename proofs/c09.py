"""C09: the overlay table and overlays."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import code, codeCompression

FIELDS = ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID')
M32 = 0xFFFFFFFF


def fetch(ovID, fileID):
    """The content of a file; given by contract"""
    return b'file%d' % fileID


def wanted(ids, ovID):
    """What "in" means for the IDs to load"""
    return ovID in ids


def build_table(E):
    n = E.int('n', 0)
    ids = E.increasing('id', n, 0, M32)
    f = {a: E.fun(a, 1, 0, M32) for a in FIELDS}
    f['compressedSize'] = E.fun('compressedSize', 1, 0, 0xFFFFFF)
    half = E.fun('flags', 1, 0, 127)
    d = E.source('file', 2)
    E.contents = d

    def pair(k):
        return (SInt(ids(k)), Obj(code.Overlay, {
            **{a: SInt(g(k)) for a, g in f.items()}, 'flags': mk(2 * half(k)),
            'data': MBytes(E.whole(d, ids(k), f['fileID'](k)))}))
    pairs = E.family(n, pair)
    member = E.fun('member', 1, boolean=True)
    E.contains_hook = lambda c, x: mkb(member(I(x)))
    t = MDict({PAIRS: pairs}, unordered=True)
    return t, MList(pairs), Opq('ids', ())


def contracts_table(E, ip):
    ip.contracts[fetch] = lambda ip, fn, args, kw: SBytes(E.whole(E.contents, args[0], args[1]))


def table(t, pairs, ids):
    before = snapshot(t)
    data = code.saveOverlayTable(t)
    same(t, before, 'table after save')
    prove(len(data) == 32 * len(pairs), 'length')
    for i, (k, o) in enumerate(pairs):
        vs = struct.unpack_from('<8I', data, 32 * i)
        prove(vs[0] == k and vs[1] == o.ramAddress and vs[2] == o.ramSize and vs[3] == o.bssSize, 'entry in table')
        prove(vs[4] == o.staticInitStart and vs[5] == o.staticInitEnd and vs[6] == o.fileID, 'entry in table')
        prove(vs[7] % 0x1000000 == o.compressedSize and vs[7] // 0x1000000 == o.flags, 'size and flags in table')
    calls = []

    def callback(ovID, fileID):
        calls.append((ovID, fileID))
        return fetch(ovID, fileID)

    got = code.loadOverlayTable(data, callback)
    same(list(got.items()), pairs, 'loaded overlays, in order of their IDs')
    same(calls, [(k, o.fileID) for k, o in pairs], 'requested files')
    same(code.saveOverlayTable(got), data, 'second save')
    calls2 = []

    def callback2(ovID, fileID):
        calls2.append((ovID, fileID))
        return fetch(ovID, fileID)

    some = code.loadOverlayTable(bytearray(data), callback2, ids)
    want = []
    wantcalls = []
    for k, o in pairs:
        if wanted(ids, k):
            want.append((k, o))
            wantcalls.append((k, o.fileID))
    same(list(some.items()), want, 'loaded overlays of the given IDs')
    same(calls2, wantcalls, 'requested files of the given IDs')


def build_overlay(E):
    return ([E.bytes('data')] + [E.int(a, 0, M32) for a in FIELDS]
            + [E.int('compressedSize', 0, 0xFFFFFF), E.int('flags', 0, 255), E.bool('compress')])


def contracts_code(E, ip):
    """Contract of the code compression, decided by C03"""
    packed = E.source('packed')

    def compress(ip, fn, args, kw):
        E.original = args[0].segs
        E.prove(args[1] is False, 'the overlay is not compressed as ARM9 main code')
        return SBytes(E.whole(packed))

    def decompress(ip, fn, args, kw):
        E.ropes_equal(args[0].segs, E.whole(packed), 'decompress is given the compressed overlay')
        return SBytes(E.original)
    ip.contracts[codeCompression.compress] = compress
    ip.contracts[codeCompression.decompress] = decompress


def fields(o):
    return [o.ramAddress, o.ramSize, o.bssSize, o.staticInitStart, o.staticInitEnd, o.fileID, o.compressedSize, o.flags]


def overlay(data, ra, rs, bs, si, se, fi, cs, flags, compress):
    o = code.Overlay(data, ra, rs, bs, si, se, fi, cs, flags - flags % 2)
    same(fields(o), [ra, rs, bs, si, se, fi, cs, flags - flags % 2], 'fields of a new overlay')
    same(o.data, data, 'data of a new overlay')
    prove(isinstance(o.data, bytearray), 'type of the data')
    o.flags = flags
    prove(o.compressed == (flags % 2 == 1), 'compressed')
    prove(o.verifyHash == (flags // 2 % 2 == 1), 'verifyHash')
    out = o.save(compress=compress)
    same(o.data, data, 'data after save')
    fl = flags - flags % 2 + (1 if compress else 0)
    same(fields(o), [ra, len(data), bs, si, se, fi, len(out), fl], 'fields after save')
    if not compress:
        same(out, data, 'saved data')
    p = code.Overlay(out, o.ramAddress, o.ramSize, o.bssSize, o.staticInitStart, o.staticInitEnd, o.fileID,
                     o.compressedSize, o.flags)
    same(p, o, 'reloaded overlay')
    out2 = p.save(compress=compress)
    same(out2, out, 'second save')
    same(p, o, 'overlay after the second save')


def build_flags(E):
    return E.int('flags', 0, 255), E.bool('v'), E.bool('w')


def flags(fl, v, w):
    o = code.Overlay(b'', 0, 0, 0, 0, 0, 0, 0, 0)
    o.flags = fl
    o.compressed = v
    prove(o.compressed == v and o.flags // 2 == fl // 2 and o.flags % 2 == (1 if v else 0), 'compressed set')
    o.verifyHash = w
    prove(o.verifyHash == w and o.compressed == v, 'verifyHash set')
    prove(o.flags == fl // 4 * 4 + (2 if w else 0) + (1 if v else 0), 'other flags are kept')


def case_table(m):
    n = m.int('n')
    t = {m.fun('id', k): tuple(m.fun(a, k) for a in FIELDS) + (m.fun('compressedSize', k), 2 * m.fun('flags', k))
         for k in range(min(n, 1000))}
    return ('table', t, [k for k in t if m.fun('member', k) in (True, 'True')])


LEMMAS = [
    Lemma('overlay table', build_table, table, contracts_table,
          covers=['ndspy.code.saveOverlayTable', 'ndspy.code.loadOverlayTable', 'ndspy.code.Overlay.__init__'],
          case=case_table),
    Lemma('overlay', build_overlay, overlay, contracts_code,
          covers=['ndspy.code.Overlay.save', 'ndspy.code.Overlay.__init__'],
          trusted=['codeCompression.decompress inverts codeCompression.compress (contract decided by C03)'],
          case=lambda m: ('ov', m.bytes('data'), m.int('flags'), m.bool('compress'))),
    Lemma('overlay flags', build_flags, flags, case=lambda m: ('ov', b'abc', m.int('flags'), m.bool('v'))),
]
