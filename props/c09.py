"""C09: overlay table and overlays."""
import struct
from vf.gen import build_bytes, ri, rb, rlen, rn
from .base import eq, ensure
from . import c03

from ndspy import code

QUICK, THOROUGH = 3000, 30000
FIELDS = ['ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize', 'flags']

# case: ('table', {id: (7 fields.., flags)}, subset or None) | ('ov', data spec, flags, compress)


def boundary():
    yield ('table', {}, None)
    m = 0xFFFFFFFF
    base = (1, 2, 3, 4, 5, 6, 7, 0)
    for i in range(6):
        v = list(base)
        v[i] = m
        yield ('table', {0: tuple(v)}, None)
    yield ('table', {0: (1, 2, 3, 4, 5, 6, 0xFFFFFF, 0)}, None)
    for fl in (0, 2, 4, 0x80, 0xFE):
        yield ('table', {0: (1, 2, 3, 4, 5, 6, 7, fl)}, None)
    yield ('table', {5: base, 1: base, 300: base, 0: base}, None)
    yield ('table', {5: base, 1: base, 300: base, 0: base}, [1, 300])
    yield ('table', {5: base, 1: base, 300: base, 0: base}, [])
    yield ('table', {5: base}, [6])
    yield ('table', {m: base, 0x80000000: base}, None)
    yield ('table', {i: (i, i * 2, i * 3, i * 4, i * 5, i * 6, i * 7, 0) for i in range(300, -1, -1)}, list(range(0, 300, 3)))
    for fl in (0, 1, 2, 3, 0xFC, 0xFF):
        for comp in (False, True):
            for d in (b'', b'a', b'abcd' * 40, [('rand', 3, 100)], [('low', 3, 1000, 2)], [('rep', b'\0', 0x1234)]):
                yield ('ov', d, fl, comp)


def gen(rng):
    if rng.random() < 0.5:
        n = rn(rng, 8, 40)
        t = {}
        for _ in range(n):
            t[ri(rng, 0, 0xFFFFFFFF) if rng.random() < 0.3 else rng.randrange(50)] = tuple(
                ri(rng, 0, 0xFFFFFFFF) for _ in range(6)) + (ri(rng, 0, 0xFFFFFF), ri(rng, 0, 127) * 2)
        sub = None if rng.random() < 0.5 else [k for k in t if rng.random() < 0.5] + [77777]
        return ('table', t, sub)
    return ('ov', rng.choice((rb(rng, rlen(rng, 300)), c03.c01.gen(rng))), ri(rng, 0, 255), rng.random() < 0.6)


def fields(o):
    return tuple(getattr(o, f) for f in FIELDS)


def check(case):
    if case[0] == 'table':
        _, t, sub = case
        table = {}
        for k, v in t.items():
            table[k] = code.Overlay(b'data', *v)
        data = code.saveOverlayTable(table)
        eq('table after save', {k: fields(o) for k, o in table.items()}, t)
        eq('table length', len(data), 32 * len(t))
        eq('order by ID', [struct.unpack_from('<I', data, 32 * i)[0] for i in range(len(t))], sorted(t))
        calls = []

        def cb(ovid, fid):
            calls.append((ovid, fid))
            return b'file%d' % fid
        got = code.loadOverlayTable(bytes(data), cb) if sub is None else code.loadOverlayTable(bytes(data), cb, sub)
        want = {k: v for k, v in t.items() if sub is None or k in sub}
        eq('loaded overlays', {k: fields(o) for k, o in got.items()}, want)
        eq('order of loaded overlays', list(got), sorted(want))
        eq('file callback', calls, [(k, want[k][5]) for k in sorted(want)])
        for k, o in got.items():
            eq('overlay data', bytes(o.data), b'file%d' % want[k][5])
            eq('compressed', o.compressed, False)
            eq('verifyHash', o.verifyHash, bool(want[k][7] & 2))
        return
    _, spec, flags, compress = case
    data = build_bytes(spec)
    o = code.Overlay(data, 0x2000000, 1, 16, 3, 4, 5, 6, flags & ~1)
    eq('overlay data', bytes(o.data), data)
    o.flags = flags
    eq('compressed', o.compressed, bool(flags & 1))
    eq('verifyHash', o.verifyHash, bool(flags & 2))
    out = o.save(compress=compress)
    eq('overlay data after save', bytes(o.data), data)
    eq('fields after save', fields(o), (0x2000000, len(data), 16, 3, 4, 5, len(out), flags & ~1 | compress))
    if not compress:
        eq('saved data', bytes(out), data)
    else:
        if bytes(out) == c03.raw_form(data):
            return
    o2 = code.Overlay(bytes(out), *fields(o))
    eq('reloaded data', bytes(o2.data), data)
    eq('reloaded fields', fields(o2), fields(o))
    for v in (True, False):
        o2.verifyHash = v
        eq('verifyHash setter', (o2.verifyHash, o2.compressed, o2.flags & ~2), (v, bool(compress), o.flags & ~2))
        o2.compressed = v
        eq('compressed setter', (o2.compressed, o2.verifyHash, o2.flags & ~3), (v, v, o.flags & ~3))
        o2.compressed = compress
