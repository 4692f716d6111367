"""C07: ROM save/load round trip."""
import struct
from vf.gen import build_bytes, rb, ri, rlen, rn
from .base import eq, ensure
from . import c04, c05

from ndspy import rom, code

QUICK, THOROUGH = 1200, 12000

U8 = ['unitCode', 'encryptionSeedSelect', 'deviceCapacity', 'pad015', 'pad016', 'pad017', 'pad018', 'pad019',
      'pad01A', 'pad01B', 'pad01C', 'region', 'version', 'autostart']
U32 = ['arm9EntryAddress', 'arm9RamAddress', 'arm7EntryAddress', 'arm7RamAddress',
       'normalCardControlRegisterSettings', 'secureCardControlRegisterSettings',
       'arm9CodeSettingsPointerAddress', 'arm7CodeSettingsPointerAddress', 'debugRomAddress']
U16 = ['secureAreaChecksum', 'secureTransferDelay']
RAW = {'idCode': 4, 'developerCode': 2, 'secureAreaDisable': 8, 'pad088': 0x38, 'nintendoLogo': 0x9C, 'pad16C': 0x94}
BLOBS = ['arm9', 'arm9PostData', 'arm7', 'iconBanner', 'debugRom', 'rsaSignature', 'pad200', 'name']
POST = b'\x21\x06\xC0\xDE'
BANNER = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}

# case: dict with any of the header fields, blob specs, 'ov9'/'ov7': list of
# (overlay ID, file ID, 24 filler bytes), 'files', 'tree', 'order'


def banner(v, n=None):
    n = n if n is not None else BANNER.get(v, 0x840)
    return [('lit', struct.pack('<H', v)), ('rand', v, n - 2)]


def ovtable(entries):
    out = b''
    for ovid, fid, w in entries:
        out += struct.pack('<6I', ovid, *w[:5]) + struct.pack('<II', fid, w[5])
    return out


def boundary():
    yield {}
    for f in U8:
        yield {f: 255}
        yield {f: 1}
    for f in U16:
        yield {f: 0xFFFF}
        yield {f: 0x0102}
    for f in U32:
        yield {f: 0xFFFFFFFF}
        yield {f: 0x01020304}
    for f, n in RAW.items():
        yield {f: [('rand', n, n)]}
        yield {f: b'\xFF' * n}
    for n in range(0, 13):
        yield {'name': b'ABCDEFGHIJKL'[:n]}
    for blob in ('arm9', 'arm7', 'debugRom'):
        for n in (0, 1, 3, 4, 0x1F, 0x20, 0x1FF, 0x200, 0x201, 0x3FF, 0x400, 0x401, 0x1000, 0x10001):
            yield {blob: [('rand', n, n)], 'files': [b'abc']}
            yield {blob: [('rand', n, n)], 'rsaSignature': [('rand', n + 1, 0x88)]}
    for k in (1, 2, 3, 42, 43):
        yield {'arm9': b'x' * 5, 'arm9PostData': (POST + b'12345678') * k}
        yield {'arm9': b'x' * (0x200 - 12 * (k % 40)), 'arm9PostData': (POST + b'12345678') * k, 'arm7': b'arm7'}
    for v in (0, 1, 2, 3, 4, 0x103, 0x104, 0xFFFF):
        yield {'iconBanner': banner(v)}
        yield {'iconBanner': banner(v), 'files': [b'1', b'22'], 'debugRom': b'dbg'}
    w = (1, 2, 3, 4, 5, 6)
    yield {'ov9': [(0, 0, w)], 'files': [b'ov0']}
    yield {'ov9': [(0, 2, w), (1, 0, w)], 'ov7': [(0, 1, w)], 'files': [b'a' * 5, b'b' * 0x200, b'c' * 0x201, b'd', b''],
           'tree': (3, ['d', 'e'], [])}
    yield {'ov7': [(0, 3, w)], 'files': [b'a', b'b', b'c', b'd']}
    yield {'ov9': [(i, 39 - i, w) for i in range(20)], 'files': [b'%d' % i * i for i in range(45)], 'order': list(range(44, -1, -1))}
    for order in ([], [2, 0, 1], [1, 1, 0], [5, 2, 9, 0], [2]):
        yield {'files': [b'first', b'second file', b'3' * 700], 'order': order, 'tree': (0, ['a', 'b'], [('d', (2, ['c'], []))])}
    yield {'files': [b'f%d' % i for i in range(300)], 'tree': (0, ['n%d' % i for i in range(300)], [])}
    yield {'files': [b'', b'', b'x', b'', b'y'], 'rsaSignature': [('rand', 5, 0x88)]}
    yield {'pad200': [('rand', 8, 0x3E00)]}
    yield {'pad200': [('rand', 8, 0x7E00)], 'arm9': b'abc'}
    yield {'pad200': b''}
    yield {'files': [[('rep', b'z', 0x20001)]]}


def gen(rng):
    c = {}
    for f in U8:
        if rng.random() < 0.3:
            c[f] = ri(rng, 0, 255)
    for f in U16:
        if rng.random() < 0.3:
            c[f] = ri(rng, 0, 0xFFFF)
    for f in U32:
        if rng.random() < 0.3:
            c[f] = ri(rng, 0, 0xFFFFFFFF)
    for f, n in RAW.items():
        if rng.random() < 0.3:
            c[f] = rng.randbytes(n)
    if rng.random() < 0.5:
        c['name'] = (rng.choice((b'', b'\0A', b' ')) + b'TITLE 12345')[:rng.randint(0, 12)].rstrip(b'\0')
    for f in ('arm9', 'arm7', 'debugRom'):
        if rng.random() < 0.6:
            n = rng.choice((rlen(rng, 600), rng.randint(0, 3000)))
            c[f] = [('rand', rng.randrange(1 << 30), n)]
    if rng.random() < 0.4:
        c['arm9PostData'] = b''.join(POST + rng.randbytes(8) for _ in range(rng.randint(1, 3)))
    if rng.random() < 0.4:
        c['iconBanner'] = banner(rng.choice((1, 2, 3, 0x103, 7)))
    if rng.random() < 0.6:
        c['rsaSignature'] = [('rand', rng.randrange(1 << 30), 0x88)]
    nf = rn(rng, 10, 30)
    c['files'] = [rng.choice((rb(rng, rlen(rng, 40)), [('rand', rng.randrange(1 << 30), rlen(rng, 1400))])) for _ in range(nf)]
    ids = list(range(nf))
    rng.shuffle(ids)
    k9 = rng.randint(0, nf) if rng.random() < 0.4 else 0
    k7 = rng.randint(0, nf - k9) if rng.random() < 0.4 else 0
    for key, part in (('ov9', ids[:k9]), ('ov7', ids[k9:k9 + k7])):
        if part:
            c[key] = [(i, fid, tuple(ri(rng, 0, 0xFFFFFFFF) for _ in range(6))) for i, fid in enumerate(part)]
    if rng.random() < 0.6:
        c['tree'] = c05.gen(rng) if rng.random() < 0.5 else c04.gen(rng)[0]
    if rng.random() < 0.5:
        o = list(range(nf)) + rng.choice(([], [nf, nf + 3], [0] if nf else []))
        rng.shuffle(o)
        c['order'] = o[:rng.randint(0, len(o))]
    if rng.random() < 0.2:
        c['pad200'] = [('rand', rng.randrange(1 << 30), rng.choice((0, 0x10, 0x3E00, 0x3E00, 0x7E00)))]
    return c


def make(c):
    r = rom.NintendoDSRom()
    for f in U8 + U16 + U32:
        if f in c:
            setattr(r, f, c[f])
    for f in list(RAW) + BLOBS:
        if f in c:
            setattr(r, f, build_bytes(c[f]))
    r.arm9OverlayTable = ovtable(c.get('ov9', []))
    r.arm7OverlayTable = ovtable(c.get('ov7', []))
    r.files = [build_bytes(f) for f in c.get('files', [])]
    if 'tree' in c:
        r.filenames = c04.build(c04.norm(c['tree']))
    r.sortedFileIds = list(c.get('order', []))
    return r


def dump(r):
    d = {f: getattr(r, f) for f in U8 + U16 + U32}
    for f in list(RAW) + BLOBS + ['arm9OverlayTable', 'arm7OverlayTable']:
        d[f] = bytes(getattr(r, f))
    d['files'] = [bytes(f) for f in r.files]
    d['filenames'] = c04.dump(r.filenames)
    d['sortedFileIds'] = list(r.sortedFileIds)
    return d


def expected(before, data):
    w = dict(before)
    pad = w['pad200']
    pad += bytes(-(len(pad) + 0x200) % 0x4000)
    w['pad200'] = pad
    return w


def precond(c):
    """Data right after the post-data must not look like more of it."""
    r = make(c)
    end = len(r.arm9) + len(r.arm9PostData)
    if len(r.arm9PostData) % 12 or any(r.arm9PostData[i:i + 4] != POST for i in range(0, len(r.arm9PostData), 12)):
        return False
    nxt = r.arm9OverlayTable or r.arm7
    return not (end % 0x200 == 0 and nxt[:4] == POST)


def check(case):
    if not precond(case):
        return
    r = make(case)
    before = dump(r)
    data = r.save()
    eq('ROM object after save', dump(r), before)
    r2 = rom.NintendoDSRom(data)
    got, want = dump(r2), expected(before, data)
    # documented differences: signature is read with a fixed length, the word
    # at 0x1000 is overwritten, the order of files is the order in the image
    sig, wsig = got.pop('rsaSignature'), want.pop('rsaSignature')
    if len(wsig) == 0x88:
        eq('rsaSignature', sig, wsig)
    else:
        ensure(sig.startswith(wsig) and not any(sig[len(wsig):]), f'rsaSignature: got {sig!r}, expected {wsig!r} and zeros')
    p, wp = got.pop('pad200'), want.pop('pad200')
    eq('pad200 length', len(p), len(wp))
    eq('pad200 before 0x1000', p[:0xE00], wp[:0xE00])
    eq('pad200 after 0x1004', p[0xE04:], wp[0xE04:])
    got_order = got.pop('sortedFileIds')
    want.pop('sortedFileIds')
    for k in want:
        eq(k, got[k], want[k])
    eq('sortedFileIds', sorted(got_order), list(range(len(r.files))))
    # the requested order is the order in the image (files that are not overlays)
    ov = {e[1] for e in case.get('ov9', [])} | {e[1] for e in case.get('ov7', [])}
    seen = []
    for i in list(case.get('order', [])) + list(range(len(r.files))):
        if i < len(r.files) and i not in ov and i not in seen:
            seen.append(i)
    seen = [i for i in seen if len(r.files[i])]
    eq('order of files', [i for i in got_order if i in seen], seen)
    # overlays are reachable
    for key, load in (('ov9', r2.loadArm9Overlays), ('ov7', r2.loadArm7Overlays)):
        if key in case and all(not (e[2][5] >> 24) & 1 for e in case[key]):
            ovs = load()
            eq(f'{key} IDs', sorted(ovs), sorted(e[0] for e in case[key]))
            for ovid, fid, w in case[key]:
                eq(f'{key} overlay {ovid} data', bytes(ovs[ovid].data), bytes(r.files[fid]))
    # a second round trip is stable (empty files have no place in the order)
    first, second = dump(r2), dump(rom.NintendoDSRom(r2.save()))
    for d in (first, second):
        d.pop('pad200')
        d['sortedFileIds'] = [i for i in d['sortedFileIds'] if d['files'][i]]
    for k in first:
        eq(f'second round trip: {k}', second[k], first[k])
    # access by name
    t = c04.norm(case.get('tree', (0, [], [])))
    f0 = c04.build(t)
    for p_, _ in list(c05.listing(t))[:6]:
        i = f0.idOf(p_)
        if i is not None and i < len(r.files):
            eq(f'getFileByName({p_!r})', bytes(r2.getFileByName(p_)), bytes(r.files[i]))
            r2.setFileByName(p_, b'replaced')
            eq('files after setFileByName', [bytes(f) for f in r2.files],
               [b'replaced' if j == i else bytes(f) for j, f in enumerate(r.files)])
            r2.files[i] = r.files[i]
