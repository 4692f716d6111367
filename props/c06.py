"""C06: NARC."""
import struct
from vf.gen import build_bytes, rb, rlen, rn
from .base import eq, ensure, raises
from . import c04, c05

from ndspy import narc, fnt

QUICK, THOROUGH = 2500, 25000
# case: ([file specs], tree, endianness)


def boundary():
    E = (0, [], [])
    for e in '<>':
        yield ([], E, e)
        for n in range(0, 9):
            yield ([bytes(range(n))], E, e)
            yield ([b'\xFF' * n, b'ab', b'x' * n], (0, ['a' * n or 'q', 'b'], []), e)
        yield ([[('rep', b'0123', 70000)], b'1', [('rand', 3, 65537)]], (0, ['a', 'b', 'c'], []), e)
        yield ([b''] * 5, (0, ['a'], [('d', (1, ['b', 'c'], [('e', (3, ['f', 'g'], []))]))]), e)
    yield ([bytes([i & 0xFF] * (i % 7)) for i in range(300)], (0, ['f%d' % i for i in range(300)], []), '<')
    yield ([b'%d' % i for i in range(66000)], E, '<')
    yield ([b'NARC', b'GMIF\0\0\0\0', b'BTNF' * 3, b'BTAF'], (2, ['x' * 127], [('y' * 127, (0, ['z', 'w'], []))]), '>')
    yield ([b'abc'], (0, ['big%05d' % i + 'n' * 90 for i in range(700)], []), '<')


def gen(rng):
    files = [rb(rng, rlen(rng, 70)) for _ in range(rn(rng, 8, 40))]
    if rng.random() < 0.6:
        t = c05.gen(rng)
    else:
        t = c04.gen(rng)[0]
    return (files, t, rng.choice('<>'))


def make(case):
    files, t, e = case
    n = narc.NARC.fromFilesAndNames([build_bytes(f) for f in files], c04.build(c04.norm(t)))
    n.endiannessOfBeginning = e
    return n


def dump(n):
    return ([bytes(f) for f in n.files], c04.dump(n.filenames), n.endiannessOfBeginning)


def check(case):
    files, t, e = case
    files = [build_bytes(f) for f in files]
    t = c04.norm(t)
    want = (files, t, e)
    n = make(case)
    data = n.save()
    eq('archive after save', dump(n), want)
    magic, bom, ver, size, hsize, blocks = struct.unpack_from('<4sHHIHH', data)
    eq('magic', magic, b'NARC')
    eq('byte order mark and version', (bom, ver), (0xFEFF, 1) if e == '<' else (0xFFFE, 0x100))
    eq('file size field', size, len(data))
    eq('header size, block count', (hsize, blocks), (0x10, 3))
    off = 0x10
    secs = []
    for m in (b'BTAF', b'BTNF', b'GMIF'):
        mm, ss = struct.unpack_from('<4sI', data, off)
        eq('section magic', mm, m)
        ensure(ss >= 8 and off + ss <= len(data), f'section {m} size {ss}')
        eq(f'section {m} alignment', off % 4, 0)
        secs.append((off, ss))
        off += ss
    eq('sections fill the file', off, len(data))
    cnt, = struct.unpack_from('<I', data, 0x18)
    eq('file count', cnt, len(files))
    eq('FATB size', secs[0][1], 0xC + 8 * cnt)
    base = secs[2][0] + 8
    prev = 0
    for i, f in enumerate(files):
        s, en = struct.unpack_from('<II', data, 0x1C + 8 * i)
        ensure(prev <= s <= en <= secs[2][1] - 8, f'file {i} bounds {s}..{en}')
        eq(f'file {i} start alignment', s % 4, 0)
        eq(f'file {i} in image', bytes(data[base + s:base + en]), f)
        prev = en
    for typ in (bytes, bytearray):
        eq('loaded archive', dump(narc.NARC(typ(data))), want)
    # by-name access
    names = [(p, i) for p, i in c05.listing(t) if i < len(files)]
    n2 = narc.NARC(bytes(data))
    seen = {}
    for p, i in names:
        f = c04.build(t).idOf(p)
        if f is None or f >= len(files):
            continue
        seen[p] = f
    for p, i in list(seen.items())[:12]:
        eq(f'getFileByName({p!r})', bytes(n2.getFileByName(p)), files[i])
    for p, i in list(seen.items())[:3]:
        new = b'new:' + p.encode('latin-1')
        n2.setFileByName(p, new)
        files = files[:i] + [new] + files[i + 1:]
        eq('files after setFileByName', [bytes(f) for f in n2.files], files)
        eq('names after setFileByName', c04.dump(n2.filenames), t)
    before = dump(n2)
    raises(ValueError, 'getFileByName of unknown name', n2.getFileByName, 'no/such name')
    raises(ValueError, 'setFileByName of unknown name', n2.setFileByName, 'no/such name', b'')
    eq('archive after failed access', dump(n2), before)
