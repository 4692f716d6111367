"""C03: code compression."""
import struct
from vf.gen import build_bytes
from .base import eq, ensure
from . import c01

from ndspy import codeCompression

QUICK, THOROUGH = 2500, 20000


def boundary():
    for c in c01.boundary():
        if len(build_bytes(c)) < 20000:
            yield (c, False)
    # distances of this format: 3..0x1002
    for dist in (3, 4, 5, 0xFFF, 0x1000, 0x1001, 0x1002, 0x1003, 0x1004):
        for ln in (2, 3, 4, 17, 18, 19):
            if ln <= dist:
                yield ([('rand', dist * 64 + ln, dist), ('copy', dist, ln), ('rep', b'\0', 64)], False)
                yield ([('rep', b'\0', 64), ('rand', dist * 64 + ln, dist), ('copy', dist, ln)], False)
    for n in (0, 1, 3, 4, 100, 0x3FFC, 0x3FFF, 0x4000, 0x4001, 0x4004, 0x4010, 0x4020, 0x4100, 0x4101, 0x4102, 0x4103):
        yield ([('low', n, n, 2)], True)
        yield ([('rep', b'abcd', n)], True)
        yield ([('rand', n, n)], True)
    # incompressible start (becomes the uncompressed part), compressible end, and vice versa
    for a in (0, 1, 2, 3, 5, 8, 40):
        for b in (20, 64, 65, 66, 67, 400):
            yield ([('rand', a, a), ('rep', b'xyz', b)], False)
            yield ([('rep', b'xyz', b), ('rand', a, a)], False)
            yield ([('rand', a, a), ('rep', b'xyz', b), ('rand', 77, a)], False)
    yield ([('rand', 5, 0x4000), ('rep', b'qwerty', 0x1234), ('rand', 6, 17)], True)
    yield ([('low', 5, 0x10100, 3)], False)
    for n in list(range(0, 45)) + [64, 100, 1001]:
        yield ([('low', n, n, 8)], 'plain')
        yield ([('rep', b'\0', n)], 'plain')
        yield ([('rand', n, max(0, n - 37)), ('rep', b'\xFF\xFF\xFF\7'[::1], n)], 'plain')
    yield ([('rep', b'\x01\x02\x03\x04\x05', 0x20001)], False)


def gen(rng):
    c = c01.gen(rng)
    if rng.random() < 0.5:
        c = c + [('rep', rng.randbytes(rng.randint(1, 4)), rng.randint(0, 60))]
    if rng.random() < 0.05:
        return ([('rep', b'01234567', 0x4000 - rng.randint(0, 8))] + c, True)
    if rng.random() < 0.1:
        return ([('rand', rng.randrange(1 << 30), rng.randint(0, 99)), ('low', rng.randrange(1 << 30), rng.randint(0, 50), 8)], 'plain')
    return (c, rng.random() < 0.1)


def raw_form(data):
    return data + bytes(-len(data) % 4) + bytes(4)


def looks_plain(d):
    """No word near the end can be taken for a footer."""
    return all(d[-5 - k] < 8 for k in range(0, 32, 4) if len(d) >= k + 8)


def check(case):
    spec, arm9 = case
    if arm9 == 'plain':
        d = build_bytes(spec)
        if looks_plain(d):
            eq('decompress of plain data', bytes(codeCompression.decompress(d)), d)
        return
    data = build_bytes(spec)
    arg = bytearray(data)
    comp = codeCompression.compress(arg, arm9) if arm9 else codeCompression.compress(arg)
    eq('argument of compress after the call', bytes(arg), data)
    comp = bytes(comp)
    cut = 0x4000 if arm9 else 0
    eq('uncompressed prefix', comp[:cut], data[:cut] if len(data) >= cut else (comp[:cut]))
    rest = data[cut:]
    if comp == data[:cut] + raw_form(rest):
        # stored form; a long run of one byte value is certainly compressible
        ensure(not (len(rest) >= 64 and len(set(rest)) == 1), 'a run of one value is not compressed')
        return
    # compressed form
    ensure(len(comp) >= 8, 'compressed result is shorter than its footer')
    eq('compressed size is a multiple of 4 after the prefix', (len(comp) - len(data[:cut])) % 4, 0)
    w, extra = struct.unpack_from('<II', comp, len(comp) - 8)
    hlen, clen = w >> 24, w & 0xFFFFFF
    ensure(8 <= hlen <= 11, f'footer length {hlen}')
    ensure(hlen <= clen <= len(comp), f'compressed length {clen} of {len(comp)}')
    ensure(extra > 0, 'size difference in footer is zero')
    eq('file length plus size difference', len(comp) + extra, len(data))
    eq('round trip', bytes(codeCompression.decompress(comp)), data)
