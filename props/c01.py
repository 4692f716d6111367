"""C01: LZ10 compress/decompress round trip."""
import struct
from vf.gen import build_bytes, rb, rlen
from .base import eq, ensure

from ndspy import lz10

QUICK, THOROUGH = 1500, 20000


def boundary():
    yield []
    for n in list(range(0, 30)) + [31, 32, 33, 63, 64, 65, 255, 256, 257]:
        yield [('rand', n, n)]
        yield [('rep', b'\0', n)]
        yield [('rep', b'ab', n)]
        yield [('rep', b'abc', n)]
    # matches at exact distances and of exact lengths
    for dist in (3, 4, 17, 18, 19, 255, 256, 257, 0xFFE, 0xFFF, 0x1000, 0x1001, 0x1002):
        for ln in (2, 3, 4, 15, 16, 17, 18, 19, 20, 36, 37):
            if ln > dist:
                continue
            yield [('rand', dist * 64 + ln, dist), ('copy', dist, ln), ('rand', 7, 5)]
            yield [('rand', dist * 64 + ln, dist + 40), ('copy', dist, ln)]
    # number of tokens around multiples of 8
    for k in range(1, 26):
        yield [('lit', b'abcdefgh'), ('copy', 8, 3 * k)]
        yield [('rand', 3, 300), ('copy', 300, k * 18)]
    # two possible matches: short near, long far
    yield [('lit', b'abcdef'), ('rand', 1, 40), ('lit', b'abc'), ('rand', 2, 40), ('lit', b'abcdef')]
    yield [('lit', b'abc'), ('rand', 1, 40), ('lit', b'abcdef'), ('rand', 2, 40), ('lit', b'abcdef')]
    yield [('rep', b'\0', 0x1100), ('rand', 4, 100), ('rep', b'\0', 0x1100)]
    yield [('rep', b'\x10', 70000)]
    yield [('low', 5, 9000, 2)]
    yield [('low', 6, 9000, 4)]
    yield [('rand', 9, 66000)]
    yield [('rep', b'hello, world', 0x10005)]


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.randrange(6)
        n = rng.choice((rng.randint(0, 8), rng.randint(0, 40), rng.randint(0, 300)))
        if k == 0:
            ops.append(('rand', rng.randrange(1 << 30), n))
        elif k == 1:
            ops.append(('low', rng.randrange(1 << 30), n, rng.choice((2, 3, 5))))
        elif k == 2:
            ops.append(('rep', rng.randbytes(rng.randint(1, 6)), n))
        elif k == 3:
            ops.append(('lit', rb(rng, min(n, 24))))
        else:
            ops.append(('copy', rng.choice((1, 2, 3, 4, 8, 16, 17, 18, 19, 50, 255, 256)), n))
    if rng.random() < 0.04:
        d = rng.choice((0xFFF, 0x1000, 0x1001, 0x1003))
        ops.insert(0, ('rand', rng.randrange(1 << 30), d + rng.randint(0, 20)))
        ops.insert(1, ('copy', d, rng.randint(0, 40)))
    return ops


def check(case):
    data = build_bytes(case)
    for typ in (bytes, bytearray):
        if typ is bytearray and len(data) > 3000:
            continue
        arg = typ(data)
        comp = lz10.compress(arg)
        eq('argument of compress after the call', bytes(arg), data)
        ensure(len(comp) >= 4, 'compressed stream has no header')
        eq('marker byte', comp[0], 0x10)
        eq('length in header', struct.unpack_from('<I', comp)[0] >> 8, len(data))
        before = bytes(comp)
        out = lz10.decompress(comp)
        eq('argument of decompress after the call', bytes(comp), before)
        eq('round trip', bytes(out), data)
