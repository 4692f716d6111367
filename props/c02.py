"""C02: LZ10 decompression follows the format for every valid stream."""
import struct
from .base import eq, raises

from ndspy import lz10

QUICK, THOROUGH = 3000, 40000


def expand(tokens):
    """Format semantics (the oracle)."""
    out = bytearray()
    for t in tokens:
        if t[0] == 'L':
            out.append(t[1])
        else:
            _, disp, ln = t
            for _ in range(ln):
                out.append(out[-disp])
    return bytes(out)


def encode(tokens, cut, unused, trailing):
    """One stream for the token list. `cut` output bytes of the last match lie
    beyond the stored length; `unused` fills the unused flag bits."""
    body = bytearray()
    for i in range(0, len(tokens), 8):
        block = tokens[i:i + 8]
        flags = 0
        part = bytearray()
        for j in range(8):
            if j >= len(block):
                flags |= (unused >> (7 - j) & 1) << (7 - j)
                continue
            t = block[j]
            if t[0] == 'L':
                part.append(t[1])
            else:
                flags |= 1 << (7 - j)
                part += struct.pack('>H', (t[2] - 3) << 12 | (t[1] - 1))
        body.append(flags)
        body += part
    n = len(expand(tokens)) - cut
    return struct.pack('<I', n << 8 | 0x10) + bytes(body) + trailing


def boundary():
    L = [('L', i) for i in range(256)]
    yield ([], 0, 0, b'')
    yield ([], 0, 0, b'abc')
    for n in range(1, 20):
        yield (L[:n], 0, 0, b'')
        yield (L[:n], 0, 0xFF, b'')
        for ln in range(3, 19):
            yield (L[:n] + [('M', n, ln)], 0, 0, b'')
            yield (L[:n] + [('M', 1, ln)], 0, 0xFF, b'\0')
    for d in (1, 2, 3, 255, 256, 257, 0x7FF, 0x800, 0xFFF, 0x1000):
        for ln in (3, 4, 17, 18):
            yield ([('L', i * 7 & 0xFF) for i in range(0x1000)] + [('M', d, ln)], 0, 0, b'')
    for cut in range(1, 3):
        yield (L[:5] + [('M', 3, 5)], cut, 0, b'')
    for n in (8, 9, 16, 17):
        yield ([('L', 0)] + [('M', 1, 18)] * n, 0, 0, b'')
    yield ([('L', 0xAB), ('L', 0xCD)] + [('M', 2, 18)] * 4000, 0, 0, b'')       # > 64 KiB
    yield ([('L', i & 0xFF) for i in range(70000)], 0, 0, b'\xFF\xFF')
    yield ([('L', 1)] + [('M', 1, 18)] * 59000, 0, 0, b'')                     # > 1 MiB
    yield ('bad', b'\x11\x00\x00\x00abc')
    yield ('bad', b'\x00\x00\x00\x00')
    yield ('bad', b'\x0F\x03\x00\x00\x00abc')
    yield ('bad', b'\x30\x03\x00\x00\x00abc')
    yield ('bad', b'\xFF\x03\x00\x00\x00abc')


def gen(rng):
    if rng.random() < 0.02:
        return ('bad', bytes([rng.choice([x for x in range(256) if x != 0x10])]) + rng.randbytes(rng.randint(3, 20)))
    toks, n = [], 0
    for _ in range(rng.choice((rng.randint(0, 10), rng.randint(0, 60)))):
        if n == 0 or rng.random() < 0.5:
            toks.append(('L', rng.choice((0, 255, rng.randrange(256)))))
            n += 1
        else:
            ln = rng.choice((3, 18, rng.randint(3, 18)))
            toks.append(('M', rng.choice((1, min(n, 4096), rng.randint(1, min(n, 4096)))), ln))
            n += ln
    cut = 0
    if toks and toks[-1][0] == 'M' and rng.random() < 0.3:
        cut = rng.randint(0, toks[-1][2] - 1)
    return (toks, cut, rng.choice((0, 0xFF, rng.randrange(256))), rng.choice((b'', rng.randbytes(rng.randint(0, 5)))))


def check(case):
    if case[0] == 'bad':
        raises(TypeError, 'data without the LZ10 marker', lz10.decompress, case[1])
        return
    tokens, cut, unused, trailing = case
    want = expand(tokens)
    want = want[:len(want) - cut]
    stream = encode(tokens, cut, unused, trailing)
    got = lz10.decompress(stream)
    eq('decompressed length', len(got), len(want))
    eq('decompressed data', bytes(got), want)
