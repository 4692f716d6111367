"""Value generators for the run-time side of the contracts.

Everything generated is plain Python data (so that a case can be written to a
replay file with repr and read with ast.literal_eval)."""
import random


def build_bytes(spec):
    """A byte string from a compact description: bytes, or a list of
    ('lit', bytes), ('rand', seed, n), ('rep', bytes, n), ('low', seed, n, k),
    ('copy', distance, n)."""
    if isinstance(spec, (bytes, bytearray)):
        return bytes(spec)
    out = bytearray()
    for op in spec:
        if op[0] == 'lit':
            out += op[1]
        elif op[0] == 'rand':
            out += random.Random(op[1]).randbytes(op[2])
        elif op[0] == 'rep':
            if op[1]:
                out += (op[1] * (op[2] // len(op[1]) + 1))[:op[2]]
        elif op[0] == 'low':
            r = random.Random(op[1])
            k = op[3]
            out += bytes(r.randrange(k) for _ in range(op[2]))
        elif op[0] == 'copy':
            d = min(op[1], len(out))
            if d:
                for _ in range(op[2]):
                    out.append(out[-d])
        else:
            raise ValueError(op)
    return bytes(out)


def ri(rng, lo, hi):
    """An integer in lo..hi, with emphasis on the ends and powers of two."""
    c = rng.random()
    if c < 0.12:
        return lo
    if c < 0.24:
        return hi
    if c < 0.32:
        return min(hi, lo + rng.randrange(0, 4))
    if c < 0.4:
        return max(lo, hi - rng.randrange(0, 4))
    if c < 0.6:
        span = max(abs(lo), abs(hi), 1)
        v = (1 << rng.randrange(0, span.bit_length() + 1)) + rng.choice((-1, 0, 1))
        if lo < 0 and rng.random() < 0.5:
            v = -v
        return min(hi, max(lo, v))
    return rng.randint(lo, hi)


def rn(rng, small, big=None, p=0.1):
    """A count: mostly small, sometimes big."""
    if big is not None and rng.random() < p:
        return rng.randint(small, big)
    return rng.choice((0, 1, 2, 3, rng.randint(0, small)))


MAGICS = [b'NARC', b'BTAF', b'\x21\x06\xC0\xDE', b'\xDE\xC0\x06\x21', b'SDAT', b'\0\0\0\0', b'\xFF\xFF\xFF\xFF',
          b'\x10', b'SSEQ', b'DATA']


def rb(rng, n):
    """n bytes of some flavour."""
    k = rng.randrange(7)
    if n == 0:
        return b''
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xFF' * n
    if k in (2, 3):
        return rng.randbytes(n)
    if k == 4:
        return bytes(rng.choice((0, 0, 1, 0x80, 0xFF)) for _ in range(n))
    if k == 5:
        u = rng.randbytes(rng.randint(1, 9))
        return (u * (n // len(u) + 1))[:n]
    m = rng.choice(MAGICS)
    p = rng.randint(0, n)
    return (rng.randbytes(p) + m + rng.randbytes(n))[:n]


def rlen(rng, hi=64):
    c = rng.random()
    if c < 0.15:
        return 0
    if c < 0.6:
        return rng.randint(0, min(hi, 20))
    if c < 0.8:
        return min(hi, rng.choice((1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513)))
    return rng.randint(0, hi)


def rname(rng, lo=1, hi=127, bad='\0/'):
    c = rng.random()
    if c < 0.7:
        n = rng.randint(lo, min(hi, 12))
    elif c < 0.8:
        n = hi
    elif c < 0.85:
        n = max(lo, hi - 1)
    else:
        n = rng.randint(lo, hi)
    if rng.random() < 0.7:
        return ''.join(rng.choice('abcdefgABC019._- ') for _ in range(n)).replace(' ', '_') if n else ''
    out = []
    while len(out) < n:
        ch = chr(rng.randrange(1, 256))
        if ch not in bad:
            out.append(ch)
    return ''.join(out)
