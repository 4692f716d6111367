"""C11: BMG message files."""
import struct
from vf.gen import ri, rb, rn, rlen
from .base import eq, ensure, raises

from ndspy import bmg

QUICK, THOROUGH = 4000, 40000
ENC = ('cp1252', 'utf-16', 'shift-jis', 'utf-8')
POOL = {}
# case: (endianness, encoding, id, (unk14, unk18, unk1C), messages, instructions, labels, scripts)
# message: (info, parts or None for a null message); part: str or (type, data)


def pool(enc):
    if enc not in POOL:
        real = 'utf-16le' if enc == 'utf-16' else enc
        out = []
        for lo, hi in ((1, 0x180), (0x2010, 0x2040), (0x3040, 0x3100), (0x4E00, 0x4E40), (0xFF00, 0xFF60),
                       (0xFEFF, 0xFF00), (0x1A00, 0x1A02), (0x100, 0x101), (0x1F600, 0x1F610), (0x10FFFF, 0x110000)):
            for c in range(lo, hi):
                ch = chr(c)
                try:
                    if ch.encode(real).decode(real) == ch and ch not in '\0\x1A':
                        out.append(ch)
                except UnicodeError:
                    pass
        POOL[enc] = out
    return POOL[enc]


def boundary():
    for se in '<>':
        for enc in ENC:
            yield (se, enc, 0, (0, 0, 0), [], [], [], [])
            yield (se, enc, 0xFFFFFFFF, (0xFFFFFFFF, 1, 0x80000000), [(b'', ['abc'])], [], [], [])
            yield (se, enc, 1, (1, 2, 3), [(b'\1\2', []), (b'\3\4', None), (b'\5\6', ['x'])], [], [], [])
            for ch in pool(enc):
                yield (se, enc, 7, (1, 2, 3), [(b'', ['a' + ch]), (b'', [ch, (1, b'\0\0'), ch + 'z'])], [], [], [])
            for n in (0, 1, 2, 3, 4, 26, 250, 251, 252):
                if n + 2 + (2 if enc == 'utf-16' else 1) < 256:
                    for t in (0, 1, 4, 26, 255):
                        yield (se, enc, 7, (0, 0, 0), [(b'', [(t, b'\0' * n)]), (b'', ['a', (t, b'\x1A' * n), 'b', (t, b'ab'), (t, b'')])], [], [], [])
            for k in range(0, 70, 3):
                yield (se, enc, 7, (0, 0, 0), [(b'q' * (k % 9), ['m' * k])] * (k % 5), [b'%08d' % i for i in range(k % 7)],
                       [(1, i) for i in range(k)], [(i, i) for i in range(k % 11)])
        for k in range(0, 20):
            yield (se, 'utf-16', 0, (0, 0, 0), [(b'', ['x'])], [b'\0' * 7 + b'\1'] * k, [], [])
            yield (se, 'utf-16', 0, (0, 0, 0), [(b'', ['x'])], [], [(-128, -32768), (127, 32767), (0, 1), (1, 0), (-1, -1)][:k % 6] + [(3, 4)] * k, [])
            yield (se, 'utf-16', 0, (0, 0, 0), [], [], [], [(0xFFFFFFFF - k, 0xFFFF - k)] * k)
        for k in (254, 255, 256, 257, 300, 513):
            yield (se, 'cp1252', 0, (0, 0, 0), [(b'i', ['t%d' % i]) for i in range(k)], [], [], [])
            yield (se, 'utf-8', 0, (0, 0, 0), [(b'i' * k, ['t'])] * 2, [b'inst %03d' % i for i in range(k)], [(1, 1)] * k, [(1, 2)] * k)


def gen(rng):
    enc = rng.choice(ENC)
    infolen = rng.choice((0, 0, 1, 2, 4, 4, 8, 12))
    msgs = []
    P = pool(enc)
    for _ in range(rn(rng, 8, 40)):
        info = rb(rng, infolen)
        if rng.random() < 0.1:
            msgs.append((info, None))
            continue
        parts = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            if rng.random() < 0.5 and (not parts or not isinstance(parts[-1], str)):
                n = rng.choice((1, 1, 2, 5, rng.randint(1, 60)))
                parts.append(''.join(rng.choice(P) if rng.random() < 0.4 else rng.choice('abc xyz\n') for _ in range(n)))
            else:
                parts.append((ri(rng, 0, 255), rb(rng, rng.choice((0, 1, 2, 3, 4, 8, rng.randint(0, 251))))))
        msgs.append((info, parts))
    inst = [i for i in (rb(rng, 8) for _ in range(rn(rng, 6, 30))) if any(i)]
    labels = [x for x in ((ri(rng, -128, 127), ri(rng, -32768, 32767)) for _ in range(rn(rng, 10, 40))) if x != (0, 0)]
    scripts = [(ri(rng, 0, 0xFFFFFFFF), ri(rng, 0, 0xFFFF)) for _ in range(rn(rng, 6, 20))]
    return (rng.choice('<>'), enc, ri(rng, 0, 0xFFFFFFFF), tuple(ri(rng, 0, 0xFFFFFFFF) for _ in range(3)), msgs, inst, labels, scripts)


def make(case):
    se, enc, ident, unk, msgs, inst, labels, scripts = case
    M = bmg.Message
    ms = [M(info, [] if parts is None else [p if isinstance(p, str) else M.Escape(*p) for p in parts], parts is None)
          for info, parts in msgs]
    b = bmg.BMG.fromMessages(ms, list(inst), list(labels), list(scripts), id=ident)
    b.endianness, b.encoding = se, enc
    b.unk14, b.unk18, b.unk1C = unk
    return b


def dump(b):
    ms = []
    for m in b.messages:
        parts = [p if isinstance(p, str) else (p.type, bytes(p.data)) for p in m.stringParts]
        ms.append((bytes(m.info), parts, bool(m.isNull)))
    return (b.endianness, b.encoding, b.id, (b.unk14, b.unk18, b.unk1C), ms, [bytes(i) for i in b.instructions],
            [tuple(x) for x in b.labels], [tuple(x) for x in b.scripts])


def check(case):
    b = make(case)
    want = dump(b)
    data = b.save()
    eq('BMG after save', dump(b), want)
    got = dump(bmg.BMG(bytes(data)))
    for name, g, w in zip(('endianness', 'encoding', 'id', 'unk', 'messages', 'instructions', 'labels', 'scripts'), got, want):
        eq(name, g, w)
    se = case[0]
    eq('magic', bytes(data[:8]), b'MESGbmg1')
    total, count = struct.unpack_from(se + 'II', data, 8)
    ensure(total % 32 == 0 and total - 32 < len(data) <= total, f'file size {total} for {len(data)} bytes')
    # the sections tile the file
    off, names = 0x20, []
    for _ in range(count):
        m, n = struct.unpack_from(se + '4sI', data, off)
        eq('section length alignment', n % 32, 0)
        names.append(bytes(m))
        off += n
    eq('sections', names, [b'INF1', b'DAT1'] + [b'FLW1'] * bool(case[5] or case[6]) + [b'FLI1'] * bool(case[7]))
    eq('end of sections', off, total)
