"""C10: main code file sections."""
import struct
from vf.gen import build_bytes, ri
from .base import eq, ensure

from ndspy import code

QUICK, THOROUGH = 2000, 20000
MAGIC = b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21'
# case: (mode, ram, first section words, cso, [(words, ramAddr, bss)], compress)
# sections hold little words, so that no tail of the file looks like a compression footer


def words(spec):
    """(seed, n): n little words (< 2^24)."""
    import random
    r = random.Random(spec[0])
    return b''.join(struct.pack('<I', r.choice((0, 1, 0xFFFFFF, r.randrange(1 << 24)))) for _ in range(spec[1]))


def boundary():
    R = 0x2000000
    for mode in ('magic', 'ptr', 'arm7'):
        yield (mode, R, (1, 40), 0x10, [], False)
        for secs in ([((2, 8), 0x1FF8000, 0x20)], [((2, 8), 0x1FF8000, 0), ((3, 1), 0x27E0000, 0x1234)],
                     [((2, 3), 0x1FF8000, 0), ((3, 0), 0x27E0000, 0x100)],
                     [((2, 0), 0x1FF8000, 5), ((3, 0), 0x27E0000, 0x100)],
                     [((i, i), 0x100000 * i, i) for i in range(1, 12)] + [((1, 0), 7, 9)]):
            for cso in (0, 4, 0x20, 0x60):
                yield (mode, R, (1, 40), cso, secs, False)
                yield (mode, 0x37F8000, (1, 64), cso, secs, False)
                if mode != 'arm7':
                    yield (mode, R, (1, 0x1010), cso, secs, True)
                    yield (mode, R, (1, 40), cso, secs, True)
    yield ('magic', R, (1, 0x2000), 0x7FC0 - 0x1C, [((2, 8), 0x1FF8000, 0x20)], False)
    yield ('magic', R, (1, 0x2000), 0x8000 - 4 - 0x1C, [((2, 8), 0x1FF8000, 0x20)], False)
    yield ('none', R, (1, 0), None, [], False)
    yield ('none', R, (1, 30), None, [], False)
    yield ('none', R, (1, 0x1200), None, [], True)


def gen(rng):
    mode = rng.choice(('magic', 'magic', 'ptr', 'arm7', 'none'))
    ram = rng.choice((0x2000000, 0x37F8000, 0x2380000, 0x2004000, 0, 4))
    n = rng.choice((20, 30, 64, rng.randint(16, 200)))
    if mode == 'none':
        return (mode, ram, (rng.randrange(1 << 30), rng.randint(0, 100)), None, [], rng.random() < 0.3)
    cso = 4 * rng.randint(0, n - 12)
    ne = rng.randint(0, 5)
    secs = [((rng.randrange(1 << 30), rng.randint(1, 30)), ri(rng, 0, 0x7FFFFFF), ri(rng, 0, 0x7FFFFFF)) for _ in range(ne)]
    secs += [((0, 0), ri(rng, 0, 0x7FFFFFF), ri(rng, 0, 0x7FFFFFF)) for _ in range(rng.choice((0, 0, 1, 2)))]
    return (mode, ram, (rng.randrange(1 << 30), n), cso, secs, mode != 'arm7' and rng.random() < 0.3)


def make(case):
    mode, ram, first, cso, secs, compress = case
    fd = bytearray(words(first))
    ptr = None
    if cso is not None:
        if mode == 'magic':
            fd[cso + 0x1C:cso + 0x24] = MAGIC
        elif mode == 'ptr':
            po = cso - 4 if cso >= 4 else cso + 0x18
            struct.pack_into('<I', fd, po, ram + cso)
            ptr = ram + po + 4
    S = code.MainCodeFile.Section
    sections = [S(bytes(fd), ram, 0, implicit=True)]
    for w, a, b in secs:
        sections.append(S(words(w), a, b))
    m = code.MainCodeFile.fromSections(sections, ram)
    m.codeSettingsOffs = cso
    return m, ptr


def dump(m):
    return [(bytes(s.data), s.ramAddress, s.bssSize, bool(s.implicit)) for s in m.sections]


def check(case):
    mode, ram, first, cso, secs, compress = case
    m, ptr = make(case)
    want = dump(m)
    data = b''.join(w[0] for w in want)
    table = b''.join(struct.pack('<3I', a, len(words(w)), b) for w, a, b in secs)
    body = bytearray(data + table)
    if cso is not None:
        struct.pack_into('<3I', body, cso, ram + len(data), ram + len(data) + len(table), ram + len(want[0][0]))
        struct.pack_into('<I', body, cso + 0x14, 0)
    # the searches of the loader must not be misled by the code itself
    if mode == 'magic' and body.find(MAGIC) != cso + 0x1C or mode != 'magic' and MAGIC in body:
        return
    if mode in ('arm7', 'none'):
        if mode == 'arm7' and (body.find(struct.pack('<I', ram + len(body))) != cso + 4 or not 0 < len(table) < 0x100):
            return
        if mode == 'none' and (struct.pack('<I', ram + len(body)) in body or struct.pack('<I', ram + len(body) + 4) in body + bytes(4)):
            return
    out = m.save(compress=compress)
    eq('sections after save', dump(m), want)
    eq('attributes after save', (m.ramAddress, m.codeSettingsOffs), (ram, cso))
    plain = bytes(out) if not compress else bytes(code.codeCompression.decompress(bytes(out)))
    if cso is not None and compress:
        struct.pack_into('<I', body, cso + 0x14, ram + len(out))
    eq('written code', plain[:len(body)], bytes(body))
    ensure(len(plain) == len(body) or (compress and plain[len(body):] == bytes(4)), 'written length')
    m2 = code.MainCodeFile(bytes(out), ram, ptr)
    got = dump(m2)
    want2 = [(bytes(body[:len(want[0][0])]),) + want[0][1:]] + want[1:]
    if mode == 'none' and len(plain) != len(body):
        want2 = [(want2[0][0] + bytes(4),) + want2[0][1:]]
    eq('loaded sections', got, want2)
    eq('loaded address', m2.ramAddress, ram)
    eq('settings offset', m2.codeSettingsOffs, cso)
