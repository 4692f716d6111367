"""C04: filename table save/load round trip."""
from vf.gen import ri, rname, rn
from .base import eq

from ndspy import fnt

QUICK, THOROUGH = 3000, 30000

# case: (tree, trailing); tree = (firstID, [file names], [(folder name, tree)])


def build(t):
    return fnt.Folder([(n, build(s)) for n, s in t[2]], list(t[1]), t[0])


def dump(f):
    return (f.firstID, list(f.files), [(n, dump(s)) for n, s in f.folders])


def norm(t):
    return (t[0], list(t[1]), [(n, norm(s)) for n, s in t[2]])


def chain(n):
    t = (n, ['f%d' % n], [])
    for i in range(n - 1, 0, -1):
        t = (i, ['f%d' % i], [('d%d' % i, t)])
    return t


def boundary():
    yield ((0, [], []), b'')
    yield ((0, [], []), b'\xFF\xFF\xFF')
    for i in (0, 1, 255, 256, 0xEFFF, 0xF000, 0xFFFF):
        yield ((i, ['a', 'b'], [('s', (i ^ 1, ['c'], []))]), b'')
    for n in (1, 2, 126, 127):
        yield ((0, ['x' * n, 'y' * n], [('z' * n, (5, ['w' * n], []))]), b'')
    yield ((0, ['\xe9\xff\x80\x01', ' '], [('\xc0\xa0', (1, ['\x7f'], []))]), b'')
    yield ((7, ['f%d' % i for i in range(300)], []), b'')
    yield ((7, [], [('d%d' % i, (i, ['f'], [])) for i in range(300)]), b'')
    yield ((7, ['q'], [('d%d' % i, (i, [], [('e%d' % j, (j, ['g', 'h'], [])) for j in range(5)])) for i in range(60)]), b'\0')
    yield (chain(40), b'')
    yield ((0, [], [('d%d' % i, (i, [], [])) for i in range(4095)]), b'')
    yield ((0, ['name%05d' % i + 'x' * 100 for i in range(700)], [('sub', (700, ['z'], [('deep', (701, ['y'], []))]))]), b'')
    yield ((0, ['same', 'same'], [('same', (2, ['same'], [])), ('same', (3, [], []))]), b'')


def tree(rng, depth):
    files = [rname(rng) for _ in range(rn(rng, 5, 20))]
    folders = []
    if depth > 0:
        folders = [(rname(rng), tree(rng, depth - 1)) for _ in range(rn(rng, 3, 6))]
    return (ri(rng, 0, 0xFFFF), files, folders)


def gen(rng):
    return (tree(rng, rng.randint(0, 3)), rng.choice((b'', b'', rng.randbytes(rng.randint(1, 9)))))


def check(case):
    t, trailing = case
    t = norm(t)
    root = build(t)
    data = fnt.save(root)
    eq('tree after save', dump(root), t)
    for typ in (bytes, bytearray):
        eq('loaded tree', dump(fnt.load(typ(data) + trailing)), t)
