"""C05: folder lookups."""
from vf.gen import rn
from .base import eq, ensure, raises
from .c04 import build, dump, norm

from ndspy import fnt

QUICK, THOROUGH = 4000, 40000


def listing(t, prefix=''):
    for i, n in enumerate(t[1]):
        yield prefix + n, t[0] + i
    for n, s in t[2]:
        yield from listing(s, prefix + n + '/')


def folders(t, prefix=''):
    for n, s in t[2]:
        yield prefix + n, s
        yield from folders(s, prefix + n + '/')


def boundary():
    leaf = (10, ['x', 'y'], [])
    yield (0, ['a', 'b', 'c'], [('d', leaf), ('e', (20, ['a'], [('d', (30, ['a', 'z'], []))]))])
    yield (0, [], [])
    yield (5, [], [('p', (0, ['one', 'two'], [])), ('q', (2, ['one'], [('r', (3, ['two'], []))]))])
    yield (0x1000, ['f%d' % i for i in range(300)], [('g', (0, ['f%d' % i for i in range(260)], []))])
    # a file and a folder of the same name, empty folders, first ID in the middle
    yield (3, ['n'], [('n', (0, ['n'], [('n', (1, ['n', 'm'], []))]))])
    yield (0, [], [('a', (0, [], [('b', (0, [], [('c', (0, ['deep'], []))]))]))])


def gen(rng):
    nxt = [rng.choice((0, 0, 5, 1000))]
    order = rng.random() < 0.5

    def tree(depth):
        names = rng.sample(['a', 'b', 'c', 'd', 'aa', 'a.b', 'Data', 'data', 'x1', 'x', '1', 'e', '\xe9', 'a b'], rng.choice((0, 1, 2, 3, 8)))
        first = nxt[0]
        if order:
            nxt[0] += len(names) + rng.choice((0, 0, 1, 7))
        dn = rng.sample(['a', 'b', 'c', 'sub', 'x', 'Data', '\xe9', '1'], rng.choice((0, 1, 2, 3))) if depth else []
        sub = [(n, tree(depth - 1)) for n in dn]
        if not order:
            first = nxt[0]
            nxt[0] += len(names) + rng.choice((0, 0, 1))
        return (first, names, sub)
    return tree(rng.randint(0, 3))


def check(case):
    t = norm(case)
    f = build(t)
    files = list(listing(t))
    ids = {i: p for p, i in files}
    paths = dict(files)
    fold = dict(folders(t))
    for p, i in files:
        eq(f'idOf({p!r})', f.idOf(p), i)
        eq(f'idOf with slashes', f.idOf('/' + p + '/'), i)
        eq(f'filenameOf({i})', f.filenameOf(i), p)
        eq(f'[{p!r}]', f[p], i)
        eq(f'[{i}]', f[i], p)
        ensure(p in f and i in f, f'{p!r} and {i} are contained')
    for p, s in fold.items():
        sub = f.subfolder(p)
        ensure(sub is not None, f'subfolder({p!r}) not found')
        eq(f'subfolder({p!r})', dump(sub), s)
        ensure(f.subfolder(p + '/') is sub, 'trailing slash')
        if p not in paths:
            ensure(f[p] is sub, f'[{p!r}] is the folder')
            ensure(p in f, f'{p!r} is contained')
            eq(f'idOf folder {p!r}', f.idOf(p), None)
        else:
            eq(f'[{p!r}] prefers the file', f[p], paths[p])
    probes = ['nope', 'a/nope', 'nope/a', 'a/a/a/a/a', 'A'] + [p + '/x' for p in list(paths)[:5]] + [p + '/nope' for p in list(fold)[:5]] + [p[:-1] for p in list(paths)[:5] if p[:-1].strip('/')] + [p + 'z' for p in list(paths)[:5]]
    for p in probes:
        key = p.strip('/')
        if key not in paths:
            eq(f'idOf({p!r})', f.idOf(p), None)
        if key not in fold:
            eq(f'subfolder({p!r})', f.subfolder(p), None)
        if key not in paths and key not in fold:
            raises(KeyError, f'[{p!r}]', f.__getitem__, p)
            eq(f'{p!r} in folder', p in f, False)
    cand = {-1, 0, 1, 65535, 65536}
    for i in ids:
        cand |= {i - 1, i + 1}
    for i in cand:
        if i not in ids:
            eq(f'filenameOf({i})', f.filenameOf(i), None)
            raises(KeyError, f'[{i}]', f.__getitem__, i)
            eq(f'{i} in folder', i in f, False)
    eq('tree after lookups', dump(f), t)
