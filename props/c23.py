"""C23: named-list helpers."""
from .base import eq, ensure

import ndspy

QUICK, THOROUGH = 20000, 200000
# case: (names, name, tuples or lists)
NAMES = [None, '', 'a', 'b', 'A', 'aa', 'a ', 'ab', 0]


def boundary():
    for n in NAMES:
        yield ([], n, 0)
        for m in NAMES:
            yield ([m], n, 0)
            yield ([m, n], n, 0)
            yield ([n, m, n], n, 1)
            yield ([m, m, m, n], n, 0)
    yield (['n%d' % i for i in range(1000)], 'n999', 0)
    yield (['n%d' % i for i in range(1000)], 'n1000', 0)


def gen(rng):
    return ([rng.choice(NAMES) for _ in range(rng.choice((0, 1, 2, 3, 5, 12)))], rng.choice(NAMES), rng.randrange(2))


def check(case):
    names, name, kind = case
    vals = [['v', i] for i in range(len(names))]
    L = [(tuple, list)[kind]((n, v)) for n, v in zip(names, vals)]
    before = list(L)
    new = ['new']
    i = names.index(name) if name in names else None
    if i is None:
        for f, a in ((ndspy.indexInNamedList, ()), (ndspy.findInNamedList, ()), (ndspy.setInNamedList, (new,))):
            try:
                r = f(L, name, *a)
            except KeyError:
                pass
            else:
                ensure(False, f'{f.__name__}: missing name gave {r!r}')
        ensure(len(L) == len(before) and all(a is b for a, b in zip(L, before)), 'list changed by a missing name')
        return
    eq('index', ndspy.indexInNamedList(L, name), i)
    ensure(ndspy.findInNamedList(L, name) is vals[i], 'wrong value found')
    ensure(len(L) == len(before) and all(a is b for a, b in zip(L, before)), 'list changed by looking')
    ndspy.setInNamedList(L, name, new)
    eq('length', len(L), len(before))
    for j in range(len(L)):
        if j != i:
            ensure(L[j] is before[j] and list(L[j]) == [names[j], ['v', j]], f'pair {j} changed')
    eq('pair', (len(L[i]), L[i][0]), (2, names[i]))
    ensure(L[i][1] is new, 'value not set')
    ensure(ndspy.findInNamedList(L, name) is new, 'new value not found')
