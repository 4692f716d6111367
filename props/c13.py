"""C13: sequence event lists with references."""
import itertools
from vf.gen import ri
from .base import eq, ensure
from . import c12

from ndspy import soundSequence as S

QUICK, THOROUGH = 3000, 30000
# case: (events, notable): events is a list of (class name, args, index of the target or None);
# notable is a list of event indices. Control flow reaches every event.


KINDS = {'O': ('Pan', (5,)), 'J': ('Jump', (0,)), 'C': ('Call', (0,)), 'B': ('BeginTrack', (1, 0)), 'R': ('Return', ()),
         'E': ('EndTrack', ()), 'I': ('If', ())}


def flow(shape, visited):
    """
    The events that control flow reaches from the first one; False if it
    leaves the list or returns from nowhere. An If may skip what follows.
    """
    k = len(shape)
    todo, seen = [(0, ())], set()
    while todo:
        at, stack = todo.pop()
        if at >= k:
            return False
        if (at, stack) in seen or len(stack) > k:
            continue
        seen.add((at, stack))
        visited.add(at)
        kind, t = shape[at]
        if kind == 'J':
            todo.append((t, stack))
        elif kind == 'C':
            todo.append((t, stack + (at + 1,)))
        elif kind == 'B':
            todo += [(t, ()), (at + 1, stack)]
        elif kind == 'R':
            if not stack:
                return False
            todo.append((stack[-1], stack[:-1]))
        elif kind != 'E':
            todo.append((at + 1, stack))
            if kind == 'I':
                todo.append((at + 2, stack))
    return True


def open_track(shape):
    """A track begins in a subroutine (known finding: it may call that subroutine)"""
    k = len(shape)
    for s in {t for kind, t in shape if kind == 'C'}:
        visited = set()
        # what the subroutine itself runs; calls return at once
        todo = [s]
        while todo:
            at = todo.pop()
            if at in visited or at >= k:
                continue
            visited.add(at)
            kind, t = shape[at]
            if kind == 'B':
                return True
            if kind in 'JC':
                todo.append(t)
            if kind not in 'JRE':
                todo.append(at + 1)
    return False


def shapes(k):
    """
    Lists of k events: O (an ordinary one), J, C, B (with the index of the
    target), R, E, I, such that control flow reaches all of them. Behind an If
    stands an ordinary event, a track or a jump nothing else refers to
    (see known_findings.txt).
    """
    opts = [(x, t) for x in 'OJCBREI' for t in (range(k) if x in 'JCB' else (None,))]
    for s in itertools.product(opts, repeat=k):
        if any(x == 'I' and (i + 1 == k or s[i + 1][0] in 'ERIC' or s[i + 1][0] == 'J' and any(t == i + 1 for _, t in s))
               for i, (x, _) in enumerate(s)):
            continue
        visited = set()
        if flow(s, visited) and len(visited) == k and (k < 5 or not open_track(s)):
            yield s


def boundary():
    E, R = ('EndTrack', (), None), ('Return', (), None)
    N = ('Note', (60, 100, 48), None)
    yield ([E], [])
    yield ([N, E], [0])
    yield ([N, E, N, N, E], [0, 2])
    yield ([('Jump', (0,), 0)], [])
    yield ([N, ('Jump', (0,), 0)], [1, 0])
    yield ([N, ('Jump', (0,), 1)], [0])
    yield ([('Call', (0,), 2), E, N, R], [])
    yield ([('Call', (0,), 3), ('Call', (0,), 3), E, ('Jump', (0,), 4), N, R], [])
    yield ([('Call', (0,), 3), ('Call', (0,), 4), E, N, ('Call', (0,), 6), R, N, R], [])
    yield ([('BeginTrack', (1, 0), 3), N, E, N, E], [])
    yield ([('DefineTracks', (7,), None), ('BeginTrack', (1, 0), 5), ('BeginTrack', (2, 0), 7), N, ('Jump', (0,), 3), N,
            ('Jump', (0,), 5), N, E], [])
    yield ([('If', (), None), ('Jump', (0,), 3), N, N, E], [0])
    yield ([('If', (), None), ('Jump', (0,), 4), N, E, N, E], [0, 2])
    yield ([('BeginTrack', (1, 0), 3), ('BeginTrack', (2, 0), 3), E, N, E], [])
    yield ([('BeginTrack', (1, 0), 1), ('BeginTrack', (2, 0), 2), N, E], [2, 1, 0, 3])
    yield ([N, N, E, N, E], [3, 0, 3, 0])
    yield ([('Rest', (1 << 34,), None), ('Rest', (127,), None), ('Rest', (128,), None), E], [0])
    yield ([N] * 400 + [E], [0])
    # targets beyond 64 KB
    n = 22000
    yield ([('BeginTrack', (1, 0), n + 3), ('Call', (0,), n + 5)] + [N] * n + [E, N, ('Jump', (0,), n + 3), N, R], [0, n + 3])
    yield ([N] * 22000 + [('If', (), None), ('Jump', (0,), 22003), N, N, E], [0, 22003])
    yield ([('Jump', (0,), 2), E, ('Jump', (0,), 1)], [])
    yield ([('Call', (0,), 2), E, ('Jump', (0,), 3), ('Jump', (0,), 4), R], [0, 0])
    for k in range(1, 5):
        for s in shapes(k):
            yield ([KINDS[x] + (t,) for x, t in s], [])


def rev(rng):
    c = c12.gen(rng) if rng.random() < 0.5 else rng.choice(SMALL)(rng)
    while c[0] in ('Jump', 'Call', 'BeginTrack', 'RawData'):
        c = c12.gen(rng)
    return (c[0], c[1], None)


SMALL = [lambda r: ('Note', (ri(r, 0, 127), ri(r, 0, 255), ri(r, 0, 300))),
         lambda r: ('Rest', (ri(r, 0, 1000),)),
         lambda r: (r.choice(list(c12.SIMPLE)), (ri(r, 0, 255),)),
         lambda r: ('EndLoop', ()),
         lambda r: ('VibratoType', (ri(r, 0, 2),)),
         lambda r: ('MonoPoly', (ri(r, 0, 1),))]


def gen(rng):
    """Blocks: the start, tracks, subroutines; laid out in a random order after the start."""
    nt, ns = rng.randint(0, 3), rng.randint(0, 3)
    names = ['main'] + [('t', i) for i in range(nt)] + [('s', i) for i in range(ns)]
    blocks = {}
    called = set()
    for b in names:
        evs = []
        if b == 'main':
            for i in range(nt):
                evs.append(('BeginTrack', (ri(rng, 0, 15), 0), (('t', i), 0)))
        for _ in range(rng.choice((0, 1, 2, 3, 6))):
            evs.append(rev(rng))
            # subroutines call later subroutines only
            opts = [s for s in names if s[0] == 's' and (b[0] != 's' or s[1] > b[1])]
            if opts and rng.random() < 0.4:
                s = rng.choice(opts)
                evs.append(('Call', (0,), (s, 0)))
                called.add(s)
                if rng.random() < 0.3:
                    evs.append(('Call', (0,), (s, 0)))
            if rng.random() < 0.15:
                evs.append(('If', (), None))
                evs.append(('Jump', (0,), (b, ('later', rng.random()))))
        if b[0] == 's':
            for s in names:
                if s[0] == 's' and s[1] > b[1] and s not in called and rng.random() < 0.5:
                    evs.append(('Call', (0,), (s, 0)))
                    called.add(s)
            if rng.random() < 0.2:
                # through a jump over nothing
                evs.insert(0, ('Jump', (0,), (b, 1)))
                evs = [(n, a, ((t[0], t[1] + 1) if t and t[0] == b and isinstance(t[1], int) and n != 'Jump' else t)) for n, a, t in evs]
                evs[0] = ('Jump', (0,), (b, 1))
            evs.append(('Return', (), None))
        else:
            if b == 'main':
                for s in names:
                    if s[0] == 's' and s not in called:
                        evs.append(('Call', (0,), (s, 0)))
                        called.add(s)
            if rng.random() < 0.4:
                evs.append(('Jump', (0,), (b, ('any', rng.random()))))
            else:
                evs.append(('EndTrack', (), None))
        # an end or return right behind an If is outside of the domain; so is a plain event of that kind
        out = []
        for e in evs:
            if e[0] in ('Return', 'EndTrack') and out and out[-1][0] == 'If':
                out.append(('Rest', (1,), None))
            if e[0] == 'Jump' and e is evs[-1] and out and out[-1][0] == 'If':
                out.append(('Rest', (1,), None))
            out.append(e)
        blocks[b] = out
    # an uncalled subroutine may still exist (called only from a later one): drop those
    order = names[1:]
    rng.shuffle(order)
    order = ['main'] + order
    # every subroutine must be called
    reach, todo = set(), ['main'] + [b for b in names if b[0] == 't']
    while todo:
        b = todo.pop()
        if b in reach:
            continue
        reach.add(b)
        for n, a, t in blocks[b]:
            if t:
                todo.append(t[0])
    order = [b for b in order if b in reach]
    base, flat = {}, []
    for b in order:
        base[b] = len(flat)
        flat += [(b, i, e) for i, e in enumerate(blocks[b])]
    out = []
    for b, i, (n, a, t) in flat:
        if t is None:
            out.append((n, a, None))
            continue
        tb, k = t
        if isinstance(k, tuple):
            m = len(blocks[tb])
            if k[0] == 'later':
                k = min(m - 1, i + 1 + int(k[1] * (m - i - 1)))
            else:
                k = int(k[1] * m)
            # the jump of an If pair is not a target itself (the reader would
            # take it for an unconditional one, coming from outside)
            if blocks[tb][k][0] == 'Jump' and k and blocks[tb][k - 1][0] == 'If':
                k += 1
        out.append((n, a, base[tb] + k))
    notable = []
    starts = [base[b] for b in order if b == 'main' or b[0] == 't']
    if rng.random() < 0.6:
        notable = [rng.choice(starts) for _ in range(rng.randint(1, 3))]
        if 0 not in notable:
            notable.insert(rng.randint(0, len(notable)), 0)
    return (out, notable)


def make(events):
    evs = [c12.make((n, a)) for n, a, t in events]
    for e, (n, a, t) in zip(evs, events):
        if t is not None:
            if n == 'BeginTrack':
                e.firstEvent = evs[t]
            else:
                e.destination = evs[t]
    return evs


def dump(evs):
    idx = {id(e): i for i, e in enumerate(evs)}
    out = []
    for e in evs:
        t = None
        if isinstance(e, S.BeginTrackSequenceEvent):
            t = idx[id(e.firstEvent)]
        elif isinstance(e, (S.JumpSequenceEvent, S.CallSequenceEvent)):
            t = idx[id(e.destination)]
        out.append((c12.params(e), t))
    return out


def check(case):
    events, notable = case
    evs = make(events)
    want = dump(evs)
    eq('events', [w[0] for w in want], [c12.expected((n, a)) for n, a, t in events])
    data, offs = S.saveSequenceEvents(evs, [evs[i] for i in notable])
    eq('events after save', dump(evs), want)
    pos = [0]
    for e in evs:
        pos.append(pos[-1] + e.dataLength)
    eq('length of data', len(data), pos[-1])
    eq('notable offsets', list(offs), [pos[i] for i in notable])
    got, gotn = S.readSequenceEvents(bytes(data), list(offs))
    eq('events read back', dump(got), want)
    idx = {id(e): i for i, e in enumerate(got)}
    eq('notable events', [idx.get(id(e)) for e in gotn], list(notable))
    again, offs2 = S.saveSequenceEvents(got, gotn)
    eq('data saved again', (bytes(again), list(offs2)), (bytes(data), list(offs)))


KNOWN = {
    'end-after-if': ([('If', (), None), ('EndTrack', (), None), ('Note', (60, 100, 48), None), ('EndTrack', (), None)], [0]),
    'call-after-if': ([('If', (), None), ('Call', (0,), 3), ('EndTrack', (), None), ('EndTrack', (), None)], [0]),
    'track-calls-caller': ([('Call', (0,), 2), ('EndTrack', (), None), ('BeginTrack', (1, 0), 4), ('Return', (), None),
                            ('Call', (0,), 2), ('EndTrack', (), None)], [0]),
    'jump-into-if': ([('Jump', (0,), 2), ('If', (), None), ('Jump', (0,), 0), ('EndTrack', (), None)], [0, 1]),
}


def known():
    for key, case in KNOWN.items():
        try:
            check(case)
        except Exception as e:
            yield key, str(e)
