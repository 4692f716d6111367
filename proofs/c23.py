"""
C23: named-list helpers.

Names are modelled as integers: only their equality matters, and any
equivalence relation on names is equality of integers.
"""
from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

import ndspy


def build(E):
    n = E.int('n', 0)
    name = E.fun('name', 1)
    aslist = E.decide(E.bool('aslist'))

    def pair(k):
        p = SInt(name(k)), Opq('value', (SInt(k),))
        return MList([El(x) for x in p]) if aslist else p
    return E.list(n, pair), E.int('wanted'), Opq('new', ())


def lookup(L, wanted, new):
    before = snapshot(L)
    r = outcome(ndspy.indexInNamedList, L, wanted)
    v = outcome(ndspy.findInNamedList, L, wanted)
    same(L, before, 'list after looking')
    if r == 'KeyError':
        prove(v == 'KeyError', 'missing name: find')
        for n, _ in L:
            prove(n != wanted, 'no pair has a missing name')
        prove(outcome(ndspy.setInNamedList, L, wanted, new) == 'KeyError', 'missing name: set')
        same(L, before, 'list after a missing name')
        return
    prove(r[0] == 'ok' and v[0] == 'ok', 'no other exception')
    i = r[1]
    prove(0 <= i < len(L), 'index in range')
    prove(L[i][0] == wanted, 'name at the index')
    for j in range(i):
        prove(L[j][0] != wanted, 'no earlier pair has the name')
    same(v[1], L[i][1], 'value of the pair at the index')
    ndspy.setInNamedList(L, wanted, new)
    prove(len(L) == len(before), 'length after set')
    same(L[:i], before[:i], 'pairs before')
    same(L[i + 1:], before[i + 1:], 'pairs after')
    prove(len(L[i]) == 2, 'still a pair')
    prove(L[i][0] == before[i][0], 'name kept')
    same(L[i][1], new, 'value set')


def case(m):
    n = m.int('n')
    if n > 1000:
        return None
    return [m.fun('name', k) for k in range(n)], m.int('wanted'), int(m.bool('aslist'))


LEMMAS = [
    Lemma('lookup and replacement', build, lookup, case=case,
          covers=['ndspy.indexInNamedList', 'ndspy.findInNamedList', 'ndspy.setInNamedList']),
]
