"""C02: LZ10 decompression follows the format for every valid stream."""
from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import lz

from ndspy import lz10

BOX = {}


def build(E):
    """A stream of any tokens: the facts about the chain are the format"""
    n = E.int('length', 0, (1 << 24) - 1)
    blocks = E.int('blocks', 0)
    D = E.source('output', 0, length=lambda: n.t)
    T = E.source('stream', 0)
    c = lz.Chain(E, D, T, n, blocks, 1)
    # every token of the stream lies within it
    size = T.length()
    r = c.r
    E.fns['rho'].gen = lambda b, i: [z3.Implies(z3.And(b >= 0, b < blocks.t, c.g(b, i) < n.t, i >= 0, i < 8),
                                                r(b, i) + 1 + c.k(b, i) <= size)]
    c.start()
    E.assume(z3.Implies(n.t == 0, blocks.t == 0))
    E.assume(z3.Implies(n.t > 0, blocks.t > 0))
    c.use(0)
    BOX.update(chain=c)
    data = SBytes((Pk(add(mul(n, 256), 0x10), 4),) + E.whole(T))
    return data, SBytes(E.whole(D))


def expand(data, output):
    before = snapshot(data)
    got = lz10.decompress(data)
    same(got, output, 'decompressed data')
    same(data, before, 'argument')


def contracts(E, ip):
    lz.decompression(ip, BOX)


def build_bad(E):
    data = E.bytes('data', 1)
    return (data,)


def bad(data):
    assume(data[0] != 0x10)
    prove(outcome(lz10.decompress, data) == 'TypeError', 'no marker')


LEMMAS = [
    Lemma('every token stream', build, expand, contracts=contracts, covers=['ndspy.lz10.decompress'] + [
        f'invariant of loop {i} of ndspy.lz10.decompress' for i in range(4)]),
    Lemma('data without the marker', build_bad, bad),
]
