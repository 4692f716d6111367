"""C01: LZ10 compress/decompress round trip."""
import struct

from vf.terms import *
from vf.interp import prove_equal
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import lz

from ndspy import lz10

BOX = {}


def build(E):
    n = E.int('length', 0, (1 << 24) - 1)
    D = E.source('data', 0, length=lambda: n.t)
    T = E.source('written', 0, length=lambda: None)
    c = lz.Chain(E, D, T, n, None, 1)
    c.ordered = True
    c.start()
    BOX.clear()
    BOX.update(chain=c)
    return (SBytes(E.whole(D)),)


def roundtrip(data):
    before = snapshot(data)
    comp = lz10.compress(data)
    same(data, before, 'argument of compress')
    prove(struct.unpack_from('<I', comp)[0] == 0x10 + 256 * len(data), 'header')
    got = lz10.decompress(comp)
    same(got, data, 'decompressed data')


def contracts(E, ip):
    lz.compression(ip, BOX)
    lz.decompression(ip, BOX)


def build_files(E):
    return E.bytes('data'), E.bytes('compressed'), E.bytes('decompressed')


def contracts_files(E, ip):
    """compress and decompress are functions of their argument"""
    def compress(ip, fn, args, kw):
        return BOX['compressed'] if args[0] is BOX['data'] or prove_same(args[0]) else None

    def decompress(ip, fn, args, kw):
        return BOX['decompressed'] if args[0] is BOX['data'] or prove_same(args[0]) else None

    def prove_same(x):
        prove_equal(E, x, BOX['data'], 'argument')
        return True

    def remember(ip, fn, args, kw):
        BOX.update(zip(('data', 'compressed', 'decompressed'), args))
    ip.contracts.update({lz10.compress: compress, lz10.decompress: decompress, given: remember})


def given(data, compressed, decompressed):
    pass


def files(data, compressed, decompressed):
    given(data, compressed, decompressed)
    lz10.compressToFile(data, 'compressed file')
    with open('compressed file', 'rb') as f:
        same(f.read(), compressed, 'compressed file')
    lz10.decompressToFile(data, 'decompressed file')
    with open('decompressed file', 'rb') as f:
        same(f.read(), decompressed, 'decompressed file')
    with open('file', 'wb') as f:
        f.write(data)
    same(lz10.compressFromFile('file'), compressed, 'compressed from file')
    same(lz10.decompressFromFile('file'), decompressed, 'decompressed from file')


LEMMAS = [
    Lemma('round trip', build, roundtrip, contracts=contracts, covers=[
        'ndspy.lz10.decompress', 'ndspy.lz10.compress', 'ndspy._lzCommon.compress', 'invariant of loop 0 of ndspy._lzCommon.compress.compressionSearch'] + [
        f'invariant of loop {i} of ndspy.lz10.decompress' for i in range(4)] + [
        f'invariant of loop {i} of ndspy._lzCommon.compress' for i in range(3)]),
    Lemma('files', build_files, files, contracts=contracts_files, covers=['ndspy.lz10.' + x for x in (
        'compressToFile', 'decompressToFile', 'compressFromFile', 'decompressFromFile')]),
]
