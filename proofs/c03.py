"""C03: code compression round trip."""
import struct

from vf.terms import *
from vf.interp import prove_equal
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import lz

from ndspy import codeCompression as cc

BOX = {}


def chain(E, n):
    D = E.source('data', 0, length=lambda: n.t)
    T = E.source('written', 0, length=lambda: None)
    c = lz.Chain(E, D, T, n, None, 3, backwards=True)
    c.ordered = c.exact = True
    c.start()
    BOX.clear()
    BOX.update(chain=c)
    return E.whole(D)


def build(E):
    return b'', SBytes(chain(E, E.int('length', 0, (1 << 24) - 1))), False


def build_arm9(E):
    P = E.source('prefix', 0, length=lambda: 0x4000)
    rope = chain(E, E.int('length', 0, (1 << 24) - 1 - 0x4000))
    return SBytes(E.whole(P)), SBytes(rope), True


def build_short(E):
    n = E.int('length', 0, 0x4000)
    P = E.source('data', 0, length=lambda: n.t)
    return (SBytes(E.whole(P)),)


def roundtrip(prefix, rest, isArm9):
    data = prefix + rest
    before = snapshot(data)
    comp = cc.compress(data, isArm9) if isArm9 else cc.compress(data)
    same(data, before, 'argument of compress')
    prove((len(comp) - len(prefix)) % 4 == 0, 'length')
    extra = struct.unpack_from('<I', comp, len(comp) - 4)[0]
    if extra == 0:
        same(comp, data + bytes(-len(rest) % 4 + 4), 'raw data')
    else:
        same(comp[:len(prefix)], prefix, 'prefix')
        prove(len(comp) < len(data) + 4, 'length of compressed data')
        got = cc.decompress(comp)
        same(got, data, 'decompressed data')


def short(data):
    same(cc.compress(data, True), data + bytes(4), 'stored data')


def build_plain(E):
    return (E.bytes('data'),)


def plain(data):
    for k in range(8):
        if len(data) >= 4 * k + 8:
            assume(data[len(data) - 4 * k - 5] < 8)
    before = snapshot(data)
    got = cc.decompress(data)
    same(got, before, 'plain data')


def build_files(E):
    return E.bytes('data'), E.bytes('compressed'), E.bytes('decompressed'), E.bytes('compressedArm9')


def contracts_files(E, ip):
    """compress and decompress are functions of their arguments"""
    def compress(ip, fn, args, kw):
        prove_equal(E, args[0], BOX['data'], 'argument')
        arm9 = args[1] if len(args) > 1 else kw.get('isArm9', False)
        return BOX['compressedArm9' if arm9 else 'compressed']

    def decompress(ip, fn, args, kw):
        prove_equal(E, args[0], BOX['data'], 'argument')
        return BOX['decompressed']

    def remember(ip, fn, args, kw):
        BOX.update(zip(('data', 'compressed', 'decompressed', 'compressedArm9'), args))
    ip.contracts.update({cc.compress: compress, cc.decompress: decompress, given: remember})


def given(data, compressed, decompressed, compressedArm9):
    pass


def files(data, compressed, decompressed, compressedArm9):
    given(data, compressed, decompressed, compressedArm9)
    for name, args, want in (('a', (), compressed), ('b', (True,), compressedArm9), ('c', (False,), compressed)):
        cc.compressToFile(data, name, *args)
        with open(name, 'rb') as f:
            same(f.read(), want, 'compressed file')
    cc.decompressToFile(data, 'decompressed file')
    with open('decompressed file', 'rb') as f:
        same(f.read(), decompressed, 'decompressed file')
    with open('file', 'wb') as f:
        f.write(data)
    same(cc.compressFromFile('file'), compressed, 'compressed from file')
    same(cc.compressFromFile('file', True), compressedArm9, 'compressed from file')
    same(cc.compressFromFile('file', isArm9=True), compressedArm9, 'compressed from file')
    same(cc.decompressFromFile('file'), decompressed, 'decompressed from file')


def contracts(E, ip):
    lz.compression(ip, BOX)
    lz.code_decompression(ip, BOX)


ALL = ['ndspy.codeCompression.' + x for x in ('decompress', 'compress', '_compress', '_detectAppendedData')] + [
    'ndspy._lzCommon.compress', 'invariant of loop 0 of ndspy._lzCommon.compress.compressionSearch'] + [
    f'invariant of loop {i} of ndspy.codeCompression.decompress' for i in (1, 2)] + [
    f'invariant of loop {i} of ndspy._lzCommon.compress' for i in range(3)]

LEMMAS = [
    Lemma('round trip', build, roundtrip, contracts=contracts, covers=ALL),
    Lemma('round trip of ARM9 code', build_arm9, roundtrip, contracts=contracts, covers=ALL),
    Lemma('short ARM9 code', build_short, short, covers=['ndspy.codeCompression.compress']),
    Lemma('plain data', build_plain, plain, covers=['ndspy.codeCompression._detectAppendedData']),
    Lemma('files', build_files, files, contracts=contracts_files, covers=['ndspy.codeCompression.' + x for x in (
        'compressToFile', 'decompressToFile', 'compressFromFile', 'decompressFromFile')]),
]
