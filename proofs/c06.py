"""C06: NARC archives."""
import struct

import z3

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from ndspy import fnt, narc


def build(E):
    n = E.int('n', 0)
    d = E.source('file', 1)
    files = E.list(n, lambda k: SBytes(E.whole(d, k)))
    E.fnt = E.source('fnt')
    big = E.decide(E.bool('big'))
    return files, Opq('names', ()), '>' if big else '<'


def contracts(E, ip):
    """fnt.load inverts fnt.save, also with padding after the table (C04)"""
    def save(ip, fn, args, kw):
        return SBytes(E.whole(E.fnt))

    def load(ip, fn, args, kw):
        data = args[0].segs
        a, b = E.split(data, E.fnt.length())
        E.ropes_equal(a, E.whole(E.fnt), 'fnt.load is given the saved table')
        return Opq('names', ())
    ip.contracts[fnt.save] = save
    ip.contracts[fnt.load] = load


def roundtrip(files, names, end):
    a = narc.NARC.fromFilesAndNames(files, names)
    a.endiannessOfBeginning = end
    before = snapshot(a)
    data = a.save()
    assume(len(data) < 0x100000000)
    same(a, before, 'archive after save')
    magic, bom, ver, size, hsize, blocks = struct.unpack_from('<4sHHIHH', data)
    prove(magic == b'NARC', 'magic')
    prove(bom == (0xFEFF if end == '<' else 0xFFFE), 'byte order mark')
    prove(ver == (1 if end == '<' else 0x100), 'version')
    prove(size == len(data), 'file size field')
    prove(hsize == 0x10 and blocks == 3, 'header size, block count')
    m1, s1, count = struct.unpack_from('<4sII', data, 0x10)
    prove(m1 == b'BTAF' and count == len(files) and s1 == 12 + 8 * count, 'file allocation block')
    m2, s2 = struct.unpack_from('<4sI', data, 0x10 + s1)
    prove(m2 == b'BTNF' and s2 % 4 == 0, 'file name block')
    m3, s3 = struct.unpack_from('<4sI', data, 0x10 + s1 + s2)
    prove(m3 == b'GMIF' and s3 % 4 == 0, 'file image block')
    prove(0x10 + s1 + s2 + s3 == len(data), 'sections fill the file')
    base = 0x10 + s1 + s2 + 8
    for i, f in enumerate(files):
        start, stop = struct.unpack_from('<II', data, 0x1C + 8 * i)
        prove(start % 4 == 0, 'file start alignment')
        prove(start <= stop <= s3 - 8, 'file bounds')
        same(data[base + start:base + stop], f, 'file in image')
    for i in range(len(files) - 1):
        _, stop = struct.unpack_from('<II', data, 0x1C + 8 * i)
        start, _ = struct.unpack_from('<II', data, 0x1C + 8 * (i + 1))
        prove(stop <= start, 'files do not overlap')
    b = narc.NARC(data)
    same(b, before, 'loaded archive')
    c = narc.NARC(bytearray(data))
    same(c, before, 'archive loaded from a bytearray')
    same(b.save(), data, 'second save')


def build_named(E):
    n = E.int('n', 2)
    d = E.source('file', 1)
    f, g = E.int('f', 0), E.int('g', 0)
    E.assume(z3.And(I(f) < I(n), I(g) < I(n), I(f) != I(g)))
    return E.list(n, lambda k: SBytes(E.whole(d, k))), f, g, E.bytes('data')


class Tree:
    """A folder tree with one known file (lookups: C05)"""
    def __init__(self, id):
        self.id = id

    def idOf(self, name):
        return self.id if name == 'name' else None


def by_name(files, f, g, data):
    a = narc.NARC.fromFilesAndNames(files, Tree(f))
    count = len(files)
    same(a.getFileByName('name'), files[f], 'getFileByName')
    old = a.files[g]
    a.setFileByName('name', data)
    prove(len(a.files) == count, 'number of files')
    same(a.files[f], data, 'setFileByName')
    same(a.files[g], old, 'other files')
    same(a.getFileByName('name'), data, 'getFileByName again')
    a.filenames = Tree(None)
    prove(outcome(a.getFileByName, 'name') == 'ValueError', 'no such file')
    prove(outcome(a.setFileByName, 'name', data) == 'ValueError', 'no such file to replace')
    same(a.files[g], old, 'other files')


def case(m):
    n = m.int('n')
    if not 0 <= n <= 20:
        return None
    return [m.bytes('file', i) for i in range(n)], (0, [], []), '>' if m.bool('big') else '<'


LEMMAS = [
    Lemma('narc round trip', build, roundtrip, contracts,
          covers=['ndspy.narc.NARC.save', 'ndspy.narc.NARC._initFromData'],
          case=case, trusted=['fnt.load(fnt.save(t) + padding) == t (C04)']),
    Lemma('access by name', build_named, by_name, covers=['ndspy.narc.NARC.getFileByName', 'ndspy.narc.NARC.setFileByName'],
          trusted=['fnt.Folder.idOf is used by contract (C05)']),
]
