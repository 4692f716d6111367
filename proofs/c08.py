"""C08: saved ROM images."""
import math
import struct

import z3

from vf.loops import Cut
from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import romlib
from proofs.romlib import checksums
from props.c07 import U8, U16, U32, RAW

from ndspy import rom, _common


def build(**kw):
    def build(E):
        X = romlib.Rom(E, **kw)
        return X.rom, X.fnt
    return build


def build_files(kind, **kw):
    def build(E):
        X = romlib.Rom(E, **kw)
        f, g = X.some('f'), X.some('g')
        E.assume(I(f) != I(g))
        E.assume(X.kind(I(f)) == kind)
        earlier = z3.And(X.kind(I(f)) == 0, X.kind(I(g)) == 0, X.rank(I(f)) < X.rank(I(g)))
        return X.rom, f, kind, g, SBool(earlier)
    return build


AT = {'unitCode': 0x12, 'encryptionSeedSelect': 0x13, 'deviceCapacity': 0x14, 'pad015': 0x15, 'pad016': 0x16, 'pad017': 0x17,
      'pad018': 0x18, 'pad019': 0x19, 'pad01A': 0x1A, 'pad01B': 0x1B, 'pad01C': 0x1C, 'region': 0x1D, 'version': 0x1E,
      'autostart': 0x1F}
AT32 = {'arm9EntryAddress': 0x24, 'arm9RamAddress': 0x28, 'arm7EntryAddress': 0x34, 'arm7RamAddress': 0x38,
        'normalCardControlRegisterSettings': 0x60, 'secureCardControlRegisterSettings': 0x64,
        'arm9CodeSettingsPointerAddress': 0x70, 'arm7CodeSettingsPointerAddress': 0x74, 'debugRomAddress': 0x168}
ATRAW = {'idCode': 0xC, 'developerCode': 0x10, 'secureAreaDisable': 0x78, 'pad088': 0x88, 'nintendoLogo': 0xC0, 'pad16C': 0x16C}


def u32(d, o):
    return struct.unpack_from('<I', d, o)[0]


def image(r, names):
    before = snapshot(r)
    data = r.save()
    same(r, before, 'ROM after save')
    prove(len(data) % 0x400 == 0, 'length of the image')
    a9, n9 = u32(data, 0x20), u32(data, 0x2C)
    prove(a9 % 0x4000 == 0 and a9 >= 0x200 + len(r.pad200), 'place of arm9')
    prove(n9 == len(r.arm9), 'length of arm9')
    same(data[a9:a9 + n9], r.arm9, 'arm9')
    end = a9 + n9
    same(data[end:end + len(r.arm9PostData)], r.arm9PostData, 'data behind arm9')
    end += len(r.arm9PostData)
    t, nt = u32(data, 0x50), u32(data, 0x54)
    prove(nt == len(r.arm9OverlayTable), 'length of the arm9 overlay table')
    if nt:
        prove(t % 0x200 == 0 and end <= t, 'place of the arm9 overlay table')
        same(data[t:t + nt], r.arm9OverlayTable, 'arm9 overlay table')
        end = t + nt
    else:
        prove(t == 0, 'no arm9 overlay table')
    a7, n7 = u32(data, 0x30), u32(data, 0x3C)
    prove(a7 % 0x200 == 0 and end <= a7, 'place of arm7')
    prove(n7 == len(r.arm7), 'length of arm7')
    same(data[a7:a7 + n7], r.arm7, 'arm7')
    end = a7 + n7
    t, nt = u32(data, 0x58), u32(data, 0x5C)
    prove(nt == len(r.arm7OverlayTable), 'length of the arm7 overlay table')
    if nt:
        prove(t % 0x200 == 0 and end <= t, 'place of the arm7 overlay table')
        same(data[t:t + nt], r.arm7OverlayTable, 'arm7 overlay table')
        end = t + nt
    else:
        prove(t == 0, 'no arm7 overlay table')
    o, n = u32(data, 0x40), u32(data, 0x44)
    prove(o % 0x200 == 0 and end <= o, 'place of the filename table')
    prove(n == len(names), 'length of the filename table')
    same(data[o:o + n], names, 'filename table')
    end = o + n
    fat, n = u32(data, 0x48), u32(data, 0x4C)
    prove(fat % 0x200 == 0 and end <= fat, 'place of the allocation table')
    prove(n == 8 * len(r.files), 'length of the allocation table')
    end = fat + n
    o = u32(data, 0x68)
    if len(r.iconBanner):
        prove(o % 0x200 == 0 and end <= o, 'place of the banner')
        same(data[o:o + len(r.iconBanner)], r.iconBanner, 'banner')
        end = o + len(r.iconBanner)
    else:
        prove(o == 0, 'no banner')
    o, n = u32(data, 0x160), u32(data, 0x164)
    prove(n == len(r.debugRom), 'length of the debug ROM')
    if len(r.debugRom):
        prove(o % 0x200 == 0 and end <= o, 'place of the debug ROM')
        same(data[o:o + n], r.debugRom, 'debug ROM')
        end = o + n
    else:
        prove(o == 0, 'no debug ROM')
    sig = u32(data, 0x80)
    prove(sig % 0x20 == 0 and end <= sig, 'place of the signature')
    prove(sig + len(r.rsaSignature) <= len(data), 'end of the signature')
    same(data[sig:sig + len(r.rsaSignature)], r.rsaSignature, 'signature')
    prove(u32(data, 0x1000) == sig, 'place of the signature at 0x1000')
    for k, o in AT.items():
        prove(data[o] == getattr(r, k), k)
    for k, o in AT32.items():
        prove(u32(data, o) == getattr(r, k), k)
    for k, o in ATRAW.items():
        same(data[o:o + RAW[k]], getattr(r, k), k)
    prove(struct.unpack_from('<HH', data, 0x6C) == (r.secureAreaChecksum, r.secureTransferDelay), 'secure area')
    same(data[:12], r.name + bytes(12 - len(r.name)), 'title')
    prove(u32(data, 0x84) == 0x4000, 'header size')
    (logo, a), (header, b) = checksums()
    prove(struct.unpack_from('<HH', data, 0x15C) == (a, b), 'checksums')
    same(logo, r.nintendoLogo, 'data of the logo checksum')
    same(header, data[:0x15E], 'data of the header checksum')


def files(r, f, kind, g, earlier):
    data = r.save()
    fat = u32(data, 0x48)
    start, stop = struct.unpack_from('<II', data, fat + 8 * f)
    prove(start % 0x200 == 0, 'place of a file')
    prove(stop == start + len(r.files[f]), 'length of a file')
    same(data[start:stop], r.files[f], 'a file')
    if kind == 1:
        low, high = u32(data, 0x50) + len(r.arm9OverlayTable), u32(data, 0x30)
    elif kind == 2:
        low, high = u32(data, 0x58) + len(r.arm7OverlayTable), u32(data, 0x40)
    else:
        low, high = fat + 8 * len(r.files), u32(data, 0x80)
        if len(r.iconBanner):
            low = u32(data, 0x68) + len(r.iconBanner)
        if len(r.debugRom):
            low = u32(data, 0x160) + len(r.debugRom)
    prove(low <= start and stop <= high, 'files do not overlap anything else')
    start2, stop2 = struct.unpack_from('<II', data, fat + 8 * g)
    prove(stop <= start2 or stop2 <= start, 'files do not overlap')
    prove(not earlier or stop <= start2, 'order of the files')


# ------------------------------------------------------------ checksums

class Crc(Cut):
    """Bit j of the checksum of the first i bytes is crc(i, j)"""
    def ghost(self, S, i):
        E = S.E
        if S.again:
            # CRC-16 with the reversed polynomial 0xA001, bit by bit
            c, d = [[x(I(i), z3.IntVal(j)) == 1 for j in range(n)] for x, n in ((E.crc, 16), (E.bits, 8))]
            for b in d:
                one = z3.Xor(c[0], b)
                c = c[1:] + [one]
                c[13], c[0] = z3.Xor(c[13], one), z3.Xor(c[0], one)
            for j in range(16):
                E.assume(E.crc(I(add(i, 1)), z3.IntVal(j)) == z3.If(c[j], 1, 0))

    def state(self, S, g, i):
        return {'crc': mk(value(S.E.crc, I(i), 16))}, []


def value(bits, k, n):
    return z3.Sum([(1 << j) * bits(k, z3.IntVal(j)) for j in range(n)])


def build_crc(E):
    n = E.int('n', 0)
    E.crc, E.bits = E.fun('crc', 2, 0, 1), E.fun('bit', 2, 0, 1)
    for j in range(16):
        E.assume(E.crc(z3.IntVal(0), z3.IntVal(j)) == 1)
    return SBytes((E.seq(n, lambda k: (Pk(mk(value(E.bits, I(k), 8)), 1),)),)), mk(value(E.crc, I(n), 16))


def contracts_crc(E, ip):
    ip.fork = True
    ip.cuts['ndspy._common.crc16', 0] = Crc()


def crc(data, want):
    prove(_common.crc16(data) == want, 'checksum')


# ------------------------------------------------------------- capacity

def contracts_capacity(E, ip):
    """math.ceil(math.log2(n)) is the least k with n <= 2**k, for multiples n of 0x400 below 2**32"""
    romlib.contracts(E, ip)

    def log2(ip, fn, args, kw):
        n = I(args[0])
        E.prove(z3.And(n > 0, n <= 0xFFFFFFFF, n % 0x400 == 0), 'argument of log2')
        return Opq('log2', (mk(n),))

    def ceil(ip, fn, args, kw):
        n = I(args[0].args[0])
        k = E.int('k', 10, 32)
        power = powers(E)
        E.assume(z3.And(n <= power(k.t), n > power(k.t - 1)))
        return k
    ip.contracts[math.log2] = log2
    ip.contracts[math.ceil] = ceil
    ip.contracts[size] = lambda ip, fn, args, kw: mk(powers(E)(I(args[0])))


def powers(E):
    return E.fun('power', 1, gen=lambda k: [z3.Implies(k == j, E.fns['power'].decl(k) == 1 << j) for j in range(9, 33)])


def size(k):
    """2 ** k"""
    return 2 ** k


def capacity(r, names):
    data = r.save(updateDeviceCapacity=True)
    n = r.deviceCapacity
    prove(data[0x14] == n, 'capacity in the header')
    prove(len(data) <= size(n + 17), 'capacity large enough')
    prove(n == 0 or len(data) > size(n + 16), 'capacity not too large')


ALL = [romlib.SAVE, f'verified {romlib.SAVE}.align'] + [f'invariant of loop {i} of {f}' for f, i in (
    (f'{romlib.SAVE}.iterFilenums', 0), (f'{romlib.SAVE}.iterFilenums', 1), (romlib.SAVE, 3))]
O9, O7 = ([f'invariant of loop {i} of {romlib.SAVE}'] for i in (0, 1))


def lemma(name, **kw):
    t = kw.get('tables', (False, False))
    return Lemma(f'image, {name}', build(**kw), image, romlib.contracts, covers=ALL + O9 * t[0] + O7 * t[1])


def lemma_files(name, kind, **kw):
    t = kw.get('tables', (False, False))
    return Lemma(f'files, {name}', build_files(kind, **kw), files, romlib.contracts, covers=ALL + O9 * t[0] + O7 * t[1])


BOTH = (True, True)
LEMMAS = [
    Lemma('capacity', build(), capacity, contracts_capacity, covers=[romlib.SAVE],
          trusted=['math.ceil(math.log2(n)) is exact for multiples of 0x400 below 2**32']),
    Lemma('checksum', build_crc, crc, contracts_crc, covers=['ndspy._common.crc16', 'invariant of loop 0 of ndspy._common.crc16']),
    lemma('no overlays'),
    lemma('ARM9 overlays', tables=(True, False)),
    lemma('ARM7 overlays', tables=(False, True)),
    lemma('all parts', tables=BOTH, banner='other', debug=True),
    lemma('banner of version 2', banner=2, signature=False),
    lemma('banner of version 3', banner=3, early=True),
    lemma('banner of version 259', banner=0x103, early=True, signature=False),
    lemma('debug ROM', debug=True, signature=False),
    lemma_files('files of ARM9 overlays', 1, tables=BOTH, banner='other', debug=True),
    lemma_files('files of ARM7 overlays', 2, tables=BOTH, banner='other', debug=True),
    lemma_files('other files', 0, tables=BOTH, banner='other', debug=True),
    lemma_files('other files, no banner', 0, debug=True),
    lemma_files('other files, no debug ROM', 0, banner='other'),
    lemma_files('other files only', 0),
]
TABLES = [(a, b) for a in (False, True) for b in (False, True)]
THOROUGH = [
    lemma(f'tables {t}, banner {b}, debug ROM {d}, early {e}, signature {x}', tables=t, banner=b, debug=d, early=e, signature=x)
    for t in TABLES for b in (None, 'other', 2, 3, 0x103) for d in (False, True) for e in (False, True) for x in (False, True)
] + [
    lemma_files(f'kind {k}, tables {t}, banner {b}, debug ROM {d}', k, tables=t, banner=b, debug=d)
    for t in TABLES for b in (None, 'other') for d in (False, True) for k in (0,) + (1,) * t[0] + (2,) * t[1]
]
TRUSTED = [
    'fnt.save is used by contract (C04): some byte string',
    'the ghost functions of proofs/romlib.py exist for every ROM with distinct overlay file IDs',
]
ASSUMPTIONS = [
    'the file IDs in the overlay tables are distinct and exist, overlay tables are whole entries of 32 bytes',
    'sortedFileIds contains no negative numbers (any others, also repeated or too large, are allowed)',
    'the image is shorter than 4 GB; pad200 ends before 0x1000 or contains the word there',
    'the signature has 0x88 bytes or is empty; the banner has the length of its version',
]
