"""C07: ROM save/load round trip."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs import romlib
from proofs.romlib import in_order
from props.c07 import U8, U16, U32, RAW

from ndspy import rom, fnt, code

PLAIN = U8 + U16 + U32
BYTES = list(RAW) + ['name', 'arm9', 'arm9PostData', 'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner', 'debugRom']


def build(**kw):
    def build(E):
        return romlib.Rom(E, **kw).rom,
    return build


def roundtrip(r):
    before = snapshot(r)
    data = r.save()
    same(r, before, 'ROM after save')
    t = rom.NintendoDSRom(data)
    for k in PLAIN:
        prove(getattr(t, k) == getattr(r, k), k)
    for k in BYTES:
        same(getattr(t, k), getattr(r, k), k)
    same(t.filenames, r.filenames, 'filenames')
    same(t.files, r.files, 'files')
    same(t.sortedFileIds, in_order(), 'sortedFileIds')
    if len(r.rsaSignature):
        same(t.rsaSignature, r.rsaSignature, 'rsaSignature')
    else:
        prove(len(t.rsaSignature) <= 0x88, 'length of no signature')
        same(t.rsaSignature, bytes(len(t.rsaSignature)), 'no signature')
    prove((len(t.pad200) + 0x200) % 0x4000 == 0 and len(t.pad200) - len(r.pad200) < 0x4000, 'length of pad200')
    want = r.pad200 + bytes(len(t.pad200) - len(r.pad200))
    same(t.pad200[:0xE00], want[:0xE00], 'pad200 before 0x1000')
    same(t.pad200[0xE04:], want[0xE04:], 'pad200 after 0x1000')


# ------------------------------------------------------ the other methods

def given(*args):
    """For the contracts"""


def build_plain(E):
    X = romlib.Rom(E)
    f, g = X.some('f'), X.some('g')
    E.assume(I(f) != I(g))
    return X.rom, f, g, E.bytes('data')


def by_name(r, f, g, data):
    names = Tree(f)
    r.filenames = names
    same(r.getFileByName('name'), r.files[f], 'getFileByName')
    old = r.files[g]
    r.setFileByName('name', data)
    same(r.files[f], data, 'setFileByName')
    same(r.files[g], old, 'other files')
    same(r.getFileByName('name'), data, 'getFileByName again')
    r.filenames = Tree(None)
    prove(outcome(r.getFileByName, 'name') == 'ValueError', 'no such file')
    prove(outcome(r.setFileByName, 'name', data) == 'ValueError', 'no such file to replace')


class Tree:
    """A folder tree with one known file (lookups: C05)"""
    def __init__(self, id):
        self.id = id

    def idOf(self, name):
        return self.id if name == 'name' else None


def build_code(E):
    X = romlib.Rom(E, tables=(True, True))
    f = X.some('f')
    return X.rom, f, E.bool('some')


def contracts_code(E, ip):
    def main(ip, fn, args, kw):
        return Opq('code', tuple(args) + tuple(kw.values()))

    def table(ip, fn, args, kw):
        a = dict(zip(('tableData', 'fileCallback', 'idsToLoad'), args), **kw)
        ip.call_value(tested, [a['fileCallback']], {})
        return Opq('overlays', (a['tableData'], a.get('idsToLoad')))
    ip.contracts[code.MainCodeFile] = main
    ip.contracts[code.loadOverlayTable] = table
    ip.contracts[main_code] = main
    ip.contracts[overlays] = lambda ip, fn, args, kw: Opq('overlays', tuple(args))

    def remember(ip, fn, args, kw):
        E.known = tuple(args)
    ip.contracts[given] = remember
    ip.contracts[known] = lambda ip, fn, args, kw: E.known


def main_code(data, ram, settings):
    """A main code file of these (C10)"""


def overlays(table, ids):
    """The overlays of this table (C09)"""


def known():
    """What was given"""


def tested(callback):
    r, f = known()
    same(callback(0, f), r.files[f], 'data of an overlay')


def code_files(r, f, some):
    given(r, f)
    same(r.loadArm9(), main_code(r.arm9, r.arm9RamAddress, r.arm9CodeSettingsPointerAddress), 'loadArm9')
    same(r.loadArm7(), main_code(r.arm7, r.arm7RamAddress, r.arm7CodeSettingsPointerAddress), 'loadArm7')
    ids = (1, 2) if some else None
    if some:
        same(r.loadArm9Overlays(ids), overlays(r.arm9OverlayTable, ids), 'loadArm9Overlays')
        same(r.loadArm7Overlays(ids), overlays(r.arm7OverlayTable, ids), 'loadArm7Overlays')
    else:
        same(r.loadArm9Overlays(), overlays(r.arm9OverlayTable, None), 'all ARM9 overlays')
        same(r.loadArm7Overlays(), overlays(r.arm7OverlayTable, None), 'all ARM7 overlays')


def build_file(E):
    return E.bytes('image'), E.bool('update')


def contracts_file(E, ip):
    """NintendoDSRom.save gives the image, and the constructor loads it: decided by the round trip"""
    def save(ip, fn, args, kw):
        E.update = kw.get('updateDeviceCapacity', False)
        return E.image

    def load(ip, fn, args, kw):
        ip.setattr(args[0], 'loaded', args[1])

    def remember(ip, fn, args, kw):
        E.image = args[0]
    ip.contracts[rom.NintendoDSRom.save] = save
    ip.contracts[rom.NintendoDSRom._initFromData] = load
    ip.contracts[given] = remember
    ip.contracts[known] = lambda ip, fn, args, kw: E.update


def files(image, update):
    given(image)
    r = rom.NintendoDSRom()
    r.saveToFile('file', updateDeviceCapacity=update)
    prove(known() == update, 'updateDeviceCapacity')
    t = rom.NintendoDSRom.fromFile('file')
    prove(isinstance(t, rom.NintendoDSRom), 'class')
    same(t.loaded, image, 'image in a file')
    r.saveToFile('file')
    prove(known() == False, 'updateDeviceCapacity by default')
    same(rom.NintendoDSRom.fromFile('file').loaded, image, 'image in a file')


ALL = [romlib.SAVE, romlib.LOAD, f'verified {romlib.SAVE}.align'] + [f'invariant of loop {i} of {f}' for f, i in (
    (f'{romlib.SAVE}.iterFilenums', 0), (f'{romlib.SAVE}.iterFilenums', 1), (romlib.SAVE, 3), (romlib.LOAD, 0), (romlib.LOAD, 1))]
O9, O7 = ([f'invariant of loop {i} of {romlib.SAVE}'] for i in (0, 1))


def lemma(name, **kw):
    t = kw.get('tables', (False, False))
    return Lemma(f'round trip, {name}', build(**kw), roundtrip, romlib.contracts, covers=ALL + O9 * t[0] + O7 * t[1])


BOTH = (True, True)
METHODS = 'ndspy.rom.NintendoDSRom.'
LEMMAS = [
    lemma('all parts', tables=BOTH, banner='other', debug=True),
    lemma('overlays', tables=BOTH),
    lemma('ARM9 overlays', tables=(True, False)),
    lemma('ARM7 overlays', tables=(False, True)),
    lemma('no overlays'),
    lemma('overlay table right behind arm9', after='table', tables=(True, False)),
    lemma('arm7 right behind arm9', after='arm7'),
    lemma('one byte of padding', after=1, tables=(True, False), early=True),
    lemma('two bytes of padding', after=2, signature=False),
    lemma('three bytes of padding', after=3, banner=2, tables=(False, True)),
    lemma('banner of version 3', banner=3, early=True),
    lemma('banner of version 259', banner=0x103, early=True, signature=False),
    lemma('debug ROM', debug=True, signature=False),
    Lemma('access by name', build_plain, by_name, covers=[METHODS + 'getFileByName', METHODS + 'setFileByName'],
          trusted=['fnt.Folder.idOf is used by contract (C05)']),
    Lemma('code', build_code, code_files, contracts_code, covers=[METHODS + x for x in (
        'loadArm9', 'loadArm7', 'loadArm9Overlays', 'loadArm7Overlays')],
        trusted=['code.MainCodeFile and code.loadOverlayTable are used by contract (C10, C09)']),
    Lemma('files', build_file, files, contracts_file, covers=[METHODS + x for x in ('saveToFile', 'fromFile', '__init__')]),
]
TABLES = [(a, b) for a in (False, True) for b in (False, True)]
THOROUGH = [
    lemma(f'{a}, tables {t}, banner {b}, debug ROM {d}, early {e}, signature {x}', after=a, tables=t, banner=b, debug=d,
          early=e, signature=x)
    for a in ('padding', 'table', 'arm7', 1, 2, 3) for t in TABLES for b in (None, 'other') for d in (False, True)
    for e, x in ((False, True), (True, False)) if a != 'table' or t[0] if a != 'arm7' or not t[0]
]
TRUSTED = [
    'fnt.load inverts fnt.save (contract decided by C04)',
    'sorted() returns a permutation in ascending order; it is shown what it is given',
    'crc16 is used by contract (C08)',
    'the ghost functions of proofs/romlib.py exist for every ROM with distinct overlay file IDs',
]
ASSUMPTIONS = [
    'the file IDs in the overlay tables are distinct and exist, overlay tables are whole entries of 32 bytes',
    'sortedFileIds contains no negative numbers (any others, also repeated or too large, are allowed)',
    'the image is shorter than 4 GB; pad200 ends before 0x1000 or contains the word there',
    'the signature has 0x88 bytes or is empty; the banner has the length of its version',
    'the data behind arm9 are 12-byte pieces with the magic number, and what follows them without padding does not begin with it',
]
LEVEL = 'other'
BOUNDED = ['with no padding behind arm9 and no ARM9 overlays, an arm7 of less than 4 bytes is only covered by the run-time checks']
