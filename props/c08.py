"""C08: saved ROM image is well-formed."""
import struct
from .base import eq, ensure
from . import c07, c04

from ndspy import fnt

QUICK, THOROUGH = 1200, 12000
# case: (rom case, update capacity)


def boundary():
    for c in c07.boundary():
        yield (c, False)
    for n in (0, 1, 0x1B000, 0x1B800, 0x1B801, 0x3B000, 0x3B800, 0x3B801, 0x3B7FF, 0x20000, 0x80000):
        yield ({'files': [[('rep', b'abcdefgh', n)]]}, True)
        yield ({'arm9': [('rep', b'abcdefgh', n)]}, True)
    for n in range(0x20000 - 0x4E00, 0x20000 - 0x4000 + 0x400, 0x100):
        yield ({'files': [[('rep', b'a', n)]]}, True)


def gen(rng):
    return (c07.gen(rng), rng.random() < 0.5)


def crc16(data):
    crc = 0xFFFF
    for b in data:
        for i in range(8):
            fb = (crc ^ (b >> i)) & 1
            crc = (crc >> 1) ^ (0xA001 if fb else 0)
    return crc


def u32(d, o):
    return struct.unpack_from('<I', d, o)[0]


def check(case):
    c, upd = case
    r = c07.make(c)
    want = c07.dump(r)
    data = r.save(updateDeviceCapacity=True) if upd else r.save()
    eq('image size multiple of 0x400', len(data) % 0x400, 0)
    regions = [('header', 0, 0x200)]

    def region(name, off, size, content, align):
        if size:
            ensure(0 <= off and off + size <= len(data), f'{name} at {off:#x}+{size:#x} outside the image')
            regions.append((name, off, off + size))
            if align:
                eq(f'{name} alignment', off % align, 0)
        if content is not None:
            eq(f'{name} size', size, len(content))
            if size:
                eq(f'{name} content', bytes(data[off:off + size]), content)

    region('arm9', u32(data, 0x20), u32(data, 0x2C), want['arm9'], 0x200)
    eq('arm9 offset alignment', u32(data, 0x20) % 0x4000, 0)
    eq('arm9 post-data', bytes(data[u32(data, 0x20) + len(want['arm9']):][:len(want['arm9PostData'])]), want['arm9PostData'])
    if want['arm9PostData']:
        region('post', u32(data, 0x20) + len(want['arm9']), len(want['arm9PostData']), None, 0)
    region('arm7', u32(data, 0x30), u32(data, 0x3C), want['arm7'], 0x200)
    fo, fl = u32(data, 0x40), u32(data, 0x44)
    region('fnt', fo, fl, None, 0x200)
    eq('filename table', c04.dump(fnt.load(bytes(data[fo:fo + fl]))), want['filenames'])
    ao, al = u32(data, 0x48), u32(data, 0x4C)
    eq('allocation table size', al, 8 * len(want['files']))
    region('fat', ao, al, None, 0x200)
    region('arm9 overlay table', u32(data, 0x50), u32(data, 0x54), want['arm9OverlayTable'], 0x200)
    region('arm7 overlay table', u32(data, 0x58), u32(data, 0x5C), want['arm7OverlayTable'], 0x200)
    if want['iconBanner']:
        region('banner', u32(data, 0x68), len(want['iconBanner']), want['iconBanner'], 0x200)
    else:
        eq('banner offset', u32(data, 0x68), 0)
    region('debug ROM', u32(data, 0x160), u32(data, 0x164), want['debugRom'], 0x200)
    for i, f in enumerate(want['files']):
        s, e = struct.unpack_from('<II', data, ao + 8 * i)
        ensure(s <= e <= len(data), f'file {i}: {s:#x}..{e:#x}')
        eq(f'file {i} alignment', s % 0x200, 0)
        region(f'file {i}', s, e - s, f, 0x200)
    so = u32(data, 0x80)
    region('signature', so, len(want['rsaSignature']), want['rsaSignature'], 0x20)
    eq('signature offset at 0x1000', u32(data, 0x1000), so)
    ensure(so + len(want['rsaSignature']) <= len(data), 'signature outside the image')
    regions.sort(key=lambda x: x[1:])
    for (n1, a1, b1), (n2, a2, b2) in zip(regions, regions[1:]):
        ensure(b1 <= a2, f'{n1} {a1:#x}..{b1:#x} overlaps {n2} {a2:#x}..{b2:#x}')
    end = max(b for _, _, b in regions)
    eq('logo checksum', struct.unpack_from('<H', data, 0x15C)[0], crc16(want['nintendoLogo']))
    eq('header checksum', struct.unpack_from('<H', data, 0x15E)[0], crc16(data[:0x15E]))
    eq('header size', u32(data, 0x84), 0x4000)
    cap = data[0x14]
    if upd:
        ensure(len(data) <= 0x20000 << cap, f'capacity {cap} too small for {len(data):#x}')
        ensure(cap == 0 or len(data) > 0x20000 << (cap - 1), f'capacity {cap} too large for {len(data):#x}')
        eq('capacity attribute', r.deviceCapacity, cap)
    else:
        eq('capacity', cap, want['deviceCapacity'])
    # plain header fields
    h = {'unitCode': 0x12, 'encryptionSeedSelect': 0x13, 'pad015': 0x15, 'pad016': 0x16, 'pad017': 0x17, 'pad018': 0x18,
         'pad019': 0x19, 'pad01A': 0x1A, 'pad01B': 0x1B, 'pad01C': 0x1C, 'region': 0x1D, 'version': 0x1E, 'autostart': 0x1F}
    for k, o in h.items():
        eq(k, data[o], want[k])
    h = {'arm9EntryAddress': 0x24, 'arm9RamAddress': 0x28, 'arm7EntryAddress': 0x34, 'arm7RamAddress': 0x38,
         'normalCardControlRegisterSettings': 0x60, 'secureCardControlRegisterSettings': 0x64,
         'arm9CodeSettingsPointerAddress': 0x70, 'arm7CodeSettingsPointerAddress': 0x74, 'debugRomAddress': 0x168}
    for k, o in h.items():
        eq(k, u32(data, o), want[k])
    eq('name', bytes(data[:12]), want['name'].ljust(12, b'\0'))
    for k, o, n in (('idCode', 12, 4), ('developerCode', 16, 2), ('secureAreaDisable', 0x78, 8), ('pad088', 0x88, 0x38),
                    ('nintendoLogo', 0xC0, 0x9C), ('pad16C', 0x16C, 0x94)):
        eq(k, bytes(data[o:o + n]), want[k])
    for k, o in (('secureAreaChecksum', 0x6C), ('secureTransferDelay', 0x6E)):
        eq(k, struct.unpack_from('<H', data, o)[0], want[k])
