"""C12: encoding of sequence events."""
import struct

from vf.terms import *
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from props.c12 import ARITH, SIMPLE, PLAIN, RANDARGS, VMAX

from ndspy import soundSequence as S


def around(E):
    """Bytes before and after an encoded event"""
    return E.bytes('pre'), E.bytes('post')


def number(E, low=False):
    """
    Any number below 2^35, given by its 7-bit digits: every such number has
    exactly one such form. low: the last digit and the rest apart.
    """
    n = E.concretize(E.int('digits', 1, 5), 1, 5)
    ds = [E.int(f'd{i}', 0 if i < n - 1 or n == 1 else 1, 127) for i in range(n)]
    x = add(*[mul(d, 1 << 7 * i) for i, d in enumerate(ds)], 0)
    if low:
        return add(*[mul(d, 1 << 7 * i) for i, d in enumerate(ds[1:])], 0, 0), ds[0]
    return x


def value(m):
    return sum(m.int(f'd{i}') << 7 * i for i in range(m.int('digits', 1)))


# ------------------------------------------------------- numbers

def build_varint(E):
    return (number(E),) + around(E)


def groups(x):
    """The number of 7-bit groups of x"""
    n = 1
    while n < 5 and x >= 1 << 7 * n:
        n += 1
    return n


def encoded(x):
    """x in 7-bit groups, the last one without the top bit"""
    n = groups(x)
    out = b''
    for i in range(n - 1):
        out = out + bytes([x // (1 << 7 * (n - 1 - i)) % 128 + 128])
    return out + bytes([x % 128])


def varint(x, pre, post):
    w = S._writeVariableLengthInt(x)
    same(w, encoded(x), 'shortest encoding')
    prove(S._lengthOfVariableLengthInt(x) == len(w), 'length of the encoding')
    prove(S._readVariableLengthInt(pre + w + post, len(pre)) == x, 'decoded')
    prove(S._readVariableLengthInt(w, 0) == x, 'decoded at the end')


def build_negative(E):
    return (E.int('x', None, -1),)


def negative(x):
    prove(outcome(S._writeVariableLengthInt, x) == 'ValueError', 'negative numbers are refused')
    prove(outcome(S._lengthOfVariableLengthInt, x) == 'ValueError', 'negative numbers are refused')


# ------------------------------------------------------- events

def roundtrip(e, pre, post, body):
    """The saved bytes are type, body; they have the stated length and decode to the same event"""
    before = snapshot(e)
    data = e.save()
    same(e, before, 'event after save')
    prove(data[0] == e.type, 'first byte')
    same(data[1:], body, 'encoding')
    prove(len(data) == e.dataLength, 'stated length')
    cls = type(e)
    f = cls.fromData(data[0], pre + data + post, len(pre))
    same(f, before, 'decoded event')
    prove(f.dataLength == len(data), 'stated length of the decoded event')
    same(cls.fromData(data[0], data), before, 'decoded event at the end')
    return data


def listed(e, data):
    """readSequenceEvents finds the event"""
    before = snapshot(e)
    tail = b'' if data[0] == 0xFF else b'\xFF'
    evs, notable = S.readSequenceEvents(data + tail, [])
    prove(len(evs) == (1 if data[0] == 0xFF else 2), 'number of events')
    same(evs[0], before, 'event read')
    prove(evs[-1].type == 0xFF and type(evs[-1]) is S.EndTrackSequenceEvent, 'end of track')
    same(notable, [], 'notable events')


def build_note(E):
    return (E.int('pitch', 0, 127), E.int('velocity', 0, 127), E.bool('flag'), number(E)) + around(E)


def note(pitch, velocity, flag, x, pre, post):
    both = velocity + (128 if flag else 0)
    e = S.NoteSequenceEvent(pitch, both, x)
    prove(e.type == pitch and e.pitch == pitch and e.velocity == velocity, 'parameters')
    prove(e.unknownFlag == flag and e.duration == x, 'parameters')
    data = roundtrip(e, pre, post, bytes([both]) + encoded(x))
    listed(e, data)
    e.pitch = 127 - pitch
    prove(e.type == 127 - pitch, 'pitch')


def build_badnote(E):
    return E.int('pitch'), E.int('velocity', 0), E.int('x', 0, VMAX)


def badnote(pitch, velocity, x):
    e = S.NoteSequenceEvent(0, 0, x)
    e.pitch = pitch
    e.velocity = velocity
    if pitch < 0 or pitch > 127 or velocity > 127:
        prove(outcome(e.save) == 'ValueError', 'values out of range are refused')


def build_x(E):
    return (number(E),) + around(E)


def rest(x, pre, post):
    e = S.RestSequenceEvent(x)
    prove(e.type == 0x80 and e.duration == x, 'parameters')
    listed(e, roundtrip(e, pre, post, encoded(x)))


def build_instrument(E):
    return number(E, True) + around(E)


def instrument(bank, ins, pre, post):
    e = S.InstrumentSwitchSequenceEvent(bank, ins)
    prove(e.type == 0x81 and e.bankID == bank and e.instrumentID == ins, 'parameters')
    listed(e, roundtrip(e, pre, post, encoded(bank * 128 + ins)))


def build_random(t):
    def build(E):
        return (t if t is not None else E.int('sub', 0, 127), MList([El(E.int(f'a{i}', 0, 255)) for i in range(RANDARGS[t or 0])]),
                E.int('min', -32768, 32767), E.int('max', -32768, 32767)) + around(E)
    return build


def random(t, args, lo, hi, pre, post):
    e = S.RandomSequenceEvent(t, args, lo, hi)
    prove(e.type == 0xA0 and e.subType == t and e.randMin == lo and e.randMax == hi, 'parameters')
    same(e.args, args, 'arguments')
    listed(e, roundtrip(e, pre, post, bytes([t]) + bytes(args) + struct.pack('<hh', lo, hi)))


def build_variable(lo, hi):
    def build(E):
        return (E.int('sub', lo, hi), E.int('var', -128, 127), E.int('unk', -128, 127), lo == 0xB0) + around(E)
    return build


def variable(t, var, unk, two, pre, post):
    if two:
        e = S.FromVariableSequenceEvent(t, var)
        prove(e.unknown is None, 'default')
        prove(outcome(e.save) == 'ValueError', 'missing value')
        e = S.FromVariableSequenceEvent(t, var, unk)
        prove(e.unknown == unk, 'parameters')
        body = bytes([t]) + struct.pack('<bb', unk, var)
    else:
        e = S.FromVariableSequenceEvent(t, var)
        prove(e.unknown is None, 'parameters')
        body = bytes([t]) + struct.pack('<b', var)
    prove(e.type == 0xA1 and e.subType == t and e.variableID == var, 'parameters')
    listed(e, roundtrip(e, pre, post, body))


def build_arith(name):
    def build(E):
        return (getattr(S, name + 'SequenceEvent'), 0xB0 + ARITH.index(name), E.int('var', 0, 255),
                E.int('value', -32768, 32767)) + around(E)
    return build


def arith(cls, t, var, value, pre, post):
    e = cls(var, value)
    prove(e.type == t and e.variableID == var and e.value == value, 'parameters')
    listed(e, roundtrip(e, pre, post, struct.pack('<Bh', var, value)))


def build_simple(name, t, hi, fmt):
    def build(E):
        return (getattr(S, name + 'SequenceEvent'), t, E.int('value', 0, hi), fmt) + around(E)
    return build


def simple(cls, t, value, fmt, pre, post):
    e = cls(value)
    prove(e.type == t, 'type')
    if t == 0xD4:
        prove(e.loopCount == value, 'parameters')
    else:
        prove(e.value == value, 'parameters')
    listed(e, roundtrip(e, pre, post, struct.pack(fmt, value)))


def build_plain(name):
    def build(E):
        return (getattr(S, name + 'SequenceEvent'), PLAIN[name]) + around(E)
    return build


def plain(cls, t, pre, post):
    e = cls()
    prove(e.type == t, 'type')
    data = roundtrip(e, pre, post, b'')
    if t != 0xA2 and t != 0xFD:
        listed(e, data)


def build_tracks(E):
    return ([E.bool(f't{i}') for i in range(16)],) + around(E)


def tracks(flags, pre, post):
    numbers = set()
    value = 0
    for i in range(16):
        if flags[i]:
            numbers.add(i)
        value = value + (1 << i if flags[i] else 0)
    e = S.DefineTracksSequenceEvent(numbers)
    prove(e.type == 0xFE, 'type')
    same(e.trackNumbers, numbers, 'parameters')
    listed(e, roundtrip(e, pre, post, struct.pack('<H', value)))


def build_ref(E):
    return E.int('track', 0, 255), E.int('off', 0, 0xFFFFFF)


def references(track, off):
    target = S.EndTrackSequenceEvent()
    offsets = {target: off}
    three = bytes([off % 256, off // 256 % 256, off // 65536])
    e = S.JumpSequenceEvent(target)
    prove(e.type == 0x94 and e.destination is target and e.dataLength == 4, 'jump')
    same(e.save(offsets), b'\x94' + three, 'jump in file')
    e = S.CallSequenceEvent(target)
    prove(e.type == 0x95 and e.destination is target and e.dataLength == 4, 'call')
    same(e.save(offsets), b'\x95' + three, 'call in file')
    e = S.BeginTrackSequenceEvent(track, target)
    prove(e.type == 0x93 and e.firstEvent is target and e.trackNumber == track and e.dataLength == 5, 'track')
    same(e.save(offsets), b'\x93' + bytes([track]) + three, 'track in file')


def build_raw(E):
    return (E.bytes('data'),)


def raw(data):
    e = S.RawDataSequenceEvent(data)
    prove(e.dataLength == len(data) and e.type is None, 'raw data')
    same(e.save(), data, 'raw data in file')
    same(e.data, data, 'raw data')


def table(E):
    return ()


def event_types():
    """Which class decodes which type"""
    for name, t in list(SIMPLE.items()) + list(PLAIN.items()):
        prove(S._EVENT_TYPES[t].__name__ == name + 'SequenceEvent', 'class of a type')


LEMMAS = [
    Lemma('variable-length numbers', build_varint, varint, case=lambda m: ('Rest', (value(m),)),
          covers=['ndspy.soundSequence._writeVariableLengthInt', 'ndspy.soundSequence._readVariableLengthInt',
                  'ndspy.soundSequence._lengthOfVariableLengthInt']),
    Lemma('negative numbers', build_negative, negative),
    Lemma('Note', build_note, note, case=lambda m: ('Note', (m.int('pitch'), m.int('velocity') + 128 * m.bool('flag'), value(m)))),
    Lemma('Note out of range', build_badnote, badnote),
    Lemma('Rest', build_x, rest, case=lambda m: ('Rest', (value(m),))),
    Lemma('InstrumentSwitch', build_instrument, instrument,
          case=lambda m: ('InstrumentSwitch', (value(m) >> 7, value(m) & 127))),
    Lemma('DefineTracks', build_tracks, tracks,
          case=lambda m: ('DefineTracks', (sum(m.bool(f't{i}') << i for i in range(16)),))),
    Lemma('references', build_ref, references, case=lambda m: ('BeginTrack', (m.int('track'), m.int('off')))),
    Lemma('RawData', build_raw, raw, case=lambda m: ('RawData', (m.bytes('data') or b'x',))),
]
LEMMAS += [Lemma(f'FromVariable {lo:02X}..{hi:02X}', build_variable(lo, hi), variable,
                 case=lambda m: ('FromVariable', (m.int('sub'), m.int('var')) + (
                     (m.int('unk'),) if 0xB0 <= m.int('sub') <= 0xBD else ())))
           for lo, hi in ((0, 0xAF), (0xB0, 0xBD), (0xBE, 0xFF))]
LEMMAS += [Lemma(n, build_arith(n), arith, case=lambda m, n=n: (n, (m.int('var'), m.int('value')))) for n in ARITH]
LEMMAS += [Lemma(n, build_simple(n, t, hi, f), simple, case=lambda m, n=n: (n, (m.int('value'),)))
           for n, t, hi, f in [(n, t, 255, '<B') for n, t in SIMPLE.items()] + [
               ('MonoPoly', 0xC7, 1, '<B'), ('VibratoType', 0xCC, 2, '<B'), ('Tempo', 0xE1, 65535, '<H'),
               ('SweepPitch', 0xE3, 65535, '<H')]]
LEMMAS += [Lemma(n, build_plain(n), plain, case=lambda m, n=n: (n, ())) for n in PLAIN]
LEMMAS += [Lemma(f'Random {"note" if t is None else hex(t)}', build_random(t), random,
                 case=lambda m, t=t: ('Random', (m.int('sub') if t is None else t, [
                     m.int(f'a{i}') for i in range(RANDARGS[t or 0])], m.int('min'), m.int('max'))))
           for t in [None] + [t for t in RANDARGS if t >= 0x80]]
