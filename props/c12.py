"""C12: sequence event encoding."""
from vf.gen import ri, rb
from .base import eq, ensure

from ndspy import soundSequence as S

QUICK, THOROUGH = 8000, 80000

ARITH = ['VariableAssignment', 'VariableAddition', 'VariableSubtraction', 'VariableMultiplication', 'VariableDivision',
         'VariableShift', 'VariableRand', 'VariableUnknownB7', 'VariableEqual', 'VariableGreaterThanOrEqual',
         'VariableGreaterThan', 'VariableLessThanOrEqual', 'VariableLessThan', 'VariableNotEqual']
SIMPLE = {'Pan': 0xC0, 'TrackVolume': 0xC1, 'GlobalVolume': 0xC2, 'Transpose': 0xC3, 'Portamento': 0xC4, 'PortamentoRange': 0xC5,
          'TrackPriority': 0xC6, 'Tie': 0xC8, 'PortamentoFrom': 0xC9, 'VibratoDepth': 0xCA, 'VibratoSpeed': 0xCB,
          'VibratoRange': 0xCD, 'PortamentoOnOff': 0xCE, 'PortamentoDuration': 0xCF, 'AttackRate': 0xD0, 'DecayRate': 0xD1,
          'SustainRate': 0xD2, 'ReleaseRate': 0xD3, 'BeginLoop': 0xD4, 'Expression': 0xD5, 'PrintVariable': 0xD6, 'VibratoDelay': 0xE0}
PLAIN = {'If': 0xA2, 'EndLoop': 0xFC, 'Return': 0xFD, 'EndTrack': 0xFF}
VMAX = (1 << 35) - 1
# number of argument bytes that come before the random part
RANDARGS = {}
for _t in range(0x80):
    RANDARGS[_t] = 1
for _t in (0x80, 0x81):
    RANDARGS[_t] = 0
RANDARGS[0x93], RANDARGS[0x94], RANDARGS[0x95] = 3, 2, 2
RANDARGS[0xA0], RANDARGS[0xA1] = 5, 1
for _t in range(0xB0, 0xBE):
    RANDARGS[_t] = 2
for _t in list(range(0xC0, 0xD7)) + [0xE0]:
    RANDARGS[_t] = 0
for _t in (0xE1, 0xE3, 0xFE):
    RANDARGS[_t] = 1

# case: (class name without the suffix, args)


def varints():
    yield from range(0, 300)
    for k in range(1, 6):
        for d in (-2, -1, 0, 1, 2):
            v = (1 << 7 * k) + d
            if v <= VMAX:
                yield v
    for k in range(35):
        yield 1 << k
    yield VMAX


def boundary():
    for p in range(128):
        yield ('Note', (p, p ^ 0x55, p * 3))
        yield ('Note', (60, p | 0x80, 1))
    for v in varints():
        yield ('Note', (1, 100, v))
        yield ('Rest', (v,))
        yield ('InstrumentSwitch', (v >> 7, v & 127))
    for t, n in RANDARGS.items():
        yield ('Random', (t, [17 * i & 255 for i in range(1, n + 1)], -32768, 32767))
        yield ('Random', (t, [0xFF] * n, -1, 256))
    for t in range(256):
        if 0xB0 <= t <= 0xBD:
            yield ('FromVariable', (t, -128, 127))
            yield ('FromVariable', (t, 5, -3))
        else:
            yield ('FromVariable', (t, -128))
            yield ('FromVariable', (t, 127))
    for n in ARITH:
        for a, b in ((0, 0), (255, -32768), (1, 32767), (128, -1), (7, 258)):
            yield (n, (a, b))
    for n in SIMPLE:
        for v in range(256):
            yield (n, (v,))
    for v in (0, 1):
        yield ('MonoPoly', (v,))
    for v in (0, 1, 2):
        yield ('VibratoType', (v,))
    for n in ('Tempo', 'SweepPitch'):
        for v in (0, 1, 255, 256, 0x102, 0x7FFF, 0x8000, 0xFFFF):
            yield (n, (v,))
    for n in PLAIN:
        yield (n, ())
    for i in range(16):
        yield ('DefineTracks', (1 << i,))
    for v in (0, 0xFFFF, 0x5555, 0xA5A5, 0x8001):
        yield ('DefineTracks', (v,))
    for n in (1, 2, 5, 300):
        yield ('RawData', (b'r' * n,))
    for v in (0, 1, 255, 256, 0x10000, 0xFFFFFF, 0x123456):
        yield ('Jump', (v,))
        yield ('Call', (v,))
        yield ('BeginTrack', (v & 255, v))


def gen(rng):
    n = rng.choice(['Note', 'Rest', 'InstrumentSwitch', 'Random', 'FromVariable', 'arith', 'Tempo', 'SweepPitch', 'DefineTracks', 'Jump',
                    'Call', 'BeginTrack', 'RawData'])

    def v():
        return ri(rng, 0, VMAX) if rng.random() < 0.5 else rng.randrange(1 << rng.randrange(1, 36))
    if n == 'Note':
        return (n, (ri(rng, 0, 127), ri(rng, 0, 255), v()))
    if n == 'Rest':
        return (n, (v(),))
    if n == 'InstrumentSwitch':
        x = v()
        return (n, (x >> 7, x & 127))
    if n == 'Random':
        t = rng.choice(list(RANDARGS))
        return (n, (t, list(rb(rng, RANDARGS[t])), ri(rng, -32768, 32767), ri(rng, -32768, 32767)))
    if n == 'FromVariable':
        t = ri(rng, 0, 255)
        return (n, (t, ri(rng, -128, 127)) + ((ri(rng, -128, 127),) if 0xB0 <= t <= 0xBD else ()))
    if n == 'arith':
        return (rng.choice(ARITH), (ri(rng, 0, 255), ri(rng, -32768, 32767)))
    if n in ('Tempo', 'SweepPitch', 'DefineTracks'):
        return (n, (ri(rng, 0, 0xFFFF),))
    if n == 'RawData':
        return (n, (rb(rng, rng.randint(1, 40)),))
    x = ri(rng, 0, 0xFFFFFF)
    return (n, (x,)) if n != 'BeginTrack' else (n, (ri(rng, 0, 255), x))


def make(case, ref=None):
    n, a = case
    cls = getattr(S, n + 'SequenceEvent')
    if n == 'DefineTracks':
        return cls({i for i in range(16) if a[0] >> i & 1})
    if n in ('Jump', 'Call'):
        return cls(ref)
    if n == 'BeginTrack':
        return cls(a[0], ref)
    if n == 'Random':
        return cls(a[0], list(a[1]), *a[2:])
    return cls(*a)


def params(e):
    """Class and parameters, through the public attributes."""
    n = type(e).__name__[:-len('SequenceEvent')]
    if n == 'Note':
        return (n, e.type, e.pitch, e.velocity, bool(e.unknownFlag), e.duration)
    if n == 'Rest':
        return (n, e.type, e.duration)
    if n == 'InstrumentSwitch':
        return (n, e.type, e.bankID, e.instrumentID)
    if n == 'Random':
        return (n, e.type, e.subType, list(e.args), e.randMin, e.randMax)
    if n == 'FromVariable':
        return (n, e.type, e.subType, e.variableID, e.unknown)
    if n in ARITH:
        return (n, e.type, e.variableID, e.value)
    if n == 'BeginLoop':
        return (n, e.type, e.loopCount)
    if n == 'DefineTracks':
        return (n, e.type, set(e.trackNumbers))
    if n == 'RawData':
        return (n, bytes(e.data))
    if n == 'BeginTrack':
        return (n, e.type, e.trackNumber)
    if n in ('Jump', 'Call') or n in PLAIN:
        return (n, e.type)
    return (n, e.type, int(e.value))


def expected(case):
    """What params() of a fresh event must be, from the constructor arguments."""
    n, a = case
    if n == 'Note':
        return (n, a[0], a[0], a[1] & 127, bool(a[1] & 128), a[2])
    if n in ('Rest',):
        return (n, 0x80, a[0])
    if n == 'InstrumentSwitch':
        return (n, 0x81, *a)
    if n == 'Random':
        return (n, 0xA0, a[0], list(a[1]), a[2], a[3])
    if n == 'FromVariable':
        return (n, 0xA1, a[0], a[1], a[2] if len(a) > 2 else None)
    if n in ARITH:
        return (n, 0xB0 + ARITH.index(n), *a)
    if n == 'DefineTracks':
        return (n, 0xFE, {i for i in range(16) if a[0] >> i & 1})
    if n == 'RawData':
        return (n, a[0])
    if n == 'BeginTrack':
        return (n, 0x93, a[0])
    if n in ('Jump', 'Call'):
        return (n, {'Jump': 0x94, 'Call': 0x95}[n])
    if n in PLAIN:
        return (n, PLAIN[n])
    if n in SIMPLE:
        return (n, SIMPLE[n], a[0])
    return (n, {'MonoPoly': 0xC7, 'VibratoType': 0xCC, 'Tempo': 0xE1, 'SweepPitch': 0xE3}[n], a[0])


def varlen(v):
    return max(1, -(-v.bit_length() // 7))


def varbytes(v):
    n = varlen(v)
    return bytes((v >> 7 * (n - 1 - i) & 0x7F) | (0x80 if i < n - 1 else 0) for i in range(n))


def check(case):
    n, a = case
    ref = S.EndTrackSequenceEvent()
    e = make(case, ref)
    want = expected(case)
    eq('parameters', params(e), want)
    if n in ('Jump', 'Call', 'BeginTrack'):
        data = bytes(e.save({ref: a[-1]}))
        eq('encoding', data, bytes([e.type]) + (bytes([a[0]]) if n == 'BeginTrack' else b'') + a[-1].to_bytes(3, 'little'))
    else:
        data = bytes(e.save())
    eq('length of encoding', len(data), e.dataLength)
    eq('parameters after save', params(e), want)
    if n == 'RawData':
        eq('raw data', data, a[0])
        return
    eq('first byte', data[0], want[1])
    if n == 'Note':
        eq('variable-length number', data[2:], varbytes(a[2]))
    elif n == 'Rest':
        eq('variable-length number', data[1:], varbytes(a[0]))
    elif n == 'InstrumentSwitch':
        eq('variable-length number', data[1:], varbytes(a[0] << 7 | a[1]))
    if n in ('Jump', 'Call', 'BeginTrack'):
        return
    if hasattr(type(e), 'fromData'):
        for pre, post in ((b'', b''), (b'\x93\xff', b'\x80\xff\x81'), (b'\0' * 7, b'\0')):
            g = type(e).fromData(data[0], pre + data + post, len(pre))
            eq('decoded event', params(g), want)
            eq('decoded length', g.dataLength, len(data))
    if n in ('Return', 'If'):
        return
    tail = b'' if n == 'EndTrack' else b'\xFF'
    evs, _ = S.readSequenceEvents(data + tail, [])
    eq('events read', [params(x) for x in evs], [want] + ([('EndTrack', 0xFF)] if tail else []))
