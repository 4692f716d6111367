"""C13: sequence event lists with references."""
import z3

from vf.terms import *
from vf.interp import Bound
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome

from props.c13 import shapes

from ndspy import soundSequence as S

N = 'ndspy.soundSequence.'


# ------------------------------------------------------- every small list

def build_small(chunk):
    def build(E):
        return tuple(chunk), tuple(E.int(f'a{i}', 0, 255) for i in range(5)), tuple(E.int(f'b{i}', 0, 127) for i in range(5))
    return build


def make(shape, a, b):
    events = []
    for i in range(len(shape)):
        kind = shape[i][0]
        if kind == 'O':
            e = S.NoteSequenceEvent(b[i], 100, b[i]) if i % 2 else S.PanSequenceEvent(a[i])
        elif kind == 'J':
            e = S.JumpSequenceEvent(None)
        elif kind == 'C':
            e = S.CallSequenceEvent(None)
        elif kind == 'B':
            e = S.BeginTrackSequenceEvent(a[i], None)
        elif kind == 'R':
            e = S.ReturnSequenceEvent()
        elif kind == 'E':
            e = S.EndTrackSequenceEvent()
        else:
            e = S.IfSequenceEvent()
        events.append(e)
    for i in range(len(shape)):
        kind, t = shape[i]
        if kind == 'B':
            events[i].firstEvent = events[t]
        elif kind in 'JC':
            events[i].destination = events[t]
    return events


def check_list(events, shape, a, b):
    prove(len(events) == len(shape), 'number of events')
    for i in range(len(shape)):
        kind, t = shape[i]
        e = events[i]
        if kind == 'O':
            if i % 2:
                prove(type(e) is S.NoteSequenceEvent, 'kind')
                prove(e.pitch == b[i] and e.duration == b[i], 'note')
                prove(e.velocity == 100 and not e.unknownFlag, 'velocity')
            else:
                prove(type(e) is S.PanSequenceEvent and e.value == a[i], 'ordinary event')
        elif kind == 'J':
            prove(type(e) is S.JumpSequenceEvent and e.destination is events[t], 'jump')
        elif kind == 'C':
            prove(type(e) is S.CallSequenceEvent and e.destination is events[t], 'call')
        elif kind == 'B':
            prove(type(e) is S.BeginTrackSequenceEvent and e.firstEvent is events[t] and e.trackNumber == a[i], 'track')
        elif kind == 'R':
            prove(type(e) is S.ReturnSequenceEvent, 'return')
        elif kind == 'E':
            prove(type(e) is S.EndTrackSequenceEvent, 'end')
        else:
            prove(type(e) is S.IfSequenceEvent, 'if')


def small(chunk, a, b):
    for shape in chunk:
        events = make(shape, a, b)
        before = list(events)
        notable = [events[0], events[-1], events[0]]
        data, offsets = S.saveSequenceEvents(events, notable)
        check_list(events, shape, a, b)
        prove(len(events) == len(before), 'events after save')
        lengths = [e.dataLength for e in events]
        starts = [sum(lengths[:i]) for i in range(len(events))]
        prove(len(data) == sum(lengths), 'length')
        same(offsets, [starts[0], starts[-1], starts[0]], 'offsets')
        for i in range(len(shape)):
            kind, t = shape[i]
            at = starts[i]
            if kind == 'B':
                same(data[at : at + 5], bytes([0x93, a[i]]) + starts[t].to_bytes(3, 'little'), 'bytes of a track')
            elif kind in 'JC':
                same(data[at : at + 4], bytes([0x94 if kind == 'J' else 0x95]) + starts[t].to_bytes(3, 'little'), 'bytes of a reference')
            else:
                same(data[at : at + lengths[i]], events[i].save(), 'bytes of an event')
        got, none = S.readSequenceEvents(bytes(data))
        same(none, [], 'no notable events')
        check_list(got, shape, a, b)
        got, found = S.readSequenceEvents(bytes(data), [0, 0])
        check_list(got, shape, a, b)
        prove(len(found) == 2 and found[0] is got[0] and found[1] is got[0], 'notable events')
        again, offsets = S.saveSequenceEvents(got)
        same(again, data, 'saved again')


# ------------------------------------------------------- saving any list

def event_save(event, offsets):
    """What saving an event does: some bytes, perhaps the place of another event in three bytes, some bytes"""
    if event.refers:
        return event.code + offsets[event.target].to_bytes(3, 'little') + event.rest
    return event.code


def build_any(E):
    n = E.int('n', 0)
    code, rest = E.source('code', 1), E.source('rest', 1)
    target, refers = E.fun('target', 1, 0), E.fun('refers', 1, boolean=True)
    E.forall('target', lambda k: [target(k) < n.t])

    E.individuals = {'event'}

    def attribute(o, name):
        k = I(o.args[0])
        return {'code': lambda: SBytes(E.whole(code, o.args[0])), 'rest': lambda: SBytes(E.whole(rest, o.args[0])),
                'refers': lambda: SBool(refers(k)), 'index': lambda: o.args[0],
                'targetIndex': lambda: SInt(target(k)),
                'target': lambda: Opq('event', (SInt(target(k)),)),
                'dataLength': lambda: SInt(z3.If(refers(k), code.length(k) + rest.length(k) + 3, code.length(k))),
                'save': lambda: Bound(event_save, o)}[name]()
    E.attribute_hook = attribute
    m, pick = E.int('notable', 0), E.fun('pick', 1, 0)
    E.forall('pick', lambda k: [pick(k) < n.t])
    return E.list(n, lambda k: Opq('event', (SInt(k),))), E.list(m, lambda k: Opq('event', (SInt(pick(k)),)))


def any_list(events, notable):
    starts = []
    length = 0
    for e in events:
        starts.append(length)
        length += e.dataLength
    assume(length < 1 << 24)
    expected = bytearray()
    for e in events:
        if e.refers:
            expected.extend(e.code)
            expected.extend(starts[e.targetIndex].to_bytes(3, 'little'))
            expected.extend(e.rest)
        else:
            expected.extend(e.code)
    before = list(events)
    data, offsets = S.saveSequenceEvents(events, notable)
    prove(len(data) == length, 'length')
    same(data, expected, 'data')
    same(offsets, [starts[e.index] for e in notable], 'offsets of notable events')
    same(events, before, 'events after saving')
    data, offsets = S.saveSequenceEvents(events)
    same(data, expected, 'data without notable events')
    same(offsets, [], 'no offsets')


def chunks(k, n):
    all = list(shapes(k))
    out = []
    for i in range(0, len(all), n):
        out.append(Lemma(f'every list of {k} events, part {i // n + 1}', build_small(all[i:i + n]), small,
                         covers=[N + 'saveSequenceEvents', N + 'readSequenceEvents', N + 'readSequenceEvents.parse_at']))
    return out


LEMMAS = [
    Lemma('saving any number of events', build_any, any_list, covers=[N + 'saveSequenceEvents']),
] + chunks(1, 50) + chunks(2, 50) + chunks(3, 50)
THOROUGH = chunks(4, 50)
# saving is unbounded, reading is not
LEVEL = 'other'
BOUNDED = ['reading: every list of up to 3 events (4 in the thorough tier) in which control flow reaches every event, by kinds and '
           'references; the ordinary events in them are notes and pan events with any values. Saving: any number of events of any kind']
TRUSTED = ['saving any number of events: an event is saved as bytes that depend on it alone and at most one three-byte offset of another '
           'event, in as many bytes as its dataLength says (C12 proves this for each kind of event)']
ASSUMPTIONS = ['events are distinct objects and refer to events in the list, the data is shorter than 16 MiB',
               'domain of reading as in known_findings.txt: what follows an If is an ordinary event, a track or a jump nothing else refers to']
