"""Drivers which play the environment of readers and writers: they decide deliveries, requests and faults."""
from amazon.ion.core import IonEventType
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, read_data_event

from .core import violate, clip
from .model import canon_event, tok_full, tok_text

# What the library documents as rejections: IonException for bad data, ValueError and TypeError for values which cannot
# be represented.
REJECT = (IonException, ValueError, TypeError, OverflowError, ArithmeticError)


def gen_cuts(ch, n, interesting=()):
    """Sorted offsets (exclusive of 0, inclusive of n) at which deliveries end."""
    if n == 0:
        return []
    mode = ch.draw(6)
    cuts = set()
    if mode == 0:
        pass
    elif mode == 1:
        if n <= 3000:
            cuts.update(range(1, n))
        else:
            cuts.update(range(1, n, 7))
    elif mode == 2:
        for _ in range(ch.range(1, 3)):
            cuts.add(ch.range(1, n))
    elif mode == 3:
        pts = sorted(interesting)
        if pts:
            for _ in range(ch.range(1, 6)):
                cuts.add(ch.pick(pts) + ch.pick([0, 1, -1]))
        else:
            cuts.add(ch.range(1, n))
    elif mode == 4:
        pos = 0
        cap = ch.pick([2, 3, 5, 16, 64])
        while pos < n and len(cuts) < 600:
            pos += ch.range(1, cap)
            cuts.add(pos)
    else:
        cuts.add(ch.range(1, n))
    return sorted(c for c in cuts if 0 < c < n) + [n]


def chunks_of(data, cuts):
    pos = 0
    for c in cuts:
        yield data[pos:c]
        pos = c


class Reading(object):
    """The history of one reader: (event, amount of data delivered when it was produced)."""

    def __init__(self):
        self.events = []        # (raw event object, fed)
        self.signals = []       # (kind, fed, number of events so far)
        self.error = None

    def canon(self, tok):
        return [canon_event(e, tok) for e, _ in self.events]


def read_everything(reader, data, cuts, ctx=None, on_event=None, flush_end=False):
    """Delivers ``data`` cut at ``cuts`` and requests NEXT whenever the reader does not need data.

    With ``flush_end`` the reader is told that no more data will come when it is INCOMPLETE after the last delivery.
    """
    h = Reading()
    fed = 0
    flushed = False
    chunks = iter(list(chunks_of(data, cuts)))
    try:
        ev = reader.send(NEXT_EVENT)
        while True:
            if ctx is not None:
                ctx.step()
            et = ev.event_type
            if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                h.signals.append(('END' if et is IonEventType.STREAM_END else 'INC', fed, len(h.events)))
                chunk = next(chunks, None)
                if chunk is None:
                    if flush_end and not flushed and et is IonEventType.INCOMPLETE:
                        flushed = True
                        if ctx is not None:
                            ctx.fault('flush-at-end')
                        ev = reader.send(NEXT_EVENT)
                        continue
                    return h
                fed += len(chunk)
                if ctx is not None:
                    ctx.fault('delivery-boundary')
                ev = reader.send(read_data_event(chunk))
            else:
                h.events.append((ev, fed))
                if on_event is not None:
                    on_event(ev, fed)
                ev = reader.send(NEXT_EVENT)
    except REJECT as e:
        h.error = e
        return h


def first_difference(got, want):
    n = min(len(got), len(want))
    for i in range(n):
        if got[i] != want[i]:
            return i, got[i], want[i]
    if len(got) != len(want):
        return n, got[n] if len(got) > n else '(nothing)', want[n] if len(want) > n else '(nothing)'
    return None


def expect_events(got, want, kind, what, detail=''):
    d = first_difference(got, want)
    if d is not None:
        violate(kind, '%s: event %d is %s, expected %s %s', what, d[0], clip(d[1]), clip(d[2]), detail)


class Iteration(object):
    """What a consumer which iterates over a source saw: canonical events, then the end or an error."""

    def __init__(self):
        self.events = []
        self.raw_events = []
        self.end = False
        self.error = None


def iterate_source(reader, ctx, tok, limit=200000, late=False, errors=REJECT):
    """Sends NEXT to a blocking reader until the end of the stream or an error."""
    it = Iteration()
    try:
        while True:
            ctx.step()
            ev = reader.send(NEXT_EVENT)
            if ev.event_type is IonEventType.STREAM_END:
                it.end = True
                break
            if ev.event_type is IonEventType.INCOMPLETE:
                violate('wrong-signal', 'a blocking reader delivered INCOMPLETE')
            it.raw_events.append(ev)
            if not late:
                it.events.append(canon_event(ev, tok))
            if len(it.raw_events) > limit:
                violate('no-progress', 'more than %d events', limit)
    except errors as e:
        it.error = e
    if late:
        it.events = [canon_event(ev, tok) for ev in it.raw_events]
    return it
