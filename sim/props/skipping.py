from amazon.ion.core import IonEventType
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..core import clip, violate
from ..drivers import REJECT, chunks_of, gen_cuts
from ..files import SimSource, SimTextSource
from ..model import canon_event, shape, swarm_cfg, tok_full
from ..plan import gen_plan, render_binary
from ..symctx import gen_catalog
from .base import READERS, Property
from .text_delivery import text_case


def skip_plan(ch, events):
    """Decides after which events the consumer skips. Returns [(index of the event delivered, 'NEXT' or 'SKIP')]."""
    ends = {}
    stack = []
    for i, e in enumerate(events):
        if e[0] == 'S':
            stack.append(i)
        elif e[0] == 'E':
            ends[stack.pop()] = i
    plan = []
    i = 0
    rate = ch.pick([2, 1, 3, 6])
    how = 'NEXT'
    open_containers = []
    while i < len(events):
        plan.append((i, how))
        e = events[i]
        if e[0] == 'S':
            open_containers.append(i)
        elif e[0] == 'E':
            open_containers.pop()
        if open_containers and ch.chance(1, rate):
            how = 'SKIP'
            i = ends[open_containers[-1]]
        else:
            how = 'NEXT'
            i += 1
    return plan


class Skipping(Property):
    ID = 'C05'
    RUNS = {'quick': 20000, 'thorough': 600000}
    RULE = ('A random binary or text stream is delivered in seeded chunks to a consumer which skips from seeded positions, at '
            'any depth, raw or managed, directly or through blocking_reader. Non-trivial: at least one skip. Distinct by '
            '(stream structure, positions of the skips, deliveries).')
    STATE_MEASURE = 'distinct (stream structure, skip positions, delivery boundaries) triples'
    REAL = READERS
    STUBS = ('producer of the stream (independent encoder and renderer)', 'transport', 'consumer')
    MUST_HIT = ('skip', 'skip-nested', 'skip-across-deliveries', 'skip-mid-container', 'consecutive-skips', 'short-read')
    ASSUMPTIONS = ('The independent encoder and renderer implement Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=ch.chance(1, 60))
        cfg['containers'] = ch.pick([4, 2, 8])
        cfg['max_depth'] = ch.pick([3, 2, 5])
        if ch.draw(2):
            items, r, data, table, is_unicode, catalog = text_case(ch, cfg, min_values=1)
            binary = False
            off = (lambda o: o) if table is None else (lambda o: table[o])
        else:
            catalog = gen_catalog(ch)
            items = gen_plan(ch, cfg, catalog, True, min_values=1)
            r = render_binary(items, ch)
            data, binary, is_unicode = r.data, True, False
            off = lambda o: o
        managed = ch.draw(2)
        want_all = r.managed if managed else r.raw
        plan = skip_plan(ch, [e for e, _ in want_all])
        reader = binary_reader() if binary else text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        n_skips = 0
        for a, b in zip(plan, plan[1:]):
            if b[1] == 'SKIP':
                n_skips += 1
                ctx.fault('skip')
                if want_all[b[0]][0][5] > 0:
                    ctx.fault('skip-nested')
                if want_all[a[0]][0][0] != 'S':
                    ctx.fault('skip-mid-container')
                if a[1] == 'SKIP':
                    ctx.fault('consecutive-skips')
        ctx.trace('stream', data if is_unicode else data.hex(), 'plan', plan, 'managed', managed)
        where = ' [requests %s on %s]' % (clip([(want_all[i][0][:2], h) for i, h in plan], 400), clip(repr(data), 500))
        if ch.chance(1, 3):
            source = (SimTextSource if is_unicode else SimSource)(ch, ctx, data, ch.draw(4))
            size = ch.pick([8192, 1, 3, 17])
            self.blocking(ctx, blocking_reader(reader, source, size), plan, want_all, where)
            cuts = ()
        else:
            n = len(data)
            cuts = gen_cuts(ch, n, set(o for o in (off(o) for _, o in r.raw) if 0 < o < n))
            self.delivered(ctx, reader, data, cuts, plan, want_all, off, where)
        if n_skips:
            ctx.nontrivial = True
            ctx.state([shape(i.node) if i.node is not None else i.kind for i in items],
                      [i for i, h in plan if h == 'SKIP'], cuts)
        ctx.sample = {'binary': binary, 'managed': bool(managed), 'skips': n_skips, 'stream': clip(repr(data), 160),
                      'cuts': list(cuts)[:10]}

    def delivered(self, ctx, reader, data, cuts, plan, want_all, off, where):
        chunks = iter(list(chunks_of(data, cuts)))
        fed = 0
        flushed = False
        ev = None
        held = []
        for i, how in plan + [(None, 'NEXT')]:
            if ev is None or not ev.event_type.is_stream_signal:
                request = SKIP_EVENT if how == 'SKIP' else NEXT_EVENT
            else:
                request = None
            want, at = want_all[i] if i is not None else (None, None)
            try:
                if request is not None:
                    ev = reader.send(request)
                while ev.event_type.is_stream_signal:
                    ctx.step()
                    if i is not None and off(at) <= fed:
                        violate('late-event', '%s gave %s although %s is complete after %d of %d units%s', how,
                                ev.event_type.name, want, off(at), fed, where)
                    chunk = next(chunks, None)
                    if chunk is None:
                        if ev.event_type is IonEventType.INCOMPLETE and not flushed:
                            flushed = True
                            ev = reader.send(NEXT_EVENT)
                            continue
                        break
                    if how == 'SKIP':
                        ctx.fault('skip-across-deliveries')
                    fed += len(chunk)
                    ev = reader.send(read_data_event(chunk))
            except REJECT as e:
                violate('rejects-valid', '%s at event %r raised %r%s', how, i, e, where)
            self.one(ctx, ev, want, how, where)
            if want is not None:
                held.append((ev, want))
        for e, want in held:
            if canon_event(e, tok_full) != want:
                violate('event-changed', 'an event delivered earlier became %s%s', clip(canon_event(e, tok_full)), where)

    @staticmethod
    def one(ctx, ev, want, how, where):
        if want is None:
            if ev.event_type is not IonEventType.STREAM_END:
                violate('wrong-events', 'the stream should end, but %s was delivered%s', clip(ev), where)
            return
        got = canon_event(ev, tok_full)
        ctx.trace(how, got)
        if got != want:
            violate('wrong-events', 'after %s the reader delivered %s, expected %s%s', how, clip(got), clip(want), where)

    def blocking(self, ctx, reader, plan, want_all, where):
        for i, how in plan + [(None, 'NEXT')]:
            ctx.step()
            try:
                ev = reader.send(SKIP_EVENT if how == 'SKIP' else NEXT_EVENT)
            except REJECT as e:
                violate('rejects-valid', '%s at event %r raised %r%s', how, i, e, where)
            self.one(ctx, ev, want_all[i][0] if i is not None else None, how, where)


PROPERTIES = {'C05': Skipping()}
