import copy

from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from .. import env
from ..core import clip, violate
from ..drivers import REJECT, chunks_of, gen_cuts
from ..model import SCALARS, canon_event, canon_value, shape, swarm_cfg, tok_full
from ..plan import gen_plan, render_binary
from ..pyvals import tree_of_py, trees_of_events, user_events
from ..symctx import gen_catalog
from .base import READERS, SIMPLE, Property
from .text_delivery import text_case

ATTRS = ('value', 'field_name', 'annotations', 'all')


class Held(object):
    __slots__ = ('ev', 'want', 'age', 'looked', 'origin')

    def __init__(self, ev, want, origin):
        self.ev = ev
        self.want = want
        self.looked = 0
        self.origin = origin


class EventStability(Property):
    ID = 'C07'
    RUNS = {'quick': 30000, 'thorough': 600000}
    RULE = ('A consumer keeps the events of a reader and looks at their attributes at seeded moments, repeatedly, in any order, '
            'after later events, deliveries, symbol tables, skips, errors and the end of the reader, and under seeded decimal '
            'contexts. Non-trivial: an attribute was first used after the reader had gone on. Distinct by (kind of value, '
            'attribute, what happened in between).')
    STATE_MEASURE = 'distinct (interface, type, attribute, events in between, context changes, reader dead) tuples'
    REAL = READERS + SIMPLE
    STUBS = ('producer of the stream (independent encoder and renderer)', 'transport', 'consumer',
             'decimal environment of the thread')
    MUST_HIT = ('decimal-context-switch', 'looked-late', 'looked-again', 'reader-failed', 'reader-closed', 'derived-event',
                'skip', 'result-mutated', 'looked-after-symbol-table')
    ASSUMPTIONS = ('The independent encoder and renderer implement Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=False, big=False, marathon=False)
        if ch.draw(2):
            cfg['scalars'] = ch.pick([['decimal', 'timestamp'], ['decimal', 'timestamp', 'symbol', 'float', 'int'],
                                      ['symbol', 'decimal']])
        if ch.draw(2):
            items, r, data, table, is_unicode, catalog = text_case(ch, cfg, min_values=1)
            binary = False
        else:
            catalog = gen_catalog(ch, big=None)
            items = gen_plan(ch, cfg, catalog, True, min_values=1)
            r = render_binary(items, ch)
            data, binary, is_unicode = r.data, True, False
        ctx.trace('stream', data if is_unicode else data.hex())
        where = ' [%s]' % clip(repr(data), 500)
        if ch.chance(1, 6):
            self.load(ch, ctx, data, catalog, r, where)
            return
        managed = ch.draw(2)
        want = [e for e, _ in (r.managed if managed else r.raw)]
        cuts = gen_cuts(ch, len(data))
        reader = binary_reader() if binary else text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        self.where = where + ' cuts %s managed %d' % (clip(cuts, 100), managed)
        self.held = []
        self.n_switches = 0
        self.kind = (binary, managed)
        self.dead = None
        # A fault ends the reading at some point, or nothing does.
        fault_at = ch.range(0, len(want)) if ch.chance(1, 3) else None
        look_rate = ch.pick([0, 3, 6, 1])
        switch_rate = ch.pick([0, 2, 5])
        skip_rate = ch.pick([0, 0, 12])
        i = 0
        chunks = iter(list(chunks_of(data, cuts)))
        ends = {}
        stack = []
        for j, e in enumerate(want):
            if e[0] == 'S':
                stack.append(j)
            elif e[0] == 'E':
                ends[stack.pop()] = j
        open_containers = []
        try:
            request = NEXT_EVENT
            ev = reader.send(request)
            flushed = False
            while True:
                ctx.step()
                if switch_rate and ch.draw(switch_rate) == 1:
                    env.switch(ch, ctx)
                    self.n_switches += 1
                if look_rate and self.held and ch.draw(look_rate + 1) == 1:
                    self.look(ch, ctx, ch.pick(self.held), i)
                et = ev.event_type
                if et.is_stream_signal:
                    if fault_at is not None and i >= fault_at:
                        self.fail(ch, ctx, reader, ev, binary, is_unicode)
                        break
                    chunk = next(chunks, None)
                    if chunk is None:
                        if et is IonEventType.INCOMPLETE and not flushed and not binary:
                            flushed = True
                            ev = reader.send(NEXT_EVENT)
                            continue
                        break
                    ev = reader.send(read_data_event(chunk))
                    continue
                if i >= len(want):
                    violate('wrong-events', 'surplus event %s%s', clip(ev), self.where)
                w = want[i]
                if w[0] == 'S':
                    open_containers.append(i)
                elif w[0] == 'E':
                    open_containers.pop()
                if w[0] != 'IVM':
                    self.held.append(Held(ev, w, i))
                i += 1
                if skip_rate and open_containers and ch.draw(skip_rate) == 1:
                    ctx.fault('skip')
                    i = ends[open_containers[-1]]
                    ev = reader.send(SKIP_EVENT)
                else:
                    ev = reader.send(NEXT_EVENT)
        except REJECT as e:
            violate('rejects-valid', 'the reader raised %s on valid data%s', repr(e), self.where)
        if self.dead is None and i != len(want):
            violate('lost-events', '%d of %d events%s', i, len(want), self.where)
        if self.dead is None and ch.chance(1, 4):
            reader.close()
            self.dead = 'closed'
            ctx.fault('reader-closed')
        del reader
        order = list(self.held)
        for j in range(len(order) - 1, 0, -1):
            k = ch.draw(j + 1)
            order[j], order[k] = order[k], order[j]
        for h in order:
            if ch.chance(1, 5):
                env.switch(ch, ctx)
                self.n_switches += 1
            self.look(ch, ctx, h, i)
        env.restore()
        for h in self.held:
            self.compare(h.ev, h.want, 'all', h)
        ctx.sample = {'events': len(self.held), 'context_switches': self.n_switches, 'dead': self.dead,
                      'stream': clip(repr(data), 160)}
        self.held = None

    def fail(self, ch, ctx, reader, ev, binary, is_unicode):
        """The reader meets damaged data, or is abandoned."""
        k = ch.draw(3)
        if k == 0:
            reader.close()
            self.dead = 'closed'
            ctx.fault('reader-closed')
            return
        self.dead = 'failed'
        garbage = b'\xf5\xf5\xf5\xf5\xe0\x01' if binary else ')]}"\x00' if is_unicode else b')]}"\x00\xff'
        try:
            ev = reader.send(read_data_event(garbage))
            for _ in range(50):
                if ev.event_type.is_stream_signal:
                    ev = reader.send(read_data_event(garbage))
                else:
                    ev = reader.send(NEXT_EVENT)
        except (StopIteration,) + REJECT:
            pass
        ctx.fault('reader-failed')

    def look(self, ch, ctx, h, now):
        attr = ch.pick(ATTRS)
        if h.looked:
            ctx.fault('looked-again')
        if now > h.origin + 1:
            ctx.fault('looked-late')
            ctx.nontrivial = True
            if h.want[1] == 'symbol':
                ctx.fault('looked-after-symbol-table')
        h.looked += 1
        ctx.state(self.kind, h.want[:2], attr, min(now - h.origin, 12), min(self.n_switches, 4), self.dead, min(h.looked, 3))
        ctx.trace('look', h.origin, attr)
        ev = h.ev
        if ch.chance(1, 8):
            k = ch.draw(2)
            ctx.fault('derived-event')
            if k == 0:
                derived = ev.derive_depth(17)
                want = h.want[:5] + (17,)
            else:
                derived = ev.derive_depth(h.want[5]).derive_depth(3)
                want = h.want[:5] + (3,)
            self.compare(derived, want, 'all', h)
        self.compare(ev, h.want, attr, h)

    def compare(self, ev, want, attr, h):
        try:
            if attr == 'value':
                got = canon_value(ev.ion_type, ev.value, tok_full)
                expected = want[2]
            elif attr == 'field_name':
                got, expected = tok_full(ev.field_name), want[3]
            elif attr == 'annotations':
                got, expected = tuple([tok_full(a) for a in ev.annotations]), want[4]
            else:
                got, expected = canon_event(ev, tok_full), want
        except REJECT as e:
            violate('event-changed', 'looking at %s of event %d raised %r; it should be %s%s', attr, h.origin, e, clip(want),
                    self.where)
        if got != expected:
            violate('event-changed', '%s of event %d is %s, it should be %s%s', attr, h.origin, clip(got), clip(expected),
                    self.where)

    def load(self, ch, ctx, data, catalog, r, where):
        built = catalog.build()
        want = trees_of_events(user_events([e for e, _ in r.managed]))
        kept = []
        for i in range(ch.range(1, 3)):
            env.switch(ch, ctx)
            try:
                result = simpleion.loads(data, catalog=built, single_value=False)
            except REJECT as e:
                violate('rejects-valid', 'load raised %r%s', e, where)
            env.switch(ch, ctx)
            got = [tree_of_py(v) for v in result]
            if got != want:
                violate('wrong-values', 'load %d returned %s, but the data denotes %s%s', i, clip(got), clip(want), where)
            kept.append(result)
            # What the caller does with a result must not reach any other result.
            if ch.draw(2) and result:
                ctx.fault('result-mutated')
                self.mutate(ch, result)
                kept.pop()
        for result in kept:
            got = [tree_of_py(v) for v in result]
            if got != want:
                violate('value-changed', 'a loaded value became %s; it was %s%s', clip(got), clip(want), where)
        ctx.nontrivial = True
        ctx.sample = {'load': True, 'values': len(want)}

    def mutate(self, ch, values):
        for v in values:
            if isinstance(v, list):
                self.mutate(ch, v)
                v.append(7)
                v.ion_annotations = ('mutated',)
            elif hasattr(v, 'iteritems'):
                self.mutate(ch, [x for _, x in v.iteritems()])
                v['mutated'] = 1
            elif getattr(v, 'ion_annotations', None) is not None:
                v.ion_annotations = ('mutated',)


PROPERTIES = {'C07': EventStability()}
