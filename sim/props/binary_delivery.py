from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader

from ..core import clip, violate
from ..drivers import expect_events, gen_cuts, read_everything
from ..model import canon_event, swarm_cfg, tok_full, shape
from ..plan import gen_plan, render_binary
from ..symctx import gen_catalog
from .base import READERS, Property


class BinaryDelivery(Property):
    ID = 'C01'
    RUNS = {'quick': 40000, 'thorough': 1500000}
    RULE = ('A random stream (version markers, symbol tables, NOP padding, every value type, optional encodings) is encoded by an '
            'independent encoder and delivered to the real reader in seeded chunks; non-trivial: at least one value and '
            'at least one delivery boundary strictly inside the stream. Distinct by (structure of the stream, delivery pattern).')
    STATE_MEASURE = 'distinct (stream structure, set of delivery boundaries relative to values) pairs'
    REAL = READERS
    STUBS = ('producer of the bytes (independent encoder)', 'transport which cuts the stream into deliveries')
    MUST_HIT = ('delivery-boundary', 'boundary-inside-value')
    ASSUMPTIONS = ('The independent encoder and the model of symbol contexts implement Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=ch.chance(1, 30))
        managed = ch.draw(2)
        catalog = gen_catalog(ch)
        items = gen_plan(ch, cfg, catalog, True)
        r = render_binary(items, ch)
        want = r.managed if managed else r.raw
        offs = set(o for _, o in r.raw)
        cuts = gen_cuts(ch, len(r.data), offs)
        late = ch.draw(2)
        ctx.trace('stream', r.data.hex(), 'cuts', cuts, 'managed', managed)
        reader = binary_reader()
        if managed:
            reader = managed_reader(reader, catalog.build())
        got = []
        on_event = None
        if not late:
            def on_event(ev, fed):
                got.append(canon_event(ev, tok_full))
        h = read_everything(reader, r.data, cuts, ctx, on_event)
        if late and h.error is None:
            got = h.canon(tok_full)
        for g in got:
            ctx.trace(g)
        where = ' [cuts %s of %s]' % (clip(cuts, 200), clip(r.data.hex(), 400))
        if h.error is not None:
            violate('rejects-valid', 'the reader raised %s(%s) on valid data%s', type(h.error).__name__, h.error, where)
        expect_events(got, [e for e, _ in want], 'wrong-events', 'events depend on delivery', where)
        # Promptness and stream end, at every delivery boundary.
        for kind, fed, n in h.signals:
            avail = sum(1 for _, o in want if o <= fed)
            if n != avail:
                violate('late-event', 'after %d bytes %d events were delivered, but %d are complete%s', fed, n, avail, where)
            end = fed in r.bounds
            if (kind == 'END') != end:
                violate('wrong-signal', 'after %d bytes the reader signals %s%s', fed, kind, where)
            if not end:
                ctx.fault('boundary-inside-value')
        if want and len(cuts) > 1:
            ctx.nontrivial = True
            ctx.state([shape(i.node) if i.node is not None else i.kind for i in items], cuts)
        ctx.sample = {'stream_hex': clip(r.data.hex(), 200), 'cuts': cuts[:20], 'managed': bool(managed),
                      'events': len(want)}


PROPERTIES = {'C01': BinaryDelivery()}
