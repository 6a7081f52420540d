from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..core import clip, violate
from ..drivers import expect_events, gen_cuts, read_everything
from ..model import canon_event, shape, swarm_cfg, tok_full
from ..plan import gen_plan
from ..symctx import gen_catalog
from ..textgen import Style, byte_offsets, render_text
from .base import READERS, Property


def text_case(ch, cfg=None, unicode_ok=True, catalogs=gen_catalog, **kw):
    """Returns (items, rendered, data, offsets, is_unicode, catalog)."""
    if cfg is None:
        cfg = swarm_cfg(ch, long=ch.chance(1, 60))
    is_unicode = unicode_ok and bool(ch.draw(2))
    catalog = catalogs(ch)
    items = gen_plan(ch, cfg, catalog, False, **kw)
    style = Style(ch)
    if is_unicode and ch.chance(1, 4):
        style.surrogates = True
    r = render_text(items, ch, style)
    if is_unicode:
        return items, r, r.data, None, True, catalog
    return items, r, r.data.encode('utf-8'), byte_offsets(r.data), False, catalog


class TextDelivery(Property):
    ID = 'C02'
    RUNS = {'quick': 30000, 'thorough': 500000}
    RULE = ('A random text stream (every value type, escapes, long strings, comments, newline styles, symbol tables) is rendered '
            'by an independent renderer and delivered as bytes or str to the real reader in seeded chunks; non-trivial: at '
            'least one value and one delivery boundary inside the stream. Distinct by (stream structure, delivery pattern).')
    STATE_MEASURE = 'distinct (stream structure, set of delivery boundaries) pairs'
    REAL = READERS
    STUBS = ('producer of the text (independent renderer)', 'transport which cuts the stream into deliveries')
    MUST_HIT = ('delivery-boundary', 'boundary-inside-value', 'flush-at-end', 'split-code-point', 'split-crlf')
    ASSUMPTIONS = ('The independent renderer and the model of symbol contexts implement Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        items, r, data, table, is_unicode, catalog = text_case(ch)
        managed = ch.draw(2)
        want = r.managed if managed else r.raw
        off = (lambda o: o) if table is None else (lambda o: table[o])
        interesting = set(off(o) for _, o in r.raw)
        for s, e, _ in r.item_at:
            interesting.add(off(s))
            interesting.add(off(e))
        if ch.draw(2):
            # Places where a token is in the middle of something: escapes, quotes, newlines, multi-byte characters.
            for i, c in enumerate(r.data):
                if c in '\\\'"\r\n:$/*_-+.{}' or ord(c) > 0x7f:
                    interesting.add(off(i) + 1)
        n = len(data)
        cuts = gen_cuts(ch, n, set(o for o in interesting if 0 < o < n))
        late = ch.draw(2)
        ctx.trace('text', data if is_unicode else data.hex(), 'cuts', cuts, 'managed', managed)
        reader = text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        got = []
        on_event = None
        if not late:
            def on_event(ev, fed):
                got.append(canon_event(ev, tok_full))
        h = read_everything(reader, data, cuts, ctx, on_event, flush_end=True)
        if late and h.error is None:
            got = h.canon(tok_full)
        for g in got:
            ctx.trace(g)
        where = ' [cuts %s of %s]' % (clip(cuts, 200), clip(repr(data), 500))
        if h.error is not None:
            violate('rejects-valid', 'the reader raised %s(%s) on valid text%s', type(h.error).__name__, h.error, where)
        expect_events(got, [e for e, _ in want], 'wrong-events', 'events depend on delivery', where)
        last = len(h.signals) - 1
        spans = [(off(s), off(e), item) for s, e, item in r.item_at]
        for i, (kind, fed, delivered) in enumerate(h.signals):
            avail = sum(1 for _, o in want if off(o) <= fed)
            if delivered < avail:
                violate('late-event', 'after %d units %d events were delivered, but %d are determined%s',
                        fed, delivered, avail, where)
            if any(s < fed < e for s, e, _ in spans):
                ctx.fault('boundary-inside-value')
                if kind == 'END':
                    violate('wrong-signal', 'the reader signals the end of the stream inside a value, after %d units%s',
                            fed, where)
            if i == last and kind != 'END':
                violate('wrong-signal', 'a complete stream ends with INCOMPLETE even after a flush%s', where)
        if not is_unicode:
            for c in cuts[:-1]:
                if data[c] & 0xc0 == 0x80:
                    ctx.fault('split-code-point')
        for c in cuts[:-1]:
            if data[c - 1:c + 1] in (b'\r\n', '\r\n'):
                ctx.fault('split-crlf')
            elif is_unicode and 0xd800 <= ord(data[c - 1]) <= 0xdbff:
                ctx.fault('split-surrogate-pair')
        if want and len(cuts) > 1:
            ctx.nontrivial = True
            ctx.state([shape(i.node) if i.node is not None else i.kind for i in items], cuts)
        ctx.sample = {'text': clip(r.data, 200), 'cuts': cuts[:20], 'managed': bool(managed), 'unicode': is_unicode,
                      'events': len(want)}


PROPERTIES = {'C02': TextDelivery()}
