from io import BytesIO, StringIO

from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.reader import NEXT_EVENT, blocking_reader
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..core import clip, violate
from ..drivers import REJECT, gen_cuts, iterate_source, read_everything
from ..files import SimSource, SimTextSource
from ..model import canon_event, shape, swarm_cfg, tok_full
from ..plan import gen_plan, render_binary
from ..pyvals import tree_of_py, trees_of_events, user_events
from ..symctx import ManagedModel, ModelError, gen_catalog
from ..textparse import parse
from .base import READERS, SIMPLE, Property
from .text_delivery import text_case


class Expectation(object):
    """What a prefix of a stream denotes. complete: True, False, or None where both answers are acceptable."""
    __slots__ = ('raw', 'managed', 'complete', 'undefined')


def expect_binary(r, k):
    x = Expectation()
    x.raw = [e for e, o in r.raw if o <= k]
    x.managed = [e for e, o in r.managed if o <= k]
    x.complete = k in r.bounds
    x.undefined = False
    return x


def expect_text(text, catalog, split=None):
    """``split``: the character which the cut goes through, if any."""
    x = Expectation()
    x.raw, x.complete = parse(text)
    x.undefined = False
    if split is not None:
        # Part of a character follows: harmless in a comment (the reader looks at bytes there), else incomplete.
        x.complete = None if parse(text + split)[1] else False
    x.managed = []
    model = ManagedModel(catalog)
    try:
        for e in x.raw:
            x.managed.extend(model.feed(e))
    except ModelError:
        x.undefined = True
        if x.complete:
            x.complete = False
    return x


class Truncation(Property):
    ID = 'C04'
    RUNS = {'quick': 16000, 'thorough': 400000}
    RULE = ('A random binary or text stream is cut at seeded offsets (crash of the producer, loss of the connection, full disk) '
            'and read through events, through blocking_reader and through load/loads. Non-trivial: the cut lies strictly '
            'inside the stream. Distinct by (stream structure, offset, interface).')
    STATE_MEASURE = 'distinct (stream structure, offset of the cut, reading interface) triples'
    REAL = READERS + SIMPLE
    STUBS = ('producer of the stream (independent encoder and renderer)', 'file-like source', 'transport')
    MUST_HIT = ('cut-inside-value', 'cut-between-values', 'cut-inside-code-point', 'short-read', 'load-raises', 'load-complete')
    ASSUMPTIONS = ('The independent encoder, renderer and parser implement Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        if ch.draw(2):
            items, r, data, table, is_unicode, catalog = text_case(ch)
            binary = False
            text = r.data
            points = set()
            for s, e, _ in r.item_at:
                points.update((s, e))
            points.update(o for _, o in r.raw if o <= len(text))
            if table is not None:
                points = set(table[p] for p in points)
        else:
            cfg = swarm_cfg(ch, long=ch.chance(1, 60))
            catalog = gen_catalog(ch)
            items = gen_plan(ch, cfg, catalog, True)
            r = render_binary(items, ch)
            data = r.data
            binary, is_unicode, table = True, False, None
            points = set(o for _, o in r.raw) | r.bounds
        points = sorted(points)
        sig = [shape(i.node) if i.node is not None else i.kind for i in items]
        ctx.trace('stream', data if is_unicode else data.hex())
        n = len(data)
        for _ in range(ch.range(1, 5)):
            mode = ch.draw(5)
            if mode == 4:
                inside = [table[i] + 1 for i, c in enumerate(text) if ord(c) > 0x7f] if table is not None else ()
                k = ch.pick(inside) if inside else ch.draw(n + 1)
            elif mode == 0 or not points:
                k = ch.draw(n + 1)
            elif mode == 1:
                k = ch.pick(points)
            elif mode == 2:
                k = ch.pick(points) + ch.pick([1, -1, 2, -2, 3])
            else:
                k = n - ch.draw(min(n, 12) + 1)
            k = max(0, min(n, k))
            if is_unicode and 0 < k < n and '\ud800' <= data[k - 1] <= '\udbff':
                k += 1
            prefix = data[:k]
            if binary:
                x = expect_binary(r, k)
            else:
                split = None
                chars = k
                if table is not None:
                    # the number of whole characters in the prefix
                    lo, hi = 0, len(text)
                    while lo < hi:
                        mid = (lo + hi + 1) // 2
                        if table[mid] <= k:
                            lo = mid
                        else:
                            hi = mid - 1
                    chars = lo
                    if table[chars] != k:
                        split = text[chars]
                        ctx.fault('cut-inside-code-point')
                x = expect_text(text[:chars], catalog, split)
            if k < n:
                ctx.nontrivial = True
            ctx.fault('cut-inside-value' if not x.complete else 'cut-between-values')
            how = ch.draw(4)
            ctx.state(sig, k, how)
            ctx.trace('cut', k, 'how', how)
            where = ' [first %d units of %s]' % (k, clip(repr(data), 500))
            if how == 0:
                self.events(ch, ctx, prefix, x, binary, is_unicode, catalog, where)
            elif how == 1:
                self.iterate(ch, ctx, prefix, x, binary, is_unicode, catalog, where)
            else:
                self.load(ch, ctx, prefix, x, binary, is_unicode, catalog, where)
        ctx.sample = {'binary': binary, 'stream': clip(repr(data), 160), 'last_cut': k, 'complete': x.complete}

    @staticmethod
    def check(got, x, managed, where):
        want = x.managed if managed else x.raw
        if got != want[:len(got)]:
            violate('wrong-events', 'the truncated stream denotes %s, but the reader delivered %s%s', clip(want, 1500),
                    clip(got, 1500), where)

    def finish(self, got, ended, error, x, managed, where):
        want = x.managed if managed else x.raw
        self.check(got, x, managed, where)
        complete = x.complete
        if x.undefined and not managed:
            complete = None
        if ended and complete is False:
            violate('truncation-unnoticed', 'a stream that is cut short ends like a complete one%s', where)
        if error is not None and complete:
            violate('rejects-valid', 'a complete stream is rejected with %r%s', error, where)
        if ended and len(got) != len(want):
            violate('lost-events', 'the reader delivered %d of %d events%s', len(got), len(want), where)

    def events(self, ch, ctx, prefix, x, binary, is_unicode, catalog, where):
        managed = ch.draw(2)
        reader = binary_reader() if binary else text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        got = []
        h = read_everything(reader, prefix, gen_cuts(ch, len(prefix)), ctx,
                            lambda ev, fed: got.append(canon_event(ev, tok_full)), flush_end=not binary)
        want = x.managed if managed else x.raw
        ended = h.error is None and h.signals[-1][0] == 'END'
        ctx.trace('events', len(got), 'ended', ended, 'error', type(h.error).__name__)
        self.finish(got, ended, h.error if not (x.undefined and managed) else None, x, managed, where)
        if binary:
            # Everything that is complete was delivered.
            if h.error is not None:
                violate('rejects-valid', 'the reader raised %r on a truncated stream%s', h.error, where)
            if len(got) != len(want):
                violate('lost-events', 'the reader delivered %d of %d complete events%s', len(got), len(want), where)
        elif x.complete and not ended:
            violate('wrong-signal', 'a complete stream does not end%s', where)
        elif h.error is None and not ended and x.complete is False:
            violate('wrong-signal', 'flushing an incomplete stream raised no error%s', where)

    def source(self, ch, ctx, prefix, is_unicode):
        mode = ch.draw(4)
        cls = SimTextSource if is_unicode else SimSource
        return cls(ch, ctx, prefix, mode)

    def iterate(self, ch, ctx, prefix, x, binary, is_unicode, catalog, where):
        managed = ch.draw(2)
        reader = binary_reader() if binary else text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        size = ch.pick([8192, 1, 2, 3, 7, 64])
        it = iterate_source(blocking_reader(reader, self.source(ch, ctx, prefix, is_unicode), size), ctx, tok_full,
                            late=bool(ch.draw(2)))
        ctx.trace('iterated', len(it.events), it.end, type(it.error).__name__)
        self.finish(it.events, it.end, it.error, x, managed, where)
        want = x.managed if managed else x.raw
        if binary and len(it.events) != len(want):
            violate('lost-events', 'iterating delivered %d of %d complete events%s', len(it.events), len(want), where)

    def load(self, ch, ctx, prefix, x, binary, is_unicode, catalog, where):
        if binary and 0 < len(prefix) < 4:
            x.complete = False
        built = catalog.build()
        how = ch.draw(3)
        single = ch.chance(1, 5)
        want = None
        if x.complete is not False:
            want = trees_of_events(user_events(x.managed))
        try:
            if how == 0:
                result = simpleion.loads(prefix, catalog=built, single_value=single)
            elif how == 1:
                fp = StringIO(prefix, newline='') if is_unicode else BytesIO(prefix)
                result = simpleion.load(fp, catalog=built, single_value=single)
            else:
                result = simpleion.load(self.source(ch, ctx, prefix, is_unicode), catalog=built, single_value=single)
            got = [tree_of_py(v) for v in ([result] if single else result)]
        except REJECT as e:
            ctx.fault('load-raises')
            ctx.trace('load raises', type(e).__name__)
            if x.complete and not (single and len(want) != 1):
                violate('rejects-valid', 'load rejects a complete stream with %r%s', e, where)
            return
        ctx.fault('load-complete')
        ctx.trace('loaded', got)
        if x.complete is False:
            violate('truncation-unnoticed', 'load returned %s for a stream that is cut short%s', clip(got), where)
        if got != want:
            violate('wrong-values', 'load returned %s, but the data denotes %s%s', clip(got, 1500), clip(want, 1500), where)


PROPERTIES = {'C04': Truncation()}
