from amazon.ion.symbols import shared_symbol_table
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .. import env
from ..binenc import IVM
from ..core import clip, violate
from ..drivers import first_difference
from ..judge import NotIon, user_of
from ..model import Unk, gen_node, shape, stream_events, swarm_cfg
from ..plan import substitute_tokens
from ..pyobjs import IVM_EVENT, STREAM_END, events_for_writer
from ..symctx import SYSTEM, CatalogModel, SymTab, gen_catalog, spread
from .base import WRITERS, Property

INDENTS = [None, '', ' ', '  ', '\t', '\r\n', '    ']


def gen_imports(ch, catalog):
    """(tables for the library, symbol context of the writer); shared by several checks."""
    tables = []
    entries = list(SYSTEM.entries)
    known = catalog.all()
    if known:
        for _ in range(ch.pick([0, 1, 1, 2, 3])):
            name, version, texts = ch.pick(known)
            tables.append((name, version, texts))
            entries.extend((t, (name, i + 1)) for i, t in enumerate(texts))
    return [shared_symbol_table(n, v, t) for n, v, t in tables], SymTab(entries)


def use_imported_symbols(ch, nodes, table):
    """Lets the values use what the imported tables define, also symbols without text."""
    toks = [table.resolve(sid) for sid in range(1, table.size() + 1)]
    toks = spread(toks)
    toks = toks + toks[9:] * 2 + [t for t in toks if isinstance(t, Unk)] * 3
    for n in nodes:
        substitute_tokens(n, ch, toks)
        if n.t == 'struct' and n.ann and n.ann[0] == '$ion_symbol_table':
            n.ann = ('name',) + n.ann
        if n.t == 'symbol' and n.v == '$ion_1_0' and not n.ann:
            n.v = 'name'
    return nodes


class Sink(object):
    def __init__(self):
        self.data = bytearray()

    def write(self, b):
        self.data += b
        return len(b)


class WriterUnderTest(object):
    """A writer driven request by request, directly or through blocking_writer."""

    def __init__(self, writer, blocking):
        self.data = bytearray()
        self.blocking = blocking
        if blocking:
            sink = Sink()
            self.data = sink.data
            self.writer = blocking_writer(writer, sink)
        else:
            self.writer = writer

    def send(self, event):
        """Returns the type with which the request ended."""
        if self.blocking:
            return self.writer.send(event)
        while True:
            result = self.writer.send(event)
            if result.data:
                self.data += result.data
            if result.type is not WriteEventType.HAS_PENDING:
                return result.type
            event = None


class WriterFlush(Property):
    ID = 'C09'
    RUNS = {'quick': 40000, 'thorough': 600000}
    RULE = ('A user writes random values as events, with flushes, stream ends and version markers at seeded points, in binary or '
            'text, with and without imported tables, directly or through the blocking writer, under changing decimal '
            'contexts. Whenever the writer reports completeness its whole output so far is decoded by an independent strict decoder and compared '
            'with everything written so far. Non-trivial: a flush happened with values before and after it. '
            'Distinct by (format, history of requests, value structure).')
    STATE_MEASURE = 'distinct (format, options, sequence of requests with value shapes) tuples'
    REAL = WRITERS
    STUBS = ('user of the writer', 'output', 'reader (independent decoder)', 'decimal environment of the thread')
    MUST_HIT = ('flush', 'repeated-flush', 'version-marker', 'imports', 'symbol-without-text', 'decimal-context-switch',
                'values-after-flush', 'symbol-by-id')
    ASSUMPTIONS = ('The independent decoder implements Ion 1.0 as documented.',)

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=ch.chance(1, 40))
        binary = not ch.draw(2)
        blocking = bool(ch.draw(2))
        catalog = CatalogModel()
        imports, known = None, SYSTEM
        if binary and ch.draw(2):
            catalog = gen_catalog(ch, (1, 2))
            imports, known = gen_imports(ch, catalog)
            if imports:
                ctx.fault('imports')
            elif ch.draw(2):
                imports = None
        if binary:
            w = WriterUnderTest(binary_writer(imports), blocking)
        else:
            indent = ch.pick(INDENTS)
            w = WriterUnderTest(text_writer(indent=indent), blocking)
        switch_rate = ch.pick([0, 0, 3, 8])
        written = []
        history = []
        in_segment = False      # binary: values written since the last stream end
        flushed_with_values = False
        judged = 0
        budget = ch.range(1, 7)
        if cfg['marathon']:
            ctx.fault('long-history')
            cfg.update(max_depth=1, max_kids=2)
            budget = ch.range(30, 120)
        ivm_out = False
        while budget:
            budget -= 1
            k = ch.draw(10)
            if switch_rate and ch.draw(switch_rate) == 1:
                env.switch(ch, ctx)
            if k < 6:
                nodes = [gen_node(ch, cfg, 0, True)]
                if ch.draw(3):
                    use_imported_symbols(ch, nodes, known)
                    ctx.fault('symbol-by-id')
                node = nodes[0]
                if known.size() > 9 and "'imp'" in repr(node):
                    ctx.fault('symbol-without-text')
                events = events_for_writer(node, ch, known)
                history.append(shape(node))
                if flushed_with_values:
                    ctx.fault('values-after-flush')
                    ctx.nontrivial = True
                for i, ev in enumerate(events):
                    ctx.step()
                    ctx.trace('write', repr(ev.event_type), clip(repr(ev.value), 200))
                    if switch_rate and ch.draw(switch_rate) == 1:
                        env.switch(ch, ctx)
                    last = i == len(events) - 1
                    if last:
                        written.append(node)
                        in_segment = True
                    result = w.send(ev)
                    if result is WriteEventType.COMPLETE:
                        if not last:
                            violate('complete-inside-value', 'completeness is reported after event %d of %r', i, node)
                        self.judge(ctx, w, binary, catalog, written)
                        judged += 1
                    elif binary:
                        self.held_back(ctx, w, binary, catalog, written, node)
                    elif last:
                        violate('not-complete', 'a text writer does not report completeness after a top-level value')
            elif k == 6 and not (binary and in_segment):
                ctx.fault('version-marker')
                history.append('ivm')
                ctx.trace('ivm')
                result = w.send(IVM_EVENT)
                if result is WriteEventType.COMPLETE:
                    self.judge(ctx, w, binary, catalog, written)
                    judged += 1
            else:
                history.append('flush')
                n = ch.pick([1, 1, 1, 2, 3])
                for i in range(n):
                    ctx.step()
                    ctx.fault('flush' if i == 0 else 'repeated-flush')
                    ctx.trace('flush')
                    result = w.send(STREAM_END)
                    if result is not WriteEventType.COMPLETE:
                        violate('not-complete', 'the stream end is answered with %r', result)
                    self.judge(ctx, w, binary, catalog, written)
                    judged += 1
                in_segment = False
                flushed_with_values = bool(written)
        if w.send(STREAM_END) is not WriteEventType.COMPLETE:
            violate('not-complete', 'the stream end is not complete')
        self.judge(ctx, w, binary, catalog, written)
        env.restore()
        ctx.state(binary, blocking, bool(imports), tuple(history))
        ctx.sample = {'binary': binary, 'history': clip(repr(history), 300), 'judged': judged, 'bytes': len(w.data)}

    def decode(self, w, binary, catalog, what):
        try:
            return user_of(w.data, binary, catalog)
        except NotIon as e:
            violate('invalid-output', '%s, but the output so far is not a complete stream: %s: %s', what, e,
                    clip(repr(bytes(w.data))))

    def judge(self, ctx, w, binary, catalog, written):
        got = self.decode(w, binary, catalog, 'the writer reports completeness')
        want = stream_events(written)
        d = first_difference(got, want)
        if d is not None:
            violate('wrong-output', 'event %d of the output is %s, written was %s; output %s', d[0], clip(d[1]), clip(d[2]),
                    clip(repr(bytes(w.data))))
        if binary and w.data and w.data[:4] != IVM:
            violate('wrong-output', 'the output does not start with a version marker')
        ctx.trace('complete', len(w.data))
        w.settled = len(w.data)

    def held_back(self, ctx, w, binary, catalog, written, node):
        """Binary values are not handed out before a flush: what is out is complete at any time."""
        extra = bytes(w.data[getattr(w, 'settled', 0):])
        if extra not in (b'', IVM):
            violate('not-held-back', 'a binary writer handed out %s before the segment was ended', clip(extra.hex()))


PROPERTIES = {'C09': WriterFlush()}
