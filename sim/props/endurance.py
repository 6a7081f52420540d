import gc
import io
import random
import sys
import time

from amazon.ion import simpleion
from amazon.ion.core import IonEvent, IonEventType, IonType, Multimap, Timestamp, timestamp
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.symbols import SymbolTableCatalog, SymbolToken, local_symbol_table, shared_symbol_table
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from ..binenc import encode_value, header, var_uint
from ..core import Chooser, Violation, violate
from ..drivers import chunks_of, gen_cuts
from ..files import SimSource
from ..heap import library_roots, weigh
from ..interrupt import CAUGHT, KINDS, Interrupter
from ..model import N, gen_node, gen_timestamp, swarm_cfg
from ..outputs import SimOutput
from ..plan import Item, gen_plan, is_system_value, render_binary
from ..pyobjs import END, ION_TYPES, IVM_EVENT, STREAM_END, events_for_writer, grouped, py_obj
from ..symctx import SYSTEM, gen_catalog, apply_lst, gen_import, tokens_of
from ..textgen import render_text
from ..threads import is_lib
from .base import READERS, SIMPLE, WRITERS, Property
from .isolation import damage, has_unk
from .writer_flush import INDENTS, gen_imports

MARK = 271828182845
MARK_TEXT = '271828182845'


class Lines(object):
    """Counts the lines of library code which a piece of work executes."""

    def __init__(self):
        self.lines = 0

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        return self._line if is_lib(frame.f_code.co_filename) else None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
        return self._line


class Profile(object):
    """What is drawn once for a run; the parts of the history follow from it."""

    def __init__(self, ch):
        self.seed = ch.bits(24)
        self.cfg = swarm_cfg(ch, big=False, marathon=False, zero=True)
        self.cfg['max_depth'] = min(self.cfg['max_depth'], 3)
        self.cfg['max_kids'] = min(self.cfg['max_kids'], 3)
        self.look = ch.pick([1, 0, 2])          # never, always, sometimes
        self.skips = ch.pick([0, 6, 2])
        self.deliveries = ch.pick(['cuts', 'whole', 'units'])

    def chooser(self, *what):
        return Chooser(random.Random('%d-%s' % (self.seed, '-'.join(map(str, what)))))

    def cfg_for(self, part):
        cfg = dict(self.cfg)
        cfg['symbols'] = ['a'] + ['k%07d' % (part * 10 + i) for i in range(6)]
        return cfg

    def cuts(self, c, data):
        if not data or self.deliveries == 'whole':
            return [data] if data else []
        if self.deliveries == 'units' and len(data) < 200:
            return [data[i:i + 1] for i in range(len(data))]
        return list(chunks_of(data, gen_cuts(c, len(data))))


def unique_value(c, cfg, part):
    """A value with numbers and texts which occurred in no other part."""
    k = c.draw(4)
    n = 10 ** 9 + part
    v = c.pick([N('int', n), N('string', 'unique %d' % part), N('float', n + 0.5), N('blob', b'unique %d' % part),
                N('decimal', (0, n, -2)), N('clob', b'unique %d' % part), N('symbol', cfg['symbols'][1])])
    if k == 0:
        return v
    return N('struct', None, (cfg['symbols'][2],) if k == 1 else (), [(cfg['symbols'][3], v)])


class Stream(object):
    """An endless stream of top-level values."""
    nested = False
    base = 0

    def __init__(self, ch, profile, kind, catalog):
        self.p, self.kind, self.catalog = profile, kind, catalog
        self.tail_data = None

    def prefix(self):
        return b'' if self.kind == 'binary' else self.encode('')

    def encode(self, text):
        if self.kind == 'binary':
            return text
        return text + '' if self.kind == 'unicode' else text.encode('utf-8')

    def part(self, c, n):
        cfg = self.p.cfg_for(n)
        binary = self.kind == 'binary'
        items = gen_plan(c, cfg, self.catalog, binary, max_epochs=2, max_values=2, min_values=1)
        extra = unique_value(c, cfg, n)
        need = sorted(t for t in tokens_of(extra, set()))
        foreign = [(None, gen_import(c, self.catalog)) for _ in range(c.draw(3))]
        if c.draw(2):
            # A table which nobody has heard of.
            foreign.append((None, N('struct', None, (), [('name', N('string', 'foreign%d' % n)), ('version', N('int', 1 + n % 3)),
                                                         ('max_id', N('int', n % 7))])))
        items += table_and_values(c, self.catalog, need, [extra], foreign if foreign else None)
        if binary:
            return render_binary(items, c).data
        if items[0].kind != 'ivm':
            items.insert(0, Item('ivm', ctx=SYSTEM))
        return self.encode(render_text(items, c).data + '\n')

    def scrub(self, c):
        """Data which makes a reader forget what it may still hold of the data before: tables and values of all kinds."""
        items = []
        for imports in ([(None, gen_import(c, self.catalog))], 'all', None):
            values = some_of_everything(c, 'scrub')
            need = ['scrub', 'f', 'g']
            if imports == 'all':
                # Another table which extends the first one.
                node = N('struct', None, ('$ion_symbol_table',), [('imports', N('symbol', '$ion_symbol_table')),
                                                                  ('symbols', N('list', None, (), [(None, N('string', 'more'))]))])
                before = items[-1].ctx
                after = apply_lst(before, node, self.catalog)
                items += [Item('lst', node, before)] + [Item('val', v, after) for v in values]
            else:
                items += table_and_values(c, self.catalog, need, values, imports)
        if self.kind == 'binary':
            return render_binary(items, c).data
        return self.encode(render_text(items, c).data + '\n')

    def tail(self):
        """(data which sets the state of a reader, data for the work which is measured); both end with the mark."""
        if self.tail_data is None:
            c = self.p.chooser('tail')
            if self.kind == 'binary':
                mark = encode_value(N('int', MARK), None, c)[0]
            else:
                mark = self.encode(' ' + MARK_TEXT + '\n')
            self.tail_data = (self.scrub(c) + mark, self.part(c, 0) + mark)
        return self.tail_data


def some_of_everything(c, symbol):
    scalars = [N('int', -(1 << 70)), N('int', 0), N('float', 1.5), N('decimal', (1, 123456789, -3)), N('bool', True), N('null', null=True),
               N('string', 'scrub \u20ac\n'), N('symbol', symbol), N('clob', b'scrub\n'), N('blob', b'scrub'), N('int', null=True),
               N('list', null=True), N('timestamp', gen_timestamp(c))]
    for v in scalars[::3]:
        v.ann = (symbol,)
    if symbol is None:
        scalars = [v for v in scalars if v.t != 'symbol']
    return scalars + [N('list', None, (symbol, symbol), [(None, v) for v in scalars]), N('sexp', None, (), [(None, v) for v in scalars]),
                      N('struct', None, (symbol,), [(symbol, v) for v in scalars])]


def table_and_values(c, catalog, need, values, imports=None):
    """Items: a version marker, a table for the values, the values."""
    kids = []
    if imports is None and c.draw(2):
        imports = [(None, gen_import(c, catalog)) for _ in range(c.range(1, 2))]
    if imports is not None:
        kids.append(('imports', N('list', None, (), imports)))
    kids.append(('symbols', N('list', None, (), [(None, N('string', t)) for t in need])))
    node = N('struct', None, ('$ion_symbol_table',), kids)
    after = apply_lst(SYSTEM, node, catalog)
    return [Item('ivm', ctx=SYSTEM), Item('lst', node, SYSTEM)] + [Item('val', v, after) for v in values]


class Nest(Stream):
    """An endless container; every part holds some children of it."""
    nested = True

    def __init__(self, ch, profile, kind, catalog):
        super(Nest, self).__init__(ch, profile, kind, catalog)
        self.levels = [ch.pick(['list', 'sexp', 'struct']) for _ in range(ch.pick([1, 2, 3]))]
        self.base = len(self.levels)
        self.symbols = ['a', 'b'] + ['k%d' % i for i in range(20)]
        self.annotated = bool(ch.draw(2))

    def sid(self, tok):
        return 0 if not isinstance(tok, str) else 10 + self.symbols.index(tok)

    def prefix(self):
        if self.kind == 'binary':
            node = N('struct', None, ('$ion_symbol_table',), [('symbols', N('list', None, (), [(None, N('string', t)) for t in self.symbols]))])
            data = b'\xe0\x01\x00\xea' + encode_value(node, lambda t: {'$ion_symbol_table': 3, 'symbols': 7}[t], self.p.chooser('lst'))[0]
            length = 1 << 50
            for i, t in enumerate(self.levels):
                if i and self.levels[i - 1] == 'struct':
                    data += var_uint(10)
                body = bytes([{'list': 0xbe, 'sexp': 0xce, 'struct': 0xde}[t]]) + var_uint(length)
                if self.annotated:
                    body = b'\xee' + var_uint(length + len(body) + 2) + b'\x81\x8a' + body
                data += body
                length >>= 6
            return data
        text = ''
        for i, t in enumerate(self.levels):
            if i and self.levels[i - 1] == 'struct':
                text += 'f:'
            text += 'a::' if self.annotated else ''
            text += {'list': '[', 'sexp': '(', 'struct': '{'}[t]
        return self.encode(text + '\n')

    def children(self, c, n):
        cfg = self.p.cfg_for(n)
        if self.kind == 'binary':
            cfg['symbols'] = self.symbols
        nodes = [gen_node(c, cfg, 1) for _ in range(c.range(1, 3))]
        nodes.append(unique_value(c, dict(cfg, symbols=self.symbols if self.kind == 'binary' else cfg['symbols']), n))
        return nodes

    def part(self, c, n):
        return self.of_nodes(c, self.children(c, n))

    def of_nodes(self, c, nodes):
        inner = self.levels[-1]
        if self.kind == 'binary':
            out = b''
            for node in nodes:
                for_known(node, self.symbols)
                if inner == 'struct':
                    out += var_uint(self.sid(c.pick(self.symbols)))
                out += encode_value(node, self.sid, c)[0]
            return out
        out = []
        for node in nodes:
            if is_system_value(node):
                node.ann = ('name',) + node.ann
            field = c.pick(['f:', "'g h':", '"i":', 'j :']) if inner == 'struct' else ''
            out.append(field + render_text([Item('val', node, SYSTEM)], c).data + '\n' + (' ' if inner == 'sexp' else ','))
        return self.encode(''.join(out))

    def tail(self):
        if self.tail_data is None:
            c = self.p.chooser('tail')
            if self.kind == 'binary':
                mark = self.of_nodes(c, [N('int', MARK)])
            else:
                field = 'm:' if self.levels[-1] == 'struct' else ''
                mark = self.encode(' ' + field + MARK_TEXT + '\n' + ('' if self.levels[-1] == 'sexp' else ','))
            self.tail_data = (self.of_nodes(c, some_of_everything(c, self.symbols[3])) + mark, self.part(c, 0) + mark)
        return self.tail_data


def for_known(node, symbols):
    """Leaves only known symbols in a value."""
    ok = lambda t: t if not isinstance(t, str) or t in symbols else symbols[len(t) % len(symbols)]
    node.ann = tuple(ok(a) for a in node.ann)
    if node.t == 'symbol' and not node.null:
        node.v = ok(node.v)
    if node.kids:
        node.kids = [(ok(f) if f is not None else None, k) for f, k in node.kids]
        for _, k in node.kids:
            for_known(k, symbols)


class Void(Stream):
    """An endless stretch which contains no values: white space, comments, padding."""

    def __init__(self, ch, profile, kind, catalog):
        super(Void, self).__init__(ch, profile, kind, catalog)
        self.how = ch.pick(['pads', 'one']) if kind == 'binary' else ch.pick(['space', 'block', 'line', 'blocks', 'lines'])
        self.opening = 'abc::' if ch.draw(2) and kind != 'binary' else ''

    def prefix(self):
        if self.kind == 'binary':
            return b'\xe0\x01\x00\xea' + (b'\x0e' + var_uint(1 << 50) if self.how == 'one' else b'')
        return self.encode(self.opening + {'block': '/*', 'line': '//'}.get(self.how, ''))

    def part(self, c, n):
        if self.kind == 'binary':
            junk = bytes(c.draw(256) for _ in range(c.range(1, 40)))
            return junk if self.how == 'one' else header(0, len(junk), c) + junk
        word = c.pick(['unique %d' % n, '**', '* ', "'", '"', '{{', '\u20ac', '$ion_1_0'])
        space = ''.join(c.pick(' \t\n\r') for _ in range(c.range(1, 9)))
        text = {'space': space, 'block': word, 'line': word, 'blocks': space + '/*' + word.replace('*', '') + '*/',
                'lines': space + '//' + word + '\n'}[self.how]
        return self.encode(text)

    def tail(self):
        if self.tail_data is None:
            data = self.part(self.p.chooser('tail'), 0)
            if self.kind != 'binary':
                data += self.encode('x y' if self.how in ('block', 'line') else ' \n ')
            self.tail_data = (data, data)
        return self.tail_data


STREAMS = {'stream': Stream, 'nest': Nest, 'skip': Nest, 'void': Void}


class ReaderSubject(object):
    """A reader of an endless stream, fed by deliveries."""

    def __init__(self, ch, ctx, profile):
        self.ctx, self.p = ctx, profile
        self.kind = ch.pick(['binary', 'text', 'unicode'])
        self.what = ch.pick(['stream', 'nest', 'skip', 'void'])
        self.catalog = gen_catalog(ch, big=None)
        self.built = self.catalog.build()
        self.managed = ch.pick([True, True, False])
        self.stream = STREAMS[self.what](ch, profile, self.kind, self.catalog)
        self.make_reader(ch)
        self.label = self.describe()
        self.depth = 0
        self.marks = 0
        self.skipping = False
        self.parts = 0
        self.start(ch)

    def make_reader(self, ch):
        reader = binary_reader() if self.kind == 'binary' else text_reader(is_unicode=self.kind == 'unicode')
        self.reader = managed_reader(reader, self.built) if self.managed else reader

    def start(self, ch):
        self.event = self.reader.send(NEXT_EVENT)
        prefix = self.stream.prefix()
        if prefix:
            self.deliver(self.p.chooser('prefix'), prefix)
        self.started = True
        if self.what == 'skip':
            self.ctx.fault('endless-skip')
            # The end of data was reported for a NEXT; some children first, then a skip from inside.
            self.part()
            self.skip_next = True
        elif self.what != 'stream':
            self.ctx.fault('endless-' + ('container' if self.what == 'nest' else 'padding'))

    skip_next = False
    started = False

    def describe(self):
        return '%s reader (%s%s)' % (self.kind, self.what, ', managed' if self.managed else '')

    def roots(self):
        return [self.reader, self.built]

    def part(self):
        self.parts += 1
        c = self.p.chooser('part', self.parts)
        data = self.stream.part(c, self.parts)
        for chunk in self.p.cuts(c, data):
            self.deliver(c, chunk)

    def deliver(self, c, chunk):
        self.ctx.step()
        ev = self.reader.send(read_data_event(chunk))
        while not ev.event_type.is_stream_signal:
            self.ctx.step()
            et = ev.event_type
            if et is IonEventType.CONTAINER_START:
                self.depth += 1
            elif et is IonEventType.CONTAINER_END:
                self.depth -= 1
                if self.depth < self.stream.base and self.started:
                    violate('wrong-events', '%s: the end of a container which has no end', self.label)
            elif et is IonEventType.SCALAR and (self.p.look == 0 or self.p.look == 2 and c.draw(2)):
                ev.value
            if et is IonEventType.SCALAR and ev.ion_type is IonType.INT and ev.value == MARK:
                self.marks += 1
            if self.skip_next and self.depth == self.stream.base:
                self.skip_next = False
                self.skipping = True
                ev = self.reader.send(SKIP_EVENT)
            elif self.p.skips and self.depth > self.stream.base and et is not IonEventType.VERSION_MARKER and c.draw(self.p.skips) == 1:
                self.ctx.fault('skip')
                ev = self.reader.send(SKIP_EVENT)
            else:
                ev = self.reader.send(NEXT_EVENT)

    def settle(self):
        marks = self.marks
        c = self.p.chooser('settle')
        tail = self.stream.tail()
        look, skips = self.p.look, self.p.skips
        self.p.look, self.p.skips = 0, 0
        self.deliver(c, tail[0])
        with Lines() as lines:
            self.deliver(c, tail[1])
        self.p.look, self.p.skips = look, skips
        if self.what in ('stream', 'nest') and self.marks != marks + 2:
            violate('wrong-events', '%s: the last value of the data delivered was not reported', self.label)
        return lines.lines


class Endless(object):
    """A source with short reads; it has data whenever it is asked."""

    def __init__(self, subject):
        self.s = subject
        self.data = subject.stream.prefix()
        self.whole = False

    def read(self, n):
        s = self.s
        if not self.data:
            s.next_data()
        k = min(n, len(self.data))
        if not self.whole and k > 1 and s.p.deliveries != 'whole':
            c = s.short
            k = 1 if s.p.deliveries == 'units' else c.range(1, k)
            s.ctx.fault('short-read')
        out, self.data = self.data[:k], self.data[k:]
        return out


class BlockingSubject(ReaderSubject):
    """A reader which takes its data from a source."""

    def make_reader(self, ch):
        super(BlockingSubject, self).make_reader(ch)
        if self.what in ('skip', 'void'):
            self.what = 'nest' if self.what == 'skip' else 'stream'
            self.stream = STREAMS[self.what](ch, self.p, self.kind, self.catalog)
        self.short = self.p.chooser('short')
        self.source = Endless(self)
        self.buffer = ch.pick([8192, 64, 7])
        self.raw = self.reader
        self.reader = blocking_reader(self.reader, self.source, self.buffer)
        self.queue = []

    def describe(self):
        return 'blocking ' + super(BlockingSubject, self).describe()

    def roots(self):
        # The source refers to the simulation.
        return [self.raw, self.reader.gi_frame.f_locals.get('ion_event'), self.built]

    def start(self, ch):
        self.consumer = self.p.chooser('consumer')
        self.ctx.fault('blocking-reader')
        if self.what == 'nest':
            self.ctx.fault('endless-container')

    def next_data(self):
        what = self.queue.pop(0) if self.queue else 'part'
        if what == 'part':
            self.parts += 1
            self.source.whole = False
            self.source.data = self.stream.part(self.p.chooser('part', self.parts), self.parts)
        else:
            self.source.whole = True
            self.source.data = self.stream.tail()[what]

    def pull(self, skips):
        c = self.consumer
        ev = self.reader.send(NEXT_EVENT)
        while True:
            self.ctx.step()
            et = ev.event_type
            if et is IonEventType.STREAM_END:
                violate('wrong-events', '%s: the end of a stream which has no end', self.label)
            if et is IonEventType.CONTAINER_START:
                self.depth += 1
            elif et is IonEventType.CONTAINER_END:
                self.depth -= 1
            elif et is IonEventType.SCALAR and (self.p.look == 0 or self.p.look == 2 and c.draw(2)):
                ev.value
            if et is IonEventType.SCALAR and ev.ion_type is IonType.INT and ev.value == MARK:
                return
            if skips and self.depth > self.stream.base and et is not IonEventType.VERSION_MARKER and c.draw(skips) == 1:
                self.ctx.fault('skip')
                ev = self.reader.send(SKIP_EVENT)
            else:
                ev = self.reader.send(NEXT_EVENT)

    def part(self):
        self.queue.append('part')

    def settle(self):
        # The data between the two tails is read at the pace of the consumer.
        self.queue.append(0)
        self.pull(self.p.skips)
        self.queue.append(1)
        with Lines() as lines:
            self.pull(0)
        return lines.lines


class Drain(object):
    """A sink with short writes which keeps nothing."""

    def __init__(self, subject):
        self.s = subject
        self.n = 0

    def write(self, b):
        n = len(b)
        if n > 1 and self.s.p.deliveries != 'whole':
            n = 1 if self.s.p.deliveries == 'units' else self.s.short.range(1, n)
            self.s.ctx.fault('short-write')
        self.n += n
        return n


class WriterSubject(object):
    """A writer which is never done."""

    def __init__(self, ch, ctx, profile):
        self.ctx, self.p = ctx, profile
        self.binary = not ch.draw(2)
        self.short = profile.chooser('short')
        self.imports, self.known = None, SYSTEM
        if self.binary and ch.draw(2):
            self.imports, self.known = gen_imports(ch, gen_catalog(ch, big=None))
        w = binary_writer(self.imports) if self.binary else text_writer(indent=ch.pick(INDENTS))
        self.raw = w
        self.blocking = bool(ch.draw(2))
        if self.blocking:
            ctx.fault('blocking-writer')
            w = blocking_writer(w, Drain(self))
        self.writer = w
        self.bytes = 0
        self.parts = 0
        self.levels = [] if self.binary or ch.draw(2) else [ch.pick(['list', 'sexp', 'struct']) for _ in range(ch.pick([1, 2]))]
        self.flush = ch.pick(['always', 'sometimes']) if not self.binary else 'always'
        self.label = '%s writer%s%s' % ('binary' if self.binary else 'text', ' (blocking)' if self.blocking else '',
                                        ' in %r' % (self.levels,) if self.levels else '')
        for i, t in enumerate(self.levels):
            ctx.fault('endless-container')
            self.send(IonEvent(IonEventType.CONTAINER_START, ION_TYPES[t],
                               field_name='f' if i and self.levels[i - 1] == 'struct' else None))

    def roots(self):
        return [self.raw, self.imports] + ([] if not self.blocking else [dict(
            (k, v) for k, v in self.writer.gi_frame.f_locals.items() if not isinstance(v, Drain))])

    def send(self, event):
        self.ctx.step()
        if self.blocking:
            return self.writer.send(event)
        while True:
            result = self.writer.send(event)
            if result.data:
                self.bytes += len(result.data)
            if result.type is not WriteEventType.HAS_PENDING:
                return result.type
            event = None

    def write(self, c, n):
        cfg = self.p.cfg_for(n)
        nodes = [gen_node(c, cfg, 0, True) for _ in range(c.range(1, 2))] + [unique_value(c, cfg, n)]
        for node in nodes:
            if is_system_value(node):
                node.ann = ('name',) + node.ann
            in_struct = bool(self.levels) and self.levels[-1] == 'struct'
            for ev in events_for_writer(node, c, self.known if self.binary else None, 'g' if in_struct else None, in_struct, len(self.levels)):
                self.send(ev)

    def part(self):
        self.parts += 1
        c = self.p.chooser('part', self.parts)
        self.write(c, self.parts)
        if not self.levels and (self.flush == 'always' or c.draw(3) == 1):
            self.ctx.fault('flush')
            self.send(STREAM_END)
            if c.draw(3) == 1:
                self.send(IVM_EVENT)

    def settle(self):
        with Lines() as lines:
            self.write(self.p.chooser('tail'), 0)
            if not self.levels:
                self.send(STREAM_END)
        return lines.lines


class Broken(object):
    """A source or sink which fails."""

    def __init__(self, c, data):
        self.c, self.data, self.pos = c, data, 0

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos

    def read(self, n=-1):
        if self.c.draw(3) == 1:
            raise OSError('injected')
        if n < 0:
            n = len(self.data)
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def write(self, b):
        if self.c.draw(3) == 1:
            raise OSError('injected')
        return len(b)


class ProcessSubject(object):
    """A process which starts and ends readings and writings, some of them by failure, and keeps none of their results.

    What it keeps: a catalog, tables to import, some values which it dumps again and again."""

    def __init__(self, ch, ctx, profile):
        self.ctx, self.p = ctx, profile
        self.catalog = gen_catalog(ch, big=None)
        self.built = self.catalog.build()
        self.imports, self.known = gen_imports(ch, self.catalog)
        c = profile.chooser('kept')
        nodes = [grouped(gen_node(c, profile.cfg_for(0), 0, True)) for _ in range(3)]
        self.kept = [py_obj(n, c, False) for n in nodes if not has_unk(n)]
        # A table of the catalog whose newest registration takes the place of the one before, and a table of a few symbols.
        self.renewed = SymbolTableCatalog()
        self.few = local_symbol_table()
        self.parts = 0
        self.label = 'process'

    def roots(self):
        return [self.built, self.imports, self.kept, self.renewed, self.few]

    def part(self):
        self.parts += 1
        self.work(self.p.chooser('part', self.parts), self.parts)

    def settle(self):
        with Lines() as lines:
            self.work(self.p.chooser('tail'), 0, tail=True)
        gc.collect()
        return lines.lines

    def work(self, c, n, tail=False):
        for _ in range(3):
            fault = 0 if tail else c.pick([0, 1, 2, 0, 1, 2, 0, 1, 2, 3])
            op = self.gen_op(c, n, fault)
            self.ctx.step()
            if fault == 3:
                counter = Interrupter()
                try:
                    counter.run(op)
                except Violation:
                    raise
                except Exception:
                    continue
                if counter.lines:
                    self.ctx.fault('interruption')
                    it = Interrupter()
                    try:
                        it.run(op, at=c.draw(counter.lines), exc=c.pick(KINDS))
                    except Violation:
                        raise
                    except CAUGHT + (Exception,):
                        pass
                continue
            try:
                op()
            except Exception:
                # Which errors are right is decided by other checks.
                self.ctx.fault('operation-failed')

    def gen_op(self, c, n, fault):
        """An operation which can be repeated."""
        cfg = self.p.cfg_for(n)
        k = c.draw(10)
        if k < 4:
            kind = c.pick(['binary', 'text', 'unicode'])
            data = Stream(None, self.p, kind, self.catalog).part(c, n)
            if fault == 1:
                self.ctx.fault('damage')
                data = damage(c, data)
            if k == 0:
                return lambda: simpleion.loads(data, catalog=self.built, single_value=False)
            if k == 1 and fault == 2:
                self.ctx.fault('source-fails')
                return lambda: simpleion.load(Broken(c, data), catalog=self.built, single_value=bool(n % 2))
            chunks = self.p.cuts(c, data)
            stop = c.draw(40) if fault == 2 else None
            close = c.draw(2)

            def read():
                reader = binary_reader() if kind == 'binary' else text_reader(is_unicode=kind == 'unicode')
                reader = managed_reader(reader, self.built)
                reader.send(NEXT_EVENT)
                steps = 0
                for chunk in chunks:
                    ev = reader.send(read_data_event(chunk))
                    while not ev.event_type.is_stream_signal:
                        ev.value
                        steps += 1
                        if steps == stop:
                            self.ctx.fault('reader-abandoned')
                            if close:
                                reader.close()
                            return
                        ev = reader.send(NEXT_EVENT)
            return read
        node = gen_node(c, cfg, 0, True)
        if k < 6:
            obj = [py_obj(n, c, False) for n in [grouped(node), unique_value(c, cfg, n)] if not has_unk(n)] + self.kept
            if fault == 1:
                obj.append(c.pick([object(), [set()], {'a': object()}]))
            options = {'binary': bool(c.draw(2)), 'sequence_as_stream': bool(c.draw(2))}
            if options['binary']:
                options['imports'] = self.imports
            if fault == 2:
                self.ctx.fault('sink-fails')
                return lambda: simpleion.dump(obj, Broken(c, b''), **options)
            return lambda: simpleion.dump(obj, io.BytesIO(), **options)
        if k == 6:
            events = events_for_writer(node, c, self.known) + [STREAM_END]
            if fault == 1:
                events.insert(c.draw(len(events)), END)
            stop = c.draw(len(events)) if fault == 2 else None
            binary = bool(c.draw(2))

            def write():
                w = blocking_writer(binary_writer(self.imports) if binary else text_writer(), io.BytesIO())
                for i, ev in enumerate(events):
                    if i == stop:
                        self.ctx.fault('writer-abandoned')
                        return
                    w.send(ev)
            return write
        if k == 7:
            name = 'table%d' % n
            texts = [cfg['symbols'][1], None, cfg['symbols'][2]]

            def tables():
                catalog = SymbolTableCatalog()
                for v in (1, 2, 3):
                    t = shared_symbol_table(name, v, texts[:v], [] if fault != 1 else [object()])
                    catalog.register(t)
                for v in (1, 2, 4):
                    t = catalog.resolve(name, v, 2 + n % 5)
                    self.built.resolve(name, v, 3)
                    for sid in range(1, 5):
                        t.get(sid)
                    t.get(texts[0])
                data = simpleion.dumps([SymbolToken(texts[0], None)], binary=True, imports=[catalog.resolve(name, 3, 3)])
                return simpleion.loads(data, catalog=catalog)
            return tables
        if k == 8:
            texts = [cfg['symbols'][1], 'unique %d' % n, None][:1 + c.draw(3)]
            version = c.range(1, 2)

            def renewed():
                # The same name and version, with other symbols, as when a process loads its tables again.
                self.renewed.register(shared_symbol_table('renewed', version, texts))
                for v in (version, 1, 9):
                    t = self.renewed.resolve('renewed', v, 1 + n % 4)
                    t.get(1), t.get(texts[0])
                for text in ('a', 'b', 'c%d' % (n % 3)):
                    self.few.intern(text)
                    self.few.get(text), self.few.get(cfg['symbols'][1]), self.few.get(10 ** 6 + n)
                if fault == 1:
                    self.few.intern(n)
            return renewed

        def small():
            t = timestamp(2000 + n % 50, 1 + n % 12, 1, 1, 2, n % 60, n % 1000000, off_hours=n % 12 if fault != 1 else 99)
            Timestamp.adjust_from_utc_fields(2000 + n % 50, 1, 2, 3, 4, 5, None)
            d = simpleion.loads('{a%d: %d, b: [%d., "x%d"]}' % (n, n, n, n))
            m = Multimap({})
            m.add_item('a%d' % n, d)
            hash(SymbolToken('b%d' % n, None))
            repr(d), repr(t)
            return d == simpleion.loads(simpleion.dumps(d))
        return small


class Appending(object):
    """A stream whose symbol table is extended again and again.

    The table grows, and nothing else: what a step adds must not depend on how large the table already is."""

    def __init__(self, c, ctx, binary, size, imports, deliveries):
        self.c, self.ctx, self.binary, self.deliveries = c, ctx, binary, deliveries
        self.reader = managed_reader(binary_reader() if binary else text_reader(), imports.build())
        self.deliver(NEXT_EVENT)
        self.n = 0
        kids = []
        if imports.all():
            name, version, texts = imports.all()[0]
            kids.append(('imports', N('list', None, (), [(None, N('struct', None, (), [
                ('name', N('string', name)), ('version', N('int', version)), ('max_id', N('int', len(texts)))]))])))
        kids.append(('symbols', N('list', None, (), [(None, N('string', 'k%05d' % i)) for i in range(size)])))
        self.feed(b'\xe0\x01\x00\xea' if binary else b'$ion_1_0 ')
        self.table(kids)

    def table(self, kids):
        node = N('struct', None, ('$ion_symbol_table',), kids)
        if self.binary:
            sids = {'$ion_symbol_table': 3, 'symbols': 7, 'imports': 6, 'name': 4, 'version': 5, 'max_id': 8}
            self.feed(encode_value(node, sids.get, self.c)[0])
        else:
            self.feed((render_text([Item('lst', node, SYSTEM)], self.c).data + '\n').encode('utf-8'))

    def feed(self, data):
        for chunk in (data[i:i + self.deliveries] for i in range(0, len(data), self.deliveries)):
            self.deliver(read_data_event(chunk))

    def deliver(self, request):
        ev = self.reader.send(request)
        while not ev.event_type.is_stream_signal:
            self.ctx.step()
            ev = self.reader.send(NEXT_EVENT)

    def steps(self, k):
        for _ in range(k):
            self.n += 1
            self.table([('imports', N('symbol', '$ion_symbol_table')), ('symbols', N('list', None, (), [(None, N('string', 'a%06d' % self.n))]))])

    def grown(self, k):
        """What k steps add, per step."""
        self.steps(20)
        a = weigh([self.reader] + library_roots())
        self.steps(k)
        b = weigh([self.reader] + library_roots())
        return (b[0] - a[0]) / k, (b[1] - a[1]) / k


def appending(ch, ctx):
    ctx.fault('appended-tables')
    binary = not ch.draw(2)
    catalog = gen_catalog(ch, big=None)
    deliveries = ch.pick([10000, 1, 7])
    seed = ch.bits(24)
    label = 'appended tables (%s)' % ('binary' if binary else 'text')
    ctx.sample = {'subject': label}
    ctx.trace(label, deliveries, seed)
    grown = []
    for size in (1, 120):
        a = Appending(Chooser(random.Random(seed)), ctx, binary, size, catalog, deliveries)
        grown.append(a.grown(40))
    ctx.nontrivial = True
    ctx.state(label, deliveries, seed % 64, len(catalog.all()))
    for d in range(2):
        if grown[1][d] > 1.5 * grown[0][d] + 30:
            violate('unbounded-growth', '%s: a step which adds one symbol to a table of about 1 and of about 120 symbols adds %.1f and %.1f %s',
                    label, grown[0][d], grown[1][d], WHAT[d])


# One long thing: (name, binary, units which one repetition takes, pieces of it). The work must not grow faster than the thing.
def _text(before, piece, after):
    return lambda n: (before + piece * n + after).encode('utf-8')


def _each(before, piece, after):
    return lambda n: (before + ''.join(piece % i for i in range(n)) + after).encode('utf-8')


def _dumped(make):
    return lambda n: simpleion.dumps(make(n), binary=True)


def _stream(piece):
    return lambda n: b'\xe0\x01\x00\xea' + piece * n


LONG = [
    ('string', 1, _text('"', 'a', '" ')), ('string', 3, _text('"', '\u20ac', '" ')), ('string', 2, _text('"', '\\n', '" ')),
    ('string', 6, _text('"', '\\u20ac', '" ')), ('long string', 1, _text("'''", 'a', "''' 1 ")), ('long string', 2, _text("'''", "a\n", "''' 1 ")),
    ('symbol', 1, _text("'", 'a', "' ")), ('symbol', 1, _text('', 'a', ' ')), ('field name', 1, _text('{"', 'f', '":1} ')),
    ('annotation', 1, _text('', 'a', '::1 ')), ('clob', 1, _text('{{"', 'a', '"}} ')), ('long clob', 1, _text("{{'''", 'a', "'''}} ")),
    ('blob', 4, _text('{{', 'AAAA', '}} ')), ('white space', 1, _text('', ' ', '1 ')), ('comment', 1, _text('/*', '*', '*/ 1 ')),
    ('comment', 1, _text('//', '*', '\n1 ')), ('comments', 4, _text('', '/**/', '1 ')), ('comments', 4, _text('', '//a\n', '1 ')),
    ('operators', 1, _text('(', '+', ') ')), ('operators', 2, _text('(', '+ ', ') ')), ('list', 2, _text('[', '1,', '] ')),
    ('sexp', 6, _text('(', 'abcde ', ') ')), ('struct', 8, _each('{', 'f%d:1,', '} ')), ('repeated fields', 4, _text('{', 'f:1,', '} ')),
    ('values', 2, _text('', '1 ', '')), ('values', 5, _text('', '{a:1}', '')), ('values', 5, _text('', '"ab" ', '')),
    ('symbol table', 7, _each('$ion_symbol_table::{symbols:[', '"s%d",', ']} $10 ')),
    ('tables', 43, _text('', '$ion_symbol_table::{symbols:["abc"]} $10 ', '')),
    ('int', 1, _dumped(lambda n: (1 << 8 * n) - 1)), ('int', 1, _dumped(lambda n: 12345 - (1 << 8 * n))), ('string', 1, _dumped(lambda n: u'a' * n)), ('blob', 1, _dumped(lambda n: b'a' * n)), ('list', 2, _dumped(lambda n: [1] * n)),
    ('struct', 12, _dumped(lambda n: dict(('f%d' % i, 1) for i in range(n)))), ('symbols', 10, _dumped(lambda n: [SymbolToken(u's%d' % i, None) for i in range(n)])),
    ('values', 1, _stream(b'\x11')), ('padding', 1, _stream(b'\x00')), ('version markers', 4, _stream(b'\xe0\x01\x00\xea')),
    ('lists', 3, _stream(b'\xb2\x20\x20')), ('nested lists', 2, lambda n: b'[' * n + b']' * n), ('nested structs', 7, lambda n: b'{f:a::' * n + b'1' + b'}' * n),
    ('nested sexps', 4, lambda n: b'( 1' * n + b')' * n), ('annotated', 4, _stream(b'\xe4\x81\x84\x21\x01')),
]


def _nest(n, ion_type, ann, scalar):
    """The events of n containers within each other."""
    ann = (SymbolToken('a', None),) * ann
    name = SymbolToken('f', None) if ion_type is IonType.STRUCT else None
    begin = IonEvent(IonEventType.CONTAINER_START, ion_type, annotations=ann, field_name=name)
    one = IonEvent(IonEventType.SCALAR, IonType.INT, 1, annotations=ann, field_name=name)
    some = [one] * scalar
    return [begin._replace(field_name=None)] + (some + [begin]) * n + (some + [END]) * (n + 1) + [STREAM_END]


def _nests(ion_type, ann, scalar):
    return lambda n: _nest(n, ion_type, ann, scalar)


def _events(ion_type, value, ann=0, within=None):
    def make(n):
        ev = IonEvent(IonEventType.SCALAR, ion_type, value, annotations=(SymbolToken('a', None),) * ann,
                      field_name=SymbolToken('f', None) if within is IonType.STRUCT else None)
        if within is None:
            return [ev] * n + [STREAM_END]
        return [IonEvent(IonEventType.CONTAINER_START, within)] + [ev] * n + [END, STREAM_END]
    return make


LONG_EVENTS = [
    ('nested lists', 2, _nests(IonType.LIST, 0, 0)), ('nested structs', 4, _nests(IonType.STRUCT, 1, 1)), ('nested sexps', 5, _nests(IonType.SEXP, 2, 2)),
    ('list', 2, _events(IonType.INT, 1, 0, IonType.LIST)), ('struct', 4, _events(IonType.SYMBOL, 'abc', 1, IonType.STRUCT)),
    ('sexp', 4, _events(IonType.FLOAT, 1.5, 2, IonType.SEXP)), ('stream', 4, _events(IonType.STRING, 'abc', 1)), ('stream', 4, _events(IonType.NULL, None)),
]


def write_all(events, binary, indent, k, mute):
    w = blocking_writer(binary_writer() if binary else text_writer(indent=indent), Narrow(k, mute))
    for ev in events:
        w.send(ev)


class Counted(object):
    """A source with short reads for long data; it draws nothing."""

    def __init__(self, data, k):
        self.data, self.k, self.pos = data, k, 0

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos

    def read(self, n=-1):
        k = len(self.data) if n is None or n < 0 else min(n, self.k)
        out = self.data[self.pos:self.pos + k]
        self.pos += len(out)
        return out


def read_all(data, how, k, skip):
    binary = data[:4] == b'\xe0\x01\x00\xea'
    if how == 'load':
        return simpleion.load(Counted(data, k), single_value=False)
    reader = managed_reader(binary_reader() if binary else text_reader())
    if how == 'blocking':
        reader = blocking_reader(reader, Counted(data, k))
        ev = reader.send(NEXT_EVENT)
        while ev.event_type is not IonEventType.STREAM_END:
            ev = reader.send(NEXT_EVENT)
        return
    reader.send(NEXT_EVENT)
    for i in range(0, len(data), k):
        ev = reader.send(read_data_event(data[i:i + k]))
        while not ev.event_type.is_stream_signal:
            if ev.event_type is IonEventType.SCALAR:
                ev.value
            if skip and ev.event_type is IonEventType.CONTAINER_START:
                ev = reader.send(SKIP_EVENT)
            else:
                ev = reader.send(NEXT_EVENT)


def cpu(f):
    gc.collect()
    t = time.process_time()
    f()
    return time.process_time() - t


def one_long_thing(ch, ctx):
    """Reads (or writes) one thing of a size and one ten times as long."""
    ctx.fault('long-thing')
    name, unit, make = ch.pick(LONG_EVENTS if ch.draw(3) == 2 else LONG)
    how = ch.pick(['events', 'blocking', 'load', 'skip', 'dump'])
    k = ch.pick([1 << 30, 1, 64, 1000])
    if (name, unit, make) in LONG_EVENTS:
        how = 'write'
    elif name.startswith('nested') and how in ('load', 'dump'):
        # Those are recursive, as the values they deal with are.
        how = 'events'
    if how == 'skip':
        how = 'events'
        skip = True
    else:
        skip = False
    if how == 'write':
        binary, indent, mute = bool(ch.draw(2)), ch.pick([None, ' ']), ch.draw(2)
        if name.startswith('nested'):
            ctx.fault('deep-nesting')
            indent = None        # or the output is not proportional to the number of values

        def f(events):
            return lambda: write_all(events, binary, indent, k, mute)
        name += ' in binary' if binary else ' in text'
    elif how == 'dump':
        binary, indent = bool(ch.draw(2)), ch.pick([None, ' '])
        binary = binary or name == 'int'        # conversion to decimal digits is not proportional to the length

        def f(data):
            value = simpleion.loads(data, single_value=False)
            return lambda: simpleion.dump(value, Narrow(k), binary=binary, sequence_as_stream=bool(k % 2), **({} if binary else {'indent': indent}))
    else:
        def f(data):
            return lambda: read_all(data, how, k, skip)
    label = '%s of a long %s%s' % ('writing' if how in ('dump', 'write') else 'reading (%s)' % how, name, ' by pieces of %d' % k if k < 1 << 30 else '')
    ctx.sample = {'subject': label}
    ctx.trace(label)
    ctx.state(label)
    lines = []
    for n in (300, 3000):
        op = f(make(max(n // unit, 10)))
        op()
        with Lines() as counter:
            op()
        lines.append(counter.lines)
        ctx.step(n)
    if lines[1] > 13 * lines[0] + 200:
        violate('unbounded-work', '%s takes %d lines of library code, and of one ten times as long %d', label, lines[0], lines[1])
    small = 25000 if how not in ('dump', 'write') else 10000
    a, b = [f(make(n // unit)) for n in (small, 10 * small)]
    a()
    ctx.nontrivial = True
    ratios = []
    for _ in range(4):
        t = max(cpu(a), 0.002)
        big = cpu(b)
        ratios.append(big / t)
        if ratios[-1] < 32 or big < 0.4:
            return
    violate('unbounded-work', '%s takes much more than ten times as long when it is ten times as long (time is not proportional to the data)', label)


class Narrow(object):
    """A sink which accepts some bytes at a time and keeps nothing."""

    def __init__(self, k, mute=False):
        self.k, self.mute = max(k, 64), mute

    def writable(self):
        return True

    def write(self, b):
        return None if self.mute else min(len(b), self.k)


SUBJECTS = [ReaderSubject, WriterSubject, ProcessSubject, BlockingSubject]
WHAT = ('objects', 'characters and bytes', 'lines of library code for the same work')


def growth(marks, least):
    """The dimension in which every mark is above the one before (by at least ``least``, or by 2 % of the lines), or None."""
    for d in range(3):
        if all(b[d] - a[d] >= (least if d < 2 else 40 + a[d] // 50) for a, b in zip(marks, marks[1:])):
            return d
    return None


class Endurance(Property):
    ID = 'C18'
    RUNS = {'quick': 1200, 'thorough': 40000}
    CPU_LIMIT_S = 90.0
    RULE = ('A reader, a writer or a process lives through a long seeded history whose content never repeats (values, local symbol '
            'tables, imports, skips, flushes, endless containers and padding, short reads and writes; for a process also damaged '
            'data, failing sources and sinks, abandoned readers and writers, interruptions). After every phase it handles the '
            'same piece of work; then everything which it and the library can reach is weighed, and the lines of code which the work '
            'took are counted. If either grew in every phase after the first, the history goes on for hundreds of parts, beyond what a '
            'bounded cache can hold, and it must not grow any more. In some runs a symbol table is extended again and again (what one '
            'extension adds must not depend on the size of the table), or one long value, container or stretch is read or written (the work '
            'must be proportional to its length: lines of code, and CPU time by a wide margin). Non-trivial: every phase ended. Distinct by (subject, profile, parts per phase).')
    STATE_MEASURE = 'distinct (subject, kind of history, options of the workload) tuples'
    REAL = READERS + WRITERS + SIMPLE
    STUBS = ('producer of the stream (independent encoder and renderer)', 'transport', 'consumer', 'user of the writer', 'source', 'sink')
    MUST_HIT = ('endless-skip', 'endless-container', 'endless-padding', 'blocking-reader', 'blocking-writer', 'short-read', 'short-write',
                'skip', 'flush', 'interruption', 'damage', 'source-fails', 'sink-fails', 'reader-abandoned', 'writer-abandoned',
                'operation-failed', 'appended-tables', 'long-thing', 'deep-nesting')
    ASSUMPTIONS = ('A current symbol table which is extended grows; the long histories start over from time to time, as long-lived streams must.',
                   'CPU time is compared only between two sizes in the same process, and only a difference far beyond noise counts.')

    def run(self, ch, ctx):
        special = ch.draw(30)
        if special > 27:
            return one_long_thing(ch, ctx)
        if special > 25:
            return appending(ch, ctx)
        kind = ch.pick(SUBJECTS)
        p = Profile(ch)
        subject = kind(ch, ctx, p)
        per_phase = ch.pick([3, 5, 9])
        ctx.sample = {'subject': subject.label, 'parts per phase': per_phase}
        ctx.trace(subject.label, per_phase, p.seed, p.look, p.skips, p.deliveries)
        marks = self.live(subject, 4, per_phase)
        ctx.nontrivial = True
        ctx.state(subject.label, per_phase, p.look, p.skips, p.deliveries, sorted(p.cfg.items(), key=repr))
        first = marks
        if growth(marks[1:], 1) is None:
            return
        marks = self.live(subject, 4, 12)
        if growth(marks, 2) is None:
            return
        ctx.probe('long-history')
        self.live(subject, 1, 300)
        marks = self.live(subject, 7, 30)
        d = growth(marks, 2)
        if d is not None:
            violate('unbounded-growth', '%s: %s grow with the history: %s at the ends of phases of 30 parts after 300 parts of warming up '
                    '(%s in phases of %d parts before)', subject.label, WHAT[d], [m[d] - marks[0][d] for m in marks],
                    [m[d] - first[0][d] for m in first], per_phase)

    def live(self, subject, phases, parts):
        marks = []
        for _ in range(phases):
            for _ in range(parts):
                subject.part()
            lines = subject.settle()
            marks.append(weigh(subject.roots() + library_roots()) + (lines,))
        return marks


PROPERTIES = {'C18': Endurance()}
