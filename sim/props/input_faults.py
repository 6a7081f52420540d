import io

from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..core import Hang, HarnessError, Violation, clip, violate
from ..drivers import REJECT
from ..files import SimSource
from ..model import canon_event, shape, swarm_cfg, tok_full
from ..outputs import gen_error
from ..plan import gen_plan, render_binary
from ..pyvals import tree_of_py, trees_of_events, user_events
from ..symctx import gen_catalog
from .base import READERS, SIMPLE, Property
from .text_delivery import text_case

OURS = (Violation, Hang, HarnessError)


class FaultySource(SimSource):
    """Raises at a seeded call of a seeded operation and tells the property about every read before it is answered."""

    def __init__(self, ch, ctx, data, base=0, mode=0):
        SimSource.__init__(self, ch, ctx, data, mode, base=base)
        self.plan = {}              # operation -> (number of the call, permanent)
        self.calls = {'read': 0, 'tell': 0, 'seek': 0}
        self.injected = None
        self.raised = 0
        self.on_read = None

    def _enter(self, op):
        self.calls[op] += 1
        if op in self.plan:
            at, permanent = self.plan[op]
            if self.calls[op] == at or (permanent and self.calls[op] > at):
                self.raised += 1
                self.ctx.fault('source-error-' + op)
                raise self.injected

    def tell(self):
        self._enter('tell')
        return SimSource.tell(self)

    def seek(self, pos, whence=0):
        self._enter('seek')
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        self.pos = pos
        return pos

    def read(self, n=-1):
        if self.on_read is not None:
            self.on_read(n)
        self._enter('read')
        return SimSource.read(self, n)


class FaultyText(io.TextIOBase):
    def __init__(self, src):
        super(FaultyText, self).__init__()
        self.src = src

    def readable(self):
        return True

    def tell(self):
        return self.src.tell()

    def seek(self, pos, whence=0):
        return self.src.seek(pos, whence)

    def read(self, n=-1):
        return self.src.read(n)


class RawIn(io.RawIOBase):
    """The same as the raw stream below a real io.BufferedReader."""

    def __init__(self, src):
        super(RawIn, self).__init__()
        self.src = src

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return SimSource.tell(self.src)

    def seek(self, pos, whence=0):
        return FaultySource.seek(self.src, pos, whence)

    def readinto(self, b):
        data = self.src.read(len(b))
        b[:len(data)] = data
        return len(data)


def after_skip(want, at):
    """The index of the event which ends the container that is open after event number ``at - 1``."""
    depth = 0
    for i in range(at, len(want)):
        kind = want[i][0][0]
        if kind == 'S':
            depth += 1
        elif kind == 'E':
            if depth == 0:
                return i
            depth -= 1
    raise HarnessError('skip at top level')


class InputFaults(Property):
    ID = 'C11'
    RUNS = {'quick': 20000, 'thorough': 500000}
    RULE = ('A random binary or text stream is read through blocking_reader or load from a source which returns seeded parts of '
            'what it is asked for, starts at a seeded position, raises a seeded error at a seeded read, tell or seek, or uses the '
            'library itself, directly or below the real io.BufferedReader and io.TextIOWrapper. Every read call is checked '
            'against what is determined by the data already handed out. Non-trivial: a read was short or failed. Distinct by '
            '(interface, stack, kind of fault, number of reads before it, stream structure).')
    STATE_MEASURE = 'distinct (interface, source stack, fault, reads before it, stream structure) tuples'
    REAL = READERS + SIMPLE + ['io.BufferedReader and io.TextIOWrapper of the interpreter (in part of the runs)']
    STUBS = ('producer of the stream (independent encoder and renderer)', 'file-like source', 'consumer')
    MUST_HIT = ('short-read', 'source-error-read', 'source-error-tell', 'source-error-seek', 'buffered-stack', 'text-stack',
                'base-offset', 'reentrant-source', 'retry-after-error', 'send-after-error', 'skip', 'one-byte-buffer')
    ASSUMPTIONS = ('A source returns at least one unit until its end, and not more than it was asked for.',
                   'The independent encoder and renderer implement Ion 1.0 as documented.')

    def run(self, ch, ctx):
        binary = bool(ch.draw(2))
        if binary:
            cfg = swarm_cfg(ch, long=ch.chance(1, 40))
            catalog = gen_catalog(ch)
            items = gen_plan(ch, cfg, catalog, True)
            r = render_binary(items, ch)
            data, table, is_unicode = r.data, None, False
        else:
            items, r, data, table, is_unicode, catalog = text_case(ch)
        self.sig = [shape(i.node) if i.node is not None else i.kind for i in items]
        stack = 0
        if is_unicode:
            if ch.chance(1, 3) and not any('\ud800' <= c <= '\udfff' for c in data):
                stack = 2
        elif ch.chance(1, 5):
            stack = 1
        ctx.trace('stream', data if is_unicode else data.hex(), 'stack', stack)
        where = ' [%s]' % clip(repr(data), 500)
        # The source.
        base = 0
        stored = data.encode('utf-8') if stack == 2 else data
        if ch.chance(1, 4):
            # Something else, which may look like Ion, precedes the data in the same file.
            junk = ch.pick(['x', '\x00\x00', '"', '{{', '// ', 'abc' * 9, '\ue000'])
            junk = junk if isinstance(stored, str) else ch.pick([junk.encode('utf-8'), b'\xe0\x01\x00\xea', b'\xe0\x01'])
            base = len(junk)
            stored = junk + stored
            ctx.fault('base-offset')
        src = FaultySource(ch, ctx, stored, base=base, mode=ch.draw(4))
        src.injected = ch.pick([None, EOFError('injected'), IonException('injected')]) or gen_error(ch)
        use_load = bool(ch.draw(2))
        if ch.draw(3):
            ops = ['read', 'read', 'read', 'tell', 'seek'] if use_load and not stack else ['read']
            op = ch.pick(ops)
            src.plan[op] = (1 + (ch.draw(min(40, 3 + len(stored))) if op == 'read' else 0), bool(ch.draw(2)))
        if stack == 0:
            fp = FaultyText(src) if is_unicode else src
        else:
            fp = io.BufferedReader(RawIn(src), ch.pick([16, 1, 3, 64, 8192]))
            if stack == 2:
                fp = io.TextIOWrapper(fp, encoding='utf-8', newline='')
                ctx.fault('text-stack')
            else:
                ctx.fault('buffered-stack')
        built = catalog.build()
        trees = trees_of_events(user_events([e for e, _ in r.managed]))
        other = None
        if ch.chance(1, 5):
            left = [3]

            def other():
                if left[0] and ch.chance(1, 3):
                    left[0] -= 1
                    ctx.fault('reentrant-source')
                    try:
                        got = [tree_of_py(v) for v in simpleion.loads(data, catalog=built, single_value=False)]
                    except REJECT as e:
                        violate('rejects-valid', 'load inside a read call raised %r%s', e, where)
                    if got != trees:
                        violate('wrong-values', 'load inside a read call returned %s instead of %s%s', clip(got, 1500),
                                clip(trees, 1500), where)
        if use_load:
            self.load(ch, ctx, fp, src, base, stack, built, trees, other, where)
        else:
            self.iterate(ch, ctx, fp, src, base, stack, built, r, table, binary, is_unicode, other, where)
        ctx.state(use_load, stack, binary, sorted(src.plan), src.calls['read'], src.raised > 0, self.sig)
        if src.raised or src.mode:
            ctx.nontrivial = True
        ctx.sample = {'load': use_load, 'stack': stack, 'binary': binary, 'units': len(data), 'base': base,
                      'faults': repr(src.plan), 'reads': src.calls['read'], 'error': type(src.injected).__name__}

    # -- load ---------------------------------------------------------------------------------------------------------

    def load(self, ch, ctx, fp, src, base, stack, built, trees, other, where):
        single = len(trees) == 1 and bool(ch.draw(2))

        def on_read(n):
            if other is not None:
                other()
        src.on_read = on_read
        if base and stack:
            fp.seek(base)
        for attempt in range(3):
            before = src.raised
            try:
                result = simpleion.load(fp, catalog=built, single_value=single)
            except OURS:
                raise
            except BaseException as e:
                ctx.trace('load raises', type(e).__name__)
                if src.raised == before:
                    violate('rejects-valid', 'load raised %r without any fault of the source%s', e, where)
                if e is not src.injected:
                    violate('lost-error', 'the source raised %r, the caller of load got %r%s', src.injected, e, where)
                # The consumer starts again, with the source that failed.
                ctx.fault('retry-after-error')
                src.plan = {}
                if stack:
                    if stack == 2 or ch.draw(2):
                        return
                    fp.seek(base)
                else:
                    src.pos = base
                continue
            if src.raised != before:
                violate('lost-error', 'the source raised %r and load returned%s', src.injected, where)
            got = [tree_of_py(v) for v in ([result] if single else result)]
            ctx.trace('loaded', got)
            if got != trees:
                violate('wrong-values', 'load returned %s, the data is %s%s', clip(got, 1500), clip(trees, 1500), where)
            return

    # -- blocking_reader ----------------------------------------------------------------------------------------------

    def iterate(self, ch, ctx, fp, src, base, stack, built, r, table, binary, is_unicode, other, where):
        managed = ch.draw(2)
        reader = binary_reader() if binary else text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, built)
        size = ch.pick([8192, 1, 2, 3, 7, 64])
        if size == 1:
            ctx.fault('one-byte-buffer')
        default = size == 8192 and ch.draw(2)
        reader = blocking_reader(reader, fp) if default else blocking_reader(reader, fp, size)
        if base and stack:
            fp.seek(base)
        want = r.managed if managed else r.raw
        off = (lambda o: o) if table is None else (lambda o: table[o])
        state = {'next': 0, 'eof': 0}

        def on_read(n):
            if other is not None:
                other()
            if stack:
                return
            if n is None or not 0 < n <= (size if not default else 1 << 20):
                violate('unbounded-read', 'the source was asked for %r units with a buffer size of %d%s', n, size, where)
            fed = src.pos - base
            i = state['next']
            if i is not None and i < len(want) and off(want[i][1]) <= fed:
                violate('needless-read', 'the source is read although event %d (%s) is determined by the %d units which were '
                        'read before%s', i, clip(want[i][0]), fed, where)
            if src.pos >= len(src.data):
                state['eof'] += 1
                if state['eof'] > 2 * len(want) + 4:
                    violate('no-progress', 'the source is read again and again after its end%s', where)
        src.on_read = on_read
        depth = 0
        pos = 0                     # the number of the event that comes next
        request = NEXT_EVENT
        try:
            while True:
                ctx.step()
                state['next'] = pos
                ev = reader.send(request)
                et = ev.event_type
                if et is IonEventType.STREAM_END:
                    ctx.trace('end')
                    break
                if et is IonEventType.INCOMPLETE:
                    violate('wrong-signal', 'a blocking reader delivered INCOMPLETE%s', where)
                got = canon_event(ev, tok_full)
                ctx.trace(got)
                if pos >= len(want) or got != want[pos][0]:
                    violate('wrong-events', 'event %d is %s instead of %s%s', pos, clip(got),
                            clip(want[pos][0]) if pos < len(want) else 'the end', where)
                pos += 1
                if got[0] == 'S':
                    depth += 1
                elif got[0] == 'E':
                    depth -= 1
                request = NEXT_EVENT
                if depth and ch.chance(1, 8):
                    ctx.fault('skip')
                    request = SKIP_EVENT
                    pos = after_skip(want, pos)
        except OURS:
            raise
        except BaseException as e:
            ctx.trace('raised', type(e).__name__)
            if not src.raised:
                violate('rejects-valid', 'the reader raised %r without any fault of the source%s', e, where)
            if e is not src.injected:
                violate('lost-error', 'the source raised %r, the consumer got %r%s', src.injected, e, where)
            # Whoever goes on using the reader must not get anything wrong.
            ctx.fault('send-after-error')
            state['next'] = None
            try:
                for _ in range(2):
                    ev = reader.send(request)
                    if ev.event_type is IonEventType.STREAM_END:
                        if pos < len(want):
                            violate('truncation-unnoticed', 'after an error of the source the reader reports the end of the stream '
                                    'before event %d%s', pos, where)
                        break
                    if ev.event_type is IonEventType.INCOMPLETE:
                        violate('wrong-signal', 'a blocking reader delivered INCOMPLETE%s', where)
                    got = canon_event(ev, tok_full)
                    if stack == 0 and (pos >= len(want) or got != want[pos][0]):
                        violate('wrong-events', 'after an error of the source event %d is %s instead of %s%s', pos, clip(got),
                                clip(want[pos][0]) if pos < len(want) else 'the end', where)
                    pos += 1
                    request = NEXT_EVENT
            except OURS:
                raise
            except BaseException as e2:
                ctx.trace('then', type(e2).__name__)
            return
        if src.raised:
            violate('lost-error', 'the source raised %r and the reader went on%s', src.injected, where)
        if pos != len(want):
            violate('lost-events', 'the reader delivered %d of %d events%s', pos, len(want), where)


PROPERTIES = {'C11': InputFaults()}
