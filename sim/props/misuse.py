import io
import sys
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal

from amazon.ion import simpleion
from amazon.ion.core import IonEvent, IonEventType, IonType
from amazon.ion.simple_types import (IonPyBytes, IonPyDecimal, IonPyDict, IonPyInt, IonPyList, IonPyNull, IonPySymbol, IonPyText,
                                     IonPyTimestamp)
from amazon.ion.symbols import ImportLocation, SymbolToken, local_symbol_table
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from ..core import Hang, HarnessError, Violation, clip, violate
from ..drivers import REJECT, first_difference
from ..judge import NotIon, user_of
from ..model import CONTAINERS, gen_node, shape, stream_events, swarm_cfg
from ..pyobjs import END, ION_TYPES, IVM_EVENT, STREAM_END, events_for_writer, grouped, py_obj
from ..symctx import SYSTEM, CatalogModel, gen_catalog
from .base import SIMPLE, WRITERS, Property
from .isolation import has_unk
from .writer_flush import INDENTS, Sink, gen_imports, use_imported_symbols

MINE = (Violation, Hang, HarnessError)
SCALAR, START = IonEventType.SCALAR, IonEventType.CONTAINER_START
ODD_OFFSET = timezone(timedelta(hours=1, seconds=30))


class Poison(Exception):
    """Raised by a user's own value while it is written."""


class FlakyList(list):
    """A list whose owner closes it while it is being written."""
    error = None
    after = 0

    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i >= self.after:
                break
            yield x
        raise self.error


class FlakyDict(dict):
    error = None

    def items(self):
        for x in dict.items(self):
            yield x
        raise self.error

    iteritems = items


def bad_tokens(binary):
    """Things which cannot be symbols."""
    out = [SymbolToken(5, None), SymbolToken(b'x', None), SymbolToken(u'\ud800', None), SymbolToken(u'a\udfff', 10),
           SymbolToken(None, -1), SymbolToken(None, 11, ImportLocation(u'elsewhere', 2)), u'\udc00b', 5, 1.5, (u'a',)]
    if binary:
        out += [SymbolToken(None, 5000), SymbolToken(None, 5000, None)]
    return out


def bad_scalars(binary):
    out = [
        (IonType.INT, u'1'), (IonType.INT, 1.5), (IonType.INT, Decimal(1)), (IonType.INT, b'1'),
        (IonType.FLOAT, u'1'), (IonType.FLOAT, 1), (IonType.FLOAT, Decimal('1.5')),
        (IonType.DECIMAL, 1.5), (IonType.DECIMAL, 1), (IonType.DECIMAL, u'1.5'),
        (IonType.DECIMAL, Decimal('NaN')), (IonType.DECIMAL, Decimal('sNaN123')), (IonType.DECIMAL, Decimal('Infinity')),
        (IonType.DECIMAL, Decimal('-Infinity')), (IonType.DECIMAL, Decimal('-NaN')),
        (IonType.TIMESTAMP, u'2001T'), (IonType.TIMESTAMP, date(2001, 2, 3)), (IonType.TIMESTAMP, time(1, 2)), (IonType.TIMESTAMP, 2001),
        (IonType.TIMESTAMP, datetime(2001, 2, 3, tzinfo=ODD_OFFSET)),
        (IonType.TIMESTAMP, datetime(2001, 2, 3, tzinfo=timezone(timedelta(microseconds=-1)))),
        (IonType.STRING, b'x'), (IonType.STRING, 5), (IonType.STRING, u'\ud800'), (IonType.STRING, u'ab\udc00'),
        (IonType.STRING, SymbolToken(u'a', None)), (IonType.STRING, [u'a']),
        (IonType.CLOB, u'x'), (IonType.CLOB, 5), (IonType.BLOB, u'x'), (IonType.BLOB, 5), (IonType.BLOB, Decimal(3)),
        (IonType.NULL, 1), (IonType.NULL, u'null'), (IonType.LIST, [1]), (IonType.SEXP, (1,)), (IonType.STRUCT, {u'a': 1}), (IonType.LIST, 5),
        (None, 1), (None, None), (5, 1),
    ]
    if binary:
        # Times which have no UTC equivalent.
        out += [(IonType.TIMESTAMP, datetime(1, 1, 1, tzinfo=timezone(timedelta(hours=1)))),
                (IonType.TIMESTAMP, datetime(9999, 12, 31, 23, 59, tzinfo=timezone(timedelta(hours=-1))))]
    return out + [(IonType.SYMBOL, t) for t in bad_tokens(binary)]


class Requests(object):
    """A writer driven request by request; knows what it has reported as complete."""

    def __init__(self, writer, blocking):
        self.blocking = blocking
        self.data = bytearray()
        self.sink = None
        if blocking:
            self.sink = Sink()
            self.data = self.sink.data
            writer = blocking_writer(writer, self.sink)
        self.writer = writer
        self.settled = 0

    def send(self, event, abuse=None):
        if self.blocking:
            t = self.writer.send(event)
        else:
            while True:
                result = self.writer.send(event)
                self.data += result.data
                t = result.type
                if t is not WriteEventType.HAS_PENDING:
                    break
                event = None
                if abuse is not None:
                    event = abuse
        if t is WriteEventType.COMPLETE:
            self.settled = len(self.data)
        return t


class Misuse(Property):
    ID = 'C13'
    RUNS = {'quick': 40000, 'thorough': 600000}
    RULE = ('A user writes random values as events, or dumps random objects, and puts one request or object which cannot be written at a '
            'seeded place of the history or structure. The error, what was out before and after it, a second writer which works at '
            'the same time, and later use of the library are checked against independent decoders and a run without the mistake. '
            'Distinct by (interface, mistake, place, values).')
    STATE_MEASURE = 'distinct (interface, mistake, depth, requests before it, value shapes) tuples'
    REAL = WRITERS + SIMPLE
    STUBS = ('users', 'output', 'reader (independent decoder)')
    MUST_HIT = ('stray-end', 'early-stream-end', 'marker-inside', 'no-field-name', 'bad-scalar', 'bad-start', 'bad-annotation',
                'bad-field-name', 'not-an-event', 'nothing', 'incomplete', 'event-while-pending', 'second-writer', 'after-rejection',
                'unwritable-object', 'unwritable-key', 'failing-iteration', 'circular', 'bad-options', 'bad-imports')
    ASSUMPTIONS = ('Any Exception counts as a rejection.', 'The independent decoder implements Ion 1.0 as documented.',
                   'A field name outside a struct, and a value of another Python type which has the same truth value (bool) or '
                   'the same octets (lobs), is not judged.')

    def run(self, ch, ctx):
        self.binary = binary = not ch.draw(2)
        self.catalog = gen_catalog(ch, (1, 2))
        self.imports, self.known = None, SYSTEM
        if binary and ch.draw(2):
            self.imports, self.known = gen_imports(ch, self.catalog)
        self.indent = None if binary else ch.pick(INDENTS)
        self.cfg = swarm_cfg(ch, long=ch.chance(1, 60))
        self.cfg['containers'] = max(2, self.cfg['containers'])
        ctx.nontrivial = True
        k = ch.draw(8)
        if k < 4:
            self.events(ch, ctx)
        elif k < 7:
            self.dump(ch, ctx)
        else:
            self.options(ch, ctx)

    def nodes(self, ch, lo, hi):
        if self.cfg['marathon']:
            self.cfg.update(max_depth=1, max_kids=2)
            hi = 40
        nodes = [gen_node(ch, self.cfg, 0, True) for _ in range(ch.range(lo, hi))]
        if ch.draw(2):
            use_imported_symbols(ch, nodes, self.known)
        return nodes

    def new_writer(self):
        return binary_writer(self.imports) if self.binary else text_writer(indent=self.indent)

    def check_output(self, data, nodes, what):
        """What is out denotes the leading values, or is visibly unfinished."""
        try:
            got = user_of(data, self.binary, self.catalog)
        except NotIon:
            return 'unfinished'
        want = stream_events(nodes)
        starts = set([0, len(want)])
        n = 0
        for node in nodes:
            n += len(stream_events([node]))
            starts.add(n)
        if got != want[:len(got)] or len(got) not in starts:
            violate('wrong-output', '%s: the output reads as the complete stream %s, written was %s; output %s', what, clip(got),
                    clip(want), clip(repr(bytes(data))))
        return 'leading'

    # -- events ----------------------------------------------------------------------------------------------------

    def history(self, ch, lo=1, hi=4):
        """[(event, depth before it, container type or None, values complete before it)], nodes"""
        nodes = self.nodes(ch, lo, hi)
        out = []
        if ch.draw(2):
            out.append((IVM_EVENT, 0, None, 0))
        for i, node in enumerate(nodes):
            stack = []
            for ev in events_for_writer(node, ch, self.known):
                out.append((ev, len(stack), stack[-1] if stack else None, i))
                if ev.event_type is START:
                    stack.append(ev.ion_type)
                elif ev.event_type is IonEventType.CONTAINER_END:
                    stack.pop()
            if ch.chance(1, 3):
                out.append((STREAM_END, 0, None, i + 1))
        out.append((STREAM_END, 0, None, len(nodes)))
        return out, nodes

    def mistake(self, ch, ctx, place, in_segment):
        """(name, request, event with which to answer HAS_PENDING)"""
        ev, depth, container, _ = place
        in_struct = container is IonType.STRUCT
        kinds = ['bad-scalar', 'bad-scalar', 'bad-start', 'bad-annotation', 'not-an-event', 'incomplete', 'nothing']
        if depth == 0:
            kinds += ['stray-end', 'stray-end']
            if self.binary and in_segment:
                kinds.append('marker-inside')
        else:
            kinds += ['early-stream-end', 'marker-inside', 'early-stream-end']
        if in_struct:
            kinds += ['no-field-name', 'bad-field-name']
        if self.pending_certain(ev, depth):
            kinds += ['event-while-pending'] * 3
        kind = ch.pick(kinds)
        field = u'f' if in_struct else None
        anns = (u'a',) if ch.chance(1, 4) else ()

        def scalar(t=IonType.INT, v=1, f=field, a=anns):
            return IonEvent(SCALAR, t, v, field_name=f, annotations=a, depth=depth)

        def start(t, f=field, a=anns):
            return IonEvent(START, t, field_name=f, annotations=a, depth=depth)
        abuse = None
        if kind == 'bad-scalar':
            t, v = ch.pick(bad_scalars(self.binary))
            request = scalar(t, v)
        elif kind == 'bad-start':
            request = start(ch.pick([IonType.INT, IonType.NULL, IonType.BLOB, None, IonType.SYMBOL]))
        elif kind in ('bad-annotation', 'bad-field-name'):
            bad = ch.pick(bad_tokens(self.binary))
            a, f = anns, field
            if kind == 'bad-annotation':
                a = ch.pick([(bad,), (u'ok', bad), (bad, u'ok'), [bad]])
            else:
                f = bad
            request = scalar(f=f, a=a) if ch.draw(2) else start(ch.pick([IonType.LIST, IonType.SEXP, IonType.STRUCT]), f, a)
        elif kind == 'no-field-name':
            request = scalar(f=None) if ch.draw(2) else start(IonType.LIST, None)
        elif kind == 'stray-end':
            request = ch.pick([END, IonEvent(IonEventType.CONTAINER_END, IonType.LIST, depth=0)])
        elif kind == 'early-stream-end':
            request = STREAM_END
        elif kind == 'marker-inside':
            request = IVM_EVENT
        elif kind == 'incomplete':
            request = IonEvent(IonEventType.INCOMPLETE)
        elif kind == 'nothing':
            request = None
        elif kind == 'not-an-event':
            request = ch.pick([object(), u'x', 5, IonType.INT, SymbolToken(u'a', 1)])
        else:
            request, abuse = ev, ch.pick([STREAM_END, scalar(), END])
        return kind, request, abuse

    def pending_certain(self, ev, depth):
        """Whether the writer is certain to answer this event with HAS_PENDING first."""
        if self.w.blocking:
            return False
        if not ev.event_type.begins_value:
            return False
        if self.binary:
            return not self.w.data and not self.ivm_out
        return bool(ev.annotations)

    def events(self, ch, ctx):
        solo, others = self.history(ch)
        twin = bool(ch.draw(2))
        plan, nodes = self.history(ch)
        blocking = bool(ch.draw(2))
        b_events = [e for e, _, _, _ in solo]
        # What the second user gets on an undisturbed day.
        ref = Requests(self.new_writer(), True)
        for e in b_events:
            ref.send(e)
        expected = bytes(ref.data)
        self.w = w = Requests(self.new_writer(), blocking)
        b = Requests(self.new_writer(), ch.draw(2))
        b_at = 0
        deep = [i for i, p in enumerate(plan) if p[2] is IonType.STRUCT] or [i for i, p in enumerate(plan) if p[1] > 0]
        pending = [] if blocking else [i for i, p in enumerate(plan) if p[0].event_type.begins_value and p[0].annotations]
        aim = ch.draw(4)
        at = ch.pick(deep) if aim == 1 and deep else ch.pick(pending) if aim == 2 and pending and not self.binary else ch.draw(len(plan))
        in_segment = False
        self.ivm_out = False
        for i in range(at):
            ctx.step()
            ev = plan[i][0]
            if twin and ch.draw(2) and b_at < len(b_events):
                b.send(b_events[b_at])
                b_at += 1
            try:
                w.send(ev)
            except MINE:
                raise
            except Exception as e:
                violate('rejects-valid', 'request %d of a valid history (%s) was answered with %r', i, ev, e)
            if ev is STREAM_END:
                in_segment = False
            elif ev is not IVM_EVENT:
                in_segment = True
            self.ivm_out = True
        place = plan[at]
        kind, request, abuse = self.mistake(ch, ctx, place, in_segment)
        ctx.fault(kind)
        settled = bytes(w.data[:w.settled])
        ctx.trace('mistake', kind, at, repr(request)[:200])
        where = ' [%s %s, after %d requests, depth %d: %s; abuse %s]' % ('binary' if self.binary else 'text', kind, at, place[1],
                                                                     clip(repr(request), 200), clip(repr(abuse), 60))
        try:
            w.send(request, abuse)
        except MINE:
            raise
        except Exception as e:
            ctx.trace('rejected', type(e).__name__)
        else:
            violate('accepted', 'the request was accepted; output so far %s%s', clip(repr(bytes(w.data))), where)
        done = place[3]
        leading = nodes[:done]
        self.check_output(w.data, leading, 'after the rejection' + where)
        if ch.draw(2):
            ctx.fault('after-rejection')
            for e in [p[0] for p in plan[at:at + ch.range(1, 4)]] + [STREAM_END]:
                try:
                    w.send(e)
                except MINE:
                    raise
                except Exception:
                    continue
                ctx.probe('goes-on-after-rejection')
            self.check_output(w.data, nodes, 'after more requests' + where)
        if bytes(w.data[:len(settled)]) != settled:
            violate('wrong-output', 'what had been complete was changed%s', where)
        if settled:
            self.settled_reads(settled, nodes, where)
        if twin:
            ctx.fault('second-writer')
        for e in b_events[b_at:]:
            try:
                b.send(e)
            except MINE:
                raise
            except Exception as x:
                violate('others-harmed', 'another writer answers a valid request with %r%s', x, where)
        if bytes(b.data) != expected:
            violate('others-harmed', 'another writer wrote %s instead of %s%s', clip(repr(bytes(b.data))), clip(repr(expected)), where)
        ctx.state(self.binary, blocking, kind, at, place[1], repr(request)[:120], [shape(n) for n in nodes])
        ctx.sample = {'kind': kind, 'binary': self.binary, 'request': clip(repr(request), 160), 'after': at}

    def settled_reads(self, settled, nodes, where):
        if self.check_output(settled, nodes, 'what was complete before' + where) != 'leading':
            violate('wrong-output', 'what was reported complete is not a complete stream: %s%s', clip(repr(settled)), where)

    # -- dump ------------------------------------------------------------------------------------------------------

    def bad_object(self, ch, ctx):
        """(object, the error it must raise or None)"""
        k = ch.draw(10)
        if k == 0:
            ctx.fault('failing-iteration')
            error = Poison('injected')
            obj = FlakyList([1, u'x'])
            obj.error, obj.after = error, ch.draw(3)
            if ch.draw(2):
                obj = FlakyDict({u'a': 1, u'b': None})
                obj.error = error
            return obj, error
        if k == 1:
            ctx.fault('unwritable-key')
            key = ch.pick([5, None, b'x', u'\ud800', SymbolToken(5, None), (u'a',), 1.5])
            return ch.pick([{key: 1}, {u'a': 1, key: []}, {key: {}}]), None
        ctx.fault('unwritable-object')
        if k < 4:
            t, v = ch.pick(bad_scalars(self.binary))
            cls = {IonType.INT: IonPyInt, IonType.STRING: IonPyText, IonType.DECIMAL: IonPyDecimal}.get(t)
            pool = [Decimal('NaN'), Decimal('-Infinity'), datetime(2001, 2, 3, 4, 5, tzinfo=ODD_OFFSET), u'\ud800', u'a\udc00',
                    SymbolToken(5, None), SymbolToken(None, -1), SymbolToken(None, 11, ImportLocation(u'elsewhere', 2))]
            if t is IonType.SYMBOL and isinstance(v, SymbolToken):
                return v, None
            if cls is None or not isinstance(v, (int, str, Decimal)):
                return ch.pick(pool), None
            try:
                if cls is IonPyInt and not isinstance(v, int):
                    raise TypeError()
                if cls is IonPyText and not isinstance(v, str):
                    raise TypeError()
                if cls is IonPyDecimal and not isinstance(v, Decimal):
                    raise TypeError()
                return cls.from_value(t, v), None
            except (TypeError, ValueError):
                return ch.pick(pool), None
        if k < 6:
            return ch.pick([
                IonPyText.from_value(IonType.INT, u'1'), IonPyInt.from_value(IonType.STRING, 5), IonPyBytes.from_value(IonType.STRING, b'x'),
                IonPyInt.from_value(IonType.INT, 5, (SymbolToken(5, None),)), IonPyNull.from_value(IonType.LIST, None, (5,)),
                IonPyText.from_value(IonType.STRING, u'a', (u'ok', u'\ud800')), IonPyList.from_value(IonType.LIST, [1], (5,)),
                IonPyList.from_value(IonType.LIST, [1, object()]),
                IonPyInt.from_value(IonType.TIMESTAMP, 5), IonPyDecimal.from_value(IonType.DECIMAL, Decimal('NaN')),
            ]), None
        return ch.pick([object(), set([1]), frozenset(), 1j, range(3), iter([1]), bytearray(b'x'), memoryview(b'x'), date(2001, 2, 3),
                        time(1, 2), timedelta(1), int, len, NotImplemented, Ellipsis, Poison('x')]), None

    def plant(self, ch, objs, bad):
        """Puts the object at a random place; returns the number of top-level values before it."""
        i = ch.draw(len(objs) + 1)
        if i == len(objs) or ch.draw(3) == 0:
            objs.insert(i, bad)
            return i
        at = objs[i]
        while True:
            options = [c for c in (list(at.values()) if isinstance(at, dict) else
                                   [v for _, v in at.items()] if isinstance(at, IonPyDict) else
                                   list(at) if isinstance(at, (list, tuple)) else [])
                       if isinstance(c, (list, dict, IonPyDict))]
            here = isinstance(at, (list, dict, IonPyDict))
            if here and (not options or ch.draw(2)):
                break
            if not options:
                objs.insert(i, bad)
                return i
            at = ch.pick(options)
        if isinstance(at, list):
            at.insert(ch.draw(len(at) + 1), bad)
        elif isinstance(at, IonPyDict):
            at.add_item(u'bad', bad)
        else:
            at[u'bad'] = bad
        return i

    def dump(self, ch, ctx):
        sexp = bool(ch.draw(2))
        good = [grouped(n) for n in self.nodes(ch, 0, 4) if not has_unk(n)]
        objs = [py_obj(n, ch, sexp) for n in good]
        options = {'binary': self.binary, 'sequence_as_stream': True, 'tuple_as_sexp': sexp, 'imports': self.imports, 'indent': self.indent}
        if not self.binary and ch.draw(2):
            options['omit_version_marker'] = True

        def clean():
            fp = io.BytesIO()
            simpleion.dump(list(objs), fp, **options)
            return fp.getvalue()
        before = clean()
        again = [py_obj(n, ch, sexp) for n in good]
        circular = ch.chance(1, 60)
        if circular:
            ctx.fault('circular')
            bad, error = [1], None
            inner = bad
            for _ in range(ch.draw(3)):
                inner = ch.pick([[inner], {u'a': inner}])
            bad.append(inner)
        else:
            bad, error = self.bad_object(ch, ctx)
        k = self.plant(ch, again, bad)
        stream = bool(ch.draw(4))
        if not stream:
            options['sequence_as_stream'] = False
        text = ch.chance(1, 4)
        ctx.trace('dump', repr(type(bad)), k, stream)
        where = ' [%s dump, %s after %d values]' % ('binary' if self.binary else 'text', clip(repr(bad), 160) if not circular else 'circular', k)
        fp = io.BytesIO()
        caught = None
        limit = sys.getrecursionlimit()
        if circular:
            sys.setrecursionlimit(400)
        try:
            if text:
                result = simpleion.dumps(again, **options)
            else:
                simpleion.dump(again, fp, **options)
        except MINE:
            raise
        except Exception as e:
            caught = e
        finally:
            sys.setrecursionlimit(limit)
        if caught is None:
            violate('accepted', 'the values were written as %s%s', clip(repr(result if text else fp.getvalue())), where)
        if error is not None and caught is not error:
            violate('wrong-error', 'the error of the value %r was replaced by %r%s', error, caught, where)
        ctx.trace('raised', type(caught).__name__)
        if not circular:
            self.check_output(fp.getvalue(), good[:k] if stream else [], 'after the failed dump' + where)
        options['sequence_as_stream'] = True
        after = clean()
        if after != before:
            violate('others-harmed', 'after the failure the same values are written as %s instead of %s%s', clip(repr(after)),
                    clip(repr(before)), where)
        try:
            got = user_of(after, self.binary, self.catalog)
        except NotIon as e:
            violate('wrong-output', '%s: %s%s', e, clip(repr(after)), where)
        d = first_difference(got, stream_events(good))
        if d is not None:
            violate('wrong-output', 'event %d of the output is %s, written was %s%s', d[0], clip(d[1]), clip(d[2]), where)
        ctx.state('dump', self.binary, stream, type(bad).__name__, repr(bad)[:60] if not circular and ' at 0x' not in repr(bad) else '', k,
                  [shape(n) for n in good])
        ctx.sample = {'dump': clip(repr(bad), 100) if not circular else 'circular', 'after values': k, 'raised': type(caught).__name__}

    # -- options ---------------------------------------------------------------------------------------------------

    def options(self, ch, ctx):
        nodes = [grouped(n) for n in self.nodes(ch, 1, 3) if not has_unk(n)]
        objs = [py_obj(n, ch) for n in nodes]
        fp = io.BytesIO()
        if not self.binary:
            ctx.fault('bad-options')
            indent = ch.pick([u'x', u' x', 4, b'  ', u'\xa0', u'\x1c', u' \x85', u'\u2028', u'\u3000', u' \x00', True])
            try:
                simpleion.dump(objs, fp, binary=False, sequence_as_stream=True, indent=indent)
            except MINE:
                raise
            except Exception as e:
                ctx.trace('rejected', type(e).__name__)
            else:
                violate('accepted', 'the indentation %r was accepted: %s', indent, clip(repr(fp.getvalue())))
            if fp.getvalue():
                violate('wrong-output', 'a dump which was refused has written %s', clip(repr(fp.getvalue())))
            ctx.state('options', repr(indent))
            return
        ctx.fault('bad-imports')
        bad = ch.pick([local_symbol_table(), local_symbol_table(symbols=[u'x']), u'table', 5, None, simpleion])
        imports = list(self.imports or [])
        imports.insert(ch.draw(len(imports) + 1), bad)
        # Values without symbols may not need the tables at all, but the writer has to declare them.
        try:
            simpleion.dump(objs + [SymbolToken(u'sym', None)], fp, binary=True, sequence_as_stream=True, imports=imports)
        except MINE:
            raise
        except Exception as e:
            ctx.trace('rejected', type(e).__name__)
        else:
            violate('accepted', 'the imports %r were accepted: %s', imports, clip(repr(fp.getvalue())))
        self.check_output(fp.getvalue(), [], 'after refused imports')
        fp = io.BytesIO()
        simpleion.dump(objs, fp, binary=True, sequence_as_stream=True, imports=self.imports)
        got = user_of(fp.getvalue(), True, self.catalog)
        d = first_difference(got, stream_events(nodes))
        if d is not None:
            violate('wrong-output', 'event %d of the output is %s, written was %s', d[0], clip(d[1]), clip(d[2]))
        ctx.state('imports', repr(type(bad)), len(imports))


PROPERTIES = {'C13': Misuse()}
