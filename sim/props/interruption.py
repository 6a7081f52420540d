import copy
import decimal
import io
import sys

from amazon.ion import symbols as S
from amazon.ion import simple_types
from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_managed import managed_reader
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from ..actors import ERRORS, Chunked, new_reader
from ..core import Violation, clip, violate
from ..drivers import chunks_of, first_difference, gen_cuts
from ..interrupt import KINDS, Interrupter, pick_line
from ..model import canon_event, swarm_cfg, tok_full
from ..pyobjs import IVM_EVENT, STREAM_END, events_for_writer
from ..pyvals import tree_of_py, trees_of_events, user_events
from .base import READERS, SIMPLE, WRITERS, Property
from .catalog import describe, described
from .isolation import World, gen_job, has_unk
from .writer_flush import INDENTS

# After an interruption a component may raise anything which is an error, but must not go on with something wrong.
REFUSED = (Exception,)


class Spy(object):
    """Stands between two components and records what passes."""

    def __init__(self, inner):
        self.inner = inner
        self.sent = []
        self.got = []
        self.dead = False

    def send(self, request):
        self.sent.append(request)
        self.dead = True
        result = self.inner.send(request)
        self.dead = False
        self.got.append(result)
        return result

    def __iter__(self):
        return self

    def __next__(self):
        return self.send(None)

    def close(self):
        self.inner.close()


class Victim(object):
    """An operation which is interrupted. ``start`` prepares it (not interrupted), ``act`` runs it (interrupted at some line)."""
    label = '?'

    def start(self):
        raise NotImplementedError

    def act(self, handle):
        raise NotImplementedError

    def finished(self, handle):
        """Checks an operation which was not interrupted."""

    def interrupted(self, handle, ch, ctx):
        """Checks what was delivered and resumes."""


class JobVictim(Victim):
    def __init__(self, job, check):
        self.label = 'job-' + job.label
        self.job, self.check = job, check
        self.want = None

    def start(self):
        return []

    def act(self, out):
        for _ in self.job.steps(out):
            pass

    def finished(self, out):
        if self.want is None:
            self.want = out
            if self.check is not None:
                self.check(out)
        d = first_difference(out, self.want)
        if d is not None:
            violate('affected', '%s: observation %d is %s, before the interruptions it was %s', self.label, d[0], clip(d[1]),
                    clip(d[2]))

    def interrupted(self, out, ch, ctx):
        if self.want is None:
            return
        want = self.want
        if out and isinstance(out[-1], tuple) and 'error' in out[-1][:2]:
            # The library turned the interruption into an error of its own.
            out = out[:-1]
        if self.job.label.startswith('transcode') and out and isinstance(out[-1], bytes):
            if not want[-1].startswith(out[-1]):
                violate('wrong-prefix', '%s: the output %s is not a prefix of %s', self.label, clip(out[-1]), clip(want[-1]))
            out = out[:-1]
        if out and isinstance(out[-1], tuple) and 'error' in out[-1][:2]:
            out = out[:-1]
        if out != want[:len(out)]:
            d = first_difference(out, want[:len(out)])
            violate('wrong-prefix', '%s: observation %d before the interruption is %s, expected %s', self.label, d[0],
                    clip(d[1]), clip(d[2]))


class Reading(object):
    pass


class ReadVictim(Victim):
    """A stack of readers, each of which may be resumed."""

    def __init__(self, ch, world):
        self.kind, self.data, r = ch.pick(world.data)
        self.chunks = list(chunks_of(self.data, gen_cuts(ch, len(self.data)))) if self.data else []
        self.managed = bool(ch.draw(3))
        self.blocking = bool(ch.draw(2))
        self.catalog = world.built
        self.ref = [e for e, _ in (r.managed if self.managed else r.raw)]
        self.raw_ref = [e for e, _ in r.raw]
        self.label = 'read-%s%s%s' % (self.kind, '-managed' if self.managed else '', '-blocking' if self.blocking else '')

    def start(self):
        h = Reading()
        h.raw = Spy(new_reader(self.kind))
        h.top = managed_reader(h.raw, self.catalog) if self.managed else h.raw
        if self.blocking:
            h.source = Chunked(self.chunks, u'' if self.kind == 'unicode' else b'')
            h.top = blocking_reader(h.top, h.source)
        h.left = list(self.chunks)
        h.events = []
        h.end = False
        h.flushed = False
        h.waiting = False
        return h

    def act(self, h):
        request = NEXT_EVENT
        while True:
            ev = h.top.send(request)
            et = ev.event_type
            request = NEXT_EVENT
            if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                if self.blocking:
                    h.end = True
                    return
                if h.left:
                    h.waiting = True
                    request = read_data_event(h.left.pop(0))
                    h.waiting = False
                elif et is IonEventType.INCOMPLETE and not h.flushed and self.kind != 'binary':
                    h.flushed = True
                else:
                    h.end = True
                    return
            else:
                h.events.append(ev)

    def finished(self, h):
        got = [canon_event(e, tok_full) for e in h.events]
        d = first_difference(got, self.ref)
        if d is not None:
            violate('affected', '%s: event %d is %s, expected %s', self.label, d[0], clip(d[1]), clip(d[2]))

    def prefix(self, got, want, what):
        if got != want[:len(got)]:
            d = first_difference(got, want[:len(got)])
            violate('wrong-data-after-interruption', '%s: %s: event %d is %s, expected %s', self.label, what, d[0], clip(d[1]),
                    clip(d[2]))

    def interrupted(self, h, ch, ctx):
        got = [canon_event(e, tok_full) for e in h.events]
        self.prefix(got, self.ref, 'what it had delivered')
        resumed = False
        # A reader which waits for data would take NEXT for a flush.
        if ch.draw(4) and not h.waiting:
            for _ in range(ch.range(1, 3)):
                ctx.step()
                try:
                    ev = h.top.send(NEXT_EVENT)
                    if ev.event_type.is_stream_signal:
                        break
                    got.append(canon_event(ev, tok_full))
                except REFUSED:
                    ctx.fault('resume-refused')
                    break
                ctx.fault('resumed')
                resumed = True
                self.prefix(got, self.ref, 'resumed')
        if not isinstance(h.top, Spy) and not resumed and ch.draw(3):
            # Somebody goes on with the component underneath.
            raw = h.raw
            if raw.dead:
                ctx.fault('inner-resumed-dead')
                try:
                    ev = raw.inner.send(NEXT_EVENT)
                except REFUSED:
                    return
                got = [canon_event(e, tok_full) for e in raw.got if not e.event_type.is_stream_signal]
                if not ev.event_type.is_stream_signal and not any(r.type is SKIP_EVENT.type for r in raw.sent):
                    self.prefix(got + [canon_event(ev, tok_full)], self.raw_ref, 'the resumed inner reader')
                return
            ctx.fault('inner-resumed-alive')
            fed = sum(len(r.data) for r in raw.sent if r is not None and r.type is not NEXT_EVENT.type and r.data is not None)
            left = [self.data[fed:]] if fed < len(self.data) else []
            flushed = False
            if raw.got and raw.got[-1].event_type.is_stream_signal:
                if left:
                    request = read_data_event(left.pop(0))
                elif raw.got[-1].event_type is IonEventType.INCOMPLETE and self.kind != 'binary' and not self.flush_sent(raw):
                    request = NEXT_EVENT
                    flushed = True
                else:
                    request = None
            else:
                request = NEXT_EVENT
            while request is not None:
                ev = raw.send(request)
                request = NEXT_EVENT
                if ev.event_type.is_stream_signal:
                    if left:
                        request = read_data_event(left.pop(0))
                    elif ev.event_type is IonEventType.INCOMPLETE and not flushed and self.kind != 'binary':
                        flushed = True
                    else:
                        request = None
            got = [canon_event(e, tok_full) for e in raw.got if not e.event_type.is_stream_signal]
            d = first_difference(got, self.requested(raw))
            if d is not None:
                violate('wrong-data-after-interruption', '%s: the inner reader, which was not interrupted, gives %s at %d, '
                        'expected %s', self.label, clip(d[1]), d[0], clip(d[2]))

    def requested(self, raw):
        """The raw events which the requests ask for (the managed reader skips what is of no interest in symbol tables)."""
        out = []
        ref = self.raw_ref
        i = -1
        skip = False
        for request, result in zip(raw.sent, raw.got):
            if request.type is SKIP_EVENT.type:
                skip = True
            if result.event_type.is_stream_signal:
                continue
            i += 1
            if skip:
                last = ref[i - 1]
                depth = last[5] if last[0] == 'S' else last[5] - 1
                while i < len(ref) and not (ref[i][0] == 'E' and ref[i][5] == depth):
                    i += 1
                skip = False
            out.append(ref[i] if i < len(ref) else None)
        return out + ref[i + 1:]

    def flush_sent(self, raw):
        """Whether the last signal is the answer to a flush."""
        return len(raw.got) >= 2 and raw.sent[-1].type is NEXT_EVENT.type and raw.got[-2].event_type is IonEventType.INCOMPLETE


class Writing(object):
    pass


class WriteVictim(Victim):
    def __init__(self, ch, world):
        self.binary = bool(ch.draw(2))
        self.blocking = bool(ch.draw(2))
        nodes = [n for n in world.values if self.binary or not has_unk(n)]
        self.imports = world.imports if self.binary else None
        self.indent = ch.pick(INDENTS)
        self.events = []
        for n in nodes:
            self.events.extend(events_for_writer(n, ch, world.known if self.binary else None))
            if ch.draw(2):
                self.events.append(STREAM_END)
                if ch.draw(2):
                    self.events.append(IVM_EVENT)
        self.events.append(STREAM_END)
        self.want = None
        self.label = 'write-%s%s' % ('binary' if self.binary else 'text', '-blocking' if self.blocking else '')

    def start(self):
        h = Writing()
        h.raw = Spy(binary_writer(self.imports) if self.binary else text_writer(indent=self.indent))
        h.fp = io.BytesIO()
        h.top = blocking_writer(h.raw, h.fp) if self.blocking else h.raw
        h.done = 0
        return h

    def act(self, h):
        for ev in self.events[h.done:]:
            self.write(h, ev)
            h.done += 1

    def write(self, h, ev):
        if self.blocking:
            h.top.send(ev)
            return
        while True:
            result = h.top.send(ev)
            h.fp.write(result.data)
            ev = None
            if result.type is not WriteEventType.HAS_PENDING:
                break

    def finished(self, h):
        data = h.fp.getvalue()
        if self.want is None:
            self.want = data
        elif data != self.want:
            violate('affected', '%s: the output is %s, before the interruptions it was %s', self.label, clip(data),
                    clip(self.want))

    def prefix(self, h, what):
        if self.want is not None and not self.want.startswith(h.fp.getvalue()):
            violate('wrong-data-after-interruption', '%s: %s: the output %s is not a prefix of %s', self.label, what,
                    clip(h.fp.getvalue()), clip(self.want))

    def interrupted(self, h, ch, ctx):
        self.prefix(h, 'what it had written')
        if ch.draw(4):
            try:
                for ev in self.events[h.done:]:
                    ctx.step()
                    self.write(h, ev)
                ctx.fault('resumed')
                if self.want is not None and h.fp.getvalue() != self.want:
                    violate('wrong-data-after-interruption', '%s: resumed: the output is %s, expected %s', self.label,
                            clip(h.fp.getvalue()), clip(self.want))
            except Violation:
                raise
            except REFUSED:
                ctx.fault('resume-refused')
                self.prefix(h, 'after resuming was refused')
        raw = h.raw
        if self.blocking and ch.draw(3):
            if raw.dead:
                ctx.fault('inner-resumed-dead')
                # Even the end of the stream must not bring forth anything wrong.
                try:
                    before = b''.join(bytes(r.data) for r in raw.got)
                    result = raw.inner.send(STREAM_END)
                    out = before + bytes(result.data)
                except REFUSED:
                    return
                if self.want is not None and not self.want.startswith(out):
                    violate('wrong-data-after-interruption', '%s: the inner writer, resumed, wrote %s, not a prefix of %s',
                            self.label, clip(out), clip(self.want))
                return
            ctx.fault('inner-resumed-alive')
            given = len([e for e in raw.sent if e is not None])
            pending = bool(raw.got) and raw.got[-1].type is WriteEventType.HAS_PENDING
            rest = list(self.events[given:])
            while pending or rest:
                pending = raw.send(None if pending else rest.pop(0)).type is WriteEventType.HAS_PENDING
            out = b''.join(bytes(r.data) for r in raw.got)
            if self.want is not None and out != self.want:
                violate('wrong-data-after-interruption', '%s: the inner writer, which was not interrupted, wrote %s, expected %s',
                        self.label, clip(out), clip(self.want))


class DumpVictim(Victim):
    label = 'dump'

    def __init__(self, ch, world):
        self.sexp = bool(ch.draw(2))
        _, self.objs = world.obj(ch, self.sexp)
        self.binary = bool(ch.draw(2))
        self.options = {'binary': self.binary, 'sequence_as_stream': True, 'tuple_as_sexp': self.sexp}
        if self.binary:
            self.options['imports'] = world.imports
        else:
            self.options['indent'] = ch.pick(INDENTS)
        self.want = None
        self.trees = repr(self.objs)
        self.label = 'dump-binary' if self.binary else 'dump-text'

    def start(self):
        return io.BytesIO()

    def act(self, fp):
        simpleion.dump(self.objs, fp, **self.options)

    def finished(self, fp):
        data = fp.getvalue()
        if self.want is None:
            self.want = data
        elif self.want != data:
            violate('affected', '%s: the output is %s, before the interruptions it was %s', self.label, clip(data),
                    clip(self.want))

    def interrupted(self, fp, ch, ctx):
        if self.want is not None and not self.want.startswith(fp.getvalue()):
            violate('wrong-prefix', '%s: the output %s is not a prefix of %s', self.label, clip(fp.getvalue()), clip(self.want))
        if repr(self.objs) != self.trees:
            violate('input-changed', 'the objects to be dumped changed from %s to %s', clip(self.trees), clip(repr(self.objs)))


class LoadVictim(Victim):
    label = 'load'

    def __init__(self, ch, world):
        kind, self.data, r = ch.pick(world.data)
        self.catalog = world.built
        self.want = trees_of_events(user_events([e for e, _ in r.managed]))
        self.skip = kind == 'text' and self.data[:4] == b'\xe0\x01\x00\xea'

    def start(self):
        h = Reading()
        h.fp = io.StringIO(self.data) if isinstance(self.data, str) else io.BytesIO(self.data)
        h.values = None
        return h

    def act(self, h):
        h.values = simpleion.load(h.fp, catalog=self.catalog, single_value=False)

    def finished(self, h):
        got = [tree_of_py(v) for v in h.values]
        if got != self.want and not self.skip:
            violate('affected', 'load gave %s, expected %s', clip(got), clip(self.want))

    def interrupted(self, h, ch, ctx):
        # The source can be read again from the start.
        h.fp.seek(0)
        self.act(h)
        self.finished(h)
        ctx.fault('resumed')


class LookVictim(Victim):
    """An attribute of an event which was read before."""
    label = 'look'

    def __init__(self, ch, world):
        self.kind, self.data, r = ch.pick(world.data)
        self.catalog = world.built
        self.want = [e for e, _ in r.managed]
        self.index = ch.draw(len(self.want)) if self.want else None
        self.order = [ch.pick(['value', 'field_name', 'annotations']) for _ in range(ch.range(1, 3))]

    def start(self):
        reader = managed_reader(new_reader(self.kind), self.catalog)
        events = []
        ev = reader.send(NEXT_EVENT)
        if self.data:
            ev = reader.send(read_data_event(self.data))
        flushed = False
        while True:
            if not ev.event_type.is_stream_signal:
                events.append(ev)
            elif ev.event_type is IonEventType.STREAM_END or flushed or self.kind == 'binary':
                return events
            else:
                flushed = True
            ev = reader.send(NEXT_EVENT)

    def act(self, events):
        if self.index is not None:
            for name in self.order:
                getattr(events[self.index], name)

    def finished(self, events):
        got = [canon_event(e, tok_full) for e in events]
        d = first_difference(got, self.want)
        if d is not None:
            violate('wrong-data-after-interruption', 'look: event %d is %s, expected %s', d[0], clip(d[1]), clip(d[2]))

    def interrupted(self, events, ch, ctx):
        ctx.fault('resumed')
        if self.index is not None and ch.draw(2):
            copied = copy.copy(events[self.index])
            if canon_event(copied, tok_full) != self.want[self.index]:
                violate('wrong-data-after-interruption', 'look: a copy of event %d is %s, expected %s', self.index,
                        clip(canon_event(copied, tok_full)), clip(self.want[self.index]))
        self.finished(events)


class InternVictim(Victim):
    """Interning into a local table."""
    label = 'intern'

    def __init__(self, ch, world):
        self.imports = [S.shared_symbol_table('i%d' % i, 1, [ch.pick(['a', 'b', 'c', 'd', 'e']) for _ in range(ch.range(1, 3))])
                        for i in range(ch.draw(3))]
        self.first = [ch.pick(['a', 'f', 'g', 'h']) for _ in range(ch.draw(4))]
        self.texts = [ch.pick(['x', 'a', 'f', 'y', 'z', 'name', '']) for _ in range(ch.range(1, 3))]

    def model(self, texts):
        """(entries, text -> sid)"""
        entries = [(t.text, t.location) for t in S.SYSTEM_SYMBOL_TABLE]
        for table in self.imports:
            entries.extend((t.text, t.location) for t in table)
        known = {}
        for i, (t, _) in enumerate(entries):
            known.setdefault(t, i + 1)
        for t in self.first:
            entries.append((t, None))
            known.setdefault(t, len(entries))
        for t in texts:
            if t not in known:
                entries.append((t, None))
                known[t] = len(entries)
        return [(t, i + 1, loc) for i, (t, loc) in enumerate(entries)], known

    def start(self):
        h = Reading()
        h.table = S.local_symbol_table(self.imports, self.first)
        h.results = []
        return h

    def act(self, h):
        for t in self.texts:
            h.results.append(h.table.intern(t))

    def check(self, h, texts):
        entries, known = self.model(texts)
        table = h.table
        got = [(t.text, t.sid, t.location) for t in table]
        if got != entries:
            return 'iteration gives %s, expected %s' % (clip(got[9:]), clip(entries[9:]))
        if len(table) != len(entries) or table.max_id != len(entries):
            return '%d symbols, max_id %s, expected %d' % (len(table), table.max_id, len(entries))
        for text, sid in known.items():
            if text is not None and (table.get(text) is None or table.get(text).sid != sid):
                return 'look-up of %r gives %r, expected the ID %d' % (text, table.get(text), sid)
        for text in set(self.texts):
            if text not in known and table.get(text) is not None:
                return 'look-up of %r gives %r, expected nothing' % (text, table.get(text))
        for t, sid, loc in entries:
            if (table.get(sid).text, table.get(sid).sid) != (t, sid):
                return 'look-up of %d gives %r' % (sid, table.get(sid))
        if table.get(len(entries) + 1) is not None:
            return 'there is a symbol %d' % (len(entries) + 1)
        return None

    def finished(self, h):
        wrong = self.check(h, self.texts)
        if wrong is None:
            known = self.model(self.texts)[1]
            for t, tok in zip(self.texts, h.results):
                if (tok.text, tok.sid) != (t, known[t]):
                    wrong = 'interning %r gave %r' % (t, tok)
        if wrong is not None:
            violate('wrong-table', 'interning %s into a table with %s: %s', self.texts, clip(self.first), wrong)

    def interrupted(self, h, ch, ctx):
        n = len(h.results)
        states = [self.texts[:n], self.texts[:n + 1]]
        problems = [self.check(h, s) for s in states]
        if None not in problems:
            violate('torn-table', 'after an interruption while %r was interned after %r: %s; if it had been done: %s',
                    self.texts[n], self.first + self.texts[:n], problems[0], problems[1])
        done = states[0] if problems[0] is None else states[1]
        ctx.fault('resumed')
        more = [ch.pick(['x', 'q', 'y', 'a']) for _ in range(ch.range(1, 3))]
        if ch.draw(2):
            more = self.texts[n:] + more
        for t in more:
            h.table.intern(t)
        wrong = self.check(h, done + more)
        if wrong is not None:
            violate('torn-table', 'after an interruption while %r was interned, then interning %r: %s', self.texts[n], more, wrong)


class RegisterVictim(Victim):
    """Registration in a catalog, and building tables."""
    label = 'register'

    def __init__(self, ch, world):
        self.old = [(ch.pick(['T', 'U']), ch.pick([1, 2, 3]), ['o%d_%d' % (i, j) for j in range(ch.range(1, 3))])
                    for i in range(ch.draw(4))]
        self.new = (ch.pick(['T', 'U']), ch.pick([1, 2, 3]), ['n%d' % j for j in range(ch.range(1, 3))])
        self.ops = ch.pick(['register', 'build', 'resolve', 'bad'])
        self.label = 'catalog-' + self.ops

    def start(self):
        h = Reading()
        h.catalog = S.SymbolTableCatalog()
        for name, version, texts in self.old:
            h.catalog.register(S.shared_symbol_table(name, version, texts))
        h.table = S.shared_symbol_table(*self.new)
        h.before = describe(h.table)
        return h

    def act(self, h):
        if self.ops == 'register':
            h.catalog.register(h.table)
        elif self.ops == 'bad':
            try:
                h.catalog.register(S.placeholder_symbol_table(self.new[0], self.new[1], 2))
            except ValueError:
                pass
        elif self.ops == 'build':
            h.catalog.register(S.shared_symbol_table(self.new[0], self.new[1], self.new[2], imports=[h.table]))
        else:
            h.catalog.resolve(self.new[0], self.new[1] + 1, 2)
            h.catalog.resolve(self.new[0], 4, 5)
            h.catalog.resolve('V', 4, 5)

    def state(self, entries):
        tables = {}
        for name, version, texts in entries:
            tables.setdefault(name, {})[version] = texts
        out = {}
        for name in ('T', 'U', 'V'):
            versions = tables.get(name, {})
            for v in (1, 2, 3, 4):
                if v in versions:
                    out[name, v, None] = described(name, v, versions[v], False)
                else:
                    out[name, v, None] = 'error'
                src = versions[v] if v in versions else versions[max(versions)] if versions else []
                exact = v in versions and len(src) == 3
                out[name, v, 3] = described(name, v, (list(src) + [None] * 3)[:3], not exact)
        return out

    def observe(self, catalog):
        out = {}
        for name in ('T', 'U', 'V'):
            for v in (1, 2, 3, 4):
                for max_id in (None, 3):
                    try:
                        out[name, v, max_id] = describe(catalog.resolve(name, v, max_id))
                    except ERRORS:
                        out[name, v, max_id] = 'error'
        return out

    def after(self):
        if self.ops == 'register':
            return self.state(self.old + [self.new])
        if self.ops == 'build':
            return self.state(self.old + [(self.new[0], self.new[1], self.new[2] * 2)])
        return self.state(self.old)

    def differ(self, got, want):
        for k in sorted(want, key=repr):
            if got[k] != want[k]:
                return '%r resolves to %s, expected %s' % (k, clip(got[k], 200), clip(want[k], 200))
        return None

    def finished(self, h):
        d = self.differ(self.observe(h.catalog), self.after())
        if d is not None:
            violate('wrong-catalog', '%s: %s', self.label, d)

    def interrupted(self, h, ch, ctx):
        got = self.observe(h.catalog)
        a, b = self.differ(got, self.state(self.old)), self.differ(got, self.after())
        if a is not None and b is not None:
            violate('torn-catalog', 'after an interrupted registration: %s; if it had been done: %s', a, b)
        if describe(h.table) != h.before:
            violate('torn-table', 'a table changed from %s to %s', clip(h.before), clip(describe(h.table)))
        ctx.fault('resumed')
        self.act(h)
        self.finished(h)


def gen_victim(ch, ctx, world):
    k = ch.draw(16)
    if k < 4:
        return ReadVictim(ch, world)
    if k < 7:
        return WriteVictim(ch, world)
    if k < 9:
        return DumpVictim(ch, world)
    if k == 9:
        return LoadVictim(ch, world)
    if k < 12:
        return LookVictim(ch, world)
    if k == 12:
        return InternVictim(ch, world)
    if k == 13:
        return RegisterVictim(ch, world)
    return JobVictim(*gen_job(ch, ctx, world))


def decimal_environment():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(str(k) for k, v in c.traps.items() if v))


class Interruption(Property):
    ID = 'C14'
    ISOLATED = True
    RUNS = {'quick': 5000, 'thorough': 100000}
    RULE = ('While other readers, writers, load and dump calls which share a catalog, tables, objects and events are half way '
            'through, one to three operations (a stack of readers, a stack of writers, dump, load, looking at an event, '
            'interning, registering, any job) are interrupted by an exception raised at a seeded line of library code, once or '
            'several times. What was delivered must be a prefix of the undisturbed result; the interrupted component, and the '
            'component underneath it, are resumed and must refuse or go on correctly; tables and catalogs must be in the old '
            'or the new state; all other jobs, the same operation done again, and jobs started afterwards must give what they '
            'give undisturbed; the decimal environment must be unchanged. Non-trivial: an interruption was delivered. Distinct '
            'by (operation, exception, line of code).')
    STATE_MEASURE = 'distinct (operation, exception, line of library code) tuples'
    TIME_UNIT = 'scheduler steps (one request to a component, or one interrupted operation)'
    REAL = READERS + WRITERS + SIMPLE
    STUBS = ('users of the library', 'sources and outputs', 'signal source (raises at a chosen line)')
    MUST_HIT = ('interruption', 'interruption:KeyboardInterrupt', 'interruption:MemoryError', 'interruption:Timeout',
                'interruption:Killed', 'resume-refused', 'resumed', 'inner-resumed-alive', 'inner-resumed-dead',
                'bystander-in-progress', 'cold-interruption')
    ASSUMPTIONS = ('Exceptions arrive between lines, not within one line.',)

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=False, big=False, marathon=False)
        cfg['max_kids'] = min(cfg['max_kids'], 3)
        cfg['max_depth'] = min(cfg['max_depth'], 3)
        world = World(ch, cfg)
        bystanders = []
        for _ in range(ch.draw(4)):
            job, check = gen_job(ch, ctx, world)
            out = []
            bystanders.append((job, check, out, job.steps(out)))
        victims = [gen_victim(ch, ctx, world) for _ in range(ch.range(1, 3))]
        environment = decimal_environment()
        tool = Interrupter()
        log = []
        for victim in victims:
            for job, check, out, steps in bystanders:
                for _ in range(ch.draw(6)):
                    ctx.step()
                    next(steps, None)
                if out:
                    ctx.fault('bystander-in-progress')
            # Half of the operations are first done undisturbed; the others are interrupted the first time they are done.
            lines = None
            if ch.draw(4):
                h = victim.start()
                how, _ = tool.run(lambda: victim.act(h), record=True)
                lines = tool.record
                victim.finished(h)
            for _ in range(ch.pick([1, 1, 2, 4])):
                if lines is not None:
                    at = pick_line(ch, lines) if lines else 0
                else:
                    at = ch.draw(ch.pick([30, 300, 3000]))
                    ctx.fault('cold-interruption')
                exc = ch.pick(KINDS)
                h = victim.start()
                ctx.step()
                how, result = tool.run(lambda: victim.act(h), at, exc)
                ctx.trace(victim.label, exc.__name__, at, how, tool.where)
                if decimal_environment() != environment:
                    violate('environment-changed', 'an interruption of %s at %s left the decimal environment %s', victim.label,
                            tool.where, decimal_environment())
                if how == 'done':
                    victim.finished(h)
                    if tool.where is not None:
                        ctx.fault('interruption-swallowed')
                    continue
                ctx.fault('interruption')
                ctx.fault('interruption:' + exc.__name__)
                ctx.nontrivial = True
                ctx.state(victim.label, exc.__name__, tool.where)
                log.append((victim.label, exc.__name__, tool.where))
                self.log = log
                victim.interrupted(h, ch, ctx)
            h = victim.start()
            victim.act(h)
            victim.finished(h)
        for job, check, out, steps in bystanders:
            for _ in steps:
                pass
            alone = job.run()
            d = first_difference(out, alone)
            if d is not None:
                violate('affected', 'interruptions %s: job %s: observation %d is %s, alone it is %s', log, job.label, d[0],
                        clip(d[1]), clip(d[2]))
            if check is not None:
                check(out)
        for victim in victims:
            h = victim.start()
            victim.act(h)
            victim.finished(h)
        job, check = gen_job(ch, ctx, world)
        if check is not None:
            check(job.run())
        ctx.sample = {'interruptions': [repr(l) for l in log], 'bystanders': [b[0].label for b in bystanders]}


PROPERTIES = {'C14': Interruption()}
