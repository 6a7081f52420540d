from amazon.ion.core import IonEventType
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..core import clip, violate
from ..drivers import chunks_of, gen_cuts
from ..model import canon_event, shape, tok_full
from ..symctx import ManagedModel, ModelError
from ..textparse import parse
from .base import READERS, Property
from .text_delivery import text_case


def after_tokens(text):
    """Offsets directly after the end of tokens and separators: the places where flushing is decided."""
    out = []
    for i in range(1, len(text)):
        a, b = text[i - 1], text[i]
        if (a.isalnum() or a in '_$') != (b.isalnum() or b in '_$') or a in '\'":/*{}[]()' or b in '\'":/*':
            out.append(i)
    return out


class TextFlush(Property):
    ID = 'C03'
    RUNS = {'quick': 25000, 'thorough': 600000}
    RULE = ('A random text is cut at seeded points; each part is delivered in seeded pieces and then flushed. An independent '
            'parser decides what the part denotes. Non-trivial: at least one flush was requested. Distinct by (kind of the '
            'text around the flush point, outcome, delivery pattern).')
    STATE_MEASURE = 'distinct (last 6 characters before the flush by class, nesting, outcome, unicode, managed) tuples'
    REAL = READERS
    STUBS = ('producer of the text (independent renderer)', 'transport which cuts the stream and goes idle')
    MUST_HIT = ('flush-complete-token', 'flush-incomplete', 'flush-inside-container', 'data-after-flush', 'flush-error',
                'remainder-as-new-value')
    ASSUMPTIONS = ('The independent parser implements the text grammar of Ion 1.0.',)

    def run(self, ch, ctx):
        items, r, data, table, is_unicode, catalog = text_case(ch)
        text = r.data
        managed = ch.draw(2)
        weird = ch.chance(1, 3)
        reader = text_reader(is_unicode=is_unicode)
        if managed:
            reader = managed_reader(reader, catalog.build())
        starts = [s for s, e, _ in r.item_at]
        ends = [e for s, e, _ in r.item_at]
        tokens = after_tokens(text)
        pos = 0
        model = ManagedModel(catalog)
        ev = reader.send(NEXT_EVENT)
        flushes = 0
        while pos < len(text):
            # Where does this part end?
            mode = ch.draw(5)
            if mode == 0:
                end = len(text)
            elif mode in (1, 2):
                later = [e for e in ends if e > pos] or [len(text)]
                end = later[ch.draw(len(later))] + (ch.draw(2) if mode == 2 else 0)
            elif mode == 3:
                later = [e for e in tokens if e > pos] or [len(text)]
                end = later[ch.draw(len(later))]
            else:
                end = ch.range(pos + 1, len(text))
            end = max(pos + 1, min(end, len(text)))
            part = text[pos:end]
            if is_unicode and '\ud800' <= part[-1] <= '\udbff':
                end = min(end + 1, len(text))
                part = text[pos:end]
            ev, outcome = self.one_part(ch, ctx, reader, ev, part, is_unicode, managed, model)
            if outcome is None:
                return
            if outcome == 'flushed':
                flushes += 1
                ctx.nontrivial = True
            if end < len(text):
                ctx.fault('data-after-flush')
            if weird and end not in starts:
                if any(s < end < e for s, e, _ in r.item_at):
                    ctx.fault('remainder-as-new-value')
                pos = end
            else:
                later = [s for s in starts if s >= end]
                if not later:
                    break
                pos = later[0]
        ctx.sample = {'text': clip(text, 160), 'flushes': flushes, 'unicode': is_unicode, 'managed': bool(managed)}

    def one_part(self, ch, ctx, reader, ev, part, is_unicode, managed, model):
        """Delivers and flushes one part. Returns (last event, outcome); outcome is None if the reader is dead."""
        data = part if is_unicode else part.encode('utf-8')
        cuts = gen_cuts(ch, len(data))
        ctx.trace('part', data if is_unicode else data.hex(), 'cuts', cuts, 'managed', managed)
        want_raw, ok = parse(part)
        want = want_raw
        undefined = False
        if managed:
            want = []
            try:
                for e in want_raw:
                    want.extend(model.feed(e))
            except ModelError:
                # Weird parts may use symbol IDs which are not defined.
                undefined = True
        got = []
        where = ' [part %s of text, cuts %s]' % (clip(repr(part), 300), clip(cuts, 100))
        try:
            for chunk in chunks_of(data, cuts):
                ctx.step()
                ev = reader.send(read_data_event(chunk))
                while not ev.event_type.is_stream_signal:
                    got.append(canon_event(ev, tok_full))
                    ev = reader.send(NEXT_EVENT)
        except IonException as e:
            ctx.trace('error', type(e).__name__)
            if ok and not undefined:
                violate('rejects-valid', 'the reader raised %s on valid text%s', e, where)
            self.check_events(got, want, False, where)
            return None, None
        before_flush = len(got)
        signal = 'END' if ev.event_type is IonEventType.STREAM_END else 'INC'
        outcome = 'signal'
        error = None
        if signal == 'INC':
            outcome = 'flushed'
            ctx.fault('flush-complete-token' if ok else 'flush-incomplete')
            if not ok and any(e[0] == 'S' for e in want_raw) and \
                    sum(1 for e in want_raw if e[0] == 'S') > sum(1 for e in want_raw if e[0] == 'E'):
                ctx.fault('flush-inside-container')
            try:
                n = 0
                while True:
                    ctx.step()
                    ev = reader.send(NEXT_EVENT)
                    ctx.trace('flush', canon_event(ev, tok_full))
                    if ev.event_type.is_stream_signal:
                        break
                    got.append(canon_event(ev, tok_full))
                    n += 1
                    if n > 4:
                        violate('flush-without-end', 'a flush delivers more and more events: %s%s', clip(got[-6:]), where)
                if ev.event_type is not IonEventType.STREAM_END:
                    violate('wrong-signal', 'after a flush the reader still waits for data%s', where)
            except IonException as e:
                error = e
                ctx.fault('flush-error')
                ctx.trace('flush error', type(e).__name__)
        cls = ''.join('a' if c.isalpha() else '0' if c.isdigit() else ' ' if c in ' \t\r\n\v\f' else c for c in part[-6:])
        ctx.state(cls, is_unicode, managed, ok, error is not None, len(got), len(cuts) > 1)
        if undefined:
            if error is None:
                violate('accepts-invalid', 'an undefined symbol ID was accepted%s', where)
            self.check_events(got, want, False, where)
            return None, None
        if ok:
            if error is not None:
                violate('rejects-valid', 'flushing complete text raised %s%s', error, where)
            self.check_events(got, want, True, where)
            return ev, outcome
        # Incomplete or invalid.
        if signal == 'END':
            violate('accepts-invalid', 'the reader signals the end of the stream, but the text is not complete%s', where)
        self.check_events(got, want, False, where)
        if error is None:
            violate('accepts-invalid', 'flushing text which is not a complete value delivered %s%s',
                    clip(got[before_flush:]), where)
        # A reader which raised does not deliver anything any more.
        try:
            ev = reader.send(NEXT_EVENT)
        except (StopIteration, IonException):
            return None, None
        violate('event-after-error', 'after an error the reader delivers %s%s', clip(ev), where)

    @staticmethod
    def check_events(got, want, complete, where):
        if complete and got != want:
            violate('wrong-events', 'the text denotes %s, but the reader delivered %s%s', clip(want), clip(got), where)
        if not complete and want[:len(got)] != got:
            violate('wrong-events', 'the text begins with %s, but the reader delivered %s%s', clip(want), clip(got), where)


PROPERTIES = {'C03': TextFlush()}
