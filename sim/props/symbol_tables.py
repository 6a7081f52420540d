import io

from amazon.ion import symbols as S
from amazon.ion.core import IonEvent, IonEventType, IonType
from amazon.ion.writer import blocking_writer
from amazon.ion.writer_binary import binary_writer

from ..core import clip, violate
from ..interrupt import KINDS, Interrupter, pick_line
from ..judge import NotIon, user_of
from ..model import SYSTEM_SYMBOLS, tok_full
from ..pyobjs import STREAM_END
from ..symctx import CatalogModel
from ..threads import Scheduler
from .base import Property

TEXTS = ['a', 'b', 'c', 'A', '', 'name', '$ion', '\u00e9', 'e\u0301', '1', '\uff11', '$10', ' a', 'a ', '\U0001F600', '\ufb01', 'fi',
         '\u212b', '\u00c5', 'imports', 'a\x00b', 'ss', '\u00df', '\u0130', 'i\u0307']


class Broken(Exception):
    """Raised by an iterable which a user hands over."""


class Model(object):
    """What a table must look like."""
    __slots__ = ('kind', 'name', 'version', 'substitute', 'tokens', 'known', 'pinned')

    def __init__(self, kind, name=None, version=None, substitute=False):
        self.kind, self.name, self.version, self.substitute = kind, name, version, substitute
        self.tokens = []
        self.known = {}

    def add(self, text, loc):
        sid = len(self.tokens) + 1
        if self.kind != 'local':
            loc = (self.name, sid)
        self.tokens.append((text, sid, loc))
        if text is not None:
            self.known.setdefault(text, sid)
        return self.tokens[-1]

    def fill(self, imports, texts):
        if self.kind == 'local':
            for i, t in enumerate(SYSTEM_SYMBOLS):
                self.add(t, ('$ion', i + 1))
        for m in imports:
            for text, sid, loc in m.tokens:
                if self.kind == 'local' and m.kind == 'local' and loc is not None and loc[0] == '$ion':
                    continue
                self.add(text, loc)
        for t in texts:
            self.add(t, None)
        return self

    def clone(self):
        m = Model(self.kind, self.name, self.version, self.substitute)
        m.tokens = list(self.tokens)
        m.known = dict(self.known)
        return m


def system_model():
    m = Model('system', '$ion', 1)
    for t in SYSTEM_SYMBOLS:
        m.add(t, None)
    return m


def difference(table, model, texts=()):
    """None, or how the table differs from the model."""
    got = [tok_full(t) for t in table]
    if got != model.tokens:
        for i in range(max(len(got), len(model.tokens))):
            a = got[i] if i < len(got) else '(nothing)'
            b = model.tokens[i] if i < len(model.tokens) else '(nothing)'
            if a != b:
                return 'symbol %d is %s, expected %s' % (i + 1, clip(a), clip(b))
    n = len(got)
    if len(table) != n or table.max_id != n:
        return 'it has %d symbols, len %r, max_id %r' % (n, len(table), table.max_id)
    if (table.name, table.version, bool(table.is_substitute)) != (model.name, model.version, model.substitute):
        return 'it is %r version %r substitute %r' % (table.name, table.version, table.is_substitute)
    for sid in range(1, n + 1) if n < 40 else list(range(1, 15)) + list(range(n - 15, n + 1)):
        if tok_full(table.get(sid)) != model.tokens[sid - 1]:
            return 'the look-up of %d gives %s, expected %s' % (sid, table.get(sid), model.tokens[sid - 1])
    for text in list(texts) + [t for t, _, _ in model.tokens if t is not None][-40:] + TEXTS[:6]:
        sid = model.known.get(text)
        tok = table.get(text)
        want = None if sid is None else model.tokens[sid - 1]
        if (None if tok is None else tok_full(tok)) != want:
            return 'the look-up of %r gives %r, expected %s' % (text, tok, want)
    if table.get(n + 1) is not None or table.get(-1) is not None:
        return 'the look-up of %d or -1 gives a symbol' % (n + 1)
    return None


class Entry(object):
    __slots__ = ('table', 'model', 'owner', 'label')


class SymbolTables(Property):
    ID = 'C16'
    ISOLATED = True
    RUNS = {'quick': 8000, 'thorough': 200000}
    RULE = ('A family of symbol tables (system, shared, placeholder, adapted, local; importing one another) lives through a seeded '
            'history: interning, look-ups by ID and text, iterators kept across changes, adaptation, new tables, writers which '
            'import them, operations which must be rejected, input iterables which fail, interruptions at a line of code; '
            'one client after the other, or two or three simulated threads which own their local tables and share the others, '
            'preempted between lines. Every result is compared with a model of the tables, every symbol ever returned and all '
            'tables are compared again at the end. Non-trivial: a table was used after another one which it imports or '
            'which imports it was used or a fault happened. Distinct by history of operations.')
    STATE_MEASURE = 'distinct (operations with their tables) prefixes'
    TIME_UNIT = 'scheduler steps (operations on tables, thread switches)'
    REAL = ['amazon.ion.symbols', 'amazon.ion.writer_binary', 'amazon.ion.writer', 'amazon.ion.util']
    STUBS = ('users of the tables', 'iterables handed to the tables', 'thread scheduler', 'signal source')
    MUST_HIT = ('rejected-operation', 'failing-iterable', 'interruption', 'thread-switch', 'kept-iterator', 'long-history',
                'writer-with-imports', 'grown-while-iterated', 'table-imports-local')
    ASSUMPTIONS = ('Threads are switched and exceptions arrive between lines, not within one line.',
                   'A local table is changed by one thread only.')

    def run(self, ch, ctx):
        self.ctx = ctx
        self.tokens = []        # (token, what it was)
        self.history = []
        shared = []
        base = Entry()
        base.table, base.model, base.owner, base.label = S.SYSTEM_SYMBOL_TABLE, system_model(), None, 'system'
        shared.append(base)
        for _ in range(ch.draw(4)):
            e = self.create(ch, shared, None, local=False)
            if e is not None:
                shared.append(e)
        threads = ch.chance(1, 4)
        if threads:
            n = ch.range(2, 3)
            plans = [[] for _ in range(n)]
            own = [[] for _ in range(n)]

            def on_switch(a, b, frame):
                ctx.fault('thread-switch')
                ctx.trace('switch', a.index, b.index, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
            sched = Scheduler(ch, ctx, ch.pick([30, 10, 80, 3]), max_lines=400000, on_switch=on_switch)

            def runner(i, k):
                def go():
                    for _ in range(k):
                        self.step(ch, shared, own[i], i, True)
                return go
            for i in range(n):
                sched.spawn(runner(i, ch.range(2, 6)))
            sched.run()
            for t in sched.tasks:
                if t.error is not None:
                    raise t.error[1].with_traceback(t.error[2])
            family = shared + [e for o in own for e in o]
            ctx.nontrivial = True
        else:
            family = shared
            long = ch.chance(1, 15)
            for _ in range(ch.range(40, 160) if long else ch.range(3, 25)):
                self.step(ch, family, family, 0, False)
            if long:
                ctx.fault('long-history')
                self.flood(ch, family)
        for e in family:
            d = difference(e.table, e.model)
            if d is not None:
                violate('table-changed', 'in the end, table %s: %s; history: %s', e.label, d, clip(self.history, 2000))
        for tok, was in self.tokens:
            if tok_full(tok) != was:
                violate('symbol-changed', 'the symbol %s became %s', was, tok_full(tok))
        ctx.nontrivial = ctx.nontrivial or len(family) > 1
        ctx.state(tuple(self.history[:20]))
        ctx.sample = {'history': [clip(repr(h), 120) for h in self.history[:8]], 'tables': len(family)}

    def note(self, *what):
        self.history.append(what)
        self.ctx.trace(*what)
        self.ctx.step()

    def text(self, ch):
        k = ch.draw(8)
        if k < 6:
            return ch.pick(TEXTS)
        return 't%d' % ch.draw(30)

    def imports(self, ch, family):
        return [ch.pick(family) for _ in range(ch.pick([0, 1, 1, 2, 3]))] if ch.draw(2) else []

    def source(self, ch, texts):
        """The symbols of a new table, as some kind of iterable."""
        k = ch.draw(4)
        if k == 0:
            return list(texts)
        if k == 1:
            return tuple(texts)
        return (t for t in texts)

    def create(self, ch, family, owner, local):
        e = Entry()
        e.owner = owner
        e.label = 'table%d' % len(self.history)
        k = 0 if local else ch.pick([1, 1, 2, 3])
        texts = [self.text(ch) if not ch.chance(1, 8) else None for _ in range(ch.draw(5))]
        # Tables of other threads are not stable enough to be imported.
        candidates = [f for f in family if f.owner in (None, owner)]
        imports = self.imports(ch, candidates)
        if any(f.model.kind == 'local' for f in imports):
            self.ctx.fault('table-imports-local')
        given = [f.table for f in imports] if imports or ch.draw(2) else None
        bad = ch.draw(14)
        if bad in (12, 13):
            # The iterable fails, or yields something which is not text.
            def broken():
                for t in texts:
                    yield t
                if bad == 12:
                    raise Broken()
                yield ch.pick([b'x', 5, [], 1.5])
            self.note('create-failing', k, bad)
            self.ctx.fault('failing-iterable')
            try:
                if local:
                    S.local_symbol_table(given, broken())
                else:
                    S.shared_symbol_table('F', 1, broken(), given)
            except (Broken, TypeError):
                return None
            violate('accepted', 'a table was made from an iterable which failed')
        name, version = ch.pick(['T', 'caf\u00e9', 'U']), ch.pick([1, 2, 7])
        if k == 0:
            self.note('create-local', [f.label for f in imports], texts)
            e.table = S.local_symbol_table(given, self.source(ch, texts))
            e.model = Model('local').fill([f.model for f in imports], texts)
        elif k == 1:
            self.note('create-shared', name, version, [f.label for f in imports], texts)
            e.table = S.shared_symbol_table(name, version, self.source(ch, texts), given)
            e.model = Model('shared', name, version).fill([f.model for f in imports], texts)
        elif k == 2:
            size = ch.pick([2, 0, 1, 5, 300])
            self.note('create-placeholder', name, version, size)
            e.table = S.placeholder_symbol_table(name, version, size)
            e.model = Model('shared', name, version, True).fill([], [None] * size)
        else:
            candidates = [f for f in candidates if f.model.kind != 'local']
            if not candidates:
                return None
            f = ch.pick(candidates)
            size = max(0, len(f.model.tokens) + ch.pick([0, -1, 1, 3, -3, 20, -1000]))
            self.note('create-adapted', f.label, version, size)
            e.table = S.substitute_symbol_table(f.table, version, size)
            got = [t[0] for t in f.model.tokens]
            e.model = Model('shared', f.model.name, version, True).fill([], (got + [None] * size)[:size])
        return e

    def check(self, e, texts=()):
        d = difference(e.table, e.model, texts)
        if d is not None:
            violate('table-changed', 'table %s: %s; history: %s', e.label, d, clip(self.history, 2000))

    def keep(self, tok, want, what):
        got = None if tok is None else tok_full(tok)
        if got != want:
            violate('wrong-symbol', '%s gives %s, expected %s; history: %s', what, got, want, clip(self.history, 2000))
        if tok is not None:
            self.tokens.append((tok, got))

    def step(self, ch, family, own, owner, threads):
        ctx = self.ctx
        k = ch.draw(20)
        mine = [e for e in own if e.model.kind == 'local']
        every = family if not threads else family + own
        if k < 2 or not mine:
            e = self.create(ch, every, owner if threads else None, bool(ch.draw(2)) or not mine)
            if e is not None:
                own.append(e)
                self.check(e)
            return
        if k < 8:
            e = ch.pick(mine)
            text = self.text(ch)
            if not threads and ch.chance(1, 6):
                self.interrupted(ch, e, text)
                return
            self.note('intern', e.label, text)
            tok = e.table.intern(text)
            sid = e.model.known.get(text)
            want = e.model.add(text, None) if sid is None else e.model.tokens[sid - 1]
            self.keep(tok, want, 'interning %r in %s' % (text, e.label))
            return
        e = ch.pick(every)
        if k < 11:
            n = len(e.model.tokens)
            sid = ch.pick([1, n, n + 1, 10, 11, n - 1, ch.draw(n + 2), -1, -n, 1 << 40])
            self.note('get', e.label, sid)
            want = e.model.tokens[sid - 1] if 1 <= sid <= n else None
            if sid == 0:
                want = (None, 0, None)
            if ch.draw(2):
                self.keep(e.table.get(sid), want, 'get(%d) of %s' % (sid, e.label))
            else:
                try:
                    tok = e.table[sid]
                except KeyError:
                    tok = None
                self.keep(tok, want, '[%d] of %s' % (sid, e.label))
            return
        if k < 14:
            text = self.text(ch)
            self.note('get', e.label, text)
            sid = e.model.known.get(text)
            want = None if sid is None else e.model.tokens[sid - 1]
            if ch.draw(2):
                tok = e.table.get(text)
            else:
                try:
                    tok = e.table[text]
                except KeyError:
                    tok = None
            self.keep(tok, want, 'look-up of %r in %s' % (text, e.label))
            return
        if k < 16:
            self.rejected(ch, e)
            return
        if k == 16:
            # An iterator which is kept while tables change.
            e = ch.pick(own)
            it = iter(e.table)
            start = len(e.model.tokens)
            pos = 0
            ctx.fault('kept-iterator')
            self.note('iterate', e.label)
            for _ in range(ch.range(1, 4)):
                for _ in range(ch.pick([1, 3, 12, 1000])):
                    tok = next(it, None)
                    if tok is None:
                        if pos < start:
                            violate('wrong-symbol', 'an iterator over %s ended after %d of %d symbols', e.label, pos, start)
                        break
                    if pos >= len(e.model.tokens):
                        violate('wrong-symbol', 'an iterator over %s gave %r after the last symbol', e.label, tok)
                    self.keep(tok, e.model.tokens[pos], 'symbol %d of an iterator over %s' % (pos + 1, e.label))
                    pos += 1
                if tok is None:
                    break
                other = e if e.model.kind == 'local' and ch.draw(2) else ch.pick(mine)
                if other is e:
                    ctx.fault('grown-while-iterated')
                text = 'grow%d' % ch.draw(20)
                tok = other.table.intern(text)
                sid = other.model.known.get(text)
                self.keep(tok, other.model.add(text, None) if sid is None else other.model.tokens[sid - 1], 'interning')
            return
        if k == 17:
            self.writer(ch, every)
            return
        self.note('check', e.label)
        self.check(e)

    def interrupted(self, ch, e, text):
        tool = Interrupter()
        lines = ch.draw(25)
        exc = ch.pick(KINDS)
        before = e.model.clone()
        after = e.model.clone()
        if text not in after.known:
            after.add(text, None)
        how, tok = tool.run(lambda: e.table.intern(text), lines, exc)
        self.note('intern-interrupted', e.label, text, how, tool.where)
        if how == 'done':
            e.model = after
            self.keep(tok, after.tokens[after.known[text] - 1], 'interning')
            return
        self.ctx.fault('interruption')
        a, b = difference(e.table, before, [text]), difference(e.table, after, [text])
        if a is not None and b is not None:
            violate('torn-table', 'after an interruption while %r was interned in %s: %s; if it had been done: %s; history: %s',
                    text, e.label, a, b, clip(self.history, 2000))
        e.model = before if a is None else after

    def rejected(self, ch, e):
        self.ctx.fault('rejected-operation')
        model, table = e.model, e.table
        calls = [
            ('get-bytes', lambda: table.get(b'a')), ('get-none', lambda: table.get(None)), ('get-float', lambda: table.get(1.5)),
            ('placeholder-negative', lambda: S.placeholder_symbol_table('T', 1, -1)),
            ('placeholder-version', lambda: S.placeholder_symbol_table('T', 0, 1)),
            ('shared-version', lambda: S.shared_symbol_table('T', 0, ['q'], [table])),
            ('shared-name', lambda: S.shared_symbol_table(None, 1, ['q'], [table])),
            ('shared-name-bytes', lambda: S.shared_symbol_table(b'T', 1, ['q'], [table])),
            ('local-bytes', lambda: S.local_symbol_table([table], ['q', b'q'])),
            ('system-import', lambda: S.SymbolTable(S.SYSTEM_TABLE_TYPE, [], name='$ion', version=1, imports=[table])),
            ('local-name', lambda: S.SymbolTable(S.LOCAL_TABLE_TYPE, [], name='T', version=1)),
            ('intern-bytes', lambda: table.intern(b'a')), ('intern-none', lambda: table.intern(None)),
            ('intern-int', lambda: table.intern(5)),
        ]
        if model.kind == 'local':
            calls.append(('substitute-local', lambda: S.substitute_symbol_table(table, 1, 1)))
        else:
            calls += [('intern-shared', lambda: table.intern('new')), ('intern-shared-known', lambda: table.intern('a')),
                      ('substitute-version', lambda: S.substitute_symbol_table(table, 0, 1)),
                      ('substitute-negative', lambda: S.substitute_symbol_table(table, 1, -1))] * 2
        name, call = ch.pick(calls)
        self.note('rejected', e.label, name)
        try:
            call()
        except (TypeError, ValueError):
            self.check(e, ['new', 'a', 'q'])
            return
        violate('accepted', '%s was not rejected by %s', name, e.label)

    def writer(self, ch, every):
        """A writer whose table imports shared ones."""
        candidates = [e for e in every if e.model.kind == 'shared' and e.model.name != '$ion' and not any(
            (e is not f and e.model.name == f.model.name and e.model.version == f.model.version) for f in every)]
        imports = [ch.pick(candidates) for _ in range(ch.range(1, 2))] if candidates else []
        if len(imports) == 2 and imports[0] is imports[1]:
            imports.pop()
        self.ctx.fault('writer-with-imports')
        texts = [self.text(ch) for _ in range(ch.range(1, 4))]
        texts += [t for f in imports for t, _, _ in f.model.tokens[:3] if t is not None]
        self.note('write', [f.label for f in imports], texts)
        fp = io.BytesIO()
        w = blocking_writer(binary_writer([f.table for f in imports]), fp)
        w.send(IonEvent(IonEventType.CONTAINER_START, IonType.LIST))
        for t in texts:
            w.send(IonEvent(IonEventType.SCALAR, IonType.SYMBOL, t))
        w.send(IonEvent(IonEventType.CONTAINER_END))
        w.send(STREAM_END)
        catalog = CatalogModel([(f.model.name, f.model.version, [t[0] for t in f.model.tokens]) for f in imports])
        try:
            got = [ev[2] for ev in user_of(fp.getvalue(), True, catalog) if ev[0] == 'V']
        except NotIon as e:
            violate('wrong-output', 'a writer with imports wrote %s: %s', fp.getvalue(), e)
        if got != texts:
            violate('wrong-output', 'a writer with imports wrote %s, expected %s', got, texts)
        for f in imports:
            self.check(f)

    def flood(self, ch, family):
        """Many symbols in one table."""
        mine = [e for e in family if e.model.kind == 'local']
        if not mine:
            return
        e = ch.pick(mine)
        n = ch.pick([70, 130, 300, 1100])
        pre = ch.pick(['s', '\u00e9', 'long symbol text ' * 5])
        self.note('flood', e.label, n)
        for i in range(n):
            text = '%s%d' % (pre, ch.draw(n * 2) if i % 3 == 0 else i)
            sid = e.model.known.get(text)
            want = e.model.add(text, None) if sid is None else e.model.tokens[sid - 1]
            self.keep(e.table.intern(text), want, 'interning %r' % text)
        for i in range(0, n, 7):
            text = '%s%d' % (pre, i)
            sid = e.model.known.get(text)
            self.keep(e.table.get(text), None if sid is None else e.model.tokens[sid - 1], 'look-up of %r' % text)


PROPERTIES = {'C16': SymbolTables()}
