import sys

from amazon.ion import symbols as S
from amazon.ion.core import IonEventType
from amazon.ion.exceptions import CannotSubstituteTable
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from ..actors import ERRORS
from ..core import HarnessError, clip, violate
from ..model import tok_full
from ..threads import Scheduler
from .base import Property

NAMES = ['T', 'tbl.a', 'caf\u00e9', 'a"b', 'x']
VERSIONS = [1, 2, 3, 9, 10, 11, 100, 1 << 33]
SHOW = 6


class Table(object):
    __slots__ = ('index', 'name', 'version', 'texts', 'built', 'source')


def describe(table):
    """What can be seen of a table."""
    tokens = tuple([tok_full(t) for t in table])
    by_text = []
    for text in sorted(set(t[0] for t in tokens if t[0] is not None)):
        by_text.append((text, tok_full(table.get(text))))
    by_sid = tuple([tok_full(table[i]) for i in range(1, len(tokens) + 1)])
    return (table.name, table.version, bool(table.is_substitute), table.max_id, len(table), bool(table.table_type.is_shared),
            tokens, by_sid == tokens, tuple(by_text))


def described(name, version, texts, substitute):
    """The same, of the model."""
    tokens = tuple([(t, i + 1, (name, i + 1)) for i, t in enumerate(texts)])
    first = {}
    for t in tokens:
        if t[0] is not None:
            first.setdefault(t[0], t)
    return (name, version, substitute, len(texts), len(texts), True, tokens, True, tuple((k, first[k]) for k in sorted(first)))


class Op(object):
    __slots__ = ('task', 'kind', 'cat', 'args', 'call', 'ret', 'result')

    def __repr__(self):
        return '%s(%s)@%s[%s..%s] -> %s' % (self.kind, ', '.join(repr(a) for a in self.args), self.cat, self.call, self.ret,
                                            clip(self.result, 160))


class Catalogs(object):
    """The sequential specification. A state is a frozenset of (catalog, name, version, table number)."""

    def __init__(self, tables):
        self.tables = tables

    def lookup(self, state, cat, name, version, max_id):
        """('table', number) or ('texts', texts) or ('error', type)"""
        versions = dict((v, i) for c, n, v, i in state if c == cat and n == name)
        if version in versions:
            i = versions[version]
            if max_id is None or len(self.tables[i].texts) == max_id:
                return 'table', i
            texts = self.tables[i].texts
        elif max_id is None:
            return 'error', 'CannotSubstituteTable'
        elif versions:
            texts = self.tables[versions[max(versions)]].texts
        else:
            texts = []
        return 'texts', (list(texts) + [None] * max_id)[:max_id]

    def apply(self, state, op):
        """(result, next state)"""
        if op.kind == 'register':
            i = op.args[0]
            t = self.tables[i]
            return 'ok', frozenset([e for e in state if e[:3] != (op.cat, t.name, t.version)] +
                                   [(op.cat, t.name, t.version, i)])
        if op.kind == 'register-bad':
            return ('error', 'reject'), state
        if op.kind == 'resolve-bad':
            return ('error', 'reject'), state
        name, version, max_id = op.args
        kind, value = self.lookup(state, op.cat, name, version, max_id)
        if kind == 'error':
            return ('error', value), state
        if op.kind == 'resolve':
            if kind == 'table':
                return ('table', described(name, version, self.tables[value].texts, False)), state
            return ('table', described(name, version, value, True)), state
        texts = self.tables[value].texts if kind == 'table' else value
        out = []
        for i in range(SHOW):
            out.append((texts[i], 10 + i, (name, i + 1)) if i < len(texts) else 'UNDEFINED')
        return ('tokens', tuple(out)), state


def linearize(spec, ops, state):
    """Wing and Gong: an order of the operations which respects real time and explains all results, or None."""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, state)]
    best = (0, state)
    while stack:
        done, state = stack.pop()
        if done == full:
            return None
        if (done, state) in seen:
            continue
        seen.add((done, state))
        if len(seen) > 200000:
            raise HarnessError('too many states')
        if bin(done).count('1') > bin(best[0]).count('1'):
            best = (done, state)
        first_ret = min(ops[i].ret for i in range(n) if not done & (1 << i))
        for i in range(n):
            if done & (1 << i) or ops[i].call > first_ret:
                continue
            result, nxt = spec.apply(state, ops[i])
            if result == ops[i].result:
                if done | (1 << i) == full:
                    return None
                stack.append((done | (1 << i), nxt))
    return best


class Catalog(Property):
    ID = 'C15'
    ISOLATED = True
    RUNS = {'quick': 8000, 'thorough': 200000}
    RULE = ('Two to four simulated threads, preempted between any two lines of library code, register tables (new, the same '
            'name and version again, tables which must be rejected), look tables up (exact, other version, other size, no '
            'size, invalid requests) and read streams which import from one or two shared catalogs; or one thread does so in a '
            'long history with many names and versions. All results together with look-ups of everything at the end must '
            'have a sequential explanation in a model of the catalog which respects the order of calls and returns (Wing and '
            'Gong search). Tables must not change afterwards. Non-trivial: two calls overlapped, or a long history. Distinct '
            'by (calls and results, first switches).')
    STATE_MEASURE = 'distinct (calls with results, first switches) tuples'
    TIME_UNIT = 'scheduler steps (thread switches and catalog calls)'
    REAL = ['amazon.ion.symbols', 'amazon.ion.reader_managed', 'amazon.ion.reader_text', 'amazon.ion.reader', 'amazon.ion.core',
            'amazon.ion.util']
    STUBS = ('users of the catalog', 'thread scheduler (real threads, of which only the one with the baton runs)')
    MUST_HIT = ('thread-switch', 'overlapping-calls', 'rejected-registration', 'rejected-look-up', 'replaced-registration',
                'read-through-catalog', 'long-history', 'two-catalogs')
    ASSUMPTIONS = ('Threads are switched between lines, not within one line.',)

    def run(self, ch, ctx):
        long = ch.chance(1, 12)
        names = NAMES[:ch.pick([1, 2, 3, 5])]
        if long:
            ctx.fault('long-history')
            names = names + ['n%d' % i for i in range(ch.pick([0, 5, 60, 300]))]
        versions = VERSIONS[:ch.pick([2, 3, 5, 8])]
        cats = [S.SymbolTableCatalog() for _ in range(2 if ch.chance(1, 5) else 1)]
        if len(cats) > 1:
            ctx.fault('two-catalogs')
        tables = []

        def new_table():
            t = Table()
            t.index = len(tables)
            t.name, t.version = ch.pick(names), ch.pick(versions)
            k = ch.pick([2, 1, 0, 3, 5]) if not ch.chance(1, 10) else ch.pick([8, 40])
            t.texts = ['s%d' % i if ch.chance(1, 3) else 't%d_%d' % (t.index, i) for i in range(k)]
            if k and ch.chance(1, 4):
                t.texts[ch.draw(k)] = ch.pick([None, 's0', ''])
            t.source = None
            if k and ch.chance(1, 6):
                t.source = ch.draw(k + 1)
            t.built = None
            tables.append(t)
            return t.index

        def build(i):
            t = tables[i]
            if t.built is None:
                if t.source is None:
                    t.built = S.shared_symbol_table(t.name, t.version, list(t.texts))
                else:
                    base = S.shared_symbol_table('base', 1, t.texts[:t.source])
                    t.built = S.shared_symbol_table(t.name, t.version, t.texts[t.source:], imports=[base])
            return t.built

        def gen_request():
            name = ch.pick(names)
            version = ch.pick(versions)
            if ch.chance(1, 6):
                version += ch.draw(3)
            return name, version, ch.pick([2, None, 1, 0, 3, 4, 5]) if not long else ch.pick([2, None, 1, 0, 3, 4, 5, 9, 40])

        def gen_op():
            cat = ch.draw(len(cats))
            k = ch.draw(12)
            if k < 4:
                again = [i for i in range(len(tables))]
                i = ch.pick(again) if again and ch.chance(1, 5) else new_table()
                return 'register', cat, (i,)
            if k < 9:
                return 'resolve', cat, gen_request()
            if k < 10:
                return 'read', cat, gen_request()
            if k == 10:
                return 'register-bad', cat, (ch.pick(['local', 'system', 'substitute', 'substitute-known', 'none']),
                                             ch.pick(names), ch.pick(versions))
            return 'resolve-bad', cat, ch.pick([(b'T', 1, 1), (names[0], 0, 1), (names[0], -1, None), (names[0], 1, -1),
                                                (names[0], 'x', 1), (None, 1, 1), (names[0], None, 1), (5, 1, 1)])
        n_tasks = 1 if long else ch.range(2, 4)
        prologue = [gen_op() for _ in range(ch.draw(4))]
        total = ch.range(20, 150) if long else 0
        plans = [[gen_op() for _ in range(total or ch.range(1, 4))] for _ in range(n_tasks)]
        for i in range(len(tables)):
            build(i)
        ctx.trace('plans', prologue, plans)

        clock = [0]
        history = []
        seen_tables = []

        def perform(task, kind, cat, args):
            op = Op()
            op.task, op.kind, op.cat, op.args = task, kind, cat, args
            catalog = cats[cat]
            built = None
            if kind == 'register':
                built = build(args[0])
            elif kind == 'register-bad':
                built = self.bad_table(args)
                ctx.fault('rejected-registration')
            op.result = None
            op.ret = 1 << 60
            op.call = clock[0]
            clock[0] += 1
            history.append(op)
            ctx.step()
            try:
                if kind in ('register', 'register-bad'):
                    catalog.register(built)
                    result = 'ok'
                elif kind in ('resolve', 'resolve-bad'):
                    result = catalog.resolve(*args)
                else:
                    ctx.fault('read-through-catalog')
                    result = self.read(catalog, args)
            except CannotSubstituteTable:
                result = ('error', 'CannotSubstituteTable')
            except (TypeError, ValueError, AttributeError) as e:
                if kind not in ('register-bad', 'resolve-bad'):
                    raise
                result = ('error', 'reject')
            op.ret = clock[0]
            clock[0] += 1
            tracer = sys.gettrace()
            sys.settrace(None)
            if isinstance(result, S.SymbolTable):
                seen_tables.append((result, describe(result)))
                result = ('table', seen_tables[-1][1])
            sys.settrace(tracer)
            op.result = result
            if kind == 'resolve-bad':
                ctx.fault('rejected-look-up')

        for kind, cat, args in prologue:
            perform(-1, kind, cat, args)
        prefix = []
        if n_tasks == 1:
            for kind, cat, args in plans[0]:
                perform(0, kind, cat, args)
            ctx.nontrivial = True
        else:
            def on_switch(a, b, frame):
                if len(prefix) < 10:
                    prefix.append((a.index, b.index, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
                ctx.fault('thread-switch')
                ctx.trace('switch', a.index, b.index, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
            sched = Scheduler(ch, ctx, ch.pick([30, 12, 80, 5, 300]), max_lines=400000, on_switch=on_switch)

            def runner(i):
                def go():
                    for kind, cat, args in plans[i]:
                        perform(i, kind, cat, args)
                return go
            for i in range(n_tasks):
                sched.spawn(runner(i))
            sched.run()
            for t in sched.tasks:
                if t.error is not None:
                    raise t.error[1].with_traceback(t.error[2])
        # What the catalogs hold in the end.
        wanted = {}
        for op in history:
            if op.kind in ('resolve', 'read'):
                wanted.setdefault((op.cat, op.args[0], op.args[1]), None)
            elif op.kind == 'register':
                wanted.setdefault((op.cat, tables[op.args[0]].name, tables[op.args[0]].version), None)
            elif op.kind == 'register-bad' and op.args[0] != 'none':
                wanted.setdefault((op.cat, op.args[1], op.args[2]), None)
        for cat, name, version in wanted:
            perform(99, 'resolve', cat, (name, version, None))
        for cat, name in sorted(set(w[:2] for w in wanted)):
            perform(99, 'resolve', cat, (name, 77, 6))
        spec = Catalogs(tables)
        replaced = set()
        for op in history:
            if op.kind == 'register':
                t = tables[op.args[0]]
                if (op.cat, t.name, t.version) in replaced:
                    ctx.fault('replaced-registration')
                replaced.add((op.cat, t.name, t.version))
        for a in history:
            if a.task >= 0 and any(b.task >= 0 and b.task != a.task and a.call < b.call < a.ret for b in history):
                ctx.fault('overlapping-calls')
                ctx.nontrivial = True
        for op in history:
            ctx.trace('op', repr(op))
        # The sequential parts are decided in order, the concurrent part by search.
        best = linearize(spec, history, frozenset()) if n_tasks > 1 else self.in_order(spec, history)
        if best is not None:
            done, state = best
            left = [op for i, op in enumerate(history) if not done & (1 << i)]
            op = left[0]
            violate('not-linearizable', 'no order of the calls explains the results; after the %d calls which can be '
                    'explained: %s, where the model gives %s; the calls: %s', bin(done).count('1'), repr(op),
                    clip(spec.apply(state, op)[0], 300), clip([repr(o) for o in history], 3000))
        for table, before in seen_tables:
            if describe(table) != before:
                violate('table-changed', 'a table which the catalog returned changed from %s to %s', clip(before),
                        clip(describe(table)))
        for t in tables:
            if t.built is not None and describe(t.built) != described(t.name, t.version, t.texts, False):
                violate('table-changed', 'a registered table is %s, built from %s', clip(describe(t.built)), clip(t.texts))
        ctx.state(tuple((op.task, op.kind, op.args) for op in history[:12]), tuple(prefix))
        ctx.sample = {'calls': [clip(repr(op), 120) for op in history[:6]], 'threads': n_tasks}

    def in_order(self, spec, history):
        state = frozenset()
        for i, op in enumerate(history):
            result, nxt = spec.apply(state, op)
            if result != op.result:
                return (1 << i) - 1, state
            state = nxt
        return None

    def bad_table(self, args):
        kind, name, version = args
        if kind == 'local':
            return S.local_symbol_table(symbols=['l1', 'l2'])
        if kind == 'system':
            return S.SYSTEM_SYMBOL_TABLE
        if kind == 'substitute':
            return S.placeholder_symbol_table(name, version, 3)
        if kind == 'substitute-known':
            return S.substitute_symbol_table(S.shared_symbol_table(name, version, ['w1', 'w2']), version, 3)
        return None

    def read(self, catalog, args):
        name, version, max_id = args
        text = '$ion_symbol_table::{imports:[{name:"%s", version:%d%s}]} [%s] ' % (
            name.replace('"', '\\"'), version, '' if max_id is None else ', max_id:%d' % max_id,
            ', '.join('$%d' % (10 + i) for i in range(SHOW)))
        reader = managed_reader(text_reader(is_unicode=True), catalog)
        reader.send(NEXT_EVENT)
        ev = reader.send(read_data_event(text))
        out = []
        while not ev.event_type.is_stream_signal:
            if ev.event_type is IonEventType.SCALAR:
                try:
                    out.append(tok_full(ev.value))
                except ERRORS:
                    out.append('UNDEFINED')
            ev = reader.send(NEXT_EVENT)
        return 'tokens', tuple(out)


PROPERTIES = {'C15': Catalog()}
