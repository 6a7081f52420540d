from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.symbols import shared_symbol_table

from ..binenc import IVM, encode_value
from ..core import clip, violate
from ..drivers import REJECT, chunks_of, gen_cuts
from ..model import CONTAINERS, N, Sid, Unk, ZERO, canon_event, gen_node, shape, swarm_cfg, tok_full
from ..plan import Item, map_event
from ..pyvals import tree_of_py, trees_of_events, user_events
from ..symctx import TABLE_NAMES, TABLE_POOL, UNDEFINED, ManagedModel, ModelError, gen_catalog, gen_lst
from ..textgen import Style, render_text
from .base import READERS, SIMPLE, Property

LST_TEXTS = ('$ion_symbol_table', 'imports', 'symbols', 'name', 'version', 'max_id')


def odd_import(ch, catalog):
    """An import with fields of unexpected types, missing or repeated information."""
    kids = []
    name = ch.pick(TABLE_NAMES + ['nowhere'])
    kids.append(('name', ch.pick([N('string', name), N('string', name, ('a',)), N('symbol', 'name'), N('string', null=True),
                                  N('string', ''), N('string', '$ion')])))
    if ch.draw(2):
        kids.append(('version', ch.pick([N('int', 1), N('int', 2), N('int', 0), N('int', -1), N('int', null=True),
                                         N('string', '1'), N('decimal', (0, 1, 0)), N('int', 7)])))
    if ch.draw(3):
        kids.append(('max_id', ch.pick([N('int', 3), N('int', 0), N('int', -1), N('int', null=True), N('string', '3'),
                                        N('null'), N('int', 5), N('int', 1)])))
    if ch.chance(1, 3):
        kids.reverse()
    return N('struct', None, (), kids)


def odd_value(ch):
    """User values which look like system values."""
    inner = [('symbols', N('list', None, (), [(None, N('string', 'evil'))]))]
    return ch.pick([
        N('list', None, (), [(None, N('struct', None, ('$ion_symbol_table',), inner))]),
        N('struct', None, ('a', '$ion_symbol_table'), inner),
        N('struct', None, ('$ion_shared_symbol_table',), inner),
        N('list', None, ('$ion_symbol_table',), [(None, N('string', 'evil'))]),
        N('sexp', None, ('$ion_symbol_table',), []),
        N('symbol', '$ion_symbol_table', ()),
        N('symbol', '$ion_1_0', ('a',)),
        N('string', '$ion_1_0', ()),
        N('list', None, (), [(None, N('symbol', '$ion_1_0'))]),
        N('struct', None, (), [('$ion_symbol_table', N('struct', None, ('$ion_symbol_table',), inner))]),
        N('int', 4, ('$ion_symbol_table',)),
        N('symbol', '$ion_1_0', ()),
        N('symbol', '$ion', ()),
    ])


class SymbolContext(Property):
    ID = 'C06'
    RUNS = {'quick': 40000, 'thorough': 600000}
    RULE = ('A random history of version markers, symbol tables (fresh, appended, importing), values using arbitrary symbol IDs, '
            'user values resembling system values, and registrations in the catalog while the stream is read. Non-trivial: at '
            'least one symbol table takes effect before a value that uses it. Distinct by (history shape, deliveries).')
    STATE_MEASURE = 'distinct (sequence of context sizes and item kinds, outcome) tuples'
    REAL = READERS + SIMPLE
    STUBS = ('producer of the stream (independent encoder and renderer)', 'transport', 'administrator of the catalog')
    MUST_HIT = ('undefined-sid', 'import-unsatisfied', 'catalog-changed-while-reading', 'append', 'import', 'version-marker',
                'read-late', 'undefined-sid-in-lst')
    ASSUMPTIONS = ('The model of symbol contexts implements Ion 1.0 and the documented catalog rules.',)

    def run(self, ch, ctx):
        binary = bool(ch.draw(2))
        is_unicode = not binary and bool(ch.draw(2))
        cfg = swarm_cfg(ch)
        cfg['symbols'] = ['a', 'b', 'name', 'imp1', 'imp2', 'foo', 'x1', 'symbols', '', 'caf\u00e9', 'zz']
        cfg['scalars'] = ch.pick([['symbol', 'int'], ['symbol'], ['symbol', 'string', 'int', 'null']])
        cfg['ann'] = ch.pick([3, 1, 0])
        catalog = gen_catalog(ch)
        built = catalog.build()
        model = ManagedModel(catalog)
        style = Style(ch)
        style.long = 0
        undefined_rate = ch.pick([0, 30, 8])
        parts = []              # (data, [expected user events]) or ('register', table)
        dead = None             # why nothing more can be read
        history = []
        tables_then_values = 0
        n_items = ch.range(1, 9)
        if cfg['marathon']:
            ctx.fault('long-history')
            cfg.update(max_depth=1, max_kids=2)
            n_items = ch.range(20, 60)
        k = 0
        while k < n_items or (k == 0):
            kind = ch.weighted([(4, 'val'), (4, 'lst'), (1, 'ivm'), (2, 'odd'), (1, 'reg')])
            if k == 0 and binary:
                kind = 'ivm'
            k += 1
            if kind == 'reg':
                name = ch.pick(TABLE_NAMES + ['nowhere'])
                versions = catalog.tables.get(name, {})
                version = max(versions) + ch.range(1, 2) if versions else ch.range(1, 2)
                texts = [ch.pick(TABLE_POOL + ['r%d' % k, None]) for _ in range(ch.range(0, 4))]
                catalog.tables.setdefault(name, {})[version] = texts
                parts.append(('register', (name, version, texts)))
                history.append('reg')
                continue
            before = model.ctx
            if kind == 'ivm':
                data = IVM if binary else '$ion_1_0'
                raw = [('IVM', (1, 0), 0)]
                ctx.fault('version-marker')
            else:
                if kind == 'lst':
                    need = set(ch.pick(cfg['symbols']) for _ in range(ch.draw(4)))
                    need.discard('$ion_1_0')
                    node = gen_lst(ch, model.ctx, catalog_or_safe(catalog), need)
                    if ch.chance(1, 6):
                        imports = N('list', None, (), [(None, odd_import(ch, catalog)) for _ in range(ch.range(1, 2))])
                        node.kids = [(f, v) for f, v in node.kids if f != 'imports'] + [('imports', imports)]
                    if undefined_rate and ch.chance(1, undefined_rate + 12):
                        node.kids.insert(ch.draw(len(node.kids) + 1),
                                         (Sid(model.ctx.size() + ch.range(1, 3)), N('int', 1)))
                        ctx.fault('undefined-sid-in-lst')
                    ctx.fault('append' if any(v.t == 'symbol' and v.v == '$ion_symbol_table' for f, v in node.kids if f == 'imports') else
                              'import' if any(f == 'imports' for f, _ in node.kids) else 'fresh-table')
                elif kind == 'odd':
                    node = odd_value(ch)
                else:
                    node = gen_node(ch, cfg, 0, True)
                self.remap(ch, node, model.ctx, binary, kind, undefined_rate, 0)
                data, raw = self.render(ch, node, model.ctx, binary, style)
            expected = []
            for ev in raw:
                try:
                    got = model.feed_lazily(ev)
                except ModelError as e:
                    dead = str(e)
                    break
                for g in got:
                    if UNDEFINED in g[2:5]:
                        ctx.fault('undefined-sid')
                expected.extend(got)
            if not binary:
                data = data + ch.pick(['\n', ' ', ' /*c*/ '])
            parts.append((data, expected))
            history.append((kind, model.ctx.size(), len(expected)))
            if kind == 'val' and before.size() > 9:
                tables_then_values += 1
            if dead is not None:
                if 'SID' not in dead:
                    ctx.fault('import-unsatisfied')
                break
        dynamic = any(p[0] == 'register' for p in parts)
        if dynamic:
            ctx.fault('catalog-changed-while-reading')
        for p in parts:
            ctx.trace(repr(p))
        expected = [e for p in parts if p[0] != 'register' for e in p[1]]
        whole = (b'' if binary else '').join(p[0] for p in parts if p[0] != 'register')
        where = ' [history %s; stream %s; catalog %s]' % (clip(history, 300), clip(repr(whole), 600), clip(catalog.all(), 200))
        if not dynamic and ch.chance(1, 4):
            self.load(ctx, whole, binary, is_unicode, built, expected, dead, where)
        else:
            self.read(ch, ctx, parts, binary, is_unicode, built, expected, dead, where)
        if tables_then_values:
            ctx.nontrivial = True
        ctx.state(history, dead is not None, binary)
        ctx.sample = {'history': [h if isinstance(h, str) else list(h) for h in history], 'dead': dead,
                      'stream': clip(repr(whole), 200)}

    def remap(self, ch, node, sctx, binary, kind, undefined_rate, depth):
        """Replaces tokens by symbol IDs, of which some have another meaning or none."""
        def tok(t, structural):
            if isinstance(t, Sid):
                return t
            sids = sctx.sids_of(t)
            if structural or kind == 'odd':
                if not sids and binary:
                    return Sid(ch.range(0, sctx.size()))
                return Sid(ch.pick(sids)) if sids and (binary or ch.draw(3) == 0) else t
            if undefined_rate and kind != 'lst' and ch.chance(1, undefined_rate):
                return Sid(sctx.size() + ch.pick([1, 2, 3, 100, 10 ** 6]))
            if not binary and isinstance(t, str) and ch.draw(2):
                return t
            if sids and ch.draw(2):
                return Sid(ch.pick(sids))
            return Sid(ch.range(0, sctx.size()))
        structural = kind == 'lst'
        node.ann = tuple(tok(a, structural) for a in node.ann)
        if node.t == 'symbol' and not node.null:
            node.v = tok(node.v, structural)
        if node.kids:
            node.kids = [(None if f is None else tok(f, structural),
                          self.remap(ch, v, sctx, binary, kind, undefined_rate, depth + 1)) for f, v in node.kids]
        if kind == 'val' and depth == 0 and node.t == 'struct' and node.ann and \
                (node.ann[0] == '$ion_symbol_table' or
                 isinstance(node.ann[0], Sid) and 0 < node.ann[0] <= sctx.size() and
                 sctx.resolve(node.ann[0]) == '$ion_symbol_table'):
            node.ann = (Sid(4),) + node.ann
        return node

    @staticmethod
    def render(ch, node, sctx, binary, style):
        if binary:
            data, evs = encode_value(node, int, ch)
            return data, [e if e[0] == 'E' else map_event(e, lambda t: (None, int(t), None)) for e, _ in evs]
        r = render_text([Item('val' if False else 'lst', node, sctx)], ch, style)
        return r.data, [e for e, _ in r.raw]

    @staticmethod
    def check_event(ev, want, where):
        """Compares an event with what it must be, attribute by attribute. False if an attribute is undefined."""
        if UNDEFINED not in want[2:5]:
            got = canon_event(ev, tok_full)
            if got != want:
                violate('wrong-resolution', 'the reader delivered %s, the symbol context says %s%s', clip(got), clip(want), where)
            return
        for i, name in ((2, 'value'), (3, 'field_name'), (4, 'annotations')):
            for attempt in range(2):
                try:
                    v = getattr(ev, name)
                except IonException:
                    if want[i] != UNDEFINED:
                        violate('rejects-valid', 'accessing %s of %s raises%s', name, clip(want), where)
                    continue
                if want[i] == UNDEFINED:
                    violate('undefined-accepted', 'the %s of an event has an undefined symbol ID and is reported as %s%s', name,
                            clip(v), where)

    def read(self, ch, ctx, parts, binary, is_unicode, built, expected, dead, where):
        reader = managed_reader(binary_reader() if binary else text_reader(is_unicode=is_unicode), built)
        late = bool(ch.draw(2))
        if late:
            ctx.fault('read-late')
        # Deliveries: the stream is cut anywhere, but a registration happens exactly between two items.
        runs = [[]]
        for p in parts:
            if p[0] == 'register':
                runs.append(p[1])
                runs.append([])
            else:
                runs[-1].append(p[0])
        held = []
        n = 0
        error = None
        try:
            ev = reader.send(NEXT_EVENT)
            self.last = ev
            for run in runs:
                if isinstance(run, tuple):
                    built.register(shared_symbol_table(run[0], run[1], run[2]))
                    continue
                data = (b'' if binary else '').join(run)
                if not binary and not is_unicode:
                    data = data.encode('utf-8')
                for chunk in chunks_of(data, gen_cuts(ch, len(data))):
                    ctx.step()
                    ev = reader.send(read_data_event(chunk))
                    n = self.drain(ctx, reader, ev, late, held, n, expected, where)
            if not binary and not reader_ended(self.last):
                ev = reader.send(NEXT_EVENT)
                n = self.drain(ctx, reader, ev, late, held, n, expected, where)
        except IonException as e:
            error = e
            n = len(held)
        ctx.trace('read', n, type(error).__name__)
        for ev, want in held:
            self.check_event(ev, want, where)
        if error is not None:
            may = dead is not None and n == len(expected)
            if n < len(expected) and UNDEFINED in expected[n][2:5]:
                may = True
            if not may:
                violate('rejects-valid', 'after %d events the reader raised %s, but the stream continues with %s%s', n, error,
                        clip(expected[n:n + 1]), where)
            try:
                ev = reader.send(NEXT_EVENT)
            except (StopIteration, IonException):
                return
            violate('event-after-error', 'after an error the reader delivers %s%s', clip(ev), where)
        if dead is not None:
            violate('undefined-accepted', 'the reader accepted a stream which is not defined (%s)%s', dead, where)
        if n != len(expected):
            violate('lost-events', 'the reader delivered %d of %d user events%s', n, len(expected), where)

    def drain(self, ctx, reader, ev, late, held, n, expected, where):
        while not ev.event_type.is_stream_signal:
            if n >= len(expected):
                violate('wrong-events', 'the reader delivered a surplus event %s%s', clip(ev.event_type), where)
            ctx.trace('event', n)
            held.append((ev, expected[n]))
            if not late:
                self.check_event(ev, expected[n], where)
            n += 1
            ev = reader.send(NEXT_EVENT)
        self.last = ev
        return n

    def load(self, ctx, whole, binary, is_unicode, built, expected, dead, where):
        if not binary and not is_unicode:
            whole = whole.encode('utf-8')
        bad = dead is not None or any(UNDEFINED in e[2:5] for e in expected)
        try:
            got = [tree_of_py(v) for v in simpleion.loads(whole, catalog=built, single_value=False)]
        except IonException as e:
            if not bad:
                violate('rejects-valid', 'load rejects a valid stream: %s%s', e, where)
            return
        if bad:
            violate('undefined-accepted', 'load accepted a stream with undefined symbols (%s)%s', dead, where)
        want = trees_of_events(user_events(expected))
        if got != want:
            violate('wrong-resolution', 'load returned %s, the symbol context says %s%s', clip(got), clip(want), where)


def reader_ended(ev):
    return ev.event_type is IonEventType.STREAM_END


def catalog_or_safe(catalog):
    """gen_lst asks what an import provides; imports that cannot be satisfied provide nothing."""
    return _Safe(catalog)


class _Safe(object):
    def __init__(self, catalog):
        self.catalog = catalog

    def all(self):
        return self.catalog.all()

    def resolve(self, *args):
        try:
            return self.catalog.resolve(*args)
        except ModelError:
            return []


PROPERTIES = {'C06': SymbolContext()}
