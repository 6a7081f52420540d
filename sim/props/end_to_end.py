import copy
import enum
import io
import pickle
from collections import OrderedDict
from datetime import datetime, timedelta, tzinfo
from decimal import Decimal

from amazon.ion import simpleion
from amazon.ion.core import IonEventType, IonType, Timestamp
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.simple_types import IonPyDict, IonPyList, IonPyNull, IonPySymbol
from amazon.ion.symbols import SymbolToken, placeholder_symbol_table, shared_symbol_table
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .. import env
from ..actors import scribble
from ..core import clip, violate
from ..drivers import REJECT, chunks_of, first_difference, gen_cuts, iterate_source
from ..files import SimSource, SimTextSource
from ..judge import EMPTY, NotIon, user_of
from ..model import CONTAINERS, N, SECOND, Unk, ZERO, canon_event, gen_node, shape, stream_events, swarm_cfg, tok_text
from ..outputs import Cut, Flaw, SimOutput
from ..pyobjs import ION_TYPES, IVM_EVENT, STREAM_END, WRAPPERS, events_for_writer, grouped, plain_ok, py_obj, scalar_obj, \
    token_obj
from ..pyvals import field_key, tree_of_node, tree_of_py
from ..symctx import SYSTEM, CatalogModel, gen_catalog
from .base import READERS, SIMPLE, WRITERS, Property
from .isolation import has_unk
from .writer_flush import INDENTS, gen_imports, use_imported_symbols

# --- Python values which are more than the built-in types ---------------------------------------------------------------


class OddInt(int):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__

    def __format__(self, spec):
        return 'odd'


class OddFloat(float):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__

    def __format__(self, spec):
        return 'odd'


class OddDecimal(Decimal):
    def __repr__(self):
        return 'odd'

    def __str__(self, *a, **kw):
        return 'odd'

    def __format__(self, *a, **kw):
        return 'odd'


class OddText(str):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__

    def __format__(self, spec):
        return 'odd'


class OddBytes(bytes):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__


class OddList(list):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__


class OddTuple(tuple):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__


class OddDict(dict):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__


class OddDatetime(datetime):
    def __repr__(self):
        return 'odd'
    __str__ = __repr__

    def isoformat(self, *a, **kw):
        return 'odd'


class YearlyZone(tzinfo):
    """A zone whose offset was changed by law."""

    def __init__(self, year, offset, otherwise):
        self.year, self.offset, self.otherwise = year, offset, otherwise

    def utcoffset(self, dt):
        return timedelta(minutes=self.offset if dt is not None and dt.year == self.year else self.otherwise)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'odd'


def odd_scalar(node, ch):
    """A plain Python value with the meaning of the node, of a class of the user's."""
    t, v = node.t, node.v
    if t == 'int':
        return enum.IntEnum('Level', {'HIGH': v}).HIGH if ch.draw(2) else OddInt(v)
    if t == 'float':
        return OddFloat(v)
    if t == 'decimal':
        return OddDecimal((v[0], tuple(int(c) for c in str(v[1])), v[2]))
    if t == 'string':
        if ch.draw(3) == 0:
            return enum.Enum('Name', {'FIRST': v}, type=str).FIRST
        return OddText(v)
    if t == 'blob':
        return OddBytes(v)
    if t == 'timestamp':
        y, mo, d, h, mi, s, frac, p, off = v
        if p == SECOND and (frac is None or frac[1] == -6 or frac == (0, 0)):
            zone = None if off is None else YearlyZone(y, off, ch.pick([0, 61, -61, 720]))
            us = 0 if frac is None else frac[0]
            if frac is not None or ch.draw(2):
                # Python has no precision below the second: a plain datetime counts microseconds.
                if frac is None:
                    return Timestamp(y, mo, d, h, mi, s, tzinfo=zone)
                return OddDatetime(y, mo, d, h, mi, s, us, zone)
        return scalar_obj(node, ch)
    return None


class Maker(object):
    """Makes Python objects of model values: wrappers, plain values, users' subclasses, shared objects."""

    def __init__(self, ch, ctx, tuple_as_sexp, known, oddness):
        self.ch, self.ctx, self.sexp, self.known, self.oddness = ch, ctx, tuple_as_sexp, known, oddness
        self.made = {}

    def make(self, node, wrap=False):
        ch = self.ch
        key = (id(node), wrap)
        if key in self.made and ch.draw(2):
            self.ctx.fault('shared-object')
            return self.made[key][1]
        obj = self._make(node, wrap)
        self.made[key] = (node, obj)
        return obj

    def _make(self, node, wrap):
        ch = self.ch
        t = node.t
        plain = plain_ok(node, self.sexp) and not wrap
        if node.kids is not None and not node.null:
            anns = tuple(token_obj(a, ch, False, self.known) for a in node.ann)
            plain = plain and ch.draw(3) < 2
            odd = self.oddness and ch.draw(self.oddness) == 0
            if t == 'struct':
                pairs = [(f, self.make(k, f == ZERO)) for f, k in node.kids]
                if plain:
                    cls = ch.pick([OddDict, OrderedDict]) if odd else dict
                    obj = cls()
                    for f, v in pairs:
                        obj[OddText(f) if odd and ch.draw(3) == 0 else token_obj(f, ch)] = v
                    return obj
                obj = IonPyDict()
                obj.ion_type = IonType.STRUCT
                obj.ion_annotations = anns
                for f, v in pairs:
                    if f == ZERO:
                        f = None
                    elif isinstance(f, Unk):
                        f = SymbolToken(None, self.known.sids_of(f)[0])
                    obj.add_item(f, v)
                return obj
            kids = [self.make(k) for _, k in node.kids]
            if plain:
                if t == 'sexp':
                    return OddTuple(kids) if odd else tuple(kids)
                if not self.sexp and ch.draw(3) == 2:
                    return OddTuple(kids) if odd else tuple(kids)
                return OddList(kids) if odd else kids
            return IonPyList.from_value(ION_TYPES[t], kids, anns)
        if self.oddness and not node.null and plain and ch.draw(self.oddness) == 0:
            obj = odd_scalar(node, ch)
            if obj is not None:
                self.ctx.fault('subclassed-value')
                return obj
        if self.oddness and not node.null and t in WRAPPERS and t != 'symbol' and ch.draw(2 * self.oddness) == 0:
            # A value of a user's class inside a wrapper of the library.
            if t == 'clob':
                inner = OddBytes(node.v)
            else:
                inner = odd_scalar(node, ch)
            # (str() of a user's text is up to the user, so that is not wrapped.)
            if inner is not None and not isinstance(inner, (enum.Enum, OddText)):
                self.ctx.fault('subclassed-value')
                return WRAPPERS[t].from_value(ION_TYPES[t], inner, tuple(token_obj(a, ch, False, self.known)
                                                                        for a in node.ann))
        return py_obj(node, ch, self.sexp, self.known, wrap)


def nodes_of(events):
    """Model values from user events."""
    out = []
    stack = []
    for kind, t, v, field, anns, depth in events:
        if kind == 'E':
            node = stack.pop()
            continue
        node = N(t, None, anns, [] if kind == 'S' else None, null=(kind == 'V' and v is None))
        node.v = v
        if stack:
            stack[-1].kids.append((field, node))
        else:
            out.append(node)
        if kind == 'S':
            stack.append(node)
    return out


def all_nodes(node):
    yield node
    for _, k in node.kids or ():
        for n in all_nodes(k):
            yield n


def unk_fields(node):
    return any(isinstance(f, Unk) and f != ZERO for n in all_nodes(node) if n.t == 'struct' for f, _ in n.kids or ())


def share(ch, nodes):
    """Lets values occur at several places."""
    for _ in range(ch.range(1, 3)):
        donors = [n for top in nodes for n in all_nodes(top) if not n.kids]
        homes = [n for top in nodes for n in all_nodes(top) if n.t in CONTAINERS and not n.null]
        if not donors or not homes:
            return
        home = ch.pick(homes)
        donor = ch.pick(donors)
        if donor is home:
            continue
        home.kids.insert(ch.draw(len(home.kids) + 1), (ch.pick(['a', 'shared', '']) if home.t == 'struct' else None, donor))


def extending(catalog):
    """A location is a name and a position, without a version: a later version of a table must extend the earlier ones."""
    for versions in catalog.tables.values():
        longest = max(versions.values(), key=len)
        for v in versions:
            versions[v] = longest[:len(versions[v])]
    return catalog


class Disk(object):
    """The file: what is durable, and where segments begin."""

    def __init__(self, binary):
        self.binary = binary
        self.data = bytearray()
        self.marks = [(0, 0)]       # (offset, number of values before it)
        self.values = []

    def append(self, data, nodes):
        self.data += data
        if not self.binary:
            self.data += b'\n'
        self.values.extend(nodes)
        self.marks.append((len(self.data), len(self.values)))


class Party(object):
    """A writer of segments. It may keep a streaming writer open from one segment to the next."""

    def __init__(self, ch, ctx, binary, catalog, imports, known):
        self.ch, self.ctx, self.binary = ch, ctx, binary
        self.catalog, self.imports, self.known = catalog, imports, known
        self.session = None
        self.out = None

    def write(self, nodes, out):
        """Writes values; returns them as they must be read back. May raise the error of the output."""
        ch, ctx = self.ch, self.ctx
        self.out = out
        way = ch.draw(6)
        self.how = ['events', 'dump-stream', 'dump-each', 'dumps', 'events-raw', 'events'][way]
        ctx.fault('writer:' + self.how)
        if way in (0, 4, 5):
            self.events(nodes, out, raw=way == 4)
            return nodes
        return self.dump(nodes, out, way)

    def send_all(self, out, data):
        while data:
            n = out.write(data)
            if n is None:
                return
            data = data[n:]

    def events(self, nodes, out, raw):
        ch = self.ch
        if self.session is None or ch.draw(2) == 0:
            w = binary_writer(self.imports) if self.binary else text_writer(indent=ch.pick(INDENTS))
            self.session = w
        else:
            w = self.session
            self.ctx.fault('session-continued')

        def send(ev):
            while True:
                self.ctx.step()
                r = w.send(ev)
                if r.data:
                    self.send_all(out, r.data)
                if r.type is not WriteEventType.HAS_PENDING:
                    return r
                ev = None
        if not raw:
            # blocking_writer keeps nothing itself, so it may be put around a writer which is in use.
            blocking = blocking_writer(w, out)
            send = blocking.send
        if ch.draw(3) == 0:
            send(IVM_EVENT)
        for i, n in enumerate(nodes):
            for ev in events_for_writer(n, ch, self.known):
                send(ev)
            if ch.chance(1, 4):
                send(STREAM_END)
        send(STREAM_END)

    def dump(self, nodes, out, way):
        ch, ctx = self.ch, self.ctx
        sexp = bool(ch.draw(2))
        maker = Maker(ch, ctx, sexp, self.known, ch.pick([0, 0, 2, 5]))
        nodes = [grouped_shared(n) for n in nodes]
        objs = [maker.make(n) for n in nodes]
        i = 0
        while i < len(objs) or (i == 0 and not objs):
            options = {'binary': self.binary, 'tuple_as_sexp': sexp}
            if self.binary and (self.imports or ch.draw(2)):
                options['imports'] = self.imports
            if not self.binary:
                options['indent'] = ch.pick(INDENTS)
                options['omit_version_marker'] = bool(ch.draw(2))
            if way == 1 or not objs:
                n = ch.range(1, max(1, len(objs) - i))
                part = objs[i:i + n]
                options['sequence_as_stream'] = True
                if ch.draw(3) == 0:
                    part = tuple(part)
                elif ch.draw(3) == 0:
                    part = IonPyList.from_value(IonType.LIST, part)
            else:
                n = 1
                part = objs[i]
                if not isinstance(part, (list, tuple)) or isinstance(part, SymbolToken):
                    options['sequence_as_stream'] = bool(ch.draw(2))
                    if isinstance(part, SymbolToken) and options['sequence_as_stream']:
                        ctx.fault('symbol-as-stream')
            if i and not self.binary:
                self.send_all(out, b'\n')
            ctx.trace('dump', repr(options), n)
            if way == 3:
                data = simpleion.dumps(part, **options)
                if not self.binary:
                    if not isinstance(data, str):
                        violate('wrong-type', 'dumps returned %s for text', type(data).__name__)
                    data = data.encode('utf-8')
                self.send_all(out, data)
            else:
                simpleion.dump(part, out, **options)
            i += n
        return nodes


def grouped_shared(node, memo=None):
    """grouped(), keeping shared values shared."""
    memo = {} if memo is None else memo
    if not node.kids:
        return node
    if id(node) not in memo:
        copy = N(node.t, node.v, node.ann, [(f, grouped_shared(k, memo)) for f, k in node.kids])
        if copy.t == 'struct':
            by = OrderedDict()
            for f, k in copy.kids:
                by.setdefault(f, []).append((f, k))
            copy.kids = [p for ps in by.values() for p in ps]
        memo[id(node)] = copy
    return memo[id(node)]


class Tail(object):
    """A reader which follows the file while it is written."""

    def __init__(self, ch, ctx, binary, catalog):
        self.ch, self.ctx, self.binary = ch, ctx, binary
        self.reader = managed_reader(binary_reader() if binary else text_reader(), catalog)
        self.events = []
        self.pos = 0
        self.need = None

    def _take(self, ev):
        while True:
            self.ctx.step()
            et = ev.event_type
            if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                self.need = et
                return
            if et is not IonEventType.VERSION_MARKER:
                self.events.append(canon_event(ev))
            ev = self.reader.send(NEXT_EVENT)

    def follow(self, data, upto):
        if self.need is None:
            self._take(self.reader.send(NEXT_EVENT))
        piece = bytes(data[self.pos:upto])
        for chunk in chunks_of(piece, gen_cuts(self.ch, len(piece))):
            self.ctx.fault('delivery-boundary')
            self._take(self.reader.send(read_data_event(chunk)))
        self.pos = upto

    def end(self):
        if self.need is IonEventType.INCOMPLETE:
            self._take(self.reader.send(NEXT_EVENT))


def handed_over(ch, ctx, objs):
    """The values as another party gets them: copied, deeply copied or through a pickle, one of the two changed afterwards."""
    how = ch.pick(['copy', 'deepcopy', 'pickle', 'pickle', 'pickle'])
    ctx.fault('handed-over:' + how)
    try:
        if how == 'copy':
            got = [copy.copy(o) for o in objs]
        elif how == 'deepcopy':
            got = copy.deepcopy(objs)
        else:
            got = pickle.loads(pickle.dumps(objs, ch.pick([0, 1, 2, 3, 4])))
    except Exception as e:
        violate('rejects-valid', 'copying values by %s raised %r', how, e)
    for a, b in zip(objs, got):
        if type(a) is not type(b):
            violate('wrong-value', '%s of a %s is a %s', how, type(a).__name__, type(b).__name__)
    if ch.draw(2):
        ctx.fault('changed-behind')
        give, stray = (objs, got) if ch.draw(2) else (got, objs)
        seen = set()
        for o in stray:
            scribble(o, seen, how != 'copy')
        return give
    return got


class EndToEnd(Property):
    ID = 'C17'
    RUNS = {'quick': 45000, 'thorough': 600000}
    RULE = ('One party writes values in segments to a file with a mix of dump, dumps and streaming writers (restarted or kept '
            'open), crashes at seeded bytes and recovers (by truncation to the last mark, or by salvaging with a reader), other '
            'parties relay the data (load, possibly hand over as copies or pickles, and dump again, or events into a writer, with or without the catalog), readers follow '
            'the file while it grows or read it afterwards through every interface. All are compared with the values written. '
            'Non-trivial: at least two segments or a relay, or a crash. Distinct by (formats, writers and readers used, crashes, value shapes).')
    STATE_MEASURE = 'distinct (format, history of writers, crashes, relays and readers, shapes of the values) tuples'
    REAL = READERS + WRITERS + SIMPLE
    STUBS = ('file', 'link', 'users of the parties', 'recovery procedure', 'decimal environment of the thread')
    MUST_HIT = ('writer:events', 'writer:dump-stream', 'writer:dump-each', 'writer:dumps', 'writer:events-raw', 'session-continued',
                'crash', 'salvage', 'recover-truncate', 'relay-objects', 'relay-events', 'relay-without-catalog', 'relay-rejected', 'edit',
                'short-write', 'short-read', 'decimal-context-switch', 'reader:load', 'reader:load-text', 'reader:loads',
                'reader:loads-unicode', 'reader:blocking', 'reader:tail', 'reader:single', 'reader:from-mark', 'subclassed-value',
                'handed-over:copy', 'handed-over:deepcopy', 'handed-over:pickle', 'changed-behind', 'shared-object', 'symbol-as-stream', 'imports', 'symbol-without-text')
    ASSUMPTIONS = ('A file system keeps what was written before a mark; after a crash a prefix of the unfinished segment is left.',
                   'Field names without text share the key None in what load() returns (documented limit of the mapping).')

    def run(self, ch, ctx):
        if ch.chance(1, 40):
            return self.local_symbol(ch, ctx)
        cfg = swarm_cfg(ch, long=ch.chance(1, 40))
        binary = not ch.draw(2)
        catalog = extending(gen_catalog(ch, (1, 2)))
        imports, known = None, SYSTEM
        tables = []
        if binary and ch.draw(2):
            imports, known = gen_imports(ch, catalog)
            tables = [(t.name, t.version, t.max_id) for t in imports]
            if imports:
                ctx.fault('imports')
        self.switch = ch.pick([0, 0, 3])
        history = [binary, len(tables)]
        disk = Disk(binary)
        built = catalog.build()
        party = Party(ch, ctx, binary, catalog, imports, known)
        tail = Tail(ch, ctx, binary, built) if ch.draw(2) else None
        n_segments = ch.range(1, 4)
        if cfg['marathon']:
            ctx.fault('long-history')
            cfg.update(max_depth=1, max_kids=2)
            n_segments = ch.range(10, 40)
        for s in range(n_segments):
            nodes = [gen_node(ch, cfg, 0, True) for _ in range(ch.range(1 if s == 0 else 0, 3))]
            if known.size() > 9 and ch.draw(3):
                use_imported_symbols(ch, nodes, known)
            if ch.chance(1, 5):
                share(ch, nodes)
            if any(has_unk(n) for n in nodes):
                ctx.fault('symbol-without-text')
            history.append([shape(n) for n in nodes])
            self.segment(ch, ctx, disk, party, nodes, history, built)
            self.maybe_switch(ch, ctx)
            if tail is not None and ch.draw(3):
                self.tailed(ctx, tail, disk, disk.marks[-1], history)
        if ch.draw(3) == 0:
            disk, binary = self.relay(ch, ctx, disk, catalog, built, tables, history)
            if disk is None:
                ctx.state(*history)
                return
        elif tail is not None:
            self.tailed(ctx, tail, disk, disk.marks[-1], history)
            tail.end()
            self.compare('events', tail.events, stream_events(disk.values), 'a reader which followed the file', disk)
            ctx.fault('reader:tail')
        ctx.nontrivial = len(history) > 5
        for _ in range(ch.range(1, 2)):
            self.read(ch, ctx, disk, built, history)
            self.maybe_switch(ch, ctx)
        env.restore()
        ctx.state(*history)
        ctx.sample = {'binary': binary, 'history': clip(repr(history), 300), 'bytes': len(disk.data), 'values': len(disk.values)}

    def maybe_switch(self, ch, ctx):
        if self.switch and ch.draw(self.switch) == 1:
            env.switch(ch, ctx)

    # --- writing

    def segment(self, ch, ctx, disk, party, nodes, history, built):
        """Writes one segment, however many crashes it takes."""
        attempts = 0
        while True:
            kw = {'short': ch.pick([0, 0, 2, 1])}
            if ch.chance(1, 8):
                kw['short'], kw['returns'] = 0, 'none'
            error = None
            if attempts < 3 and ch.chance(1, 5):
                error = ch.pick([Cut('crash'), OSError(28, 'No space left on device'), Flaw('crash'), KeyboardInterrupt()])
                kw.update(error=error, fail_byte=ch.draw(ch.pick([12, 60, 200])), torn=bool(ch.draw(2)))
            out = SimOutput(ch, ctx, **kw)
            attempts += 1
            try:
                written = party.write(nodes, out)
            except BaseException as e:
                if e is not error:
                    if isinstance(e, REJECT + (AssertionError, LookupError, AttributeError)):
                        violate('rejects-valid', 'writing %s by %s raised %r', clip(repr(nodes)), party.how, e)
                    raise
                ctx.fault('crash')
                history.append('crash')
                party.session = None
                if disk.binary and ch.draw(2):
                    nodes = self.salvage(ch, ctx, disk, party, nodes, bytes(out.data), built)
                    history.append(len(nodes))
                else:
                    ctx.fault('recover-truncate')
                continue
            history.append(party.how)
            ctx.trace('segment', bytes(out.data).hex())
            disk.append(out.data, written)
            return

    def salvage(self, ch, ctx, disk, party, nodes, torn, built):
        """Recovery with a reader: keeps the complete values of the torn segment; returns the values still to be written."""
        ctx.fault('salvage')
        reader = managed_reader(binary_reader(), built)
        events, end, kept = [], 0, 0
        try:
            ev = reader.send(NEXT_EVENT)
            pos = 0
            while True:
                ctx.step()
                et = ev.event_type
                if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                    if et is IonEventType.STREAM_END:
                        end, kept = pos, len(events)
                    if pos == len(torn):
                        break
                    pos += 1
                    ev = reader.send(read_data_event(torn[pos - 1:pos]))
                    continue
                if et is not IonEventType.VERSION_MARKER:
                    events.append(canon_event(ev))
                ev = reader.send(NEXT_EVENT)
        except REJECT as e:
            violate('rejects-valid', 'reading what was left of a crash raised %r: %s', e, clip(torn.hex()))
        got = events[:kept]
        if not end:
            return nodes
        n = sum(1 for e in got if e[0] != 'E' and e[5] == 0)
        candidates = [nodes[:n], [grouped_shared(x) for x in nodes[:n]]]
        want = [c for c in candidates if stream_events(c) == got]
        if not want:
            violate('wrong-value', 'salvaged were %s, written were %s', clip(repr(got)), clip(repr(stream_events(candidates[0]))))
        disk.append(torn[:end], want[0])
        return nodes[n:]

    def tailed(self, ctx, tail, disk, mark, history):
        offset, count = mark
        try:
            tail.follow(disk.data, offset)
        except REJECT as e:
            violate('rejects-valid', 'a reader which follows the file raised %r after %d events: %s', e, len(tail.events),
                    clip(bytes(disk.data)))
        want = stream_events(disk.values[:count])
        if disk.binary:
            self.compare('events', tail.events, want, 'a reader which follows the file', disk)
        else:
            self.compare('events', tail.events, want[:len(tail.events)], 'a reader which follows the file', disk)

    # --- relaying

    def relay(self, ch, ctx, disk, catalog, built, tables, history):
        """Another party reads everything and writes it again in its own way."""
        informed = not ch.draw(2) or not disk.binary
        model = catalog if informed else EMPTY
        if not informed:
            ctx.fault('relay-without-catalog')
        try:
            seen = nodes_of(user_of(bytes(disk.data), disk.binary, model))
        except NotIon as e:
            violate('invalid-output', '%s: %s', e, clip(bytes(disk.data)))
        self.compare('events', user_of(bytes(disk.data), disk.binary, catalog), stream_events(disk.values), 'the file', disk)
        binary = not ch.draw(2)
        imports = None
        declared = binary and (ch.draw(3) or not tables)
        if binary and declared and tables:
            order = list(tables)
            if ch.draw(2):
                order.reverse()
            imports = []
            for name, version, max_id in order:
                if ch.draw(2):
                    imports.append(placeholder_symbol_table(name, version, max_id))
                else:
                    imports.append(shared_symbol_table(name, version, catalog.tables[name][version]))
        new = Disk(binary)
        reader_catalog = built if informed else None
        objects = bool(ch.draw(2)) and not any(unk_fields(n) for n in seen)
        history.append(('relay', informed, binary, declared, objects))
        out = SimOutput(ch, ctx, short=ch.pick([0, 2]))

        def can_write(node):
            return declared or not has_unk(node)
        if objects:
            ctx.fault('relay-objects')
            objs = simpleion.load(SimSource(ch, ctx, bytes(disk.data), ch.draw(3)), catalog=reader_catalog, single_value=False)
            if len(objs) != len(seen):
                violate('wrong-value', 'load returned %d values of %d', len(objs), len(seen))
            if ch.draw(2):
                objs = handed_over(ch, ctx, objs)
            for node, want, obj in zip(seen, disk.values, objs):
                want = grouped_shared(want)
                if ch.draw(3) == 0:
                    obj, change = self.edit(ch, ctx, obj, want)
                    node, want = change(node), change(want)
                    if ch.draw(3) == 0:
                        obj = handed_over(ch, ctx, [obj])[0]
                mark = len(out.data)
                try:
                    simpleion.dump(obj, out, binary=binary, imports=imports, indent=None if binary else ch.pick(INDENTS),
                                   tuple_as_sexp=bool(ch.draw(2)))
                except IonException as e:
                    if can_write(node):
                        violate('rejects-valid', 'dumping what load() returned raised %r: %s', e, clip(repr(node)))
                    ctx.fault('relay-rejected')
                    del out.data[mark:]
                    continue
                except (AssertionError, LookupError, AttributeError, TypeError, ValueError) as e:
                    violate('rejects-valid', 'dumping what load() returned raised %r: %s', e, clip(repr(node)))
                if not can_write(node):
                    violate('wrong-value', '%s without declared imports was written as %s', clip(repr(node)),
                            clip(bytes(out.data[mark:])))
                if not binary:
                    out.data += b'\n'
                new.append(out.data[mark:], [want])
            return new, binary
        ctx.fault('relay-events')
        reader = blocking_reader(managed_reader(binary_reader() if disk.binary else text_reader(), reader_catalog),
                                 SimSource(ch, ctx, bytes(disk.data), ch.draw(3)), ch.pick([8192, 1, 16]))
        it = iterate_source(reader, ctx, tok_text, late=True)
        if it.error is not None:
            violate('rejects-valid', 'the relay cannot read the file: %r', it.error)
        user = [ev for ev in it.raw_events if ev.event_type is not IonEventType.VERSION_MARKER]
        groups = []
        for ev in user:
            if ev.depth == 0 and ev.event_type is not IonEventType.CONTAINER_END:
                groups.append([])
            groups[-1].append(ev)
        if len(groups) != len(seen):
            violate('wrong-value', 'the relay read %d values of %d', len(groups), len(seen))
        writer = None
        for node, want, group in zip(seen, disk.values, groups):
            if writer is None:
                writer = blocking_writer(binary_writer(imports) if binary else text_writer(indent=ch.pick(INDENTS)), out)
            mark = len(out.data)
            try:
                for ev in group:
                    writer.send(ev)
                writer.send(STREAM_END)
            except IonException as e:
                if can_write(node):
                    violate('rejects-valid', 'writing the events of a reader raised %r: %s', e, clip(repr(node)))
                ctx.fault('relay-rejected')
                del out.data[mark:]
                writer = None
                continue
            except (AssertionError, LookupError, AttributeError, TypeError, ValueError) as e:
                violate('rejects-valid', 'writing the events of a reader raised %r: %s', e, clip(repr(node)))
            if not can_write(node):
                violate('wrong-value', '%s without declared imports was written as %s', clip(repr(node)),
                        clip(bytes(out.data[mark:])))
            new.append(out.data[mark:], [want])
        return new, binary

    def edit(self, ch, ctx, obj, want):
        """The relaying party changes a value it has loaded, or uses it in another one.

        Returns the object and what the change does to a model value.
        """
        ctx.fault('edit')
        k = ch.draw(5)
        if k == 0 and not isinstance(obj, IonPyNull):
            obj = type(obj).from_value(obj.ion_type, obj, ('edited',) + tuple(obj.ion_annotations))
            return obj, lambda n: N(n.t, n.v, ('edited',) + n.ann, n.kids, n.null)
        if k == 1 and want.t == 'struct' and not want.null:
            key = ch.pick(['a', 'new', 'name'] + [f for f, _ in want.kids if isinstance(f, str)])
            how = ch.draw(3)
            if how == 0:
                obj.add_item(key, 7)
            elif how == 1:
                obj[key] = 'x'
            elif any(f == key for f, _ in want.kids):
                del obj[key]

            def change(n):
                kids = list(n.kids)
                at = [i for i, (f, _) in enumerate(kids) if f == key]
                if how == 0:
                    kids.append((key, N('int', 7)))
                elif how == 2:
                    kids = [p for p in kids if p[0] != key]
                elif at:
                    kids[at[0]] = (key, N('string', 'x'))
                    kids = [p for i, p in enumerate(kids) if i not in at[1:]]
                else:
                    kids.append((key, N('string', 'x')))
                return grouped_shared(N('struct', None, n.ann, kids))
            return obj, change
        if k == 2 and want.t in ('list', 'sexp') and not want.null:
            turn = ch.draw(2)
            obj.append(True)
            if turn:
                obj.reverse()

            def change(n):
                kids = list(n.kids) + [(None, N('bool', True))]
                return N(n.t, None, n.ann, kids[::-1] if turn else kids)
            return obj, change
        if k == 3:
            return [obj, obj, 1], lambda n: N('list', None, (), [(None, n), (None, n), (None, N('int', 1))])
        return {'inner': obj, 'n': None}, lambda n: N('struct', None, (), [('inner', n), ('n', N('null'))])

    # --- reading

    def compare(self, view, got, want, what, disk):
        d = first_difference(got, want)
        if d is not None:
            violate('wrong-value', '%s: %s %d is %s, written was %s; the file: %s', what, 'value' if view == 'trees' else 'event',
                    d[0], clip(d[1]), clip(d[2]), clip(bytes(disk.data)))

    def read(self, ch, ctx, disk, built, history):
        data = bytes(disk.data)
        values = disk.values
        way = ch.draw(6)
        name = ['load', 'loads', 'blocking', 'load-text', 'loads-unicode', 'single'][way]
        if disk.binary and way in (3, 4):
            name = 'load'
        base = 0
        if name in ('load', 'load-text', 'blocking') and len(disk.marks) > 1 and ch.chance(1, 3):
            offset, count = ch.pick(disk.marks)
            values = values[count:]
            base = offset
            if name == 'load-text':
                base = len(data[:offset].decode('utf-8'))
            if base:
                ctx.fault('reader:from-mark')
        history.append(name)
        ctx.fault('reader:' + name)
        mode = ch.draw(4)
        try:
            if name == 'load':
                got = simpleion.load(SimSource(ch, ctx, data, mode, base=base), catalog=built, single_value=False)
            elif name == 'load-text':
                got = simpleion.load(SimTextSource(ch, ctx, data.decode('utf-8'), mode, base=base), catalog=built,
                                     single_value=False)
            elif name == 'loads':
                got = simpleion.loads(data, catalog=built, single_value=False)
            elif name == 'loads-unicode':
                got = simpleion.loads(data.decode('utf-8'), catalog=built, single_value=False)
            elif name == 'single':
                try:
                    got = [simpleion.load(SimSource(ch, ctx, data, mode), catalog=built)]
                except IonException:
                    if len(values) == 1:
                        raise
                    return
                if len(values) != 1:
                    violate('wrong-value', 'load() returned one value of %d', len(values))
            else:
                size = ch.pick([8192, 1, 2, 7, 64])
                source = SimSource(ch, ctx, data, mode, base=base)
                reader = blocking_reader(managed_reader(binary_reader() if disk.binary else text_reader(), built), source, size)
                it = iterate_source(reader, ctx, tok_text, late=bool(ch.draw(2)))
                if it.error is not None:
                    raise it.error
                self.compare('events', [e for e in it.events if e[0] != 'IVM'], stream_events(values), 'blocking_reader', disk)
                return
        except REJECT as e:
            violate('rejects-valid', '%s raised %r for %s', name, e, clip(data))
        self.compare('trees', [tree_of_py(o) for o in got], [tree_of_node(n) for n in values], name, disk)

    # --- a defect which is not repaired

    def local_symbol(self, ch, ctx):
        """A symbol of a local table which has no text is read and written again."""
        ctx.fault('local-symbol')
        binary = not ch.draw(2)
        n = ch.range(1, 3)
        source = '$ion_symbol_table::{symbols:[%s]} %s' % (
            ', '.join(['null'] * n), ch.pick(['$%d', 'a::$%d', '[$%d]', '$%d::1', '{a:$%d}']) % (9 + ch.range(1, n)))
        obj = simpleion.loads(source)
        before = tree_of_py(obj)
        try:
            data = simpleion.dumps([u'abc', SymbolToken(u'def', None), obj], binary=binary)
        except REJECT:
            return          # it says that it cannot be written: that would be right
        except AssertionError as e:
            violate('local-symbol-without-text', 'dumping what %s denotes raised %r', source, e)
        try:
            after = simpleion.loads(data)
        except REJECT as e:
            violate('local-symbol-without-text', '%s was written as %s, which cannot be read: %r', source, clip(data), e)
        if tree_of_py(after[2]) != before:
            violate('local-symbol-without-text', '%s was written as %s', source, clip(data))


PROPERTIES = {'C17': EndToEnd()}
