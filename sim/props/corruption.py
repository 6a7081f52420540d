import os
import sys

from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader

from .. import bindec
from ..binenc import IVM, var_uint
from ..core import LIB_DIR, Violation, clip, violate
from ..drivers import chunks_of, gen_cuts
from ..files import SimSource, SimTextSource
from ..model import canon_event, shape, swarm_cfg, tok_full
from ..plan import gen_plan, render_binary
from ..pyvals import tree_of_py, trees_of_events, user_events
from ..symctx import UNDEFINED, CatalogModel, ManagedModel, ModelError, gen_catalog
from ..textparse import parse
from .base import READERS, SIMPLE, Property
from .symbol_context import SymbolContext
from .text_delivery import text_case

# What the library documents for invalid data: IonException; values which Python cannot represent raise ValueError or
# OverflowError (both are what the constructors of the value types raise).
CLEAR = (IonException, ValueError, ArithmeticError)

BINARY_OCTETS = [0x00, 0x01, 0x0e, 0x0f, 0x11, 0x20, 0x21, 0x2e, 0x30, 0x31, 0x40, 0x44, 0x48, 0x4e, 0x50, 0x5e, 0x60, 0x6e, 0x71,
                 0x80, 0x81, 0x8e, 0x8f, 0xae, 0xb0, 0xbe, 0xc0, 0xce, 0xd0, 0xd1, 0xde, 0xdf, 0xe0, 0xe3, 0xee, 0xef, 0xf0,
                 0xff, 0x7f, 0xea, 0xc1]
TEXT_PIECES = ['"', "'", "'''", '{', '}', '{{', '}}', '[', ']', '(', ')', ',', ':', '::', '\\', '/', '//', '/*', '*/', ' ', '\n',
               '\r', '\t', '\x0b', '\x00', '0', '1', '-', '+', '.', '_', 'e', 'd', 'T', 'Z', '$', '$ion_1_0 ', '$ion_', '$0', '$9',
               'null', 'null.', 'null.int', 'true', 'nan', '+inf', '-inf', '=', 'x', '\\u', '\\x', '\\U', '\x7f',
               '\u20ac', '\U0001f600', '2001', '-01', 'T10:00', '0x', '0b', '\\n', '\\\n', "''", '""', '{{""}}', 'a::', 'a:']


TOKENS = ['a', 'n', 'nu', 'null', 'null.int', 'null.list', 'nan', 'na', 'true', 'tru', 'false', 'f', 'inf', '+inf', '-inf', '+', '-',
          '/', '*', '.', '--', '=>', '0', '-0', '1', '-12', '1_0', '0x1f', '0b1', '-0x1', '1.', '1.5', '0.0', '2d3', '1e5', '2000T',
          '2001-02-03', '2001-02-03T', '2001-02-03T04:05Z', '2001-02-03T04:05:06.7-08:09', '$', '$4', '$0', '$10', '$ion', '$ion_1_0',
          '$ion_1', "''", "'a'", "'\\''", '""', '"a"', '"\\""', "'\u20ac'", '"\U0001f600"', "''''''", "'''a'''", "'''b\\\n'''",
          '{{}}', '{{YQ==}}', '{{""}}', "{{'''a'''}}", '{{ "a" }}', 'symbols', 'name']
GAPS = ['', '', '', '', ' ', ' ', '\n', '\r\n', '/**/', '/*a*/', '//\n', '//b\r', ' /**/ ', '\t']


def gen_phrase(ch, depth, inside):
    """Tokens which may or may not stand next to each other."""
    out = [ch.pick(GAPS)]
    for i in range(ch.range(0, 5) if depth else ch.range(1, 8)):
        if i and inside in ('[', '{') and ch.draw(12):
            out += [',', ch.pick(GAPS)]
        if inside == '{' and ch.draw(16):
            out += [ch.pick(['a', "'b'", '"c"', "'''d'''", "'''d'''/**/'''e'''", '$4', 'null', 'n', "''"]), ch.pick(GAPS), ':', ch.pick(GAPS)]
        if inside == '' and ch.chance(1, 16):
            # Something like a symbol table, with fields in odd forms.
            names = [['symbols', "'symbols'", '"symbols"', '$7', "'''symb''''''ols'''"], ['imports', "'imports'", '$6', '"import\\x73"'],
                     ['name', '$4', 'x', "''"]]
            out += [ch.pick(['$ion_symbol_table', "'$ion_symbol_table'", '$3']), ch.pick(GAPS), '::', ch.pick(GAPS), '{']
            for _ in range(ch.range(0, 3)):
                out += [ch.pick(names.pop(ch.draw(len(names)))), ch.pick(GAPS), ':', ch.pick(GAPS)]
                if ch.draw(4):
                    out += ['['] + gen_phrase(ch, 2, '[') + [']']
                else:
                    out += [ch.pick(TOKENS + ['$ion_symbol_table', '$3', "'$ion_symbol_table'"])]
                out += [',', ch.pick(GAPS)]
            out += ['}', ch.pick(GAPS), ch.pick(['$10 ', '$11 ', '$12 ', '$9 ']), ch.pick(GAPS)]
            continue
        while ch.chance(1, 8):
            out += [ch.pick(TOKENS), ch.pick(GAPS), '::', ch.pick(GAPS)]
        if depth < 4 and ch.chance(1, 4):
            o = ch.pick(['(', '(', '[', '{'])
            out += [o] + gen_phrase(ch, depth + 1, o) + [{'(': ')', '[': ']', '{': '}'}[o]]
        else:
            out.append(ch.pick(TOKENS))
        out.append(ch.pick(GAPS))
    return out


def gen_binary_item(ch, depth, wrapped=False):
    """One item of binary Ion which is put together from well-formed parts, though not always from the right ones."""
    if depth == 0 and ch.chance(1, 10):
        # Something like a symbol table, with fields in odd forms.
        fields = [7, 6, ch.pick([4, 0, 5])]
        body = b''
        for _ in range(ch.range(0, 3)):
            body += var_uint(fields.pop(ch.draw(len(fields))))
            k = ch.draw(5)
            inner = b''.join(gen_binary_item(ch, 2) for _ in range(ch.range(0, 4)))
            if k < 3:
                body += bytes([0xbe if k else 0xce if ch.chance(1, 8) else 0xbe]) + var_uint(len(inner)) + inner
            else:
                body += b'\x71\x03' if k == 3 else gen_binary_item(ch, 2)
        body = b'\xde' + var_uint(len(body)) + body
        anns = ch.pick([b'\x81\x83', b'\x82\x83\x84', b'\x82\x84\x83'])
        return b'\xee' + var_uint(len(anns) + len(body)) + anns + body + ch.pick([b'', b'\x71\x0a', b'\x71\x0b', b'\xe4\x81\x8a\x71\x04'])
    k = ch.draw(16)
    if depth < 4 and k >= 11:
        tid = ch.pick([0xb0, 0xc0, 0xd0, 0xd0, 0xd1, 0xe0, 0xe0])
        body = b''
        if tid == 0xe0:
            anns = b''.join(var_uint(ch.pick(SIDS), ch.chance(1, 8)) for _ in range(ch.pick([1, 1, 1, 2, 0])))
            body = var_uint(len(anns) + (1 if ch.chance(1, 24) else 0), ch.chance(1, 8)) + anns
            n = ch.pick([1, 1, 1, 1, 1, 1, 0, 2])
        else:
            n = ch.pick([1, 2, 0, 3])
        for _ in range(n):
            if tid in (0xd0, 0xd1):
                body += var_uint(ch.pick(SIDS), ch.chance(1, 8))
                if ch.chance(1, 24):
                    continue
            body += gen_binary_item(ch, depth + 1, tid == 0xe0)
    elif k == 10:
        return ch.pick([IVM, IVM, b'\xe0\x01\x01\xea', b'\xe0', b'\xe1\x81', b'\xe2\x81\x84', b'\xf0', b'\xff', b'\x12', b'\x1e'])
    elif k == 9:
        return bytes([ch.pick([0x0f, 0x0f, 0x1f, 0x2f, 0x3f, 0x4f, 0x5f, 0x6f, 0x7f, 0x8f, 0x9f, 0xaf, 0xbf, 0xcf, 0xdf])])
    else:
        tid, body = ch.pick(BODIES)
        if tid == 0x10:
            return bytes([tid | len(body)])
    n = len(body)
    if ch.chance(1, 32):
        n = max(0, n + ch.pick([-1, 1]))
    if tid == 0xd1:
        return b'\xd1' + var_uint(n, ch.chance(1, 6)) + body
    # 0xd1 and 0xe0 to 0xe2 mean something else; a float has no length field.
    if n >= 14 or (tid == 0xd0 and n == 1) or (ch.chance(1, 6) and tid != 0x40) or (tid == 0xe0 and n < 3):
        return bytes([tid | 14]) + var_uint(n, ch.chance(1, 6)) + body
    return bytes([tid | n]) + body


SIDS = [4, 5, 7, 1, 3, 9, 0, 10, 200]
BODIES = [(0x20, b''), (0x20, b'\x01'), (0x20, b'\x00\x01'), (0x30, b'\x01'), (0x30, b''), (0x30, b'\x00'), (0x30, b'\x00\x02'),
          (0x40, b''), (0x40, b'\x3f\x80\x00\x00'), (0x40, b'\x80' + 7 * b'\x00'), (0x40, b'\x7f\xf8' + 6 * b'\x00'), (0x40, b'\x00'),
          (0x40, b'\x01\x02\x03'), (0x40, 9 * b'\x01'), (0x50, b''), (0x50, b'\x80'), (0x50, b'\xc1\x05'), (0x50, b'\xc0\x80'),
          (0x50, b'\x82\x00\x80'), (0x50, b'\x02'), (0x60, b'\x80\x0f\xd0'), (0x60, b'\xc0\x0f\xd0\x82'), (0x60, b'\x80\x0f\xd0\x82\x83'),
          (0x60, b'\x80\x0f\xd0\x82\x83\x84'), (0x60, b'\x80\x0f\xd0\x82\x83\x84\x85'), (0x60, b'\xc0\x0f\xd0\x82\x83\x84\x85\x86'),
          (0x60, b'\x80\x0f\xd0\x82\x83\x84\x85\x86\xc1\x05'), (0x60, b'\x80\x0f\xd0\x82\x83\x84\x85\x86\xc1\x85'),
          (0x60, b'\x80\x0f\xd0\x82\x83\x84\x85\x86\x80'), (0x60, b'\x80\x0f\xd0\x82\x83\x84\x85\x86\x80\x01'),
          (0x60, b'\x80\x0f\xd0\x82\x9f\x84\x85'), (0x60, b'\x0b\xa0\x0f\xd0\x82\x83\x84\x85'), (0x60, b'\x4b\x9f\x0f\xd0\x82\x83\x84\x85'),
          (0x60, b''), (0x60, b'\x80'), (0x60, b'\x80\x0f'), (0x70, b''), (0x70, b'\x04'), (0x70, b'\x00\x05'), (0x70, b'\x02'), (0x70, b'\x0a'),
          (0x80, b''), (0x80, b'a'), (0x80, b'\xe2\x82\xac'), (0x80, b'\xc3'), (0x80, b'\xed\xa0\x80'), (0x80, b'abcdefghijklmnop'),
          (0x90, b''), (0x90, b'\xff"'), (0xa0, b''), (0xa0, b'\x00\xe0\x01\x00\xea'), (0x10, b''), (0x10, b'\x01'), (0x10, b'\x01\x01'),
          (0x00, b''), (0x00, b'\xee'), (0x00, b'\x00\x00'), (0x00, 15 * b'\xff')]


class TooBig(Exception):
    """The damaged stream declares an import so large that the work is a known finding; symbols are left unresolved."""


class Guard(object):
    def __init__(self, catalog):
        self.catalog = catalog

    def resolve(self, name, version, max_id):
        if max_id is not None and max_id > 2000:
            raise TooBig()
        return self.catalog.resolve(name, version, max_id)


class OutOfBudget(BaseException):
    pass


class Budget(object):
    """Limits the lines of library code which a piece of work may execute."""

    def __init__(self, limit):
        self.limit = limit
        self.lines = 0
        self.where = None

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB_DIR):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines > self.limit:
                sys.settrace(None)
                self.where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise OutOfBudget()
        return self.line


def cut_points(ch, n, points):
    if points and ch.draw(2):
        return min(n, ch.pick(points))
    return ch.draw(n + 1)


def damage(ch, ctx, units, points, binary, other, chars=False):
    """Damages ``units`` (a list of bytes or of characters) in place; returns the first position that is affected."""
    first = len(units)
    for _ in range(1 if ch.draw(2) == 0 else ch.range(2, 4)):
        n = len(units)
        p = cut_points(ch, n, points)
        q = min(n, p + 1 + ch.draw(1 + ch.draw(24)))
        kind = ch.draw(11)
        if kind == 0 and p < n:
            ctx.fault('bit-flip')
            if not chars:
                units[p] ^= 1 << ch.draw(8)
            else:
                c = ord(units[p]) ^ (1 << ch.draw(7))
                units[p] = chr(c) if not 0xd800 <= c <= 0xdfff else '?'
        elif kind == 1 and p < n:
            ctx.fault('byte-overwritten')
            units[p] = special(ch, chars, binary)[0]
        elif kind == 2:
            ctx.fault('block-lost')
            del units[p:q]
        elif kind == 3:
            ctx.fault('block-repeated')
            units[q:q] = units[p:q]
            p = q
        elif kind == 4:
            ctx.fault('block-zeroed')
            zero = '\x00' if chars else 0
            units[p:q] = [zero] * (q - p)
        elif kind == 5:
            ctx.fault('bytes-inserted')
            units[p:p] = special(ch, chars, binary)
        elif kind == 6:
            r = min(n, q + 1 + ch.draw(16))
            ctx.fault('blocks-reordered')
            units[p:r] = units[q:r] + units[p:q]
        elif kind == 7:
            ctx.fault('tail-lost')
            del units[p:]
        elif kind == 8 and other:
            ctx.fault('spliced')
            k = ch.draw(len(other))
            units[p:] = other[k:]
        elif kind == 9 and other:
            ctx.fault('foreign-block')
            k = ch.draw(len(other))
            units[p:q] = other[k:k + 1 + ch.draw(24)]
        elif kind == 10:
            ctx.fault('garbage')
            if chars:
                units[p:q] = [c for _ in range(ch.range(1, 6)) for c in ch.pick(TEXT_PIECES)]
            else:
                units[p:q] = [ch.draw(256) for _ in range(ch.range(1, 12))]
        else:
            ctx.fault('bytes-inserted')
            units[p:p] = special(ch, chars, binary)
        first = min(first, p)
    return first


def special(ch, chars, binary):
    if binary:
        k = ch.draw(5)
        if k == 4:
            # a length that no data can satisfy
            return list(bytes([ch.pick([0x8e, 0xbe, 0xde, 0xee, 0x0e, 0x2e, 0x5e, 0xae])]) +
                        var_uint(ch.pick([1 << 16, 1 << 31, 1 << 40, (1 << 64) - 1, 1 << 80])))
        if k == 3:
            return list(IVM)
        return [ch.pick(BINARY_OCTETS)]
    text = ch.pick(TEXT_PIECES)
    if not chars:
        if ch.chance(1, 6):
            return list(ch.pick([b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xc0\x80', b'\xf5\x80\x80\x80', b'\x80']))
        return list(text.encode('utf-8'))
    return list(text)


class Case(object):
    """Data, and what the strict decoders say about it."""

    def __init__(self, data, binary, is_unicode, catalog):
        self.data = data
        self.binary = binary
        self.is_unicode = is_unicode
        self.catalog = catalog
        if binary:
            self.raw, self.state, _, self.why = bindec.decode_prefix(data)
        else:
            text = data if is_unicode else data.decode('utf-8', 'surrogateescape')
            self.raw, ok = parse(text)
            self.state = 'ok' if ok else 'bad'
            self.why = None
        self.safe_raw = 0           # events which lie before any damage
        self.safe_managed = 0
        self.too_big = False
        self.managed = []
        self.managed_state = self.state
        model = ManagedModel(Guard(catalog))
        try:
            for ev in self.raw:
                self.managed.extend(model.feed_lazily(ev))
        except ModelError as e:
            self.managed_state = 'bad'
            self.why = str(e)
        except TooBig:
            self.too_big = True
        # A reader skips what does not matter in a symbol table, and may so pass over a mistake in it.
        self.in_table = self.managed_state != 'ok' and model._lst is not None
        self.undefined = any(UNDEFINED in e[2:5] for e in self.managed)

    def reader(self, managed, raw_class=None):
        reader = binary_reader() if self.binary else text_reader(is_unicode=self.is_unicode)
        if managed:
            reader = managed_reader(reader, self.catalog.build())
        return reader


def small_catalog(ch):
    # The work to read a stream is counted against its length: what tables of a catalog add must not matter.
    return gen_catalog(ch, big=None)


class Corruption(Property):
    ID = 'C12'
    RUNS = {'quick': 20000, 'thorough': 600000}
    RULE = ('A random valid stream is damaged at seeded places (bits flipped, blocks lost, repeated, reordered, zeroed or '
            'replaced by parts of another stream, huge lengths), or replaced by random octets, random token soup, random phrases of '
            'well-formed tokens in odd combinations or deeply nested containers, and read with seeded deliveries and requests through every interface. Non-trivial: the data is not '
            'valid. Distinct by (interface, what the strict decoder says is wrong, events before it, structure of the stream).')
    STATE_MEASURE = 'distinct (interface, reason why the data is invalid, events before the mistake, stream structure) tuples'
    REAL = READERS + SIMPLE
    STUBS = ('producer of the stream (independent encoder and renderer)', 'storage and transport which damage the data',
             'judge of the damaged data (independent strict decoders)')
    MUST_HIT = ('bit-flip', 'byte-overwritten', 'block-lost', 'block-repeated', 'block-zeroed', 'bytes-inserted',
                'blocks-reordered', 'tail-lost', 'spliced', 'foreign-block', 'garbage', 'token-soup', 'phrase', 'binary-phrase', 'nesting-bomb', 'import-bomb',
                'work-counted', 'skip', 'short-read', 'send-after-error')
    ASSUMPTIONS = ('The independent decoders implement Ion 1.0 as documented; where the specification is silent they follow the '
                   'tests of the library (for instance for operators which contain //).',)

    def run(self, ch, ctx):
        kind = ch.weighted(((8, 'binary'), (8, 'text'), (1, 'octets'), (2, 'soup'), (5, 'phrase'), (4, 'items'), (1, 'nesting')))
        if ch.chance(1, 400):
            kind = 'imports'
        if kind == 'nesting':
            return self.nesting(ch, ctx)
        if kind == 'imports':
            return self.imports(ch, ctx)
        case, sig = self.make(ch, ctx, kind)
        if case.is_unicode and any(0xd800 <= ord(c) <= 0xdfff for c in case.data):
            ctx.trace('surrogates')
            return
        how = ch.weighted(((3, 'events'), (2, 'managed'), (2, 'iterate'), (1, 'load'), (1, 'skip'), (1, 'counted')))
        if case.too_big and how in ('managed', 'load'):
            how = 'events'
        if case.in_table and how == 'managed':
            how = 'skip'
        ctx.trace('data', case.data.hex() if not case.is_unicode else case.data, case.state, how)
        ctx.fault({'ok': 'harmless-damage', 'more': 'looks-cut-off', 'bad': 'invalid'}[case.state])
        ctx.nontrivial = case.state != 'ok'
        ctx.state(how, case.state, case.why if case.state == 'bad' else None, len(case.raw), sig)
        self.where = ' [%s: %s; the strict decoder says %s%s]' % (
            how, clip(repr(case.data), 700), case.state, ' (%s)' % (case.why,) if case.state == 'bad' and case.why else '')
        if how == 'events':
            self.events(ch, ctx, case, False)
        elif how == 'managed':
            self.events(ch, ctx, case, True)
        elif how == 'iterate':
            self.iterate(ch, ctx, case)
        elif how == 'load':
            self.load(ch, ctx, case)
        elif how == 'skip':
            self.skip(ch, ctx, case)
        else:
            ctx.fault('work-counted')
            n = len(case.data)
            budget = Budget(4000 + 700 * n)
            try:
                with budget:
                    self.events(ch, ctx, case, not case.too_big and not case.in_table and bool(ch.draw(2)))
            except OutOfBudget:
                violate('unbounded-work', 'reading %d units of data took more than %d lines of library code, in %s%s', n,
                        budget.limit, budget.where, self.where)
            ctx.probe('lines-per-unit-max-%d' % (100 * (1 + budget.lines // (100 * (n + 6)))))
        ctx.sample = {'kind': kind, 'how': how, 'state': case.state, 'data': clip(repr(case.data), 160)}

    # -- making data -----------------------------------------------------------------------------------------------

    def make(self, ch, ctx, kind):
        safe = None
        if kind == 'binary':
            catalog = small_catalog(ch)
            cfg = swarm_cfg(ch, long=ch.chance(1, 80))
            items = gen_plan(ch, cfg, catalog, True)
            r = render_binary(items, ch)
            other = list(render_binary(gen_plan(ch, swarm_cfg(ch), catalog, True), ch).data) if ch.chance(1, 4) else None
            points = sorted(set([o for _, o in r.raw] + [s for s, _, _ in r.item_at]))
            units = list(r.data)
            first = damage(ch, ctx, units, points, True, other)
            case = Case(bytes(units), True, False, catalog)
            safe = r
            sig = [shape(i.node) if i.node is not None else i.kind for i in items]
        elif kind == 'text':
            items, r, data, table, is_unicode, catalog = text_case(ch, catalogs=small_catalog)
            other = None
            if ch.chance(1, 4):
                o = text_case(ch, swarm_cfg(ch), unicode_ok=False, catalogs=small_catalog)[2]
                other = list(o.decode('utf-8')) if is_unicode else list(o)
            off = (lambda o: o) if table is None else (lambda o: table[o])
            points = sorted(set([off(o) for _, o in r.raw if o <= len(r.data)] + [off(s) for s, _, _ in r.item_at]))
            units = list(data)
            first = damage(ch, ctx, units, points, False, other, is_unicode)
            case = Case(''.join(units) if is_unicode else bytes(units), False, is_unicode, catalog)
            safe = r
            if table is not None:
                first = next((i for i in range(len(r.data), -1, -1) if table[i] <= first), 0)
            sig = [shape(i.node) if i.node is not None else i.kind for i in items]
        elif kind == 'octets':
            ctx.fault('garbage')
            binary = bool(ch.draw(2))
            pool = BINARY_OCTETS if binary else [ord(c) for p in TEXT_PIECES for c in p if ord(c) < 128]
            n = ch.range(0, 24)
            units = [ch.pick(pool) if ch.draw(3) else ch.draw(256) for _ in range(n)]
            data = bytes(units)
            if binary and ch.draw(8):
                data = IVM + data
            case = Case(data, binary, False, CatalogModel())
            sig = ('octets', n)
        elif kind == 'items':
            ctx.fault('binary-phrase')
            data = IVM + b''.join(gen_binary_item(ch, 0) for _ in range(ch.range(1, 4)))
            if ch.chance(1, 10):
                data = data[:ch.range(4, len(data))]
            case = Case(data, True, False, CatalogModel())
            sig = ('items', len(data))
        else:
            ctx.fault('token-soup' if kind == 'soup' else 'phrase')
            if kind == 'phrase':
                text = gen_phrase(ch, ch.draw(2), '')
                if ch.chance(1, 6):
                    text[ch.draw(len(text))] = ch.pick(TEXT_PIECES)
                if ch.chance(1, 2) and len(text) > 2:
                    text = ['('] + text + [')']
                text = ''.join(text)
            else:
                text = ''.join(ch.pick(TEXT_PIECES) for _ in range(ch.range(0, 14)))
            is_unicode = bool(ch.draw(2))
            case = Case(text if is_unicode else text.encode('utf-8'), False, is_unicode, CatalogModel())
            sig = ('soup', len(text))
        if safe is not None:
            # Leave room for the lookahead which text needs.
            case.safe_raw = self.count_safe(safe.raw, first)
            case.safe_managed = self.count_safe(safe.managed, first)
            want = [e for e, _ in safe.raw[:case.safe_raw]]
            if case.raw[:case.safe_raw] != want:
                violate('oracle', 'the strict decoder reads the undamaged part as %s instead of %s [%s]', clip(case.raw), clip(want),
                        clip(repr(case.data)))
        return case, sig

    @staticmethod
    def count_safe(events, first):
        n = 0
        for _, o in events:
            if o > first:
                break
            n += 1
        return n

    # -- reading ---------------------------------------------------------------------------------------------------

    def look(self, ev, n, want, state):
        """Checks the n-th event. False when its value turns out to be broken, which ends the consumer's interest."""
        if n < len(want):
            w = want[n]
            if UNDEFINED in w[2:5]:
                SymbolContext.check_event(ev, w, self.where)
                return True
            try:
                got = canon_event(ev, tok_full)
            except CLEAR as e:
                violate('rejects-valid', 'event %d is %s, but accessing it raises %r%s', n, clip(w), e, self.where)
            if got != w:
                violate('wrong-events', 'event %d is %s, expected %s%s', n, clip(got), clip(w), self.where)
            return True
        try:
            got = canon_event(ev, tok_full)
        except CLEAR:
            if state != 'bad':
                violate('wrong-events', 'event %d is surplus and broken%s', n, self.where)
            return False
        violate('invalid-accepted', 'the reader delivered %s, which the data does not say%s', clip(got), self.where)

    def failed(self, reader, ctx, ch, error, n, want, state, safe, source=False):
        ctx.trace('failed', n, type(error).__name__)
        if not isinstance(error, CLEAR):
            # A binary reader has no way to be told that a source has run dry in the middle of a value.
            dry = isinstance(error, TypeError) and 'Reader expected data' in str(error)
            if not (dry and source and not getattr(self, 'uni', False) and state != 'ok'):
                violate('unclear-error', 'invalid data raised %s: %s%s', type(error).__name__, error, self.where)
        if n < safe:
            violate('earlier-harmed', '%d events lie before the damage, but the reader failed after %d with %r%s', safe, n, error,
                    self.where)
        eager = n < len(want) and UNDEFINED in want[n][2:5]
        if state == 'ok' and not eager:
            violate('rejects-valid', 'the reader rejects valid data after %d events with %r%s', n, error, self.where)
        for _ in range(1 + ch.draw(2)):
            ctx.fault('send-after-error')
            try:
                ev = reader.send(NEXT_EVENT if ch.draw(2) == 0 else
                                 read_data_event(u' 1 ' if getattr(self, 'uni', False) else b' 1 '))
            except (StopIteration,) + CLEAR:
                continue
            except TypeError:
                continue
            violate('event-after-error', 'after an error the reader delivers %s%s', ev.event_type, self.where)

    def events(self, ch, ctx, case, managed):
        want = case.managed if managed else case.raw
        state = case.managed_state if managed else case.state
        safe = case.safe_managed if managed else case.safe_raw
        if managed and case.too_big:
            return
        self.uni = case.is_unicode
        reader = case.reader(managed)
        data = case.data
        cuts = gen_cuts(ch, len(data))
        n = 0
        requests = 0
        limit = 4 * len(data) + 3 * len(cuts) + 20
        flushed = False
        chunks = iter(list(chunks_of(data, cuts)))
        try:
            ev = reader.send(NEXT_EVENT)
            while True:
                ctx.step()
                requests += 1
                if requests > limit:
                    violate('no-progress', '%d requests for %d units of data%s', requests, len(data), self.where)
                et = ev.event_type
                if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                    chunk = next(chunks, None)
                    if chunk is None:
                        if not case.binary and et is IonEventType.INCOMPLETE and not flushed:
                            flushed = True
                            ev = reader.send(NEXT_EVENT)
                            continue
                        break
                    ev = reader.send(read_data_event(chunk))
                    continue
                if not self.look(ev, n, want, state):
                    ctx.trace('broken', n)
                    return
                n += 1
                ev = reader.send(NEXT_EVENT)
        except (Violation, OutOfBudget):
            raise
        except Exception as e:
            self.failed(reader, ctx, ch, e, n, want, state, safe)
            return
        ended = et is IonEventType.STREAM_END
        ctx.trace('end', n, ended)
        self.finished(n, ended, case, want, state, safe)

    def finished(self, n, ended, case, want, state, safe):
        if n < safe:
            violate('earlier-harmed', '%d events lie before the damage, but the reader delivered %d%s', safe, n, self.where)
        if state == 'ok':
            if not ended or n != len(want):
                violate('lost-events', 'the reader delivered %d of %d events, ended: %s%s', n, len(want), ended, self.where)
        elif ended:
            violate('invalid-accepted', 'the reader ends as if the data were valid%s', self.where)
        elif not case.binary:
            violate('invalid-accepted', 'flushing invalid text raised no error%s', self.where)

    def iterate(self, ch, ctx, case):
        managed = not case.too_big and not case.in_table and bool(ch.draw(2))
        want = case.managed if managed else case.raw
        state = case.managed_state if managed else case.state
        safe = case.safe_managed if managed else case.safe_raw
        self.uni = case.is_unicode
        cls = SimTextSource if case.is_unicode else SimSource
        fp = cls(ch, ctx, case.data, ch.draw(4))
        reader = blocking_reader(case.reader(managed), fp, ch.pick([8192, 1, 2, 5, 64]))
        late = bool(ch.draw(2))
        held = []
        n = 0
        error = None
        try:
            while True:
                ctx.step()
                ev = reader.send(NEXT_EVENT)
                if ev.event_type is IonEventType.STREAM_END:
                    break
                if ev.event_type is IonEventType.INCOMPLETE:
                    violate('wrong-signal', 'a blocking reader delivered INCOMPLETE%s', self.where)
                held.append(ev)
                if len(held) > 4 * len(case.data) + 20:
                    violate('no-progress', '%d events from %d units of data%s', len(held), len(case.data), self.where)
                if not late and not self.look(ev, n, want, state):
                    return
                n += 1
        except Violation:
            raise
        except Exception as e:
            error = e
        if late:
            for i, ev in enumerate(held):
                if not self.look(ev, i, want, state):
                    return
        if error is not None:
            # At the end of incomplete data the reader asks for data which the source does not have.
            self.failed(reader, ctx, ch, error, n, want, state, safe, case.binary)
            return
        ctx.trace('end', n)
        if state == 'ok' or not case.binary:
            self.finished(n, True, case, want, state, safe)
        elif n < safe:
            violate('earlier-harmed', '%d events lie before the damage, but the reader delivered %d%s', safe, n, self.where)

    def load(self, ch, ctx, case):
        state = case.managed_state
        managed = case.managed
        data = case.data
        undefined = case.undefined
        in_table = case.in_table
        if case.binary and data[:4] != IVM:
            # load() takes it for text.
            as_text = Case(data, False, False, case.catalog)
            state, managed, undefined = as_text.managed_state, as_text.managed, as_text.undefined
            in_table = as_text.in_table
            if as_text.too_big:
                return
        elif not case.binary and not case.is_unicode and data[:4] == IVM:
            return
        try:
            if ch.draw(2):
                result = simpleion.loads(data, catalog=case.catalog.build(), single_value=False)
            else:
                cls = SimTextSource if case.is_unicode else SimSource
                result = simpleion.load(cls(ch, ctx, data, ch.draw(4)), catalog=case.catalog.build(), single_value=False)
            got = [tree_of_py(v) for v in result]
        except Exception as e:
            ctx.trace('load raises', type(e).__name__)
            if state == 'ok' and not undefined:
                violate('rejects-valid', 'load rejects valid data with %r%s', e, self.where)
            if not isinstance(e, CLEAR) and not (isinstance(e, TypeError) and case.binary and state != 'ok'):
                violate('unclear-error', 'load raised %s: %s%s', type(e).__name__, e, self.where)
            if isinstance(e, TypeError) and 'Reader expected data' not in str(e):
                violate('unclear-error', 'load raised %s: %s%s', type(e).__name__, e, self.where)
            return
        if in_table:
            return
        if state != 'ok' or undefined:
            violate('invalid-accepted', 'load returned %s for invalid data%s', clip(got), self.where)
        want = trees_of_events(user_events(managed))
        if got != want:
            violate('wrong-values', 'load returned %s, the data says %s%s', clip(got), clip(want), self.where)

    def skip(self, ch, ctx, case):
        """SKIP may pass over mistakes; what remains to be checked is that the reader stays well-formed and ends."""
        managed = not case.too_big and bool(ch.draw(2))
        self.uni = case.is_unicode
        reader = case.reader(managed)
        data = case.data
        cuts = gen_cuts(ch, len(data))
        limit = 4 * len(data) + 3 * len(cuts) + 20
        chunks = iter(list(chunks_of(data, cuts)))
        requests = 0
        depth = 0
        flushed = False
        try:
            ev = reader.send(NEXT_EVENT)
            while True:
                ctx.step()
                requests += 1
                if requests > limit:
                    violate('no-progress', '%d requests for %d units of data%s', requests, len(data), self.where)
                et = ev.event_type
                if et is IonEventType.STREAM_END or et is IonEventType.INCOMPLETE:
                    if et is IonEventType.STREAM_END and depth:
                        violate('wrong-signal', 'the stream ends inside a container%s', self.where)
                    chunk = next(chunks, None)
                    if chunk is None:
                        if not case.binary and et is IonEventType.INCOMPLETE and not flushed:
                            flushed = True
                            ev = reader.send(NEXT_EVENT)
                            continue
                        return
                    ev = reader.send(read_data_event(chunk))
                    continue
                if et is IonEventType.CONTAINER_START:
                    if ev.depth != depth:
                        violate('ill-formed', 'a container starts at depth %r in depth %d%s', ev.depth, depth, self.where)
                    depth += 1
                elif et is IonEventType.CONTAINER_END:
                    depth -= 1
                    if ev.depth != depth:
                        violate('ill-formed', 'a container ends at depth %r instead of %d%s', ev.depth, depth, self.where)
                elif ev.depth != depth:
                    violate('ill-formed', 'a scalar at depth %r in depth %d%s', ev.depth, depth, self.where)
                if depth and ch.draw(4) == 0:
                    ctx.fault('skip')
                    ev = reader.send(SKIP_EVENT)
                else:
                    ev = reader.send(NEXT_EVENT)
        except Violation:
            raise
        except Exception as e:
            if not isinstance(e, CLEAR):
                violate('unclear-error', 'invalid data raised %s: %s%s', type(e).__name__, e, self.where)
            if case.state == 'ok' and not managed:
                violate('rejects-valid', 'the reader rejects valid data with %r%s', e, self.where)

    # -- bombs -----------------------------------------------------------------------------------------------------

    def nesting(self, ch, ctx):
        """Deep nesting without any end: memory and work grow with the data, and no faster."""
        ctx.fault('nesting-bomb')
        ctx.nontrivial = True
        n = ch.pick([50, 200, 700, 2000])
        form = ch.draw(6)
        binary = form < 2
        if binary:
            t = ch.pick([0xb0, 0xc0, 0xd0])
            body = b''
            for i in range(n):
                prefix = b''
                if t == 0xd0:
                    body = b'\x84' + body if body else body
                if form == 1 and i % 5 == 4:
                    inner = head(t, body) + body
                    body = head(0xe0, b'\x81\x84' + inner) + b'\x81\x84' + inner
                    continue
                body = head(t, body) + body
            data = IVM + body
            if ch.draw(2):
                data = data[:ch.range(5, len(data))]
        else:
            data = (ch.pick(['[', '(', '{a:', '{a:[', 'b::[', '[[],']) * n)
            if form == 2:
                data = ch.pick(['a::', "'a'::", '/**/', "''' '''", '-', '{{', '"\\', '0', '1_', '/*', '$ion_', "''"]) * n
        if not binary and ch.draw(2):
            data = data.encode()
        reader = binary_reader() if binary else text_reader(is_unicode=not isinstance(data, bytes))
        if ch.draw(2):
            reader = managed_reader(reader)
        cuts = gen_cuts(ch, len(data))
        counted = ch.draw(2)
        budget = Budget(6000 + 700 * len(data)) if counted else None
        depth = 0
        top = 0
        requests = 0
        limit = 4 * len(data) + 3 * len(cuts) + 20
        chunks = iter(list(chunks_of(data, cuts)))
        where = ' [nesting %d: %s]' % (n, clip(repr(data), 100))
        try:
            if counted:
                ctx.fault('work-counted')
                budget.__enter__()
            try:
                ev = reader.send(NEXT_EVENT)
                while True:
                    ctx.step()
                    requests += 1
                    if requests > limit:
                        violate('no-progress', '%d requests for %d units%s', requests, len(data), where)
                    et = ev.event_type
                    if et.is_stream_signal:
                        chunk = next(chunks, None)
                        if chunk is None:
                            break
                        ev = reader.send(read_data_event(chunk))
                        continue
                    if et is IonEventType.CONTAINER_START:
                        depth += 1
                        top = max(top, depth)
                    elif et is IonEventType.CONTAINER_END:
                        depth -= 1
                    ev = reader.send(NEXT_EVENT)
            finally:
                sys.settrace(None)
        except OutOfBudget:
            violate('unbounded-work', 'reading %d units took more than %d lines, in %s%s', len(data), budget.limit, budget.where, where)
        except CLEAR as e:
            ctx.trace('refused', type(e).__name__, top)
            if binary:
                violate('rejects-valid', 'nested containers were rejected after %d with %r%s', top, e, where)
            return
        ctx.trace('nested', n, top, depth)
        ctx.state('nesting', form, n, len(data))
        if not binary and form > 2 and top < 1:
            violate('lost-events', '%d nested containers, but the reader delivered %d starts%s', n, top, where)

    def imports(self, ch, ctx):
        """A few bytes which declare an import of many symbols."""
        ctx.fault('import-bomb')
        ctx.nontrivial = True
        size = ch.pick([200000, 1000000, 10000000])
        text = b'$ion_symbol_table::{imports:[{name:"x",version:1,max_id:%d}]} 1' % size
        reader = managed_reader(text_reader())
        budget = Budget(4000 + 700 * len(text))
        try:
            with budget:
                ev = reader.send(NEXT_EVENT)
                ev = reader.send(read_data_event(text))
                ev = reader.send(NEXT_EVENT)
        except OutOfBudget:
            violate('unbounded-work', 'import bomb, in %s: %d units of data took more than %d lines of library code',
                    budget.where.split(':')[0], len(text), budget.limit)
        except CLEAR:
            pass
        ctx.trace('import', size)


def head(t, body):
    n = len(body)
    if t == 0xd0 and n == 1:
        return bytes([t | 14]) + var_uint(n)
    if n < 14:
        return bytes([t | n])
    return bytes([t | 14]) + var_uint(n)


PROPERTIES = {'C12': Corruption()}
