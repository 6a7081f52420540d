"""The reference data model: values as plain tuples, their generation, and the canonical, type-strict view of events.

Nothing in here uses the code under test, except for reading the attributes of the events it produces.
"""
import struct
from datetime import datetime
from decimal import Decimal

from amazon.ion.core import IonEventType, IonType, Timestamp, TimestampPrecision
from amazon.ion.symbols import SymbolToken

TYPES = ['null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
         'struct']
CONTAINERS = ('list', 'sexp', 'struct')

SYSTEM_SYMBOLS = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id',
                  '$ion_shared_symbol_table']

YEAR, MONTH, DAY, MINUTE, SECOND = range(5)


class Unk(tuple):
    """A symbol token without known text: Unk(('$0',)), Unk(('imp', table, position)) or Unk(('loc', sid))."""
    __slots__ = ()


ZERO = Unk(('$0',))


class Sid(int):
    """A raw symbol ID whose meaning depends on the symbol context (only used to render inputs)."""
    __slots__ = ()


class N(object):
    """A value: type, content (None for typed nulls), annotations, children [(field or None, N)]."""
    __slots__ = ('t', 'v', 'ann', 'kids', 'null')

    def __init__(self, t, v=None, ann=(), kids=None, null=False):
        self.t = t
        self.v = v
        self.ann = tuple(ann)
        self.kids = kids
        self.null = null or (t == 'null')

    def __repr__(self):
        s = ''.join('%r::' % (a,) for a in self.ann)
        if self.null:
            return s + 'null.' + self.t
        if self.t in CONTAINERS:
            return s + self.t + '[' + ', '.join(
                ('%r: %r' % (f, k) if self.t == 'struct' else repr(k)) for f, k in self.kids) + ']'
        return s + '%s(%r)' % (self.t, self.v)


# --- canonical scalars -----------------------------------------------------------------------------------------------

def canon_float(v):
    if v != v:
        return 'nan'
    return struct.pack('>d', v).hex()


def canon_decimal(d):
    sign, digits, exp = d.as_tuple()
    return (sign, int(''.join(map(str, digits)) or '0'), exp)


def scalar_canon(t, v):
    """Canonical form of a model scalar."""
    if t == 'float':
        return canon_float(v)
    return v


def events_of(node, field=None, depth=0, out=None):
    """The canonical events of a value: (kind, type, value, field, annotations, depth)."""
    if out is None:
        out = []
    if node.t in CONTAINERS and not node.null:
        out.append(('S', node.t, None, field, node.ann, depth))
        for f, k in node.kids:
            events_of(k, f if node.t == 'struct' else None, depth + 1, out)
        out.append(('E', node.t, None, None, (), depth))
    else:
        out.append(('V', node.t, None if node.null else scalar_canon(node.t, node.v), field, node.ann, depth))
    return out


def stream_events(nodes):
    out = []
    for n in nodes:
        events_of(n, None, 0, out)
    return out


# --- canonical view of what the library produced -----------------------------------------------------------------------

def tok_text(tok):
    """A symbol token by Ion equality: its text, or its import location, or symbol zero."""
    if tok is None:
        return None
    if isinstance(tok, str):
        return tok
    if not isinstance(tok, SymbolToken):
        return ('BADTOKEN', type(tok).__name__)
    if tok.text is not None:
        if not isinstance(tok.text, str):
            return ('BADTOKENTEXT', type(tok.text).__name__)
        return tok.text
    if tok.location is not None:
        return Unk(('imp', tok.location.name, tok.location.position))
    if tok.sid == 0:
        return ZERO
    return Unk(('loc', tok.sid))


def tok_full(tok):
    """A symbol token with all its attributes."""
    if tok is None:
        return None
    if not isinstance(tok, SymbolToken):
        return ('BADTOKEN', type(tok).__name__, repr(tok))
    loc = tok.location
    return (tok.text, tok.sid, None if loc is None else (loc.name, loc.position))


def canon_value(ion_type, value, tok):
    """``value`` as a model scalar; type confusion shows up as a BADTYPE tuple."""
    if value is None:
        return None
    t = TYPES[int(ion_type)]
    if t == 'bool':
        if isinstance(value, bool) or (isinstance(value, int) and value in (0, 1)):
            return bool(value)
    elif t == 'int':
        if isinstance(value, int) and not isinstance(value, bool):
            return int(value)
    elif t == 'float':
        if isinstance(value, float):
            return canon_float(value)
    elif t == 'decimal':
        if isinstance(value, Decimal) and value.is_finite():
            return canon_decimal(value)
    elif t == 'timestamp':
        if isinstance(value, datetime):
            return canon_timestamp(value)
    elif t == 'symbol':
        return tok(value)
    elif t == 'string':
        if isinstance(value, str):
            return str(value)
    elif t in ('clob', 'blob'):
        if isinstance(value, bytes):
            return bytes(value)
    return ('BADTYPE', t, type(value).__name__, repr(value))


def without_digits(coef, n):
    """coef // 10 ** n in a time which does not depend on n."""
    return 0 if coef.bit_length() <= 3 * n else coef // 10 ** n


def canon_timestamp(ts):
    off = ts.utcoffset()
    if off is not None:
        secs = off.days * 86400 + off.seconds
        off = secs // 60 if secs % 60 == 0 and off.microseconds == 0 else ('BADOFFSET', repr(off))
    if isinstance(ts, Timestamp):
        p = ts.precision
        p = SECOND if p is None else int(p)
        frac = ts.fractional_seconds
        if frac is None:
            frac = Decimal(0)
        sign, coef, exp = canon_decimal(frac)
        if sign and coef == 0:
            sign = 0
        frac = None if (coef == 0 and exp >= 0) else (coef, exp)
        # The derived attributes must agree with the exact one.
        want_fp = 0 if frac is None else min(-exp, 6)
        want_us = 0 if frac is None else (coef * 10 ** (exp + 6) if exp + 6 >= 0 else without_digits(coef, -(exp + 6)))
        if sign or ts.fractional_precision != want_fp or ts.microsecond != want_us:
            return ('BADFRACTION', frac, ts.fractional_precision, ts.microsecond)
    else:
        p = SECOND
        frac = (ts.microsecond, -6) if ts.microsecond else None
    return (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, frac, p, off)


_KIND = {
    IonEventType.SCALAR: 'V', IonEventType.CONTAINER_START: 'S', IonEventType.CONTAINER_END: 'E',
    IonEventType.VERSION_MARKER: 'IVM', IonEventType.STREAM_END: 'END', IonEventType.INCOMPLETE: 'INC',
}


def canon_event(ev, tok=tok_text):
    kind = _KIND.get(ev.event_type, repr(ev.event_type))
    if kind in ('END', 'INC'):
        return (kind,)
    if kind == 'IVM':
        return (kind, tuple(ev.value), ev.depth)
    t = None if ev.ion_type is None else TYPES[int(ev.ion_type)]
    value = canon_value(ev.ion_type, ev.value, tok) if ev.ion_type is not None else ev.value
    anns = ev.annotations
    return (kind, t, value, tok(ev.field_name), tuple([tok(a) for a in anns]), ev.depth)


# --- generation ----------------------------------------------------------------------------------------------------------

TEXT_POOL = [
    'a', '', 'b', 'name', 'foo', 'x1', '_', '$', 'hello world', "it's", 'say "hi"', 'back\\slash', 'new\nline', 'tab\t',
    'cr\rlf\r\n', '\x00', '\x7f', '\x04', '\x80', 'caf\u00e9', '\u65e5\u672c', '\U0001F600', '\ufeff', '\uffff',
    '\U0010ffff', 'null', 'true', 'false', 'nan', '+inf', '-inf', '$10', '$0', '$99', '$ion_2_0', '$ion', 'null.int',
    'int', '{', '}', '[', ']', '(', ')', ',', ':', '::', '//', '/*', '*/', "'''", '{{', '}}', '+', '-', '.', '1', '-1',
    '2001T', 'symbols', 'imports', 'max_id', 'version', '$ion_shared_symbol_table', 'abcdefghijklm', 'abcdefghijklmn',
    'abcdefghijklmno', ' ', '\t', '\u2028', '\x85', '\x0b\x0c', '\u0301', 'a' * 64, '\u20ac' * 5, '\x1b[0m', '\\n', '\\u0041',
    '%s', '\u00ff', '\u0100', '\u07ff\u0800', '\ud7ff\ue000',
]
LONG_TEXT = ['x' * 127, 'y' * 128, 'z' * 129, '\u20ac' * 43, 'w' * 300, ('0123456789abcdef' * 600)]


def gen_text(ch, cfg):
    k = ch.draw(20)
    if k < 13:
        return ch.pick(TEXT_POOL)
    if k < 18:
        n = ch.draw(12)
        return ''.join(gen_char(ch) for _ in range(n))
    if k == 18:
        return ch.pick(TEXT_POOL) + ch.pick(TEXT_POOL)
    return ch.pick(LONG_TEXT) if cfg.get('long') else ch.pick(LONG_TEXT[:4])


def gen_char(ch):
    k = ch.draw(8)
    if k < 4:
        return chr(ch.range(0x61, 0x7a))
    if k == 4:
        if ch.draw(4) == 3:
            return ch.pick('\n\n\'"\\\r\t')
        return chr(ch.range(0x20, 0x7e))
    if k == 5:
        return chr(ch.range(0, 0xff))
    c = ch.range(0x100, 0x10ffff) if k == 7 else ch.range(0x100, 0xffff)
    if 0xd800 <= c <= 0xdfff:
        c = 0x20ac
    return chr(c)


SYMBOL_POOL = ['a', 'b', 'c', 'name', 'foo', 'bar', '', 'caf\u00e9', '\U0001F600', 'hello world', 'null', 'true', 'nan',
               '$10', '$ion_2_0', "q'q", 'symbols', 'imports', 'x' * 15, 'sym_14_chars__', '$ion', 'version', '+', '\n',
               '$ion_symbol_table', 'max_id', 'null.int', '\x00', '\u65e5\u672c', '1a', '$', '_', '$x', 'false', '+inf',
               '\\', '"', '$ion_shared_symbol_table', '$ion_1_0']

# Text which resembles something else: beginnings of keywords and version markers, operators, delimiters.
NEAR_POOL = ['n', 'nu', 'nul', 'nulls', 'null.', 'null_int', 't', 'tru', 'truex', 'f', 'fals', 'na', 'nanx', 'inf', '-inf', 'i',
             '$i', '$ion_', '$ion_1', '$ion_1_', '$ion_1_0x', '$ion_10_2', '$ion_1_00', '$ion_x_0', '$1x', '$0', '$00', '$99999',
             '-', '--', '.', '/', '*', '=>', '@#', '+1', '-1', '::', ':', '{', '}}', "'''", '//', '/*', '\r\n', '\u2028', '0x1',
             '2000T', ' ', 'a b', '%', '!', '\ufeff', '\x85', '\xa0', '\x7f']


def gen_symbol(ch, cfg):
    """The text of a symbol token, or ZERO."""
    k = ch.draw(24)
    pool = cfg.get('symbols') or SYMBOL_POOL
    if k < 20:
        return ch.pick(pool)
    if k < 22:
        t = gen_text(ch, cfg)
        return t
    if k == 22 and cfg.get('zero', True):
        return ZERO
    if cfg.get('symbols') is None and ch.draw(3):
        return ch.pick(NEAR_POOL)
    return 's%d' % ch.draw(1000)


INT_POOL = [0, 1, -1, 2, 10, 63, 64, 127, 128, 129, 255, 256, -64, -127, -128, -129, -255, -256, 8191, 8192, 16383,
            16384, 32767, 32768, 65535, 65536, -65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63 - 1,
            2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, -2 ** 64, 2 ** 103, 2 ** 104, -2 ** 104, 2 ** 127, 10 ** 30,
            -10 ** 40, 2 ** 1016 - 1, 2 ** 1016]


def gen_int(ch):
    k = ch.draw(6)
    if k < 4:
        return ch.pick(INT_POOL)
    n = ch.range(1, 90)
    v = ch.bits(n)
    return -v if ch.draw(2) else v


FLOAT_POOL = [0.0, 1.0, -1.0, 0.5, 0.1, -0.0, 1.5, 1e10, 1e16, 1e22, 123456789.125, 5e-324, 2.2250738585072014e-308,
              1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), 1e-7, 3.4028234663852886e38, 1e100, -1e-100,
              0.30000000000000004, 16777216.0, 16777217.0, 1.1754943508222875e-38]


def gen_float(ch):
    if ch.draw(4) < 3:
        return ch.pick(FLOAT_POOL)
    bits = ch.bits(64)
    return struct.unpack('>d', struct.pack('>Q', bits))[0]


def gen_decimal(ch):
    """(sign, coefficient, exponent)"""
    k = ch.draw(6)
    if k < 2:
        coef = ch.pick([0, 1, 5, 10, 15, 100, 127, 128, 255, 256, 32767, 32768, 10 ** 17, 10 ** 28, 10 ** 28 + 1,
                        123456789012345678901234567890123, 2 ** 64, 2 ** 127, 10 ** 60 + 7])
    else:
        coef = ch.bits(ch.range(1, 120))
    if ch.draw(3) < 2:
        exp = ch.pick([0, -1, 1, -2, -3, 2, 5, -10, 10, -28, -29, 40, -63, -64, 63, 64, -65, 100, -100, 8191, 8192, -8191,
                       -8192, 500, -500,
                       2 ** 20 - 1, 2 ** 20, -2 ** 20, 1 - 2 ** 20])
    else:
        exp = ch.range(-200, 200)
    sign = 1 if ch.chance(1, 3) else 0
    return (sign, coef, exp)


MONTH_DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def gen_timestamp(ch):
    p = ch.pick([SECOND, SECOND, SECOND, MINUTE, DAY, MONTH, YEAR])
    y = ch.pick([2000, 2001, 2016, 1999, 1970, 1969, 1900, 1899, 1500, 400, 127, 128, 2, 4000, 9998])
    mo = ch.range(1, 12) if p >= MONTH else 1
    d = ch.range(1, MONTH_DAYS[mo - 1]) if p >= DAY else 1
    if mo == 2 and p >= DAY and y % 4 == 0 and (y % 100 or y % 400 == 0) and ch.chance(1, 2):
        d = 29
    h = mi = s = 0
    frac = None
    off = None
    if p >= MINUTE:
        h = ch.pick([0, 23, ch.range(0, 23)])
        mi = ch.pick([0, 59, ch.range(0, 59)])
        off = ch.pick([0, None, 60, -60, 330, -480, 1, -1, 1439, -1439, 63, 64, -64, 90, ch.range(-1439, 1439)])
    if p == SECOND:
        s = ch.pick([0, 59, ch.range(0, 59)])
        k = ch.draw(4)
        if k:
            n = ch.pick([3, 6, 1, 2, 4, 5, 7, 9, 12, 20, 30, 40])
            c = ch.pick([0, 1, 10 ** n - 1, 5 * 10 ** (n - 1)]) if k == 1 else ch.bits(100) % (10 ** n)
            frac = (c, -n)
    return (y, mo, d, h, mi, s, frac, p, off)


def gen_bytes(ch, cfg):
    k = ch.draw(8)
    if k < 3:
        return ch.pick([b'', b'\x00', b'hello', b'\xff', b'\xe0\x01\x00\xea', b'"', b'\\', b'\n', b'\x80\x04', b'ab', b'abc',
                        b'a' * 13, b'a' * 14, b'}}', b"'''", b'0' * 127, b'1' * 128])
    n = ch.draw(24)
    return bytes(ch.draw(256) for _ in range(n))


def gen_clob(ch, cfg):
    return gen_bytes(ch, cfg)


SCALARS = ['int', 'string', 'symbol', 'bool', 'null', 'float', 'decimal', 'timestamp', 'clob', 'blob']


def swarm_cfg(ch, **over):
    """A random configuration of the workload for one run."""
    cfg = {}
    cfg['max_depth'] = ch.pick([3, 2, 1, 5])
    cfg['max_kids'] = ch.pick([3, 2, 4, 6])
    enabled = list(SCALARS)
    if ch.chance(1, 3):
        enabled = [t for t in SCALARS if ch.draw(3)] or ['int', 'symbol']
    cfg['scalars'] = enabled
    cfg['containers'] = ch.pick([1, 2, 0, 4])
    cfg['ann'] = ch.pick([1, 0, 3])          # chance of annotation in sixths
    cfg['null'] = ch.pick([1, 0, 3])         # chance of a typed null in twelfths
    if ch.chance(1, 4):
        cfg['symbols'] = ['a', 'b', 'c']     # few symbols: heavy reuse
    cfg['big'] = ch.chance(1, 80)
    cfg['marathon'] = not cfg['big'] and ch.chance(1, 150)      # a long history of small steps
    cfg.update(over)
    return cfg


def gen_scalar(ch, t, cfg):
    if t == 'bool':
        return bool(ch.draw(2))
    if t == 'int':
        return gen_int(ch)
    if t == 'float':
        return gen_float(ch)
    if t == 'decimal':
        return gen_decimal(ch)
    if t == 'timestamp':
        return gen_timestamp(ch)
    if t == 'symbol':
        return gen_symbol(ch, cfg)
    if t == 'string':
        return gen_text(ch, cfg)
    if t == 'clob':
        return gen_clob(ch, cfg)
    if t == 'blob':
        return gen_bytes(ch, cfg)
    raise AssertionError(t)


def gen_anns(ch, cfg):
    if not cfg['ann'] or not ch.chance(cfg['ann'], 6):
        return ()
    n = ch.pick([1, 1, 2, 3])
    return tuple(gen_symbol(ch, cfg) for _ in range(n))


def gen_big(ch, cfg):
    """A value of a size at which encodings change: long lengths, many children, annotations or levels."""
    k = ch.draw(8)
    if k < 3:
        n = ch.pick([16383, 16384, 16385, 16380, 20000, 2 ** 15, 1000])
        t = ch.pick(['string', 'blob', 'clob', 'symbol'])
        if t == 'blob':
            v = (bytes(range(256)) * (n // 256 + 1))[:n]
        elif t == 'clob':
            v = (bytes(range(32, 127)) * (n // 95 + 1))[:n]
        else:
            v = (ch.pick(['0123456789abcdef', '\u20ac', 'ab\ncd', "it's \\ "]) * n)[:n if ch.draw(2) else n // 3]
        node = N(t, v, gen_anns(ch, cfg))
        if ch.draw(2):
            node = N(ch.pick(['list', 'sexp']), None, gen_anns(ch, cfg), [(None, N('int', 1)), (None, node), (None, N('int', 2))])
        return node
    if k < 6:
        t = ch.pick(['list', 'struct', 'sexp'])
        n = ch.pick([130, 127, 128, 260, 14, 40])
        small = dict(cfg, containers=0, max_depth=0)
        kinds = ch.pick([('int',), ('symbol',), tuple(cfg['scalars'])])
        kids = []
        for i in range(n):
            if kinds == ('int',):
                v = N('int', i * 37)
            elif kinds == ('symbol',):
                v = N('symbol', 'sym%d' % i)
            else:
                v = gen_node(ch, small)
            kids.append(('f%d' % i if t == 'struct' else None, v))
        return N(t, None, gen_anns(ch, cfg), kids)
    if k == 6:
        n = ch.pick([13, 14, 20, 130, 8])
        return N('string', 'annotated', tuple('ann%d' % (i % 100) for i in range(n)))
    node = gen_node(ch, cfg, cfg['max_depth'])
    for i in range(ch.pick([12, 30, 60])):
        t = ch.pick(['list', 'struct', 'sexp'])
        f = 'd%d' % i if t == 'struct' else None
        node = N(t, None, gen_anns(ch, cfg) if i % 8 == 0 else (), [(f, node)] + ([(f, N('int', i))] if ch.draw(3) == 0 else []))
    return node


WORD_POOL = ['n', 'nu', 'nul', 'nulls', 'a', 't', 'tru', 'trues', 'f', 'fals', 'na', 'nans', 'inf', '$', '$i', '$ion_', '$ion_1',
             '$1x', 'b2', '_']
OPERATOR_POOL = ['+', '-', '*', '/', '.', '--', '=>', '<', '&&', '!', '+-', '..', '|', '~@']


def gen_term(ch, cfg):
    """Something which usually touches its neighbours in an s-expression."""
    k = ch.draw(8)
    if k < 3 and 'symbol' in cfg['scalars']:
        return N('symbol', ch.pick(WORD_POOL))
    if k < 6 and 'symbol' in cfg['scalars']:
        return N('symbol', ch.pick(OPERATOR_POOL))
    t = ch.pick([t for t in ('bool', 'null', 'float', 'int') if t in cfg['scalars']] or cfg['scalars'])
    return N('null', None) if t == 'null' else N(t, gen_scalar(ch, t, cfg))


def gen_node(ch, cfg, depth=0, top=False):
    if top and cfg.get('big') and not ch.draw(2):
        node = gen_big(ch, cfg)
        cfg['big'] = False
        fix_top(node)
        return node
    t = None
    if depth < cfg['max_depth'] and cfg['containers'] and ch.draw(4 + cfg['containers']) >= 4:
        t = ch.pick(['list', 'struct', 'sexp'])
    if t is None:
        t = ch.pick(cfg['scalars'])
    anns = gen_anns(ch, cfg)
    if cfg['null'] and t != 'null' and ch.chance(cfg['null'], 12):
        node = N(ch.pick(['null'] + [t] * 2 + list(CONTAINERS)), None, anns, null=True)
    elif t in CONTAINERS:
        kids = []
        if t == 'sexp' and not ch.draw(6) and cfg.get('symbols') is None:
            kids = [(None, gen_term(ch, cfg)) for _ in range(ch.range(2, 6))]
        else:
            for _ in range(ch.draw(cfg['max_kids'] + 1)):
                f = gen_symbol(ch, cfg) if t == 'struct' else None
                kids.append((f, gen_node(ch, cfg, depth + 1)))
        node = N(t, None, anns, kids)
    elif t == 'null':
        node = N('null', None, anns)
    else:
        node = N(t, gen_scalar(ch, t, cfg), anns)
    if top:
        fix_top(node)
    return node


def fix_top(node):
    """Top-level values which have a meaning for the system are generated by other means."""
    if node.t == 'struct' and node.ann and node.ann[0] == '$ion_symbol_table':
        node.ann = ('sym_tab',) + node.ann[1:]
    if node.t == 'symbol' and not node.ann and isinstance(node.v, str) and node.v.startswith('$ion_'):
        if node.v == '$ion_1_0':
            node.v = 'a'
    return node


def gen_stream(ch, cfg, lo=0, hi=6):
    return [gen_node(ch, cfg, 0, True) for _ in range(ch.range(lo, hi))]


def shape(node):
    """A structural signature of a value, used to count distinct cases."""
    if node.null:
        return 'n' + node.t
    if node.t in CONTAINERS:
        return (node.t, len(node.ann), tuple(shape(k) for _, k in node.kids))
    return (node.t, len(node.ann))
