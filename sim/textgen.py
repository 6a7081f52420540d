"""Independent Ion 1.0 text renderer with deliberate variety in the surface syntax."""
import base64
import re

from .model import CONTAINERS, DAY, MINUTE, MONTH, SECOND, YEAR, ZERO, Sid, Unk, canon_float, scalar_canon
from .plan import Rendered

IDENT = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
KEYWORDS = ('null', 'true', 'false', 'nan')
RESERVED = re.compile(r'\A\$[0-9]+\Z|\A\$ion_[0-9]+_[0-9]+\Z')
OPERATOR = re.compile(r'\A[!#%&*+\-./;<=>?@^`|~]+\Z')

SIMPLE_ESC = {'\x07': 'a', '\x08': 'b', '\t': 't', '\n': 'n', '\x0c': 'f', '\r': 'r', '\x0b': 'v', '?': '?', '\x00': '0',
              "'": "'", '"': '"', '/': '/', '\\': '\\'}


class Style(object):
    """Swarm configuration of the surface syntax."""

    def __init__(self, ch):
        self.comments = ch.chance(1, 3)
        self.spacious = ch.draw(3)
        self.exotic_ws = ch.chance(1, 3)
        self.escapes = ch.draw(4)
        self.long = ch.draw(3)
        self.quoted_symbols = ch.draw(3)
        self.sids = ch.draw(3)
        self.fancy_numbers = ch.draw(3)
        self.crlf = ch.chance(1, 4)
        self.surrogates = False
        self.unquoted_operators = ch.draw(2)
        self.glue = ch.draw(3)


def is_operator(text):
    return OPERATOR.match(text) and '//' not in text and '/*' not in text


class TextRenderer(object):
    def __init__(self, ch, style=None):
        self.ch = ch
        self.style = style or Style(ch)
        self.out = []
        self.pos = 0
        self.r = Rendered()
        self.undetermined = []
        self.visible = True
        self.ctx = None
        self.last_long = False      # the last value could be continued by a long string
        self.soft = False           # the last token must be followed by a separator
        self.tail = None            # kind of the last token which needs care: word, operator, quoted, null or number
        self.tail_end = -1

    # -- low level -------------------------------------------------------------------------------------------------

    def w(self, s):
        self.out.append(s)
        self.pos += len(s)

    def ws(self, required=False):
        """Whitespace and comments."""
        ch, st = self.ch, self.style
        n = 0
        if required:
            self.w(self.space())
            n = 1
        elif st.spacious and ch.draw(3) == 2:
            self.w(self.space())
            n = 1
        if st.comments and ch.chance(1, 6):
            if not n and not (st.glue == 2 and self.end_of() != 'operator' and ch.draw(2)):
                self.w(' ')
            if ch.draw(2):
                body = ch.pick(['', 'c', ' x y ', '*', '**', '/', "'", '"', '{', '\n', '\u20ac', ' * / ', '\r\n',
                                '\\', '\\q', '\\u12', "\\'", '\U0001f600', "'''", '}}', '\x00', ','])
                self.w('/*' + body + '*/')
            else:
                body = ch.pick(['', 'c', ' x::y', '"', "'''", '\u20ac', '/*', '}', '\\', '\\q', '\\u12', '\\x0', ' \U0001f600',
                                '*/', ',', ']', '//', "'", '\\\\'])
                self.w('//' + body + self.newline())
            if ch.draw(2):
                self.w(self.space())

    def ends(self, kind):
        self.tail = kind
        self.tail_end = self.pos

    def end_of(self):
        """The kind of the token which ends here."""
        return self.tail if self.tail_end == self.pos else None

    def newline(self):
        if self.style.crlf:
            return self.ch.pick(['\r\n', '\n', '\r'])
        return '\n'

    def space(self):
        k = self.ch.draw(6)
        if k < 3:
            return ' '
        if k == 3:
            return self.newline()
        if k == 4:
            return '  '
        if self.style.exotic_ws:
            return self.ch.pick(['\t', '\x0b', '\x0c', ' \t ', '\n\n'])
        return ' '

    def settle(self):
        """Everything undetermined so far is determined by what has just been written."""
        for e in self.undetermined:
            e[1] = self.pos
        self.undetermined = []

    # -- text ------------------------------------------------------------------------------------------------------

    def escape_char(self, c, unicode_ok=True):
        ch = self.ch
        o = ord(c)
        k = ch.draw(4)
        if c in SIMPLE_ESC and k < 2:
            return '\\' + SIMPLE_ESC[c]
        if o <= 0xff and (k < 3 or not unicode_ok):
            return ('\\x%02x' if ch.draw(2) else '\\x%02X') % o
        if not unicode_ok:
            raise AssertionError(c)
        if o <= 0xffff and k < 3:
            return ('\\u%04x' if ch.draw(2) else '\\u%04X') % o
        if o > 0xffff and k < 2:
            v = o - 0x10000
            return '\\u%04x\\u%04X' % (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff))
        return '\\U%08x' % o

    def raw_char(self, c):
        if self.style.surrogates and ord(c) > 0xffff and self.ch.draw(2):
            v = ord(c) - 0x10000
            return chr(0xd800 + (v >> 10)) + chr(0xdc00 + (v & 0x3ff))
        return c

    def quoted(self, s, q, clob=False):
        """Body of short quoted text."""
        ch, st = self.ch, self.style
        parts = []
        for c in s:
            must = c == q or c == '\\' or ord(c) < 0x20 or ord(c) == 0x7f or (clob and ord(c) > 0x7e)
            if c in '\t\v\f' and ch.draw(2):
                parts.append(c)
            elif must or (st.escapes == 3 and ch.chance(1, 4)):
                parts.append(self.escape_char(c, not clob))
            else:
                parts.append(self.raw_char(c))
            if st.escapes and not clob and ch.chance(1, 30):
                parts.append('\\' + self.newline())
        body = ''.join(parts)
        if body.startswith('\n'):
            pass
        return self.fix_cr(body)

    @staticmethod
    def fix_cr(body):
        # An escaped '\r' newline directly followed by a raw '\n' would be one newline; never rendered that way
        return body

    def long_segments(self, s, clob=False):
        """'''...''' segments."""
        ch, st = self.ch, self.style
        n = ch.range(1, 3)
        cuts = sorted(ch.draw(len(s) + 1) for _ in range(n - 1))
        pieces = []
        prev = 0
        for c in cuts + [len(s)]:
            pieces.append(s[prev:c])
            prev = c
        for i, piece in enumerate(pieces):
            if i:
                self.ws_no_comment() if clob else self.ws(False)
            parts = []
            for j, c in enumerate(piece):
                if c == '\n' and ch.draw(2):
                    nl = self.newline()
                    # '\r' followed by '\n' would be read as a single newline
                    if nl == '\r' and j + 1 < len(piece) and piece[j + 1] == '\n':
                        nl = '\r\n'
                    if nl == '\n' and parts and parts[-1].endswith('\r'):
                        parts[-1] = parts[-1] + '\n'
                    parts.append(nl)
                elif c in '\t\v\f' and ch.draw(2):
                    parts.append(c)
                elif c == "'" or c == '\\' or ord(c) < 0x20 or ord(c) == 0x7f or (clob and ord(c) > 0x7e) \
                        or (st.escapes == 3 and ch.chance(1, 4)):
                    if c == "'" and 0 < j < len(piece) - 1 and piece[j - 1] != "'" and piece[j + 1] != "'" \
                            and ch.draw(2):
                        parts.append("'")
                    else:
                        parts.append(self.escape_char(c, not clob))
                else:
                    parts.append(self.raw_char(c))
                if st.escapes and ch.chance(1, 30):
                    parts.append('\\' + self.newline())
            self.w("'''" + ''.join(parts) + "'''")

    def ws_no_comment(self):
        if self.ch.draw(2):
            self.w(self.ch.pick([' ', '\n', '  ', '\t']))

    def symbol(self, tok, operator_ok=False, top_value=False):
        """Writes a symbol token; returns it as the raw reader reports it."""
        ch, st = self.ch, self.style
        after = self.end_of()
        if isinstance(tok, Sid):
            self.w('$%d' % tok)
            self.ends('word')
            return (None, int(tok), None)
        sids = self.ctx.sids_of(tok) if self.ctx is not None else []
        if isinstance(tok, Unk) or (sids and st.sids and after not in ('word', 'null', 'number') and ch.chance(st.sids, 8)):
            sid = ch.pick(sids)
            self.w('$%d' % sid)
            self.ends('word')
            return (None, sid, None)
        text = tok
        plain = IDENT.match(text) and text not in KEYWORDS and not RESERVED.match(text)
        if RESERVED.match(text) and not top_value and text.startswith('$ion_') and ch.draw(2):
            plain = True
        if operator_ok and after not in ('operator', 'number') and st.unquoted_operators and is_operator(text):
            self.w(text)
            self.ends('operator')
            return (text, None, None)
        if plain and after not in ('word', 'null', 'number') and not (st.quoted_symbols and ch.chance(st.quoted_symbols, 5)):
            self.w(text)
            self.ends('word')
        else:
            self.w("'" + self.quoted(text, "'") + "'")
            self.ends('quoted')
        return (text, None, None)

    def may_touch(self, node, operators=True):
        """Whether this value may follow the last token without a separator."""
        after = self.tail if self.tail_end == self.pos else None
        if self.soft and after is None:
            return False
        if not self.style.glue or self.last_long:
            return False
        first = node.ann[0] if node.ann else node.v if node.t == 'symbol' and not node.null else None
        if first is not None:
            if after == 'quoted':
                return operators and isinstance(first, str) and not node.ann and is_operator(first) and \
                    self.style.unquoted_operators
            if isinstance(first, (Sid, Unk)):
                return after in (None, 'operator')
            if after == 'operator':
                return not first.startswith('inf')
            if after == 'null' and first.startswith('.'):
                return False
            return True
        if node.null or node.t in ('bool', 'timestamp'):
            return after in (None, 'quoted', 'operator') and not (after == 'operator' and node.t == 'timestamp')
        if node.t == 'int' and node.v > 0 and after == 'operator':
            return not self.out[-1].endswith('-')
        if node.t in ('int', 'decimal', 'float'):
            return after in (None, 'quoted')
        if node.t == 'string':
            return after != 'quoted'
        return True

    # -- numbers ----------------------------------------------------------------------------------------------------

    def underscores(self, digits):
        ch = self.ch
        if self.style.fancy_numbers == 2 and len(digits) > 1 and ch.chance(1, 4):
            i = ch.range(1, len(digits) - 1)
            rest = digits[i:]
            if len(rest) > 1 and ch.draw(2):
                i = ch.range(1, len(rest) - 1)
                return digits[:-len(rest)] + '_' + rest[:i] + '_' + rest[i:]
            return digits[:i] + '_' + rest
        return digits

    def zeros(self):
        """Zeros which change nothing."""
        if self.style.fancy_numbers and self.ch.chance(1, 5):
            return self.ch.pick(['0', '00', '0' * 20])
        return ''

    def int_text(self, v):
        ch = self.ch
        sign = '-' if v < 0 else ''
        m = abs(v)
        k = ch.draw(6) if self.style.fancy_numbers else 0
        if k == 4:
            h = '%x' % m if ch.draw(2) else '%X' % m
            if ch.draw(4) == 3:
                h = ''.join(c.upper() if ch.draw(2) else c.lower() for c in h)
            return sign + ch.pick(['0x', '0X']) + self.underscores(self.zeros() + h)
        if k == 5 and m.bit_length() < 80:
            return sign + ch.pick(['0b', '0B']) + self.underscores(self.zeros() + '{:b}'.format(m))
        if v == 0 and ch.chance(1, 8):
            return '-0'
        return sign + self.underscores(str(m))

    def float_text(self, v):
        ch = self.ch
        if v != v:
            return 'nan'
        if v in (float('inf'), float('-inf')):
            return '+inf' if v > 0 else '-inf'
        t = repr(v)
        if 'e' in t:
            m, e = t.split('e')
        else:
            m, e = t, '0'
        if m.endswith('.0') and ch.draw(2):
            m = m[:-2] if ch.draw(2) else m[:-1]
        elif '.' in m:
            m += self.zeros()
        e = int(e)
        if self.style.fancy_numbers and ch.chance(1, 4):
            # Move the point.
            sign = '-' if m.startswith('-') else ''
            whole, _, frac = m.lstrip('-').partition('.')
            n = ch.range(1, 12)
            if ch.draw(2):
                frac = (whole.rjust(n + 1, '0'))[-n:] + frac
                whole = whole.rjust(n + 1, '0')[:-n].lstrip('0') or '0'
                e += n
            else:
                frac = frac.ljust(n, '0')
                whole, frac = (whole + frac[:n]).lstrip('0') or '0', frac[n:]
                e -= n
            m = sign + self.underscores(whole) + ('.' + self.underscores(frac) if frac or ch.draw(2) else '')
        return m + ch.pick(['e', 'E']) + self.exp_text(e)

    def decimal_text(self, v):
        ch = self.ch
        sign, coef, exp = v
        s = '-' if sign else ''
        digits = str(coef)
        k = ch.draw(4)
        point = None
        if k and exp < 0 and -exp < 60:
            # move some or all of the exponent into a decimal point
            n = -exp if k < 3 else ch.range(1, -exp)
            padded = digits.rjust(n + 1, '0')
            body = self.underscores(padded[:-n]) + '.' + self.underscores(padded[-n:])
            rest = exp + n
            if rest == 0 and ch.draw(2):
                return s + body
            return s + body + ch.pick(['d', 'D']) + self.exp_text(rest)
        if exp == 0 and k:
            return s + self.underscores(digits) + '.'
        return s + self.underscores(digits) + ('.' if k == 1 else '') + ch.pick(['d', 'D']) + self.exp_text(exp)

    def exp_text(self, e):
        zeros = self.zeros()
        if e >= 0 and self.ch.chance(1, 4):
            return '+%s%d' % (zeros, e)
        if e == 0 and self.ch.chance(1, 4):
            return '-0' + zeros
        return '%s%s%d' % ('-' if e < 0 else '', zeros, abs(e))

    def timestamp_text(self, v):
        ch = self.ch
        y, mo, d, h, mi, s, frac, p, off = v
        t = '%04d' % y
        if p == YEAR:
            return t + 'T'
        t += '-%02d' % mo
        if p == MONTH:
            return t + 'T'
        t += '-%02d' % d
        if p == DAY:
            return t + ch.pick(['T', ''])
        t += 'T%02d:%02d' % (h, mi)
        if p == SECOND:
            t += ':%02d' % s
            if frac is not None:
                t += '.' + str(frac[0]).rjust(-frac[1], '0')
        if off is None:
            return t + '-00:00'
        if off == 0:
            return t + ch.pick(['Z', '+00:00', 'Z'])
        return t + '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)

    def base64_text(self, b):
        t = base64.b64encode(b).decode()
        ch = self.ch
        if ch.chance(1, 4) and t:
            out = []
            for c in t:
                out.append(c)
                if ch.chance(1, 6):
                    out.append(ch.pick([' ', '\n', '\t', '\r\n']))
            return ''.join(out)
        return t

    # -- values ------------------------------------------------------------------------------------------------------

    def emit(self, kind, t, value, field, anns, depth, determined):
        """Records the event for the text written so far."""
        if kind == 'V' and t == 'symbol' and value is not None:
            raw_value = value
        else:
            raw_value = value
        raw = (kind, t, raw_value, field, anns, depth)
        e = [raw, self.pos if determined else None]
        if determined:
            # Everything before is determined too.
            self.settle()
        else:
            self.undetermined.append(e)
        self.events.append(e)

    def value(self, node, field, depth, parent):
        ch, st = self.ch, self.style
        anns = []
        for a in node.ann:
            anns.append(self.symbol(a))
            self.last_long = False
            self.ws()
            self.w('::')
            self.settle_previous()
            self.ws()
        anns = tuple(anns)
        t = node.t
        self.soft = True
        if node.null:
            if t == 'null' and ch.draw(3) < 2:
                self.w('null')
                self.ends('null')
            else:
                self.w('null.' + t)
                self.ends('word')
            self.emit('V', t, None, field, anns, depth, False)
            self.last_long = False
            return
        if t in CONTAINERS:
            self.container(node, field, anns, depth)
            self.last_long = False
            self.soft = False
            return
        v = node.v
        value = scalar_canon(t, v)
        long = False
        determined = False
        if t == 'bool':
            self.w('true' if v else 'false')
            self.ends('word')
        elif t == 'int':
            self.w(self.int_text(v))
            self.ends('number')
        elif t == 'float':
            self.w(self.float_text(v))
            self.ends('word' if v != v else 'number')
        elif t == 'decimal':
            self.w(self.decimal_text(v))
            self.ends('number')
        elif t == 'timestamp':
            self.w(self.timestamp_text(v))
            self.ends('number')
        elif t == 'symbol':
            value = self.symbol(v, operator_ok=(parent == 'sexp' and not anns), top_value=(depth == 0 and not anns))
        elif t == 'string':
            long = st.long and ch.chance(st.long, 4) and not self.last_long and \
                not any(0xd800 <= ord(c) <= 0xdfff for c in v)
            if long:
                self.long_segments(v)
            else:
                self.w('"' + self.quoted(v, '"') + '"')
                determined = True
                self.soft = False
        elif t == 'clob':
            text = v.decode('latin-1')
            self.w('{{')
            self.ws_no_comment()
            if st.long and ch.chance(st.long, 4):
                self.long_segments(text, clob=True)
            else:
                self.w('"' + self.quoted(text, '"', clob=True) + '"')
            self.ws_no_comment()
            self.w('}}')
            determined = True
            self.soft = False
        elif t == 'blob':
            self.w('{{')
            self.ws_no_comment()
            self.w(self.base64_text(v))
            self.ws_no_comment()
            self.w('}}')
            determined = True
            self.soft = False
        self.emit('V', t, value, field, anns, depth, determined)
        self.last_long = bool(long)

    def settle_previous(self):
        # Something which cannot belong to the previous values has been read completely.
        self.settle()

    def container(self, node, field, anns, depth):
        ch = self.ch
        t = node.t
        self.w({'list': '[', 'sexp': '(', 'struct': '{'}[t])
        self.emit('S', t, None, field, anns, depth, t != 'struct')
        self.last_long = False
        first = True
        self.soft = False
        for f, k in node.kids:
            if not first:
                if t == 'sexp':
                    touch = self.may_touch(k) and ch.draw(2)
                    if touch:
                        self.r.touching += 1
                    else:
                        self.ws(True)
                else:
                    self.ws()
                    self.w(',')
                    self.settle()
                    self.last_long = False
                    self.ws()
            else:
                if t == 'struct' and k.t in ('clob', 'blob'):
                    self.ws()
                else:
                    self.ws()
            first = False
            ftok = None
            if t == 'struct':
                if isinstance(f, str) and ch.chance(1, 6):
                    if self.style.long and ch.draw(2):
                        self.long_segments(f)
                    else:
                        self.w('"' + self.quoted(f, '"') + '"')
                    ftok = (f, None, None)
                else:
                    ftok = self.symbol(f)
                self.ws()
                self.w(':')
                self.settle()
                self.ws()
            self.value(k, ftok, depth + 1, t)
        self.ws()
        if not first and t != 'sexp' and ch.chance(1, 8):
            self.w(',')
            self.settle()
            self.ws()
        self.w({'list': ']', 'sexp': ')', 'struct': '}'}[t])
        self.emit('E', t, None, None, (), depth, True)

    def top(self, item):
        self.ctx = item.ctx
        self.events = []
        if item.kind == 'ivm':
            self.w('$ion_1_0')
            self.events.append([('IVM', (1, 0), 0), None])
            self.undetermined.append(self.events[-1])
            self.last_long = False
            self.soft = True
        elif item.kind == 'nop':
            return
        else:
            self.value(item.node, None, 0, None)
        for e in self.events:
            self.r.raw.append((e, item))


def resolve_full(ctx, tok):
    """A raw token as the managed reader reports it."""
    if tok is None:
        return None
    if tok[0] is not None:
        return tok
    return ctx.full(tok[1])


def resolve_user(ctx, tok):
    if tok is None:
        return None
    if tok[0] is not None:
        return tok[0]
    return ctx.resolve(tok[1])


def map_tokens(ev, f):
    if ev[0] == 'IVM':
        return ev
    kind, t, v, field, anns, depth = ev
    if t == 'symbol' and v is not None:
        v = f(v)
    return (kind, t, v, f(field), tuple([f(a) for a in anns]), depth)


def render_text(items, ch, style=None, final_newline=None):
    """Returns a Rendered whose offsets are in characters. ``r.open_end`` tells whether the last value needs a flush."""
    tr = TextRenderer(ch, style)
    first = True
    spans = []
    tr.ws()
    for item in items:
        if item.kind == 'nop':
            continue
        if not first:
            if item.node is not None and tr.soft and tr.may_touch(item.node, False) and ch.draw(2):
                tr.r.touching += 1
            else:
                tr.ws(tr.soft or tr.last_long or not ch.chance(1, 4))
        first = False
        start = tr.pos
        tr.top(item)
        spans.append((start, tr.pos, item))
    if final_newline is None:
        tr.ws()
    r = tr.r
    r.data = ''.join(tr.out)
    n = len(r.data)
    raw = []
    for e, item in r.raw:
        ev, off = e
        off = n + 1 if off is None else off
        raw.append((ev, off))
        if item.kind == 'val':
            r.managed.append((map_tokens(ev, lambda t: resolve_full(item.ctx, t)), off))
            r.user.append((map_tokens(ev, lambda t: resolve_user(item.ctx, t)), off))
    r.raw = raw
    r.item_at = spans
    return r


def byte_offsets(text):
    """offset in characters -> offset in UTF-8 bytes"""
    table = [0]
    total = 0
    for c in text:
        o = ord(c)
        total += 1 if o < 0x80 else 2 if o < 0x800 else 3 if o < 0x10000 else 4
        table.append(total)
    table.append(total + 1)
    return table
