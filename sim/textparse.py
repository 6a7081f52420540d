"""Independent recursive-descent parser for Ion 1.0 text (complete documents held in memory).

``parse(text)`` returns (events, ok): the raw events of the longest readable prefix, in the canonical form of the model with
tokens as (text, sid, location), and whether the whole text is a complete, valid stream.  Bytes which are not UTF-8 are
represented by the characters U+DC80 to U+DCFF (surrogateescape) and are no more than tolerated in comments.
"""
import base64
import re

from .calendar_math import days_in
from .model import DAY, MINUTE, MONTH, SECOND, YEAR, canon_float

WS = ' \t\n\r\v\f'
STOP = '{}[](),"\' \t\n\r\v\f'
OPCHARS = '!#%&*+-./;<=>?@^`|~'
TYPE_NAMES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
              'struct')

RE_INT = re.compile(r'-?(?:0|[1-9](?:_?[0-9])*)\Z')
RE_HEX = re.compile(r'-?0[xX][0-9a-fA-F](?:_?[0-9a-fA-F])*\Z')
RE_BIN = re.compile(r'-?0[bB][01](?:_?[01])*\Z')
RE_NUM = re.compile(r'(-?)(0|[1-9](?:_?[0-9])*)(?:\.((?:[0-9](?:_?[0-9])*)?))?(?:([dDeE])([+-]?[0-9](?:_?[0-9])*))?\Z')
RE_TS = re.compile(r'([0-9]{4})(?:T|-([0-9]{2})(?:T|-([0-9]{2})(?:T?|T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?'
                   r'(Z|[+-][0-9]{2}:[0-9]{2}))))\Z')
RE_IDENT = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*')
RE_SID = re.compile(r'\$[0-9]+\Z')
RE_IVM = re.compile(r'\$ion_[0-9]+_[0-9]+\Z')

ESC = {'0': '\0', 'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', 'v': '\v', '?': '?', "'": "'", '"': '"',
       '/': '/', '\\': '\\'}


class Bad(Exception):
    """Incomplete or invalid."""


def join_surrogates(text):
    out = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if '\ud800' <= c <= '\udbff' and i + 1 < n and '\udc00' <= text[i + 1] <= '\udfff':
            out.append(chr(0x10000 + ((ord(c) - 0xd800) << 10) + ord(text[i + 1]) - 0xdc00))
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


class Parser(object):
    def __init__(self, text):
        self.s = join_surrogates(text)
        self.n = len(self.s)
        self.i = 0
        self.out = []

    def peek(self, k=0):
        j = self.i + k
        return self.s[j] if j < self.n else ''

    def ws(self):
        s, n = self.s, self.n
        while self.i < n:
            c = s[self.i]
            if c in WS:
                self.i += 1
            elif c == '/' and self.peek(1) == '/':
                while self.i < n and s[self.i] not in '\r\n':
                    self.i += 1
            elif c == '/' and self.peek(1) == '*':
                end = s.find('*/', self.i + 2)
                if end < 0:
                    raise Bad('comment')
                self.i = end + 2
            else:
                return

    # -- quoted text -----------------------------------------------------------------------------------------------

    def escape(self, clob):
        """After a backslash. Returns the text it denotes."""
        c = self.peek()
        if c == '':
            raise Bad('escape')
        self.i += 1
        if c in ESC:
            return ESC[c]
        if c == '\n':
            return ''
        if c == '\r':
            if self.peek() == '\n':
                self.i += 1
            return ''
        if c == 'x':
            return chr(self.hexdigits(2))
        if clob:
            raise Bad('escape in clob')
        if c == 'u':
            v = self.hexdigits(4)
            if 0xd800 <= v <= 0xdbff:
                if self.s[self.i:self.i + 2] != '\\u':
                    raise Bad('surrogate')
                self.i += 2
                w = self.hexdigits(4)
                if not 0xdc00 <= w <= 0xdfff:
                    raise Bad('surrogate')
                v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00)
            elif 0xdc00 <= v <= 0xdfff:
                raise Bad('surrogate')
            return chr(v)
        if c == 'U':
            v = self.hexdigits(8)
            if v > 0x10ffff or 0xd800 <= v <= 0xdfff:
                raise Bad('escape')
            return chr(v)
        raise Bad('escape')

    def hexdigits(self, k):
        t = self.s[self.i:self.i + k]
        if len(t) < k or not re.match(r'[0-9a-fA-F]+\Z', t):
            raise Bad('hex')
        self.i += k
        return int(t, 16)

    def short(self, q, clob=False):
        """After the opening quote."""
        out = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('quote')
            self.i += 1
            if c == q:
                return ''.join(out)
            if c == '\\':
                out.append(self.escape(clob))
            elif (ord(c) < 0x20 and c not in '\t\v\f') or (clob and ord(c) > 0x7f) or '\udc80' <= c <= '\udcff':
                raise Bad('character')
            else:
                out.append(c)

    def long_segment(self, clob=False):
        """After the opening quotes."""
        out = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('quote')
            if self.s.startswith("'''", self.i):
                self.i += 3
                return ''.join(out)
            self.i += 1
            if c == '\\':
                out.append(self.escape(clob))
            elif c == '\r':
                if self.peek() == '\n':
                    self.i += 1
                out.append('\n')
            elif (ord(c) < 0x20 and c not in WS) or (clob and ord(c) > 0x7f) or '\udc80' <= c <= '\udcff':
                raise Bad('character')
            else:
                out.append(c)

    def long_string(self):
        """At the first opening quotes. Stops directly after the last segment."""
        out = []
        while True:
            self.i += 3
            out.append(self.long_segment())
            mark = self.i
            self.ws()
            if not self.s.startswith("'''", self.i):
                # The position is after the comments: they belong to nobody.
                return ''.join(out)
            del mark

    def lob(self):
        """After '{{'. Returns (type, value)."""
        def blank():
            while self.peek() and self.peek() in WS:
                self.i += 1
        blank()
        if self.peek() == '"':
            self.i += 1
            v = self.short('"', True)
            blank()
            t = 'clob'
        elif self.s.startswith("'''", self.i):
            parts = []
            while self.s.startswith("'''", self.i):
                self.i += 3
                parts.append(self.long_segment(True))
                blank()
            v = ''.join(parts)
            t = 'clob'
        else:
            end = self.s.find('}', self.i)
            if end < 0:
                raise Bad('blob')
            body = ''.join(c for c in self.s[self.i:end] if c not in WS)
            if not re.match(r'[A-Za-z0-9+/]*={0,2}\Z', body) or len(body) % 4:
                raise Bad('base64')
            self.i = end
            v = base64.b64decode(body).decode('latin-1')
            t = 'blob'
        if self.s[self.i:self.i + 2] != '}}':
            raise Bad('lob end')
        self.i += 2
        return t, v.encode('latin-1')

    # -- tokens ----------------------------------------------------------------------------------------------------

    def number(self):
        j = self.i
        while j < self.n and self.s[j] not in STOP:
            if self.s[j] == '/' and self.s[j + 1:j + 2] in ('/', '*') and self.s[j + 1:j + 2]:
                break
            j += 1
        t = self.s[self.i:j]
        self.i = j
        if RE_INT.match(t):
            return 'int', int(t.replace('_', ''))
        if RE_HEX.match(t) or RE_BIN.match(t):
            sign = -1 if t[0] == '-' else 1
            t = t.lstrip('-')
            return 'int', sign * int(t[2:].replace('_', ''), 16 if t[1] in 'xX' else 2)
        m = RE_TS.match(t)
        if m:
            return 'timestamp', self.timestamp(m)
        m = RE_NUM.match(t)
        if m:
            sign, whole, frac, e, exp = m.groups()
            frac = (frac or '').replace('_', '')
            if e in ('e', 'E'):
                return 'float', canon_float(float(t.replace('_', '')))
            coef = int(whole.replace('_', '') + frac)
            return 'decimal', (1 if sign else 0, coef, int((exp or '0').replace('_', '')) - len(frac))
        raise Bad('number %r' % t)

    @staticmethod
    def timestamp(m):
        y, mo, d, h, mi, s, frac, off = m.groups()
        p = YEAR
        if mo is not None:
            p = MONTH
        if d is not None:
            p = DAY
        o = None
        if h is not None:
            p = SECOND if s is not None else MINUTE
            if off == 'Z':
                o = 0
            elif off == '-00:00':
                o = None
            else:
                o = (int(off[1:3]) * 60 + int(off[4:6])) * (-1 if off[0] == '-' else 1)
            if abs(o or 0) >= 1440 or (off != 'Z' and int(off[4:6]) > 59):
                raise Bad('offset')
            if int(h) > 23 or int(mi) > 59 or int(s or 0) > 59:
                raise Bad('time')
        if not (int(y) and 1 <= int(mo or 1) <= 12 and 1 <= int(d or 1) <= days_in(int(y), int(mo or 1))):
            raise Bad('date')
        f = None
        if frac is not None:
            f = (int(frac), -len(frac))
        return (int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(s or 0), f, p, o)

    def symbol_token(self):
        """A quoted or unquoted symbol token (not an operator). Returns (token, quoted text or None, word or None)."""
        c = self.peek()
        if c == "'":
            self.i += 1
            return (self.short("'"), None, None), None
        m = RE_IDENT.match(self.s, self.i)
        if not m:
            raise Bad('token at %d' % self.i)
        self.i = m.end()
        w = m.group()
        if RE_SID.match(w):
            return (None, int(w[1:]), None), None
        return (w, None, None), w

    def word_end(self, sexp, extra=''):
        """Whether an unquoted word may end here."""
        c = self.peek()
        if c == '' or c in STOP or c == ':' or c in extra:
            return
        if c == '/':
            # A comment, an operator, or a mistake which comes after the word.
            return
        if sexp and c in OPCHARS:
            return
        raise Bad('word followed by %r' % c)

    # -- values ----------------------------------------------------------------------------------------------------

    def emit(self, kind, t, v, field, anns, depth):
        self.out.append((kind, t, v, field, anns, depth))

    def value(self, field, depth, sexp):
        """At the first character of a value."""
        anns = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('value expected')
            if c.isdigit() and c in '0123456789' or (c == '-' and self.peek(1) and self.peek(1) in '0123456789'):
                t, v = self.number()
                self.emit('V', t, v, field, tuple(anns), depth)
                return
            if c == '"':
                self.i += 1
                self.emit('V', 'string', self.short('"'), field, tuple(anns), depth)
                return
            if self.s.startswith("'''", self.i):
                self.emit('V', 'string', self.long_string(), field, tuple(anns), depth)
                return
            if self.s.startswith('{{', self.i):
                self.i += 2
                t, v = self.lob()
                self.emit('V', t, v, field, tuple(anns), depth)
                return
            if c == '{':
                self.i += 1
                self.emit('S', 'struct', None, field, tuple(anns), depth)
                self.struct(depth)
                return
            if c == '[':
                self.i += 1
                self.emit('S', 'list', None, field, tuple(anns), depth)
                self.list(depth)
                return
            if c == '(':
                self.i += 1
                self.emit('S', 'sexp', None, field, tuple(anns), depth)
                self.sexp(depth)
                return
            if self.s.startswith('+inf', self.i) or self.s.startswith('-inf', self.i):
                mark = self.i
                self.i += 4
                try:
                    self.word_end(sexp)
                    if self.peek() != ':':
                        self.emit('V', 'float', canon_float(float(self.s[mark:mark + 4])), field, tuple(anns), depth)
                        return
                except Bad:
                    if not sexp:
                        raise
                if not sexp:
                    raise Bad('inf')
                self.i = mark
            if sexp and c in OPCHARS:
                j = self.i
                while j < self.n and self.s[j] in OPCHARS:
                    j += 1
                # The library's tests say that '-//' is an operator.
                t = self.s[self.i:j]
                self.i = j
                self.emit('V', 'symbol', (t, None, None), field, tuple(anns), depth)
                return
            quoted = c == "'"
            tok, word = self.symbol_token()
            if word == 'null' and self.peek() == '.':
                m = re.compile('[a-z]+').match(self.s, self.i + 1)
                if not m:
                    raise Bad('null type')
                if m.group() not in TYPE_NAMES:
                    raise Bad('null type %r' % m.group())
                self.i = m.end()
                self.word_end(sexp)
                if self.peek() == ':':
                    raise Bad('keyword as annotation')
                self.emit('V', m.group(), None, field, tuple(anns), depth)
                return
            if not quoted:
                self.word_end(sexp)
            if word in ('null', 'true', 'false', 'nan'):
                if self.peek() == ':':
                    raise Bad('keyword as annotation')
                v = None if word == 'null' else 'nan' if word == 'nan' else word == 'true'
                t = 'null' if word == 'null' else 'float' if word == 'nan' else 'bool'
                self.emit('V', t, v, field, tuple(anns), depth)
                return
            mark = self.i
            self.ws()
            if self.s.startswith('::', self.i):
                self.i += 2
                anns.append(tok)
                self.ws()
                continue
            if self.peek() == ':':
                raise Bad('colon')
            self.i = mark
            if word is not None and RE_IVM.match(word) and depth == 0 and not anns:
                if word != '$ion_1_0':
                    raise Bad('version')
                self.out.append(('IVM', (1, 0), 0))
            else:
                self.emit('V', 'symbol', tok, field, tuple(anns), depth)
            return

    def list(self, depth):
        self.ws()
        if self.peek() == ']':
            self.i += 1
            self.emit('E', 'list', None, None, (), depth)
            return
        while True:
            self.value(None, depth + 1, False)
            self.ws()
            c = self.peek()
            if c not in (',', ']'):
                raise Bad('list')
            self.i += 1
            if c == ',':
                self.ws()
                if self.peek() != ']':
                    continue
                self.i += 1
            self.emit('E', 'list', None, None, (), depth)
            return

    def sexp(self, depth):
        while True:
            self.ws()
            if self.peek() == ')':
                self.i += 1
                self.emit('E', 'sexp', None, None, (), depth)
                return
            self.value(None, depth + 1, True)

    def struct(self, depth):
        self.ws()
        if self.peek() == '}':
            self.i += 1
            self.emit('E', 'struct', None, None, (), depth)
            return
        while True:
            if self.peek() == '"':
                self.i += 1
                field = (self.short('"'), None, None)
            elif self.s.startswith("'''", self.i):
                field = (self.long_string(), None, None)
            else:
                quoted = self.peek() == "'"
                field, word = self.symbol_token()
                if not quoted:
                    self.word_end(False)
                if word in ('null', 'true', 'false', 'nan'):
                    raise Bad('keyword as field name')
            self.ws()
            if self.peek() != ':':
                raise Bad('field')
            self.i += 1
            if self.peek() == ':':
                raise Bad('annotated field name')
            self.ws()
            self.value(field, depth + 1, False)
            self.ws()
            c = self.peek()
            if c not in (',', '}'):
                raise Bad('struct')
            self.i += 1
            if c == ',':
                self.ws()
                if self.peek() != '}':
                    continue
                self.i += 1
            self.emit('E', 'struct', None, None, (), depth)
            return

    def document(self):
        while True:
            self.ws()
            if self.i >= self.n:
                return
            self.value(None, 0, False)


def parse(text):
    p = Parser(text)
    try:
        p.document()
    except Bad:
        return p.out, False
    except ValueError:
        return p.out, False
    return p.out, True
