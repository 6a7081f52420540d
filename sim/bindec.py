"""Independent, strict Ion 1.0 binary decoder: the judge of what binary writers hand out.

``decode(data)`` returns (raw events, offset): the events of the longest prefix of complete top-level items, with tokens
as (None, sid, None), and the offset where that prefix ends.  It raises Bad for data which cannot be a prefix of a valid
stream.

``decode_prefix(data)`` returns (raw events, state, offset, reason) without raising: the events which the data says up to
the first mistake, down to the item in which it is, and whether the data is 'ok' (complete), 'more' (the start of a valid
stream) or 'bad'.
"""
import struct

from .calendar_math import days_in, shift_minutes
from .model import DAY, MINUTE, MONTH, SECOND, TYPES, YEAR, canon_float, without_digits

IVM = b'\xe0\x01\x00\xea'
NAMES = {0: 'null', 1: 'bool', 2: 'int', 3: 'int', 4: 'float', 5: 'decimal', 6: 'timestamp', 7: 'symbol', 8: 'string',
         9: 'clob', 10: 'blob', 11: 'list', 12: 'sexp', 13: 'struct'}


class Bad(Exception):
    """Not Ion."""


class More(Exception):
    """A valid prefix, but incomplete."""


def need(data, pos, n, end):
    """``end``: where the enclosing value ends, None at the top level."""
    if end is not None and pos + n > end:
        raise Bad('%d bytes wanted at %d, the enclosing value ends at %d' % (n, pos, end))
    if pos + n > len(data):
        raise More()


def span(pos, length, end):
    if end is not None and pos + length > end:
        raise Bad('%d bytes at %d, the enclosing value ends at %d' % (length, pos, end))


def var_uint(data, pos, end):
    v = 0
    while True:
        need(data, pos, 1, end)
        b = data[pos]
        pos += 1
        v = v << 7 | b & 0x7f
        if b & 0x80:
            return v, pos


def var_int(data, pos, end):
    """(sign, magnitude, pos)"""
    if pos >= end:
        raise Bad('VarInt missing')
    b = data[pos]
    pos += 1
    sign = (b >> 6) & 1
    v = b & 0x3f
    n = 0
    while not b & 0x80:
        if pos >= end:
            raise Bad('VarInt is cut off')
        b = data[pos]
        pos += 1
        v = v << 7 | b & 0x7f
        n += 1
    return sign, v, pos


def sint(body):
    if not body:
        return 0, 0
    sign = body[0] >> 7
    return sign, int.from_bytes(bytes([body[0] & 0x7f]) + body[1:], 'big')


def decimal_of(body):
    if not body:
        return (0, 0, 0)
    esign, e, pos = var_int(body, 0, len(body))
    sign, coef = sint(body[pos:])
    return (sign, coef, -e if esign else e)


def timestamp_of(body):
    end = len(body)
    sign, m, pos = var_int(body, 0, end)
    if sign and m == 0:
        off = None
    else:
        off = -m if sign else m
        if m >= 1440:
            raise Bad('offset')
    fields = []
    while pos < end and len(fields) < 6:
        v, pos = var_uint(body, pos, end)
        fields.append(v)
    n = len(fields)
    if n not in (1, 2, 3, 5, 6):
        raise Bad('timestamp with %d fields' % n)
    p = {1: YEAR, 2: MONTH, 3: DAY, 5: MINUTE, 6: SECOND}[n]
    y, mo, d, h, mi, s = (fields + [None] * 6)[:6]
    mo = 1 if mo is None else mo
    d = 1 if d is None else d
    h, mi, s = h or 0, mi or 0, s or 0
    if not (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= days_in(y, mo) and h < 24 and mi < 60 and s < 60):
        raise Bad('timestamp fields %r' % (fields,))
    frac = None
    if pos < end:
        fs, coef, exp = decimal_of(body[pos:])
        if fs and coef:
            raise Bad('negative fraction')
        if coef != 0 and (exp >= 0 or without_digits(coef, -exp) > 0):
            raise Bad('fraction out of range')
        frac = None if (coef == 0 and exp >= 0) else (coef, exp)
    if off:
        y, mo, d, h, mi = shift_minutes(y, mo, d, h, mi, off)
        if not 1 <= y <= 9999:
            raise Bad('local year %d' % y)
    return (y, mo, d, h, mi, s, frac, p, off)


def scalar(tid, length, body):
    name = NAMES[tid]
    if tid in (2, 3):
        v = int.from_bytes(body, 'big')
        if tid == 3:
            if v == 0:
                raise Bad('negative zero')
            v = -v
        return name, v
    if tid == 4:
        if length == 0:
            return name, canon_float(0.0)
        if length == 4:
            return name, canon_float(struct.unpack('>f', body)[0])
        if length == 8:
            return name, canon_float(struct.unpack('>d', body)[0])
        raise Bad('float of %d bytes' % length)
    if tid == 5:
        return name, decimal_of(body)
    if tid == 6:
        return name, timestamp_of(body)
    if tid == 7:
        return name, (None, int.from_bytes(body, 'big'), None)
    if tid == 8:
        try:
            return name, body.decode('utf-8')
        except UnicodeDecodeError as e:
            raise Bad(str(e))
    return name, bytes(body)


def value(data, pos, end, field, depth, out, anns=(), wrapped=False):
    """Appends the events of one value (or of padding: none); returns the position after it."""
    need(data, pos, 1, end)
    b = data[pos]
    pos += 1
    tid, low = b >> 4, b & 15
    if tid == 15:
        raise Bad('type 15')
    if tid == 14:
        if low < 3 or low == 15:
            raise Bad('annotation wrapper %#x' % b)
        if wrapped:
            raise Bad('nested annotation wrapper')
        length = low
        if low == 14:
            length, pos = var_uint(data, pos, None)
        stop = pos + length
        alen, pos = var_uint(data, pos, stop)
        if alen == 0:
            raise Bad('no annotations')
        astop = pos + alen
        if astop > stop:
            raise Bad('annotations exceed the wrapper')
        sids = []
        while pos < astop:
            sid, pos = var_uint(data, pos, astop)
            sids.append((None, sid, None))
        if pos >= stop:
            raise Bad('no value in the annotation wrapper')
        mark = len(out)
        pos = value(data, pos, stop, field, depth, out, tuple(sids), True)
        if pos != stop:
            raise Bad('annotation wrapper of the wrong length')
        if len(out) == mark:
            raise Bad('annotated padding')
        if end is not None and stop > end:
            raise Bad('annotation wrapper exceeds what encloses it')
        return pos
    if tid == 0 and low != 15:
        length = low
        if low == 14:
            length, pos = var_uint(data, pos, end)
        need(data, pos, length, end)
        return pos + length
    if low == 15:
        out.append(('V', NAMES[tid] if tid != 3 else 'int', None, field, anns, depth))
        return pos
    if tid == 1:
        if low > 1:
            raise Bad('bool %d' % low)
        out.append(('V', 'bool', bool(low), field, anns, depth))
        return pos
    length = low
    if low == 14 or (tid == 13 and low == 1):
        if tid == 4:
            raise Bad('float with a length field')
        length, pos = var_uint(data, pos, None)
        if tid == 13 and low == 1 and length == 0:
            raise Bad('empty ordered struct')
    stop = pos + length
    if tid in (11, 12, 13):
        name = NAMES[tid]
        out.append(('S', name, None, field, anns, depth))
        while pos < stop:
            f = None
            if tid == 13:
                sid, pos = var_uint(data, pos, stop)
                f = (None, sid, None)
                if pos >= stop:
                    raise Bad('field without value')
            pos = value(data, pos, stop, f, depth + 1, out)
        if pos != stop:
            raise Bad('container of the wrong length')
        out.append(('E', name, None, None, (), depth))
        if end is not None and stop > end:
            # The reader notices this when the container ends.
            raise Bad('container exceeds what encloses it')
        return stop
    if length == 0 and end is not None and pos > end:
        # Here too the reader notices late.
        out.append(('V',) + scalar(tid, length, b'') + (field, anns, depth))
    need(data, pos, length, end)
    name, v = scalar(tid, length, data[pos:stop])
    out.append(('V', name, v, field, anns, depth))
    return stop


def decode_prefix(data):
    out = []
    pos = 0
    end = len(data)
    mark = 0
    try:
        while pos < end:
            mark = len(out)
            if data[pos] == 0xe0:
                head = data[pos:pos + 4]
                if len(head) < 4:
                    raise More()
                if IVM != head:
                    raise Bad('version marker %r' % head)
                out.append(('IVM', (1, 0), 0))
                pos += 4
                continue
            if pos == 0:
                raise Bad('no version marker')
            pos = value(data, pos, None, None, 0, out)
    except More:
        return out, 'more', pos, mark
    except Bad as e:
        return out, 'bad', pos, str(e)
    return out, 'ok', pos, None


def decode(data):
    out, state, pos, extra = decode_prefix(data)
    if state == 'bad':
        raise Bad(extra)
    if state == 'more':
        del out[extra:]
    return out, pos
