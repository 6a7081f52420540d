"""Independent Ion 1.0 binary encoder with deliberate variety in the encoding.

``encode_value`` returns the bytes of a value together with its events, each with the offset of the byte after which
the event is fully determined, so that prompt delivery can be judged byte by byte.
"""
import struct

from .model import CONTAINERS, DAY, MINUTE, MONTH, SECOND, YEAR, Sid, canon_float, scalar_canon

IVM = b'\xe0\x01\x00\xea'
TYPE_ID = {'null': 0, 'bool': 1, 'int': 2, 'float': 4, 'decimal': 5, 'timestamp': 6, 'symbol': 7, 'string': 8, 'clob': 9,
           'blob': 10, 'list': 11, 'sexp': 12, 'struct': 13}


class Plain(object):
    """No variety: every optional choice is the canonical one."""

    def draw(self, n):
        return 0

    def chance(self, a, b):
        return False


def var_uint(v, pad=0):
    out = [0x80 | (v & 0x7f)]
    v >>= 7
    while v:
        out.append(v & 0x7f)
        v >>= 7
    out.extend([0] * pad)
    return bytes(reversed(out))


def var_int(v, pad=0, negative_zero=False):
    neg = v < 0 or negative_zero
    m = abs(v)
    out = []
    while True:
        out.append(m & 0x7f)
        m >>= 7
        if not m:
            break
    if out[-1] & 0x40:
        out.append(0)
    out.extend([0] * pad)
    out.reverse()
    if neg:
        out[0] |= 0x40
    out[-1] |= 0x80
    return bytes(out)


def uint(v, pad=0):
    n = (v.bit_length() + 7) // 8
    return b'\x00' * pad + v.to_bytes(n, 'big')


def sint(sign, m, pad=0):
    """Sign-and-magnitude Int."""
    n = (m.bit_length() + 7) // 8
    b = m.to_bytes(n, 'big')
    if not b:
        b = b'\x00' if (sign or pad) else b''
    elif b[0] & 0x80:
        b = b'\x00' + b
    b = b'\x00' * pad + b
    if sign:
        b = bytes([b[0] | 0x80]) + b[1:]
    return b


def header(tid, length, ch):
    """Type octet and length."""
    if length < 14 and not ch.chance(1, 10):
        return bytes([tid << 4 | length])
    pad = ch.draw(3) if ch.chance(1, 8) else 0
    return bytes([tid << 4 | 14]) + var_uint(length, pad)


def nop(ch):
    n = ch.draw(6)
    if ch.chance(1, 6):
        n = 14 + ch.draw(4)
    if n < 14 and not ch.chance(1, 8):
        return bytes([n]) + b'\xa5' * n
    return b'\x0e' + var_uint(n) + b'\x5a' * n


def nop_field(ch):
    """The field name of padding means nothing, and need not be defined."""
    return var_uint(ch.pick([0, 4, 10, 999])) if ch.chance(1, 3) else b'\x80'


def decimal_body(sign, coef, exp, ch):
    pad = ch.draw(2) if ch.chance(1, 8) else 0
    if coef == 0 and not sign and not ch.chance(1, 4):
        body = var_int(exp, pad)
    else:
        body = var_int(exp, pad) + sint(sign, coef, 1 if ch.chance(1, 8) else 0)
    return body


def utc_fields(ts):
    """Converts local fields to UTC without datetime: simple calendar arithmetic."""
    y, mo, d, h, mi, s, frac, p, off = ts
    if not off:
        return y, mo, d, h, mi
    from .calendar_math import shift_minutes
    return shift_minutes(y, mo, d, h, mi, -off)


def timestamp_body(ts, ch):
    y, mo, d, h, mi, s, frac, p, off = ts
    y, mo, d, h, mi = utc_fields(ts)
    pad = 1 if ch.chance(1, 10) else 0
    out = var_int(off, pad) if off is not None else var_int(0, 0, True)
    out += var_uint(y, 0)
    if p >= MONTH:
        out += var_uint(mo)
    if p >= DAY:
        out += var_uint(d)
    if p >= MINUTE:
        out += var_uint(h) + var_uint(mi, pad)
    if p >= SECOND:
        out += var_uint(s)
        if frac is not None:
            out += var_int(frac[1]) + sint(0, frac[0], 0)
    return out


def scalar_bytes(t, v, ch, sid_of):
    if t == 'bool':
        return b'\x11' if v else b'\x10'
    if t == 'int':
        pad = ch.draw(3) if ch.chance(1, 10) else 0
        body = uint(abs(v), pad)
        return header(3 if v < 0 else 2, len(body), ch) + body
    if t == 'float':
        if canon_float(v) == canon_float(0.0) and not ch.chance(1, 3):
            return b'\x40'
        if ch.draw(2) == 0 or v != v:
            pass
        else:
            try:
                b4 = struct.pack('>f', v)
                if canon_float(struct.unpack('>f', b4)[0]) == canon_float(v):
                    return b'\x44' + b4
            except OverflowError:
                pass
        return b'\x48' + struct.pack('>d', v)
    if t == 'decimal':
        if v == (0, 0, 0) and not ch.chance(1, 3):
            return b'\x50'
        body = decimal_body(v[0], v[1], v[2], ch)
        return header(5, len(body), ch) + body
    if t == 'timestamp':
        body = timestamp_body(v, ch)
        return header(6, len(body), ch) + body
    if t == 'symbol':
        body = uint(sid_of(v), 1 if ch.chance(1, 10) else 0)
        return header(7, len(body), ch) + body
    if t == 'string':
        body = v.encode('utf-8')
        return header(8, len(body), ch) + body
    if t == 'clob':
        return header(9, len(v), ch) + v
    if t == 'blob':
        return header(10, len(v), ch) + v
    raise AssertionError(t)


def encode_value(node, sid_of, ch, field=None, depth=0, nops=True):
    """Returns (bytes without field name, [(event, end offset)])."""
    evs = []
    rank = lambda tok: tok  # tokens are kept as they are in the events
    if node.null:
        body = bytes([TYPE_ID[node.t] << 4 | 15])
        evs = [(('V', node.t, None, field, node.ann, depth), len(body))]
    elif node.t in CONTAINERS:
        content = b''
        kid_events = []
        sids = []
        has_nop = False
        for f, k in node.kids:
            if nops and ch.chance(1, 12):
                pad = nop(ch)
                has_nop = True
                if node.t == 'struct':
                    pad = nop_field(ch) + pad
                content += pad
            if node.t == 'struct':
                sid = sid_of(f)
                sids.append(sid)
                content += var_uint(sid, 1 if ch.chance(1, 12) else 0)
            kb, ke = encode_value(k, sid_of, ch, f if node.t == 'struct' else None, depth + 1, nops)
            base = len(content)
            content += kb
            kid_events.extend((e, base + o) for e, o in ke)
        if nops and ch.chance(1, 12):
            pad = nop(ch)
            has_nop = True
            content += nop_field(ch) + pad if node.t == 'struct' else pad
        if node.t == 'struct' and len(content) >= 2 and node.kids and not has_nop and sids == sorted(sids) \
                and ch.draw(3) == 2:
            head = b'\xd1' + var_uint(len(content), 1 if ch.chance(1, 8) else 0)
        elif node.t == 'struct' and len(content) == 1:
            head = b'\xde\x81'
        else:
            head = header(TYPE_ID[node.t], len(content), ch)
        body = head + content
        evs = [(('S', node.t, None, field, node.ann, depth), len(head))]
        evs.extend((e, len(head) + o) for e, o in kid_events)
        evs.append((('E', node.t, None, None, (), depth), len(body)))
    else:
        body = scalar_bytes(node.t, node.v, ch, sid_of)
        evs = [(('V', node.t, scalar_canon(node.t, node.v), field, node.ann, depth), len(body))]
    if node.ann:
        anns = b''.join(var_uint(sid_of(a)) for a in node.ann)
        inner = var_uint(len(anns), 1 if ch.chance(1, 12) else 0) + anns
        head = header(14, len(inner) + len(body), ch) + inner
        body = head + body
        evs = [(e, len(head) + o) for e, o in evs]
    return body, evs
