"""Model values as what a user of the library hands over: Python objects for dump(), events for the writers."""
from datetime import datetime, timedelta, timezone
from decimal import Decimal

from amazon.ion.core import IonEvent, IonEventType, IonType, OffsetTZInfo, Timestamp, TimestampPrecision
from amazon.ion.core import ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.simple_types import (IonPyBool, IonPyBytes, IonPyDecimal, IonPyDict, IonPyFloat, IonPyInt, IonPyList,
                                     IonPyNull, IonPySymbol, IonPyText, IonPyTimestamp)
from amazon.ion.symbols import SymbolToken

from .binenc import Plain
from .model import CONTAINERS, SECOND, TYPES, Unk, ZERO

ION_TYPES = dict(zip(TYPES, [IonType.NULL, IonType.BOOL, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP,
                             IonType.SYMBOL, IonType.STRING, IonType.CLOB, IonType.BLOB, IonType.LIST, IonType.SEXP,
                             IonType.STRUCT]))
PRECISIONS = [TimestampPrecision.YEAR, TimestampPrecision.MONTH, TimestampPrecision.DAY, TimestampPrecision.MINUTE,
              TimestampPrecision.SECOND]

END = IonEvent(IonEventType.CONTAINER_END)
IVM_EVENT = ION_VERSION_MARKER_EVENT
STREAM_END = ION_STREAM_END_EVENT
PLAIN = Plain()


def decimal_obj(v):
    sign, coef, exp = v
    return Decimal((sign, tuple(int(c) for c in str(coef)), exp))


def timestamp_obj(v, ch=PLAIN):
    y, mo, d, h, mi, s, frac, p, off = v
    tz = None
    if off is not None:
        delta = timedelta(minutes=off)
        tz = timezone(delta) if ch.draw(2) else OffsetTZInfo(delta)
    if p == SECOND and frac is not None and frac[1] == -6 and ch.draw(3) == 2:
        return datetime(y, mo, d, h, mi, s, frac[0], tz)
    kw = {'precision': PRECISIONS[p]}
    if p == SECOND and frac is not None and -6 <= frac[1] < 0 and ch.draw(3) == 2:
        # the older way to give a fraction
        kw['fractional_precision'] = -frac[1]
        return Timestamp(y, mo, d, h, mi, s, frac[0] * 10 ** (6 + frac[1]), tz, **kw)
    if p == SECOND and frac is None and ch.draw(2):
        if ch.draw(2):
            del kw['precision']
        return Timestamp(y, mo, d, h, mi, s, tzinfo=tz, **kw)
    if frac is not None:
        kw['fractional_seconds'] = decimal_obj((0, frac[0], frac[1]))
    return Timestamp(y, mo, d, h, mi, s, tzinfo=tz, **kw)


def token_obj(tok, ch=PLAIN, symbol_value=False, known=None):
    """A token as the writers accept it: text, or a SymbolToken which may carry a meaningless ID from elsewhere.

    ``known`` is the symbol context with which the writer starts; symbols it defines may be given by ID alone.
    """
    if tok == ZERO:
        return SymbolToken(None, 0)
    if known is not None:
        sids = known.sids_of(tok)
        if sids and (isinstance(tok, Unk) or ch.draw(4) == 3):
            return SymbolToken(None, sids[ch.draw(len(sids))])
    if isinstance(tok, Unk):
        raise AssertionError(tok)
    k = ch.draw(4)
    if k < 2 and not symbol_value:
        return tok
    if k == 3:
        return SymbolToken(tok, ch.pick([1, 4, 9, 10, 11, 57]))
    return SymbolToken(tok, None)


def scalar_obj(node, ch=PLAIN, known=None):
    t, v = node.t, node.v
    if t == 'decimal':
        return decimal_obj(v)
    if t == 'timestamp':
        return timestamp_obj(v, ch)
    if t == 'symbol':
        return token_obj(v, ch, ch.draw(2) == 0, known)
    return v


# --- events --------------------------------------------------------------------------------------------------------------

def events_for_writer(node, ch=PLAIN, known=None, field=None, in_struct=False, depth=0, out=None):
    """The events which write a value."""
    if out is None:
        out = []
    f = token_obj(field, ch, False, known) if in_struct else None
    anns = tuple(token_obj(a, ch, False, known) for a in node.ann)
    if node.ann and ch.draw(4) == 1:
        anns = list(anns)
    d = depth if ch.draw(2) else None
    t = ION_TYPES[node.t]
    if node.t in CONTAINERS and not node.null:
        out.append(IonEvent(IonEventType.CONTAINER_START, t, field_name=f, annotations=anns, depth=d))
        for kf, k in node.kids:
            events_for_writer(k, ch, known, kf, node.t == 'struct', depth + 1, out)
        out.append(END if ch.draw(2) == 0 else IonEvent(IonEventType.CONTAINER_END, t, depth=d))
    else:
        out.append(IonEvent(IonEventType.SCALAR, t, None if node.null else scalar_obj(node, ch, known), field_name=f,
                            annotations=anns, depth=d))
    return out


# --- objects -------------------------------------------------------------------------------------------------------------

WRAPPERS = {'bool': IonPyBool, 'int': IonPyInt, 'float': IonPyFloat, 'decimal': IonPyDecimal, 'timestamp': IonPyTimestamp,
            'symbol': IonPySymbol, 'string': IonPyText, 'clob': IonPyBytes, 'blob': IonPyBytes}


def plain_ok(node, tuple_as_sexp):
    """Whether the value can be given as a plain Python object."""
    if node.ann or (node.null and node.t != 'null') or node.t == 'clob':
        return False
    if node.null:
        return True
    if node.t == 'sexp':
        return tuple_as_sexp
    if node.t == 'struct':
        keys = [f for f, _ in node.kids]
        # Symbols without text may be the key None, but not in a plain dict.
        return all(isinstance(f, str) for f in keys) and len(set(keys)) == len(keys)
    return True


def py_obj(node, ch=PLAIN, tuple_as_sexp=False, known=None, wrap=False):
    t = node.t
    anns = tuple(token_obj(a, ch, False, known) for a in node.ann)
    plain = plain_ok(node, tuple_as_sexp) and ch.draw(3) < 2 and not wrap
    it = ION_TYPES[t]
    if node.null:
        return None if plain else IonPyNull.from_value(it, None, anns)
    if t == 'struct':
        # Only value objects may stand under the key None, which means symbol zero.
        pairs = [(f, py_obj(k, ch, tuple_as_sexp, known, f == ZERO)) for f, k in node.kids]
        if plain:
            return dict((token_obj(f, ch), v) for f, v in pairs)
        obj = IonPyDict()
        obj.ion_type = it
        obj.ion_annotations = anns
        for f, v in pairs:
            obj.add_item(None if f == ZERO else f, v)
        return obj
    if t in CONTAINERS:
        kids = [py_obj(k, ch, tuple_as_sexp, known) for _, k in node.kids]
        if plain:
            if t == 'sexp':
                return tuple(kids)
            if not tuple_as_sexp and ch.draw(3) == 2:
                return tuple(kids)
            return kids
        return IonPyList.from_value(it, kids, anns)
    v = scalar_obj(node, ch, known)
    if plain:
        if t == 'symbol' and not isinstance(v, SymbolToken):
            v = SymbolToken(v, None)
        return v
    if t == 'symbol' and isinstance(v, str) and ch.draw(2):
        return IonPyText.from_value(it, v, anns)
    return WRAPPERS[t].from_value(it, v, anns)


def grouped(node):
    """The value with the fields in the order in which a Multimap yields them (repeated fields stand together)."""
    if not node.kids:
        return node
    from .model import N
    kids = [(f, grouped(k)) for f, k in node.kids]
    if node.t == 'struct':
        order = []
        by = {}
        for f, k in kids:
            if f not in by:
                by[f] = []
                order.append(f)
            by[f].append((f, k))
        kids = [p for f in order for p in by[f]]
    return N(node.t, node.v, node.ann, kids)
