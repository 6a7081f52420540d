"""What a piece of output denotes, according to the independent decoders."""
from . import bindec
from .symctx import CatalogModel, ManagedModel, ModelError
from .pyvals import user_events
from .textparse import parse

EMPTY = CatalogModel()


class NotIon(Exception):
    pass


def raw_of(data, binary):
    """Raw events; raises NotIon unless the data is a complete valid stream."""
    if binary:
        try:
            events, end = bindec.decode(bytes(data))
        except bindec.Bad as e:
            raise NotIon('not binary Ion: %s' % e)
        if end != len(data):
            raise NotIon('the data ends inside the item which starts at %d' % end)
        return events
    try:
        text = bytes(data).decode('utf-8') if not isinstance(data, str) else data
    except UnicodeDecodeError as e:
        raise NotIon('not UTF-8: %s' % e)
    events, ok = parse(text)
    if not ok:
        raise NotIon('not text Ion after %d events' % len(events))
    return events


def user_of(data, binary, catalog=EMPTY):
    """User-visible events with tokens by Ion equality."""
    model = ManagedModel(catalog)
    out = []
    try:
        for ev in raw_of(data, binary):
            out.extend(model.feed(ev))
    except ModelError as e:
        raise NotIon('undefined symbol: %s' % e)
    return [e for e in user_events(out) if e[0] != 'IVM']
