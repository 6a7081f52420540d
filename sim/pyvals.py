"""The high-level (Python object) view of Ion values: canonical trees of what load returns, and of model values."""
from decimal import Decimal

from amazon.ion.core import Multimap
from amazon.ion.simple_types import IonPyNull

from .model import CONTAINERS, TYPES, Unk, canon_value, scalar_canon, tok_text


def field_key(tok):
    """load() keeps the text of a field name; symbols without text share the key None."""
    return None if isinstance(tok, Unk) else tok


def group(pairs):
    keys = []
    values = {}
    for k, v in pairs:
        if k not in values:
            keys.append(k)
            values[k] = []
        values[k].append(v)
    return tuple((k, tuple(values[k])) for k in keys)


def tree_of_node(node):
    """The canonical tree of a model value (tokens by Ion equality)."""
    if node.null:
        return ('V', node.t, None, node.ann)
    if node.t == 'struct':
        return ('C', 'struct', node.ann, group((field_key(f), tree_of_node(k)) for f, k in node.kids))
    if node.t in CONTAINERS:
        return ('C', node.t, node.ann, tuple(tree_of_node(k) for _, k in node.kids))
    return ('V', node.t, scalar_canon(node.t, node.v), node.ann)


def tree_of_py(obj):
    """The canonical tree of an object returned by load()."""
    t = getattr(obj, 'ion_type', None)
    if t is None:
        return ('BAD', type(obj).__name__, repr(obj))
    name = TYPES[int(t)]
    anns = tuple([tok_text(a) for a in obj.ion_annotations])
    if isinstance(obj, IonPyNull):
        return ('V', name, None, anns)
    if name == 'struct':
        if not isinstance(obj, Multimap):
            return ('BAD', type(obj).__name__)
        return ('C', 'struct', anns, group((k, tree_of_py(v)) for k, v in obj.iteritems()))
    if name in CONTAINERS:
        if not isinstance(obj, list):
            return ('BAD', type(obj).__name__)
        return ('C', name, anns, tuple(tree_of_py(v) for v in obj))
    if name == 'null':
        return ('BAD', 'null', repr(obj))
    v = canon_value(t, obj, tok_text)
    return ('V', name, v, anns)


def trees_of_events(events):
    """Trees from complete user-level events."""
    out = []
    stack = []
    for ev in events:
        if ev[0] == 'IVM':
            continue
        kind, t, v, field, anns, depth = ev
        if kind == 'S':
            stack.append((t, anns, [], field))
            continue
        if kind == 'E':
            t, anns, kids, field = stack.pop()
            if t == 'struct':
                tree = ('C', 'struct', anns, group((field_key(f), k) for f, k in kids))
            else:
                tree = ('C', t, anns, tuple(k for _, k in kids))
        else:
            tree = ('V', t, v, anns)
        if stack:
            stack[-1][2].append((field, tree))
        else:
            out.append(tree)
    return out


def strip_full(tok):
    """(text, sid, location) -> token by Ion equality."""
    if tok is None or isinstance(tok, (str, Unk)):
        return tok
    text, sid, loc = tok
    if text is not None:
        return text
    if loc is not None:
        return Unk(('imp', loc[0], loc[1]))
    if sid == 0:
        return Unk(('$0',))
    return Unk(('loc', sid))


def user_events(managed):
    """Events with full tokens -> events with tokens by Ion equality."""
    out = []
    for ev in managed:
        if ev[0] == 'IVM':
            out.append(ev)
            continue
        kind, t, v, field, anns, depth = ev
        if t == 'symbol' and v is not None:
            v = strip_full(v)
        out.append((kind, t, v, strip_full(field), tuple([strip_full(a) for a in anns]), depth))
    return out
