"""Plans of whole Ion streams (version markers, symbol tables, values) and their binary rendering."""
from .binenc import IVM, Plain, encode_value, nop
from .model import CONTAINERS, N, Unk, ZERO, gen_node, swarm_cfg
from .symctx import SYSTEM, CatalogModel, apply_lst, gen_catalog, gen_lst, spread, tokens_of


class Item(object):
    """kind: 'ivm' | 'lst' | 'val' | 'nop'; ctx: the symbol context in force *before* the item."""
    __slots__ = ('kind', 'node', 'ctx', 'data')

    def __init__(self, kind, node=None, ctx=None, data=None):
        self.kind = kind
        self.node = node
        self.ctx = ctx
        self.data = data

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.node if self.node is not None else self.data)


def substitute_tokens(node, ch, choices):
    """Replaces some tokens of a value in place by tokens from ``choices``."""
    def pick(tok):
        return ch.pick(choices) if ch.draw(3) == 2 else tok
    node.ann = tuple(pick(a) for a in node.ann)
    if node.t == 'symbol' and not node.null:
        node.v = pick(node.v)
    if node.kids:
        node.kids = [(pick(f) if node.t == 'struct' else None, substitute_tokens(k, ch, choices)) for f, k in node.kids]
    return node


def is_system_value(node):
    """Top-level values with a meaning for the system."""
    if node.t == 'struct' and not node.null and node.ann and node.ann[0] == '$ion_symbol_table':
        return True
    if node.t == 'struct' and node.ann and node.ann[0] == '$ion_symbol_table':
        return True     # null structs: kept out of the workload
    if node.t == 'symbol' and not node.ann and isinstance(node.v, str) and node.v == '$ion_1_0':
        return True
    return False


def gen_plan(ch, cfg, catalog, binary, max_epochs=3, max_values=4, min_values=0):
    """A list of items which is a valid stream."""
    items = []
    ctx = SYSTEM
    if binary:
        items.append(Item('ivm', ctx=ctx))
    epochs = ch.range(1, max_epochs)
    if cfg.get('marathon'):
        cfg.update(max_depth=1, max_kids=2)
        epochs = ch.pick([8, 3, 20])
        max_values = 60 // epochs * ch.pick([1, 3])
    for e in range(epochs):
        if e and ch.chance(1, 4):
            items.append(Item('ivm', ctx=ctx))
            ctx = SYSTEM
        elif not e and not binary and ch.chance(1, 3):
            items.append(Item('ivm', ctx=ctx))
        nodes = [gen_node(ch, cfg, 0, True) for _ in range(ch.range(min_values, max_values))]
        need = set()
        for n in nodes:
            tokens_of(n, need)
        need = set(t for t in need if isinstance(t, str))
        missing = need - ctx.texts()
        if (binary and missing) or ch.chance(1, 3):
            lst = gen_lst(ch, ctx, catalog, need if binary else set(t for t in sorted(need) if ch.draw(2)))
            items.append(Item('lst', lst, ctx))
            ctx = apply_lst(ctx, lst, catalog)
        if ctx.size() > 9 and ch.draw(2):
            toks = [ctx.resolve(sid) for sid in range(1, ctx.size() + 1)]
            toks = spread(toks)
            for n in nodes:
                substitute_tokens(n, ch, toks)
        for n in nodes:
            if is_system_value(n):
                n.ann = ('name',) + n.ann
            if binary and cfg.get('nops', True) and ch.chance(1, 10):
                items.append(Item('nop', ctx=ctx, data=nop(ch)))
            items.append(Item('val', n, ctx))
    return items


def map_event(ev, f):
    kind, t, v, field, anns, depth = ev
    if t == 'symbol' and v is not None:
        v = f(v)
    return (kind, t, v, None if field is None else f(field), tuple([f(a) for a in anns]), depth)


class Rendered(object):
    """A rendered stream: data, and events with the offset at which they are determined.

    raw: events of a raw reader, tokens as (text, sid, location); managed: user-visible events with full tokens;
    user: user-visible events with tokens by Ion equality; bounds: offsets where the stream may end.
    """

    def __init__(self):
        self.data = b''
        self.raw = []
        self.managed = []
        self.user = []
        self.bounds = set([0])
        self.item_at = []       # (start, end, item)
        self.touching = 0       # values without a separator between them


def render_binary(items, ch=None, nops=True):
    if ch is None:
        ch = Plain()
    r = Rendered()
    out = b''
    for item in items:
        start = len(out)
        if item.kind == 'ivm':
            out += IVM
            r.raw.append((('IVM', (1, 0), 0), len(out)))
        elif item.kind == 'nop':
            out += item.data
        else:
            tokmap = {}
            ctx = item.ctx

            def sid_of(tok):
                if tok not in tokmap:
                    sids = ctx.sids_of(tok)
                    tokmap[tok] = sids[ch.draw(len(sids))] if len(sids) > 1 else sids[0]
                return tokmap[tok]
            body, evs = encode_value(item.node, sid_of, ch, nops=nops)
            out += body
            for ev, off in evs:
                if ev[0] == 'E':
                    raw = ev
                else:
                    raw = map_event(ev, lambda t: (None, tokmap[t], None))
                r.raw.append((raw, start + off))
                if item.kind == 'val':
                    r.managed.append((map_event(ev, lambda t: ctx.full(tokmap[t])) if ev[0] != 'E' else ev,
                                      start + off))
                    r.user.append((ev, start + off))
        r.bounds.add(len(out))
        r.item_at.append((start, len(out), item))
    r.data = out
    return r
