"""Reference model of symbol contexts: version markers, local symbol tables, imports and the catalog."""
from .model import SYSTEM_SYMBOLS, ZERO, N, Sid, Unk


class ModelError(Exception):
    """The stream is invalid; the library must raise."""


class SymTab(object):
    """entries[sid - 1] = (text or None, (table, position) or None)"""
    __slots__ = ('entries', '_by_text')

    def __init__(self, entries):
        self.entries = tuple(entries)
        self._by_text = None

    def size(self):
        return len(self.entries)

    def texts(self):
        return set(t for t, _ in self.entries if t is not None)

    def sids_of(self, tok):
        """All symbol IDs which denote the token."""
        if self._by_text is None:
            m = {}
            for i, (text, loc) in enumerate(self.entries):
                if text is not None:
                    key = text
                elif loc is not None:
                    key = Unk(('imp', loc[0], loc[1]))
                else:
                    key = Unk(('loc', i + 1))
                m.setdefault(key, []).append(i + 1)
            m[ZERO] = [0]
            self._by_text = m
        return self._by_text.get(tok, [])

    def resolve(self, sid):
        """Token by Ion equality."""
        if sid == 0:
            return ZERO
        if sid > len(self.entries):
            raise ModelError('SID out of range: %d' % sid)
        text, loc = self.entries[sid - 1]
        if text is not None:
            return text
        if loc is not None:
            return Unk(('imp', loc[0], loc[1]))
        return Unk(('loc', sid))

    def full(self, sid):
        """(text, sid, location)"""
        if sid == 0:
            return (None, 0, None)
        if sid > len(self.entries):
            raise ModelError('SID out of range: %d' % sid)
        text, loc = self.entries[sid - 1]
        return (text, sid, loc)


SYSTEM = SymTab([(t, ('$ion', i + 1)) for i, t in enumerate(SYSTEM_SYMBOLS)])


class CatalogModel(object):
    """name -> {version: [text or None, ...]}"""

    def __init__(self, tables=()):
        self.tables = {}
        for name, version, texts in tables:
            self.tables.setdefault(name, {})[version] = list(texts)

    def resolve(self, name, version, max_id):
        versions = self.tables.get(name)
        if not versions:
            if max_id is None:
                raise ModelError('no table %r and no max_id' % name)
            texts = [None] * max_id
        else:
            if version in versions and (max_id is None or len(versions[version]) == max_id):
                texts = versions[version]
            else:
                if max_id is None:
                    raise ModelError('no exact match for %r and no max_id' % name)
                src = versions[version] if version in versions else versions[max(versions)]
                texts = (src + [None] * max_id)[:max_id]
        return [(t, (name, i + 1)) for i, t in enumerate(texts)]

    def build(self):
        """The same catalog for the library."""
        from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table
        catalog = SymbolTableCatalog()
        for name in sorted(self.tables):
            for version in sorted(self.tables[name]):
                catalog.register(shared_symbol_table(name, version, self.tables[name][version]))
        return catalog

    def all(self):
        return [(n, v, self.tables[n][v]) for n in sorted(self.tables) for v in sorted(self.tables[n])]


def apply_lst(ctx, node, catalog):
    """The context after a local symbol table whose tokens are already resolved (texts or Unk)."""
    symbols = []
    imports = None
    for field, kid in node.kids:
        if field == 'symbols' and kid.t == 'list' and not kid.null:
            for _, s in kid.kids:
                symbols.append(s.v if s.t == 'string' and not s.null else None)
        elif field == 'imports':
            if kid.t == 'list' and not kid.null:
                imports = []
                for _, imp in kid.kids:
                    if imp.t != 'struct' or imp.null:
                        continue
                    name, version, max_id = None, 1, None
                    for f, v in imp.kids:
                        if f == 'name' and v.t == 'string':
                            name = v.v
                        elif f == 'version' and v.t == 'int':
                            version = max(v.v or 1, 1)
                        elif f == 'max_id' and v.t == 'int':
                            if v.v is not None and v.v >= 0:
                                max_id = v.v
                    if name and name != '$ion':
                        imports.append(catalog.resolve(name, version, max_id))
            elif kid.t == 'symbol' and not kid.null and kid.v == '$ion_symbol_table':
                imports = ctx
    entries = list(SYSTEM.entries)
    if isinstance(imports, SymTab):
        entries = list(imports.entries)
    elif imports:
        for table in imports:
            entries.extend(table)
    entries.extend((s, None) for s in symbols)
    return SymTab(entries)


TABLE_NAMES = ['T', 'tbl.a', 'caf\u00e9']
TABLE_POOL = ['a', 'b', 'foo', 'bar', 'imp1', 'imp2', 'imp3', 'caf\u00e9', 'name', 'x1', '\U0001F600', 'zz']


def gen_catalog(ch, gaps=(1, 5), big=(1, 100)):
    tables = []
    big = big and ch.chance(*big)
    for name in TABLE_NAMES[:ch.pick([1, 0, 2, 3])]:
        versions = ch.pick([[1], [1, 2], [2], [1, 3]])
        base = [ch.pick(TABLE_POOL) for _ in range(ch.range(1, 5))]
        if big and len(base) < 5:
            base += ['%s_%d' % (name, i) for i in range(ch.pick([118, 130, 250, 300, 16384, 17000]))]
            big = False
        for v in versions:
            texts = base + ['%s_v%d_%d' % (name, v, i) for i in range(v if len(versions) > 1 else 0)]
            if ch.chance(*gaps):
                texts = texts[:1] + [None] + texts[1:]
            tables.append((name, v, texts))
    return CatalogModel(tables)


def gen_import(ch, catalog):
    """(struct node, entries)"""
    known = catalog.all()
    k = ch.draw(8) if known else 6
    if k < 4:
        name, version, texts = ch.pick(known)
        max_id = len(texts)
        give_max = not ch.chance(1, 4)
    elif k < 6:
        name, version, texts = ch.pick(known)
        version = version + ch.draw(3)
        max_id = max(0, len(texts) + ch.pick([0, 1, -1, 2, -2, 3]))
        give_max = True
    else:
        name, version, max_id, give_max = ch.pick(['nowhere', 'missing']), ch.range(1, 3), ch.range(0, 4), True
    kids = [('name', N('string', name)), ('version', N('int', version))]
    if version == 1 and ch.chance(1, 4):
        kids.pop()
    if give_max:
        kids.append(('max_id', N('int', max_id)))
    if give_max and ch.chance(1, 8):
        # What counts as version 1.
        kids = [kv for kv in kids if kv[0] != 'version']
        kids.insert(1, ('version', ch.pick([N('int', 0), N('int', -3), N('int', null=True), N('null'), N('string', '2'), N('bool', True),
                                            N('symbol', 'name'), N('list', None, (), [(None, N('int', 2))])])))
    elif not give_max and ch.chance(1, 2):
        # What counts as no max_id.
        kids.append(('max_id', ch.pick([N('int', null=True), N('int', -1), N('null'), N('string', '1'), N('bool', True),
                                        N('symbol', 'max_id'), N('struct', None, (), [('max_id', N('int', 1))])])))
    if ch.chance(1, 5):
        kids.insert(ch.draw(len(kids) + 1), (ch.pick(['symbols', 'imports', '$ion', '$ion_symbol_table']),
                                             ch.pick([N('list', None, (), [(None, N('string', 'ignored'))]), N('int', 1), N('string', 'T'),
                                                      N('struct', None, (), [('name', N('string', 'T')), ('max_id', N('int', 2))]),
                                                      N('symbol', '$ion_symbol_table')])))
    if ch.chance(1, 4):
        kids.reverse()
    return N('struct', None, ch.pick([(), ('name',)]) if ch.chance(1, 8) else (), kids)


def gen_lst(ch, ctx, catalog, need, extra_pool=()):
    """A local symbol table which makes every text in ``need`` available. Returns the node."""
    imports_node = None
    avail = set(SYSTEM.texts())
    mode = ch.draw(6)
    if mode == 1 or (mode == 5 and ctx.size() > 9):
        imports_node = N('symbol', '$ion_symbol_table')
        avail = ctx.texts()
    elif mode in (2, 3):
        imps = []
        for _ in range(ch.range(1, 2)):
            imps.append((None, gen_import(ch, catalog)))
        if ch.chance(1, 8):
            imps.append((None, ch.pick([N('int', 5), N('list', None, (), [(None, N('string', 'x'))]),
                                        N('struct', None, (), [('name', N('string', '$ion')), ('version', N('int', 1))]),
                                        N('struct', None, (), [('version', N('int', 1))]),
                                        N('struct', None, (), [('name', N('string', ''))]),
                                        N('struct', null=True)])))
        imports_node = N('list', None, (), imps)
        probe = apply_lst(ctx, N('struct', None, (), [('imports', imports_node)]), catalog)
        avail = probe.texts()
    elif mode == 4 and ch.chance(1, 2):
        imports_node = ch.pick([N('list', None, (), []), N('symbol', null=True), N('symbol', 'name'), N('int', 3),
                                N('struct', None, (), [])])
    symbols = [t for t in sorted(need) if t not in avail]
    if ch.draw(3) and symbols:
        # deterministic shuffle
        for i in range(len(symbols) - 1, 0, -1):
            j = ch.draw(i + 1)
            symbols[i], symbols[j] = symbols[j], symbols[i]
    nodes = [N('string', s) for s in symbols]
    for _ in range(ch.draw(3) if ch.chance(1, 3) else 0):
        nodes.insert(ch.draw(len(nodes) + 1), ch.pick([
            N('string', 'extra'), N('string', null=True), N('int', 7), N('list', None, (), [(None, N('string', 'in'))]),
            N('symbol', 'name'), N('string', 'name'), N('string', 'a'), N('struct', None, (), [('name', N('int', 1))]),
            N('null'), N('sexp', None, (), [])]))
    kids = []
    if imports_node is not None:
        kids.append(('imports', imports_node))
    if nodes or ch.chance(1, 3):
        kids.append(('symbols', N('list', None, (), [(None, n) for n in nodes])))
    if ch.chance(1, 8):
        kids.insert(ch.draw(len(kids) + 1), ('name', ch.pick([
            N('string', 'noise'), N('list', None, (), [(None, N('string', 'noise'))]),
            N('struct', None, (), [('symbols', N('list', None, (), [(None, N('string', 'noise'))]))])])))
    if len(kids) == 2 and ch.chance(1, 4):
        kids.reverse()
    anns = ('$ion_symbol_table',)
    if ch.chance(1, 10):
        anns += ('name',)
    return N('struct', None, anns, kids)


def spread(toks):
    """A handful of many tokens, with those at which the encoding of their symbol IDs changes its length."""
    if len(toks) <= 100:
        return toks
    return [t for i, t in enumerate(toks) if i < 12 or 116 <= i < 132 or 246 <= i < 260 or 16368 <= i < 16392 or i >= len(toks) - 8]


def tokens_of(node, out):
    for a in node.ann:
        out.add(a)
    if node.t == 'symbol' and not node.null:
        out.add(node.v)
    if node.kids:
        for f, k in node.kids:
            if f is not None:
                out.add(f)
            tokens_of(k, out)
    return out


UNDEFINED = 'UNDEFINED'


class ManagedModel(object):
    """Consumes raw events (tokens as (text, sid, location)) and tells what a symbol-resolving reader must report.

    ``feed`` returns a list of events with tokens as (text, sid, location); it raises ModelError where a symbol ID is not
    defined or an import cannot be satisfied.
    """

    def __init__(self, catalog):
        self.catalog = catalog
        self.ctx = SYSTEM
        self._lst = None        # stack of (node) while a symbol table is being read

    def full(self, tok):
        if tok is None:
            return None
        if tok[0] is not None:
            return tok
        return self.ctx.full(tok[1])

    def _user(self, tok):
        if tok is None:
            return None
        if tok[0] is not None:
            return tok[0]
        return self.ctx.resolve(tok[1])

    def feed(self, ev):
        if ev[0] == 'IVM':
            self.ctx = SYSTEM
            return []
        kind, t, v, field, anns, depth = ev
        if self._lst is not None:
            self._feed_lst(ev)
            return []
        if kind == 'S' and t == 'struct' and depth == 0 and anns and self._user(anns[0]) == '$ion_symbol_table':
            self._lst = [N('struct', None, (), [])]
            return []
        if kind == 'E':
            return [ev]
        if kind == 'V' and t == 'symbol' and depth == 0 and not anns and v is not None and self._user(v) == '$ion_1_0':
            return []
        if t == 'symbol' and v is not None:
            v = self.full(v)
        return [(kind, t, v, self.full(field), tuple([self.full(a) for a in anns]), depth)]

    def feed_lazily(self, ev):
        """Like feed, but an attribute of a user value which has no meaning is reported as UNDEFINED."""
        try:
            return self.feed(ev)
        except ModelError:
            if self._lst is not None or ev[0] in ('IVM', 'E'):
                raise
        kind, t, v, field, anns, depth = ev

        def attempt(f):
            try:
                return f()
            except ModelError:
                return UNDEFINED
        if t == 'symbol' and v is not None:
            v = attempt(lambda tok=v: self.full(tok))
        return [(kind, t, v, attempt(lambda: self.full(field)), attempt(lambda: tuple([self.full(a) for a in anns])), depth)]

    def _feed_lst(self, ev):
        kind, t, v, field, anns, depth = ev
        if kind == 'E':
            node = self._lst.pop()
            if not self._lst:
                self._lst = None
                self.ctx = apply_lst(self.ctx, node, self.catalog)
            return
        node = N(t, None, (), [] if kind == 'S' else None, null=(kind == 'V' and v is None))
        if kind == 'V' and v is not None:
            node.v = self._user(v) if t == 'symbol' else v
        self._lst[-1].kids.append((None if field is None else self._user(field), node))
        if kind == 'S':
            self._lst.append(node)


def managed_of(raw_events, catalog, model=None):
    """(events, model); raises ModelError."""
    model = model or ManagedModel(catalog)
    out = []
    for ev in raw_events:
        out.extend(model.feed(ev))
    return out, model
