"""Histories which follow from a seed alone, and what the user of the library observes in them.

The same history is lived through by processes with different environments."""
import base64
import copy
import pickle
import random

from amazon.ion import simpleion
from amazon.ion.core import IonEventType, IonType, Multimap, Timestamp, TimestampPrecision, timestamp
from amazon.ion.equivalence import ion_equals
from amazon.ion.symbols import SymbolTableCatalog, SymbolToken, local_symbol_table, shared_symbol_table

from . import env
from .core import Chooser, Ctx
from .model import canon_timestamp, gen_text, gen_timestamp, swarm_cfg
from .props.isolation import World, gen_job, has_unk
from .pyobjs import grouped, py_obj, timestamp_obj


def tables(c, cfg):
    """Operations on symbol tables and catalogs."""
    out = []
    local = local_symbol_table()
    catalog = SymbolTableCatalog()
    texts = [gen_text(c, cfg) for _ in range(c.range(1, 5))]
    name = gen_text(c, cfg) or 'n'
    for v in range(1, c.range(2, 5)):
        catalog.register(shared_symbol_table(name, v, texts[:v]))
    for _ in range(c.range(1, 10)):
        k = c.draw(5)
        try:
            if k == 0:
                out.append(local.intern(c.pick(texts)))
            elif k == 1:
                out.append(local.get(c.draw(20)))
            elif k == 2:
                out.append(local.get(c.pick(texts)))
            elif k == 3:
                t = catalog.resolve(name, c.draw(7), c.draw(8))
                out.append((t.name, t.version, t.max_id, list(t)))
            else:
                out.append(local.intern(c.pick([5, None, b'x', SymbolToken('a', None)])))
        except Exception as e:
            out.append(('error', type(e).__name__))
    return out


def small(c, cfg):
    """Timestamps, the mapping with many values, equality, copies."""
    out = []
    for _ in range(3):
        ts = timestamp_obj(gen_timestamp(c), c)
        out.append(canon_timestamp(ts))
        for binary in (False, True):
            try:
                data = simpleion.dumps(ts, binary=binary)
                back = simpleion.loads(data)
                out.append((data, canon_timestamp(back), canon_timestamp(copy.deepcopy(back))))
            except Exception as e:
                out.append(('error', type(e).__name__))
    try:
        t = timestamp(c.range(1, 3000), c.draw(14), c.range(1, 31), c.draw(25), c.draw(61), off_hours=c.draw(26))
        out.append(canon_timestamp(t))
    except Exception as e:
        out.append(('error', type(e).__name__))
    m = Multimap({})
    for i in range(c.range(1, 6)):
        m.add_item(c.pick(['a', 'b', 'c', 'd']), i)
    out.append([list(m.items()), len(m), sorted(m), [list(m.get_all_values(k)) for k in sorted(m)]])
    return out


def objects(c, cfg, catalog):
    from .model import gen_node
    nodes = [gen_node(c, cfg, 0, True) for _ in range(c.range(1, 3))]
    return [py_obj(grouped(n), c, False) for n in nodes if not has_unk(n)]


def loaded(c, cfg):
    """Values as they come out of load()."""
    return simpleion.loads(simpleion.dumps(objects(c, cfg, None), binary=True, sequence_as_stream=True), single_value=False)


def images(values):
    """What the values are, as data."""
    out = []
    for binary in (True, False):
        try:
            out.append(simpleion.dumps(values, binary=binary, sequence_as_stream=True))
        except Exception as e:
            out.append(('error', type(e).__name__))
    return out


def config(c):
    cfg = swarm_cfg(c, long=False, big=False, marathon=False)
    cfg['max_kids'] = min(cfg['max_kids'], 3)
    cfg['max_depth'] = min(cfg['max_depth'], 3)
    return cfg


def parcel(seed):
    """(pickle of loaded values, what they are)"""
    c = Chooser(random.Random('parcel-%d' % seed))
    values = loaded(c, config(c))
    return base64.b64encode(pickle.dumps(values, c.range(2, 4))).decode('ascii'), repr(images(values))


def unpack(data):
    try:
        return repr(images(pickle.loads(base64.b64decode(data))))
    except Exception as e:
        return repr(('error', type(e).__name__))


def history(seed, context=None):
    """[(label, what was observed)]; ``context`` is the seed of a decimal context for the use of the library."""
    c = Chooser(random.Random('history-%d' % seed))
    ctx = Ctx()
    cfg = config(c)
    world = World(c, cfg)
    jobs = [gen_job(c, ctx, world)[0] for _ in range(c.range(2, 4))]
    rest = Chooser(random.Random('rest-%d' % seed))
    if context:
        env.set_seeded(context)
    out = []
    try:
        for job in jobs:
            out.append((job.label, repr(job.run())))
        if not context:
            out.append(('symbol tables', repr(tables(rest, cfg))))
            out.append(('small things', repr(small(rest, cfg))))
    finally:
        env.restore()
    return out


def lines_of(seeds, context=None):
    return [history(s, context) for s in seeds]
