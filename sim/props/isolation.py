import decimal
import sys

from amazon.ion.core import IonEventType

from .. import env
from ..actors import DumpJob, IterateJob, LoadJob, LookJob, ReadJob, TranscodeJob, WriteJob, new_reader
from ..core import clip, violate
from ..drivers import chunks_of, first_difference, gen_cuts
from ..judge import NotIon, user_of
from ..model import canon_event, gen_node, shape, stream_events, swarm_cfg, tok_full
from ..plan import gen_plan, render_binary
from ..pyobjs import IVM_EVENT, STREAM_END, events_for_writer, grouped, py_obj
from ..pyvals import trees_of_events, user_events
from ..symctx import CatalogModel, gen_catalog
from ..textgen import render_text
from ..threads import Scheduler
from .base import READERS, SIMPLE, WRITERS, Property
from .writer_flush import INDENTS, gen_imports, use_imported_symbols
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.reader_managed import managed_reader


def damage(ch, data):
    """Some damage, to have jobs which end with an error."""
    if not data:
        return data
    i = ch.draw(len(data))
    k = ch.draw(3)
    if k == 0:
        return data[:i]
    if isinstance(data, str):
        return data[:i] + ch.pick([')', '"', '\\', '\x00', ':']) + data[i + 1:]
    if k == 1:
        return data[:i] + bytes([data[i] ^ (1 << ch.draw(8))]) + data[i + 1:]
    return data[:i] + data[i + 1:]


def gen_data(ch, cfg, catalog):
    """(kind, data, rendered)"""
    kind = ch.pick(['binary', 'text', 'unicode'])
    items = gen_plan(ch, cfg, catalog, kind == 'binary', max_epochs=2, max_values=3, min_values=1)
    if kind == 'binary':
        r = render_binary(items, ch)
        return kind, r.data, r
    r = render_text(items, ch)
    return kind, (r.data if kind == 'unicode' else r.data.encode('utf-8')), r


class World(object):
    """What the jobs of one run may share."""

    def __init__(self, ch, cfg):
        self.catalog = gen_catalog(ch, big=None)
        self.built = self.catalog.build()
        self.imports, self.known = gen_imports(ch, self.catalog)
        self.data = [gen_data(ch, cfg, self.catalog) for _ in range(ch.range(1, 3))]
        self.values = []
        for _ in range(ch.range(1, 3)):
            self.values.append(gen_node(ch, cfg, 0, True))
        use_imported_symbols(ch, self.values[1:], self.known) if ch.draw(2) else None
        self.objects = {}
        self.looked_at = None

    def obj(self, ch, sexp):
        if sexp not in self.objects:
            nodes = [grouped(n) for n in self.values if not has_unk(n)]
            self.objects[sexp] = (nodes, [py_obj(n, ch, sexp) for n in nodes])
        return self.objects[sexp]

    def held_events(self, kind, data):
        """Events of a reader which has ended; their values have not been looked at."""
        if self.looked_at is None:
            reader = managed_reader(new_reader(kind), self.built)
            events = []
            reader.send(NEXT_EVENT)
            ev = reader.send(read_data_event(data)) if data else None
            flushed = False
            while ev is not None:
                if ev.event_type.is_stream_signal:
                    if ev.event_type is IonEventType.STREAM_END or flushed or kind == 'binary':
                        break
                    flushed = True
                else:
                    events.append(ev)
                ev = reader.send(NEXT_EVENT)
            self.looked_at = [e for e in events if e.event_type is not IonEventType.VERSION_MARKER]
        return self.looked_at


def has_unk(node):
    return "('imp'" in repr(node) or "('loc'" in repr(node)


def gen_job(ch, ctx, world):
    """(job, check or None)"""
    k = ch.draw(10)
    if k < 4:
        kind, data, r = ch.pick(world.data)
        bad = ch.chance(1, 5)
        if bad:
            data = damage(ch, data)
            ctx.fault('job-with-damaged-data')
        chunks = list(chunks_of(data, gen_cuts(ch, len(data)))) if data else []
        if k < 2:
            managed = bool(ch.draw(3))
            skips = [i for i in range(len(r.raw)) if ch.chance(1, 6)] if ch.draw(2) else []
            late = bool(ch.draw(2))
            job = ReadJob(kind, chunks, managed, world.built, skips, late)
            want = None if bad or skips else [e for e, _ in (r.managed if managed else r.raw)]
        elif k == 2:
            job = IterateJob(kind, chunks, True, world.built)
            want = None if bad else [e for e, _ in r.managed]
        else:
            scribble = bool(ch.draw(2))
            if scribble:
                ctx.fault('loaded-value-modified')
            job = LoadJob(data, world.built, ch.range(1, 2), scribble)
            if bad or (kind == 'text' and data[:4] == b'\xe0\x01\x00\xea'):
                return job, None
            trees = trees_of_events(user_events([e for e, _ in r.managed]))

            def check_load(out):
                for got in out:
                    if got != trees:
                        violate('wrong-values', 'load gave %s, expected %s', clip(got), clip(trees))
            return job, check_load
        if want is None:
            return job, None

        def check_read(out):
            got = [e for e in out if len(e) != 1]
            d = first_difference(got, want)
            if d is not None:
                violate('wrong-events', '%s: event %d is %s, expected %s', job.label, d[0], clip(d[1]), clip(d[2]))
        return job, check_read
    if k < 6:
        binary = bool(ch.draw(2))
        nodes = [n for n in world.values if binary or not has_unk(n)]
        imports = world.imports if binary else None
        events = []
        bad = ch.chance(1, 6)
        for n in nodes:
            events.extend(events_for_writer(n, ch, world.known if binary else None))
            if ch.draw(2):
                events.append(STREAM_END)
                if ch.draw(2):
                    events.append(IVM_EVENT)
        events.append(STREAM_END)
        if bad:
            ctx.fault('job-with-bad-request')
            from amazon.ion.core import IonEvent, IonType
            events.insert(ch.draw(len(events)), ch.pick([
                IonEvent(IonEventType.CONTAINER_END), IonEvent(IonEventType.SCALAR, IonType.INT, 'x'),
                STREAM_END, IVM_EVENT]))
        scribble = bool(ch.draw(2))
        if scribble and binary:
            ctx.fault('output-piece-modified')
        job = WriteJob(binary, events, imports, ch.pick(INDENTS), scribble)

        def check_write(out):
            data = b''.join(d for _, d in out)
            try:
                got = user_of(data, binary, world.catalog)
            except NotIon as e:
                violate('invalid-output', '%s: %s: %s', job.label, e, clip(data))
            d = first_difference(got, stream_events(nodes))
            if d is not None:
                violate('wrong-output', '%s: event %d is %s, expected %s', job.label, d[0], clip(d[1]), clip(d[2]))
        return job, None if bad else check_write
    if k < 8:
        sexp = bool(ch.draw(2))
        nodes, objs = world.obj(ch, sexp)
        binary = bool(ch.draw(2))
        options = {'binary': binary, 'sequence_as_stream': True, 'tuple_as_sexp': sexp}
        if binary:
            options['imports'] = world.imports
        else:
            options['indent'] = ch.pick(INDENTS)
            options['omit_version_marker'] = bool(ch.draw(2))
        bad = ch.chance(1, 6)
        if bad:
            objs = list(objs)
            objs.insert(ch.draw(len(objs) + 1), ch.pick([object(), {'a': [1, object()]}, set(), decimal.Decimal('NaN')]))
            ctx.fault('job-with-bad-request')
        job = DumpJob(objs, options, ch.range(1, 2))

        def check_dump(out):
            for data in out:
                if isinstance(data, tuple):
                    violate('rejects-valid', 'dump ended with %r', data[2])
                try:
                    got = user_of(data, binary, world.catalog)
                except NotIon as e:
                    violate('invalid-output', 'dump: %s: %s', e, clip(data))
                d = first_difference(got, stream_events(nodes))
                if d is not None:
                    violate('wrong-output', 'dump: event %d is %s, expected %s', d[0], clip(d[1]), clip(d[2]))
        return job, None if bad else check_dump
    kind, data, r = ch.pick(world.data)
    if k == 8:
        chunks = list(chunks_of(data, gen_cuts(ch, len(data)))) if data else []
        return TranscodeJob(kind, chunks, world.built, bool(ch.draw(2)), world.imports), None
    kind, data, r = world.data[0]
    events = world.held_events(kind, data)
    order = [ch.draw(len(events)) for _ in range(ch.range(1, 12))] if events else []
    want = [e for e, _ in r.managed if e[0] != 'IVM']
    ctx.fault('shared-events')

    def check_look(out):
        for got, i in zip(out, order):
            if got != want[i]:
                violate('wrong-events', 'a shared event is %s, expected %s', clip(got), clip(want[i]))
    return LookJob(events, order), check_look


class Isolation(Property):
    ID = 'C08'
    ISOLATED = True
    RUNS = {'quick': 5000, 'thorough': 120000}
    RULE = ('Two to five jobs (event readers, iterating readers, load, event writers, dump, transcoding; some meet damaged data '
            'or make bad requests) share a catalog, imported tables, input objects and events, and are interleaved request by '
            'request in one thread or preempted between any two lines of library code in several simulated threads, each with its own '
            'decimal context. What each job observes is compared with what it observes alone (before or after) and with the '
            'model. Non-trivial: at least two jobs were both in progress when one was switched to the other. Distinct by (jobs, '
            'order of the first switches).')
    STATE_MEASURE = 'distinct (set of jobs, mode, prefix of the interleaving) tuples'
    TIME_UNIT = 'scheduler steps (one request to a component, or one thread switch)'
    REAL = READERS + WRITERS + SIMPLE
    STUBS = ('users of the library', 'sources and outputs', 'thread scheduler (real threads, of which only the one with the '
             'baton runs)', 'decimal environment of every thread')
    MUST_HIT = ('thread-switch', 'job-switch', 'decimal-context-switch', 'job-with-damaged-data', 'job-with-bad-request', 'output-piece-modified', 'job-abandoned', 'loaded-value-modified',
                'shared-events')
    ASSUMPTIONS = ('Threads are switched between lines, not within one line.',
                   'Every reader and writer is used by one thread; only catalogs, tables, values and events are shared.')

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=False, big=False, marathon=False)
        cfg['max_kids'] = min(cfg['max_kids'], 3)
        cfg['max_depth'] = min(cfg['max_depth'], 3)
        world = World(ch, cfg)
        jobs = [gen_job(ch, ctx, world) for _ in range(ch.range(2, 5))]
        if ch.chance(1, 4):
            # Two jobs which do exactly the same.
            jobs.append(ch.pick(jobs))
        threads = ch.draw(5) == 4
        solo_first = bool(ch.draw(2))
        contexts = [env.gen_context(ch) if ch.draw(2) else None for _ in jobs]
        ctx.trace('jobs', [j.label for j, _ in jobs], 'threads', threads)
        solo = None
        if solo_first:
            solo = [j.run() for j, _ in jobs]
        self.abandoned = None
        outs = self.preempted(ch, ctx, jobs, contexts) if threads else self.interleaved(ch, ctx, jobs)
        env.restore()
        if not solo_first:
            solo = [j.run() for j, _ in jobs]
        for i, (job, check) in enumerate(jobs):
            ctx.trace('outcome', job.label, clip(repr(outs[i]), 300))
            if i == self.abandoned:
                solo[i], check = solo[i][:len(outs[i])], None
            d = first_difference(outs[i], solo[i])
            if d is not None:
                violate('interference', 'job %d (%s): observation %d is %s, alone it is %s', i, job.label, d[0], clip(d[1]),
                        clip(d[2]))
            if check is not None:
                check(outs[i])
        ctx.sample = {'jobs': [j.label for j, _ in jobs], 'threads': bool(threads)}

    def interleaved(self, ch, ctx, jobs):
        outs = [[] for _ in jobs]
        active = [(i, j.steps(outs[i])) for i, (j, _) in enumerate(jobs)]
        last = None
        prefix = []
        burst = ch.pick([1, 1, 3, 10])
        left = 0
        cur = None
        abandon = (ch.draw(len(jobs)), ch.draw(12)) if ch.chance(1, 4) else None
        while active:
            if cur is None or left <= 0:
                cur = active[ch.draw(len(active))]
                left = 1 + (ch.draw(burst) if burst > 1 else 0)
                if ch.chance(1, 10):
                    env.switch(ch, ctx)
            left -= 1
            ctx.step()
            if abandon is not None and cur[0] == abandon[0] and len(outs[cur[0]]) >= abandon[1]:
                # Its user loses interest: the readers and writers of the job are dropped in the middle.
                ctx.fault('job-abandoned')
                self.abandoned = cur[0]
                abandon = None
                cur[1].close()
                active.remove(cur)
                cur = None
                continue
            if last is not None and cur[0] != last and any(a[0] == last for a in active):
                ctx.fault('job-switch')
                ctx.nontrivial = True
            if len(prefix) < 12 and cur[0] != last:
                prefix.append((cur[0], len(outs[cur[0]])))
            last = cur[0]
            try:
                next(cur[1])
            except StopIteration:
                active.remove(cur)
                cur = None
        ctx.state([j.label for j, _ in jobs], 0, tuple(prefix))
        return outs

    def preempted(self, ch, ctx, jobs, contexts):
        outs = [[] for _ in jobs]
        prefix = []

        def on_switch(a, b, frame):
            if len(prefix) < 12:
                prefix.append((a.index, b.index, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            ctx.fault('thread-switch')
            ctx.trace('switch', a.index, b.index, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
        sched = Scheduler(ch, ctx, ch.pick([400, 100, 25, 2000, 8000]), on_switch=on_switch)

        def runner(i, job):
            def go():
                if contexts[i] is not None:
                    decimal.setcontext(contexts[i].copy())
                    ctx.fault('decimal-context-switch')
                for _ in job.steps(outs[i]):
                    pass
            return go
        for i, (job, _) in enumerate(jobs):
            sched.spawn(runner(i, job))
        sched.run()
        for t in sched.tasks:
            if t.error is not None:
                if not issubclass(t.error[0], Exception):
                    raise t.error[1].with_traceback(t.error[2])
                raise t.error[1].with_traceback(t.error[2])
        if sched.switches:
            ctx.nontrivial = True
        ctx.probe('lines-of-library-code', sched.lines)
        ctx.state([j.label for j, _ in jobs], 1, tuple(prefix))
        return outs


PROPERTIES = {'C08': Isolation()}
