import io

from amazon.ion import simpleion
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .. import env
from ..core import clip, violate
from ..drivers import REJECT, first_difference
from ..judge import NotIon, user_of
from ..model import gen_node, shape, stream_events, swarm_cfg
from ..outputs import SimOutput, SimRaw, gen_error
from ..plan import substitute_tokens
from ..pyobjs import IVM_EVENT, STREAM_END, events_for_writer, grouped, py_obj
from ..symctx import SYSTEM, gen_catalog
from .base import SIMPLE, WRITERS, Property
from .isolation import has_unk
from .writer_flush import INDENTS, gen_imports, use_imported_symbols


class OutputFaults(Property):
    ID = 'C10'
    RUNS = {'quick': 45000, 'thorough': 500000}
    RULE = ('Values are dumped, or written as events through the blocking writer, to an output which accepts seeded parts of '
            'what it is given and fails at a seeded call or byte, directly or below a real io.BufferedWriter. The bytes it received '
            'are compared with the fault-free encoding (which an independent decoder judges) after every write; then the same is '
            'written again to a good output. Non-trivial: a fault fired. Distinct by (interface, fault, position of the fault '
            'relative to the write calls, values).')
    STATE_MEASURE = 'distinct (interface, kind of fault, bytes accepted before it, shape of the values) tuples'
    REAL = WRITERS + SIMPLE + ['io.BufferedWriter of the interpreter (in part of the runs)']
    STUBS = ('output', 'user', 'reader (independent decoder)')
    MUST_HIT = ('short-write', 'output-error', 'torn-write', 'full-output', 'transient-error', 'write-after-failure',
                'dump-after-failure', 'buffered-output',
                'reentrant-output', 'writer-abandoned', 'writer-dropped')
    ASSUMPTIONS = ('An output which returns None has accepted everything, one that returns a number has accepted that many bytes.',
                   'The independent decoder implements Ion 1.0 as documented.')

    def run(self, ch, ctx):
        cfg = swarm_cfg(ch, long=ch.chance(1, 30))
        binary = not ch.draw(2)
        catalog = gen_catalog(ch)
        imports, known = (gen_imports(ch, catalog) if binary and ch.draw(2) else (None, SYSTEM))
        if cfg['marathon']:
            ctx.fault('long-history')
            cfg.update(max_depth=1, max_kids=2)
        nodes = [gen_node(ch, cfg, 0, True) for _ in range(ch.range(20, 60) if cfg['marathon'] else ch.range(1, 4))]
        use_imported_symbols(ch, nodes, known) if ch.draw(2) else None
        indent = None if binary else ch.pick(INDENTS)
        events_mode = bool(ch.draw(2))
        if events_mode:
            events = [IVM_EVENT] if ch.draw(2) else []
            for n in nodes:
                events.extend(events_for_writer(n, ch, known))
                if ch.chance(1, 3):
                    events.append(STREAM_END)
            events.append(STREAM_END)

            def write(fp, resume=None):
                w = blocking_writer(binary_writer(imports) if binary else text_writer(indent=indent), fp)
                self.writer = w
                for i, ev in enumerate(events):
                    if self.stop is not None and fp is self.stop[0] and i == self.stop[1]:
                        # The user loses interest in the middle.
                        ctx.fault('writer-abandoned')
                        drop(fp)
                        return
                    self.at = i
                    w.send(ev)
                    self.at = i

            def drop(fp):
                before = len(out.data)
                self.writer.close()
                self.writer = None
                if len(out.data) != before:
                    violate('wrong-bytes', 'a writer which was closed in the middle wrote %s', clip(bytes(out.data[before:])))
        else:
            sexp = bool(ch.draw(2))
            nodes = [grouped(n) for n in nodes if not has_unk(n)]
            objs = [py_obj(n, ch, sexp) for n in nodes]
            options = {'binary': binary, 'sequence_as_stream': True, 'tuple_as_sexp': sexp, 'imports': imports,
                       'indent': indent}
            if not binary and ch.draw(2):
                options['omit_version_marker'] = True
            if len(objs) == 1 and ch.draw(2):
                objs, options['sequence_as_stream'] = objs[0], False

            def write(fp):
                simpleion.dump(objs, fp, **options)
        self.writer = self.stop = None

        def clean(what):
            fp = io.BytesIO()
            try:
                write(fp)
            except REJECT as e:
                violate('rejects-valid', '%s: writing to a good output raised %r', what, e)
            return fp.getvalue()

        reference = clean('before') if ch.draw(2) else None
        limit = len(reference) if reference is not None else 60
        # The faults.
        error = gen_error(ch)
        kw = {'short': ch.pick([0, 2, 1]), 'error': error, 'permanent': bool(ch.draw(2))}
        k = ch.draw(5)
        if k == 1:
            kw['fail_call'] = 1 + ch.draw(1 + limit // 2)
        elif k >= 2:
            kw['fail_byte'] = ch.draw(limit + 1)
            kw['torn'] = bool(ch.draw(2))
            if k == 4:
                kw['zero'] = True
        if kw['short'] == 0 and ch.draw(2):
            kw['returns'] = 'none'
            kw.pop('zero', None)
        buffered = ch.chance(1, 6) and kw.get('returns') != 'none' and not kw.get('zero')
        if buffered:
            # A raw stream which accepts data and raises would be given the data again.
            kw['torn'] = False
        out = SimOutput(ch, ctx, **kw)
        fp = io.BufferedWriter(SimRaw(out), ch.pick([16, 1, 7, 64, 8192])) if buffered else out
        if buffered:
            ctx.fault('buffered-output')
        ctx.trace('write', binary, events_mode, buffered, repr(kw))
        reenter = ch.chance(1, 5)

        def on_write():
            if reenter and ch.chance(1, 3):
                # The output itself uses the library (it logs, it compresses, it forwards).
                ctx.fault('reentrant-output')
                inner = io.BytesIO()
                writer = self.writer
                try:
                    write(inner)
                finally:
                    self.writer = writer
                if reference is not None and inner.getvalue() != reference:
                    violate('history', 'inside a write the same values are written as %s instead of %s',
                            clip(inner.getvalue()), clip(reference))
            if reference is not None:
                if bytes(out.data) != reference[:len(out.data)]:
                    violate('wrong-bytes', 'after %d calls the output has received %s, which is no prefix of %s', out.calls,
                            clip(bytes(out.data)), clip(reference))
        out.on_write = on_write
        if events_mode and ch.chance(1, 6):
            self.stop = fp, ch.draw(len(events))
        caught = None
        try:
            write(fp)
            if buffered:
                fp.flush()
        except BaseException as e:
            caught = e
            from ..core import Hang, HarnessError, Violation
            if isinstance(e, (Violation, Hang, HarnessError)):
                raise
        received = bytes(out.data)
        ctx.trace('received', received.hex(), type(caught).__name__)
        if kw.get('zero') and out.raised:
            if caught is None:
                violate('lost-error', 'the output accepted nothing of a write and nobody was told')
            ctx.nontrivial = True
        elif out.raised:
            ctx.nontrivial = True
            if caught is None:
                violate('lost-error', 'the output raised %r and nobody was told', error)
            if caught is not error and not buffered:
                violate('lost-error', 'the output raised %r, the caller got %r', error, caught)
            if not kw['permanent']:
                ctx.fault('transient-error')
        elif caught is not None:
            violate('rejects-valid', 'writing raised %r without any fault', caught)
        if caught is not None and events_mode and not buffered:
            # The writer which was interrupted must not add anything that is not the continuation.
            ctx.fault('write-after-failure')
            try:
                for ev in events[self.at:self.at + ch.range(1, 3)]:
                    self.writer.send(ev)
                    if len(out.data) > len(received):
                        ctx.probe('continued-after-failure')
            except BaseException as e:
                from ..core import Hang, HarnessError, Violation
                if isinstance(e, (Violation, Hang, HarnessError)):
                    raise
            if ch.draw(2):
                ctx.fault('writer-dropped')
                drop(fp)
            received = bytes(out.data)
        stopped, self.stop = self.stop is not None and caught is None, None
        if buffered:
            out.fail_call = out.fail_byte = None
            fp.close()
        after = clean('after')
        if caught is not None:
            ctx.fault('dump-after-failure')
        if reference is None:
            reference = after
        elif after != reference:
            violate('history', 'after a failed output the same values are written as %s instead of %s', clip(after),
                    clip(reference))
        if received != reference[:len(received)]:
            violate('wrong-bytes', 'the output received %s, which is no prefix of %s', clip(received), clip(reference))
        if caught is None and not stopped and received != reference:
            violate('lost-bytes', 'the output received %s of %s and no error was raised', clip(received), clip(reference))
        try:
            got = user_of(reference, binary, catalog)
        except NotIon as e:
            violate('invalid-output', '%s: %s', e, clip(reference))
        d = first_difference(got, stream_events(nodes))
        if d is not None:
            violate('wrong-output', 'event %d of the output is %s, written was %s', d[0], clip(d[1]), clip(d[2]))
        ctx.state(binary, events_mode, buffered, k, len(received), kw['short'], type(caught).__name__,
                  [shape(n) for n in nodes])
        ctx.sample = {'binary': binary, 'events': events_mode, 'fault': clip(repr(kw)), 'received': len(received),
                      'of': len(reference), 'raised': type(caught).__name__}


PROPERTIES = {'C10': OutputFaults()}
