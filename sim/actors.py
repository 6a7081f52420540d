"""Jobs: uses of the library as parties in a simulation.

A job is described by data only.  ``steps(out)`` is a generator which makes one request to the library per step and
appends what it observed to ``out``; it can be run any number of times, alone or interleaved with other jobs.
"""
import io

from amazon.ion import simpleion
from amazon.ion.core import IonEventType
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .drivers import REJECT
from .model import canon_event, tok_full
from .pyvals import tree_of_py
from .pyobjs import STREAM_END

# StopIteration: a reader or writer which raised an error before has ended.
ERRORS = REJECT + (AssertionError, AttributeError, LookupError)


def new_reader(kind):
    if kind == 'binary':
        return binary_reader()
    return text_reader(is_unicode=(kind == 'unicode'))


class Job(object):
    label = '?'

    def steps(self, out):
        raise NotImplementedError

    def run(self):
        """Alone, to the end."""
        out = []
        for _ in self.steps(out):
            pass
        return out


class ReadJob(Job):
    """Reads events from deliveries; ``skips`` are the numbers of the events after which the consumer skips."""

    def __init__(self, kind, chunks, managed=True, catalog=None, skips=(), late=False):
        self.label = 'read-' + kind
        self.kind = kind
        self.chunks = chunks
        self.managed = managed
        self.catalog = catalog
        self.skips = frozenset(skips)
        self.late = late

    def steps(self, out):
        reader = new_reader(self.kind)
        if self.managed:
            reader = managed_reader(reader, self.catalog)
        held = []
        depth = 0
        n = 0
        try:
            chunks = iter(self.chunks)
            flushed = False
            request = NEXT_EVENT
            while True:
                ev = reader.send(request)
                yield
                et = ev.event_type
                if et.is_stream_signal:
                    out.append((et.name,))
                    chunk = next(chunks, None)
                    if chunk is not None:
                        request = read_data_event(chunk)
                        continue
                    if et is IonEventType.INCOMPLETE and not flushed and self.kind != 'binary':
                        flushed = True
                        request = NEXT_EVENT
                        continue
                    break
                if et is IonEventType.CONTAINER_START:
                    depth += 1
                elif et is IonEventType.CONTAINER_END:
                    depth -= 1
                if self.late:
                    held.append(ev)
                else:
                    out.append(canon_event(ev, tok_full))
                request = SKIP_EVENT if n in self.skips and depth > 0 else NEXT_EVENT
                n += 1
        except ERRORS as e:
            out.append(('error', type(e).__name__))
        for ev in held:
            yield
            try:
                out.append(canon_event(ev, tok_full))
            except ERRORS as e:
                out.append(('error', type(e).__name__))


class Chunked(object):
    """A source which returns the given pieces."""

    def __init__(self, chunks, empty):
        self.chunks = list(chunks)
        self.empty = empty

    def read(self, n=-1):
        return self.chunks.pop(0) if self.chunks else self.empty


class IterateJob(Job):
    """Reads events through blocking_reader."""

    def __init__(self, kind, chunks, managed, catalog):
        self.label = 'iterate-' + kind
        self.kind, self.chunks, self.managed, self.catalog = kind, chunks, managed, catalog

    def steps(self, out):
        reader = new_reader(self.kind)
        if self.managed:
            reader = managed_reader(reader, self.catalog)
        reader = blocking_reader(reader, Chunked(self.chunks, u'' if self.kind == 'unicode' else b''))
        try:
            while True:
                ev = reader.send(NEXT_EVENT)
                yield
                if ev.event_type is IonEventType.STREAM_END:
                    out.append(('STREAM_END',))
                    break
                out.append(canon_event(ev, tok_full))
        except ERRORS as e:
            out.append(('error', type(e).__name__))


def scribble(obj, seen, deep=True):
    """Changes a loaded value everywhere it can be changed."""
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, list):
        inner = list(obj)
        obj.append('stray')
    elif hasattr(obj, 'add_item'):
        inner = [v for _, v in obj.items()]
        obj['stray'] = 1
        for key in list(obj):
            obj.add_item(key, 'stray')
    else:
        return
    if deep:
        for o in inner:
            scribble(o, seen)


class LoadJob(Job):
    def __init__(self, data, catalog, times=1, scribble=False):
        self.label = 'load'
        self.scribble = scribble
        self.data, self.catalog, self.times = data, catalog, times

    def steps(self, out):
        for _ in range(self.times):
            try:
                values = simpleion.loads(self.data, catalog=self.catalog, single_value=False)
                yield
                out.append([tree_of_py(v) for v in values])
                if self.scribble:
                    # The caller goes on to use the values as its own.
                    seen = set()
                    for v in values:
                        scribble(v, seen)
            except ERRORS as e:
                yield
                out.append(('error', type(e).__name__))


class WriteJob(Job):
    """Writes events; ``events`` may contain stream ends and version markers."""

    def __init__(self, binary, events, imports=None, indent=None, scribble=False):
        self.label = 'write-' + ('binary' if binary else 'text')
        self.scribble = scribble
        self.binary, self.events, self.imports, self.indent = binary, events, imports, indent

    def steps(self, out):
        writer = binary_writer(self.imports) if self.binary else text_writer(indent=self.indent)
        try:
            for ev in self.events:
                while True:
                    result = writer.send(ev)
                    out.append((result.type.name, bytes(result.data)))
                    if self.scribble and isinstance(result.data, bytearray):
                        # The consumer goes on to use the piece it was given as a buffer of its own.
                        result.data.extend(b'\xff')
                    yield
                    if result.type is not WriteEventType.HAS_PENDING:
                        break
                    ev = None
        except ERRORS as e:
            out.append(('error', type(e).__name__))


class DumpJob(Job):
    def __init__(self, obj, options, times=1):
        self.label = 'dump'
        self.obj, self.options, self.times = obj, options, times

    def steps(self, out):
        for _ in range(self.times):
            fp = io.BytesIO()
            try:
                simpleion.dump(self.obj, fp, **self.options)
                out.append(fp.getvalue())
            except ERRORS as e:
                out.append((fp.getvalue(), 'error', type(e).__name__))
            yield


class TranscodeJob(Job):
    """Pipes the events of a reader into a writer."""

    def __init__(self, kind, chunks, catalog, binary, imports=None):
        self.label = 'transcode-%s-%s' % (kind, 'binary' if binary else 'text')
        self.kind, self.chunks, self.catalog, self.binary, self.imports = kind, chunks, catalog, binary, imports

    def steps(self, out):
        reader = blocking_reader(managed_reader(new_reader(self.kind), self.catalog),
                                 Chunked(self.chunks, u'' if self.kind == 'unicode' else b''))
        fp = io.BytesIO()
        writer = blocking_writer(binary_writer(self.imports) if self.binary else text_writer(), fp)
        try:
            while True:
                ev = reader.send(NEXT_EVENT)
                yield
                if ev.event_type is IonEventType.VERSION_MARKER:
                    continue
                out.append((writer.send(ev).name, fp.tell()))
                yield
                if ev.event_type is IonEventType.STREAM_END:
                    break
        except ERRORS as e:
            out.append(('error', type(e).__name__))
        out.append(fp.getvalue())


class LookJob(Job):
    """Looks at events which other jobs look at as well."""

    def __init__(self, events, order):
        self.label = 'look'
        self.events, self.order = events, order

    def steps(self, out):
        for i in self.order:
            try:
                out.append(canon_event(self.events[i], tok_full))
            except ERRORS as e:
                out.append(('error', type(e).__name__))
            yield
