"""Asynchronous exceptions: raised by a trace function at a chosen line of library code."""
import sys

from .core import violate
from .threads import is_lib


class Killed(BaseException):
    """A thread or task is killed."""


class Timeout(Exception):
    """A timeout raised by a signal handler."""


KINDS = [KeyboardInterrupt, MemoryError, Timeout, Killed]
CAUGHT = (KeyboardInterrupt, MemoryError, Timeout, Killed)


class Interrupter(object):
    """Counts the lines of library code which ``fn`` executes and raises at line number ``at``."""

    def __init__(self, max_lines=400000):
        self.lines = 0
        self.at = None
        self.exc = None
        self.where = None
        self.record = None
        self.max_lines = max_lines

    def _trace(self, frame, event, arg):
        if is_lib(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            n = self.lines
            self.lines = n + 1
            if self.record is not None:
                code = frame.f_code
                self.record.append((code.co_filename, frame.f_lineno, code.co_name))
            if n == self.at:
                code = frame.f_code
                self.where = (code.co_filename.rsplit('/', 1)[-1], code.co_name, frame.f_lineno - code.co_firstlineno)
                raise self.exc('interrupted')
            if n > self.max_lines:
                sys.settrace(None)
                violate('no-progress', 'more than %d lines of library code', self.max_lines)
        return self._local

    def run(self, fn, at=None, exc=None, record=False):
        """(how, result): how is 'done', 'interrupted', or 'raised' (the operation ended with another exception)."""
        self.lines = 0
        self.at = at
        self.exc = exc
        self.where = None
        self.record = [] if record else None
        sys.settrace(self._trace)
        try:
            try:
                result = fn()
            finally:
                sys.settrace(None)
        except CAUGHT as e:
            if type(e) is not exc or self.where is None:
                raise
            return 'interrupted', e
        except Exception as e:
            if self.where is None:
                raise
            return 'raised', e
        return 'done', result


def pick_line(ch, record):
    """A line of a recorded execution: any, or any occurrence of a distinct line of code, or one of a function."""
    n = len(record)
    k = ch.draw(3)
    if k == 0:
        return ch.draw(n)
    key = (lambda r: r[:2]) if k == 1 else (lambda r: (r[0], r[2]))
    places = {}
    for i, r in enumerate(record):
        places.setdefault(key(r), []).append(i)
    distinct = sorted(places)
    return ch.pick(places[ch.pick(distinct)])
