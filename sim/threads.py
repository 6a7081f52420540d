"""Simulated preemptive threads.

The tasks are real threads, but only the one which holds the baton runs.  A trace function counts the lines of library
code it executes and hands the baton to a task picked by the chooser, so that a thread switch can happen between any two
lines of the code under test and the whole interleaving is decided by the seed.
"""
import sys
import threading
import _thread

from .core import LIB_DIR, Hang, HarnessError, violate

_IS_LIB = {}


def is_lib(filename):
    v = _IS_LIB.get(filename)
    if v is None:
        import os
        v = _IS_LIB[filename] = os.path.realpath(filename).startswith(LIB_DIR)
    return v


class Aborted(BaseException):
    """Ends the tasks of a run which is over."""


class Task(object):
    def __init__(self, sched, fn, index):
        self.sched = sched
        self.fn = fn
        self.index = index
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.error = None
        self.frames = None

    def run(self):
        self.lock.acquire()
        try:
            if not self.sched.aborted:
                sys.settrace(self.trace)
                try:
                    self.fn()
                finally:
                    sys.settrace(None)
        except Aborted:
            pass
        except BaseException as e:
            self.error = sys.exc_info()
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.finished(self)

    def trace(self, frame, event, arg):
        if is_lib(frame.f_code.co_filename):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            s = self.sched
            s.countdown -= 1
            if s.countdown <= 0:
                s.switch(self, frame)
        return self.local


class Scheduler(object):
    """Runs tasks to the end. ``gap`` bounds the number of lines between two switches."""

    def __init__(self, ch, ctx, gap, max_lines=2000000, on_switch=None):
        self.ch = ch
        self.ctx = ctx
        self.gap = gap
        self.tasks = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.aborted = False
        self.lines = 0
        self.max_lines = max_lines
        self.switches = 0
        self.countdown = 0
        self.exhausted = False
        self.on_switch = on_switch
        self.internal = None

    def spawn(self, fn):
        self.tasks.append(Task(self, fn, len(self.tasks)))

    def _new_gap(self):
        self.countdown = 1 + self.ch.draw(self.gap)
        self.lines += self.countdown

    def switch(self, task, frame):
        if self.aborted or self.lines > self.max_lines:
            self.aborted = self.exhausted = self.exhausted or self.lines > self.max_lines
            self.aborted = True
            raise Aborted()
        alive = [t for t in self.tasks if not t.done]
        nxt = alive[self.ch.draw(len(alive))]
        self._new_gap()
        if nxt is task:
            return
        self.switches += 1
        self.ctx.step()
        if self.on_switch is not None:
            self.on_switch(task, nxt, frame)
        nxt.lock.release()
        task.lock.acquire()
        if self.aborted:
            raise Aborted()

    def finished(self, task):
        alive = [t for t in self.tasks if not t.done]
        if not alive:
            self.main.release()
            return
        try:
            nxt = alive[0] if self.aborted else alive[self.ch.draw(len(alive))]
        except BaseException:
            self.internal = sys.exc_info()
            self.aborted = True
            nxt = alive[0]
        nxt.lock.release()

    def run(self):
        """Returns when all tasks have ended; raises nothing on behalf of the tasks."""
        if not self.tasks:
            return
        for t in self.tasks:
            thread = threading.Thread(target=t.run)
            thread.daemon = True
            thread.start()
        self._new_gap()
        first = self.tasks[self.ch.draw(len(self.tasks))]
        first.lock.release()
        try:
            self.main.acquire()
        except BaseException:
            self.aborted = True
            raise
        if self.internal is not None:
            raise HarnessError(repr(self.internal))
        if self.exhausted:
            violate('no-progress', 'the threads did not end within %d lines of library code', self.max_lines)
