"""How much memory is held by some objects of the library: an explicit walk over everything which they can reach."""
import gc
import sys
import threading
from collections import deque
from types import BuiltinFunctionType, CodeType, FunctionType, ModuleType

_LIB = 'amazon.ion'
_OPEN = ('builtins', 'collections', '_collections', '__builtin__', 'decimal', '_decimal', 'datetime', '_datetime', 'functools', '_functools', 'itertools',
         'enum', '_weakref', 'weakref', 'types', 'threading', '_thread', 'thread', '_threading_local', 'contextvars', '_contextvars', 'queue', '_queue')


def library_roots():
    """Everything which the library keeps for the lifetime of the process."""
    return [vars(m) for name, m in sorted(sys.modules.items())
            if m is not None and (name == _LIB or name.startswith(_LIB + '.'))]


def weigh(roots):
    """(number of objects and references in containers, characters and bytes) reachable from ``roots``."""
    seen = {}
    stack = list(roots)
    count = size = 0
    while stack:
        x = stack.pop()
        t = type(x)
        if x is None or t is bool or t is int or t is float or t is complex:
            continue
        if id(x) in seen:
            continue
        if t in (ModuleType, BuiltinFunctionType, CodeType):
            continue
        seen[id(x)] = x
        count += 1
        if t is str or t is bytes or t is bytearray:
            size += len(x)
        elif t is dict:
            count += len(x)
            stack.extend(x.keys())
            stack.extend(x.values())
        elif t in (list, tuple, set, frozenset, deque):
            count += len(x)
            stack.extend(x)
        elif t is FunctionType:
            # Not the globals: the modules of the library are roots of their own.
            for c in x.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
            stack.append(x.__defaults__)
            stack.append(x.__dict__)
        elif isinstance(x, type):
            if getattr(x, '__module__', '').startswith(_LIB):
                stack.append(dict(vars(x)))
        else:
            module = getattr(t, '__module__', None)
            if module in _OPEN or (module or '').startswith(_LIB):
                if isinstance(x, (str, bytes, bytearray)):
                    size += len(x)
                elif isinstance(x, dict):
                    count += len(x)
                    stack.extend(dict.keys(x))
                    stack.extend(dict.values(x))
                elif isinstance(x, (list, tuple, set, frozenset, deque)):
                    count += len(x)
                    stack.extend(iter_of(x))
                if isinstance(x, threading.local):
                    stack.append(x.__dict__)
                elif not isinstance(x, threading.Thread):
                    stack.extend(gc.get_referents(x))
    return count, size


def iter_of(x):
    for base in (list, tuple, set, frozenset, deque):
        if isinstance(x, base):
            return base.__iter__(x)
