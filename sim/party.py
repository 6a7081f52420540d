"""Another process: lives through the histories it is told on its input, in the environment in which it was started.

The library is imported before anything else of the framework, in the order it is told."""
import gc
import importlib
import json
import os
import random
import sys


def main():
    told = json.loads(sys.stdin.buffer.read().decode('ascii'))
    sys.path.insert(0, told['framework'])
    sys.setrecursionlimit(told['recursion'])
    import time
    time.tzset()
    import locale
    try:
        locale.setlocale(locale.LC_ALL, '')
    except locale.Error:
        pass
    if told['digits'] is not None and hasattr(sys, 'set_int_max_str_digits'):
        sys.set_int_max_str_digits(told['digits'])
    if told['gc'] == 'off':
        gc.disable()
    import amazon
    amazon.__path__ = [os.path.join(told['repo'], 'amazon')]
    context = told['context']
    if context:
        import decimal
        rng = random.Random(context)
        # Only what the library may compute while it is imported is affected: the framework is imported later.
        decimal.setcontext(decimal.Context(prec=rng.choice([1, 2, 28]), rounding=rng.choice([decimal.ROUND_UP, decimal.ROUND_DOWN]),
                                           traps=[decimal.Inexact, decimal.Rounded] if rng.random() < 0.5 else []))
    for name in told['order']:
        importlib.import_module('amazon.ion.' + name)
    if context:
        import decimal
        decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999, capitals=1, clamp=0,
                                           flags=[], traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))
    from sim import histories
    result = {}

    def work():
        if told['trace']:
            sys.settrace(lambda *args: None)
        result['histories'] = histories.lines_of(told['seeds'], context)
        result['unpacked'] = [histories.unpack(p) for p in told['parcels']]
        result['parcels'] = [histories.parcel(s) for s in told['seeds'][:1]]
    if told['thread']:
        import threading
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    if 'parcels' not in result:
        raise SystemExit(7)
    sys.stdout.buffer.write(json.dumps(result).encode('ascii'))


main()
