import json
import os
import random
import re
import subprocess
import sys

from .. import core, histories
from ..core import HarnessError, clip, violate
from .base import READERS, SIMPLE, WRITERS, Property

def modules():
    """The modules of the library, whatever they are; the one which users start from is the first."""
    names = sorted(f[:-3] for f in os.listdir(core.LIB_DIR) if f.endswith('.py') and not f.startswith('_'))
    # Not for this interpreter, as it says when it is imported.
    names = [n for n in names if n != 'json_encoder']
    return ['simpleion'] * ('simpleion' in names) + [n for n in names if n != 'simpleion']


ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', '<+1245>-12:45', 'AAA24', 'XYZ-14:59', '<-0330>3:30']
ASSERTION = "('error', 'AssertionError')"
ERROR = re.compile(r"\('error', '\w+'\)")
PARTY = os.path.join(core.HERE, 'sim', 'party.py')


class Environment(Property):
    ID = 'C19'
    RUNS = {'quick': 400, 'thorough': 12000}
    CPU_LIMIT_S = 90.0
    RULE = ('A seeded history (readings by deliveries, load, writings, dump, transcoding, symbol tables, timestamps, damaged data and bad '
            'requests) is lived through twice: in this process and in a second one with an environment drawn by the scheduler (assertions '
            'and docstrings compiled away, hash seed, time zone, locale, UTF-8 mode, order in which the modules are imported, decimal context '
            'at import and in use, another thread than the main one, garbage collection off, a debugger attached, compiler off, recursion '
            'and digit limits). Every observation (event, output, error) must be the same, and values which one process loaded and handed '
            'over (pickled) must be the same values for the other, in both directions. Non-trivial: the environments differ and the '
            'history has observations. Distinct by the environment.')
    STATE_MEASURE = 'distinct environments'
    TIME_UNIT = 'observed operations (a reading, a writing, a dump, a load)'
    REAL = READERS + WRITERS + SIMPLE
    STUBS = ('users of the library', 'sources and outputs')
    MUST_HIT = ('optimised', 'docstrings-stripped', 'hash-seed', 'time-zone', 'locale', 'utf8-mode', 'import-order', 'decimal-context-switch', 'thread',
                'gc-off', 'debugger', 'jit-off', 'limits', 'handed-over')
    ASSUMPTIONS = ('Warnings are not turned into errors (-W error, -bb).', 'The second process runs the same interpreter; its kind and version are not varied.')

    def run(self, ch, ctx):
        flags, env, told = self.surroundings(ch, ctx)
        told['seeds'] = [ch.bits(20) for _ in range(ch.range(1, 12))]
        here = histories.lines_of(told['seeds'])
        sent = [histories.parcel(s + 1) for s in told['seeds'][:1]]
        told['parcels'] = [p for p, _ in sent]
        there = self.party(flags, env, told)
        ctx.sample = {'flags': flags, 'env': env, 'told': dict((k, v) for k, v in told.items() if k not in ('parcels', 'framework', 'repo'))}
        where = ' [%s]' % ' '.join(flags + ['%s=%s' % kv for kv in sorted(env.items())] + ['%s=%s' % (k, told[k]) for k in sorted(told) if k not in (
            'parcels', 'framework', 'repo', 'seeds')])
        if isinstance(there, str):
            violate('failed', 'the library fails in another environment: %s%s', clip(there), where)
        ctx.state(flags, sorted(env.items()), [told[k] for k in ('order', 'context', 'thread', 'gc', 'trace', 'recursion', 'digits')])
        for seed, a, b in zip(told['seeds'], here, there['histories']):
            for (label, x), y in zip(a, b):
                ctx.step()
                ctx.trace(label, x)
                if [label, x] == y:
                    continue
                if ASSERTION in x and ERROR.sub(ASSERTION, x) == ERROR.sub(ASSERTION, y[1]):
                    # Where assertions are compiled away it is another error in the same place.
                    ctx.probe('assertion-failed')
                    continue
                if y[0] != label:
                    raise HarnessError('the second process lived through another history: %r, %r' % (label, y[0]))
                if told['context'] and label in ('symbol tables', 'small things'):
                    continue
                i = next((i for i, (p, q) in enumerate(zip(x, y[1])) if p != q), min(len(x), len(y[1])))
                violate('depends-on-environment', 'history %d, %s: observed is ...%s, here ...%s%s', seed, label, clip(y[1][max(0, i - 60):i + 120]),
                        clip(x[max(0, i - 60):i + 120]), where)
        ctx.fault('handed-over', len(sent) + len(there['parcels']))
        for (_, want), got in zip(sent, there['unpacked']):
            if got != want:
                violate('handed-over', 'loaded values which were handed to the other process are %s there, and here %s%s', clip(got), clip(want), where)
        for data, want in there['parcels']:
            got = histories.unpack(data)
            if got != want:
                violate('handed-over', 'loaded values of the other process are %s here, and there %s%s', clip(got), clip(want), where)
        ctx.nontrivial = True

    def surroundings(self, ch, ctx):
        def vary(fault, values):
            v = ch.pick(values)
            if v != values[0]:
                ctx.fault(fault)
            return v
        flags = []
        optimised = vary('optimised', ['', '-O', '-OO'])
        if optimised == '-OO':
            ctx.fault('docstrings-stripped')
        if vary('jit-off', [0, 0, 0, 1]):
            flags += ['--jit', 'off']
        if optimised:
            flags.append(optimised)
        env = {'PYTHONHASHSEED': str(vary('hash-seed', [0] + list(range(1, 200)))), 'TZ': vary('time-zone', ZONES),
               'LC_ALL': vary('locale', ['C', 'C.UTF-8', 'POSIX', '']), 'PYTHONUTF8': vary('utf8-mode', ['0', '1'])}
        order = modules()
        k = vary('import-order', [0, 1, 2])
        if k:
            random.Random(ch.bits(20)).shuffle(order)
        if k == 2:
            # Only what the first one needs; the rest when it is needed.
            order = order[:1]
        told = {'order': order, 'context': vary('decimal-context-switch', [0, 0] + list(range(1, 50))) if ch.draw(3) == 2 else 0,
                'thread': vary('thread', [0, 1]), 'gc': vary('gc-off', ['on', 'off']), 'trace': vary('debugger', [0, 0, 0, 1]),
                'recursion': vary('limits', [4000, 20000]), 'digits': vary('limits', [None, 0]),
                'framework': core.HERE, 'repo': core.REPO}
        return flags, env, told

    def party(self, flags, env, told):
        full = {'PATH': os.environ.get('PATH', ''), 'HOME': '/nonexistent', 'PYTHONPATH': core.REPO, 'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONPYCACHEPREFIX': '/nonexistent/pycache', 'VERIF_REPO': core.REPO}
        full.update(env)
        p = subprocess.run([sys.executable] + flags + [PARTY], input=json.dumps(told).encode('ascii'), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=full, cwd='/', timeout=600)
        if p.returncode != 0:
            err = p.stderr.decode('utf-8', 'backslashreplace')
            if core.LIB_DIR in err:
                return '\n'.join(err.strip().split('\n')[-4:])
            raise HarnessError('the second process ended with %d: %s' % (p.returncode, err[-2000:]))
        return json.loads(p.stdout.decode('ascii'))


PROPERTIES = {'C19': Environment()}
