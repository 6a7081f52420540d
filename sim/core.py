"""The simulation engine: seeded choices, run isolation, parallel search, minimisation, replay and evidence.

One integer (VERIF_SEED) decides everything.  Run number ``i`` of property ``P`` draws every choice -- generated
workload, scheduling decision, chunk size, fault kind and fault position -- from a PRNG seeded with
``sha256(VERIF_SEED:P:i)`` and the choices made are recorded.  A replay file is nothing but that list of recorded
choices, so replaying is a pure function of the file and of the code under test.  Choice ``0`` is always the simplest
alternative (no fault, whole input in one chunk, smallest value), and that is what minimisation drives towards.
"""
import errno
import hashlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
LIB_DIR = os.path.join(os.path.realpath(REPO), 'amazon', 'ion') + os.sep
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXIT_OK = 0
EXIT_VIOLATION = 1
EXIT_HARNESS = 3

RUN_CPU_LIMIT_S = 20.0       # a single simulated run normally takes milliseconds
WALL_GUARD_S = 840.0         # the whole check; reaching it is a harness error, never a pass


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, message):
        super(Violation, self).__init__(message)
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The simulator itself is broken."""


class Hang(BaseException):
    """Raised by the CPU watchdog in a run which does not terminate."""


class Abandon(Exception):
    """This run is of no interest (precondition not met); it counts as an evaluation, but not as a non-trivial one."""


def violate(kind, fmt, *args):
    raise Violation(kind, fmt % args if args else fmt)


def clip(obj, limit=600):
    text = obj if isinstance(obj, str) else repr(obj)
    if len(text) > limit:
        text = text[:limit // 2] + ' ...[%d chars]... ' % (len(text) - limit) + text[-limit // 2:]
    return text


class Chooser(object):
    """Source of every nondeterministic decision in a run."""

    def __init__(self, rng=None, prefix=None):
        self._rng = rng
        self._prefix = prefix
        self.record = []

    def draw(self, n):
        """An integer in [0, n); zero is the simplest choice."""
        if n <= 1:
            return 0
        if self._prefix is not None:
            i = len(self.record)
            v = self._prefix[i] if i < len(self._prefix) else 0
            if v >= n:
                v = v % n
        else:
            # random() * n is fast and deterministic in every interpreter.
            v = int(self._rng.random() * n) if n < (1 << 48) else self._rng.randrange(n)
        self.record.append(v)
        return v

    def range(self, lo, hi):
        """An integer in [lo, hi], ``lo`` simplest."""
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """True with probability num/den; False is the simple choice."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """``pairs`` is a sequence of (weight, item) with the simplest first."""
        total = 0
        for w, _ in pairs:
            total += w
        v = self.draw(total)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError('weighted')

    def subset(self, seq):
        return [x for x in seq if self.draw(2)]

    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 24)
            v = (v << k) | self.draw(1 << k)
            n -= k
        return v


def seed_for(seed, prop, index):
    h = hashlib.sha256(('%d:%s:%d' % (seed, prop, index)).encode()).digest()
    return int.from_bytes(h[:16], 'big')


ADDRESS = re.compile(' at 0x[0-9a-f]+')


class Ctx(object):
    """What a run reports back: its event log, the faults that actually fired, the states it reached."""

    def __init__(self, keep_log=False):
        self.keep_log = keep_log
        self.log = []
        self._hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0              # simulated time: scheduler steps
        self.nontrivial = False
        self.sample = None

    def trace(self, *parts):
        """Appends to the event log of this run. Never draws, never reads a clock."""
        line = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        if ' at 0x' in line:
            line = ADDRESS.sub(' at 0x', line)
        self._hash.update(line.encode('utf-8', 'backslashreplace'))
        self._hash.update(b'\n')
        if self.keep_log:
            self.log.append(clip(line, 400))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(int.from_bytes(hashlib.md5(repr(sig).encode('utf-8', 'backslashreplace')).digest()[:8], 'big'))

    def step(self, n=1):
        self.steps += n

    def digest(self):
        return self._hash if isinstance(self._hash, str) else self._hash.hexdigest()

    def __getstate__(self):
        d = dict(self.__dict__)
        d['_hash'] = self.digest()
        return d


def in_library(tb):
    """Whether the traceback passes through the code under test."""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(LIB_DIR):
            return True
        tb = tb.tb_next
    return False


def where_in_library(tb):
    name = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(LIB_DIR):
            name = os.path.basename(f)
        tb = tb.tb_next
    return name


def _on_cpu_limit(signum, frame):
    raise Hang()


class Outcome(object):
    __slots__ = ('violation', 'ctx', 'record', 'harness', 'abandoned')

    def __getstate__(self):
        return dict((k, getattr(self, k)) for k in self.__slots__)

    def __setstate__(self, d):
        for k in d:
            setattr(self, k, d[k])


def execute(run, chooser, keep_log=False, cpu_limit=RUN_CPU_LIMIT_S):
    """Executes one simulated run and classifies how it ended."""
    ctx = Ctx(keep_log)
    out = Outcome()
    out.ctx = ctx
    out.violation = None
    out.harness = None
    out.abandoned = False
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    try:
        try:
            run(chooser, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        out.violation = (e.kind, e.message)
    except Abandon:
        out.abandoned = True
    except Hang:
        out.violation = ('no-progress', 'the run did not terminate within %.0f s of CPU time' % cpu_limit)
    except HarnessError:
        out.harness = traceback.format_exc()
    except Exception as e:
        if in_library(sys.exc_info()[2]):
            out.violation = ('unexpected-exception:' + type(e).__name__,
                             'unexpected %s from the library: %s\n%s' % (type(e).__name__, clip(str(e)),
                                                                         traceback.format_exc()))
        else:
            out.harness = traceback.format_exc()
    finally:
        # Whatever the run did to this thread's environment must not reach the next one.
        reset_environment()
    out.record = chooser.record
    if out.violation is not None:
        ctx.trace('VIOLATION', out.violation[0])
    return out


def reset_environment():
    import decimal
    sys.settrace(None)
    decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999,
                                       capitals=1, clamp=0, flags=[],
                                       traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))


# ---------------------------------------------------------------------------------------------------------------------
# Parallel search

class Batch(object):
    """Aggregated results over many runs."""

    def __init__(self):
        self.runs = 0
        self.abandoned = 0
        self.nontrivial = 0
        self.steps = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.digests = {}           # chunk -> digest
        self.samples = {}
        self.failure = None         # (index, kind, message, record)
        self.harness = None

    def add_run(self, index, out):
        self.runs += 1
        ctx = out.ctx
        self.steps += ctx.steps
        if out.abandoned:
            self.abandoned += 1
        elif ctx.nontrivial:
            self.nontrivial += 1
        for k, v in ctx.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in ctx.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.states |= ctx.states
        if ctx.sample is not None and len(self.samples) < 3:
            self.samples[index] = ctx.sample

    def merge(self, other):
        self.runs += other.runs
        self.abandoned += other.abandoned
        self.nontrivial += other.nontrivial
        self.steps += other.steps
        for k, v in other.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in other.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.states |= other.states
        self.digests.update(other.digests)
        self.samples.update(other.samples)
        if other.failure is not None and (self.failure is None or other.failure[0] < self.failure[0]):
            self.failure = other.failure
        if other.harness is not None and self.harness is None:
            self.harness = other.harness


CHUNK = 20


def run_index(prop, seed, index, keep_log=False):
    rng = random.Random(seed_for(seed, prop.ID, index))
    return execute_for(prop, Chooser(rng=rng), keep_log)


def execute_for(prop, chooser, keep_log=False):
    """Executes a run, in a process of its own where the property asks for it.

    Runs which depend on every single line of library code that is executed must start with the library in the state in
    which it was imported: the library fills some tables as it goes.
    """
    if not prop.ISOLATED:
        return execute(prop.run, chooser, keep_log, prop.CPU_LIMIT_S)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _write_all(w, pickle.dumps(execute(prop.run, chooser, keep_log, prop.CPU_LIMIT_S), 2))
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    try:
        while True:
            part = os.read(r, 1 << 20)
            if not part:
                break
            parts.append(part)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    data = b''.join(parts)
    if not data:
        raise HarnessError('a run ended without a result')
    return pickle.loads(data)


def run_chunk(prop, seed, chunk, total):
    batch = Batch()
    h = hashlib.sha256()
    for index in range(chunk * CHUNK, min(total, (chunk + 1) * CHUNK)):
        out = run_index(prop, seed, index)
        if out.harness is not None:
            batch.harness = 'run %d (seed %d): %s' % (index, seed, out.harness)
            break
        batch.add_run(index, out)
        h.update(out.ctx.digest().encode())
        if out.violation is not None:
            known = match_known(prop.ID, out.violation)
            if known is None:
                batch.failure = (index, out.violation[0], out.violation[1], list(out.record))
                break
            batch.probes['known-finding:' + known] = batch.probes.get('known-finding:' + known, 0) + 1
    batch.digests[chunk] = h.hexdigest()
    return batch


def _write_all(fd, data):
    view = memoryview(data)
    while len(view):
        n = os.write(fd, view)
        view = view[n:]


def _worker(prop, seed, total, worker, workers, wfd, stop_rfd):
    """Processes chunks ``worker, worker + workers, ...``; streams pickled batches to the parent."""
    chunks = (total + CHUNK - 1) // CHUNK
    limit = [chunks]
    for chunk in range(worker, chunks, workers):
        # The parent announces the lowest failing chunk; later chunks cannot matter.
        r, _, _ = select.select([stop_rfd], [], [], 0)
        if r:
            break
        batch = run_chunk(prop, seed, chunk, total)
        payload = pickle.dumps((chunk, batch), 2)
        _write_all(wfd, len(payload).to_bytes(8, 'big') + payload)
        if batch.failure is not None or batch.harness is not None:
            break


def search(prop, seed, total, workers, deadline):
    """Runs ``total`` seeded runs on ``workers`` forked processes.

    The result does not depend on ``workers``: every chunk below the lowest failing one is always completed, and the
    statistics of a batch without failures cover exactly runs ``0..total-1``.
    """
    batch = Batch()
    pids = {}
    fds = {}
    stop_pipes = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wr = os.pipe()
        sr, sw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(sw)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                except (ValueError, OSError):
                    pass
                _worker(prop, seed, total, w, workers, wr, sr)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        os.close(sr)
        pids[w] = pid
        fds[r] = w
        stop_pipes[w] = sw
    buffers = dict((r, b'') for r in fds)
    done_chunk = dict((w, -1) for w in range(workers))
    timed_out = False
    open_fds = set(fds)
    while open_fds:
        remaining = deadline - time.time()
        if remaining <= 0:
            timed_out = True
            break
        ready, _, _ = select.select(list(open_fds), [], [], min(remaining, 5.0))
        for r in ready:
            data = os.read(r, 1 << 20)
            if not data:
                open_fds.discard(r)
                continue
            buf = buffers[r] + data
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + n:
                    break
                chunk, part = pickle.loads(buf[8:8 + n])
                buf = buf[8 + n:]
                batch.merge(part)
                done_chunk[fds[r]] = chunk
            buffers[r] = buf
        if batch.failure is not None:
            limit = batch.failure[0] // CHUNK
            for w in list(stop_pipes):
                # Stop a worker once its next chunk cannot contain a lower failing run.
                if done_chunk[w] + workers > limit or (done_chunk[w] < 0 and w > limit):
                    os.close(stop_pipes.pop(w))
            if all(done_chunk[w] + workers > limit if done_chunk[w] >= 0 else w > limit for w in range(workers)):
                break
    for w, fd in stop_pipes.items():
        os.close(fd)
    for w, pid in pids.items():
        if timed_out or batch.failure is not None:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if status != 0 and not timed_out and batch.failure is None and batch.harness is None:
            batch.harness = 'worker %d ended with status %d' % (w, status)
    for r in fds:
        os.close(r)
    if timed_out:
        batch.harness = 'wall-clock guard reached after %d runs' % batch.runs
    return batch


def batch_digest(batch):
    h = hashlib.sha256()
    for chunk in sorted(batch.digests):
        h.update(('%d:%s\n' % (chunk, batch.digests[chunk])).encode())
    return h.hexdigest()


# ---------------------------------------------------------------------------------------------------------------------
# Minimisation

def _fails(prop, record, kind):
    out = execute_for(prop, Chooser(prefix=record))
    if out.violation is not None and out.violation[0] == kind and match_known(prop.ID, out.violation) is None:
        return list(out.record)
    return None


def minimise(prop, record, kind, budget_s=25.0, max_evals=1500):
    """Delta debugging over the recorded choices: delete blocks, zero blocks, lower values."""
    start = time.time()
    evals = [0]

    def attempt(candidate):
        if evals[0] >= max_evals or time.time() - start > budget_s:
            return None
        evals[0] += 1
        result = _fails(prop, candidate, kind)
        if result is None:
            return None
        # strip the trailing simplest choices: they are implied
        while result and result[-1] == 0:
            result.pop()
        return result

    best = list(record)
    while best and best[-1] == 0:
        best.pop()
    if kind == 'no-progress':
        return best, 0

    def key(rec):
        return (len(rec), sum(min(v, 1 << 20) for v in rec))

    improved = True
    while improved and evals[0] < max_evals and time.time() - start < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                got = attempt(cand)
                if got is not None and key(got) < key(best):
                    best = got
                    improved = True
                    continue
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    got = attempt(cand)
                    if got is not None and key(got) < key(best):
                        best = got
                        improved = True
                i += size
            if size == 1:
                break
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, v = 0, best[i]
            while v > 1 and i < len(best):
                cand = list(best)
                cand[i] = v // 2
                got = attempt(cand)
                if got is None or key(got) >= key(best):
                    break
                best = got
                improved = True
                v = best[i] if i < len(best) else 0
            if i < len(best) and best[i] > 1:
                cand = list(best)
                cand[i] -= 1
                got = attempt(cand)
                if got is not None and key(got) < key(best):
                    best = got
                    improved = True
    return best, evals[0]


# ---------------------------------------------------------------------------------------------------------------------
# Known findings

_KNOWN = None


def known_findings():
    """The findings listed in known_findings.txt.

    Lines are either ``known: {"id", "property", "kind", "match", "what"}`` or ``fixed: property=...``; fixed entries
    suppress nothing.
    """
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        path = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith('known:'):
                        _KNOWN.append(json.loads(line[len('known:'):]))
    return _KNOWN


def match_known(prop_id, violation):
    for entry in known_findings():
        if entry['property'] == prop_id and entry['kind'] == violation[0] and entry['match'] in violation[1]:
            return entry['id']
    return None
