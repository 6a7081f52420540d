"""Decides one property by seeded search over simulated runs.

    run.sh check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
    run.sh check.py --replay out/C01-....json
    run.sh check.py --property C01 --digest [--runs N] [--workers N]     (for the determinism proof)

Exit 0: the property held on every run.  Exit 1: a VIOLATION line was printed.  Anything else: the check is broken.
"""
import argparse
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import core  # noqa: E402
from sim.core import EXIT_HARNESS, EXIT_OK, EXIT_VIOLATION, WALL_GUARD_S  # noqa: E402


def load_property(pid):
    sys.setrecursionlimit(4000)
    import amazon
    # The environment may have another copy installed: the working tree is what is tested.
    amazon.__path__ = [os.path.join(core.REPO, 'amazon')]
    import amazon.ion
    path = os.path.realpath(os.path.dirname(amazon.ion.__file__)) + os.sep
    if path != core.LIB_DIR:
        raise core.HarnessError('testing %s instead of %s' % (path, core.LIB_DIR))
    index = importlib.import_module('sim.props.index')
    prop = index.get(pid)
    if prop.ISOLATED:
        # Which lines the trace function of a compiled loop sees depends on when it was compiled.
        import pypyjit
        pypyjit.set_param('off')
    return prop


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.tmp' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, ensure_ascii=True)
        f.write('\n')
    os.rename(tmp, path)


def do_replay(path, verbose=True):
    with open(path) as f:
        replay = json.load(f)
    prop = load_property(replay['property'])
    for index in replay.get('prelude', ()):
        core.run_index(prop, replay['seed'], index)
    out = core.execute_for(prop, core.Chooser(prefix=replay['choices']), keep_log=True)
    if verbose:
        for line in out.ctx.log:
            print('  |', line)
    if out.harness is not None:
        print(out.harness)
        return EXIT_HARNESS
    if out.violation is None:
        print('replay of %s: no violation' % path)
        return EXIT_OK
    print('%s: %s' % out.violation)
    same = out.violation[0] == replay['kind'] and out.ctx.digest() == replay['log_digest']
    print('replay reproduces the recorded violation exactly' if same else
          'replay fails, but not exactly as recorded (the code under test differs?)')
    print('VIOLATION property=%s replay=%s' % (replay['property'], path))
    return EXIT_VIOLATION


def in_child(fn):
    """fn() in a forked process, which no state of the library outlives; the result goes through JSON."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core._write_all(w, json.dumps(fn()).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    limit = time.time() + 150
    while True:
        ready, _, _ = select.select([r], [], [], max(0, limit - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            data = b''
            break
        part = os.read(r, 1 << 20)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else None


def report_history(prop, seed, workers, replay, core_path, alone):
    """A run which fails only after other runs in the same process: the library keeps state where it must not.

    The runs which came before it in its worker are the history; it is minimised and becomes part of the replay file.
    """
    index, kind = replay['run'], replay['kind']
    chunk = index // core.CHUNK
    here = list(range(chunk * core.CHUNK, index))
    before = [i for c in range(chunk % workers, chunk, workers) for i in range(c * core.CHUNK, (c + 1) * core.CHUNK)]

    def attempt(prelude):
        def go():
            for i in prelude:
                core.run_index(prop, seed, i)
            out = core.execute_for(prop, core.Chooser(prefix=replay['choices']), keep_log=True)
            return {'violation': out.violation, 'digest': out.ctx.digest(), 'log': out.ctx.log[-400:]}
        return in_child(go)

    def fails(result):
        return result is not None and result['violation'] is not None and result['violation'][0] == kind

    start = time.time()
    prelude = None
    for candidate in (here, before[-400:] + here, before + here):
        result = attempt(candidate)
        if fails(result):
            prelude = candidate
            break
    if prelude is None:
        print('%s: seed %d run %d: %s: %s' % (prop.ID, seed, index, kind, replay['message']))
        print('NOT REPRODUCED: repeating the run gives %r; the code under test depends on something the simulator does not '
              'control' % (alone,))
        print('VIOLATION property=%s replay=%s' % (prop.ID, core_path))
        return core_path
    size = max(1, len(prelude) // 2)
    while time.time() - start < 90:
        i = 0
        while i < len(prelude) and time.time() - start < 90:
            cand = prelude[:i] + prelude[i + size:]
            got = attempt(cand)
            if fails(got):
                prelude, result = cand, got
            else:
                i += size
        if size == 1:
            break
        size = max(1, size // 2)
    replay.update({'prelude': prelude, 'message': core.clip(result['violation'][1], 4000), 'log': result['log'],
                   'log_digest': result['digest'], 'minimised': True})
    write_json(core_path, replay)
    print('%s: seed %d run %d, after the runs %r in the same process: %s: %s' % (
        prop.ID, seed, index, prelude, kind, replay['message']))
    for line in replay['log'][-60:]:
        print('  |', line)
    print('VIOLATION property=%s replay=%s' % (prop.ID, core_path))
    sys.stdout.flush()
    return core_path


def report_violation(prop, seed, tier, failure, workers):
    index, kind, message, record = failure
    core_path = os.path.join(HERE, 'out', '%s-seed%d-run%d.json' % (prop.ID, seed, index))
    replay = {
        'property': prop.ID, 'seed': seed, 'run': index, 'kind': kind, 'message': core.clip(message, 4000),
        'choices': record, 'original_choices': len(record), 'minimised': False, 'log': [], 'log_digest': None, 'faults': {},
    }
    # The unminimised failure is saved first: nothing that follows can lose it.
    write_json(core_path, replay)

    # Everything which executes library code runs in a forked process, so that no state which a broken library keeps
    # can take part unnoticed.
    def attempt(choices):
        def go():
            out = core.execute_for(prop, core.Chooser(prefix=choices), keep_log=True)
            return {'violation': out.violation, 'log': out.ctx.log[-400:], 'log_digest': out.ctx.digest(),
                    'faults': out.ctx.faults}
        return in_child(go)

    def accept(result, choices):
        if result is None or result['violation'] is None or result['violation'][0] != kind:
            return False
        replay.update({'choices': choices, 'message': core.clip(result['violation'][1], 4000), 'log': result['log'],
                       'log_digest': result['log_digest'], 'faults': result['faults']})
        write_json(core_path, replay)
        return True

    result = attempt(record)
    if not accept(result, record):
        return report_history(prop, seed, workers, replay, core_path, result and result['violation'])
    got = in_child(lambda: core.minimise(prop, record, kind))
    if got is not None and accept(attempt(got[0]), got[0]):
        replay.update({'minimised': True, 'minimiser_evaluations': got[1]})
        write_json(core_path, replay)
    print('%s: seed %d run %d: %s: %s' % (prop.ID, seed, index, kind, replay['message']))
    print('minimised from %d to %d choices; event log of the minimised run:' % (len(record), len(replay['choices'])))
    for line in replay['log'][-60:]:
        print('  |', line)
    print('VIOLATION property=%s replay=%s' % (prop.ID, core_path))
    sys.stdout.flush()
    return core_path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('--one', type=int, help='execute and print one run by index')
    args = ap.parse_args()

    if args.replay:
        return do_replay(args.replay)

    start = time.time()
    prop = load_property(args.property)
    if args.one is not None:
        out = core.run_index(prop, args.seed, args.one, keep_log=True)
        for line in out.ctx.log:
            print('  |', line)
        print(out.harness or '', out.violation, out.ctx.faults, out.ctx.probes, len(out.record))
        return 0
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    total = args.runs or prop.RUNS[tier]
    print('%s: VERIF_SEED=%d tier=%s runs=%d workers=%d' % (prop.ID, args.seed, tier, total, args.workers))
    sys.stdout.flush()
    batch = core.search(prop, args.seed, total, args.workers, start + (WALL_GUARD_S if tier == 'quick' else 7200))
    wall = time.time() - start
    if args.digest:
        print('DIGEST %s %s' % (prop.ID, core.batch_digest(batch)))

    violations = 0
    replay_path = None
    if batch.failure is not None:
        violations = 1
        replay_path = report_violation(prop, args.seed, tier, batch.failure, args.workers)
    evidence = {
        'property': prop.ID, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
        'wall_s': round(time.time() - start, 2), 'violations': violations,
        'assumptions': list(prop.ASSUMPTIONS),
        'coverage': {
            'evaluations': batch.runs,
            'distinct_nontrivial': len(batch.states),
            'rule': prop.RULE,
            'samples': [batch.samples[i] for i in sorted(batch.samples)][:4],
            'nontrivial_runs': batch.nontrivial,
            'runs_set_aside_by_precondition': batch.abandoned,
            'runs_per_hour': int(batch.runs / max(wall, 0.001) * 3600),
            'seeds': 'VERIF_SEED=%d, one derived PRNG seed per run, %d runs' % (args.seed, batch.runs),
            'simulated_time_steps': batch.steps,
            'simulated_time_unit': prop.TIME_UNIT,
            'faults_injected': dict(sorted(batch.faults.items())),
            'probes_hit': dict(sorted(batch.probes.items())),
            'distinct_states_measure': prop.STATE_MEASURE,
            'real_components': list(prop.REAL),
            'stub_components': list(prop.STUBS),
            'event_log_digest': core.batch_digest(batch),
            'workers': args.workers,
        },
    }
    if not args.digest:
        write_json(os.path.join(HERE, 'evidence', '%s.json' % prop.ID), evidence)
    for entry in core.known_findings():
        if entry['property'] == prop.ID:
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, entry['what']))
    if batch.failure is not None:
        return EXIT_VIOLATION if replay_path is not None else EXIT_HARNESS
    if batch.harness is not None:
        print('HARNESS ERROR: %s' % batch.harness)
        return EXIT_HARNESS
    missing = [p for p in prop.MUST_HIT if not batch.faults.get(p) and not batch.probes.get(p)]
    if missing and batch.runs >= prop.RUNS['quick']:
        print('HARNESS ERROR: never reached: %s' % ', '.join(missing))
        return EXIT_HARNESS
    print('%s: held on %d runs (%d distinct states, %d steps, %.1f s); faults injected: %s' % (
        prop.ID, batch.runs, len(batch.states), batch.steps, wall,
        ', '.join('%s=%d' % kv for kv in sorted(batch.faults.items())) or 'none'))
    return EXIT_OK


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = EXIT_HARNESS
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
