"""C15: processes sharing intermediates, delayed at file operations, compared with running alone."""
import json
import os
import time
from kcmon.core import scratch
from kcmon.gen import faults, store
from kcmon.gen.fresh import in_child
from kcmon.gen.recorder import warm_osaca, MACHINE

LEVEL = 'exploration'
PRELOAD = True
RULE = ('Two to six processes start at a barrier on one directory - same kernel, same or different '
        'options, empty, filled or outdated intermediates - while a preloaded library delays their '
        'file operations (opening, half written, closing, locking, renaming) at random and the '
        'compiler writes its output slowly. All processes have to finish, each reports what it '
        'reports alone, from the log of operations no process accesses an intermediate while '
        'another has it open for writing, and afterwards every lock can be taken. Non-trivial: '
        'distinct sequences of (process, operation, file) in which processes alternate.')
ASSUMPTIONS = ['All processes run on one machine with working flock.',
               'Kernel and machine files are not edited while the processes run, and intermediates '
               'are kept (no --clean-intermediates).']
BUDGET = {'quick': 420}


def execute(d, run):
    """(report, intermediates still locked by the process after the run)."""
    return store.execute(d, run)[0], faults.held_locks(d)


def alone(memo, files, run, obs):
    key = json.dumps([files, run], sort_keys=True)
    if key not in memo:
        with scratch() as d:
            store.world_files(d, files, {})
            r = in_child(execute, d, run)
            if r[0] != 'ok':
                raise RuntimeError('alone: {}'.format(r))
            report, held = r[1]
            obs.check(not held, 'left-locked', 'after its analysis, the process keeps {} '
                      'locked'.format(held), run=run)
            memo[key] = report
    return memo[key]


def use_slow_compiler(log, who, delay, tmp, fault='none'):
    d = os.environ['KCMON_NATIVE']
    os.environ.update(KCMON_CC='/usr/bin', KCMON_CC_DELAY=str(delay), KCMON_CC_LOG=log,
                      KCMON_CC_WHO=str(who), KCMON_CC_TMP=tmp, KCMON_CC_FAULT=fault,
                      PATH=os.path.join(d, 'bin') + ':' + os.environ['PATH'])


def run(ck):
    import kerncraft.models
    import kerncraft.cacheprediction
    warm_osaca([MACHINE])
    texts = store.machine_texts()
    lib = faults.Lib()

    def together(kind):
        def fn(rng, obs):
            memo = {}
            src = rng.choice(store.SOURCES)
            kernels = {'k.c': src}
            if rng.random() < .2:
                kernels['other.c'] = rng.choice(store.SOURCES)
            machines = {'m.yml': texts['base']}
            if rng.random() < .2:
                machines['sub/m.yml'] = texts[rng.choice(['l1', 'flags', 'bw'])]
            files = dict(kernels, **machines)
            variants = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(sorted(kernels))
                r = store.random_run(rng, kernels[k], kind == 'in-core', kind == 'files')
                if kind == 'analyses':
                    r['predictor'] = rng.choice(['SIM', 'SIM', 'LC'])
                    r['models'] = rng.choice([m for m in store.CHEAP if m != ['LC']])
                if variants and rng.random() < .6:  # alike in all but one option
                    o = rng.choice(sorted(r))
                    base = rng.choice(variants)
                    if o in base and o not in ('cc', 'flags') and base['kernel'] == k:
                        r = dict(base, **{o: r[o]})
                r.update(kernel=k, machine=rng.choice(sorted(machines)), rel=rng.random() < .3)
                variants.append(r)
            n = rng.randint(2, 6 if kind == 'analyses' else 4)
            runs = [rng.choice(variants) for _ in range(n)]
            want = [alone(memo, files, r, obs) for r in runs]
            seeds = [rng.getrandbits(40) for _ in runs]
            permille = rng.choice([0, 100, 300, 700])
            max_us = rng.choice([2000, 20000, 100000, 300000])
            ccdelay = rng.choice([0, 50000, 300000])
            starts = [rng.choice([0, 0, 0, rng.random() * 2]) for _ in runs]
            state = rng.choice(['empty', 'empty', 'empty', 'filled', 'outdated'])
            with scratch() as d, scratch() as aside:
                store.world_files(d, files, {})
                if state != 'empty':
                    for r in variants:
                        in_child(store.execute, d, r)
                    if state == 'outdated':
                        for base, dirs, names in os.walk(d):
                            for nm in names:
                                if '_kerncraft' in base:
                                    os.utime(os.path.join(base, nm), (1e9, 1e9))
                log = faults.Log(os.path.join(aside, 'log'))
                gate_r, gate_w = os.pipe()
                processes = []

                def before(i):
                    def f():
                        os.close(gate_w)
                        os.read(gate_r, 1)  # until the parent opens the gate
                        use_slow_compiler(log.path, i, ccdelay, aside)
                        time.sleep(starts[i])
                        lib.arm(d, i, log.fd, permille=permille, max_us=max_us, seed=seeds[i])
                    return f
                for i, r in enumerate(runs):
                    processes.append(faults.Process(store.execute, d, r, before=before(i)))
                os.close(gate_r)
                os.close(gate_w)
                results = faults.gather(processes, 150)
                events = log.events()
                held = faults.held_locks(d)
            obs.evals += n - 1
            data = dict(runs=runs, state=state, delays=(permille, max_us, ccdelay))
            for i, (res, w) in enumerate(zip(results, want)):
                obs.event('processes')
                if res[0] == 'late':
                    obs.check(False, 'never-finishes', 'process {} did not finish'.format(i),
                              tail=events[-12:], **data)
                    continue
                obs.check(res[0] == 'ok', 'process-dies', 'process {}: {}'.format(i, res), **data)
                if res[0] == 'ok':
                    got = res[1][0]
                    obs.check(got == w, 'report-differs', 'process {} of {} reports other than '
                              'alone'.format(i, n), got=got[-700:], alone=w[-700:], **data)
            found, writes, reads = faults.overlaps(events)
            obs.event('intermediates written', writes)
            obs.event('intermediates read', reads)
            for name, what in found[:3]:
                obs.check(False, 'accessed-while-written', '{}: {}'.format(name, what), **data)
            obs.check(not held, 'left-locked', 'still locked: {}'.format(held), **data)
            asked, waits = {}, 0
            for t, who, op, phase, k, name in events:
                if op == 'flock' and phase == 'ask':
                    asked[who, name, k] = t
                elif op == 'flock' and t - asked.get((who, name, k), t) > 2e6:
                    waits += 1
            obs.event('waited for a lock', waits)
            order = [(who, op, phase, name) for t, who, op, phase, k, name in events
                     if op != 'write']
            changes = sum(a[0] != b[0] for a, b in zip(order, order[1:]))
            obs.event('operations', len(order))
            obs.event('switches between processes', changes)
            if changes >= n:
                obs.distinct(order)
            obs.describe(kind=kind, processes=n, state=state, runs=[str(r)[:200] for r in variants],
                         switches=changes, waits=waits)
        return fn

    ck.cases('analyses', ck.pick(45, 1200), together('analyses'), limit=400, share=.45, procs=3)
    ck.cases('files', ck.pick(30, 700), together('files'), limit=400, share=.5, procs=3)
    ck.cases('in-core', ck.pick(20, 400), together('in-core'), limit=400, procs=3)
    ck.require('processes', ck.pick(100, 1500))
    ck.require('waited for a lock', 20)
    ck.require('switches between processes', 300)
