"""C16: runs killed at their n-th file operation; later runs and result files are compared."""
import json
import os
import pickle
import re
import shutil
import sys
from kcmon.core import Skip, scratch
from kcmon.checks.c15 import use_slow_compiler
from kcmon.gen import faults, store
from kcmon.gen.fresh import in_child, norm
from kcmon.gen.recorder import warm_osaca, MACHINE

LEVEL = 'exploration'
PRELOAD = True
RULE = ('A preloaded library kills a run with SIGKILL (with its process group) before, after or - '
        'with half of the data written - within its n-th file operation, or a stand-in for the '
        'compiler does so (or dies or fails itself) when half of its output is written; n runs '
        'over all operations of that run. Runs that follow - the same, others on the same kernel, '
        'and ones waiting for the killed run - have to finish and to report what they report '
        'without any history. Result files (--store, --json, picklemerge) are read after every '
        'kill and have to hold the previous or the new content. Non-trivial: distinct (operation, '
        'phase, file) at which a run was killed.')
ASSUMPTIONS = ['The file system keeps operations in order (kills of processes, not power failures).',
               'Locks of a killed process are released by the operating system.']
BUDGET = {'quick': 480}


def alone(memo, files, run):
    key = json.dumps([files, run], sort_keys=True)
    if key not in memo:
        with scratch() as d:
            store.world_files(d, files, {})
            r = in_child(store.execute, d, run)
            if r[0] != 'ok':
                raise RuntimeError('alone: {}'.format(r))
            memo[key] = r[1][0]
    return memo[key]


def killed_at(events):
    """(operation, phase, file) or None."""
    for t, who, op, phase, n, name in events:
        if phase == 'KILL':
            name = re.sub(r'[0-9a-f]{16}', '#', os.path.basename(name))
            return op, n, re.sub(r'-D[A-Z]+=[0-9]+|[0-9]{2,}', '#', name)
    return None


def merge(paths):
    from kerncraft import picklemerge
    sys.argv = ['picklemerge'] + paths
    picklemerge.main()


def load_pickle(path):
    try:
        with open(path, 'rb') as f:
            data = f.read()
        return repr(norm(pickle.loads(data))) if data else 'nothing'
    except FileNotFoundError:
        return 'nothing'
    except Exception as e:
        return 'unreadable: {}'.format(type(e).__name__)


def load_json(path):
    try:
        with open(path) as f:
            data = f.read()
        return json.dumps(json.loads(data), sort_keys=True) if data else 'nothing'
    except FileNotFoundError:
        return 'nothing'
    except Exception as e:
        return 'unreadable: {}'.format(type(e).__name__)


def run(ck):
    import kerncraft.models
    import kerncraft.cacheprediction
    warm_osaca([MACHINE])
    texts = store.machine_texts()
    lib = faults.Lib()

    def operations(d, fn, *args):
        """(number of file operations of fn(*args), its value, numbers of replacements)."""
        with scratch() as aside:
            log = faults.Log(os.path.join(aside, 'log'))

            def counted():
                lib.arm(d, 0, log.fd, kill_at=-2)
                v = fn(*args)
                return lib.count(), v
            p = faults.Process(counted)
            r = faults.gather([p], 150)[0]
            if r[0] != 'ok':
                raise RuntimeError('uncounted: {}'.format(r))
            return r[1] + ([n for t, who, op, phase, n, name in log.events()
                            if phase == 'nth' and op in ('rename', 'close')],)

    def kill_one(d, aside, who_runs, n, phase, fault, later=()):
        """Run who_runs[0] killed; *later*: runs beside it. (their results, events)."""
        log = faults.Log(os.path.join(aside, 'log'))

        def before_victim():
            if fault:
                use_slow_compiler(log.path, 0, 0, aside, fault)
            else:
                lib.arm(d, 0, log.fd, kill_at=n, phase=phase)
        fn, args = who_runs
        ps = [faults.Process(fn, *args, before=before_victim)]
        for r in later:
            ps.append(faults.Process(store.execute, d, r))
        out = faults.gather(ps, 150)
        return out, log.events()

    def workload(kind):
        def fn(rng, obs):
            memo = {}
            src = rng.choice(store.SOURCES)
            files = {'k.c': src, 'm.yml': texts['base']}
            victim = store.random_run(rng, src, kind == 'in-core', kind == 'files')
            if kind == 'analyses':
                victim['predictor'] = rng.choice(['SIM', 'LC'])
            victim.update(kernel='k.c', machine='m.yml', rel=rng.random() < .3)
            other = dict(victim)
            o = store.random_run(rng, src, kind == 'in-core', kind == 'files')
            for opt in rng.sample(sorted(o), rng.choice([1, 2])):
                other[opt] = o[opt]
            if other.get('cc') is None:
                other['flags'] = None
            with scratch() as d:
                store.world_files(d, files, {})
                n, (want, _, _), steps = operations(d, store.execute, d, victim)
            if not n:
                raise Skip('no file operations')
            data = {}
            kills = min(n, {'in-core': 3, 'files': 5, 'analyses': 6}[kind])
            points = rng.sample(range(1, n + 1), kills)
            if kind != 'analyses' and steps:  # between the steps of a run
                points = points[1:] + [rng.choice(steps)]
            if kind != 'analyses':
                points.append(None)  # within the compiler
            for k in points:
                phase = rng.choice([0, 1, 2, 2])
                fault = None if k else rng.choice(['kill', 'kill', 'killself', 'fail'])
                beside = [other if rng.random() < .5 else victim] if rng.random() < .3 else []
                with scratch() as d, scratch() as aside:
                    store.world_files(d, files, {})
                    if rng.random() < .15:
                        in_child(store.execute, d, other)
                    if rng.random() < .2:  # what was there was out of date
                        in_child(store.execute, d, victim)
                        for base, dirs, names in os.walk(d):
                            for nm in names:
                                if '_kerncraft' in base:
                                    os.utime(os.path.join(base, nm), (1e9, 1e9))
                    res, events = kill_one(d, aside, (store.execute, (d, victim)), k, phase,
                                           fault, beside)
                    at = killed_at(events)
                    obs.evals += 1
                    if at is None:
                        obs.event('not reached')
                    else:
                        obs.event('runs killed' if not fault else 'compilers ' + fault + 'ed')
                        obs.distinct((at, fault))
                    data = dict(victim=victim, at=at, fault=fault)
                    for r, out in zip(beside, res[1:]):
                        obs.event('runs beside')
                        w = alone(memo, files, r)
                        ok = out[0] == 'ok' and out[1][0] == w
                        obs.check(ok, 'run-beside-differs', 'a run beside the killed one: {}'.format(
                            out[0] if out[0] != 'ok' else 'reports other than alone'),
                            run=r, got=str(out[1:])[:900], want=w[:700], **data)
                    again = [victim, other] if rng.random() < .6 else [other, victim]
                    if rng.random() < .15:  # the next one gets killed, too
                        os.unlink(os.path.join(aside, 'log'))
                        kill_one(d, aside, (store.execute, (d, rng.choice(again))),
                                 rng.randint(1, n), phase, None)
                        obs.event('runs killed')
                    for r in again:
                        p = faults.Process(store.execute, d, r)
                        out = faults.gather([p], 150)[0]
                        w = alone(memo, files, r) if r is not victim else want
                        obs.event('later runs')
                        if out[0] == 'late':
                            obs.check(False, 'later-run-never-finishes',
                                      'a later run does not finish', run=r, **data)
                            continue
                        got = out[1][0] if out[0] == 'ok' else str(out)
                        obs.check(got == w, 'later-run-differs', 'a later run reports other than '
                                  'without the killed run', run=r, got=got[-700:], want=w[-700:],
                                  **data)
            obs.describe(kind=kind, operations=n, last=str(data)[:400])
        return fn

    def result_files(rng, obs):
        src = rng.choice(store.SOURCES)
        files = {'k.c': src, 'm.yml': texts['base']}
        mk = lambda: dict(store.random_run(rng, src), kernel='k.c', machine='m.yml', predictor='LC')
        first, second = mk(), mk()
        previous = rng.choice(['nothing', 'results', 'results', 'results'])
        with scratch() as d0:
            s, j = os.path.join(d0, 'r.pickle'), os.path.join(d0, 'r.json')
            store.world_files(d0, files, {})
            which = rng.choice([('--store',), ('--json',), ('--store', '--json')])
            opts = [o + '=' + {'--store': s, '--json': j}[o] for o in which]
            first['extra'] = second['extra'] = opts
            if previous == 'results':
                in_child(store.execute, d0, first)
            else:
                in_child(store.execute, d0, dict(first, extra=[]))
            keep = {p: open(p, 'rb').read() for p in (s, j) if os.path.exists(p)}

            def restore():
                for p in os.listdir(d0):
                    if p.startswith('r.'):
                        os.unlink(os.path.join(d0, p))
                for p, c in keep.items():
                    with open(p, 'wb') as f:
                        f.write(c)
            old = load_pickle(s), load_json(j)
            n, _, _ = operations(d0, store.execute, d0, second)
            new = load_pickle(s), load_json(j)
            if '--store' in which and 'unreadable' in new[0]:
                raise RuntimeError('reference cannot be read')
            # the last operations are those of result files
            points = set(rng.sample(range(1, n + 1), min(n, 3)))
            points |= set(rng.sample(range(max(1, n - 14), n + 1), min(n, 8)))
            for k in sorted(points):
                restore()
                phase = rng.choice([0, 1, 2, 2])
                with scratch() as aside:
                    _, events = kill_one(d0, aside, (store.execute, (d0, second)), k, phase, None)
                at = killed_at(events)
                obs.evals += 1
                if at:
                    obs.event('runs killed')
                    obs.distinct(at)
                data = dict(at=at, run=second, previous=previous)
                for i, (name, load) in enumerate(((s, load_pickle), (j, load_json))):
                    got = load(name)
                    obs.event('result files read')
                    obs.check(got in (old[i], new[i]), 'result-file-damaged', '{} holds neither '
                              'the previous nor the new content'.format(os.path.basename(name)),
                              got=got[:500], old=old[i][:500], new=new[i][:500], **data)
                if rng.random() < .4:
                    out = faults.gather([faults.Process(store.execute, d0, second)], 150)[0]
                    obs.event('later runs')
                    got = load_pickle(s), load_json(j)
                    # JSON holds the stored results or only those of the run
                    obs.check(out[0] == 'ok' and got == new, 'later-run-differs',
                              'results stored by a later run are others', got=str(got)[:700],
                              want=str(new)[:700], **data)
            obs.describe(previous=previous, options=[o.split('=')[0] for o in opts], operations=n)

    def merging(rng, obs):
        with scratch() as d:
            def content():
                return {('k{}'.format(rng.randint(0, 9)), i): {'a': rng.random(), 'b': {
                    str(rng.randint(0, 3)): ['x' * rng.choice([1, 1000, 200000])]}}
                    for i in range(rng.choice([1, 5, 50]))}
            paths = [os.path.join(d, 'p{}'.format(i)) for i in range(rng.randint(2, 4))]
            kept = {}
            for p in paths:
                with open(p, 'wb') as f:
                    pickle.dump(content(), f)
                with open(p, 'rb') as f:
                    kept[p] = f.read()
            old = load_pickle(paths[0])
            n, _, _ = operations(d, merge, paths)
            new = load_pickle(paths[0])
            for k in range(1, n + 1):
                for p, c in kept.items():
                    with open(p, 'wb') as f:
                        f.write(c)
                phase = rng.choice([0, 1, 2])
                with scratch() as aside:
                    _, events = kill_one(d, aside, (merge, (paths,)), k, phase, None)
                at = killed_at(events)
                obs.evals += 1
                if at:
                    obs.event('merges killed')
                    obs.distinct(at + (k,))
                got = load_pickle(paths[0])
                obs.event('result files read')
                obs.check(got in (old, new), 'merged-file-damaged', 'destination holds neither the '
                          'previous nor the merged content', got=got[:300], at=at)
                for p in paths[1:]:
                    with open(p, 'rb') as f:
                        obs.check(f.read() == kept[p], 'merge-source-damaged',
                                  'a source of the merge was changed', at=at)
                out = faults.gather([faults.Process(merge, paths)], 60)[0]
                obs.event('later runs')
                got = load_pickle(paths[0])
                obs.check(out[0] == 'ok' and got == new, 'later-merge-differs',
                          'merging again gives another result', got=got[:300], out=str(out)[:300])

    ck.cases('merging', ck.pick(16, 200), merging, limit=300)
    ck.cases('result files', ck.pick(20, 500), result_files, limit=400, share=.3)
    ck.cases('analyses', ck.pick(24, 800), workload('analyses'), limit=400, share=.4)
    ck.cases('files', ck.pick(24, 600), workload('files'), limit=400, share=.5)
    ck.cases('in-core', ck.pick(24, 500), workload('in-core'), limit=400)
    ck.require('runs killed', ck.pick(150, 2000))
    ck.require('merges killed', 50)
    ck.require('later runs', 200)
    ck.require('result files read', 100)
