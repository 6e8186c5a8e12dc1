"""C14: histories of runs over stored intermediates, every report compared with one without any."""
import json
import os
import shutil
import time
from kcmon.core import Skip, scratch
from kcmon.gen import store
from kcmon.gen.fresh import in_child
from kcmon.gen.recorder import warm_osaca, MACHINE

LEVEL = 'exploration'
RULE = ('Histories of runs in one directory, interleaved with edits: constants, cores, predictor, '
        'models, compiler and flags, pointer increment, block, verbosity, relative or absolute '
        'paths, kernel sources and machine descriptions (of the same file name) change between '
        'runs, earlier states are revisited, modification times of edited files may lie in the '
        'past. Every run is a process of its own; its results, text and generated programs '
        '(disassembly) are compared with those of the same run in a directory without '
        'intermediates. A second workload overwrites all stored intermediates with garbage, dated '
        'older than exactly one of kernel file, machine file or package: the next run must still '
        'report the same and rebuild them. An audit hook counts intermediates read again and '
        'written. Non-trivial: a run that read an intermediate stored by an earlier run.')
ASSUMPTIONS = ['Compiler flags that differ only in slashes are not distinguished (not judged).',
               'External tools and environment variables stay the same.']
BUDGET = {'quick': 420}


def spawn(d, run):
    r = in_child(store.execute, d, run)
    if r[0] != 'ok':
        return 'HARNESS {}'.format(r), [], []
    return r[1]


def reference(memo, files, run):
    key = json.dumps([files, run], sort_keys=True)
    if key not in memo:
        with scratch() as d:
            store.world_files(d, files, {})
            memo[key] = spawn(d, run)[0]
    return memo[key]


def intermediates(d):
    r = []
    for base, dirs, names in os.walk(d):
        if '_kerncraft' in base:
            r += [os.path.join(base, n) for n in names if not n.endswith('.lock')]
    return sorted(r)


def newest_of_package():
    import kerncraft
    base = os.path.dirname(os.path.abspath(kerncraft.__file__))
    t = 0
    for p, dirs, names in os.walk(base):
        for n in names:
            if n.endswith('.py'):
                t = max(t, os.stat(os.path.join(p, n)).st_mtime)
    return t


def difference(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return x[max(0, i - 120):i + 120], y[max(0, i - 120):i + 120]
    return a[-200:], b[-200:]


def run(ck):
    import kerncraft.models
    import kerncraft.cacheprediction
    warm_osaca([MACHINE])
    texts = store.machine_texts()
    names = ['base'] * 4 + [n for n in sorted(texts) if n != 'base']

    def compare(obs, i, r, got, want, log):
        same = got == want
        obs.event('runs compared')
        if store.crashed(want):
            obs.event('runs refused: ' + store.crashed(want))
        if not same:
            x, y = difference(got, want)
            obs.check(False, 'cached-run-differs', 'run {} of the history reports other than '
                      'without intermediates'.format(i), got=x, want=y, run=r, history=log)
        else:
            obs.check(True, '-')

    def history(kind):
        def fn(rng, obs):
            memo, log = {}, []
            kernel_names = ['k.c', 'other.c'] if rng.random() < .3 else ['k.c']
            pool = rng.sample(store.SOURCES, 3)
            if rng.random() < .5:  # sources that differ by little
                pool = rng.sample(store.SOURCES[:6] if rng.random() < .6 else
                                  store.SOURCES[6:9], 3)
            kernels = {n: rng.choice(pool) for n in kernel_names}
            machine_names = ['m.yml'] if rng.random() < .6 else ['m.yml', 'sub/m.yml']
            mpool = rng.sample(names, 3)
            if kind == 'in-core':
                mpool = ['base', rng.choice(['ports', 'uarch', 'flags', 'base'])]
            machines = {n: rng.choice(mpool) for n in machine_names}
            with scratch() as d:
                files = lambda: dict(kernels, **{n: texts[t] for n, t in machines.items()})
                store.world_files(d, files(), {})
                runs, seen = [], []
                steps = {'in-core': ck.pick(4, 6), 'files': 8, 'analyses': 9}[kind]
                for i in range(steps):
                    x = rng.random()
                    if i and x < .35:
                        if rng.random() < .6:
                            n = rng.choice(kernel_names)
                            kernels[n] = rng.choice(pool)
                            changed = {n: kernels[n]}
                        else:
                            n = rng.choice(machine_names)
                            machines[n] = rng.choice(mpool)
                            changed = {n: texts[machines[n]]}
                        store.world_files(d, changed, {})
                        if rng.random() < .4:  # e.g. copied from elsewhere, keeping its date
                            t = time.time() - rng.choice([5, 1000, 1e6])
                            os.utime(os.path.join(d, n), (t, t))
                        log.append('edit {} {}'.format(n, machines.get(n, '')))
                        obs.event('edits')
                    k = rng.choice(kernel_names)
                    if runs and rng.random() < .6:
                        r = dict(rng.choice(runs))
                        o = store.random_run(rng, kernels[k], kind == 'in-core', kind == 'files')
                        for opt in rng.sample(sorted(o), rng.choice([0, 1, 1, 2])):
                            r[opt] = o[opt]
                        if r.get('cc') is None:
                            r['flags'] = None
                        have = dict(r['defs'])
                        r['defs'] = [(c, have.get(c, '60'))
                                     for c in store.constants_of(kernels[k])]
                    else:
                        r = store.random_run(rng, kernels[k], kind == 'in-core', kind == 'files')
                    runs.append(dict(r))
                    r['kernel'], r['machine'] = k, rng.choice(machine_names)
                    r['rel'] = rng.random() < .3
                    log.append(r)
                    want = reference(memo, files(), r)
                    got, read, written = spawn(d, r)
                    again = [p for p in read if p not in written]
                    obs.event('intermediates read again', len(again))
                    obs.event('intermediates written', len(written))
                    obs.evals += 1
                    if again and i:
                        obs.distinct(sorted(again) + [sorted(map(str, r.items()))])
                    compare(obs, i, r, got, want, log)
                obs.describe(kind=kind, history=[str(l)[:200] for l in log[:6]])
        return fn

    package = newest_of_package()

    def stale(rng, obs):
        memo = {}
        kind = rng.choice(['in-core', 'files', 'files', 'analyses', 'analyses', 'analyses'])
        src = rng.choice(store.SOURCES)
        files = {'k.c': src, 'm.yml': texts['base']}
        r = store.random_run(rng, src, kind == 'in-core', kind == 'files')
        r.update(kernel='k.c', machine='m.yml', rel=rng.random() < .3)
        newer = rng.choice(['kernel', 'machine', 'package'])
        want = reference(memo, files, r)
        with scratch() as d:
            store.world_files(d, files, {})
            first = spawn(d, r)[0]
            compare(obs, 0, r, first, want, [])
            poisoned = intermediates(d)
            if not poisoned:
                raise Skip('nothing stored')
            gap = rng.choice([.02, .4, 1, 2, 7200])
            now = time.time()
            old = package - 7200 - 1000
            when = {'kernel': now, 'machine': now, 'package': package}[newer]
            for name, f in (('kernel', 'k.c'), ('machine', 'm.yml')):
                t = when if name == newer else old
                os.utime(os.path.join(d, f), (t, t))
            # garbage, or the valid content of another intermediate
            mode = rng.choice(['garbage', 'empty', 'garbage'])
            for p in poisoned:
                with open(p, 'wb') as f:
                    f.write(b'' if mode == 'empty' else b'garbage 0815\n')
                os.utime(p, (when - gap, when - gap))
            got, read, written = spawn(d, r)
            obs.event('stale intermediates', len(poisoned))
            obs.event('rebuilt because of newer ' + newer)
            used = sorted(set(read) - set(written))
            obs.check(got == want, 'stale-intermediate-used',
                      'intermediates older than the {} change the report'.format(newer),
                      got=difference(got, want)[0], want=difference(got, want)[1], run=r, gap=gap)
            left = []
            for p in poisoned:
                with open(p, 'rb') as f:
                    if f.read() in (b'', b'garbage 0815\n') and os.path.relpath(p, d) in used:
                        left.append(os.path.relpath(p, d))
            obs.check(not left, 'stale-intermediate-read',
                      'intermediates older than the {} are used'.format(newer), files=left, run=r)
            obs.distinct((newer, kind, gap, mode, r.get('files'), r.get('models')))
            obs.describe(newer=newer, gap=gap, run=str(r)[:300], poisoned=len(poisoned))

    ck.cases('analyses', ck.pick(40, 1200), history('analyses'), limit=200, share=.45)
    ck.cases('files', ck.pick(20, 400), history('files'), limit=200, share=.5)
    ck.cases('stale', ck.pick(40, 600), stale, limit=200, share=.6)
    ck.cases('in-core', ck.pick(16, 250), history('in-core'), limit=300)
    ck.require('runs compared', ck.pick(200, 2000))
    ck.require('intermediates read again', ck.pick(40, 500))
    ck.require('rebuilt because of newer kernel', 3)
    ck.require('rebuilt because of newer machine', 3)
    ck.require('rebuilt because of newer package', 3)
