"""C22: machine descriptions survive dump and load, and do not share state."""
import copy
import os
import random
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import machines
from kcmon.gen.fresh import norm

LEVEL = 'exploration'
RULE = ('Shipped and generated descriptions are written and loaded again and compared entry by '
        'entry (values of quantities, order of compilers and in-core models) and by their '
        'predictions (bandwidths, simulated and analytic cache traffic). Histories of loading, '
        'changing loaded objects, rewriting files, dumping and simulating are executed with a '
        'shadow copy per object and per file; after every step all objects are compared with '
        'their shadow. The simulator built for a number of cores is compared cache by cache with '
        'the description. Non-trivial: each description or history.')
ASSUMPTIONS = ['Values of quantities are compared to 12 digits, everything else exactly.',
               'Caches with cores per group > 1 are shared by min(cores, cores per group, cores '
               'per NUMA domain) cores, all others are private.']


def canon(x):
    """Structure to compare descriptions by."""
    from kerncraft.prefixedunit import PrefixedUnit
    if isinstance(x, PrefixedUnit):
        return ('quantity', '{:.12g}'.format(float(x)), str(x.unit))
    if isinstance(x, dict):
        return ('dict', sorted(((str(type(k).__name__ == 'str'), str(k)), canon(v))
                               for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('list', [canon(v) for v in x])
    if isinstance(x, bool) or x is None:
        return ('const', str(x))
    if isinstance(x, (int, float)):
        return ('number', repr(float(x)))
    return ('text', str(x))


def diff(a, b, path=''):
    """First difference of two canonical structures."""
    if a == b:
        return None
    if a[0] == b[0] == 'dict':
        ka, kb = dict(a[1]), dict(b[1])
        for k in ka:
            if k not in kb:
                return '{}/{} missing'.format(path, k[1])
            r = diff(ka[k], kb[k], path + '/' + k[1])
            if r:
                return r
        return '{}: additional entries {}'.format(path, sorted(set(kb) - set(ka)))
    if a[0] == b[0] == 'list' and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, '{}[{}]'.format(path, i))
            if r:
                return r
    return '{}: {!r:.120} != {!r:.120}'.format(path, a, b)


def order(data):
    return {k: list(data[k]) for k in ('compiler', 'in-core model')
            if isinstance(data.get(k), dict)}


def data_of(m):
    """All entries, through the public interface."""
    keys = ['kerncraft version', 'model name', 'model type', 'sockets', 'cores per socket',
            'threads per core', 'NUMA domains per socket', 'cores per NUMA domain', 'clock',
            'isa', 'cacheline size', 'FLOPs per cycle', 'in-core model', 'compiler',
            'overlapping model', 'non-overlapping model', 'memory hierarchy', 'benchmarks',
            'machine state']
    return {k: m[k] for k in keys if k in m}


SRC = ['double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
       'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] + b[j][i+1];\n',
       'float a[N], b[N], c[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i] + a[i]*c[i];\n']


def predictions(m, seed, deep=True):
    rng = random.Random(seed)
    out = []
    n = len(m['memory hierarchy'])
    for lv in range(n):
        for _ in range(3):
            r, w, t = rng.randint(0, 9), rng.randint(0, 4), 1
            try:
                bw, k = m.get_bandwidth(lv, r, w, t, rng.choice([None, 1]))
                out.append((k, '{:.10g}'.format(float(bw))))
            except (KeyError, ValueError, IndexError) as e:
                out.append(type(e).__name__)
    if not deep:
        return out
    from kerncraft.kernel import KernelCode
    from kerncraft.cacheprediction import LayerConditionPredictor, CacheSimulationPredictor
    src = rng.choice(SRC)
    k = KernelCode(src, machine=m)
    k.set_constant('N', rng.choice([1500, 5000]))
    if 'M' in src:
        k.set_constant('M', rng.choice([12, 40]))
    cores = rng.choice([1, 2])
    if any(c['cache per group']['replacement_policy'] == 'RR'
           for c in m['memory hierarchy'] if 'cache per group' in c):
        return out  # random replacement
    for P in (LayerConditionPredictor, CacheSimulationPredictor):
        try:
            with quiet():
                p = P(k, m, cores)
                out.append(norm([p.get_loads(), p.get_hits(), p.get_misses(), p.get_evicts()]))
        except (KeyError, TypeError, AssertionError) as e:
            out.append(type(e).__name__)
    return out


def judge_caches(obs, m, data, cores):
    with obs.subject('no-cache-hierarchy'):
        sim = m.get_cachesim(cores)
    got = {c.name: c for c in sim.levels(with_mem=False)}
    want = {c['level']: c for c in data['memory hierarchy'] if 'cache per group' in c}
    if not obs.check(set(got) == set(want), 'other-caches', '{} of {}'.format(
            sorted(got), sorted(want))):
        return
    for name, c in want.items():
        i, g = c['cache per group'], got[name]
        share = 1
        if c['cores per group'] > 1:
            share = int(min(cores, c['cores per group'], data['cores per NUMA domain']))
        pol = i.get('replacement_policy', 'LRU')
        obs.check((g.sets, g.ways, g.cl_size, g.replacement_policy) ==
                  (i['sets'] // share, i['ways'], int(i['cl_size']), pol),
                  'other-cache-geometry', '{} for {} cores: {} sets {} ways {} B {}; described {}'
                  .format(name, cores, g.sets, g.ways, g.cl_size, g.replacement_policy, dict(i)))
        obs.check(g.size() == i['sets'] // share * i['ways'] * int(i['cl_size']),
                  'other-capacity', '{} for {} cores: {}'.format(name, cores, g.size()))
        obs.check(bool(g.backend.write_back) == bool(i.get('write_back', True)) and
                  bool(g.backend.write_allocate) == bool(i.get('write_allocate', True)),
                  'other-write-policy', name)
        for key, attr in (('load_from', 'load_from'), ('store_to', 'store_to'),
                          ('victims_to', 'victims_to')):
            to = getattr(g, attr)
            obs.check((to.name if to is not None else None) == i.get(key),
                      'caches-linked-otherwise', '{} {}: {} described {}'.format(
                          name, key, to and to.name, i.get(key)))
        obs.event('caches compared')
    obs.check(sim.first_level.name == data['memory hierarchy'][0]['level'], 'other-first-level',
              sim.first_level.name)


def mutate(rng, data):
    """Change one entry of a description in place; None if there is nothing like it."""
    k = rng.randrange(8)
    try:
        if k == 0:
            data['memory hierarchy'][0]['cache per group']['sets'] *= 2
        elif k == 1:
            data['FLOPs per cycle']['DP']['total'] += 2
        elif k == 2:
            data['compiler'].clear()
        elif k == 3:
            data['memory hierarchy'].pop(0)
        elif k == 4:
            lv = rng.choice(sorted(data['benchmarks']['measurements']))
            b = data['benchmarks']['measurements'][lv][1]
            b['cores'].reverse()
        elif k == 5:
            lv = rng.choice(sorted(data['benchmarks']['measurements']))
            res = data['benchmarks']['measurements'][lv][1]['results']
            n = rng.choice(sorted(res))
            res[n][:] = [v * 2 for v in res[n]]
        elif k == 6:
            data['benchmarks']['kernels'].pop(rng.choice(sorted(
                set(data['benchmarks']['kernels']) - {'load'})))
        elif k == 7:
            for q in (data['clock'], data['memory hierarchy'][-1]):
                if isinstance(q, dict):
                    q['added'] = 'entry'
    except (IndexError, KeyError, TypeError):
        return None
    return True


def run(ck):
    from kerncraft.machinemodel import MachineModel
    from kerncraft.prefixedunit import PrefixedUnit as Q

    def dumped(obs, m, path, rng):
        with obs.subject('dump-fails'):
            if rng.random() < .3:
                with open(path, 'w') as f:
                    s = m.dump(f)
            else:
                s = m.dump(path)
        obs.check(open(path).read() == s, 'file-is-not-what-dump-returns', path)

    def roundtrip(obs, rng, m, data, deep):
        before = canon(data)
        seed = rng.getrandbits(40)
        with scratch() as d:
            p = os.path.join(d, 'm.yml')
            dumped(obs, m, p, rng)
            with obs.subject('dumped-description-does-not-load'), quiet():
                m2 = MachineModel(p)
            d2 = diff(before, canon(data_of(m2)))
            obs.check(d2 is None, 'dumped-and-loaded-differs', d2)
            obs.check(order(data) == order(data_of(m2)), 'order-of-entries-differs',
                      '{} {}'.format(order(data), order(data_of(m2))))
            obs.check(diff(before, canon(data_of(m))) is None, 'dump-changes-the-description',
                      str(diff(before, canon(data_of(m)))))
            for c, f in (('compiler', lambda x: x.get_compiler()),
                         ('model', lambda x: x.get_incore_model())):
                r = []
                for x in (m, m2):
                    try:
                        with quiet():
                            r.append(f(x))
                    except BaseException as e:  # noqa (no compiler of the file is installed)
                        r.append(type(e).__name__)
                obs.check(r[0] == r[1], 'other-' + c, '{} {}'.format(*r))
            with obs.subject('prediction-fails'):
                r = [predictions(x, seed, deep) for x in (m, m2)]
            obs.check(r[0] == r[1], 'predictions-after-dump-and-load', '{} {}'.format(*r))
            # and once more (fixed point)
            p3 = os.path.join(d, 'm3.yml')
            dumped(obs, m2, p3, rng)
            obs.check(open(p3).read() == open(p).read() or
                      diff(before, canon(data_of(MachineModel(p3)))) is None,
                      'second-dump-differs', '')
            if rng.random() < .5:  # onto the file it came from
                # (with a change, and from another working directory)
                at = p
                if rng.random() < .5:
                    m2.set_path(p3)
                    at = p3
                mutate(rng, data_of(m2))
                data_of(m2)['sockets'] = 123
                wanted = canon(data_of(m2))
                wd = os.path.join(d, 'w')
                os.mkdir(wd)
                rel = os.getcwd()
                os.chdir(wd)
                try:
                    with obs.subject('dump-fails'):
                        m2.dump()
                finally:
                    os.chdir(rel)
                obs.check(os.listdir(wd) == [], 'dump-writes-elsewhere', str(os.listdir(wd)))
                with quiet():
                    m4 = MachineModel(at)
                obs.check(diff(wanted, canon(data_of(m4))) is None, 'dumped-over-itself-differs',
                          str(diff(wanted, canon(data_of(m4)))))
                obs.event('descriptions written to their own file')
        obs.event('round trips')

    def shipped(rng, obs):
        f = machines.shipped()[obs.index]
        m = machines.load(f)
        data = copy.deepcopy(data_of(m))
        obs.check(len(data) >= 17, 'entries-missing', str(sorted(data)))
        for cores in sorted({1, 2, 3, 5, 8, 14, 40} | {rng.randint(1, 30)}):
            judge_caches(obs, m, data, cores)
        obs.check(diff(canon(data), canon(data_of(m))) is None, 'simulator-changes-description',
                  str(diff(canon(data), canon(data_of(m)))))
        roundtrip(obs, rng, m, data, ck.tier == 'thorough')
        obs.distinct(f)
        obs.describe(file=os.path.basename(f))

    def generated(rng, obs):
        data = machines.generated(rng, noncontiguous=rng.random() < .2)
        for c in data['memory hierarchy'][:-1]:
            if rng.random() < .2:
                c['cores per group'] = float(c['cores per group'])
            if rng.random() < .15:
                c['cache per group'].update(rng.choice([
                    {'write_back': False, 'write_allocate': False}, {'write_allocate': False}]))
        if len(data['memory hierarchy']) > 2 and rng.random() < .2:
            c = data['memory hierarchy'][-3]['cache per group']
            c['victims_to'] = c['store_to']
            data['memory hierarchy'][-2]['cache per group']['write_allocate'] = False
        for k in ('clock', 'cacheline size'):
            if rng.random() < .4:
                data[k] = Q(rng.uniform(1, 4) if k == 'clock' else float(data[k]), 'G' if k == 'clock' else '',
                            'Hz' if k == 'clock' else 'B')
        data['compiler'] = {k: data['compiler']['gcc'] + rng.choice(
            ['', ' -x: y', ' # z', " 'q'", ' "é"', '  two  spaces ', ' [a, b]', ' -D' + 'A' * 200])
            for k in rng.sample(['gcc', 'clang', 'icc', 'b', 'a'], 3)}
        data['in-core model'] = {k: 'SNB' for k in rng.sample(['OSACA', 'IACA', 'LLVM-MCA'], 2)}
        if rng.random() < .3:
            data['machine state'] = '\n'.join(['text: "x"', '  - y', '', 'tab\there', '~ #'])
        shadow = copy.deepcopy(data)
        m = machines.model(data)
        before = canon(shadow)
        for cores in sorted({1, 2, rng.randint(1, 20), data['cores per socket']}):
            judge_caches(obs, m, shadow, cores)
        roundtrip(obs, rng, m, shadow, rng.random() < .25)
        mutate(rng, m._data if hasattr(m, '_data') else data_of(m))
        obs.check(diff(before, canon(data)) is None, 'given-dictionary-changed',
                  str(diff(before, canon(data))))
        obs.distinct(repr(before)[:4000] + str(obs.index))
        obs.describe(levels=len(data['memory hierarchy']))

    def history(rng, obs):
        """Objects and files with shadows."""
        files = {}
        objs = []
        trail = []
        rel = os.getcwd()

        def verify(what):
            for n, (m, shadow) in enumerate(objs):
                r = diff(canon(shadow), canon(data_of(m)))
                if not obs.check(r is None, 'description-altered-by-another',
                                 'after {}: object {}: {}'.format(trail, n, r)):
                    return False
            return True
        with scratch() as d:
            for n in range(3):
                p = os.path.join(d, 'm{}.yml'.format(n))
                g = machines.generated(rng)
                machines.model(g).dump(p)
                files[p] = g
            try:
                for step in range(rng.randint(5, 12)):
                    k = rng.random()
                    if k < .35 or not objs:
                        p = rng.choice(sorted(files))
                        q = p
                        if rng.random() < .3:
                            os.chdir(d)
                            q = os.path.basename(p)
                        with obs.subject('load-fails'), quiet():
                            m = MachineModel(q)
                        os.chdir(rel)
                        trail.append('load ' + os.path.basename(p))
                        r = diff(canon(files[p]), canon(data_of(m)))
                        obs.check(r is None, 'load-differs-from-file', '{}: {}'.format(trail, r))
                        objs.append((m, copy.deepcopy(files[p])))
                    elif k < .55:
                        n = rng.randrange(len(objs))
                        s = rng.getrandbits(32)
                        if mutate(random.Random(s), objs[n][1]):
                            mutate(random.Random(s), data_of(objs[n][0]))
                            trail.append('change {}'.format(n))
                            obs.event('changes')
                    elif k < .7:
                        p = rng.choice(sorted(files))
                        if rng.random() < .5:  # one digit, same length
                            text = open(p).read()
                            old = 'sockets: {}\n'.format(files[p]['sockets'])
                            new = 'sockets: {}\n'.format(rng.randint(1, 9))
                            if text.count('\n' + old) == 1:
                                with open(p, 'w') as f:
                                    f.write(text.replace('\n' + old, '\n' + new))
                                files[p] = dict(files[p], sockets=int(new[9:]))
                                if rng.random() < .5:
                                    os.utime(p, (1, 1))
                                trail.append('edit ' + os.path.basename(p))
                        else:
                            g = machines.generated(rng)
                            machines.model(g).dump(p)
                            files[p] = g
                            trail.append('replace ' + os.path.basename(p))
                        obs.event('file changes')
                    elif k < .8:
                        n = rng.randrange(len(objs))
                        p = os.path.join(d, 'd{}.yml'.format(step))
                        shadow = objs[n][1]
                        with obs.subject('dump-fails'):
                            objs[n][0].dump(p)
                        files[p] = copy.deepcopy(shadow)
                        trail.append('dump {}'.format(n))
                    else:
                        n = rng.randrange(len(objs))
                        m, shadow = objs[n]
                        if len(shadow['memory hierarchy']) > 1 and all(
                                c['level'] == 'L{}'.format(i + 1)
                                for i, c in enumerate(shadow['memory hierarchy'][:-1])):
                            cores = rng.choice([1, 2, 3, 4])
                            judge_caches(obs, m, shadow, cores)
                            sim = m.get_cachesim(cores)
                            sim.load(range(0, 4096, 64))
                            sim.store(range(0, 2048, 8), length=8)
                            if rng.random() < .3:
                                predictions(m, rng.getrandbits(30))
                            trail.append('simulate {}'.format(n))
                            obs.event('simulations')
                    if not verify(trail):
                        break
                    obs.event('steps')
                    obs.evals += 1
            finally:
                os.chdir(rel)
        obs.distinct(tuple(trail))
        obs.describe(history=' ; '.join(trail))

    ck.cases('shipped', len(machines.shipped()), shipped, share=.3)
    ck.cases('generated', ck.pick(120, 3000), generated, share=.5)
    ck.cases('histories', ck.pick(80, 1500), history)
    ck.require('round trips', 80)
    ck.require('caches compared', 500)
    ck.require('steps', 300)
