"""C11: the bandwidth returned for stream mixes, levels and core counts of machine descriptions."""
import math
import os
from fractions import Fraction
from kcmon.core import Skip, quiet
from kcmon.gen import machines
from kcmon.gen.recorder import MACHINE

LEVEL = 'exploration'
RULE = ('get_bandwidth of every shipped and of generated machine descriptions is asked for all '
        'levels, core and thread counts and many stream mixes (integers, fractions, as computed '
        'by the cache predictors, numbers of sympy); the answer has to be the value measured for '
        'the nearest read/write ratio (ties: any of the nearest), that level, core and thread '
        'count, times the write-allocate factor of that microkernel. Calls made by real model '
        'runs are recorded and judged, too. Non-trivial: at least two microkernels compete.')
ASSUMPTIONS = ['Read streams include write-allocates (as the predictors deliver them).',
               'Level L1 needs no write-allocate correction.',
               'A core count that was not measured may be refused.']


def nearest(kernels, r, w):
    """Names of the microkernels with the nearest ratio."""
    if w == 0:
        target = None
    else:
        target = Fraction(r) / Fraction(w)
    dist = {}
    for n, i in kernels.items():
        s = {k: int(i[k + ' streams']['streams']) for k in ('read', 'read+write', 'write')}
        if s['write'] == 0:
            dist[n] = 0 if target is None else None
        else:
            ratio = Fraction(s['read'] + s['write'] - s['read+write'], s['write'])
            dist[n] = None if target is None else abs(ratio - target)
    fin = [d for d in dist.values() if d is not None]
    if not fin:
        return set(dist), dist
    best = min(fin)
    return {n for n, d in dist.items()
            if d is not None and d <= best + Fraction(1, 10 ** 12) * (1 + best)}, dist


def judge(obs, m, level, r, w, threads, cores, got):
    kernels = m['benchmarks']['kernels']
    names, dist = nearest(kernels, r, w)
    bw, name = got
    if not obs.check(name in names, 'not-the-nearest-microkernel',
                     '{} reads {} writes: {} chosen, nearest {} of {}'.format(
                         r, w, name, sorted(names), sorted(kernels))):
        return
    lv = m['memory hierarchy'][level]
    b = m['benchmarks']['measurements'][lv['level']][threads]
    if cores is not None:
        value = float(b['results'][name][list(b['cores']).index(cores)])
    else:
        lim = min(lv['cores per group'], m['cores per NUMA domain'])
        value = max(float(v) for v, c in zip(b['results'][name], b['cores']) if c <= lim)
    i = kernels[name]
    by = {k: float(i[k + ' streams']['bytes']) for k in ('read', 'read+write', 'write')}
    factor = 1.0
    if lv['level'] != 'L1':
        factor = (by['read'] + 2 * by['write'] - by['read+write']) / (by['read'] + by['write'])
    obs.check(abs(float(bw) - value * factor) <= 1e-9 * value * factor, 'not-the-measured-bandwidth',
              '{} {} threads {} cores {}: {} instead of {} * {}'.format(
                  lv['level'], name, threads, cores, bw, value, factor))
    obs.check(getattr(bw, 'unit', None) == 'B/s', 'not-a-bandwidth', repr(bw))
    obs.event('bandwidths compared')
    obs.event('kernel chosen ' + ('read only' if w == 0 else 'mixed'))


def mixes(rng):
    for _ in range(8):
        k = rng.random()
        r, w = rng.randint(0, 12), rng.randint(0, 6)
        if k < .2:
            w = 0
        elif k < .5:
            r, w = r + rng.choice([0, .5, .25]), w * rng.choice([1, .5, .125])
        elif k < .7:
            r, w = rng.uniform(0, 10), rng.uniform(0, 5)
        yield r, w
        if rng.random() < .2:
            import sympy
            yield sympy.Integer(int(r)), sympy.Integer(int(w))


def run(ck):
    def ask(obs, rng, m):
        levels = m['memory hierarchy']
        for lv in range(len(levels)):
            per = m['benchmarks']['measurements'].get(levels[lv]['level'])
            if not per:
                continue
            for threads in per:
                known = list(per[threads]['cores'])
                for r, w in mixes(rng):
                    for cores in (None, rng.choice(known)):
                        if cores is None and not any(
                                c <= min(levels[lv]['cores per group'],
                                         m['cores per NUMA domain']) for c in known):
                            continue
                        idx = lv
                        if lv == len(levels) - 1 and rng.random() < .3:
                            idx = -1
                        with obs.subject('bandwidth-refused'), quiet():
                            if cores is None and rng.random() < .5:
                                got = m.get_bandwidth(idx, r, w, threads)
                            else:
                                got = m.get_bandwidth(idx, r, w, threads, cores)
                        judge(obs, m, lv, Fraction(float(r)), Fraction(float(w)), threads, cores,
                              got)
                        obs.evals += 1

    def shipped(rng, obs):
        files = machines.shipped()
        if obs.index >= len(files):
            raise Skip('no more files')
        m = machines.load(files[obs.index])
        for _ in range(ck.pick(2, 30)):
            ask(obs, rng, m)
        obs.distinct(files[obs.index])
        obs.describe(file=os.path.basename(files[obs.index]))

    def gen(rng, obs):
        data = machines.generated(rng, noncontiguous=rng.random() < .25)
        m = machines.model(data)
        ask(obs, rng, m)
        if len(data['benchmarks']['kernels']) > 1:
            obs.distinct(repr(sorted(data['benchmarks']['kernels'].items(),
                                     key=str)) + str(obs.index))
        obs.describe(kernels=list(data['benchmarks']['kernels']),
                     cores=data['cores per socket'])
        # a level, core or thread count nobody measured
        t = m['benchmarks']['measurements'][m['memory hierarchy'][0]['level']]
        obs.refuses(lambda: m.get_bandwidth(0, 2, 1, 7, 1), 'unmeasured-threads-answered')
        obs.refuses(lambda: m.get_bandwidth(0, 2, 1, 1, 777), 'unmeasured-cores-answered')

    SRC = ['double a[N], b[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i];\n',
           'double a[N], s;\nfor(int i=0; i<N; ++i)\ns = s + a[i];\n',
           'double a[N], b[N], c[N], d[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i] + c[i]*d[i];\n',
           'double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
           'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] + b[j][i+1];\n',
           'float a[N], b[N];\nfor(int i=0; i<N; ++i)\na[i] = a[i] * b[i];\n']

    def models(rng, obs):
        """Real models, the calls they make recorded."""
        from kerncraft import models
        from kerncraft.kernel import KernelCode
        from kcmon.checks.c23 import Args
        data = machines.generated(rng)
        data['cacheline size'] = type(data['clock'])(64, '', 'B')
        for c in data['memory hierarchy'][:-1]:
            c['cache per group']['cl_size'] = 64
            c['cache per group']['replacement_policy'] = 'LRU'
        m = machines.model(data)
        calls = []
        real = m.get_bandwidth

        def wrapped(*a, **kw):
            r = real(*a, **kw)
            calls.append((a, dict(kw), r))
            return r
        m.get_bandwidth = wrapped
        src = rng.choice(SRC)
        k = KernelCode(src, machine=m)
        k.set_constant('N', rng.choice([1000, 2000, 4000]))
        if 'M' in src:
            k.set_constant('M', rng.choice([20, 60]))
        cores = rng.choice(list(data['benchmarks']['measurements']['L1'][1]['cores']))
        name = rng.choice(['ECMData', 'RooflineFLOP'])
        pred = rng.choice(['LC', 'SIM'])
        with obs.subject('model-raises'), quiet():
            mod = getattr(models, name)(k, m, Args(cores=cores, cache_predictor=pred))
            mod.analyze()
        loads, stores = mod.predictor.get_loads(), mod.predictor.get_stores()
        seen = set()
        for a, kw, got in calls:
            p = dict(zip(('cache_level', 'read_streams', 'write_streams', 'threads_per_core',
                          'cores'), a))
            p.update(kw)
            lv = p['cache_level'] % len(m['memory hierarchy'])
            c = p.get('cores')
            obs.check(c == (None if name == 'ECMData' else cores),
                      'bandwidth-for-wrong-cores', '{} with {} cores asks for {}'.format(
                          name, cores, c))
            judge(obs, m, lv, Fraction(float(p['read_streams'])),
                  Fraction(float(p['write_streams'])), p['threads_per_core'], c, got)
            if lv > 0:
                obs.check(float(p['read_streams']) == float(loads[lv]) and
                          float(p['write_streams']) == float(stores[lv]),
                          'bandwidth-for-other-streams', '{}: asks for {}/{}, traffic {}/{}'.format(
                              lv, p['read_streams'], p['write_streams'], loads[lv], stores[lv]))
            seen.add(lv)
            obs.event('calls by models')
        want = {len(m['memory hierarchy']) - 1} if name == 'ECMData' else set(
            range(len(m['memory hierarchy'])))
        obs.check(seen == want, 'bandwidth-of-level-not-asked', '{} asks for {}'.format(name, seen))
        obs.distinct((src, name, pred, obs.index))
        obs.describe(source=src, model=name)

    ck.cases('shipped', len(machines.shipped()), shipped, share=.4)
    ck.cases('generated', ck.pick(150, 4000), gen, share=.5)
    ck.cases('models', ck.pick(60, 800), models)
    ck.require('bandwidths compared', 3000)
    ck.require('calls by models', 60)
