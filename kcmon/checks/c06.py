"""C06: the cache simulation predictor replays exactly the kernel's accesses."""
import copy
from fractions import Fraction
import numpy
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import kernels, machines, util

LEVEL = 'exploration'
RULE = ('Kernels with known semantics are analysed by CacheSimulationPredictor on generated and '
        'shipped cache hierarchies, with a recorder between predictor and simulator. The recorded '
        'accesses have to be the address stream of successive iterations (computed from the '
        'specification of the kernel), warm-up first: a complete sweep or full caches; then, after '
        'resetting the counters, an interval of whole iterations. All reported counts have to be '
        'those of an independently built simulator fed with the same stream, divided by the '
        'cache lines of progress in that interval. Non-trivial: with misses in any cache.')
ASSUMPTIONS = ['pycachesim (third party) simulates its configuration correctly.',
               'Accesses which do not depend on a loop counter are not part of the stream.',
               'Kernels shorter than a few cache lines may be refused.',
               'Random replacement is not predicted exactly; only its stream and conservation '
               'are judged.']


class Recorder:
    """Between predictor and simulator."""

    def __init__(self, sim):
        self.__dict__.update(sim=sim, log=[], snaps=[], invalid_at_reset=None)

    def __getattr__(self, k):
        return getattr(self.sim, k)

    def __setattr__(self, k, v):
        setattr(self.sim, k, v)

    def loadstore(self, addrs, length=1):
        self.log.append(('rows', addrs, length))
        return self.sim.loadstore(addrs, length=length)

    def load(self, addr, length=1):
        self.log.append(('load', addr, length))
        return self.sim.load(addr, length=length)

    def store(self, addr, length=1, non_temporal=False):
        self.log.append(('store', addr, length))
        return self.sim.store(addr, length=length, non_temporal=non_temporal)

    def reset_stats(self):
        self.log.append(('reset', None, None))
        self.__dict__['invalid_at_reset'] = self.sim.count_invalid_entries()
        return self.sim.reset_stats()


class Stream:
    """The kernel's accesses according to its specification, vectorised."""

    def __init__(self, spec, env, cl):
        self.spec, self.env = spec, env
        bases = spec.bases(env, 0, cl)
        self.cols = []
        for cols in spec.trace_columns():
            self.cols.append([(bases[a], p) for a, p in cols])
        self.total = spec.total(env)

    def rows(self, a, b):
        n = numpy.arange(a, b, dtype=numpy.int64)
        idx = {}
        for l in reversed(self.spec.loops):
            ln = l.length(self.env)
            idx[l.var] = l.start.poly(self.env) + (n % ln) * l.step
            n = n // ln
        out = []
        for cols in self.cols:
            m = numpy.zeros((b - a, len(cols)), dtype=numpy.int64)
            for c, (base, p) in enumerate(cols):
                v = numpy.zeros(b - a, dtype=numpy.int64)
                for mono, coef in p.t.items():
                    t = numpy.full(b - a, int(coef), dtype=numpy.int64)
                    for x in mono:
                        t = t * (idx[x] if x in idx else self.env[x])
                    v += t
                m[:, c] = base + self.spec.esize * v
            out.append(numpy.sort(m, axis=1))
        return out


def split(rows):
    """numpy arrays of loads and stores of a chunk."""
    if isinstance(rows, numpy.ndarray) and rows.dtype.names:
        return [numpy.asarray(rows[n]).astype(numpy.int64).reshape(len(rows), -1)
                for n in ('load', 'store')]
    out = []
    rows = list(rows)
    for k in (0, 1):
        out.append(numpy.array([sorted(r[k]) if r[k] is not None else [] for r in rows],
                               dtype=numpy.int64).reshape(len(rows), -1))
    return out


def hierarchy(m, cores):
    """A simulator built from the description, by this check."""
    import cachesim
    d = {}
    for c in m['memory hierarchy']:
        if 'cache per group' not in c:
            continue
        i = dict(c['cache per group'])
        i['cl_size'] = int(float(i['cl_size']))
        if c['cores per group'] > 1:
            i['sets'] = i['sets'] // int(min(cores, c['cores per group'],
                                             m['cores per NUMA domain']))
        d[c['level']] = i
    return cachesim.CacheSimulator.from_dict(d)[0]


COUNTS = (('get_loads', 'LOAD_count'), ('get_hits', 'HIT_count'), ('get_misses', 'MISS_count'),
          ('get_stores', 'STORE_count'), ('get_evicts', 'EVICT_count'))


def judge(obs, m, stream, log, pred, cores, esize, step, invalid, deterministic, text):
    # merge consecutive chunks, follow the iteration numbers
    pos = None
    phases = [[]]
    cl = int(float(m['cacheline size']))
    for kind, data, length in log:
        if kind == 'reset':
            phases.append([])
            continue
        if kind != 'rows':
            obs.violate('access-outside-the-stream', kind, {})
            return
        obs.check(int(length) == esize, 'access-of-other-width',
                  '{} bytes per access, elements have {}'.format(length, esize))
        loads, stores = split(data)
        n = len(loads)
        got = [numpy.sort(loads, axis=1), numpy.sort(stores, axis=1)]
        ok = None
        cand = ([pos] if pos is not None else []) + [0]
        for c in cand:
            if c is not None and c + n <= stream.total:
                want = stream.rows(c, c + n)
                if all(g.shape == w.shape and (g == w).all() for g, w in zip(got, want)):
                    ok = c
                    break
        if ok is None:
            c = pos or 0
            r = min(n, max(0, stream.total - c))
            want = stream.rows(c, c + r)
            bad = [k for k in range(r) if any(g.shape[1] != w.shape[1] or
                                              (g[k] != w[k]).any() for g, w in zip(got, want))]
            k = bad[0] if bad else r - 1
            obs.violate('other-addresses-simulated', '{}: {} iterations from {} of {}; first '
                        'difference at {}: {} / {}'.format(
                            text, n, c, stream.total, k, [g[k].tolist() for g in got],
                            [w[k].tolist() for w in want] if r else None), {})
            return
        phases[-1].append((ok, ok + n, data))
        obs.event('iterations judged', n)
        pos = ok + n
        if pos == stream.total:
            pos = 0
    if not obs.check(len(phases) >= 2, 'no-warm-up', '{}: counters never reset'.format(text)):
        return
    bench = phases[-1]
    warm = [c for ph in phases[:-1] for c in ph]
    if not obs.check(bench, 'nothing-measured', text):
        return
    for (a, b, _), (c, d, _) in zip(bench, bench[1:]):
        if not obs.check(b == c, 'measured-interval-has-gaps', '{}: {} {}'.format(text, b, c)):
            return
    swept = any(b == stream.total for a, b, _ in warm) and warm[0][0] == 0
    obs.check(swept or invalid == 0 or len(warm) >= 100, 'caches-not-warm',
              '{}: {} of {} iterations, {} cache lines unused'.format(
                  text, warm and warm[-1][1], stream.total, invalid))
    if warm:
        obs.check(bench[0][0] == warm[-1][1] % stream.total, 'measured-interval-does-not-follow',
                  '{}: warm-up up to {}, measured from {}'.format(text, warm[-1][1], bench[0][0]))
        obs.check(warm[0][0] == 0, 'warm-up-starts-in-between', '{}: {}'.format(text, warm[0][0]))
    n = bench[-1][1] - bench[0][0]
    units = Fraction(n * esize * step, cl)
    # the same stream again
    sim = hierarchy(m, cores)
    for a, b, data in warm:
        sim.loadstore(data, length=esize)
    sim.reset_stats()
    for a, b, data in bench:
        sim.loadstore(data, length=esize)
    want = list(sim.stats())
    levels = [c['level'] for c in m['memory hierarchy']]
    vals = {}
    for getter, key in COUNTS:
        got = [float(x) for x in getattr(pred, getter)()]
        vals[getter] = got
        exp = [float(w[key] / units) for w in want]
        obs.check(all(x >= 0 for x in got), 'negative-count', '{} {} {}'.format(text, getter, got))
        if deterministic:
            obs.check(len(got) == len(exp) == len(levels) and
                      all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(got, exp)),
                      'not-the-replayed-' + getter,
                      '{} on {} with {} cores, {} iterations = {} lines: {} instead of {}'.format(
                          text, levels, cores, n, float(units), got, exp))
    for lv in range(len(levels)):
        l, h, x = vals['get_loads'][lv], vals['get_hits'][lv], vals['get_misses'][lv]
        obs.check(abs(l - h - x) <= 1e-9 * (1 + l), 'loads-are-not-hits-and-misses',
                  '{} level {}: {} {} {}'.format(text, lv, l, h, x))
        if lv + 1 < len(levels):
            c = m['memory hierarchy'][lv]['cache per group']
            nx = vals['get_loads'][lv + 1]
            ev = vals['get_evicts'][lv]
            # (a store missing in a non-write-allocating cache is evicted directly)
            obs.check(x - 1e-9 * (1 + x) <= nx <= x + ev + 1e-9 * (1 + x + ev),
                      'misses-are-not-loads-of-next-level',
                      '{} level {}: {} misses, {} evicts, {} loads of the next'.format(
                          text, lv, x, ev, nx))
            if c.get('write_back', True) and not c.get('victims_to'):
                obs.check(abs(vals['get_stores'][lv + 1] - ev) <= 1e-9 * (1 + ev),
                          'evicts-are-not-stores-of-next-level', '{} level {}: {} {}'.format(
                              text, lv, ev, vals['get_stores'][lv + 1]))
    infos = pred.get_infos()
    for lv, e in enumerate(infos['memory hierarchy']):
        for k, g in (('total lines load', 'get_loads'), ('total lines hits', 'get_hits'),
                     ('total lines misses', 'get_misses'), ('total lines stores', 'get_stores'),
                     ('total lines evicts', 'get_evicts')):
            obs.check(e['level'] == levels[lv] and abs(float(e[k]) - vals[g][lv]) <= 1e-12 *
                      (1 + vals[g][lv]), 'report-differs', '{} {} {}'.format(k, e[k], vals[g]))
        for k, g in (('total loads', 'LOAD_byte'), ('total misses', 'MISS_byte'),
                     ('total hits', 'HIT_byte'), ('total stores', 'STORE_byte'),
                     ('total evicts', 'EVICT_byte')):
            if deterministic:
                obs.check(abs(float(e[k]) - float(want[lv][g] / units)) <= 1e-9 * (
                    1 + float(e[k])), 'reported-bytes-differ', '{} {} {}'.format(
                        k, e[k], float(want[lv][g] / units)))
    obs.event('predictions judged')
    if swept:
        obs.event('warmed by a complete sweep')
    else:
        obs.event('warmed until full')
    if vals['get_misses'][0] > 0:
        obs.distinct((text, tuple(levels), cores))
    if vals['get_evicts'][0] > 0:
        obs.event('with evicts')


def predict(obs, kernel, m, cores, spec, env, named=False):
    from kerncraft.cacheprediction import CacheSimulationPredictor
    sims = []
    real = m.get_cachesim

    def recorded(*a, **kw):
        r = Recorder(real(*a, **kw))
        sims.append((r, a, kw))
        return r
    m.get_cachesim = recorded
    cl = int(float(m['cacheline size']))
    short = spec.total(env) * spec.esize < 4 * cl
    try:
        with quiet():
            if short:
                try:
                    pred = CacheSimulationPredictor(kernel, m, cores)
                except (ValueError, AssertionError, ZeroDivisionError):
                    obs.event('short kernels refused')
                    raise Skip('short')
            else:
                with obs.subject('prediction-fails'):
                    pred = CacheSimulationPredictor(kernel, m, cores)
    finally:
        m.get_cachesim = real
    return pred, sims


def run(ck):
    def options(rng, depth=None):
        depth = depth or rng.choice([1, 1, 2, 2, 2, 3])
        big = rng.random() < .5
        ml = {1: rng.choice([300, 3000, 20000]), 2: rng.choice([60, 200]),
              3: rng.choice([24, 48])}[depth] if big else {1: 200, 2: 40, 3: 14}[depth]
        return kernels.Options(max_depth=depth, max_len=ml, min_len=3,
                               steps=(1, 1, 1, 1, 2, 3), const_idx=rng.random() < .3)

    def spec_for(rng):
        for _ in range(30):
            s = kernels.generate(rng, options(rng))
            if any(s.trace_columns()) and 4 <= s.total() < 150000:
                return s
        raise Skip('no kernel')

    def case(rng, obs):
        data = machines.generated(rng)
        cl = int(float(data['cacheline size']))
        pol = rng.choice(['LRU', 'LRU', 'FIFO', 'MRU', 'mixed'])
        scale = rng.choice([1, 1, 4, 16])
        for c in data['memory hierarchy'][:-1]:
            i = c['cache per group']
            i['replacement_policy'] = pol if pol != 'mixed' else rng.choice(
                ['LRU', 'FIFO', 'MRU', 'RR'])
            i['sets'] = max(data['cores per socket'], i['sets'] // scale)
            if rng.random() < .1:
                i['write_allocate'] = False
        if len(data['memory hierarchy']) > 2 and rng.random() < .15:
            c = data['memory hierarchy'][-3]['cache per group']
            c['victims_to'] = c['store_to']
            data['memory hierarchy'][-2]['cache per group']['write_allocate'] = False
        det = all(c['cache per group']['replacement_policy'] != 'RR'
                  for c in data['memory hierarchy'][:-1])
        m = machines.model(data)
        s = spec_for(rng)
        cores = rng.choice([1, 1, 2, 3, data['cores per socket']])
        with scratch() as d:
            k = util.code_kernel(s, m, rng)
            pred, sims = predict(obs, k, m, cores, s, s.env)
            if not obs.check(len(sims) == 1, 'no-simulation', str(len(sims))):
                return
            r = sims[0][0]
            judge(obs, m, Stream(s, s.env, cl), r.log, pred, cores, s.esize, s.loops[-1].step,
                  r.invalid_at_reset, det, s.source())
        obs.describe(kernel=s.source(), constants=s.env, levels=len(data['memory hierarchy']) - 1,
                     policies=pol, cores=cores)

    def description(rng, obs):
        """Kernels given as YAML description."""
        from kerncraft.kernel import KernelDescription
        data = machines.generated(rng)
        cl = int(float(data['cacheline size']))
        for c in data['memory hierarchy'][:-1]:
            c['cache per group']['replacement_policy'] = 'LRU'
        m = machines.model(data)
        s = spec_for(rng)
        cores = rng.choice([1, 2])
        k = KernelDescription(util.description(s, rng), machine=m)
        util.bind(k, s.env)
        pred, sims = predict(obs, k, m, cores, s, s.env)
        r = sims[0][0]
        judge(obs, m, Stream(s, s.env, cl), r.log, pred, cores, s.esize, s.loops[-1].step,
              r.invalid_at_reset, True, s.source())
        obs.describe(kernel=s.source(), constants=s.env, cores=cores)

    def thresholds(rng, obs):
        """Iteration counts around multiples of the warm-up steps and of cache lines."""
        from kerncraft.kernel import KernelCode
        data = machines.generated(rng, levels=rng.choice([1, 2]))
        cl = int(float(data['cacheline size']))
        size = 0
        for c in data['memory hierarchy'][:-1]:
            i = c['cache per group']
            i['replacement_policy'] = 'LRU'
            i['sets'] = max(data['cores per socket'], i['sets'] // 4)
            c['cores per group'] = 1
            size += i['sets'] * i['ways'] * cl
        m = machines.model(data)
        s = kernels.generate(rng, kernels.Options(
            max_depth=1, steps=(1,), max_len=5, min_len=5, max_stmts=1, scaled=False, flat=False,
            mixed=False, const_idx=False, numeric_dims=False))
        var = sorted({v for l in s.loops for v in l.end.poly.vars()})
        if not var:
            raise Skip('constant length')
        base = -(-(size // s.esize) // 50)
        env = dict(s.env)
        want = base * rng.choice([1, 2, 3, rng.randint(1, 60)]) + rng.choice([-1, 0, 0, 1])
        if rng.random() < .3:
            want = rng.choice([rng.randint(5, 3000) * (cl // s.esize),
                               100000 + rng.randint(-3, 3)])
        # solve for the constant
        v = var[0]
        now = s.total(env)
        env[v] += want - now
        if s.total(env) != want or want < 4 or not s.in_bounds(env):
            raise Skip('not solvable')
        k = util.code_kernel(s, m, rng, env=env)
        pred, sims = predict(obs, k, m, 1, s, env)
        r = sims[0][0]
        judge(obs, m, Stream(s, env, cl), r.log, pred, 1, s.esize, s.loops[-1].step,
              r.invalid_at_reset, True, '{} {}'.format(s.source(), env))
        obs.event('thresholds')
        obs.describe(kernel=s.source(), constants=env)

    def long(rng, obs):
        """More iterations than needed to fill the caches and measure."""
        data = machines.generated(rng, levels=rng.choice([1, 2, 3]))
        cl = int(float(data['cacheline size']))
        for c in data['memory hierarchy'][:-1]:
            i = c['cache per group']
            i['replacement_policy'] = rng.choice(['LRU', 'LRU', 'FIFO'])
            i['sets'] = max(data['cores per socket'], i['sets'] // rng.choice([1, 4, 16]))
        m = machines.model(data)
        s = kernels.generate(rng, kernels.Options(
            max_depth=rng.choice([1, 2, 3]), max_len=30, min_len=10, steps=(1, 1, 1, 2),
            const_idx=False, max_stmts=2, numeric_dims=False))
        env = dict(s.env)
        for _ in range(40):
            if s.total(env) > 100000:
                break
            for n in env:
                env[n] = env[n] * 3 // 2
        if not env:
            raise Skip('constant length')
        env[rng.choice(sorted(env))] += rng.randint(0, 9)
        if not s.in_bounds(env) or not 90000 < s.total(env) < 700000 or \
                not any(s.trace_columns()):
            raise Skip('out of bounds')
        cores = rng.choice([1, 2])
        k = util.code_kernel(s, m, rng, env=env)
        pred, sims = predict(obs, k, m, cores, s, env)
        r = sims[0][0]
        judge(obs, m, Stream(s, env, cl), r.log, pred, cores, s.esize, s.loops[-1].step,
              r.invalid_at_reset, True, '{} {}'.format(s.source(), env))
        obs.describe(kernel=s.source(), constants=env)

    def shipped(rng, obs):
        """Descriptions as delivered (large caches)."""
        files = machines.shipped()
        f = files[(obs.index * 5 + 3) % len(files)]
        m = machines.load(f)
        for c in m['memory hierarchy'][:-1]:
            if c['cache per group'].get('replacement_policy') == 'RR':
                raise Skip('random replacement')
        s = kernels.generate(rng, kernels.Options(
            max_depth=2, max_len=60, min_len=30, steps=(1,), const_idx=False, scaled=False,
            mixed=False, flat=False, max_stmts=2, numeric_dims=False,
            dtypes=('double', 'float')))
        env = dict(s.env)
        for n in env:
            env[n] *= rng.choice([2, 5, 12])
        if not s.in_bounds(env) or s.total(env) > 400000 or not any(s.trace_columns()):
            raise Skip('out of bounds')
        cores = rng.choice([1, 2, 4])
        k = util.code_kernel(s, m, rng, env=env)
        pred, sims = predict(obs, k, m, cores, s, env)
        r = sims[0][0]
        judge(obs, m, Stream(s, env, int(float(m['cacheline size']))), r.log, pred, cores, s.esize,
              s.loops[-1].step, r.invalid_at_reset, True, '{} {}'.format(s.source(), env))
        obs.event('shipped machines')
        obs.describe(kernel=s.source(), constants=env, machine=f)

    ck.cases('generated', ck.pick(160, 5000), case, share=.5)
    ck.cases('thresholds', ck.pick(80, 1500), thresholds, share=.4)
    ck.cases('descriptions', ck.pick(40, 800), description, share=.4)
    ck.cases('long', ck.pick(40, 600), long, share=.4)
    ck.cases('shipped', ck.pick(10, 150), shipped)
    ck.require('predictions judged', 120)
    ck.require('warmed until full', 3)
    ck.require('with evicts', 60)
    ck.require('thresholds', 20)
