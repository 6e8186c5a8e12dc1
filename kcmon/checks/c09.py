"""C09: multicore scaling of the ECM model against its bounds and the utilization recursion."""
import math
import re
from kcmon.core import Skip, quiet
from kcmon.gen import machines
from kcmon.gen.modelling import World, UNITS, close, printed, report
from kcmon.checks import c08

LEVEL = 'exploration'
RULE = ('ECM analyses of generated kernels, machines (1-16 cores in 1-4 NUMA domains per socket), '
        'in-core results and traffic (ratios of memory time to total time from 0 to 1, including '
        'equality). For every core count of the socket: performance never decreases, is at most '
        'the core count times that of one core, at most the memory bound of the NUMA domains in '
        'use, equals the utilization recursion u(c) = min(1, c T_MEM / (T_ECM + u(c-1) (c-1) '
        'T_MEM / 2)) and is the same in all units; one core is the single core prediction; the '
        'saturation point is the first core count with u = 1; without memory traffic scaling is '
        'linear. Printed predictions show these numbers. Non-trivial: more than one core.')
ASSUMPTIONS = ['Beyond the first NUMA domain performance is that of a full domain, scaled with '
               'the number of cores, as documented in the code.',
               'More cores than a socket has may be refused.',
               'At ties within 1e-12 either side of the saturation point is accepted unless all '
               'of the time is memory time.']


def recursion(x, n):
    """Utilization for 1..n cores, x: memory time by total time."""
    u = [0.0]
    for c in range(1, n + 1):
        u.append(min(1.0, c * x / (1 + u[-1] * (c - 1) * x / 2)))
    return u[1:]


def q_scaling(rng, obs, real=None):
    from kerncraft.models import ECM
    w = World(rng, real, real == 'SIM')
    mode = rng.choice(['any', 'any', 'bound', 'equal', 'late', 'none'])
    if real is None:
        t = w.traffic
        if mode == 'none':
            t['loads'][-1] = t['stores'][-1] = 0
        elif mode in ('bound', 'equal'):
            t['loads'][-1], t['stores'][-1] = rng.uniform(5, 40), rng.uniform(0, 10)
        elif mode == 'late':
            t['loads'][-1], t['stores'][-1] = rng.uniform(0, .6), 0
        if mode == 'equal':
            for e in w.h:
                e['transfers overlap'] = True
                for k in list(e):
                    if k.startswith('penalty'):
                        del e[k]
            t['loads'][-1] = 1e4
            w.machine = machines.model(w.data)
    elif rng.random() < .3 and not w.h[0]['transfers overlap']:
        for e in w.h:
            e['transfers overlap'] = True
        w.machine = machines.model(w.data)
    socket, numa = w.data['cores per socket'], w.data['cores per NUMA domain']
    if real is None and rng.random() < .1:
        w.cores = socket + rng.randint(1, 4)
    data = c08.transfers(w, obs)
    try:
        with quiet():
            m = w.build(ECM)
            m.analyze()
    except (IndexError, ValueError):
        if w.cores <= socket:
            raise
        obs.event('refusals')
        return
    if w.cores > socket:
        obs.violate('cores-beyond-socket', '{} of {} cores accepted: {}'.format(
            w.cores, socket, m.results['multi-core']))
        return
    r = m.results
    t_ecm = float(r['total cycles']['cy/CL'])
    t_mem = data[0][-1][1]
    preds = r['scaling prediction']
    w.describe(obs, T_ECM=t_ecm, T_MEM=t_mem, cores=socket, numa=numa)
    if socket > 1:
        obs.distinct((t_ecm, t_mem, socket, numa))
    obs.event('core counts', socket)
    if not obs.check([p['cores'] for p in preds] == list(range(1, socket + 1)), 'core-counts',
                     'predictions for {} on {} cores'.format([p['cores'] for p in preds], socket)):
        return
    itpcl = w.it_cl
    perf = [float(p['performance']['It/s']) for p in preds]
    single = w.clock * itpcl / t_ecm
    bound = w.clock * itpcl / t_mem if t_mem else float('inf')
    eps = 1 + 1e-9
    obs.check(close(perf[0], single), 'one-core', '{} It/s with one core, single core prediction '
              '{} It/s'.format(perf[0], single))
    for c in range(1, socket + 1):
        p = perf[c - 1]
        ctx = '{} cores: {} It/s (all {}, single {}, memory bound {}, {} per domain)'.format(
            c, p, perf, single, bound, numa)
        if c > 1:
            obs.check(p * eps >= perf[c - 2], 'decreasing', ctx)
        obs.check(p <= c * single * eps, 'super-linear', ctx)
        obs.check(p <= bound * max(1, c / numa) * eps, 'above-memory-bound', ctx)
        w.judge_units(obs, preds[c - 1]['performance'], w.convert(p), 'units', ctx)
    sat = float(r['scaling cores'])
    if t_mem == 0:
        obs.event('kernels without memory traffic')
        obs.check(math.isinf(sat), 'saturation-in-cache', 'saturates at {} without traffic'.format(
            sat))
        for c in range(1, socket + 1):
            obs.check(close(perf[c - 1], c * single), 'linear', '{} cores: {}, one core {}'.format(
                c, perf[c - 1], single))
    else:
        x = t_mem / t_ecm
        u = recursion(x, numa)
        for c in range(1, socket + 1):
            want = bound * (u[c - 1] if c <= numa else u[numa - 1] * c / numa)
            obs.check(close(perf[c - 1], want), 'utilization', '{} cores: {} instead of {} It/s '
                      '(T_ECM {}, T_MEM {}, {} per domain)'.format(
                          c, perf[c - 1], want, t_ecm, t_mem, numa))
        full = [c for c in range(1, numa + 1) if u[c - 1] >= 1]
        want = {full[0]} if full else {float('inf')}
        near = [c for c in range(1, numa + 1) if 1 - 1e-12 < u[c - 1] < 1]
        want |= set(near)
        if full and x < 1:
            c = full[0]
            if c * x <= (1 + (u[c - 2] if c > 1 else 0) * (c - 1) * x / 2) * (1 + 1e-12):
                want |= {c + 1 if c < numa else float('inf')}
        obs.check(sat in want, 'saturation-point', 'saturating at {} instead of {} cores '
                  '(utilization {})'.format(sat, sorted(want), u))
        if full:
            obs.event('saturating kernels')
            if full[0] == 1:
                obs.event('saturated by one core')
        if socket > numa:
            obs.event('several NUMA domains')
        for p in preds:
            n = ' '.join(p['notes'])
            obs.check(('out-of-NUMA' in n) == (p['cores'] > numa), 'notes-numa',
                      '{} of {}: {}'.format(p['cores'], numa, n))
            if p['cores'] != sat:
                obs.check(('not saturated' in n) == (p['cores'] < sat), 'notes-saturation',
                          '{} cores, saturating at {}: {}'.format(p['cores'], sat, n))
    mc = r['multi-core']
    obs.check(mc is not None and mc['cores'] == w.cores and close(
        mc['performance']['It/s'], perf[w.cores - 1]), 'requested-cores',
        '{} for {} cores'.format(mc, w.cores))
    if obs.violations:
        return
    with obs.subject('report'):
        text, _ = report(m)
    mm = re.search(r'^saturating at (\S+) cores$', text, re.M)
    obs.check(mm and float(mm.group(1)) == sat, 'report-saturation', repr(text))
    mm = re.search(r'^prediction for (\d+) cores, assuming static scheduling: (.*?) \(', text, re.M)
    if obs.check(mm and int(mm.group(1)) == w.cores, 'report-cores', repr(text)):
        printed(obs, mm.group(2), w.convert(perf[w.cores - 1])[w.unit], w.unit,
                'report-prediction', 'prediction for {} cores'.format(w.cores))
    rows = dict((l.split('||')[0].split()[0], [x.strip() for x in l.split('||')[1].split('|')])
                for l in text.split('\n') if l.startswith(('cores', 'perf.')))
    if obs.check('cores' in rows and 'perf.' in rows, 'report-table', repr(text)):
        obs.check(rows['cores'] == [str(c) for c in range(1, socket + 1)], 'report-table',
                  str(rows))
        for c, v in enumerate(rows['perf.'], 1):
            want = w.convert(perf[c - 1])[w.unit]
            obs.check(math.isnan(want) or abs(float(v) - want) <= .0501 + 1e-9 * want,
                      'report-table', '{} for {} cores instead of {} {}'.format(
                          v, c, want, w.unit))
            obs.event('printed quantities')


def run(ck):
    for e in ('kernels without memory traffic', 'saturating kernels', 'saturated by one core',
              'several NUMA domains', 'printed quantities', 'core counts'):
        ck.require(e, 5)
    ck.cases('stub', ck.pick(1500, 40000), q_scaling, share=.5)
    ck.cases('lc', ck.pick(80, 1500), lambda r, o: q_scaling(r, o, 'LC'), share=.5)
    ck.cases('sim', ck.pick(24, 400), lambda r, o: q_scaling(r, o, 'SIM'))
