"""C10: Roofline predictions recomputed from traffic, bandwidths, in-core result and peak."""
import math
import re
from kcmon.core import Skip, quiet
from kcmon.gen import modelling
from kcmon.gen.modelling import World, UNITS, close, printed, report

LEVEL = 'exploration'
RULE = ('RooflineFLOP and RooflineASM analyse generated kernels (all datatypes and inner steps) on '
        'generated machines with generated in-core results, core counts and traffic, from stub '
        'and real predictors. Every level\'s limit (bandwidth selected for its traffic and cores, '
        'divided by bytes per iteration), the in-core limit or arithmetic peak of the kernel\'s '
        'precision, their minimum, the named bottleneck and all units are recomputed and compared '
        'with results (relative 1e-9) and printed reports (shown digits). CPU-L1 transfers of the '
        'FLOP model are counted from the kernel\'s accesses. Non-trivial: at least two finite '
        'limits.')
ASSUMPTIONS = ['Bandwidths are those get_bandwidth selects (judged by C11); core counts without '
               'measurement may be refused.',
               'CPU-L1 traffic is the distinct elements touched by a cacheline of inner '
               'iterations, read or written ones (elements both read and written count twice), '
               'as documented in the code.',
               'FLOP/s of unlimited performance without any FLOPs is not judged.',
               'At ties any of the limits attaining the minimum may be named.']


def l1_bytes(w):
    """Acceptable numbers of bytes per iteration between CPU and L1."""
    out = []
    wins = {w.cl // w.spec.esize}
    if w.step > 1:
        wins |= {math.floor(w.it_cl) or 1, math.ceil(w.it_cl)}
    for n in wins:
        r, s = set(), set()
        cols = w.spec.trace_columns()
        bases = w.spec.bases(cl=w.cl)
        for i in range(n):
            e = dict(w.spec.env)
            e.update(w.spec.indices(i))
            r |= {bases[a] + w.spec.esize * p(e) for a, p in cols[0]}
            s |= {bases[a] + w.spec.esize * p(e) for a, p in cols[1]}
        out.append((len(r) + len(s)) * w.spec.esize / n)
    return out


def limits(w, obs):
    """[(level, bytes per iteration, It/s, bandwidth, kernel)] of all but CPU-L1 transfers."""
    loads, stores = w.predicted()
    out = []
    for l, e in list(enumerate(w.h))[1:]:
        vol = (float(loads[l]) + float(stores[l])) * w.cl / w.it_cl
        bw, k = w.machine.get_bandwidth(l, loads[l], stores[l], 1, cores=w.cores)
        out.append((e['level'], vol, float(bw) / vol if vol else float('inf'), float(bw), k))
        if vol:
            obs.event('levels with traffic')
        else:
            obs.event('levels without traffic')
    return out


def judge_level(w, obs, b, want):
    level, vol, it_s, bw, k = want
    ctx = '{}: {} instead of {} ({} B/It)'.format(level, {x: str(y) for x, y in b.items()
                                                         if x != 'performance'}, want, vol)
    obs.check(b['level'] == level, 'level', ctx)
    obs.check(close(b['bandwidth'], bw) and b['bw kernel'] == k, 'bandwidth', ctx)
    obs.check(close(b['bytes transfered'], vol * w.it_cl), 'bytes', ctx)
    obs.check(close(b['arithmetic intensity'], 1 / vol if vol else float('inf')), 'intensity', ctx)
    w.judge_units(obs, b['performance'], w.convert(it_s), 'level-performance', ctx)


def judge_min(w, obs, r, lims):
    """The minimum over transfer limits and the bottleneck named."""
    best = min(l[2] for l in lims)
    w.judge_units(obs, r['min performance'], w.convert(best), 'minimum', 'minimum of {}'.format(
        [(l[0], l[2]) for l in lims]))
    i = r['bottleneck level']
    if math.isinf(best) and i is None:
        return best
    if obs.check(i is not None and r['mem bottlenecks'][i] is not None, 'bottleneck',
                 'bottleneck {} of {}'.format(i, [(l[0], l[2]) for l in lims])):
        name = r['mem bottlenecks'][i]['level']
        obs.check(any(l[0] == name and close(l[2], best) for l in lims), 'bottleneck',
                  '{} named, limits {}'.format(name, [(l[0], l[2]) for l in lims]))
    obs.event('bottleneck ' + str(lims[[l[2] for l in lims].index(best)][0]))
    return best


def judge_report(w, obs, text, lims, best, cpu, shown):
    """Report: CPU bound or the bottleneck, with its performance; table if verbose."""
    first = [l for l in text.split('\n') if l.startswith(('CPU bound', 'Cache or mem bound'))]
    if not obs.check(len(first) == 1, 'report', repr(text)):
        return
    if first[0].startswith('CPU bound'):
        obs.check(cpu <= best * (1 + 1e-9), 'report-bound', '{!r}: CPU {} It/s, transfers {}'
                  .format(first[0], cpu, [(l[0], l[2]) for l in lims]))
        obs.event('CPU bound')
        printed(obs, first[0].split('bound. ')[1], w.convert(cpu)[w.unit], w.unit,
                'report-cpu-' + w.unit, 'CPU limit')
        obs.check(' due to CPU' in first[0], 'report', first[0])
    else:
        obs.event('transfer bound')
        obs.check(best <= cpu * (1 + 1e-9), 'report-bound', '{!r}: CPU {} It/s, transfers {}'
                  .format(first[0], cpu, [(l[0], l[2]) for l in lims]))
        m = re.search(r'^(.*) due to (\S+) transfer bottleneck \(with bw from (\S+) benchmark\)$',
                      text, re.M)
        ai = re.search(r'^Arithmetic Intensity: (\S+) It/B$', text, re.M)
        if obs.check(m and ai, 'report', repr(text)):
            l = [x for x in lims if x[0] == m.group(2)]
            if obs.check(l and close(l[0][2], best), 'report-bottleneck', '{!r} of {}'.format(
                    m.group(0), [(x[0], x[2]) for x in lims])):
                obs.check(m.group(3) == l[0][4], 'report-bandwidth', m.group(0))
                inten = 1 / l[0][1] if l[0][1] else float('inf')
                obs.check(inten == float(ai.group(1)) or
                          abs(float(ai.group(1)) - inten) <= .0051 + 1e-9 * inten,
                          'report-intensity', '{} instead of {}'.format(ai.group(0), inten))
            want = w.convert(best)[w.unit]
            printed(obs, m.group(1), want, w.unit, 'report-mem-' + w.unit, 'bottleneck')
    if w.verbose >= 1:
        rows = [[c.strip() for c in l.split('|')] for l in text.split('\n')
                if l.count('|') == 4 and 'intensity' not in l]
        obs.event('verbose reports')
        want = [('CPU', cpu)] + [(l[0], l[2]) for l in shown]
        if obs.check([r[0] for r in rows] == [x[0] for x in want], 'report-table', '{} of {}'
                     .format(rows, want)):
            for r, x in zip(rows, want):
                c = w.convert(x[1])[w.unit]
                if math.isinf(x[1]) and w.unit == 'FLOP/s' and not w.flops or x[0] == 'CPU' \
                        and not w.flops and w.unit == 'FLOP/s':
                    continue
                printed(obs, r[2], c, w.unit, 'report-table-' + w.unit, 'table row ' + str(r))


def setup(rng, obs, real):
    w = World(rng, real, real == 'SIM')
    if rng.random() < .4:
        w.incore['throughput'] *= rng.choice([.01, 10])
    if rng.random() < .3:
        f = rng.choice([.05, 40])
        for p in w.data['FLOPs per cycle'].values():
            p['total'] *= f
        from kcmon.gen import machines
        w.machine = machines.model(w.data)
    if w.spec.total() < w.cl // w.spec.esize:
        raise Skip('shorter than a cacheline')
    return w, limits(w, obs)


def q_flop(rng, obs, real=None):
    from kerncraft.models import RooflineFLOP
    w, lims = setup(rng, obs, real)
    with obs.subject('flop-model'), quiet():
        m = w.build(RooflineFLOP, incore=False)
        m.analyze()
    r = m.results
    if w.made:
        obs.check(w.made == [w.cores], 'predictor-cores', 'predictor for {} cores instead of {}'
                  .format(w.made, w.cores))
    b1 = r['mem bottlenecks'][0]
    bw1, k1 = w.machine.get_bandwidth(0, 1, 0, 1, cores=w.cores)
    opts = l1_bytes(w)
    vol = [v for v in opts if close(b1['arithmetic intensity'], 1 / v if v else float('inf'))]
    if not obs.check(vol, 'l1-traffic', 'intensity of CPU-L1 {}, accesses give {} B/It'.format(
            b1['arithmetic intensity'], opts)):
        return
    l1 = (w.h[0]['level'], vol[0], float(bw1) / vol[0] if vol[0] else float('inf'), float(bw1), k1)
    obs.check(b1['level'] == l1[0] and close(b1['bandwidth'], bw1) and b1['bw kernel'] == k1,
              'l1-bandwidth', '{} instead of {} {}'.format(b1, bw1, k1))
    w.judge_units(obs, b1['performance'], w.convert(l1[2]), 'l1-performance', str(l1))
    obs.check(len(r['mem bottlenecks']) == len(w.h), 'levels', str(r['mem bottlenecks']))
    for b, want in zip(r['mem bottlenecks'][1:], lims):
        judge_level(w, obs, b, want)
    alll = [l1] + lims
    best = judge_min(w, obs, r, alll)
    peak = w.clock * w.cores * w.data['FLOPs per cycle']['DP' if w.dp else 'SP']['total']
    cpu = peak / w.flops if w.flops else float('inf')
    obs.event(('DP' if w.dp else 'SP') + ' kernels')
    w.judge_units(obs, r['max_perf'], dict(w.convert(cpu), **{'FLOP/s': peak}), 'peak',
                  'peak of {} on {} cores, {} FLOP/It'.format(w.spec.dtype, w.cores, w.flops))
    w.describe(obs, limits=str([(l[0], l[2]) for l in alll]), cpu=cpu)
    if sum(math.isfinite(x) for x in [l[2] for l in alll] + [cpu]) > 1:
        obs.distinct((str(alll), cpu))
    if obs.violations:
        return
    with obs.subject('flop-report'):
        text, other = report(m)
    obs.check(not other.strip(), 'report-elsewhere', repr(other))
    judge_report(w, obs, text, alll, best, cpu, alll)


def q_asm(rng, obs, real=None):
    from kerncraft.models import RooflineASM
    w, lims = setup(rng, obs, real)
    with obs.subject('asm-model'), quiet():
        m = w.build(RooflineASM, 'predictor')
        m.analyze()
    r = m.results
    obs.check(w.asked and w.asked[-1] in ((w.asm_block, w.pincr, w.model),
                                          (w.asm_block, w.pincr, w.modelname)),
              'in-core-request', 'in-core analysis asked for {} instead of {}'.format(
                  w.asked[-1:], (w.asm_block, w.pincr, w.model)))
    if w.made:
        obs.check(w.made == [w.cores], 'predictor-cores', 'predictor for {} cores instead of {}'
                  .format(w.made, w.cores))
    for b, want in zip(r['mem bottlenecks'][1:], lims):
        judge_level(w, obs, b, want)
    best = judge_min(w, obs, r, lims)
    cpu = w.clock / w.incore['throughput'] * w.its_block * w.cores
    c = r['cpu bottleneck']
    w.judge_units(obs, c['performance throughput'], w.convert(cpu), 'in-core',
                  'in-core limit: {} per {} iterations on {} cores'.format(
                      w.incore['throughput'], w.its_block, w.cores))
    ratio = w.cl / abs(w.increment)
    obs.check(close(c['cl throughput'], w.incore['throughput'] * ratio), 'cl-throughput',
              '{}'.format(c['cl throughput']))
    for p, x in w.incore['port cycles'].items():
        obs.check(close(c['port cycles'][p], x * ratio), 'port-cycles', '{}: {} instead of {}'
                  .format(p, c['port cycles'][p], x * ratio))
    if w.incore['uops'] is not None:
        obs.check(close(c['uops'], w.incore['uops'] * ratio), 'uops', str(c['uops']))
    w.describe(obs, limits=str([(l[0], l[2]) for l in lims]), cpu=cpu)
    if sum(math.isfinite(x) for x in [l[2] for l in lims] + [cpu]) > 1:
        obs.distinct((str(lims), cpu))
    if obs.violations:
        return
    with obs.subject('asm-report'):
        text, other = report(m)
    obs.check(not other.strip(), 'report-elsewhere', repr(other))
    judge_report(w, obs, text, lims, best, cpu, lims)


def run(ck):
    for e in ('CPU bound', 'transfer bound', 'DP kernels', 'SP kernels', 'levels with traffic',
              'levels without traffic', 'printed quantities', 'verbose reports', 'bottleneck L1',
              'bottleneck L2', 'bottleneck MEM'):
        ck.require(e, 5)
    ck.cases('flop/stub', ck.pick(600, 16000), q_flop, share=.3)
    ck.cases('asm/stub', ck.pick(600, 16000), q_asm, share=.4)
    ck.cases('flop/lc', ck.pick(80, 1200), lambda r, o: q_flop(r, o, 'LC'), share=.4)
    ck.cases('asm/lc', ck.pick(80, 1200), lambda r, o: q_asm(r, o, 'LC'), share=.5)
    ck.cases('flop/sim', ck.pick(24, 300), lambda r, o: q_flop(r, o, 'SIM'), share=.6)
    ck.cases('asm/sim', ck.pick(24, 300), lambda r, o: q_asm(r, o, 'SIM'))
