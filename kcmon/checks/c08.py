"""C08: ECM predictions recomputed from traffic, in-core result and machine description."""
import re
from kcmon.core import Skip, quiet
from kcmon.gen import modelling
from kcmon.gen.modelling import World, UNITS, close, printed, report

LEVEL = 'exploration'
RULE = ('ECM, ECMData and ECMCPU analyse generated kernels (all datatypes and inner steps) on '
        'generated machines (1-4 cache levels, half and full duplex, penalties, overlapping '
        'transfers, several in-core models) with generated in-core results and cache traffic, '
        'both from predictors made for the purpose and from the real ones. Every contribution, '
        'the composition, the total and every unit of it are recomputed from these inputs and '
        'compared with the results (relative 1e-9) and with the printed reports (shown digits). '
        'Non-trivial: traffic on at least one level or a non-overlapping part.')
ASSUMPTIONS = ['Memory bandwidth is the one get_bandwidth selects for the level\'s loads and '
               'stores and one thread per core (judged by C11).',
               'Traffic of the real predictors is theirs (judged by C05-C07).',
               'The in-core throughput replaces the busiest overlapping port unless the '
               'non-overlapping part takes at least as long, as documented in the code.',
               'FLOP/s of unlimited performance without any FLOPs is not judged.']


def incore(w):
    """(T_comp, T_RegL1, throughput) in cycles per cacheline of work."""
    ratio = w.cl / abs(w.increment)
    ol, nol = w.ports[w.modelname]
    cyc = {p: c * ratio for p, c in w.incore['port cycles'].items()}
    thr = w.incore['throughput'] * ratio
    t_comp = max([cyc.get(p, 0) for p in ol] + [0])
    t_reg = max([cyc.get(p, 0) for p in nol] + [0])
    if t_reg < thr * (1 - 1e-12):
        t_comp = thr
    elif t_reg < thr * (1 + 1e-12):
        t_comp = None   # either
    return t_comp, t_reg, thr


def transfers(w, obs):
    """([(level, cycles)], penalty, (bandwidth, kernel) or None)."""
    loads, stores = w.predicted()
    out, penalty, mem = [], 0.0, None
    for l, e in list(enumerate(w.h))[1:]:
        ld, st = float(loads[l]), float(stores[l])
        bw, duplex = e['upstream throughput']
        vol = max(ld, st) if duplex == 'full-duplex' else ld + st
        if isinstance(bw, str):
            mem = w.machine.get_bandwidth(l, loads[l], stores[l], 1)
            cy = vol * w.cl * w.clock / float(mem[0])
            penalty += ld * e.get('penalty cycles per cacheline load', 0) + \
                st * e.get('penalty cycles per cacheline store', 0)
        else:
            cy = vol * w.cl / float(bw)
        out.append((e['level'], cy))
        if vol:
            obs.event('levels with traffic')
    return out, penalty, mem


def judge_data(w, obs, m, want):
    cycles, penalty, mem = want
    r = m.results
    got = [(l, float(c)) for l, c in r['cycles']]
    if not obs.check([g[0] for g in got] == [c[0] for c in cycles], 'levels',
                     'contributions of {} instead of {}'.format(got, cycles)):
        return False
    for (l, c), (_, x) in zip(cycles, got):
        obs.check(close(x, c), 'contribution', 'transfers of {}: {} instead of {} cy/CL '
                  '(traffic {})'.format(l, x, c, getattr(w, 'traffic', w.real)))
        obs.check(close(float(r[l]), c), 'contribution-entry', '{}: {}'.format(l, r[l]))
    obs.check(close(float(r['penalty']), penalty), 'penalty',
              '{} instead of {}'.format(r['penalty'], penalty))
    if mem is not None:
        obs.check(float(r['memory bandwidth']) == float(mem[0]) and
                  r['memory bandwidth kernel'] == mem[1], 'memory-bandwidth',
                  '{} {} instead of {}'.format(r['memory bandwidth'],
                                               r['memory bandwidth kernel'], mem))
    obs.check(close(float(r['iterations per cacheline']), w.it_cl), 'iterations-per-cacheline',
              '{} instead of {}'.format(r['iterations per cacheline'], w.it_cl))
    obs.check(int(r['flops per iteration']) == w.flops, 'flops', '{} instead of {}'.format(
        r['flops per iteration'], w.flops))
    return not obs.violations


def judge_cpu(w, obs, m, want):
    t_comp, t_reg, thr = want
    r = m.results
    obs.check(w.asked and w.asked[-1] == (w.asm_block, w.pincr, w.model) or
              w.asked and w.asked[-1] == (w.asm_block, w.pincr, w.modelname), 'in-core-request',
              'in-core analysis asked for {} instead of {}'.format(
                  w.asked[-1:], (w.asm_block, w.pincr, w.model)))
    if t_comp is not None:
        obs.check(close(r['T_comp'], t_comp), 'T_comp', '{} instead of {}: {} {} of {} ({})'.format(
            r['T_comp'], t_comp, w.incore, w.increment, w.ports[w.modelname], w.modelname))
    obs.check(close(r['T_RegL1'], t_reg), 'T_RegL1', '{} instead of {}: {} {} of {} ({})'.format(
        r['T_RegL1'], t_reg, w.incore, w.increment, w.ports[w.modelname], w.modelname))
    w.judge_units(obs, r['cl throughput'], w.from_cy_cl(thr), 'throughput-units',
                  'in-core throughput of {} iterations per CL'.format(w.it_cl))
    ratio = w.cl / abs(w.increment)
    if w.incore['uops'] is not None:
        obs.check(close(r['uops'], w.incore['uops'] * ratio), 'uops', '{}'.format(r['uops']))
    for p, c in w.incore['port cycles'].items():
        obs.check(close(r['port cycles'][p], c * ratio), 'port-cycles', '{}: {} instead of {}'
                  .format(p, r['port cycles'][p], c * ratio))
    return not obs.violations


def lines_of(text, start):
    return [l for l in text.split('\n') if l.startswith(start)]


def judge_data_report(w, obs, text, want):
    cycles, penalty, mem = want
    for l, c in cycles:
        ls = lines_of(text, l + ' = ')
        if obs.check(len(ls) == 1, 'data-report', '{} lines for {}: {!r}'.format(
                len(ls), l, text)):
            printed(obs, ls[0].split('= ', 1)[1], w.from_cy_cl(c)[w.unit]
                    if c or w.flops or w.unit != 'FLOP/s' else float('nan'), w.unit,
                    'data-report-' + w.unit, 'report of ' + l)
    ls = lines_of(text, 'penalty cycles:')
    obs.check(len(ls) == (1 if penalty else 0), 'penalty-report',
              'penalty {} in the report {!r}'.format(penalty, text))
    for l in ls:
        printed(obs, l.split(':')[1], penalty, 'cy/CL', 'penalty-report', 'penalty')


def judge_cpu_report(w, obs, text, want):
    t_comp, t_reg, thr = want
    for n, v in (('T_comp', t_comp), ('T_RegL1', t_reg)):
        ls = lines_of(text, n + ' = ')
        if obs.check(len(ls) == 1, 'cpu-report', '{!r} has {} lines for {}'.format(
                text, len(ls), n)) and v is not None:
            m = re.match(r'.* = ([0-9.]+) cy/CL$', ls[0])
            obs.check(m and abs(float(m.group(1)) - v) <= .0501, 'cpu-report-value',
                      '{!r}, expected {}'.format(ls[0], v))
    if w.verbose > 1:
        ls = lines_of(text, 'Throughput: ')
        if obs.check(len(ls) == 1, 'cpu-report', repr(text)):
            printed(obs, ls[0].split(': ')[1], w.from_cy_cl(thr)[w.unit], w.unit,
                    'throughput-report', 'throughput')


def q_parts(rng, obs, real=None):
    from kerncraft.models import ECMData, ECMCPU
    w = World(rng, real, real == 'SIM')
    want = transfers(w, obs)
    with obs.subject('data-model'), quiet():
        d = w.build(ECMData, incore=False)
        d.analyze()
    if w.made:
        obs.check(w.made == [w.cores], 'predictor-cores', 'predictor for {} cores instead of {}'
                  .format(w.made, w.cores))
    w.describe(obs, expected=str(want))
    if sum(c for _, c in want[0]):
        obs.distinct((w.spec.source(), str(want)))
    if judge_data(w, obs, d, want):
        with obs.subject('data-report'):
            text, other = report(d)
        judge_data_report(w, obs, text, want)
        obs.check(not other.strip(), 'report-elsewhere', 'printed to stdout: {!r}'.format(other))
    cpu = incore(w)
    with obs.subject('cpu-model'), quiet():
        c = w.build(ECMCPU, data=False)
        c.analyze()
    if judge_cpu(w, obs, c, cpu):
        with obs.subject('cpu-report'):
            text, other = report(c)
        judge_cpu_report(w, obs, text, cpu)
        obs.check(not other.strip(), 'report-elsewhere', 'printed to stdout: {!r}'.format(other))
    # conversion of arbitrary values
    for m in (d, c):
        for v in (0, rng.uniform(.01, 5), rng.randint(1, 400), rng.uniform(1e3, 1e6)):
            with obs.subject('conversion'), quiet():
                got = m.conv_cy(v)
            w.judge_units(obs, got, w.from_cy_cl(v), 'conversion', '{} cy/CL ({})'.format(
                v, type(m).__name__))


def compose(w, cpu, data, t_comp):
    """(total, overlapping parts, non-overlapping parts) by name."""
    ol, nol = {'T_comp': t_comp}, {}
    (ol if w.h[0]['transfers overlap'] else nol)['T_RegL1'] = cpu[1]
    for l in range(1, len(w.h)):
        name = 'T_' + w.h[l - 1]['level'] + w.h[l]['level']
        (ol if w.h[l]['transfers overlap'] else nol)[name] = data[0][l - 1][1]
    if data[1]:
        nol['T_penalty'] = data[1]
    return max(list(ol.values()) + [sum(nol.values())]), ol, nol


def q_ecm(rng, obs, real=None):
    from kerncraft.models import ECM
    w = World(rng, real, real == 'SIM')
    data, cpu = transfers(w, obs), incore(w)
    with obs.subject('ecm'), quiet():
        m = w.build(ECM)
        m.analyze()
    r = m.results
    t_comp = cpu[0] if cpu[0] is not None else float(r['T_comp'])
    total, ol, nol = compose(w, cpu, data, t_comp)
    w.describe(obs, overlapping=str(ol), nonoverlapping=str(nol), total=total)
    obs.distinct((str(ol), str(nol)))
    obs.event('in-core bound' if total == t_comp else 'transfer bound')
    if w.over:
        obs.event('machines with overlapping transfers')
    if w.made:
        obs.check(w.made == [w.cores], 'predictor-cores', 'predictor for {} cores instead of {}'
                  .format(w.made, w.cores))
    if not (judge_data(w, obs, m, data) and judge_cpu(w, obs, m, cpu)):
        return
    w.judge_units(obs, r['total cycles'], w.from_cy_cl(total), 'total', 'total of max({}, sum({}))'
                  .format(ol, nol))
    got_ol = dict(zip(r['ECM Model Construction'][:-1], r['ECM'][:-1]))
    got_nol = dict(zip(r['ECM Model Construction'][-1], r['ECM'][-1]))
    for got, want, n in ((got_ol, ol, 'overlapping'), (got_nol, nol, 'nonoverlapping')):
        obs.check(set(got) == set(want) and all(close(got[k], want[k]) for k in want),
                  'parts-' + n, '{} instead of {}'.format(got, want))
    if obs.violations:
        return
    with obs.subject('ecm-report'):
        text, other = report(m)
    obs.check(not other.strip(), 'report-elsewhere', 'printed to stdout: {!r}'.format(other))
    lines = text.split('\n')
    at = [i for i, l in enumerate(lines) if l.startswith('T_ECM = ')]
    if not obs.check(len(at) == 1 and len(lines) >= at[0] + 3, 'ecm-report', repr(text)):
        return
    at = at[0]
    mm = [re.match(r'^.*= max\((.*), sum\((.*)\)\) cy/CL$', l) for l in lines[at:at + 2]]
    if obs.check(all(mm), 'ecm-report', repr(text)):
        for g, want in ((1, ol), (2, nol)):
            names, vals = [[x for x in y.group(g).split(', ') if x] for y in mm]
            obs.check(len(names) == len(vals) and set(names) == set(want) and all(
                abs(float(v) - want[n]) <= .0501 + 1e-9 * want[n] for n, v in zip(names, vals)),
                'ecm-report-parts', '{} {} instead of {}'.format(names, vals, want))
    printed(obs, lines[at + 2].split('= ')[1], w.from_cy_cl(total)[w.unit], w.unit,
            'ecm-report-' + w.unit, 'total')
    if w.verbose > 1:
        obs.event('verbose reports')
        judge_data_report(w, obs, '\n'.join(lines[:at]), data)
        judge_cpu_report(w, obs, '\n'.join(lines[:at]), cpu)


def q_refuse(rng, obs):
    """Overlapping transfers behind non-overlapping ones are refused."""
    from kerncraft.models import ECM
    from kcmon.gen import machines
    w = World(rng)
    flags = [e['transfers overlap'] for e in w.h]
    i = rng.randrange(1, len(w.h))
    flags = [True] * len(flags)
    flags[rng.randrange(i)] = False
    for e, f in zip(w.h, flags):
        e['transfers overlap'] = f
    if all(a or not b for a, b in zip(flags, flags[1:])):
        raise Skip('prefix')
    w.machine = machines.model(w.data)
    obs.distinct((str(flags), w.spec.source()))
    w.describe(obs, flags=str(flags))
    m = w.build(ECM)
    obs.refuses(m.analyze, 'mixed-overlap', 'overlap {} gives a prediction'.format(flags))


def run(ck):
    for e in ('conversions', 'printed quantities', 'levels with traffic', 'in-core bound',
              'transfer bound', 'machines with overlapping transfers', 'verbose reports'):
        ck.require(e, 5)
    ck.cases('stub/parts', ck.pick(500, 12000), q_parts, share=.3)
    ck.cases('stub/ecm', ck.pick(700, 20000), q_ecm, share=.4)
    ck.cases('refuse', ck.pick(30, 200), q_refuse)
    ck.cases('lc/ecm', ck.pick(120, 2000), lambda r, o: q_ecm(r, o, 'LC'), share=.4)
    ck.cases('lc/parts', ck.pick(60, 600), lambda r, o: q_parts(r, o, 'LC'), share=.5)
    ck.cases('sim/ecm', ck.pick(40, 500), lambda r, o: q_ecm(r, o, 'SIM'), share=.7)
    ck.cases('sim/parts', ck.pick(20, 200), lambda r, o: q_parts(r, o, 'SIM'))
