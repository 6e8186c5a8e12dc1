"""C25: benchmark results against what the (simulated) measurement tool logged."""
import io
import json
import math
import os
import re
import sys
from unittest import mock
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import kernels, likwid, machines, modelling, util

LEVEL = 'exploration'
RULE = ('A stand-in for likwid-perfctr, executed by the code under test, counts and measures by '
        'rules of its own and logs every invocation. Kernels, machine descriptions with random '
        'performance counter metrics, run times, clocks, failures, output layouts and options are '
        'random. Everything the benchmark model reports is recomputed from the log. Non-trivial: '
        'phenomenological models built, and every way of refusing seen.')
ASSUMPTIONS = ['LIKWID is simulated (none is installed): its layout of results is that of the '
               'CSV output of version 5.',
               'Values of a multi-core benchmark are those of the first hardware thread.',
               'The bandwidth chosen for T_MEM is that of MachineModel.get_bandwidth (C08).']
BUDGET = {'quick': 240, 'thorough': 800}
PRELOAD = True

LEVELS = ['L1', 'L2', 'L3', 'MEM']
NEEDED = [('L1', 'loads'), ('L1', 'stores'), ('L2', 'loads'), ('L2', 'stores'), ('L3', 'loads'),
          ('L3', 'stores'), ('L3', 'misses'), ('L3', 'evicts'), ('MEM', 'loads'), ('MEM', 'stores')]
METRICS = ['Runtime unhalted [s]', 'Clock [MHz]', 'CPI', 'Memory bandwidth [MBytes/s]',
           'Memory data volume [GBytes]', 'Memory BW [MBytes/s]', 'Memory read bandwidth [MBytes/s]',
           'L2 data volume [GBytes]', 'Energy [J]']


# --- metrics ---------------------------------------------------------------------------------

def event(rng, pool):
    """Text of an event, and what it may be measured as."""
    if pool and rng.random() < .35:
        return rng.choice(pool)
    name = rng.choice(['L1D_REPLACEMENT', 'MEM_UOPS_RETIRED_LOADS', 'CAS_COUNT_RD', 'CAS_COUNT_WR',
                       'LLC_LOOKUP_ANY', 'UOPS_PORT_0', 'EV2', 'L2_TRANS_L1D_WB', 'A',
                       'UOPS_DISPATCHED_PORT_PORT_7'])
    regs = rng.choice([
        ('PMC[0-3]', ['PMC0', 'PMC1', 'PMC2', 'PMC3']), ('PMC[0-3]', ['PMC0', 'PMC1', 'PMC2', 'PMC3']),
        ('PMC0', ['PMC0']), ('PMC[13]', ['PMC1', 'PMC3']), ('CBOX0C[0-1]', ['CBOX0C0', 'CBOX0C1']),
        ('CBOX1C[0-1]', ['CBOX1C0', 'CBOX1C1']), ('MBOX0C[01]', ['MBOX0C0', 'MBOX0C1']),
        ('FIXC0', ['FIXC0']), ('PMC0|UPMC[0-1]', ['PMC0', 'UPMC0', 'UPMC1']),
        ('MBOX[01]C1', ['MBOX0C1', 'MBOX1C1'])])
    opts = rng.choice([''] * 6 + [':EDGEDETECT', ':THRESHOLD=0x8', ':STATE=0xF0:OPCODE=0x202',
                                  ':MATCH0=0x1f', ':EDGEDETECT:THRESHOLD=0x10', ':KERNEL',
                                  ':OCCUPANCY_FILTER=0x40', ':INVERT:ANYTHREAD'])
    e = (name + ':' + regs[0] + opts, [(name, r + opts) for r in regs[1]])
    pool.append(e)
    return e


class Metric:
    def __init__(self, rng, pool, negative=False, zero=True):
        kind = rng.choice(['event', 'event', 'sum', 'sum', 'scaled', 'max', 'const'] +
                          ['difference'] * negative)
        self.events = []

        def ev():
            self.events.append(event(rng, pool))
            return self.events[-1][0], len(self.events) - 1
        if kind == 'const' and not zero:
            kind = 'event'
        if kind == 'const':
            v = rng.choice([0, 0, 3, 2.5])
            self.text, self.fn = rng.choice([v, str(v)]), lambda c: v
        elif kind == 'event':
            t, i = ev()
            self.text, self.fn = t, lambda c: c[i]
        elif kind == 'sum':
            parts = [ev() for _ in range(rng.randint(2, 5))]
            sep = rng.choice([' + ', '+', ' +\n   '])
            self.text = '(' + sep.join(p[0] for p in parts) + ')'
            self.fn = lambda c: sum(c[p[1]] for p in parts)
            if rng.random() < .4:
                f = rng.choice([2, 64, .5])
                t, g = self.text, self.fn
                self.text, self.fn = t + ' * {}'.format(f), lambda c: g(c) * f
        elif kind == 'scaled':
            t, i = ev()
            f = rng.choice([2, 64, .25])
            self.text, self.fn = rng.choice([
                ('{}*{}'.format(t, f), lambda c: c[i] * f), ('{} / {}'.format(t, f), lambda c: c[i] / f),
                ('{} * {} + {}'.format(f, t, t), lambda c: (f + 1) * c[i])])
        elif kind == 'max':
            parts = [ev() for _ in range(rng.randint(2, 6))]
            self.text = 'Max(' + ', '.join(p[0] for p in parts) + ')'
            self.fn = lambda c: max(c[p[1]] for p in parts)
        else:
            a, b = ev(), ev()
            self.text = a[0] + rng.choice([' - ', '-']) + b[0]
            self.fn = lambda c: c[a[1]] - c[b[1]]

    def values(self, measured):
        """All values the metric may have: measured {(event, register): count of last run}."""
        import itertools
        texts = sorted({e[0] for e in self.events})
        options = []
        for t in texts:
            cand = [e[1] for e in self.events if e[0] == t][0]
            options.append(sorted({c for m in cand for c in measured.get(m, [])}))
        n = 1
        for o in options:
            n *= len(o)
        if n == 0:
            return None
        if n > 3000:
            return ()
        out = set()
        for combo in itertools.product(*options):
            val = dict(zip(texts, combo))
            out.add(float(self.fn([val[e[0]] for e in self.events])))
        return out


class World:
    def __init__(self, rng, d, real=False):
        self.computer(rng, d, real)
        self.code(rng, real)
        self.options(rng)

    def computer(self, rng, d, real=False):
        self.d = d
        self.system = likwid.System(rng, small=True)
        self.system.cores = rng.choice([1, 2, 4, 6])
        self.system.sockets, self.system.numa, self.system.domains = 1, 1, 1
        for c in self.system.caches:
            c['share'] = 1
        self.levels = rng.choice([3, 3, 3, 3, 3, 3, 1, 2]) if not real else 3
        data = machines.generated(rng, levels=self.levels)
        data.update(self.system.readouts())
        self.differs = rng.random() < .15
        if self.differs:
            k = rng.choice(sorted(self.system.readouts()))
            data[k] = data[k] + 1 if isinstance(data[k], int) else '{}x'.format(data[k])
            self.differs = k
        self.data = data
        h = data['memory hierarchy']
        pool = []
        self.metrics = {}
        for i, e in enumerate(h):
            if rng.random() < .9:
                e['performance counter metrics'] = {}
            else:
                e.pop('performance counter metrics', None)
            lv = e['level']
            for n in ('loads', 'stores', 'misses', 'evicts'):
                if (lv, n) not in NEEDED and rng.random() < .3:
                    continue
                self.metrics[lv, n] = Metric(rng, pool)
                e.setdefault('performance counter metrics', {})[n] = self.metrics[lv, n].text
        self.tol = Metric(rng, pool, negative=True)
        self.tnol = Metric(rng, pool)
        data['overlapping model']['performance counter metric'] = self.tol.text
        data['non-overlapping model']['performance counter metric'] = self.tnol.text
        self.incomplete = self.levels != 3
        if rng.random() < .25:
            self.spoil(rng, h)
        self.clock = float(data['clock'])
        if real:
            data['compiler'] = {'gcc': '-O0 -w'}
        self.cl = int(float(data['cacheline size']))
        self.machine = machines.model(data)

    def code(self, rng, real):
        self.spec = kernels.generate(rng, kernels.Options(
            inner_steps=(1, 1, 1, 2, 3, 4), max_len=60, max_depth=3,
            **({'dtypes': ('double', 'float')} if real else {})))
        self.source = self.spec.source(rng)
        names = list(self.spec.env)
        rng.shuffle(names)
        self.env = {n: self.spec.env[n] for n in names}
        path = os.path.join(self.d, 'k.c')
        likwid.put(path, self.source)
        os.utime(path, (1, 1))
        self.kernel = util.code_kernel(self.spec, self.machine, env=self.env, source=self.source,
                                       filename=path)
        self.its = 1
        for lp in self.spec.loops:
            self.its *= lp.length(self.spec.env)
        self.it_cl = self.cl / (self.spec.esize * self.spec.loops[-1].step)
        self.flops = sum(self.spec.flops().values())

    def options(self, rng):
        self.cores = rng.choice([1, 1, 1, 1, 2, 4, 8])
        self.phenoecm = rng.random() < .85
        self.ignore = rng.random() < (.9 if self.differs else .5)
        self.verbose = rng.choice([0, 0, 0, 1, 2, 3])
        self.iterations = rng.choice([10, 10, 1, 3, 7, 25, 1000])

    def spoil(self, rng, h):
        """Leave out a part of what the phenomenological model requires."""
        what = rng.choice(['needed', 'needed', 'none', 'other', 'T_OL', 'T_nOL', 'typo', 'syntax'])
        missing = 'INFORMATION_REQUIRED (e.g. PMC0)'
        if what in ('needed', 'none', 'typo'):
            # '~' in machine files is None; shipped machine files have the misspelled one
            lv, n = rng.choice([k for k in NEEDED if k[0] in [e['level'] for e in h]])
            e = [x for x in h if x['level'] == lv][0]
            e['performance counter metrics'][n] = {
                'none': None, 'typo': 'INFORAMTION_REQUIRED ' + missing}.get(what, missing)
            if what == 'needed' and rng.random() < .3:
                del e['performance counter metrics'][n]
            self.metrics.pop((lv, n))
            self.incomplete = True
        elif what == 'other':
            others = [k for k in self.metrics if k not in NEEDED]
            if others:
                lv, n = rng.choice(others)
                e = [x for x in h if x['level'] == lv][0]
                e['performance counter metrics'][n] = rng.choice([None, missing])
                self.metrics.pop((lv, n))
        elif what == 'syntax':
            e = rng.choice([x for x in h if x.get('performance counter metrics')])
            n = rng.choice(list(e['performance counter metrics']))
            e['performance counter metrics'][n] = 'EV_A:PMC0 EV_B:PMC1'
            self.metrics.pop((e['level'], n))
            self.incomplete = True
        else:
            self.data[{'T_OL': 'overlapping model', 'T_nOL': 'non-overlapping model'}[what]][
                'performance counter metric'] = rng.choice(
                    [missing, 'INFORAMTION_REQUIRED Example:max(A__PMC2, B)'])
            self.incomplete = True

    script = 'fakeperfctr.py'

    def tool(self, rng, **kw):
        groups = ['L2', 'L3', 'FLOPS_DP', 'CLOCK', 'BRANCH']
        rng.shuffle(groups)
        groups = groups[:rng.randint(1, 5)]
        if rng.random() < .75:
            groups.insert(rng.randint(0, len(groups)), 'MEM')
        if rng.random() < .4:
            groups.insert(rng.randint(0, len(groups)), rng.choice(['MEM_DP', 'MEMREAD']))
        self.groups = groups
        good = '{:.2f} GHz'.format(self.clock / 1e9)

        def other():
            f = rng.choice([1.005, .995, 1.02, .98, 1.3, .5, 1.009, .991])
            return '{:.{}f} GHz'.format(self.clock / 1e9 * f, rng.choice([2, 3]))
        clock = [good]
        if rng.random() < .35:
            clock = [other() if rng.random() < .3 else good for _ in range(rng.randint(1, 6))]
        cfg = {'groups': groups, 'fail': [], 'seed': rng.randint(0, 10 ** 6),
               'time': rng.choice([.2, .05, 1e-3, 1e-6, 1.1, 1.4, 1.6, 3.0, 40., .7, 2.0,
                                   rng.uniform(1e-5, .5)]),
               'noise': rng.choice([0, 0, .02, .3, .9]),
               'instant': rng.choice([0, 0, 0, 0, 1, 2, 3]), 'clock': clock, 'style': rng.random() < .5,
               'scale': rng.choice([1, 1e3, 1e6]), 'missing': rng.choice([0, 0, 0, .3]),
               'metrics': {g: rng.sample(METRICS, rng.randint(0, len(METRICS))) for g in groups}}
        cfg.update(kw)
        self.cfg = cfg
        likwid.put(os.path.join(self.d, 'perfctr.json'), json.dumps(cfg))
        tools = os.path.join(self.d, 'tools')
        likwid.put(os.path.join(tools, 'likwid-perfctr'), '#!/bin/sh\nexec "{}" -ISE "{}" "$@"\n'.format(
            sys.executable, os.path.join(likwid.HERE, 'native', self.script)))
        os.chmod(os.path.join(tools, 'likwid-perfctr'), 0o755)

    def log(self):
        f = os.path.join(self.d, 'perflog')
        if not os.path.exists(f):
            return []
        with open(f) as fp:
            return [json.loads(l) for l in fp]

    def model(self, rng):
        from kerncraft.models import Benchmark
        kw = dict(no_phenoecm=not self.phenoecm, verbose=self.verbose, cores=self.cores,
                  iterations=self.iterations, ignore_warnings=self.ignore)
        if rng.random() < .7:
            return Benchmark(self.kernel, self.machine, modelling.Args(**kw), None)
        for k, v in (('cores', 1), ('iterations', 10), ('ignore_warnings', False), ('verbose', 0),
                     ('no_phenoecm', False)):
            if kw[k] == v and rng.random() < .5:
                del kw[k]
        return Benchmark(self.kernel, self.machine, **kw)

    def off(self, e):
        """Whether the clock is more than 1 % off."""
        if e['clock'] is None:
            return False
        c = float(e['clock'].split()[0]) * 1e9
        x = abs(c - self.clock) - self.clock * .01
        if abs(x) < 1e-6 * self.clock:
            raise Skip('clock on the limit')
        return x > 0


def stub_binary(w, asked, d):
    path = os.path.join(d, 'binary-{}'.format(len(asked)))
    likwid.put(path, '#!/bin/sh\nexit 0\n')
    os.chmod(path, 0o755)
    lock = open(path + '.lock', 'w')

    def build_executable(lflags=None, verbose=False, openmp=False):
        asked.append((openmp, lock))
        return path, lock
    w.kernel.build_executable = build_executable
    return path


def judge_runs(w, obs, log, binary):
    """Every invocation of the tool."""
    pins = 'S0:0' if w.cores == 1 else 'S0:0-{}'.format(w.cores - 1)
    consts = [str(v) for v in w.env.values()]
    for e in log:
        obs.check(e['cpus'] == pins, 'pinning', '{} instead of {}'.format(e['cpus'], pins))
        obs.check(e['marker'] and e['csv'], 'tool-options', 'markers {} csv {}'.format(
            e['marker'], e['csv']))
        obs.check(e['omp'] is None, 'omp-num-threads', 'OMP_NUM_THREADS is {}'.format(e['omp']))
        obs.check(e['there'] and (binary is None or e['cmd'][0] == binary), 'binary',
                  '{} was run'.format(e['cmd'][0]))
        # (in an order the binary knows, see 'built')
        obs.check(sorted(e['cmd'][2:]) == sorted(consts), 'arguments', '{} instead of {}'.format(
            e['cmd'][2:], consts))
        obs.check(e['reps'] >= 1 and e['reps'] == int(e['reps']), 'repetitions', str(e['cmd'][1]))
        obs.event('invocations judged')


def split_runs(w, obs, log):
    """(base runs, counter runs); the last base run is the first long enough."""
    want = 'MEM' if 'MEM' in w.groups else w.groups[0]
    base = []
    for e in log:
        if ':' in e['group']:
            break
        base.append(e)
        obs.check(e['group'] == want, 'group', 'measured {} of {}'.format(e['group'], w.groups))
    rest = log[len(base):]
    obs.check(all(':' in e['group'] for e in rest), 'order-of-runs', str([e['group'] for e in log]))
    obs.check(base and base[0]['reps'] == w.iterations, 'first-repetitions',
              '{} instead of {}'.format(base and base[0]['reps'], w.iterations))
    return base, rest


def numbers(text):
    return [float(x) for x in re.findall(r'-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)', text)]


def line_value(obs, text, prefix, want, digits, unit):
    m = re.findall('^' + re.escape(prefix) + r': (\S+) ' + re.escape(unit) + '$', text, re.M)
    if not obs.check(len(m) == 1, 'report-line', '{!r} {} times in {!r}'.format(
            prefix, len(m), text)):
        return
    got = float(m[0])
    want = float(want)
    tol = .5 * 10 ** -digits * (1 + 1e-6) + 1e-9 * abs(want) if digits is not None else \
        .06 * abs(want)
    obs.check(math.isnan(got) and math.isnan(want) or got == want or abs(got - want) <= tol,
              'report-value', '{} is printed as {}, should be {}'.format(prefix, m[0], want))
    obs.event('printed values compared')


def judge_numbers(w, obs, r, text, tpr, its, it_cl, flops, met, reps):
    """What does not depend on single events, results and printed."""
    nan = float('nan')

    def same(key, want, what):
        if r is None:  # only printed
            return
        g = float(r[key])
        obs.check(math.isnan(g) and math.isnan(want) or modelling.close(g, want), what,
                  '{} is {} instead of {}'.format(key, g, want))
        obs.event('results compared')
    vol = met.get('Memory data volume [GBytes]', nan)
    bw = met.get('Memory bandwidth [MBytes/s]', met.get('Memory BW [MBytes/s]', nan))
    cycl = tpr * w.clock / its * it_cl
    same('Runtime (per repetition) [s]', tpr, 'runtime')
    same('Iterations per repetition', its, 'iterations')
    same('Iterations per cacheline', it_cl, 'iterations-per-cacheline')
    same('Runtime (per cacheline update) [cy/CL]', cycl, 'cycles')
    same('MEM volume (per repetition) [B]', vol * 1e9 / reps, 'volume')
    same('Performance [MFLOP/s]', flops * its / tpr / 1e6, 'flops')
    same('MEM BW [MByte/s]', bw, 'bandwidth')
    same('Performance [MLUP/s]', its / tpr / 1e6, 'lups')
    same('Performance [MIt/s]', its / tpr / 1e6, 'its')
    line_value(obs, text, 'Runtime (per cacheline update)', cycl, 2, 'cy/CL')
    line_value(obs, text, 'MEM volume (per repetition)', vol * 1e9 / reps, 0, 'Byte')
    line_value(obs, text, 'Performance', flops * its / tpr / 1e6, 2, 'MFLOP/s')
    line_value(obs, text, 'Performance', its / tpr / 1e6, 2, 'MLUP/s')
    line_value(obs, text, 'Performance', its / tpr / 1e6, 2, 'MIt/s')
    if w.verbose:
        line_value(obs, text, 'Runtime (per repetition)', tpr, None, 's')
        line_value(obs, text, 'MEM bandwidth', bw, 2, 'MByte/s')


def judge_pheno(w, obs, r, runs, total, text, mem_name='T_MEM'):
    """Phenomenological model by the counts of runs, of *total* cachelines."""
    measured = {}
    for e in runs:
        regs = [x.split(':')[1] for x in e['group'].split(',')]
        obs.check(len(set(regs)) == len(regs), 'register-twice', e['group'])
        for k, v in e['counts'].items():
            name, reg = k.split(':', 1)
            measured.setdefault((name, reg), []).append(v)
    allm = dict(w.metrics)
    allm['', 'T_OL'], allm['', 'T_nOL'] = w.tol, w.tnol
    values = {}
    for k, x in allm.items():
        values[k] = x.values(measured)
        if not obs.check(values[k] is not None, 'event-not-measured', '{} = {} of {}'.format(
                k, x.text, sorted(measured))):
            return

    def among(got, want, key, what):
        got = float(got)
        if len(want):
            obs.check(any(modelling.close(got, x, 1e-8) for x in want), key,
                      '{} is {}, should be {}'.format(what, got, sorted(want)[:8]))
            obs.event('metrics compared')
    shown = r['data transfers']
    per_level = {}
    for (lv, n), x in w.metrics.items():
        per_level.setdefault(lv, {})[n] = x
        if not obs.check(n in shown.get(lv, {}), 'transfers-missing', '{} of {}'.format(n, lv)):
            continue
        g = shown[lv][n]
        among(g, {v / total for v in values[lv, n]}, 'transfers', '{} of {}'.format(n, lv))
        unit = 'CL/CL' if lv != 'L1' else {'loads': 'LOAD/CL', 'stores': 'STORE/CL'}.get(n, 'CL/CL')
        obs.check(g.unit == unit, 'transfers-unit', '{} of {} in {}'.format(n, lv, g.unit))
    obs.check({lv: set(v) for lv, v in shown.items() if v} ==
              {lv: set(v) for lv, v in per_level.items()}, 'transfers-invented', str(shown))
    # the model
    h = {e['level']: e for e in w.data['memory hierarchy']}
    ecm = r['ECM']
    among(ecm['T_OL'], {v / total for v in values['', 'T_OL']}, 'T_OL', 'T_OL')
    among(ecm['T_nOL'], {v / total * .5 for v in values['L1', 'loads']}, 'T_nOL', 'T_nOL')

    def volume(lv):
        # as reported, for consistency of different metrics of one event
        return (float(shown[lv]['loads']) + float(shown[lv]['stores'])) * w.cl
    for lv, name in (('L2', 'T_L1L2'), ('L3', 'T_L2L3')):
        among(ecm[name], {volume(lv) / float(h[lv]['upstream throughput'][0])}, name, name)
    # (results are rounded: a tie of two measurements may be broken either way)
    with quiet():
        mem = {float(machines.model(w.data).get_bandwidth(
            -1, float(shown['L3']['misses']) * total * f, float(shown['L3']['evicts']) * total,
            1)[0]) for f in (1 - 1e-9, 1, 1 + 1e-9)}
    among(ecm[mem_name], {volume('MEM') / bw * w.clock for bw in mem}, 'T_MEM', 'T_MEM')
    want = [ecm[k] for k in ('T_OL', 'T_nOL', 'T_L1L2', 'T_L2L3', mem_name)]
    line = re.findall(r'^Phenomenological ECM model: \{ (.*) \} cy/CL$', text, re.M)
    nums = [float(x) for x in re.split(r' \|\|? ', line[0])] if len(line) == 1 else None
    obs.check(nums is not None and len(nums) == 5 and all(
        abs(a - float(b)) <= .0500001 + 1e-9 * abs(float(b)) for a, b in zip(nums, want)),
        'model-printed', '{} for {}'.format(line, want))
    # the table
    rows = {}
    for l in text.split('\n'):
        x = re.match(r'^\s*(L\d|MEM)\s+\|(.*)$', l)
        if x:
            rows[x.group(1)] = [c.strip() for c in re.split(r'\s{2,}|(?<=/CL) +(?=\S)|(?<=-) ',
                                                            x.group(2).strip()) if c and c.strip()]
    heads = re.findall(r'^\s*cache\s+\|(.*)$', text, re.M)
    if obs.check(len(heads) == 1 and set(rows) == {k for k, v in shown.items()}, 'table',
                 'rows {} in {!r}'.format(rows, text)):
        for lv, row in rows.items():
            exp = [str(shown[lv].get(n, '-')) for n in heads[0].split()]
            obs.check(row == exp, 'table-row', '{}: {} instead of {}'.format(lv, row, exp))
            obs.event('table rows compared')
    obs.event('phenomenological models')


def judge_results(w, obs, m, log, text):
    base, rest = split_runs(w, obs, log)
    last = base[-1]
    reps = last['reps']
    obs.check(last['runtime'] >= 1.5 and all(e['runtime'] < 1.5 for e in base[:-1]), 'run-length',
              'base runs of {} s'.format([e['runtime'] for e in base]))
    tpr = last['runtime'] / reps
    r = m.results
    judge_numbers(w, obs, r, text, tpr, w.its, w.it_cl, w.flops, last['metrics'], reps)
    pheno = w.phenoecm and w.cores == 1 and not w.incomplete
    obs.check(bool(rest) == pheno or pheno and not any(
        x.events for x in list(w.metrics.values()) + [w.tol, w.tnol]), 'counter-runs',
        '{} counter runs, phenomenological model {} (cores {}, incomplete {})'.format(
            len(rest), pheno, w.cores, w.incomplete))
    obs.check(('Phenomenological ECM model:' in text) == pheno, 'model-reported',
              'phenomenological model {}: {!r}'.format('missing' if pheno else 'reported', text))
    if not pheno:
        obs.check(not r.get('ECM') and not r.get('data transfers'), 'model-invented',
                  '{} {}'.format(r.get('ECM'), r.get('data transfers')))
        obs.event('without phenomenological model')
        return
    for e in rest:
        obs.check(e['reps'] == reps, 'counter-repetitions', '{} instead of {}'.format(
            e['reps'], reps))
    judge_pheno(w, obs, r, rest, w.its * reps / w.it_cl, text)


def judge_end(w, obs, log, ended, said, judge):
    """Warnings and refusals; returns whether there have to be results."""
    warned = 'current machine and machine description do not match' in said
    obs.check(warned == bool(w.differs), 'machine-warning', 'machine differs in {}: {!r}'.format(
        w.differs, said))
    if w.differs:
        obs.check(repr(w.differs) in said, 'machine-difference', '{} in {!r}'.format(
            w.differs, said))
    if w.differs and not w.ignore:
        obs.check(ended is not None and ended.code not in (0, None) and not log, 'machine-refused',
                  'ended {!r}, {} runs'.format(ended, len(log)))
        obs.event('refused: other machine')
        return False
    judge()
    off = [i for i, e in enumerate(log) if w.off(e)]
    failed = [i for i in range(len(log)) if i in w.cfg['fail']]
    if not w.ignore and off and (not failed or off[0] < failed[0]):
        obs.check(len(log) == off[0] + 1 and ended is not None and ended.code not in (0, None),
                  'clock-refused', 'runs {}, ended {!r}, clocks {}'.format(
                      len(log), ended, [e['clock'] for e in log]))
        obs.event('refused: other clock')
    elif failed:
        obs.check(len(log) == failed[0] + 1 and ended is not None and ended.code not in (0, None),
                  'failure-refused', 'runs {}, ended {!r}'.format(len(log), ended))
        obs.event('refused: tool failed')
    else:
        obs.check(ended is None, 'gives-up', '{!r}: {}'.format(ended, said[-600:]))
    n = said.count('WARNING: measured CPU frequency')
    seen = len([i for i in off if i not in failed])
    obs.check(n == seen, 'clock-warnings', '{} warnings for {} runs (clocks {}, expected {})'.format(
        n, seen, [e['clock'] for e in log], w.clock))
    obs.event('clocks judged', len(log))
    if n:
        obs.event('clock warnings', n)
    return ended is None


def attempt(w, rng, obs, asked, binary):
    """Run the model; judge everything; returns whether results were reported."""
    out, err, rep = io.StringIO(), io.StringIO(), io.StringIO()
    m = ended = None
    with quiet() as (out, err), obs.subject():
        try:
            m = w.model(rng)
            m.analyze()
        except SystemExit as e:
            ended = e
    said = out.getvalue() + err.getvalue()
    log = w.log()
    obs.describe(machine=repr(w.data['memory hierarchy'])[:3000], source=w.source, env=repr(w.env),
                 cfg=repr(w.cfg)[:500], cores=w.cores, said=said[-800:])
    obs.check(len(log) < 38, 'never-ends', 'base runs of {} with {} s per repetition'.format(
        [(e['reps'], e['runtime']) for e in log[:8]], w.cfg['time']))
    if not judge_end(w, obs, log, ended, said, lambda: judge_runs(w, obs, log, binary)):
        return None, said
    if asked:
        obs.check([a[0] for a in asked] == [w.cores > 1], 'openmp', 'built for OpenMP: {}'.format(
            [a[0] for a in asked]))
        obs.check(all(a[1].closed for a in asked), 'lock-kept', 'binary is still locked')
    with quiet() as (out, err), obs.subject():
        m.report(output_file=rep)
    obs.check(not out.getvalue(), 'report-elsewhere', 'on standard output: {!r}'.format(
        out.getvalue()[:300]))
    judge_results(w, obs, m, log, rep.getvalue())
    # results are kept by --store: they have to survive
    obs.distinct((w.source, repr(w.env), w.cfg['seed']))
    obs.event('benchmarks judged')
    return m, said


def case_counters(rng, obs):
    with scratch() as d:
        w = World(rng, d)
        with likwid.running_on(w.system, d), \
                mock.patch.dict(os.environ, {'OMP_NUM_THREADS': rng.choice(['3', '3', ''])} if rng.random() < .5 else {}):
            omp = os.environ.get('OMP_NUM_THREADS')
            w.tool(rng, **({'fail': [rng.randint(0, 5)]} if rng.random() < .12 else
                           {'fail': list(range(40, 60))}))
            asked = []
            binary = stub_binary(w, asked, d)
            attempt(w, rng, obs, asked, binary)
            obs.check(os.environ.get('OMP_NUM_THREADS') == omp, 'environment-changed',
                      'OMP_NUM_THREADS {!r} afterwards'.format(os.environ.get('OMP_NUM_THREADS')))


def case_missing(rng, obs):
    """No tool, no results."""
    with scratch() as d:
        w = World(rng, d)
        w.differs = False
        w.data.update(w.system.readouts())
        w.machine = machines.model(w.data)
        with likwid.running_on(w.system, d):
            w.tool(rng)
            binary = stub_binary(w, [], d)
            with quiet(), obs.subject():
                try:
                    m = w.model(rng)
                except SystemExit:
                    m = None
            if not obs.check(m is not None, 'gives-up', 'before anything was measured'):
                return
            kind = rng.choice(['missing', 'not executable'])
            tool = os.path.join(d, 'tools', 'likwid-perfctr')
            if kind == 'missing':
                os.unlink(tool)
            else:
                os.chmod(tool, 0o644)
            with mock.patch.dict(os.environ, {'PATH': os.path.join(d, 'tools') + ':/usr/bin:/bin'}):
                obs.refuses(lambda: m.perfctr([binary, '10', '5']), 'refused: ' + kind)
            obs.distinct((kind, w.source))


HEADER = '''#include <stdio.h>
#define likwid_markerInit() fprintf(stderr, "constants{}\\n"{})
#define likwid_markerRegisterRegion(x) ((void)0)
#define likwid_markerStartRegion(x) fprintf(stderr, "repeat %d\\n", repeat)
#define likwid_markerStopRegion(x) ((void)0)
#define likwid_markerClose() ((void)0)
'''


def case_built(rng, obs):
    """With the binary built for it: it gets its constants under their names."""
    with scratch() as d:
        w = World(rng, d, real=True)
        inc = os.path.join(d, 'inc')
        os.mkdir(inc)
        names = list(w.env)
        likwid.put(os.path.join(inc, 'likwid.h'), HEADER.format(
            ''.join(' {}=%lld'.format(n) for n in names),
            ''.join(', (long long){}'.format(n) for n in names)))
        with likwid.running_on(w.system, d), mock.patch.dict(
                os.environ, {'LIKWID_LIB': '', 'LIKWID_INC': '-I' + inc}):
            w.tool(rng, execute=True, fail=[])
            orders = [names]
            if len(names) > 1:
                orders.append(rng.sample(names, len(names)))
            for order in orders:
                env = {n: w.spec.env[n] for n in order}
                w.env = env
                w.kernel = util.code_kernel(w.spec, w.machine, env=env, source=w.source,
                                            filename=os.path.join(d, 'k.c'))
                m, said = attempt(w, rng, obs, [], None)
                for e in w.log():
                    lines = e['said'].strip().split('\n')
                    want = 'constants' + ''.join(' {}={}'.format(n, env[n]) for n in names)
                    obs.check(lines[0] == want, 'constants-mixed-up', '{!r} instead of {!r}'.format(
                        lines[0], want))
                    obs.check('repeat {}'.format(e['ran']) in lines and e['rc'] == 0,
                              'binary-repetitions', '{} of {}'.format(lines, e['ran']))
                    obs.event('executions of built binaries')
                if os.path.exists(os.path.join(d, 'perflog')):
                    os.unlink(os.path.join(d, 'perflog'))


def run(ck):
    ck.cases('counters', ck.pick(1600, 30000), case_counters, share=.75)
    ck.cases('tools', ck.pick(24, 300), case_missing, share=.3)
    ck.cases('built', ck.pick(24, 400), case_built)
    for e in ('phenomenological models', 'without phenomenological model', 'refused: other machine',
              'refused: other clock', 'refused: tool failed', 'clock warnings', 'table rows compared',
              'executions of built binaries', 'metrics compared'):
        ck.require(e, 5)
