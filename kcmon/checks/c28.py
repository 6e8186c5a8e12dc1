"""C28: stand-alone measurements of regions against what the (simulated) tool logged."""
import io
import math
import os
import pickle
import re
from unittest import mock
from kcmon.core import quiet, scratch
from kcmon.checks import c25
from kcmon.gen import likwid

LEVEL = 'exploration'
RULE = ('The command line tool is run in full, with a stand-in for likwid-perfctr which invents and '
        'logs what every marked region takes and counts, as a function of the arguments given to '
        'the binary. Regions, loops, repetitions, FLOPs, variables and their ranges, options and '
        'machine descriptions are random. Arguments of every invocation and all results, printed '
        'and stored, are recomputed from the log. Non-trivial: adjusted variables, exhausted '
        'variables, several regions, defaults, and every way of refusing seen.')
ASSUMPTIONS = c25.ASSUMPTIONS + [
    'By how much variables are adjusted is not specified, only their ranges and that they move.']
BUDGET = {'quick': 200, 'thorough': 800}
PRELOAD = True
ALL = ''


class Variable:
    def __init__(self, rng, name, regions):
        self.name = name
        self.regions = rng.sample(regions, rng.randint(1, len(regions))) \
            if regions and rng.random() < .5 else []
        self.kind = kind = rng.choice(['fixed', 'lin', 'lin', 'lin', 'log', 'stuck'])
        self.stop = None
        if kind == 'fixed':
            self.start = rng.choice([0, 1, 7, 100, 20000, .5, 1e-3, 2.5])
            body = [self.text(rng, self.start)]
        elif kind == 'lin':
            self.start = rng.choice([0, 1, 1, 3, 10, 100, 1000, 2.5])
            self.stop = self.start + rng.choice([1, 5, 50, 999, 10 ** 4, 10 ** 6, 10 ** 9])
            body = [self.text(rng, self.start), self.text(rng, self.stop)]
            if rng.random() < .6:
                body.append('lin')
        elif kind == 'log':
            self.start = rng.choice([1, 10, .1, 1e-2, 100])
            self.stop = self.start * rng.choice([.1, 1e-2, 1e-5, 1e-12])
            body = [self.text(rng, self.start), self.text(rng, self.stop)]
            if rng.random() < .6:
                body.append('log')
        else:
            # the wrong way for their scale, or no range at all
            self.start = rng.choice([5, 10])
            self.stop, scale = rng.choice([(self.start, 'lin'), (self.start, 'log'), (1, 'lin'),
                                           (100, 'log')])
            body = [self.text(rng, self.start), self.text(rng, self.stop), scale]
        if self.stop is not None:
            self.start, self.stop = float(body[0]), float(body[1])
        self.integer = re.fullmatch('[0-9]+', body[0]) is not None
        self.first = body[0]
        self.arg = (','.join(self.regions) + ':' if self.regions else '') + ':'.join(body)

    @staticmethod
    def text(rng, v):
        if isinstance(v, int) or v == int(v) and rng.random() < .8:
            return str(int(v))
        return rng.choice(['{!r}', '{:e}', '{:.17g}']).format(v)

    def covers(self, region):
        return not self.regions or region in self.regions

    def exhausted(self, v):
        """There is no further value."""
        return self.kind in ('fixed', 'stuck') or \
            (v >= self.stop if self.kind == 'lin' else v <= self.stop)

    def allowed(self, v):
        if self.kind in ('fixed', 'stuck'):
            return v == float(self.start)
        lo, hi = sorted([self.start, self.stop])
        return lo <= v <= hi


class World(c25.World):
    script = 'fakeregions.py'

    def __init__(self, rng, d):
        self.computer(rng, d)
        self.options(rng)
        self.marker = rng.random() < .75
        self.there = rng.sample(['loop', 'A', 'sweep_2', 'copy', 'B1'],
                                rng.choice([1, 1, 2, 2, 3]))
        self.asked = None  # all
        self.unknown = False
        if self.marker:
            if rng.random() < .75:
                self.asked = rng.sample(self.there, rng.randint(1, len(self.there)))
                if rng.random() < .08:
                    self.asked.append('nowhere')
                    self.unknown = True
        self.regions = (self.asked or self.there) if self.marker else [ALL]
        named = [r for r in self.regions if r]
        names = rng.sample(['N', 'M', 'EPS', 'T', '_rep', 'x'], rng.choice([0, 1, 1, 2, 2, 3]))
        self.vars = [Variable(rng, n, named) for n in names]
        self.loops = self.per_region(rng, lambda: [self.loop(rng) for _ in range(
            rng.choice([1, 1, 2, 3]))])
        self.flops = self.per_region(rng, lambda: rng.choice([1, 2, 3, 7, 10, 26, 0]))
        self.reps = self.per_region(rng, lambda: self.repetitions(rng), optional=True)
        self.dtype = rng.choice(['double', 'double', 'float', None])
        self.esize = 4 if self.dtype == 'float' else 8
        self.store = rng.random() < .85
        self.lacking = [r for r in self.regions if any(
            r not in x and ALL not in x for x in (self.loops, self.flops))]
        self.no_marker = not self.marker and any(r == 'marker' for r in self.reps.values())

    def per_region(self, rng, make, optional=False):
        """{region: value}, with a default or without."""
        out = {}
        named = [r for r in self.regions if r]
        if named and rng.random() < .5:
            chosen = named if rng.random() < .5 else rng.sample(named, rng.randint(1, len(named)))
            for r in chosen:
                out[r] = make() if not out or rng.random() < .6 else rng.choice(list(out.values()))
        missing = any(r not in out for r in self.regions)
        if missing and rng.random() < (.6 if optional else .9) or not out and not optional or \
                rng.random() < .3:
            out[ALL] = make()
        return out

    def loop(self, rng):
        v = rng.choice([v for v in self.vars if v.integer and v.kind != 'log'] or [None]) if rng.random() < .5 else None
        start = rng.choice([0, 0, 1, 2, 5])
        step = rng.choice([1, 1, 1, 2, 3, 4, 8])
        if v is not None:
            end = max(start + 1, int(v.start) + rng.choice([0, 0, -1, -2, 3]))
        else:
            end = start + rng.choice([1, 2, 7, 10, 100, 1000, 99999])
        explicit = step != 1 or rng.random() < .3
        text = '{}:{}{}{}'.format(start, '{}:'.format(step) if explicit else '', end,
                                  ':' + v.name if v is not None else '')
        return start, end, step, v, text

    def repetitions(self, rng):
        r = rng.random()
        good = [v for v in self.vars if v.start >= 1]
        if r < .35 and good:
            return rng.choice(good).name
        if r < .6 and (self.marker or rng.random() < .1):
            return 'marker'
        return rng.choice([1, 2, 10, 500])

    def of(self, what, region, default=None):
        return what.get(region, what.get(ALL, default))

    def tool(self, rng, **kw):
        super(World, self).tool(rng, **kw)
        cfg = self.cfg
        cfg['regions'] = {}
        arg = [i for i, v in enumerate(self.vars) if v.start >= 1]
        for r in self.there:
            powers = []
            for v in self.vars:
                dep = rng.random() < (.85 if v.covers(r) else .1)
                powers.append(0 if not dep else -1 if v.kind == 'log' else rng.choice([1, 1, 2, .5]))
            cfg['regions'][r] = {
                'time': rng.choice([2., 1.6, 1.5, 1.499, .7, .1, 1e-3, 1e-6, 30.]), 'powers': powers,
                'instant': rng.choice([0] * 8 + [1, 2]),
                'calls': [rng.choice(arg)] if arg and rng.random() < .5 else
                rng.choice([1, 1, 3, 20, 100000])}
        import json
        likwid.put(os.path.join(self.d, 'perfctr.json'), json.dumps(cfg))

    def argv(self, rng, machine, binary, store):
        # each option with its values; the order of definitions is that of arguments
        groups = [['-m', machine]]
        defs = [['-D', v.name, v.arg] for v in self.vars]

        def texts(option, per, body):
            out = []
            left = list(per)
            while left:
                r = left.pop(0)
                same = [s for s in left if s and r and per[s] is per[r]]
                for s in same:
                    left.remove(s)
                out += [[option, (','.join([r] + same) + ':' if r else '') + b]
                        for b in body(per[r])]
            return out
        loops = texts('-L', self.loops, lambda v: [x[4] for x in v])
        flops = texts('--flops', self.flops, lambda v: [str(v)])
        reps = texts('-R', self.reps, lambda v: [str(v)])
        if self.marker:
            groups.append(['--marker'] + ([','.join(self.asked)] if self.asked else []))
        if self.dtype:
            groups.append(['--datatype', self.dtype])
        if self.cores > 1 or rng.random() < .3:
            groups.append(['--cores', str(self.cores)])
        if not self.phenoecm:
            groups.append(['--no-phenoecm'])
        if self.ignore:
            groups.append(['--ignore-warnings'])
        if self.verbose:
            groups.append(['-' + 'v' * self.verbose])
        if store:
            groups.append(['--store', store])
        queues = [defs, loops, flops, reps] + [[g] for g in groups]
        queues = [q for q in queues if q]
        out = []
        while queues:
            q = rng.choice(queues)
            out += q.pop(0)
            queues = [x for x in queues if x]
        # a value less --marker must not take the binary
        return [binary] + out if rng.random() < .5 or out[-1] == '--marker' else out + [binary]


def adjusted(w, obs, log):
    """Values of all variables in all base runs; nothing but allowed moves."""
    want = 'MEM' if 'MEM' in w.groups else w.groups[0]
    base = []
    for e in log:
        if ':' in e['group']:
            break
        base.append(e)
        obs.check(e['group'] == want, 'group', 'measured {} of {}'.format(e['group'], w.groups))
    rest = log[len(base):]
    obs.check(all(':' in e['group'] for e in rest), 'order-of-runs', str([e['group'] for e in log]))
    if not obs.check(base, 'nothing-run', ''):
        return base, rest, []
    values = []
    for n, e in enumerate(base):
        args = e['cmd'][1:]
        if not obs.check(len(args) == len(w.vars), 'arguments', '{} for {}'.format(
                args, [v.name for v in w.vars])):
            return base, rest, []
        now = [float(a) for a in args]
        short = [r for r in w.regions if n and base[n - 1]['regions'].get(r, {}).get(
            'runtime', 9) < 1.5]
        moved = 0
        for i, v in enumerate(w.vars):
            obs.check(v.allowed(now[i]), 'range', '{} is {} in {}'.format(v.name, now[i], v.arg))
            if not n:
                obs.check(now[i] == float(v.first) and (not v.integer or args[i] == str(
                    int(v.first))), 'first-value', '{} of {}: {}'.format(v.name, v.arg, args[i]))
            elif now[i] != values[-1][i]:
                moved += 1
                obs.check((now[i] > values[-1][i]) == (v.kind == 'lin'), 'direction',
                          '{} from {} to {}'.format(v.arg, values[-1][i], now[i]))
                obs.check(any(v.covers(r) for r in short), 'other-region', '{}: {} adjusted for '
                          '{}'.format(v.name, v.arg, short))
            if v.integer and v.kind == 'lin' and float(v.stop).is_integer():
                obs.check(re.fullmatch('[0-9]+', args[i]), 'integer', '{} for {}'.format(
                    args[i], v.arg))
        if n:
            obs.check(short, 'needless-run', 'after {}'.format(base[n - 1]['regions']))
            obs.check(moved, 'same-run-again', '{} after {}'.format(args, base[n - 1]['regions']))
        values.append(now)
        obs.event('base runs judged')
    for e in rest:
        obs.check([float(a) for a in e['cmd'][1:]] == values[-1], 'counter-arguments',
                  '{} instead of {}'.format(e['cmd'][1:], values[-1]))
    if len(base) > 1:
        obs.event('runs adjusted', len(base) - 1)
    return base, rest, values


def judge_invocations(w, obs, log, binary):
    pins = 'S0:0' if w.cores == 1 else 'S0:0-{}'.format(w.cores - 1)
    for e in log:
        obs.check(e['cpus'] == pins, 'pinning', '{} instead of {}'.format(e['cpus'], pins))
        obs.check(e['csv'] and e['marker'] == w.marker, 'tool-options', 'markers {} csv {}'.format(
            e['marker'], e['csv']))
        obs.check(e['omp'] is None, 'omp-num-threads', 'OMP_NUM_THREADS is {}'.format(e['omp']))
        obs.check(e['there'] and e['cmd'][0] == binary, 'binary', '{} was run'.format(e['cmd'][0]))
        obs.event('invocations judged')


def sections(w, obs, text):
    parts = re.split(r"^Results for region '(.*)'$", text, flags=re.M)
    names = parts[1::2]
    obs.check(sorted(names) == sorted(w.regions), 'regions-reported', '{} instead of {}'.format(
        names, w.regions))
    return dict(zip(names, parts[2::2]))


def judge_region(w, obs, region, base, rest, values, results, text, said):
    last = base[-1]['regions'][region]
    env = {v.name: x for v, x in zip(w.vars, values[-1])}
    reps = w.of(w.reps, region, 1)
    by_marker = reps == 'marker'
    if by_marker:
        reps = last['calls']
        obs.event('repetitions of markers')
    elif isinstance(reps, str):
        reps = env[reps]
        obs.event('repetitions of variables')
    its = 1
    for start, end, step, v, _ in w.of(w.loops, region):
        if v is not None:
            end = end + (env[v.name] - float(v.first))
            obs.event('loops of variables')
        its *= math.ceil((end - start) / step)
    it_cl = w.cl / (w.esize * w.of(w.loops, region)[-1][2])
    tpr = last['runtime'] / reps if reps else float('nan')
    if its <= 0 or not reps or not tpr:
        return
    flops = w.of(w.flops, region)
    obs.check(('markers for region {} might'.format(region) in said) == (by_marker and tpr < 1.0),
              'overhead-warning', 'repetitions of {} from markers: {}, {} s each'.format(
                  region, by_marker, tpr))
    pheno = w.phenoecm and w.cores == 1 and not w.incomplete
    c25.judge_numbers(w, obs, results, text, tpr, its, it_cl, flops, last['metrics'], reps)
    obs.check(('Phenomenological ECM model:' in text) == pheno, 'model-reported',
              'phenomenological model {}: {!r}'.format('missing' if pheno else 'reported', text))
    if results is None:
        return
    if pheno:
        runs = [dict(e, counts=e['regions'][region]['counts']) for e in rest]
        c25.judge_pheno(w, obs, results, runs, its * reps / it_cl, text, 'T_L3MEM')
    else:
        obs.check(not results.get('ECM') and not results.get('data transfers'), 'model-invented',
                  '{} {}'.format(results.get('ECM'), results.get('data transfers')))
        obs.event('without phenomenological model')
    obs.event('regions judged')


def case_regions(rng, obs):
    from kerncraft import standalone_pheno as kp
    with scratch() as d:
        w = World(rng, d)
        binary = os.path.join(d, rng.choice(['stream', 'a.out', 'my bench']))
        likwid.put(binary, '#!/bin/sh\nexit 0\n')
        os.chmod(binary, 0o755)
        machine = os.path.join(d, 'machine.yml')
        w.machine.dump(machine)
        store = os.path.join(d, 'results.pickle') if w.store else None
        before = {}
        if store and rng.random() < .4:
            before = {'other': {(('N', 3),): {'stand-alone benchmark': 5}},
                      os.path.basename(binary): {(('Z', 1),): {'x': 2}}}
            with open(store, 'wb') as f:
                pickle.dump(before, f)
        argv = w.argv(rng, machine, binary, store)
        text = io.StringIO()
        ended = crash = None
        with likwid.running_on(w.system, d), mock.patch.dict(
                os.environ, {'OMP_NUM_THREADS': '3'} if rng.random() < .5 else {}):
            w.tool(rng, **({'fail': [rng.randint(0, 4)]} if rng.random() < .1 else
                           {'fail': list(range(60, 90))}))
            obs.describe(argv=argv, cfg=repr(w.cfg)[:1500],
                         machine=repr(w.data['memory hierarchy'])[:2500])
            with quiet() as (out, err), obs.subject():
                try:
                    parser = kp.create_parser()
                    args = parser.parse_args(argv)
                    kp.check_arguments(args, parser)
                    kp.run(parser, args, output_file=text)
                except SystemExit as e:
                    ended = e
                except (KeyError, ValueError, ZeroDivisionError) as e:
                    crash = e
        text = text.getvalue()
        said = out.getvalue() + err.getvalue() + text
        log = w.log()
        obs.check(len(log) < 58, 'never-ends', '{} invocations: {}'.format(
            len(log), [e['cmd'][1:] for e in log[:6]]))
        refused = ended is not None and ended.code not in (0, None)
        if w.no_marker:
            obs.check(refused and not log, 'marker-refused', 'repetitions from markers, without '
                      'markers: {!r} {}'.format(ended, said))
            obs.event('refused: no markers')
            return
        if w.lacking and w.asked is None and w.marker and w.differs and not w.ignore:
            pass
        elif w.lacking and not (w.marker and w.asked is None):
            obs.check(refused and not log, 'lacking-refused', 'nothing known of {}: {!r} {}'.format(
                w.lacking, ended, said))
            obs.event('refused: nothing known of region')
            return

        def judge():
            judge_invocations(w, obs, log, binary)
        zero = crash is not None and isinstance(crash, ZeroDivisionError)
        if zero:
            # nothing is repeated, or takes any time: there are no figures
            obs.check(log, 'crash', repr(crash))
            return
        obs.check(crash is None, 'crash', '{!r} {}'.format(crash, said[-500:]))
        if w.unknown or w.lacking:
            # (found out of after the first run)
            if log and not (w.differs and not w.ignore):
                ok = refused and len(log) == 1
                obs.check(ok, 'region-refused', 'not found {}, nothing known of {}: {!r}, {} runs'
                          .format(w.unknown, w.lacking, ended, len(log)))
                obs.event('refused: no such region')
                return
        if not c25.judge_end(w, obs, log, ended, said, judge):
            return
        base, rest, values = adjusted(w, obs, log)
        if not values:
            return
        # long enough, or there is no way to
        short = [r for r in w.regions if base[-1]['regions'][r]['runtime'] < 1.5]
        stuck = [r for r in short if all(v.exhausted(values[-1][i]) for i, v in enumerate(w.vars)
                                         if v.covers(r))]
        warned = 'Could not extrapolate to a 1.5s run' in said
        obs.check(warned == bool(short), 'length-warning', '{} runs of {}, warned {}'.format(
            base[-1]['regions'], w.regions, warned))
        if short:
            obs.check(stuck == short, 'gave-up', '{} only takes {}, with {} of {}'.format(
                short, base[-1]['regions'], values[-1], [v.arg for v in w.vars]))
            obs.event('exhausted variables')
        others = [r for r in w.there if r not in w.regions] if w.marker else []
        obs.check(('were found but not specified' in said) == bool(others), 'other-regions-warning',
                  '{} of {}: {}'.format(w.asked, w.there, said[-300:]))
        for r in others:
            obs.check(repr(r) in said.split('were found but not specified')[-1], 'other-regions',
                      '{} in {}'.format(r, said[-300:]))
        results = {}
        if store:
            with open(store, 'rb') as f, obs.subject():
                stored = pickle.load(f)
            name = os.path.basename(binary)
            for k, v in before.items():
                for c, x in v.items():
                    obs.check(stored.get(k, {}).get(c) == x, 'results-lost', '{} {}'.format(k, c))
            new = [(c, x) for c, x in stored.get(name, {}).items()
                   if c not in before.get(name, {})]
            if not obs.check(len(new) == 1 and list(new[0][1]) == ['stand-alone benchmark'],
                             'stored', '{}'.format({k: list(v) for k, v in stored.items()})):
                return
            key = [(str(k), float(v)) for k, v in new[0][0]]
            obs.check(key == [(v.name, x) for v, x in zip(w.vars, values[-1])], 'stored-key',
                      '{} instead of {}'.format(key, values[-1]))
            results = new[0][1]['stand-alone benchmark']
            obs.check(sorted(results) == sorted(w.regions), 'stored-regions', '{} of {}'.format(
                sorted(results), w.regions))
            obs.event('stored results judged')
        parts = sections(w, obs, text)
        m = re.search('^ -m|^(?:-D .*)?$', text.split(' -m ' + machine)[-1].lstrip('\n'), re.M)
        shown = re.findall(r'-D (\S+) (\S+)', text.split('-' * 10)[0])
        obs.check([(n, float(x)) for n, x in shown] == [
            (v.name, x) for v, x in zip(w.vars, values[-1])], 'shown-definitions',
            '{} instead of {} ({})'.format(shown, values[-1], m and m.group()))
        for r in w.regions:
            if r in parts:
                judge_region(w, obs, r, base, rest, values, results.get(r) if store else None,
                             parts[r], said)
        if len(w.regions) > 1:
            obs.event('several regions')
        obs.distinct((repr(argv[1:3]), w.cfg['seed']))


def case_arguments(rng, obs):
    """Malformed arguments are refused, well-formed ones understood."""
    from kerncraft import standalone_pheno as kp
    with scratch() as d:
        machine = os.path.join(d, 'm.yml')
        likwid.put(machine, 'x')
        ok = {'-D': ['N', '10:100:lin'], '-L': ['0:10'], '--flops': ['3'], '-R': ['A:5']}
        bad = rng.choice([
            ('-D', ['N', rng.choice(['abc', '10x', '10:100:foo', '10:100:lin:2', '', ':', 'A:B:3',
                                     '3,4', '-3', '1:x', 'lin', '1e', '0x10'])]),
            ('-L', [rng.choice(['10', '0:', 'a', '0:1:2:3', '0:10 x', '0-10', '', ':5', 'A:10',
                                '0:2.5', '0.5:3', '0:10:N x'])]),
            ('--flops', [rng.choice(['x', 'A:', '2.5', '', '3a', ':3', '3:A', '-1'])]),
            ('-R', [rng.choice(['', 'A:', '5 5', ':', 'A:5:6', 'a-b'])])])
        good = rng.random() < .2
        given = dict(ok)
        if not good:
            given[bad[0]] = bad[1]
        argv = ['-m', machine]
        for k, v in given.items():
            argv += [k] + v
        argv.append('binary')
        obs.describe(argv=argv)
        with quiet() as (out, err), obs.subject():
            try:
                args = kp.create_parser().parse_args(argv)
                refused = False
            except SystemExit as e:
                refused = e.code not in (0, None)
        obs.check(refused != good, 'arguments-refused', '{} were {}'.format(
            argv, 'refused: ' + err.getvalue() if refused else 'accepted'))
        obs.event('arguments ' + ('accepted' if good else 'refused'))
        obs.distinct(tuple(argv[2:]))


def run(ck):
    ck.cases('arguments', ck.pick(200, 2000), case_arguments, share=.1)
    ck.cases('regions', ck.pick(2000, 40000), case_regions)
    for e in ('phenomenological models', 'without phenomenological model', 'refused: other machine',
              'refused: other clock', 'refused: tool failed', 'refused: no markers',
              'refused: nothing known of region', 'refused: no such region', 'runs adjusted',
              'exhausted variables', 'several regions', 'repetitions of markers',
              'repetitions of variables', 'loops of variables', 'stored results judged',
              'arguments refused', 'arguments accepted'):
        ck.require(e, 5)
