"""C23: histories of analyses in one process, every answer compared with one of a fresh process."""
import io
import os
import re
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import util
from kcmon.gen.fresh import in_child, norm
from kcmon.gen.kernels import Options, generate
from kcmon.gen.recorder import run_cli, warm_osaca, MACHINE, REPO

LEVEL = 'exploration'
RULE = ('Generated histories over several kernels and machine descriptions alive in one process: '
        'binding, rebinding and clearing of constants mixed with queries (address traces, '
        'iteration counts, sizes, reports, generated code, layer conditions, cache simulation, '
        'ECM and Roofline results, in-core analysis, whole command line runs). The answer to '
        'every query is compared with the answer of a fresh process which only builds that kernel '
        'and machine, binds the current constants and asks that one question (its intermediates '
        'are stored elsewhere). Non-trivial: a query that follows a rebinding or a query on '
        'another kernel.')
ASSUMPTIONS = ['The files of the two machine descriptions have been read before, in both '
               'processes.', 'Binding order of constants is irrelevant (they are kept sorted).',
               'Kernels are small enough for cache simulation with scaled-down caches.']

MACHINES = [MACHINE, os.path.join(REPO, 'tests/test_files/HaswellEP_E5-2695v3.yml')]

STENCILS = [
    ('double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
     'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] + b[j][i+1];\n', ('M', 'N')),
    ('double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\na[i] = b[i] + s*c[i];\n', ('N',)),
    ('float x[N], y[N+M];\nfor(int i=M; i<N; ++i)\nx[i] = y[i-M] + y[i];\n', ('M', 'N')),
    ('double W[L][M][N], V[L][M][N];\nfor(int k=1; k<L-1; ++k)\nfor(int j=1; j<M-1; ++j)\n'
     'for(int i=1; i<N-1; ++i)\nV[k][j][i] = W[k-1][j][i] + W[k+1][j][i] + W[k][j][i];\n',
     ('L', 'M', 'N')),
    ('double a[N], s;\nfor(int i=0; i<N; ++i)\ns = s + a[i]*a[i];\n', ('N',)),
]


def load_machine(path, small):
    from kerncraft.machinemodel import MachineModel
    m = MachineModel(path)
    if small:
        for lvl, sets in zip(m['memory hierarchy'], (4, 8, 16)):
            lvl['cache per group']['sets'] = sets
            lvl['cache per group']['ways'] = 4
            if 'size per group' in lvl:
                lvl['size per group'] = type(lvl['size per group'])(sets * 4 * 64, '', 'B')
    return m


class Args:
    def __init__(self, **kw):
        self.cores, self.verbose, self.unit = 1, 0, 'cy/CL'
        self.cache_predictor, self.asm_block = 'SIM', 'auto'
        self.pointer_increment, self.incore_model = 'auto', 'OSACA'
        self.compiler, self.compiler_flags = None, None
        self.__dict__.update(kw)


def q_trace(k, m, p):
    o = k.compile_global_offsets(iteration=range(p['from'], p['from'] + p['n']))
    return util.trace_rows(o)


def q_counts(k, m, p):
    return [int(k.subs_consts(k.iteration_length())),
            [norm(l) for l in k.get_loop_stack(subs_consts=True)],
            [int(k.subs_consts(k.iteration_length(dimension=d)))
             for d in range(len(list(k.get_loop_stack())))]]


def q_sizes(k, m, p):
    return [norm(k.array_sizes(in_bytes=b, subs_consts=True)) for b in (False, True)]


def q_symbols(k, m, p):
    return [norm(k.array_sizes()), [norm(l) for l in k.get_loop_stack()],
            norm(k.compile_sympy_accesses()), norm(k.iteration_length()),
            norm(k.global_iterator())]


def q_report(k, m, p):
    out = io.StringIO()
    for f in (k.print_kernel_info, k.print_variables_info, k.print_constants_info):
        f(output_file=out)
    return out.getvalue()


def q_code(k, m, p):
    return [open(k.get_kernel_code()[0] if isinstance(k.get_kernel_code(), tuple)
                 else k.get_kernel_code()).read()]


def q_lc(k, m, p):
    from kerncraft.cacheprediction import LayerConditionPredictor
    r = LayerConditionPredictor(k, m, cores=p['cores'], symbolic=p['symbolic'])
    out = [norm(r.results['cache'])]
    if not p['symbolic']:
        out += [norm(r.get_misses()), norm(r.get_hits()), norm(r.get_evicts())]
    return out


def q_sim(k, m, p):
    from kerncraft.cacheprediction import CacheSimulationPredictor
    r = CacheSimulationPredictor(k, m, cores=p['cores'])
    return norm([r.get_loads(), r.get_hits(), r.get_misses(), r.get_stores(), r.get_evicts()])


def q_model(k, m, p):
    from kerncraft import models
    mod = getattr(models, p['model'])(k, m, Args(cores=p['cores'], cache_predictor=p['predictor']))
    mod.analyze()
    return norm(mod.results)


def q_bandwidth(k, m, p):
    return norm([m.get_bandwidth(l, r, w, 1, c) for l in range(4) for r, w in p['mix']
                 for c in (None, p['cores'])])


def q_caches(k, m, p):
    return [(l.name, l.size(), l.sets, l.ways) for l in
            m.get_cachesim(p['cores']).levels(with_mem=False)]


CHEAP = {'trace': q_trace, 'counts': q_counts, 'sizes': q_sizes, 'symbols': q_symbols,
         'report': q_report, 'bandwidth': q_bandwidth, 'caches': q_caches}
HEAVY = {'lc': q_lc, 'sim': q_sim, 'model': q_model}


def params(rng, name, total):
    if name == 'trace':
        n = max(1, min(total, rng.randint(1, 30)))
        return {'from': rng.randint(0, max(0, total - n)), 'n': n}
    if name == 'lc':
        return {'cores': rng.choice([1, 2, 4]), 'symbolic': rng.random() < .4}
    if name == 'model':
        return {'model': rng.choice(['ECMData', 'RooflineFLOP']), 'cores': rng.choice([1, 2, 4]),
                'predictor': rng.choice(['LC', 'SIM'])}
    if name == 'bandwidth':
        return {'mix': [(rng.randint(0, 6), rng.randint(0, 4)) for _ in range(3)],
                'cores': rng.choice([1, 2, 4, 6])}
    return {'cores': rng.choice([1, 2, 4])}


def ask(fn, k, m, p):
    try:
        with quiet():
            return ('ok', fn(k, m, p))
    except (ValueError, TypeError, AssertionError, ZeroDivisionError, KeyError, IndexError,
            AttributeError, NotImplementedError) as e:
        return ('exc', type(e).__name__)


def build(src, directory, name, machine):
    from kerncraft.kernel import KernelCode
    fn = None
    if directory:
        fn = os.path.join(directory, name)
        with open(fn, 'w') as f:
            f.write(src)
    return KernelCode(src, machine=machine, filename=fn)


def fresh_answer(src, mspec, env, fn, p):
    with scratch() as d:
        m = load_machine(*mspec)
        k = build(src, d, 'k.c', m)
        for n, v in env.items():
            k.set_constant(n, v)
        return ask(fn, k, m, p)


def history(kernels, mspecs, steps, named):
    """Execute *steps* in this process; list of answers to the queries among them."""
    answers = []
    with scratch() as d:
        machines = [load_machine(*s) for s in mspecs]
        ks = [build(src, d if named else None, 'k{}.c'.format(i), machines[mi])
              for i, (src, mi) in enumerate(kernels)]
        for s in steps:
            if s[0] == 'set':
                ks[s[1]].set_constant(s[2], s[3])
            elif s[0] == 'clear':
                ks[s[1]].clear_state()
            elif s[0] == 'rebuild':
                src, mi = kernels[s[1]]
                ks[s[1]] = build(src, d if named else None, 'k{}.c'.format(s[1]), machines[mi])
            elif s[0] == 'reload':
                machines[s[1]] = load_machine(*mspecs[s[1]])
            else:
                _, ki, mi, name, p = s
                answers.append(ask({**CHEAP, **HEAVY}[name], ks[ki], machines[mi], p))
    return answers


def run(ck):
    import kerncraft.models  # imported before forking
    import kerncraft.cacheprediction

    for path in MACHINES:
        load_machine(path, False)  # parsing takes long; every process starts with these read

    def make(rng, pool, heavy, length):
        mspecs = [(rng.choice(MACHINES), heavy or rng.random() < .5)
                  for _ in range(rng.choice([1, 2]))]
        kernels, consts, spec_env = [], [], []
        for _ in range(rng.randint(1, 3)):
            if heavy or rng.random() < .4:
                src, names = rng.choice(STENCILS)
                env = None
            else:
                spec = generate(rng, Options(max_depth=3, max_len=8))
                src, names, env = spec.source(rng), sorted(spec.env), spec.env
            kernels.append((src, rng.randrange(len(mspecs))))
            consts.append(list(names))
            spec_env.append(env)
        bound = [dict() for _ in kernels]
        steps, expected = [], []
        for _ in range(length):
            ki = rng.randrange(len(kernels))
            kind = rng.random()
            if kind < .12 and consts[ki]:
                steps.append(('clear', ki))
                bound[ki] = {}
            elif kind < .17:
                steps.append(('rebuild', ki))
                bound[ki] = {}
            elif kind < .2:
                steps.append(('reload', rng.randrange(len(mspecs))))
            elif kind < .5 and consts[ki]:
                n = rng.choice(consts[ki])
                if spec_env[ki]:
                    v = spec_env[ki][n] + rng.randint(0, 3)
                else:
                    v = rng.randint(8, 14) if heavy and n != consts[ki][-1] else rng.randint(16, 90)
                steps.append(('set', ki, n, v))
                bound[ki][n] = v
            else:
                name = rng.choice(pool)
                missing = [n for n in consts[ki] if n not in bound[ki]]
                if missing and (name not in ('symbols', 'report', 'bandwidth', 'caches')
                                or rng.random() < .5):
                    for n in missing:
                        v = (spec_env[ki] or {}).get(n) or rng.randint(9, 40)
                        steps.append(('set', ki, n, v))
                        bound[ki][n] = v
                mi = kernels[ki][1]
                p = params(rng, name, 20)
                steps.append(('ask', ki, mi, name, p))
                expected.append((ki, mi, name, p, dict(bound[ki])))
        return mspecs, kernels, steps, expected

    def compare(obs, rng, pool, heavy, length):
        mspecs, kernels, steps, expected = make(rng, pool, heavy, length)
        if len(expected) < 2:
            raise Skip('too short')
        named = rng.random() < .7
        # without further arguments there is nothing to look up
        r = in_child(history, kernels, mspecs, steps, named)
        if r[0] != 'ok':
            obs.violate('history-fails', repr(r)[:1500], steps=steps, kernels=kernels)
            return
        cache = {}
        for n, ((ki, mi, name, p, env), got) in enumerate(zip(expected, r[1])):
            key = repr((ki, mi, name, p, sorted(env.items())))
            if key not in cache:
                cache[key] = in_child(fresh_answer, kernels[ki][0], mspecs[mi], env,
                                      {**CHEAP, **HEAVY}[name], p)
            want = cache[key]
            if want[0] != 'ok':
                obs.violate('fresh-analysis-fails', repr(want)[:1500], kernel=kernels[ki][0])
                continue
            obs.check(got == want[1], 'answer-depends-on-history-' + name,
                      'query {} of {}: {} {} with {}: {} fresh process: {}'.format(
                          n, len(expected), name, p, env, str(got)[:500], str(want[1])[:500]),
                      kernel=kernels[ki][0], steps=steps)
            obs.event('answers ' + ('given' if got[0] == 'ok' else 'refused'))
            obs.event('query ' + name)
        obs.evals = len(expected)
        obs.distinct((kernels, steps))
        obs.describe(kernels=[k for k, _ in kernels], steps=[str(s) for s in steps[:12]])

    def cheap(rng, obs):
        compare(obs, rng, list(CHEAP), False, rng.randint(8, 30))

    def heavy(rng, obs):
        compare(obs, rng, list(HEAVY) * 2 + ['trace', 'counts', 'caches'], True, rng.randint(6, 16))

    def cli_runs(rng, obs):
        """Whole runs, repeatedly in one process, by one parser or several."""
        runs = []
        for _ in range(rng.randint(2, 3)):
            src, names = rng.choice(STENCILS)
            defs = []
            for n in names:
                lo = rng.randint(10, 60)
                defs.append((n, rng.choice([str(lo), str(lo), '{}-{}:2'.format(lo, lo + 20)])))
            pool = ['LC', 'ECMData', 'RooflineFLOP']
            if rng.random() < .3:
                pool = ['ECMCPU', 'ECM', 'RooflineASM', 'LC']
            runs.append((src, defs, rng.sample(pool, rng.randint(1, 2)),
                         ['-P', rng.choice(['SIM', 'LC']), '--cores', str(rng.choice([1, 2])),
                          '--unit', rng.choice(['cy/CL', 'It/s'])],
                         MACHINES[0] if rng.random() < .6 else MACHINES[1]))

        def one(r, parser=None):
            with scratch() as d:
                try:
                    res, text = run_cli(d, *r[:4], machine=r[4], parser=parser)
                except (ValueError, TypeError, KeyError, AttributeError, ZeroDivisionError) as e:
                    return ('exc', type(e).__name__)
                except SystemExit as e:
                    return ('exit', str(e.code))
                for v in res.values():
                    v.pop('in-core model output', None)  # names the directory and time
                    v.get('cpu bottleneck', {}).pop('in-core model output', None)
                return ('ok', norm([(dict(k)['define'], dict(k)['pmodel'], v)
                                    for k, v in res.items()]),
                        re.sub(r'^.*-m .*$', '', text, flags=re.M))

        def all_of_them():
            from kerncraft import kerncraft as kc
            parser = kc.create_parser() if rng.random() < .5 else None
            return [one(r, parser) for r in runs]
        got = in_child(all_of_them)
        if got[0] != 'ok':
            obs.violate('history-fails', repr(got)[:1500], runs=runs)
            return
        for r, g in zip(runs, got[1]):
            w = in_child(one, r)
            if w[0] != 'ok':
                obs.violate('fresh-analysis-fails', repr(w)[:1500], run=r)
                continue
            obs.check(g == w[1], 'run-depends-on-earlier-runs', '{}: {} fresh: {}'.format(
                r, str(g)[:700], str(w[1])[:700]))
            obs.event('whole runs ' + ('answered' if g[0] == 'ok' else 'refused'))
        obs.evals = len(runs)
        obs.distinct(runs)
        obs.describe(runs=[str(r)[:300] for r in runs])

    ck.cases('cheap', ck.pick(120, 2500), cheap, share=.4)
    ck.cases('heavy', ck.pick(64, 800), heavy, share=.5)
    if ck.replay is None:
        in_child(warm_osaca, MACHINES)
    ck.cases('runs', ck.pick(24, 250), cli_runs)
    ck.require('answers given', 300)
    ck.require('query lc', 30)
    ck.require('query sim', 20)
    ck.require('query model', 30)
    ck.require('whole runs answered', 15)
