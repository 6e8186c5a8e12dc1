"""C17: parameter sweeps and the result store, observed by recording models and on real ones."""
import itertools
import json
import os
import pickle
import re
from kcmon.core import Skip, quiet, scratch
from kcmon.gen.recorder import recording, run_cli, MACHINE, REPO

LEVEL = 'exploration'
RULE = ('Real command line runs over generated ranges with models replaced by recorders that log '
        'the constants bound when they are asked to analyse and return a unique token: every '
        'combination of the cross product has to be logged exactly once per requested model, and '
        'store, JSON file, returned results and text must carry that token for that combination; '
        'whatever was in the store before has to be there unchanged. Histories of several runs '
        'sharing a store are checked against a dictionary model. Real models: every stored entry '
        'of a sweep equals the result of a run of that combination alone. Non-trivial: at least '
        'two combinations or a non-empty store before the run.')
ASSUMPTIONS = ['A run that repeats an earlier combination with the same arguments replaces that '
               'entry.', 'A JSON file present before the run is not expected to be merged.']

MACHINES = [MACHINE, os.path.join(REPO, 'tests/test_files/HaswellEP_E5-2695v3.yml')]
OPTIONS = [('cores', '--cores', [1, 2, 3, 4, 8]), ('predictor', '-P', [None, 'LC']),
           ('flags', '--compiler-flags', [None, '-O1', '-O2', '-O3']),
           ('incore', '-i', [None, 'IACA', 'LLVM-MCA']), ('asm', '--asm-block', [None, 0, 1, 2]),
           ('incr', '--pointer-increment', [None, 8, 16, 32]),
           ('compiler', '-C', [None, 'gcc', 'clang']), ('phenoecm', '--no-phenoecm', [None, True]),
           ('machine', None, MACHINES), ('name', None, ['k.c', 'other.c'])]
MODELS = ['LC', 'ECM', 'ECMData', 'ECMCPU', 'RooflineFLOP', 'RooflineASM', 'Benchmark']


def source(rng, names):
    """A kernel using every constant in *names* in some role."""
    dims = []
    if not names:
        return rng.choice([
            'double a[100], b[100];\nfor(int i=0; i<100; ++i)\na[i] = b[i];\n',
            'float a[30][40], b[30][40];\nfor(int j=1; j<29; ++j)\nfor(int i=0; i<40; ++i)\n'
            'a[j][i] = b[j-1][i] + b[j+1][i];\n'])
    if len(names) == 1:
        n = names[0]
        return rng.choice([
            'double a[{0}], b[{0}];\nfor(int i=0; i<{0}; ++i)\na[i] = b[i];\n',
            'double a[{0}][{0}];\nfor(int j=0; j<{0}; ++j)\nfor(int i=0; i<10; ++i)\na[j][i] = 1.;\n',
            'double a[200], b[200];\nfor(int i=0; i<{0}; ++i)\na[i] = b[i];\n',
            'double a[200], b[200], s;\nfor(int i={0}; i<200; ++i)\ns = a[i] + b[i-{0}];\n'
        ]).format(n)
    if len(names) == 2:
        a, b = names
        return rng.choice([
            'double a[{0}][{1}], b[{0}][{1}];\nfor(int j=0; j<{0}; ++j)\nfor(int i=0; i<{1}; ++i)\n'
            'a[j][i] = b[j][i];\n',
            'double a[{0}+{1}], b[{0}*{1}];\nfor(int i=0; i<{1}; ++i)\na[i] = b[i];\n',
            'double a[300], b[300];\nfor(int i={0}; i<300; ++i)\na[i-{0}] = b[i-{0}];\n'
            .replace('i<300', 'i<200+{1}')]).format(a, b)
    a, b, c = names
    return ('double a[{0}][{1}][{2}];\nfor(int k=0; k<{0}; ++k)\nfor(int j=0; j<{1}; ++j)\n'
            'for(int i=0; i<{2}; ++i)\na[k][j][i] = 0.;\n').format(a, b, c)


def ranges(rng, names, limit):
    defs, vals = [], []
    for n in names:
        lo = rng.randint(5, 30)
        while True:
            k = rng.choice([1, 1, 2, 3, 4])
            if k <= limit or limit < 1:
                break
        limit //= k
        if k == 1:
            defs.append((n, str(lo)))
        elif rng.random() < .6:
            defs.append((n, '{}-{}'.format(lo, lo + k - 1)))
        else:
            st = rng.randint(1, 5)
            defs.append((n, '{}-{}:{}'.format(lo, lo + st * (k - 1), k)))
            vals.append([lo + st * i for i in range(k)])
            continue
        vals.append(list(range(lo, lo + k)))
    return defs, vals


def define_of(key):
    return dict(key)['define'], dict(key)['pmodel']


def norm(x):
    """Comparable form of a result."""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x if isinstance(x, (int, float)) and x == x else str(x)


def run(ck):
    def foreign(rng):
        """What other programs' runs might have left in a store."""
        out = {}
        for _ in range(rng.randint(1, 4)):
            k = (('asm_block', 'auto'), ('code_file', 'other{}.c'.format(rng.randint(0, 99))),
                 ('define', (('N', rng.randint(1, 9)),)), ('pmodel', rng.choice(MODELS)))
            out[k] = rng.choice([{'x': [1, 2, {'y': None}]}, None, 'text', {}, 3.25])
        return out

    def sweep(rng, obs):
        names = rng.sample(['N', 'M', 'L', 'KK', 'n2', 'Size'], rng.choice([0, 1, 1, 2, 2, 3]))
        src = source(rng, names)
        pool = rng.sample(MODELS, rng.randint(1, 3))
        pmodels = list(pool)
        if rng.random() < .2:
            pmodels.append(rng.choice(pool))  # requested twice: still once
        with scratch() as d, recording(
                MODELS, result=lambda e: dict(e, token='T{}'.format(rng.getrandbits(60)),
                                              nested=[{'c': (1, 2)}])) as log:
            store, js = os.path.join(d, 's.pickle'), os.path.join(d, 'r.json')
            before = {}
            if rng.random() < .5:
                before = foreign(rng)
                with open(store, 'wb') as f:
                    pickle.dump(before, f)
            use_json = rng.random() < .6
            model_of_store = dict(before)
            runs = rng.choice([1, 2, 2, 3, 4])
            total = 0
            history = {}  # what was asked for -> token of its latest result
            defs = None
            for r in range(runs):
                one_off = defs is not None and rng.random() < .7
                if not one_off:
                    defs, vals = ranges(rng, names, 14)
                order = list(defs)
                rng.shuffle(order)
                if rng.random() < .2:
                    order.append(('UNUSED', '1-2'))
                extra = ['--store', store]
                if use_json:
                    extra += ['--json', js]
                if rng.random() < .3:
                    extra += ['--unit', rng.choice(['cy/CL', 'It/s'])]
                if rng.random() < .3:
                    extra += ['-' + 'v' * rng.randint(1, 3)]
                # options the outcome depends on: other values make for other entries
                if one_off:
                    o = rng.choice(OPTIONS)
                    asked[o[0]] = rng.choice([v for v in o[2] if v != asked[o[0]]])
                else:
                    asked = {n: rng.choice(v) if rng.random() < .3 else v[0]
                             for n, _, v in OPTIONS}
                for n, option, _ in OPTIONS:
                    if option is None or asked[n] is None or n == 'cores' and asked[n] == 1:
                        continue
                    if asked[n] is True:
                        extra.append(option)
                    else:
                        extra += [option + '=' + str(asked[n])] if option[1] == '-' else \
                            [option, str(asked[n])]
                machine, name = asked['machine'], asked['name']
                del log[:]
                with obs.subject('run-raises'):
                    res, text = run_cli(d, src, order, pmodels, extra, machine=machine, name=name)
                combos = [tuple(sorted(zip(names, c))) for c in itertools.product(*vals)]
                uniq = list(dict.fromkeys(pmodels))
                want = sorted((c, m) for c in combos for m in uniq)
                got = sorted((tuple(sorted(e['constants'].items())), e['model']) for e in log)
                obs.check(got == want, 'analyses-not-the-cross-product',
                          'analysed {}, requested {}'.format(got[:20], want[:20]),
                          source=src, definitions=order)
                obs.event('analyses', len(got))
                total += len(got)
                tokens = {}
                for e in log:
                    pass
                # what the run returned
                mine = {}
                with open(store, 'rb') as f:
                    after = pickle.load(f)
                obs.check(norm(after) == norm(res), 'store-differs-from-returned-results', '')
                seen_tok = []
                for k, v in after.items():
                    if k in model_of_store and norm(model_of_store[k]) == norm(v):
                        continue
                    dfn, pm = define_of(k)
                    mine[(tuple(sorted(dfn)), pm)] = (k, v)
                obs.check(sorted(mine) == want, 'store-entries-wrong',
                          'new entries {}, requested {}'.format(sorted(mine)[:20], want[:20]),
                          definitions=order)
                for (c, m), (k, v) in mine.items():
                    ok = v['constants'] == dict(c) and v['model'] == m
                    obs.check(ok, 'entry-holds-result-of-another-combination',
                              '{} {}: {}'.format(c, m, v))
                    a = dict(k)
                    obs.check(a.get('cores') == v['cores'] == asked['cores'] and a.get('machine') == machine,
                              'entry-identified-by-wrong-arguments', repr(k))
                    obs.event('store entries compared')
                for k, v in model_of_store.items():
                    if k in [kk for kk, _ in mine.values()]:
                        continue
                    obs.check(k in after and norm(after[k]) == norm(v), 'earlier-result-lost',
                              repr(k))
                    obs.event('surviving entries')
                # results of runs that asked for something else are all still there
                for (c, m), (k, v) in mine.items():
                    history[(c, m, tuple(sorted(asked.items(), key=str)))] = v.get('token')
                there = {v.get('token') for v in after.values() if isinstance(v, dict)}
                for (c, m, o), tok in history.items():
                    obs.check(tok in there, 'result-replaced-by-another-run',
                              '{} {} with {} is gone after a run with {}'.format(
                                  c, m, o, sorted(asked.items(), key=str)))
                    obs.event('results of the history found')
                # text: one report per analysis, right header above it
                reps = re.findall(r'^(.*)\n-+ (\w+) -+\n(?:(?!RECORDED)[\s\S])*?RECORDED (\w+) '
                                  r'(.*?) (T\d+)$', text, re.M)
                rep = sorted((tuple(sorted(re.findall(r'-D (\w+) (\d+)', h))), m, t)
                             for h, m, m2, _, t in reps if m == m2)
                obs.check(rep == sorted((tuple(sorted((n, str(x)) for n, x in c)), m,
                                         v['token']) for (c, m), (k, v) in mine.items()),
                          'text-and-store-disagree', '{}'.format(rep)[:500], text=text)
                obs.event('text reports compared', len(rep))
                if use_json:
                    with open(js) as f:
                        j = json.load(f)
                    obs.check(len(j) == len(after) and norm(j) == norm(after),
                              'json-and-store-disagree', '{} {}'.format(
                                  str(norm(j))[:600], str(norm(after))[:600]))
                    obs.event('json files compared')
                left = [n for n in os.listdir(d) if n.endswith('.tmp')]
                obs.check(not left, 'temporary-file-left', repr(left))
                model_of_store = after
            obs.describe(source=src, definitions=order, models=pmodels, runs=runs,
                         entries_before=len(before))
            if total >= 2 or before:
                obs.distinct((src, tuple(order), tuple(pmodels)))

    def missing(rng, obs):
        """Constants that were not defined are refused before anything is analysed or stored."""
        names = rng.sample(['N', 'M', 'L'], rng.choice([1, 2, 3]))
        src = source(rng, names)
        defs, _ = ranges(rng, names, 8)
        drop = rng.randrange(len(defs))
        defs = [x for i, x in enumerate(defs) if i != drop]
        needed = [n for n in names if not re.search(r'\b{}\b'.format(n), src)]
        if names[drop] in needed:
            raise Skip()
        with scratch() as d, recording(MODELS) as log:
            obs.refuses(lambda: run_cli(d, src, defs, ['LC', 'ECM']), 'undefined-constant-accepted',
                        '{}: {}'.format(src, defs))
            obs.check(not log, 'analysis-before-refusal', repr(log))
        obs.distinct((src, tuple(defs)))

    def real(rng, obs):
        """Real models: a sweep's entries equal those of separate runs, outputs agree."""
        two_d = rng.random() < .5
        if two_d:
            src = ('double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
                   'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1];\n')
            base = rng.choice([40, 700, 2000])
            defs = [('M', '{}-{}:2'.format(base, base + rng.randint(5, 300))), ('N', str(
                rng.choice([50, 1000, 4100])))]
        else:
            src = 'double a[N], b[N], c[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i]*2.0 + c[i];\n'
            base = rng.choice([500, 3000, 20000])
            defs = [('N', '{}-{}:{}'.format(base, base * rng.choice([2, 30]), rng.randint(2, 3)))]
        pm = ['LC', rng.choice(['ECMData', 'RooflineFLOP'])]
        # layer conditions need to be applicable to be reported
        extra = ['-P', rng.choice(['LC', 'SIM']), '--cores', str(rng.choice([1, 1, 4])), '-v']
        with scratch() as d:
            js = os.path.join(d, 'r.json')
            st = os.path.join(d, 's.pickle')
            with obs.subject('real-run-raises'):
                res, text = run_cli(d, src, defs, pm, extra + ['--store', st, '--json', js])
            with open(st, 'rb') as f:
                stored = pickle.load(f)
            with open(js) as f:
                j = json.load(f)
            obs.check(norm(stored) == norm(res), 'store-differs-from-returned-results', '')
            obs.check(norm(j) == norm(stored), 'json-and-store-disagree', '')
            keys = {(define_of(k)): v for k, v in stored.items()}
        sep_text = []
        for dfn in dict.fromkeys(k[0] for k in keys):
            with scratch() as d2:
                with obs.subject('real-run-raises'):
                    alone, t = run_cli(d2, src, [(n, str(v)) for n, v in dfn], pm, extra)
            sep_text.append((t.replace(d2, ''),))
            for k, v in alone.items():
                w = keys.get(define_of(k))
                obs.check(w is not None and norm(w) == norm(v),
                          'sweep-entry-differs-from-separate-run',
                          '{}: {} alone {}'.format(define_of(k), str(norm(w))[:700],
                                                   str(norm(v))[:700]))
                obs.event('real entries compared')
        head = re.compile(r'^.*-m .*$', re.M)
        obs.check(head.sub('', text) == head.sub('', ''.join(t for t, in sep_text)),
                  'sweep-text-differs-from-separate-runs', text[:400])
        obs.distinct((src, tuple(defs), tuple(pm), tuple(extra)))
        obs.describe(source=src, definitions=defs, models=pm, options=extra)

    ck.cases('sweep', ck.pick(320, 5000), sweep, share=.5)
    ck.cases('missing', ck.pick(40, 400), missing, share=.3)
    ck.cases('real', ck.pick(40, 500), real)
    ck.require('analyses', 500)
    ck.require('store entries compared', 500)
    ck.require('surviving entries', 100)
    ck.require('results of the history found', 1000)
    ck.require('text reports compared', 300)
    ck.require('json files compared', 50)
    ck.require('real entries compared', 60)
