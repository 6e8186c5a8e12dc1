"""C21: counter descriptions, schedules of benchmark runs and derived metrics."""
import os
import re
from fractions import Fraction
from kcmon.core import Skip, quiet
from kcmon.gen.recorder import REPO

LEVEL = 'exploration'
RULE = ('Generated event sets (overlapping register groups, duplicates, same event with other '
        'options, events nobody can count) are scheduled by the real code; a checker over the '
        'produced runs requires every event exactly once on a counter of its description, no '
        'counter twice within a run, no more runs than events. Register descriptions are compared '
        'with an independent expansion. Generated metric formulas over nasty counter names '
        '(prefixes of each other, same event on several registers, options), several per process, '
        'are evaluated with unique values per counter and compared with direct exact evaluation. '
        'All metrics of the shipped machine files are evaluated, too. Non-trivial: at least two '
        'events competing for a counter, respectively two counters in a formula.')
ASSUMPTIONS = ['An event without any counter may be refused or left out.',
               'Character ranges are judged within digits, lower or upper case letters.',
               'A formula that divides by zero is not judged.']


def expand(d):
    """All counters a register description stands for."""
    out = []
    for u in d.split('|'):
        parts = re.findall(r'\[([^\]]+)\]|([^\[\]])', u)
        cur = ['']
        for g, c in parts:
            if g:
                opts = []
                i = 0
                while i < len(g):
                    if i + 2 < len(g) and g[i + 1] == '-':
                        opts += [chr(x) for x in range(ord(g[i]), ord(g[i + 2]) + 1)]
                        i += 3
                    else:
                        opts.append(g[i])
                        i += 1
            else:
                opts = [c]
            cur = [x + o for x in cur for o in opts]
        out += cur
    return out


def rnd_registers(rng, empty=False):
    r = rng.random()
    if r < .35:
        lo = rng.randint(0, 3)
        return 'PMC[{}-{}]'.format(lo, rng.randint(lo, 5))
    if r < .5:
        return 'PMC[{}]'.format(''.join(rng.sample('01234567', rng.randint(1, 3))))
    if r < .65:
        return 'PMC{}'.format(rng.randint(0, 3))
    if r < .75:
        return 'MBOX{}C[01]'.format(rng.randint(0, 2))
    if r < .83:
        return 'CBOX[0-{}]C[0-1]'.format(rng.randint(0, 2))
    if r < .92:
        return 'PMC[0-1]|{}'.format(rng.choice(['PMC[23]', 'FIXC0', 'PMC4|PMC5', 'UBOX[0-1]']))
    if r < .95:
        return rng.choice(['CORE[A-C]', 'R[a-c2]', 'Q[0-2A-B]', 'X[1]Y[23]Z'])
    if empty:
        return rng.choice(['PMC[3-0]', 'CBOX1C[9-2]', 'X[b-a]'])
    return 'FIXC{}'.format(rng.randint(0, 2))


EVENTS = ['L1D_REPLACEMENT', 'L1D', 'L1D_M_EVICT', 'UOPS', 'UOPS_EXECUTED', 'CAS_COUNT_RD',
          'CAS_COUNT', 'A', 'AA', 'A_A', 'XUOPS', 'MEM_UOPS_RETIRED_LOADS',
          'MEM_UOPS_RETIRED_LOADS_ALL', 'L2', '2ND', 'E', 'I', 'PI', 'S', 'N', 'SYM', 'SYMA']
PARAMS = [(), (), (), ('EDGEDETECT',), ('THRESHOLD=0x926',), ('MATCH0=0x180',),
          ('MATCH0=0x180', 'MATCH1=0x1'), ('STATE=0xF0', 'OPCODE=0x202'), ('MATCH0=0x18',),
          ('EDGEDETECT', 'THRESHOLD=0x926')]


def run(ck):
    from kerncraft.machinemodel import MachineModel
    from kerncraft.models import benchmark as bm

    def registers(rng, obs):
        for _ in range(40):
            d = rnd_registers(rng)
            if rng.random() < .3:
                d += '|' + rnd_registers(rng)
            with obs.subject('description-refused'):
                got = list(bm.register_options(d))
            obs.check(got == expand(d), 'wrong-register-options', '{}: {} instead of {}'.format(
                d, got, expand(d)))
            obs.event('register descriptions')
            if len(got) > 1:
                obs.distinct(d)
        obs.evals = 40
        for d in ('PMC[3-0]', 'X[b-a]Y'):
            obs.check(list(bm.register_options(d)) == [], 'senseless-range-not-empty', d)

    def strings(rng, obs):
        """Event strings and their parts."""
        for _ in range(30):
            ev, reg, par = rng.choice(EVENTS), rnd_registers(rng), rng.choice(PARAMS)
            text = ':'.join((ev, reg) + par)
            t = MachineModel.parse_perfctr_event(text)
            obs.check(tuple(t) == (ev, reg, par), 'event-parsed-wrongly', '{}: {}'.format(text, t))
            keep = (ev, reg, par)
            forms = [lambda: bm.eventstr((ev, reg, par)), lambda: bm.eventstr(t),
                     lambda: bm.eventstr(event=ev, register=reg, parameters=par)]
            if rng.random() < .5:
                forms.append(lambda: bm.eventstr((ev, reg, list(par))))
            if not par:
                forms += [lambda: bm.eventstr((ev, reg)), lambda: bm.eventstr((ev, reg, None)),
                          lambda: bm.eventstr(event=ev, register=reg)]
            for f in forms:
                with obs.subject('event-string-refused'):
                    got = f()
                obs.check(got == text, 'wrong-event-string', '{!r} instead of {!r}'.format(
                    got, text))
                obs.event('event strings')
            obs.check((ev, reg, par) == keep, 'argument-changed', '')
            obs.distinct(text)
        obs.evals = 30

    def schedule(rng, obs):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
        impossible = rng.random() < .1
        pool = [rnd_registers(rng) for _ in range(rng.randint(1, 5))]
        events = []
        for i in range(n):
            ev = (rng.choice(EVENTS) + rng.choice(['', '', str(i)]), rng.choice(pool),
                  rng.choice(PARAMS))
            events.append(ev)
        if rng.random() < .4:
            events += rng.sample(events, rng.randint(1, len(events)))
            rng.shuffle(events)
        if impossible:
            events.insert(rng.randrange(len(events) + 1),
                          ('NOWHERE', rng.choice(['PMC[3-0]', 'CBOX1C[9-2]']), ()))
        before = list(events)
        judge(obs, events, before, impossible)
        # asking again gives the same schedule
        if not impossible:
            obs.check(norm_runs(bm.build_minimal_runs(events)) == norm_runs(
                bm.build_minimal_runs(events)), 'schedule-not-repeatable', '')
        obs.describe(events=[':'.join(e[:2] + e[2]) for e in before[:12]])
        if len(set(before)) > len({c for e in before for c in expand(e[1])}) or n >= 5:
            obs.distinct(tuple(before))

    def norm_runs(runs):
        return [sorted((e, r, tuple(p or ())) for e, r, p in run) for run in runs]

    def judge(obs, events, before, impossible=False):
        import signal
        try:
            runs = bm.build_minimal_runs(events)
        except Exception as e:
            obs.check(impossible, 'schedule-refused', repr(e), events=before)
            obs.event('schedules refused')
            return
        obs.check(events == before, 'argument-changed', '', events=before)
        want = [e for e in dict.fromkeys(before) if expand(e[1])]
        left = list(want)
        obs.check(len(runs) <= max(1, len(want)), 'more-runs-than-events', '{} runs, {} events'.format(
            len(runs), len(want)))
        for run in runs:
            regs = [r for _, r, _ in run]
            obs.check(len(regs) == len(set(regs)), 'counter-used-twice-in-run', repr(run))
            obs.check(len(run) > 0 or not want, 'empty-run', repr(runs))
        # every event exactly once: match entries to descriptions (several may fit)
        entries = [(e, r, tuple(p or ())) for run in runs for e, r, p in run]
        obs.check(len(entries) == len(want), 'events-lost-or-repeated', '{} scheduled of {}'.format(
            len(entries), len(want)), events=before, runs=runs)
        cand = [[i for i, w in enumerate(want) if w[0] == e and w[2] == p and r in expand(w[1])]
                for e, r, p in entries]
        match = {}

        def augment(j, seen):
            for i in cand[j]:
                if i in seen:
                    continue
                seen.add(i)
                if i not in match or augment(match[i], seen):
                    match[i] = j
                    return True
            return False
        m = sum(augment(j, set()) for j in range(len(entries)))
        obs.check(m == len(entries) == len(want), 'event-on-incompatible-counter-or-missing',
                  '{} of {} entries belong to an event, {} events'.format(
                      m, len(entries), len(want)), events=before, runs=runs)
        obs.event('events scheduled', len(want))
        obs.event('runs scheduled', len(runs))

    # -- metrics
    def formula(rng, ctrs, depth):
        """(text, function(values) -> Fraction)"""
        k = rng.random()
        if depth == 0 or k < .25:
            if rng.random() < .75:
                c = rng.choice(ctrs)
                return c, (lambda v, c=c: v[c]), 9
            n = rng.choice([1, 2, 3, 64, 128, 5])
            return str(n), (lambda v, n=n: Fraction(n)), 9
        if k < .45:
            fn = rng.choice(['max', 'min'])
            subs = [formula(rng, ctrs, depth - 1) for _ in range(rng.randint(2, 4))]
            sep = rng.choice([', ', ',', ',  '])
            f = {'max': max, 'min': min}[fn]
            return (fn + '(' + sep.join(s[0] for s in subs) + ')',
                    lambda v: f(s[1](v) for s in subs), 9)
        op = rng.choice('+++--*/')
        prec = {'+': 1, '-': 1, '*': 2, '/': 2}[op]
        a, b = formula(rng, ctrs, depth - 1), formula(rng, ctrs, depth - 1)
        ta = a[0] if a[2] >= prec and rng.random() < .8 else '(' + a[0] + ')'
        tb = b[0] if b[2] > prec and rng.random() < .8 else '(' + b[0] + ')'
        sp = rng.choice([' ', ' ', ''])
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
             '/': lambda x, y: x / y}[op]
        return ta + sp + op + sp + tb, lambda v: f(a[1](v), b[1](v)), prec

    def counters(rng):
        names = []
        while len(names) < rng.randint(2, 6):
            e = rng.choice(EVENTS)
            reg = rng.choice(['PMC0', 'PMC1', 'PMC10', 'PMC[0-3]', 'PMC[0-1]', 'PMC[01]',
                              'MBOX0C[01]', 'MBOX1C[01]', 'CBOX0C0', 'CBOX0C01', 'PMC0|PMC1',
                              'PMC[0-1]|PMC3'])
            c = ':'.join((e, reg) + rng.choice(PARAMS))
            names.append(c)
            if rng.random() < .5:  # a near neighbour
                names.append(rng.choice([
                    'X' + c, e + ':' + reg, e + '_B:' + reg, c + ':EDGE=0x1',
                    e + ':' + reg + '1' if not reg.endswith(']') else e + ':' + reg]))
        return list(dict.fromkeys(names))

    def evaluate(obs, metric, ref, ctrs):
        vals = {c: Fraction(1009 + 97 * i * i + 13 * i) for i, c in enumerate(ctrs)}
        try:
            want = ref(vals)
        except ZeroDivisionError:
            return None
        with obs.subject('metric-refused'), quiet():
            expr, events = MachineModel.parse_perfmetric(metric)
        by_tuple = {}
        for c in ctrs:
            p = c.split(':')
            by_tuple[(p[0], p[1], tuple(p[2:]))] = vals[c]
        subs = {}
        for s, t in events.items():
            if not obs.check(tuple(t) in by_tuple, 'unknown-event-in-metric', '{}: {}'.format(
                    metric, t)):
                return None
            subs[s] = int(by_tuple[tuple(t)])
        with obs.subject('metric-cannot-be-evaluated'):
            got = expr.subs(subs)
            free = getattr(got, 'free_symbols', set())
            if not obs.check(not free, 'counter-not-replaced', '{}: {} left'.format(metric, free)):
                return None
            if not got.is_finite:
                return None
            got = Fraction(str(got)) if got.is_Rational else Fraction(float(got))
        obs.check(abs(got - want) <= abs(want) * Fraction(1, 10 ** 9), 'wrong-metric-value',
                  '{}: {} instead of {} with {}'.format(
                      metric, float(got), float(want), {k: int(v) for k, v in vals.items()}))
        obs.event('metrics evaluated')
        return expr, events

    def metrics(rng, obs):
        """Several metrics in one process, some sharing counters."""
        shared = counters(rng)
        kept = []
        n = rng.randint(2, 6)
        for _ in range(n):
            ctrs = list(dict.fromkeys(rng.sample(shared, rng.randint(1, len(shared))) +
                                      (counters(rng) if rng.random() < .3 else [])))
            text, ref, _ = formula(rng, ctrs, rng.randint(1, 4))
            r = evaluate(obs, text, ref, ctrs)
            if r:
                kept.append((text, ref, ctrs, r))
                if len(set(re.findall(r'\w+:', text))) > 1:
                    obs.distinct(text)
            obs.describe(metric=text)
        # all of them together, as the benchmark model does
        allc = list(dict.fromkeys(c for _, _, cs, _ in kept for c in cs))
        vals = {c: Fraction(1009 + 97 * i * i) for i, c in enumerate(allc)}
        merged = {}
        for _, _, _, (e, ev) in kept:
            merged.update(ev)
        tv = {}
        for c in allc:
            p = c.split(':')
            tv[(p[0], p[1], tuple(p[2:]))] = int(vals[c])
        subs = {s: tv[tuple(t)] for s, t in merged.items() if tuple(t) in tv}
        for text, ref, cs, (e, ev) in kept:
            try:
                want = ref(vals)
            except ZeroDivisionError:
                continue
            got = e.subs(subs)
            ok = not got.free_symbols
            if ok and got.is_finite:
                g = Fraction(str(got)) if got.is_Rational else Fraction(float(got))
                ok = abs(g - want) <= abs(want) * Fraction(1, 10 ** 9)
            elif ok:
                continue
            obs.check(ok, 'wrong-metric-value-together', '{}: {} instead of {}'.format(
                text, got, float(want)), together=[k[0] for k in kept])
        obs.evals = n

    def shipped(rng, obs):
        files = sorted(os.listdir(os.path.join(REPO, 'examples/machine-files')))
        files = [os.path.join(REPO, 'examples/machine-files', f) for f in files
                 if f.endswith('.yml')]
        files += [os.path.join(REPO, 'tests/test_files/SandyBridgeEP_E5-2680.yml'),
                  os.path.join(REPO, 'tests/test_files/HaswellEP_E5-2695v3.yml')]
        if obs.index >= len(files):
            raise Skip()
        with quiet():
            try:
                m = MachineModel(files[obs.index])
            except ValueError:
                raise Skip('incompatible version')
        texts = []
        for k in ('overlapping model', 'non-overlapping model'):
            texts.append(m[k].get('performance counter metric'))
        for l in m['memory hierarchy']:
            texts += list((l.get('performance counter metrics') or {}).values())
        allev = {}
        for t in texts:
            if t is None or ':' not in str(t) or 'REQUIRED' in str(t):
                continue
            t = str(t)
            ctrs = sorted(set(re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|-]+(?::[A-Za-z0-9_=]+)*', t)),
                          key=len, reverse=True)
            names = {}

            def name(mm):
                return names.setdefault(mm.group(0), 'v{}'.format(len(names)))
            body = re.sub('|'.join(re.escape(c) for c in ctrs), name, t)
            ref = (lambda v, body=body, names=names: eval(body, {'max': max, 'min': min, 'Max': max, 'Min': min},
                   {n: v[c] for c, n in names.items()}))
            r = evaluate(obs, t, ref, ctrs)
            if r:
                allev.update(r[1])
                obs.event('shipped metrics')
                obs.distinct(t)
        evs = [tuple(e) for e in allev.values()]
        if evs:
            judge(obs, evs, list(evs))

    ck.cases('registers', ck.pick(20, 400), registers, share=.3)
    ck.cases('strings', ck.pick(30, 500), strings, share=.3)
    ck.cases('schedule', ck.pick(800, 30000), schedule, limit=10, share=.5)
    ck.cases('metrics', ck.pick(600, 15000), metrics, share=.9)
    ck.cases('shipped', 24, shipped)
    ck.require('events scheduled', 3000)
    ck.require('metrics evaluated', 500)
    ck.require('shipped metrics', 40)
