"""C18: range definitions against their documentation, through the real command line parser."""
import math
import re
from fractions import Fraction
from kcmon.core import Skip, quiet, scratch
from kcmon.gen.recorder import recording, run_cli

LEVEL = 'exploration'
RULE = ('Definitions of every documented form, all small ones exhaustively and random large ones, '
        'are parsed by the real parser and compared with the documented value set in exact '
        'arithmetic; malformed definitions must be refused; several command lines are parsed in '
        'one process by one parser and must not influence each other; repeated definitions are '
        'observed through the constants bound for each analysis of a real run. Non-trivial: more '
        'than one value.')
ASSUMPTIONS = ['Rounding to integers may go either way at a distance of exactly one half (and, for '
               'logarithmic spacing, within a relative 1e-9).',
               'The combination of "." with explicit names, a colon before "log" or the base and '
               'spacing of less than two values are not judged.']


def expected(start, stop=None, num=None, log=False):
    """List of (lower, upper) bounds per value."""
    if stop is None:
        return [(start, start)]
    if num is None:
        return [(v, v) for v in range(start, stop + 1)]
    out = []
    for i in range(num):
        if i == 0 or i == num - 1:
            v = start if i == 0 else stop
            out.append((v, v))
            continue
        if log:
            x = start * (stop / start) ** (i / (num - 1))
            eps = 1e-9 * abs(x) + 1e-9
            out.append((math.ceil(x - .5 - eps), math.floor(x + .5 + eps)))
        else:
            x = start + Fraction((stop - start) * i, num - 1)
            eps = Fraction(abs(stop) + abs(start) + 1, 10 ** 12)
            out.append((math.ceil(x - Fraction(1, 2) - eps),
                        math.floor(x + Fraction(1, 2) + eps)))
    return out


def run(ck):
    from kerncraft import kerncraft as kc

    base_args = ['-m', '/dev/null', '-p', 'LC', '/dev/null']

    def parse(defs, parser=None):
        parser = parser or kc.create_parser()
        argv = list(base_args)
        for n, t in defs:
            argv += ['-D', n, t]
        a = parser.parse_args(argv)
        r = [(n, list(v)) for n, v in a.define]
        a.machine.close()
        a.code_file.close()
        return r

    def verdict(obs, text, got, bounds):
        ok = len(got) == len(bounds) and all(
            type(g) is int and lo <= g <= hi for g, (lo, hi) in zip(got, bounds))
        obs.check(ok, 'wrong-values', '{}: got {}, expected within {}'.format(
            text, got[:40], bounds[:40]))
        obs.event('values compared', len(bounds))

    def text_of(start, stop=None, num=None, log=False, base=None):
        t = str(start)
        if stop is not None:
            t += '-{}'.format(stop)
            if num is not None:
                t += ':{}'.format(num)
                if log:
                    t += 'log' + ('' if base is None else str(base))
        return t

    def one(obs, *a, **kw):
        t = text_of(*a, **kw)
        kw.pop('base', None)
        with obs.subject('valid-definition-refused'), quiet():
            got = parse([('N', t)])
        if obs.check(len(got) == 1 and got[0][0] == 'N', 'definition-lost', t):
            verdict(obs, t, got[0][1], expected(*a, **kw))
        if len(got[0][1]) > 1:
            obs.distinct(t)

    def small(rng, obs):
        """Exhaustive: start = index, every stop, num and spacing nearby."""
        s = obs.index
        n = 0
        one(obs, s)
        for stop in range(s, s + 14):
            one(obs, s, stop)
            for num in range(2, 9):
                one(obs, s, stop, num)
                n += 1
                if s > 0:
                    one(obs, s, stop, num, log=True, base=rng.choice([None, 2, 3, 10, 16]))
        for stop in range(max(0, s - 6), s):
            for num in range(2, 6):
                one(obs, s, stop, num)
            # nothing between: refused, or the documented values
            obs.refuses(lambda: parse([('N', text_of(s, stop))]), 'empty-range-accepted',
                        text_of(s, stop))
        obs.evals = n
        obs.describe(start=s)

    def large(rng, obs):
        def num():
            return rng.choice([rng.randint(0, 200), rng.randint(0, 10 ** 5),
                               2 ** rng.randint(0, 40), 10 ** rng.randint(0, 12)])
        for _ in range(12):
            a, b = sorted((num(), num()))
            kind = rng.random()
            if kind < .15:
                one(obs, a)
            elif kind < .3:
                one(obs, a, a + rng.randint(0, 300))
            elif kind < .65 or a == 0:
                one(obs, a, b, rng.randint(2, 60))
            else:
                one(obs, a, b, rng.randint(2, 60), log=True, base=rng.choice(
                    [None, None, 2, 3, 10, 7, 100]))
        obs.evals = 12

    def malformed(rng, obs):
        seeds = ['10', '10-20', '10-20:3', '10-20:3log', '10-20:3log2']
        for _ in range(20):
            t = rng.choice(seeds)
            i = rng.randrange(len(t) + 1)
            kind = rng.randrange(6)
            if kind == 0:
                t = t + rng.choice(['x', 'abc', '-', ':', '.5', 'e3', ' 5', '-30', ':4', ',7', 'log',
                                    '\t', 'k', 'lin', '*2', '+1', '3x'])
            elif kind == 1:
                t = rng.choice(['x', '-', ':', ' -', '+', '.', 'N=', '~', '0x']) + t
            elif kind == 2:
                t = t[:i] + rng.choice('abx.,;-:+*/ _') + t[i:]
            elif kind == 3:
                t = t[:i] + t[i + 1:]
            elif kind == 4:
                t = rng.choice(['', ' ', 'log', '-', ':', '1.0', '1e3', '-5', 'N', '10:5', '10log',
                                '10-log2', '-10-20', '10--20', '10-20-30', '10-20:3:4',
                                '10-20:log', '10-20:3log2log3', '10-20:0', '10-20:-3', '0-9:3log',
                                '10-20:3.5', '10-20:3log0', '10-20:3log1', '1-20:3lg', '0b11',
                                '1,2,3', '[1]', '10..20', '10 - 20', '10-2 0', 'ten'])
            else:
                t = t.replace(rng.choice(['log', '-', ':', '10', '20', '3']),
                              rng.choice(['', '--', '::', 'LOG', 'x', 'lo']))
            m = re.fullmatch(r'(\d+)(?:-(\d+)(?::(\d+)(log(\d+)?)?)?)?', t, re.A)
            if m and m.group(3) is not None:
                if int(m.group(3)) < 2 or (m.group(4) and '0' in (m.group(1), m.group(2))) or \
                        m.group(5) in ('0', '1'):
                    m = None
            elif m and m.group(2) is not None and int(m.group(2)) < int(m.group(1)):
                m = None
            if re.search(r':(log)?\d*$', t) and ':log' in t or re.search(r'log:', t):
                continue
            if t != t.strip() or t.startswith('-'):
                if t.strip() == '' or t.startswith('-'):
                    pass
                else:
                    continue
            if m:
                continue
            obs.distinct(t)
            obs.event('malformed definitions')
            obs.refuses(lambda: parse([('N', t)]), 'malformed-accepted', repr(t))
            obs.describe(text=t)
        # number of values
        obs.refuses(lambda: kc.create_parser().parse_args(base_args + ['-D', 'N']),
                    'missing-value-accepted')

    def isolation(rng, obs):
        """Several command lines in one process, by one parser or by several."""
        shared = kc.create_parser()
        lines = []
        for _ in range(rng.randint(2, 5)):
            defs = []
            for _ in range(rng.randint(0, 4)):
                a = rng.randint(1, 50)
                defs.append((rng.choice(['N', 'M', '.', 'L']),
                             rng.choice([str(a), '{}-{}'.format(a, a + 3),
                                         '{}-{}:3'.format(a, 2 * a + 9)])))
            lines.append(defs)
        obs.distinct(lines)
        obs.describe(lines=lines)
        alone = [parse(d) for d in lines]
        for d, w in zip(lines, alone):
            with obs.subject('valid-definition-refused'), quiet():
                got = parse(d, shared)
            obs.check(got == w, 'definitions-leak-between-command-lines',
                      '{}: {} instead of {}'.format(d, got, w))
            obs.check([n for n, _ in got] == [n for n, _ in d], 'definition-lost', repr(d))
            obs.event('command lines parsed')
        obs.evals = len(lines)

    KERNEL = 'double a[{0}], b[{0}];\nfor(int i=0; i<{1}; ++i)\na[i] = b[i];\n'

    def repeated(rng, obs):
        """Repeated definitions of a name, seen in the constants analyses run with."""
        names = rng.choice([['N'], ['N', 'M']])
        src = KERNEL.format('N' if len(names) == 1 else 'N+M', names[-1])
        defs, want = [], {n: set() for n in names}
        for n in names:
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(5, 12)
                t = rng.choice([str(a), '{}-{}'.format(a, a + rng.randint(0, 3)),
                                '{}-{}:2'.format(a, a + 4)])
                defs.append((n, t))
                lo = [int(x) for x in re.findall(r'\d+', t.split(':')[0])]
                want[n] |= set(lo if ':' in t else range(lo[0], lo[-1] + 1))
        if rng.random() < .4:
            defs.append(('UNUSED', '1-3'))
        if rng.random() < .3:
            defs = [('.', t) for n, t in defs if n == names[0]][:1]
            lo = [int(x) for x in re.findall(r'\d+', defs[0][1].split(':')[0])]
            w = set(lo if ':' in defs[0][1] else range(lo[0], lo[-1] + 1))
            want = {n: w for n in names}
        rng.shuffle(defs)
        obs.distinct(defs)
        obs.describe(definitions=defs)
        with scratch() as d, recording() as log:
            with obs.subject('run-raises'):
                run_cli(d, src, defs, ['LC'])
        import itertools
        combos = sorted(tuple(zip(names, c)) for c in itertools.product(
            *[sorted(want[n]) for n in names]))
        combos = sorted(tuple(sorted(c)) for c in combos)
        got = sorted(tuple(sorted(r['constants'].items())) for r in log)
        obs.check(set(got) == set(combos), 'wrong-combinations', 'got {}, want {}'.format(
            got, combos), definitions=defs)
        obs.check(len(got) == len(set(got)), 'value-of-repeated-definition-analysed-twice',
                  '{}'.format(got), definitions=defs)
        obs.event('analyses observed', len(got))

    ck.cases('small-exhaustive', ck.pick(16, 60), small, share=.4)
    ck.cases('large', ck.pick(60, 1500), large, share=.4)
    ck.cases('malformed', ck.pick(40, 600), malformed, share=.5)
    ck.cases('isolation', ck.pick(80, 1500), isolation, share=.6)
    ck.cases('repeated', ck.pick(160, 2500), repeated)
    ck.require('values compared', 5000)
    ck.require('malformed definitions', 200)
    ck.require('command lines parsed', 100)
    ck.require('analyses observed', 200)
