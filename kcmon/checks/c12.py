"""C12: SI-prefixed quantities against exact rational arithmetic (reference-model monitor)."""
import math
from fractions import Fraction

LEVEL = 'exploration'
RULE = ('Random quantities (all prefixes, units from and beyond the machine files, magnitudes '
        '1e-3..1e26, zero, negative, infinite) and random expression sequences over them; '
        'non-trivial: the two operands carry different prefixes, or a printed prefix is not the '
        'one stored.')
ASSUMPTIONS = ['Values agree when they differ by less than 1e-9 relative (double rounding); '
               'printing keeps two decimals of the printed prefix and may choose a prefix with '
               'up to 1% deviation, as documented.']
BUDGET = {'quick': 120, 'thorough': 600}
SI = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15, 'E': 18, 'Z': 21, 'Y': 24}
UNITS = ['B', 'B/s', 'Hz', 'FLOP/s', 'cy', 'cy/CL', 'It/s', 'LUP/s', 'B/cy', 'Transfer', 'Mops',
         'kg', 'Page', 'GUP', '']


def close(a, b, tol=1e-9):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def run(ck):
    from kerncraft.prefixedunit import PrefixedUnit

    def quantity(rng, obs, unit=None):
        v = rng.choice([
            lambda: float(rng.randint(0, 50)), lambda: rng.randint(0, 99),
            lambda: round(rng.uniform(0, 2000), 2),
            lambda: rng.uniform(0, 1) * 10 ** rng.randint(-2, 6), lambda: rng.randint(1, 9) * 100.0,
            lambda: round(rng.uniform(0, 999), 2)])()
        p = rng.choice(list(SI))
        u = rng.choice(UNITS) if unit is None else unit
        with obs.subject():
            q = PrefixedUnit(v, p, u)
        return q, Fraction(v) * 10 ** SI[p], u

    def same(obs, q, ref, unit, key, what):
        ok = close(float(q), float(ref))
        obs.check(ok, key, '{}: got {!r}, expected {} {}'.format(what, q, float(ref), unit))
        obs.check(q.unit == unit, key + '-unit', '{}: unit {!r}, expected {!r}'.format(
            what, q.unit, unit))
        obs.event('quantities observed')

    def prefixes(rng, obs):
        p = list(SI)[obs.index]
        for u in ('B', 'Hz', 'FLOP/s'):
            for v in (1.0, 2.5, 117.25):
                with obs.subject():
                    q = PrefixedUnit(v, p, u)
                same(obs, q, Fraction(v) * 10 ** SI[p], u, 'wrong-prefix-value-' + (p or 'none'),
                     repr(q))
                with obs.subject():
                    q3 = PrefixedUnit('{} {}{}'.format(v, p, u))
                    q2 = PrefixedUnit(v, p + u)
                same(obs, q3, Fraction(v) * 10 ** SI[p], u, 'wrong-parse-' + (p or 'none'), '3')
                same(obs, q2, Fraction(v) * 10 ** SI[p], u, 'wrong-parse2-' + (p or 'none'), '2')
                for p2 in SI:
                    with obs.subject():
                        r = q.with_prefix(p2)
                    same(obs, r, Fraction(v) * 10 ** SI[p], u, 'with-prefix', 'with_prefix ' + p2)
                    obs.check(r.prefix == p2, 'with-prefix-not-applied')
                    obs.distinct((p, p2, v))
        obs.describe(prefix=p)

    def arithmetic(rng, obs):
        a, ra, ua = quantity(rng, obs)
        if rng.random() < .8:
            b, rb, ub = quantity(rng, obs, unit=ua)
        else:
            b, rb, ub = quantity(rng, obs)
        obs.describe(a=repr(a), b=repr(b))
        if a.prefix != b.prefix:
            obs.distinct((repr(a), repr(b)))
        keep = repr(a), repr(b)
        for name, op, ref in (('add', lambda x, y: x + y, lambda x, y: x + y),
                              ('sub', lambda x, y: x - y, lambda x, y: x - y)):
            if ua == ub:
                with obs.subject(name + '-raises'):
                    r = op(a, b)
                # cancellation: absolute accuracy relative to the operands
                want = ref(ra, rb)
                ok = abs(float(r) - float(want)) <= 1e-9 * float(max(abs(ra), abs(rb)))
                obs.check(ok, 'wrong-' + name, '{!r} {} {!r} = {!r}'.format(a, name, b, r))
                obs.check(r.unit == ua, 'wrong-{}-unit'.format(name), repr(r))
            else:
                obs.refuses(lambda: op(a, b), 'incompatible-units-accepted-' + name,
                            '{!r} {} {!r}'.format(a, name, b))
        with obs.subject('mul-raises'):
            r = a * b
        same(obs, r, ra * rb, ua + ub, 'wrong-mul', '{!r} * {!r}'.format(a, b))
        s = rng.choice([2, 3, 0.5, 10, 1000])
        with obs.subject('mul-raises'):
            same(obs, a * s, ra * Fraction(s), ua, 'wrong-scalar-mul', '{!r} * {}'.format(a, s))
            same(obs, a / s, ra / Fraction(s), ua, 'wrong-scalar-div', '{!r} / {}'.format(a, s))
        if rb != 0:
            with obs.subject('div-raises'):
                r = a / b
            same(obs, r, ra / rb, ua + '/' + ub, 'wrong-div', '{!r} / {!r}'.format(a, b))
            q = ra / rb
            if q < 10 ** 7 and Fraction(1, 10 ** 6) < q % 1 < 1 - Fraction(1, 10 ** 6):
                with obs.subject('floordiv-raises'):
                    r = a // b
                same(obs, r, Fraction(q.numerator // q.denominator), ua + '/' + ub,
                     'wrong-floordiv', '{!r} // {!r}'.format(a, b))
                if ua == ub:
                    with obs.subject('mod-raises'):
                        r = a % b
                    ok = abs(float(r) - float(ra % rb)) <= 1e-9 * float(ra + rb)
                    obs.check(ok, 'wrong-mod', '{!r} % {!r} = {!r}'.format(a, b, r))
        n = -1 if rng.random() < .5 else 1
        with obs.subject('abs-raises'):
            same(obs, abs(a * n), ra, ua, 'wrong-abs', 'abs({!r})'.format(a * n))
        # comparison: only clearly different or bit-identical values
        if abs(ra - rb) > Fraction(1, 10 ** 9) * max(ra, rb):
            obs.check((a < b) == (ra < rb) and (a > b) == (ra > rb) and (a <= b) == (ra < rb) and
                      (a >= b) == (ra > rb) and (a != b) and not (a == b), 'wrong-comparison',
                      '{!r} vs {!r}'.format(a, b))
        obs.check(a == a and a <= a and a >= a and not (a < a) and not (a != a),
                  'not-reflexive', repr(a))
        obs.check((repr(a), repr(b)) == keep, 'operand-altered')

    def printing(rng, obs):
        a, ra, ua = quantity(rng, obs)
        if rng.random() < .15:
            a, ra = a * -1, -ra
        if rng.random() < .03:
            with obs.subject():
                a = PrefixedUnit(float('inf'), ua)if ua else PrefixedUnit(float('inf'), '', '')
            ra = None
        with obs.subject('print-raises'):
            s = str(a)
        obs.describe(quantity=repr(a), printed=s)
        # reading what was printed
        if ua == '' or ua[0] in SI:
            # "5.00 Mops" may be read as mega-ops: ambiguous text, only the sum is checkable
            obs.event('ambiguous')
        else:
            with obs.subject('parse-of-printed-raises'):
                b = PrefixedUnit(s)
            if ra is None:
                obs.check(float(b) == float('inf') and b.unit == ua, 'print-parse', s)
            else:
                err = abs(float(b) - float(ra))
                obs.check(err <= .0101 * abs(float(ra)) or err <= .00501, 'print-parse',
                          '{!r} printed {!r} reads {!r}'.format(a, s, b))
                obs.check(b.unit == ua, 'print-parse-unit', '{!r} -> {!r}'.format(s, b))
                if not s.split(' ')[1].startswith(a.prefix + ua):
                    obs.distinct(s)
        if ra is not None:
            with obs.subject('reduced-raises'):
                same(obs, a.reduced(), ra, ua, 'wrong-reduced', repr(a))
                g = a.good_prefix()
            same(obs, a.with_prefix(g), ra, ua, 'wrong-with-prefix', repr(a))
            obs.check(g in SI, 'unknown-prefix')
            if ra > 0 and g != '':
                with obs.subject():
                    v = a.with_prefix(g).value
                obs.check(v >= .89, 'prefix-too-large', '{!r}: {}'.format(a, g))
            mx = rng.choice([p for p in SI if p])
            with obs.subject():
                g2 = a.good_prefix(max_prefix=mx)
            obs.check(SI[g2] <= SI[mx], 'max-prefix-exceeded', '{} > {}'.format(g2, mx))
            if abs(ra) >= 1 and ra > 0:
                with obs.subject():
                    i = int(a)
                obs.check(close(i, int(ra), 1e-9) or abs(i - int(ra)) <= 1, 'wrong-int')

    def chain(rng, obs):
        """A sequence of operations keeps the value a plain float computation has."""
        q, r, u = quantity(rng, obs, unit='B')
        log = [repr(q)]
        for _ in range(rng.randint(3, 12)):
            o = rng.choice(['+', '*', '/', 'with', 'reduced', 'max', 'sum'])
            with obs.subject('chain-raises'):
                if o == '+':
                    b, rb, _ = quantity(rng, obs, unit='B')
                    q, r = q + b, r + rb
                elif o in '*/':
                    k = rng.choice([2, 8, 1000, 0.25])
                    q, r = (q * k, r * Fraction(k)) if o == '*' else (q / k, r / Fraction(k))
                elif o == 'with':
                    q = q.with_prefix(rng.choice(list(SI)))
                elif o == 'reduced':
                    q = q.reduced()
                elif o == 'max':
                    b, rb, _ = quantity(rng, obs, unit='B')
                    q, r = max(q, b), max(r, rb)
            log.append(o)
        obs.distinct(tuple(log))
        obs.describe(chain=log)
        obs.check(close(float(q), float(r), 1e-8) and q.unit == 'B', 'chain-wrong',
                  '{} = {!r}, expected {}'.format(log, q, float(r)))

    def refusal(rng, obs):
        bad = rng.choice(['', 'B', '12B', '1.2.3 B', 'x GB/s', '-', 'GB/s 3', '0x10 B', '1,5 GB'])
        obs.refuses(lambda: PrefixedUnit(bad), 'malformed-accepted', bad)
        obs.refuses(lambda: PrefixedUnit(1.0, 'x', 'B'), 'unknown-prefix-accepted')
        obs.distinct(bad)

    ck.cases('prefix-table', len(SI), prefixes)
    ck.cases('arithmetic', ck.pick(6000, 60000), arithmetic, share=.5)
    ck.cases('printing', ck.pick(6000, 60000), printing, share=.6)
    ck.cases('chains', ck.pick(2000, 20000), chain)
    ck.cases('refusals', 40, refusal)
    ck.require('quantities observed', 1000)
