"""C13: interval sets against the set of integers they denote (reference-model monitor)."""
import copy
import itertools

LEVEL = 'exploration'
RULE = ('Sequences of interval-set constructions and unions: every multiset of up to 4 intervals '
        'over a small domain (thorough: larger) plus random ones; a case is non-trivial when at '
        'least two of its intervals overlap or touch.')
ASSUMPTIONS = ['Intervals are half-open integer ranges [lower, upper) given as two-element lists.']
BUDGET = {'quick': 150, 'thorough': 700}


def covered(ivs):
    s = set()
    for a, b in ivs:
        s.update(range(a, b))
    return s


def observe(obs, iv, ref, lo, hi, what):
    """Compare everything observable of an interval set with the set of integers *ref*."""
    obs.check(len(iv) == len(ref), 'wrong-length', 'len {} != {} for {}'.format(
        len(iv), len(ref), what))
    got = {x for x in range(lo - 2, hi + 3) if x in iv}
    obs.check(got == ref, 'wrong-membership', '{} vs {} for {}'.format(
        sorted(got), sorted(ref), what))
    data = [list(d) for d in iv.data]
    obs.check(all(a[1] < b[0] or a[1] <= b[0] for a, b in zip(data, data[1:])) and
              all(d[0] < d[1] for d in data), 'not-disjoint-ordered', '{} from {}'.format(
                  data, what))
    obs.event('interval sets observed')


def case_build(ivs, Intervals, obs):
    given = [list(d) for d in ivs]
    keep = copy.deepcopy(given)
    with obs.subject():
        a = Intervals(*given)
    ref = covered(ivs)
    pts = [x for d in ivs for x in d] or [0]
    lo, hi = min(pts), max(pts)
    observe(obs, a, ref, lo, hi, ivs)
    obs.check(given == keep, 'caller-data-altered', '{} became {}'.format(keep, given))
    return a, ref


def overlapping(ivs):
    return any(max(a[0], b[0]) <= min(a[1], b[1]) and a[0] < a[1] and b[0] < b[1]
               for a, b in itertools.combinations(ivs, 2))


def run(ck):
    from kerncraft.intervals import Intervals

    dom = ck.pick(5, 6)
    all_iv = [(a, b) for a in range(dom) for b in range(dom + 1) if a != b or a == 0]
    firsts = list(range(len(all_iv)))

    def exhaustive(rng, obs):
        """All sequences of up to 3 intervals beginning with all_iv[index]."""
        obs.evals = 0
        f = all_iv[obs.index]
        n = 0
        for k in (0, 1, 2):
            for rest in itertools.product(all_iv, repeat=k):
                ivs = (f,) + rest
                case_build(ivs, Intervals, obs)
                n += 1
                if overlapping(ivs):
                    obs.distinct(ivs)
        obs.evals = n
        obs.describe(intervals=[list(f), list(all_iv[-1])])

    ck.cases('exhaustive-small', firsts, exhaustive, share=.6)

    def history(rng, obs):
        """A history of constructions and unions over live objects."""
        live = []
        obs.evals = 0
        steps = []
        base = rng.choice([0, -10, 1000])
        for _ in range(rng.randint(4, 25)):
            if len(live) < 2 or rng.random() < .45:
                n = rng.choice([0, 1, 2, 3, 5, 8, 13])
                ivs = []
                for _ in range(n):
                    a = base + rng.randint(0, 30)
                    ivs.append((a, a + rng.choice([0, 1, 1, 2, 3, 8, 20, -3])))
                if rng.random() < .3 and ivs:
                    # one long interval covering many short ones
                    ivs.insert(rng.randrange(len(ivs)), (base, base + 31))
                obj, ref = case_build(ivs, Intervals, obs)
                steps.append(ivs)
                if overlapping(ivs):
                    obs.distinct(tuple(ivs))
            else:
                x, y = rng.choice(live), rng.choice(live)
                with obs.subject():
                    obj = x[0] & y[0]
                ref = x[1] | y[1]
                observe(obs, obj, ref, base - 5, base + 60, 'union')
                steps.append('union')
                obs.event('unions')
            obs.evals += 1
            live.append((obj, ref))
            # every live object still denotes what it denoted
            for o, r in live:
                ok = len(o) == len(r) and {z for z in range(base - 5, base + 60) if z in o} == r
                if not obs.check(ok, 'operand-altered', 'a live object changed to {}'.format(
                        [list(d) for d in o.data]), history=steps):
                    return
            o1, o2 = rng.choice(live), rng.choice(live)
            obs.check((o1[0] == o2[0]) == (o1[1] == o2[1]), 'wrong-equality',
                      '{} == {}'.format(o1[0].data, o2[0].data))
        obs.describe(history=[str(s) for s in steps[:6]])

    ck.cases('histories', ck.pick(3000, 40000), history)
    ck.require('interval sets observed', 1000)
    ck.require('unions', 100)
