"""C07: layer conditions against a numerical evaluation of the reuse distances."""
import contextlib
import io
import os
import re
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import kernels, machines, util
from kcmon.gen.kernels import Loop, Ref, Spec, Stmt
from kcmon.gen.poly import Ex, Poly

LEVEL = 'exploration'
RULE = ('Stencils and streaming kernels with known accesses are analysed by the layer condition '
        'predictor (bound and symbolic) and the LC model, on generated cache hierarchies and core '
        'counts. For many problem sizes, most of them searched for around the capacity of a cache, '
        'hits, misses and evicts of every level have to be those of a numerical evaluation: '
        'the reuse distances of each array in bytes, the largest tail whose requirement fits the '
        'capacity. Symbolic conditions (as returned and as printed) are evaluated at these sizes '
        'and have to select the same prediction, hence change exactly where it changes. '
        'Monotonicity is judged over levels and over enlarged caches. Non-trivial: some access '
        'hits and some misses.')
ASSUMPTIONS = ['Hits and misses are judged at problem sizes at which the order of the reuse '
               'distances is the one of their leading powers (all symbols alike), as the '
               'predictor documents; elsewhere only monotonicity and totals.',
               'Arrays never indexed by the innermost loop counter are not part of the analysis.',
               'Kernels the predictor refuses are outside of the property (plain stencils on '
               'arrays with one constant per dimension must be accepted).',
               'Evicts are the distinct store references, none if everything fits.']


def stencil(rng):
    """A kernel within the domain of layer conditions, all sizes symbolic."""
    depth = rng.choice([1, 2, 2, 2, 3, 3])
    names = {1: ['i'], 2: ['j', 'i'], 3: ['k', 'j', 'i']}[depth]
    r = rng.random()
    if r < .45:
        consts = ['N'] * depth
    elif r < .8:
        consts = ['L', 'M', 'N'][-depth:]
    else:
        consts = rng.choice([['M', 'N', 'N'], ['N', 'M', 'N'], ['N', 'N', 'M']])[-depth:]
    rad = [rng.choice([0, 1, 1, 2, 3]) for _ in range(depth)]
    loops = []
    for d in range(depth):
        lo = rad[d] + (rng.choice([0, 1]) if rng.random() < .2 else 0)
        loops.append(Loop(names[d], Ex.num(lo), Ex.var(consts[d]).plus(-rad[d]), 1))
    arrays, roles = {}, {}
    for n in rng.sample(['a', 'b', 'c', 'u', 'v', 'W', 'X'], rng.randint(1, 4)):
        k = depth if rng.random() < .75 else rng.randint(1, depth)
        extra = rng.choice([None] * 5 + [2, 3]) if k == depth else None
        roles[n] = (k, extra)
        dims = [Ex.var(c) for c in consts[depth - k:]]
        if rng.random() < .15:
            dims[-1] = dims[-1].plus(rng.choice([1, 2, 3, 5, 7]))
        if extra:
            dims = [Ex.num(extra)] + dims
        arrays[n] = dims

    def ref(n, centre=False):
        k, extra = roles[n]
        idx = []
        for d in range(depth - k, depth):
            o = 0 if centre or rng.random() < .45 else rng.randint(-rad[d], rad[d])
            idx.append(Ex.var(names[d]).plus(o))
        if extra:
            idx = [Ex.num(rng.randrange(extra))] + idx
        return Ref(n, idx)

    def star(n):
        out = [ref(n, True)]
        k, extra = roles[n]
        for d in range(depth - k, depth):
            for o in range(-rad[d], rad[d] + 1):
                if o and rng.random() < .9:
                    idx = [Ex.var(names[e]).plus(o if e == d else 0)
                           for e in range(depth - k, depth)]
                    out.append(Ref(n, ([Ex.num(rng.randrange(extra))] if extra else []) + idx))
        return out
    scal = ['s'] if rng.random() < .4 else []
    stmts = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        dest = rng.choice(sorted(arrays))
        refs = []
        for n in rng.sample(sorted(arrays), rng.randint(1, len(arrays))):
            refs += star(n) if rng.random() < .4 else [ref(n) for _ in range(rng.randint(1, 3))]
        t = ('ref', refs[0])
        for x in refs[1:]:
            t = ('bin', rng.choice('++-*'), t, ('ref', x))
        if scal:
            t = ('bin', '*', t, ('ref', Ref('s', None)))
        if scal and rng.random() < .1:
            stmts.append(Stmt(Ref('s', None), '+=', t))
        else:
            stmts.append(Stmt(ref(dest, rng.random() < .8), rng.choice(['=', '=', '=', '+=']), t))
    if all(s.lhs.idx is None for s in stmts):
        stmts.append(Stmt(ref(sorted(arrays)[0], True), '=', ('num', '1.0')))
    env = {c: 20 for c in consts}
    return Spec(rng.choice(['double', 'double', 'float', 'double _Complex']), loops, arrays, scal,
                stmts, env)


def merged(p):
    """Sort key of a polynomial with all symbols alike: coefficients from the highest power."""
    d = {}
    for m, c in p.t.items():
        d[len(m)] = d.get(len(m), 0) + c
    d = {k: v for k, v in d.items() if v}
    if not d or max(d) == 0:
        return (abs(d.get(0, 0)),)
    return tuple(d.get(k, 0) for k in range(max(d), -1, -1))


def keylt(a, b):
    n = max(len(a), len(b))
    return (0,) * (n - len(a)) + a < (0,) * (n - len(b)) + b


class Reuse:
    """Reuse distances of a Spec: polynomials, one None (infinite) per array."""

    def __init__(self, spec):
        self.spec = spec
        self.inner = spec.loops[-1].var
        reads, dest = spec.distinct(spec.reads()), spec.distinct(spec.writes())
        acc = {n: list(reads.get(n, ())) + list(dest.get(n, ())) for n in spec.arrays}
        self.arrays = {}
        self.evicts = 0
        for n in spec.arrays:
            polys = [spec.flat(n, a) for a in acc.get(n, ())]
            if not any(self.inner in p.vars() for p in polys):
                continue
            self.arrays[n] = polys
            self.evicts += len(dest.get(n, ()))

    def at(self, env, spec):
        """(finite distances in bytes, number of infinite ones, order agrees with powers)."""
        finite, keys, infinite = [], [], 0
        big = {v: 10 ** 6 + 7 * i for i, v in enumerate(l.var for l in spec.loops)}
        big.update(env)
        agree = True
        for n, polys in self.arrays.items():
            order = sorted(polys, key=lambda p: p(big), reverse=True)
            for p, q in zip(order, order[1:]):
                d = p - q
                if d.vars() & {l.var for l in spec.loops}:
                    raise Skip('distance depends on loop counters')
                v = d(env)
                if v < 0:
                    raise Skip('order of accesses changes')
                finite.append(v * spec.esize)
                keys.append(merged(d))
            infinite += 1
        for i in range(len(finite)):
            for j in range(i):
                if (finite[i] < finite[j]) != keylt(keys[i], keys[j]) or \
                        (finite[i] == finite[j]) != (not keylt(keys[i], keys[j]) and
                                                     not keylt(keys[j], keys[i])):
                    agree = False
        return sorted(finite), infinite, agree

    def total_bytes(self, env):
        r = 0
        for dims in self.spec.arrays.values():
            n = 1
            for d in dims:
                n *= d.poly(env)
            r += n * self.spec.esize
        return r

    def evaluate(self, env, size, scalar_bytes=0):
        """(hits, misses, evicts, agree) in a cache of *size* bytes."""
        finite, infinite, agree = self.at(env, self.spec)
        n = len(finite) + infinite
        if size > self.total_bytes(env):
            return n, 0, 0, agree
        for t in sorted(set(finite), reverse=True):
            need = sum(d for d in finite if d <= t)
            need += t * (n - sum(1 for d in finite if d <= t))
            if need <= size:
                h = sum(1 for d in finite if d <= t)
                return h, n - h, self.evicts, agree
        return 0, n, self.evicts, agree

    def requirements(self, env):
        """Byte sizes at which the prediction changes."""
        finite, infinite, agree = self.at(env, self.spec)
        n = len(finite) + infinite
        r = [self.total_bytes(env)]
        for t in sorted(set(finite)):
            r.append(sum(d for d in finite if d <= t) +
                     t * (n - sum(1 for d in finite if d <= t)))
        return r


def sizes(rng, reuse, caches, spec):
    """Bindings around the transitions of any of the caches."""
    names = sorted(spec.env)
    out = []
    lim = 3 * 10 ** 6
    for _ in range(3):
        base = {n: rng.choice([8, 30, 100, 400]) for n in names}
        if rng.random() < .5:
            base = {n: 11 for n in names}
        var = names if rng.random() < .5 else [rng.choice(names)]
        size = rng.choice(caches)
        try:
            k = rng.randrange(len(reuse.requirements(base)))
        except Skip:
            continue

        def need(v):
            e = dict(base)
            e.update({n: v for n in var})
            r = reuse.requirements(e)
            return r[k] if k < len(r) else None
        lo, hi = 9, lim
        try:
            if need(lo) is None or need(lo) > size:
                hi = lo
            while hi - lo > 1:
                mid = (lo + hi) // 2
                v = need(mid)
                if v is None:
                    break
                if v <= size:
                    lo = mid
                else:
                    hi = mid
        except Skip:
            continue
        for d in (-2, -1, 0, 1, 2):
            e = dict(base)
            e.update({n: max(9, lo + d) for n in var})
            out.append(e)
    for _ in range(3):
        v = int(10 ** rng.uniform(1, 4.5))
        out.append({n: v for n in names} if rng.random() < .5 else
                   {n: max(9, int(10 ** rng.uniform(1, 4))) for n in names})
    return out


def run(ck):
    from kerncraft.cacheprediction import LayerConditionPredictor
    from kerncraft import models
    import sympy

    def machine(rng):
        data = machines.generated(rng)
        scale = rng.choice([1, 1, 4, 16])
        for i, c in enumerate(data['memory hierarchy'][:-1]):
            c['cache per group']['replacement_policy'] = 'LRU'
            c['cache per group']['sets'] = max(data['cores per socket'],
                                               c['cache per group']['sets'] * 4 // scale)
        return data

    def cache_sizes(data, cores):
        r = []
        for c in data['memory hierarchy'][:-1]:
            i = c['cache per group']
            s = i['sets']
            if c['cores per group'] > 1:
                s //= int(min(cores, c['cores per group'], data['cores per NUMA domain']))
            r.append(s * i['ways'] * int(float(i['cl_size'])))
        return r

    def holds(cond, env):
        if cond is True or cond is False:
            return cond
        r = cond.subs({s: env[s.name] for s in cond.free_symbols})
        if r == True:  # noqa (sympy)
            return True
        if r == False:  # noqa
            return False
        raise TypeError('undecided condition {}'.format(r))

    def check_bound(obs, pred, reuse, env, csizes, text):
        hits, misses = pred.get_hits(), pred.get_misses()
        evicts, loads, stores = pred.get_evicts(), pred.get_loads(), pred.get_stores()
        n = len(csizes)
        if not obs.check(all(len(x) == n + 1 for x in (hits, misses, evicts, loads, stores)),
                         'wrong-number-of-levels', text):
            return None
        inner = False
        for lv, size in enumerate(csizes):
            h, m, e, agree = reuse.evaluate(env, size)
            obs.check(hits[lv] + misses[lv] == h + m, 'accesses-lost',
                      '{} {}: {}+{} of {}'.format(text, env, hits[lv], misses[lv], h + m))
            if agree:
                obs.check((hits[lv], misses[lv], evicts[lv]) == (h, m, e), 'not-the-reuse-distances',
                          '{} {} cache {} B: hits, misses, evicts {} instead of {}'.format(
                              text, env, size, (hits[lv], misses[lv], evicts[lv]), (h, m, e)))
                obs.event('predictions judged')
                inner |= bool(h and m)
            else:
                obs.event('other order of distances')
            obs.check(loads[lv + 1] == misses[lv] and stores[lv + 1] == evicts[lv],
                      'transfers-are-not-misses-and-evicts', '{} {} {} {}'.format(
                          loads, misses, stores, evicts))
        obs.check(misses[n] == 0 and evicts[n] == 0 and hits[n] == misses[n - 1],
                  'memory-does-not-hit', '{} {} {}'.format(hits, misses, evicts))
        for lv in range(1, n):
            if csizes[lv] >= csizes[lv - 1]:
                obs.check(misses[lv] <= misses[lv - 1], 'misses-grow-with-cache-size',
                          '{} {} caches {}: {}'.format(text, env, csizes, misses))
        return inner

    def check_options(obs, options, reuse, env, size, text, via):
        """Symbolic options of one cache, evaluated at one size."""
        for o in options:
            with obs.subject('condition-undecidable-' + via):
                ok = holds(o['condition'], env)
            if ok:
                break
        else:
            obs.violate('no-condition-holds', '{} {}'.format(text, env), {})
            return
        h, m, e, agree = reuse.evaluate(env, size)
        if agree:
            got = (o['hits'], o['misses']) + ((o['evicts'],) if 'evicts' in o else ())
            obs.check(got == (h, m, e)[:len(got)], 'transition-elsewhere-' + via,
                      '{} {} cache {} B: {} selects {}, reuse distances give {}'.format(
                          text, env, size, o['condition'], got, (h, m, e)))
            obs.event('conditions evaluated')

    def build(obs, s, rng, m, env=None):
        from kerncraft.kernel import KernelDescription
        if rng.random() < .25:
            with quiet():
                k = KernelDescription(util.description(s, rng), machine=m)
            if env:
                util.bind(k, env)
            return k
        return util.code_kernel(s, m, rng, env=env, bound=env is not None)

    def one(rng, obs, s, plain):
        data = machine(rng)
        cores = rng.choice([1, 1, 2, 3, data['cores per socket']])
        m = machines.model(data)
        csizes = cache_sizes(data, cores)
        reuse = Reuse(s)
        if not reuse.arrays:
            raise Skip('nothing to analyse')
        text = s.source()
        with scratch():
            k = build(obs, s, rng, m, None)
            if s.env == {}:
                raise Skip('no constants')
            try:
                with quiet():
                    sym = LayerConditionPredictor(k, m, cores=cores, symbolic=True)
            except (ValueError, TypeError) as e:
                if plain:
                    obs.violate('plain-stencil-refused', '{}: {}: {}'.format(
                        text, type(e).__name__, e), {})
                obs.event('refused')
                raise Skip('refused')
            obs.check(len(sym.results['cache']) == len(csizes), 'wrong-number-of-levels', text)
            bindings = [e for e in sizes(rng, reuse, csizes, s) if s.in_bounds(e)]
            nontrivial = False
            for n, env in enumerate(bindings):
                for lv, size in enumerate(csizes):
                    check_options(obs, sym.results['cache'][lv], reuse, env, size, text,
                                  'symbolic')
                obs.evals += 1
            for env in rng.sample(bindings, min(len(bindings), ck.pick(3, 5))):
                k2 = build(obs, s, rng, m, env)
                with obs.subject('bound-prediction-fails'), quiet():
                    p = LayerConditionPredictor(k2, m, cores=cores)
                nontrivial |= bool(check_bound(obs, p, reuse, env, csizes, text))
                base = p.get_misses()
                # a larger cache never misses more
                if rng.random() < .5:
                    d2 = dict(data)
                    d2['memory hierarchy'] = [dict(c) for c in data['memory hierarchy']]
                    lv = rng.randrange(len(csizes))
                    c = d2['memory hierarchy'][lv]
                    c['cache per group'] = dict(c['cache per group'],
                                                ways=c['cache per group']['ways'] *
                                                rng.choice([2, 3, 16]))
                    m2 = machines.model(d2)
                    with obs.subject('bound-prediction-fails'), quiet():
                        p2 = LayerConditionPredictor(build(obs, s, rng, m2, env), m2, cores=cores)
                    obs.check(p2.get_misses()[lv] <= base[lv], 'larger-cache-misses-more',
                              '{} {}: {} then {}'.format(text, env, base, p2.get_misses()))
                    obs.event('enlarged caches')
            # the model and its report
            if rng.random() < ck.pick(.5, .3):
                from kcmon.checks.c23 import Args
                with obs.subject('LC-model-raises'), quiet():
                    mod = models.LC(build(obs, s, rng, m, None), m, Args(cores=cores))
                    mod.analyze()
                out, std = io.StringIO(), io.StringIO()
                with obs.subject('LC-report-raises'), contextlib.redirect_stdout(std):
                    mod.report(output_file=out)
                text_out = out.getvalue()
                blocks = re.split(r'^Layer conditions for ', text_out, flags=re.M)[1:]
                names = [c['level'] for c in data['memory hierarchy'][:-1]]
                if obs.check(len(blocks) == len(csizes), 'report-incomplete',
                             'to the file: {!r}, to stdout: {!r}'.format(
                                 text_out[:200], std.getvalue()[:200])):
                    for lv, b in enumerate(blocks):
                        lines = b.strip('\n').split('\n')
                        obs.check(lines[0].startswith(names[lv]) and
                                  re.search(r'\b{}\b'.format(csizes[lv] // 1024), lines[0]),
                                  'report-other-cache', '{} {}'.format(lines[0], csizes))
                        opts = []
                        for l in lines[2:]:
                            g = re.match(r'^\s*(.*\S)\s+(\d+)\s+(\d+)\s*$', l)
                            if not g:
                                continue
                            cond = sympy.sympify(g.group(1), locals={
                                n: sympy.Symbol(n) for n in s.env})
                            opts.append({'condition': cond, 'misses': int(g.group(2)),
                                         'hits': int(g.group(3))})
                        for env in rng.sample(bindings, min(len(bindings), 6)):
                            check_options(obs, opts, reuse, env, csizes[lv], text + str(cores),
                                          'reported')
                    obs.event('reports judged')
        if nontrivial:
            obs.distinct((text, tuple(csizes)))
        obs.describe(kernel=text, caches=csizes, cores=cores)

    def stencils(rng, obs):
        s = stencil(rng)
        plain = all(len(d.poly.t) == 1 for dims in s.arrays.values() for d in dims) and \
            all(any(d.poly.vars() for d in dims[:1]) for dims in s.arrays.values())
        one(rng, obs, s, plain)

    def arbitrary(rng, obs):
        s = kernels.generate(rng, kernels.Options(
            max_depth=3, steps=(1,), flat=rng.random() < .2, mixed=rng.random() < .3,
            scaled=rng.random() < .2, const_idx=rng.random() < .3, numeric_dims=False))
        one(rng, obs, s, False)

    ck.cases('stencils', ck.pick(120, 4000), stencils, share=.7)
    ck.cases('arbitrary', ck.pick(80, 2500), arbitrary)
    ck.require('predictions judged', 300)
    ck.require('conditions evaluated', 1500)
    ck.require('reports judged', 20)
