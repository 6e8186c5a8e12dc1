"""C01: iteration numbering and address trace against direct execution of the loop nest."""
from kcmon.core import Skip, quiet
from kcmon.gen import kernels as G
from kcmon.gen import util as U

LEVEL = 'exploration'
RULE = ('Random in-bounds kernels (1-4 loops, unit and larger steps, nonzero starts, symbolic and '
        'numeric bounds, shifted, scaled, mixed, flattened and loop-invariant accesses, four '
        'datatypes, cacheline sizes 32-256, array spacings) from C source and from YAML '
        'descriptions; the reference executes the nest. Non-trivial: at least 2 arrays or 2 loops '
        'or a non-unit step.')
ASSUMPTIONS = ['Loop bounds of generated kernels are affine in the constants and no loop is empty.',
               'Accesses to scalars and to elements no loop counter moves are left out of the '
               'trace, as documented; duplicates of one access count once.']


def run(ck):
    from kerncraft.kernel import KernelDescription

    def make(rng, obs, spec, cl, env=None):
        machine = U.machine_stub(cl) if cl else None
        if rng.random() < .7:
            with obs.subject('front-end-raises'), quiet():
                k = U.code_kernel(spec, machine, rng, env=env)
            obs.event('from C source')
        else:
            with obs.subject('front-end-raises'), quiet():
                k = KernelDescription(U.description(spec, rng), machine=machine)
                U.bind(k, env or spec.env)
            obs.event('from YAML description')
        return k

    def numbering(obs, spec, k, its, env):
        total = spec.total(env)
        with obs.subject('numbering-raises'):
            obs.check(int(k.iteration_length()) == total, 'wrong-iteration-length',
                      '{} != {}'.format(k.iteration_length(), total), source=spec.source())
            for d, ln in enumerate(spec.lengths(env)):
                obs.check(int(k.iteration_length(d)) == ln, 'wrong-loop-length',
                          'loop {}: {} != {}'.format(d, k.iteration_length(d), ln))
            last = k.max_global_iteration()
            obs.check(int(last) == total - 1, 'wrong-last-iteration', '{} != {}'.format(
                last, total - 1), source=spec.source(), env=env)
        for n in its:
            ref = spec.indices(n, env)
            with obs.subject('numbering-raises'):
                got = {s.name: int(v) for s, v in k.global_iterator_to_indices(n).items()}
                obs.check(got == ref, 'wrong-indices', 'iteration {}: {} != {}'.format(
                    n, got, ref), source=spec.source(), env=env)
                back = int(k.indices_to_global_iterator({U.sym(v): i for v, i in ref.items()}))
                obs.check(back == n, 'wrong-iteration-number', '{}: {} != {}'.format(
                    ref, back, n), source=spec.source(), env=env)
            obs.event('iterations numbered')

    def compare(obs, spec, k, its, arg, env, spacing, cl):
        with obs.subject('trace-raises'):
            got = U.trace_rows(k.compile_global_offsets(iteration=arg, spacing=spacing)
                               if spacing is not None
                               else k.compile_global_offsets(iteration=arg))
        ref = U.ref_rows(spec, its, env, spacing or 0, cl or 64)
        ref = [(r[0], r[1]) for r in ref]
        obs.event('trace rows compared', len(ref))
        if got != ref:
            bad = [i for i, (g, r) in enumerate(zip(got, ref)) if g != r]
            obs.violate('wrong-trace', '{} rows for {} iterations; first difference at iteration '
                        '{}'.format(len(got), len(ref), its[bad[0]] if bad else None),
                        got=got[bad[0]] if bad else len(got), expected=ref[bad[0]] if bad else 0,
                        source=spec.source(), env=env, spacing=spacing, cacheline=cl)
        obs.event('verdicts')

    def small(rng, obs):
        spec = G.generate(rng)
        cl = rng.choice([None, 32, 64, 64, 128, 256])
        env = spec.env
        k = make(rng, obs, spec, cl)
        total = spec.total()
        nest = list(spec.nest())
        assert nest == [spec.indices(n) for n in range(total)] and len(nest) == total
        if len(spec.loops) > 1 or len(spec.arrays) > 1 or any(l.step > 1 for l in spec.loops):
            obs.distinct(spec.source())
        obs.describe(source=spec.source(), constants=env, cacheline=cl)
        obs.event('non-unit steps', sum(l.step > 1 for l in spec.loops))
        its = sorted({0, total - 1, *[rng.randrange(total) for _ in range(4)]})
        numbering(obs, spec, k, its, env)
        if not any(spec.trace_columns()):
            raise Skip('no moving access')
        spacing = rng.choice([None, 0, 0, 8, 100, 4096])
        compare(obs, spec, k, list(range(total)), range(0, total), env, spacing, cl)
        a = rng.randrange(total)
        b = rng.randint(a + 1, total)
        st = rng.choice([1, 1, 2, 3])
        compare(obs, spec, k, list(range(a, b, st)), range(a, b, st), env,
                rng.choice([0, spacing]), cl)
        n = rng.randrange(total)
        compare(obs, spec, k, [n], n, env, None, cl)
        lst = [rng.randrange(total) for _ in range(3)]
        compare(obs, spec, k, lst, lst, env, 0, cl)
        obs.refuses(lambda: k.compile_global_offsets(iteration=range(total - 1, total + 1)),
                    'beyond-last-iteration-accepted', source=spec.source())
        # sizes of the arrays the layout is built from
        with obs.subject():
            sizes = {n_: int(v) for n_, v in k.array_sizes(in_bytes=True, subs_consts=True).items()}
            elems = {n_: int(v) for n_, v in k.array_sizes(subs_consts=True).items()}
        from functools import reduce
        for n_, dims in spec.arrays.items():
            e = reduce(lambda x, y: x * y, [d.poly(env) for d in dims], 1)
            obs.check(elems.get(n_) == e and sizes.get(n_) == e * spec.esize, 'wrong-array-size',
                      '{}: {} elements, {} bytes, expected {} of {}'.format(
                          n_, elems.get(n_), sizes.get(n_), e, spec.esize))
        obs.check(set(sizes) == set(spec.arrays), 'wrong-arrays', str(sizes))

    def large(rng, obs):
        """Realistic problem sizes, sampled iterations (arithmetic must not lose precision)."""
        spec = G.generate(rng, G.Options(numeric_dims=False))
        f = rng.choice([7, 100, 1013, 10 ** 4, 10 ** 5])
        env = {c: v * f + rng.randint(0, 5) for c, v in spec.env.items()}
        if any(l.length(env) < 1 for l in spec.loops):
            raise Skip('empty loop')
        total = spec.total(env)
        if total > 2 ** 60 or max(spec.bases(env).values()) > 2 ** 60 or any(
                spec.flat(n, [d.poly for d in ds])(env) * spec.esize > 2 ** 60
                for n, ds in spec.arrays.items()):
            raise Skip('beyond 64 bit addresses')
        cl = rng.choice([None, 64, 128])
        k = make(rng, obs, spec, cl, env)
        its = sorted({0, total - 1, *[rng.randrange(total) for _ in range(6)]})
        ln = spec.lengths(env)[-1]
        its = sorted(set(its) | {min(total - 1, ln * (rng.randrange(max(1, total // ln))) + d)
                                 for d in (0, ln - 1)})
        obs.describe(source=spec.source(), constants=env, iterations=total)
        obs.distinct((spec.source(), str(env)))
        numbering(obs, spec, k, its, env)
        if any(spec.trace_columns()):
            compare(obs, spec, k, its, its, env, rng.choice([0, 64]), cl)

    ck.cases('small-exhaustive-range', ck.pick(700, 12000), small, share=.7)
    ck.cases('large-sampled', ck.pick(300, 5000), large)
    ck.require('trace rows compared', 5000)
    ck.require('iterations numbered', 500)
    ck.require('non-unit steps', 50)
