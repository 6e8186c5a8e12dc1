"""C02: what the front end extracts against what the generator wrote (differential monitor)."""
from kcmon.core import Skip, quiet
from kcmon.gen import kernels as G
from kcmon.gen import util as U
from kcmon.gen.poly import Poly

LEVEL = 'exploration'
RULE = ('Random kernels over the whole supported language rendered twice with different layout '
        '(line breaks, // comments, pragmas, braces, redundant parentheses, declaration order); '
        'every extracted field is compared with the generator\'s own record, and the YAML '
        'description of the same kernel must give the same analysis. Non-trivial: more than one '
        'statement, array or loop.')
ASSUMPTIONS = ['Unary minus counts as one operation "-"; compound assignment reads its target and '
               'counts its operator; equal accesses are one access.']


def accesses(d):
    return {n: {None if a is None else tuple(U.poly_of(e) for e in a) for a in accs}
            for n, accs in d.items() if accs}


def run(ck):
    from kerncraft.kernel import KernelDescription

    def extracted(obs, spec, k, what, source, scalars=True):
        def cmp(key, got, want):
            obs.check(got == want, key, '{}: got {}, expected {}'.format(what, got, want),
                      source=source)
        with obs.subject('query-raises'):
            src, dst = accesses(k.sources), accesses(k.destinations)
            loops = [(str(l['index']), U.poly_of(l['start']), U.poly_of(l['stop']),
                      U.poly_of(l['increment'])) for l in k.get_loop_stack()]
            bound = [(str(l['index']), int(l['start']), int(l['stop']), int(l['increment']))
                     for l in k.get_loop_stack(subs_consts=True)]
            var = {n: (tuple(t), None if s is None else tuple(U.poly_of(x) for x in s))
                   for n, (t, s) in k.variables.items()}
            flops = U.flops_of(k)
            bpi = int(k.bytes_per_iteration)
        want_src, want_dst = spec.distinct(spec.reads()), spec.distinct(spec.writes())
        want_var = {n: (tuple(spec.dtype.split()), tuple(d.poly for d in ds))
                    for n, ds in spec.arrays.items()}
        if scalars:
            want_var.update({n: (tuple(spec.dtype.split()), None) for n in spec.scalars})
        else:
            want_src = {n: a for n, a in want_src.items() if n in spec.arrays}
            want_dst = {n: a for n, a in want_dst.items() if n in spec.arrays}
        cmp('wrong-reads', src, want_src)
        cmp('wrong-writes', dst, want_dst)
        cmp('wrong-loops', loops, [(l.var, l.start.poly, l.end.poly, Poly.const(l.step))
                                   for l in spec.loops])
        cmp('wrong-bound-loops', bound, [(l.var, l.start.poly(spec.env), l.end.poly(spec.env),
                                          l.step) for l in spec.loops])
        cmp('wrong-variables', var, want_var)
        cmp('wrong-datatype', tuple(k.datatype), tuple(spec.dtype.split()))
        cmp('wrong-flops', flops, spec.flops())
        cmp('wrong-bytes-per-iteration', bpi, spec.esize * spec.loops[-1].step)
        obs.event('kernels extracted')
        obs.event('accesses compared', sum(map(len, want_src.values())) +
                  sum(map(len, want_dst.values())))

    def case(rng, obs):
        spec = G.generate(rng, G.Options(max_stmts=4, max_depth=4))
        if rng.random() < .15 and len(spec.arrays) > 1:
            spec.swaps = [rng.sample(list(spec.arrays), 2)]
        if len(spec.stmts) + len(spec.arrays) + len(spec.loops) > 3:
            obs.distinct(spec.source())
        obs.evals = 3
        s1, s2 = spec.source(rng), spec.source(rng)
        obs.describe(source=s1, constants=spec.env)
        ks = []
        for s in (s1, s2):
            with obs.subject('front-end-raises'), quiet():
                k = U.code_kernel(spec, None, source=s)
            extracted(obs, spec, k, 'C source', s)
            ks.append(k)
        drop = rng.random() < .3 and all(s.lhs.idx is not None for s in spec.stmts)
        with obs.subject('description-raises'), quiet():
            d = KernelDescription(U.description(spec, rng, drop_scalars=drop))
            U.bind(d, spec.env)
        extracted(obs, spec, d, 'YAML description', s1, scalars=not drop)
        obs.event('descriptions compared')
        # derived queries agree between the two inputs
        total = spec.total()
        with obs.subject('query-raises'):
            for k in ks + [d]:
                obs.check(int(k.iteration_length()) == total, 'wrong-iteration-count',
                          '{} != {}'.format(k.iteration_length(), total), source=s1)
            t = [{n: sorted(map(str, (U.poly_of(e) for e in es)))
                  for n, es in k.compile_sympy_accesses(sources=a, destinations=b).items() if es}
                 for k in ks + [d] for a, b in ((True, False), (False, True), (True, True))]
        want = []
        for refs in ([spec.reads()], [spec.writes()], [spec.reads(), spec.writes()]):
            w = {}
            for rs in refs:
                for n, accs in spec.distinct(rs).items():
                    if n in spec.arrays:
                        w.setdefault(n, []).extend(str(spec.flat(n, a)) for a in accs)
            want.append({n: sorted(v) for n, v in w.items()})
        for i, got in enumerate(t):
            obs.check(got == want[i % 3], 'wrong-flattened-accesses',
                      'got {}, expected {}'.format(got, want[i % 3]), source=s1)
        if any(spec.trace_columns()):
            a = rng.randrange(total)
            its = list(range(a, min(total, a + 12)))
            ref = [tuple(r) for r in U.ref_rows(spec, its)]
            for k, w in zip(ks + [d], ('C source', 'C source', 'YAML description')):
                with obs.subject('trace-raises'):
                    got = U.trace_rows(k.compile_global_offsets(iteration=range(a, its[-1] + 1)))
                obs.check(got == ref, 'wrong-trace', w, source=s1)

    def units(rng, obs):
        """Source variants which mean the same: order and grouping of declarations, ++ forms."""
        spec = G.generate(rng, G.Options(steps=(1,), max_depth=2, max_stmts=1))
        base = spec.source()
        v = spec.loops[-1].var
        for inc in ('++' + v, v + '++', v + ' += 1', v + '+=1'):
            s = base.replace('++' + v, inc)
            with obs.subject('front-end-raises'), quiet():
                k = U.code_kernel(spec, None, source=s)
            extracted(obs, spec, k, 'C source', s)
        # everything on one line, and every token on its own line
        one = ' '.join(base.split())
        with obs.subject('front-end-raises'), quiet():
            k = U.code_kernel(spec, None, source=one)
        extracted(obs, spec, k, 'single line', one)
        toks = '\n'.join(base.split())
        with obs.subject('front-end-raises'), quiet():
            k = U.code_kernel(spec, None, source=toks)
        extracted(obs, spec, k, 'token lines', toks)
        crlf = base.replace('\n', '\r\n').replace(';', '\t;')
        with obs.subject('front-end-raises'), quiet():
            k = U.code_kernel(spec, None, source=crlf.replace('\r', ' '))
        extracted(obs, spec, k, 'tabs', crlf)
        obs.evals = 7
        obs.distinct(base)
        obs.describe(source=base)

    ck.cases('random-kernels', ck.pick(700, 12000), case, share=.8)
    ck.cases('layouts', ck.pick(120, 1500), units)
    ck.require('kernels extracted', 500)
    ck.require('descriptions compared', 200)
    ck.require('accesses compared', 2000)
