"""C05: generated C programs executed under sanitizers, results compared with the original nest."""
import os
import re
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import cbuild as B
from kcmon.gen import kernels as G
from kcmon.gen import util as U

LEVEL = 'exploration'
BUDGET = {'quick': 300, 'thorough': 780}
RULE = ('Random kernels are turned into C by the real generator, built by build_executable with '
        'AddressSanitizer and UndefinedBehaviourSanitizer and executed twice: the kernel function '
        'on exactly-sized arrays with random contents, every resulting array and scalar compared '
        'bit by bit with the original multi-dimensional nest; and the generated driver, with a '
        'wrapper around the kernel call observing constants, array extents and repetitions. '
        'Non-trivial: multi-dimensional array, several statements or loops.')
ASSUMPTIONS = ['gcc with -O0 -ffp-contract=off evaluates equal floating-point expressions equally.',
               'LIKWID is replaced by the stub of the repository\'s test-suite.',
               'Identifiers of the kernel do not collide with those of the driver (argv, repeat, '
               'warmup, kernel, dummy) or C keywords.']


def nest_text(spec, rng=None):
    if getattr(spec, 'nest_source', None):
        return spec.nest_source
    s = G.Spec(spec.dtype, spec.loops, {}, [], spec.stmts, spec.env, spec.index_type)
    return s.source(None, comments=False, pragmas=False)


class Dim:
    def __init__(self, text):
        self.text = text

    def poly(self, env):
        return eval(self.text, {}, dict(env))


class Shipped:
    """A kernel file of the repository, taken apart textually."""

    def __init__(self, text, env):
        self.text = text
        code = re.sub(r'//[^\n]*', '', text)
        self.arrays, self.scalars, self.swaps, self.stmts, self.loops = {}, [], [], [], [1, 2]
        self.index_type = 'int'
        decl = re.compile(r'\s*((?:double|float)(?: _Complex)?)\s+([^;(]*);')
        while decl.match(code):
            m = decl.match(code)
            self.dtype = m.group(1)
            for item in m.group(2).split(','):
                name, dims = re.fullmatch(r'\s*(\w+)((?:\[[^]]*\])*)\s*', item).groups()
                dims = re.findall(r'\[([^]]*)\]', dims)
                if dims:
                    self.arrays[name] = [Dim(d) for d in dims]
                else:
                    self.scalars.append(name)
            code = code[m.end():]
        self.nest_source = re.sub(r'(?m)^\s*#.*$|^\s*swap\(.*$', '', code)
        self.esize = G.SIZES[self.dtype]
        self.env = {k: v for k, v in env.items() if re.search(r'\b{}\b'.format(k), code) or
                    any(re.search(r'\b{}\b'.format(k), d.text)
                        for ds in self.arrays.values() for d in ds)}

    def source(self, rng=None):
        return self.text


def reference_c(spec):
    """The original program as a function on arrays of its declared shape."""
    par = ['{} {}'.format('const ' + spec.index_type, c) for c in sorted(spec.env)]
    par += ['{} {}{}'.format(spec.dtype, n, ''.join('[{}]'.format(d.text) for d in ds))
            for n, ds in spec.arrays.items()]
    par += ['{} *kcp_{}'.format(spec.dtype, s) for s in spec.scalars]
    return 'void reference({}) {{\n{}\n{}\n{}\n}}\n'.format(
        ', '.join(par),
        '\n'.join('{0} {1} = *kcp_{1};'.format(spec.dtype, s) for s in spec.scalars),
        nest_text(spec),
        '\n'.join('*kcp_{0} = {0};'.format(s) for s in spec.scalars))


def sizes(spec):
    r = {}
    for n, ds in spec.arrays.items():
        v = 1
        for d in ds:
            v *= d.poly(spec.env)
        r[n] = v
    return r


def harness_c(spec, proto, calls):
    """main(): random contents, generated kernel against reference, bitwise comparison."""
    sz = sizes(spec)
    real = spec.dtype.split()[0]
    parts = spec.esize // G.SIZES[real]
    o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <stddef.h>',
         'void kernel({});'.format(', '.join(t for _, _, t in proto)),
         reference_c(spec),
         'static unsigned long long st = 88172645463325252ULL;',
         'static {0} rnd(void) {{ st ^= st << 13; st ^= st >> 7; st ^= st << 17;'
         ' return ({0})(0.25 + (double)(st >> 12) / (double)(1ULL << 52)); }}'.format(real),
         'static int same(const void *a, const void *b, size_t n) {',
         '  const {0} *x = a, *y = b; for (size_t i = 0; i < n; i++)'
         ' if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return 0; return 1; }}'.format(real),
         'int main(void) {']
    for n in spec.arrays:
        b = sz[n] * spec.esize
        o += ['  {0} *{1}_g = malloc({2}), *{1}_r = malloc({2}), *{1}_i = malloc({2});'.format(
                  real, n, b),
              '  for (size_t q = 0; q < {2}u; q++) {1}_i[q] = {1}_g[q] = {1}_r[q] = rnd();'.format(
                  real, n, sz[n] * parts)]
    for s in spec.scalars:
        o += ['  {0} {1}_g[{2}], {1}_r[{2}];'.format(real, s, parts),
              '  for (int q = 0; q < {1}; q++) {0}_g[q] = {0}_r[q] = rnd();'.format(s, parts)]
    for c in spec.env:
        o.append('  const {} {} = {};'.format(spec.index_type, c, spec.env[c]))
    args = []
    for name, ptr, _ in proto:
        if name in spec.arrays and ptr:
            args.append('(void *){}_g'.format(name))
        elif ptr:
            m = [s for s in spec.scalars if name == s or name.rstrip('_') == s]
            if not m:
                raise ValueError('unknown parameter ' + name)
            args.append('(void *){}_g'.format(m[0]))
        else:
            args.append(name)
    for _ in range(calls):
        o.append('  kernel({});'.format(', '.join(args)))
        o.append('  reference({});'.format(', '.join(
            sorted(spec.env) + ['(void *){}_r'.format(n) for n in spec.arrays] +
            ['(void *){}_r'.format(s) for s in spec.scalars])))
    o.append('  int bad = 0; long changed = 0;')
    for n in spec.arrays:
        o += ['  if (!same({0}_g, {0}_r, {1}u)) {{ bad = 1; printf("differs {0}\\n"); }}'.format(
                  n, sz[n] * parts),
              '  for (size_t q = 0; q < {1}u; q++) changed += !same({0}_g + q, {0}_i + q, 1);'.format(
                  n, sz[n] * parts)]
    for s in spec.scalars:
        if s in getattr(spec, 'unspecified', ()):
            continue
        if s in getattr(spec, 'reductions', ()):
            # summation order is unspecified
            o.append('  {{ double x = {0}_g[0], y = {0}_r[0], q = x - y; if (!(q * q <= '
                     '1e-8 * x * x)) {{ bad = 1; printf("differs {0}\\n"); }} }}'.format(s))
            continue
        o.append('  if (!same({0}_g, {0}_r, {1})) {{ bad = 1; printf("differs {0}\\n"); }}'.format(
            s, parts))
    o.append('  printf("changed %ld\\n", changed); return bad; }')
    return '\n'.join(o) + '\n'


def wrap_c(spec, proto, cl):
    """__wrap_kernel: reports what the driver passes; then calls the real kernel."""
    sz = sizes(spec)
    sig = ', '.join(t for _, _, t in proto)
    o = ['#include <stdio.h>', '#include <stdint.h>', '#include <sanitizer/asan_interface.h>',
         'static long calls;',
         'static void fin(void) __attribute__((destructor));',
         'static void fin(void) { fprintf(stderr, "KC calls %ld\\n", calls); }',
         'void __real_kernel({});'.format(sig), 'void __wrap_kernel({}) {{'.format(sig),
         '  if (calls++ == 0) {']
    for name, ptr, _ in proto:
        if not ptr:
            o.append('    fprintf(stderr, "KC const {0} %lld\\n", (long long){0});'.format(name))
        else:
            b = sz[name] * spec.esize if name in spec.arrays else spec.esize
            o.append('    fprintf(stderr, "KC pointer {0} %d %d %llu\\n", '
                     '__asan_region_is_poisoned((void *){0}, {1}) == 0, '
                     '(int)((uintptr_t){0} % {2}), (unsigned long long)(uintptr_t){0});'.format(
                         name, b, cl if name in spec.arrays else 1))
    o += ['  }', '  __real_kernel({});'.format(', '.join(n for n, _, _ in proto)), '}']
    return '\n'.join(o) + '\n'


def build(obs, k, openmp=False, lib=''):
    """build_executable and the kernel source file; violations if refused."""
    os.environ['LIKWID_INC'] = B.STUB_INC
    os.environ.pop('LIKWID_INCLUDE', None)
    os.environ['LIKWID_LIB'] = lib
    with obs.subject('build-fails'), quiet():
        exe, lock = k.build_executable(openmp=openmp)
        lock.close()
        src, lock = k.get_kernel_code(openmp=openmp)
        lock.close()
    return os.path.abspath(exe), os.path.abspath(src)


def compile_c(obs, out, files, flags, what, key):
    rc, o, e = B.run(['gcc'] + B.SAN.split() + ['-std=gnu99', '-w'] + files + flags + ['-o', out])
    if rc:
        if key:
            obs.violate(key, what + ': ' + e[:1500])
        else:
            raise RuntimeError(what + ': ' + e[:1500])
    return rc == 0


OPT = dict(max_len=9, max_arrays=4, max_stmts=3, index_types=True)


def run(ck):
    inc = '-I' + os.path.join(os.path.dirname(__import__('kerncraft').__file__), 'headers')

    def functional(rng, obs, spec, openmp=False, threads=1, swaps=0, cc='gcc'):
        if swaps:
            pairs = [(a, b) for a in spec.arrays for b in spec.arrays
                     if a != b and len(spec.arrays[a]) == len(spec.arrays[b])]
            if not pairs:
                raise Skip('no pair of arrays')
            for _ in range(swaps):
                a, b = rng.choice(pairs)
                dims = [max(x, y, key=lambda e: e.poly(spec.env))
                        for x, y in zip(spec.arrays[a], spec.arrays[b])]
                spec.arrays[a], spec.arrays[b] = dims, dims
                spec.swaps.append((a, b))
            shape = {n: [d.poly(spec.env) for d in ds] for n, ds in spec.arrays.items()}
            if any(shape[a] != shape[b] for a, b in spec.swaps):
                raise Skip('shapes differ')
        src = spec.source(rng)
        if len(spec.loops) + len(spec.stmts) + max(len(d) for d in spec.arrays.values()) > 3:
            obs.distinct(src)
        obs.describe(source=src, constants=spec.env, openmp=openmp)
        with scratch() as d:
            fn = os.path.join(d, 'k.c') if rng.random() < .85 else None
            if fn:
                open(fn, 'w').write(src)
            cl = rng.choice([64, 64, 32, 128])
            m = U.machine_stub(cl, compiler=B.compiler(
                cc, B.SAN + (' -fopenmp' if openmp else '')))
            with obs.subject('front-end-raises'), quiet():
                k = U.code_kernel(spec, m, source=src, filename=fn)
            plain = not fn or rng.random() < .3
            wrapo = os.path.join(d, 'wrap.o')
            if not plain:
                # the wrapper needs the prototype before the executable is linked
                with obs.subject('header-generation-raises'), quiet():
                    csrc, l = k.get_kernel_code(openmp=openmp)
                    l.close()
                proto = B.prototype(csrc)
                open(os.path.join(d, 'wrap.c'), 'w').write(wrap_c(spec, proto, cl))
                compile_c(obs, wrapo, [os.path.join(d, 'wrap.c')], ['-c'], 'wrapper', None)
            if plain:
                exe, csrc = build(obs, k, openmp)
                proto = B.prototype(csrc)
            else:
                os.environ['LIKWID_INC'] = B.STUB_INC
                # ' -lm' stands in for the library named by LIKWID_LIB
                libs = os.path.join(d, 'libs')
                os.mkdir(libs)
                B.run(['ar', 'rc', os.path.join(libs, 'liblikwid.a')])
                exe, csrc = build(obs, k, openmp, '-L{} -Wl,--wrap=kernel {}'.format(libs, wrapo))
            obs.event('programs built')
            want = set(spec.arrays) | set(spec.scalars) | set(spec.env)
            got = {n if n in want else n.rstrip('_') for n, _, _ in proto}
            obs.check(got == want, 'wrong-signature', '{} != {}'.format(got, want), source=src)

            # kernel function against the original
            open(os.path.join(d, 'h.c'), 'w').write(harness_c(spec, proto, rng.choice([1, 2])))
            h = os.path.join(d, 'h')
            hdr = os.path.dirname(csrc)
            if compile_c(obs, h, [os.path.join(d, 'h.c'), csrc],
                         [inc, '-I' + hdr] + (['-fopenmp'] if openmp else []),
                         'kernel with test harness', 'kernel-does-not-compile'):
                rc, out, err = B.run([h], env={'OMP_NUM_THREADS': str(threads)})
                rep = B.sanitizer_report(rc, err)
                code = open(csrc).read()
                obs.check(rep is None, 'undefined-behaviour-in-kernel', rep, source=src,
                          generated=code, stderr=err[-700:])
                if rep is None:
                    obs.check(rc == 0, 'wrong-results', out.decode(), source=src, generated=code,
                              constants=spec.env)
                    m_ = re.search(rb'changed ([0-9]+)', out)
                    obs.event('array elements changed', int(m_.group(1)) if m_ else 0)
                obs.event('kernels executed')

            # the driver
            repeat = rng.choice([1, 2, 3, 7])
            args = [exe, str(repeat)] + [str(v) for v in k.constants.values()]
            rc, out, err = B.run(args, env={'OMP_NUM_THREADS': '1'}, cwd=d)
            rep = B.sanitizer_report(rc, err)
            obs.check(rep is None, 'undefined-behaviour-in-driver', rep, source=src,
                      stderr=err[-700:])
            obs.check(rep is not None or rc == 0, 'driver-fails', 'exit {}'.format(rc),
                      source=src, stderr=err[-700:])
            obs.event('drivers executed')
            if plain or rep is not None or rc:
                return
            calls = re.search(r'KC calls (\d+)', err)
            obs.check(calls and int(calls.group(1)) == 2 + repeat, 'wrong-repetitions',
                      'repeat {}: {}'.format(repeat, calls and calls.group(0)), source=src)
            obs.event('kernel calls observed', int(calls.group(1)) if calls else 0)
            seen = dict(re.findall(r'KC const (\w+) (-?\d+)', err))
            obs.check(seen == {n: str(v) for n, v in spec.env.items()}, 'wrong-constants',
                      'passed {} for {}'.format(seen, spec.env), source=src)
            ext = []
            for n, ok, mod, addr in re.findall(r'KC pointer (\w+) (\d) (\d+) (\d+)', err):
                obs.check(ok == '1', 'array-too-small', n, source=src)
                obs.check(mod == '0', 'array-misaligned', n, source=src)
                if n in spec.arrays:
                    ext.append((int(addr), int(addr) + sizes(spec)[n] * spec.esize, n))
                obs.event('pointers observed')
            ext.sort()
            for x, y in zip(ext, ext[1:]):
                obs.check(x[1] <= y[0], 'arrays-overlap', '{} {}'.format(x, y), source=src)

    def case(rng, obs):
        functional(rng, obs, G.generate(rng, G.Options(**OPT)))

    def swapping(rng, obs):
        """swap() after the nest exchanges pointers, not what the nest computed."""
        names = ('a', 'b', 't', 'u', 'v', 'swp', 'dta')
        spec = G.generate(rng, G.Options(**dict(OPT, names=names)))
        functional(rng, obs, spec, swaps=rng.choice([1, 1, 2]))

    def shipped(rng, obs):
        path = files[obs.index % len(files)]
        n = rng.choice([10, 14, 18, 22])
        spec = Shipped(open(path).read(), {'N': n, 'M': rng.choice([9, 10, n]),
                                           'L': rng.choice([3, 4, 6])})
        obs.event('shipped kernels')
        if obs.index >= len(files):
            # private copies have no value after the parallel loop
            spec.unspecified = re.findall(r'\w+', ' '.join(re.findall(r'private\(([^)]*)\)',
                                                                      spec.text)))
            spec.reductions = re.findall(r'\w+', ' '.join(re.findall(r'reduction\(.:([^)]*)\)',
                                                                    spec.text)))
        functional(rng, obs, spec, openmp=obs.index >= len(files))

    def large(rng, obs):
        """More than 2^31 elements, visited in large steps; only undefined behaviour matters."""
        itype = ['int', 'long', 'long'][obs.index]
        n = 50000
        if obs.index < 2:
            src = ('double a[M][N], b[M][N];\nfor({0} j=1; j<M-1; j+=9973)\n'
                   'for({0} i=1; i<N-1; i+=9973)\n'
                   'a[j][i] = b[j-1][i] + b[j][i+1];').format(itype)
            env = {'M': n, 'N': n}
        else:
            src = ('double a[N], b[N];\nfor({} i=1; i<N-1; i+=300000000)\n'
                   'a[i] = b[i-1] + b[i+1];').format(itype)
            env = {'N': 3000000000}
        obs.distinct(src)
        obs.describe(source=src, constants=env)
        flags = '-O0 -g -fsanitize=undefined -fno-sanitize-recover=all'
        with scratch() as d:
            m = U.machine_stub(64, compiler=B.compiler('gcc', flags))
            fn = os.path.join(d, 'k.c')
            open(fn, 'w').write(src)
            with obs.subject('front-end-raises'), quiet():
                from kerncraft.kernel import KernelCode
                k = KernelCode(src, m, filename=fn)
                U.bind(k, env)
            exe, csrc = build(obs, k)
            args = [exe, '1'] + [str(v) for v in k.constants.values()]
            rc, out, err = B.run(args, cwd=d)
            rep = B.sanitizer_report(rc, err)
            key = 'int-overflow-in-driver-of-large-arrays' if itype == 'int' else \
                'undefined-behaviour-with-large-arrays'
            obs.check(rep is None and rc == 0, key, rep or err[-300:], source=src)
            # the kernel function alone, on untouched address space
            proto = B.prototype(csrc)
            v = 1
            for x in env.values():
                v *= x
            h = ['#define _GNU_SOURCE', '#include <sys/mman.h>', '#include <stdio.h>',
                 'void kernel({});'.format(', '.join(t for _, _, t in proto)), 'int main(void) {']
            for a in 'ab':
                h.append('  double *{0} = mmap(0, {1}UL * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE |'
                         ' MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if ({0} == MAP_FAILED) '
                         'return 77;'.format(a, v))
            h += ['  const {} {} = {};'.format(itype, c, x) for c, x in env.items()]
            h += ['  kernel({});'.format(', '.join(p[0] for p in proto)), '  return 0; }']
            open(os.path.join(d, 'h.c'), 'w').write('\n'.join(h) + '\n')
            B_rc, _, e = B.run(['gcc'] + flags.split() + ['-std=gnu99', '-w', inc, '-I' +
                                os.path.dirname(csrc), os.path.join(d, 'h.c'), csrc, '-o',
                                os.path.join(d, 'h')])
            if B_rc:
                obs.violate('kernel-does-not-compile', e[:800])
                return
            rc, out, err = B.run([os.path.join(d, 'h')])
            if rc == 77:
                raise Skip('no address space')
            rep = B.sanitizer_report(rc, err)
            key = 'int-overflow-in-kernel-of-large-arrays' if itype == 'int' else \
                'undefined-behaviour-with-large-arrays'
            obs.check(rep is None, key, rep, source=src, generated=open(csrc).read())
            obs.event('large kernels executed')

    files = sorted(os.path.join(B.REPO, d, f) for d in ('examples/kernels', 'tests/test_files')
                   for f in os.listdir(os.path.join(B.REPO, d)) if f.endswith('.c')
                   and f != 'constantdim.c')

    def openmp(rng, obs):
        """Sequential semantics of the OpenMP variant with one thread."""
        functional(rng, obs, G.generate(rng, G.Options(**OPT)), openmp=True)

    def parallel(rng, obs):
        """Threads do not change results where outer iterations are independent."""
        for _ in range(400):
            spec = G.generate(rng, G.Options(**dict(OPT, scalar_dest=False, max_stmts=2,
                                                    max_depth=3, flat=False, mixed=False)))
            w = {r.name for r in spec.writes()}
            ok = all(all(x == y for x, y in zip(p, q)) for n in w
                     for p in spec.distinct(list(spec.reads()) + list(spec.writes()))[n]
                     for q in spec.distinct(spec.writes())[n])
            ov = spec.loops[0].var
            ok = ok and all(ov in spec.flat(r.name, r.polys()).vars() for r in spec.writes())
            # one index is exactly the outer counter (plus a constant)
            ok = ok and all(any(p.vars() == {ov} for p in r.polys()) for r in spec.writes())
            if ok:
                break
        else:
            raise Skip('no parallel kernel')
        functional(rng, obs, spec, openmp=True, threads=rng.choice([2, 3, 4]))
        obs.event('multi-threaded kernels')

    ck.cases('large', 3, large)
    ck.cases('shipped', 2 * len(files), shipped)
    ck.cases('kernels', ck.pick(800, 8000), case, share=.6)
    ck.cases('swaps', ck.pick(60, 700), swapping, share=.4)
    ck.cases('openmp', ck.pick(60, 800), openmp, share=.5)
    ck.cases('threads', ck.pick(60, 600), parallel)
    ck.require('large kernels executed', 2)
    ck.require('shipped kernels', 20)
    ck.require('kernels executed', 100)
    ck.require('drivers executed', 100)
    ck.require('kernel calls observed', 100)
    ck.require('array elements changed', 500)
