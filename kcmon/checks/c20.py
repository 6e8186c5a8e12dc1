"""C20: increments claimed for loop bodies, compared with executing the bodies on linear forms."""
import os
import re
import subprocess
from kcmon.core import Skip, quiet, scratch
from kcmon.gen import asm

LEVEL = 'exploration'
RULE = ('Loop bodies - generated with any mix of addressing modes, scales and updates of address '
        'registers (x86 in AT&T syntax, AArch64) and compiled from C kernels by gcc and '
        'clang with many flags for both instruction sets - are executed on linear forms by a '
        'reference interpreter, giving by how much the address of every access advances from one '
        'execution to the next. A claimed increment has to be the advance of every moving store '
        '(of every moving load if no store moves); bodies advancing by one register that is '
        'incremented once by a constant have to be detected. Values users gave are returned for '
        'the body they were given for, the latest one, and for no other. Non-trivial: distinct '
        'bodies for which an increment was claimed or the advances differ.')
ASSUMPTIONS = ['Address arithmetic does not wrap around.',
               'Different address expressions within a body do not alias (spilled pointers stay '
               'as they are unless the body overwrites their slot).',
               'Accesses at a constant address (spills, globals) are not array accesses.',
               'Counters in registers of scalable vectors are not constants.']
BUDGET = {'quick': 300}

REG = ['rax', 'rcx', 'rdx', 'rbx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14',
       'r15']


def r32(r):
    return r + 'd' if r[1].isdigit() else 'e' + r[1:]


class Att:
    def imm(self, n, rng=None):
        return '${}'.format(hex(n) if rng is not None and n >= 0 and rng.random() < .2 else n)

    def reg(self, r):
        return '%' + r

    def mem(self, disp, base, index=None, scale=1):
        inner = '%' + base if base else ''
        if index:
            inner += ',%{}'.format(index) + (',{}'.format(scale) if scale != 1 else '')
        return '{}({})'.format(disp or '', inner)

    def ins(self, mn, *ops, suffix='q'):
        return '{}{} {}'.format(mn, suffix, ', '.join(ops))

    def rip(self, mn, v):
        return '{} %{}, s(%rip)'.format(mn, v)


def vector_ref(rng, syn, m, store):
    v = 'xmm{}'.format(rng.randint(0, 15))
    mn = rng.choice(['movsd', 'vmovsd', 'movups', 'vmovupd', 'vmovapd', 'movss', 'vmovups'])
    if not store and rng.random() < .4:
        mn = rng.choice(['addsd', 'mulsd', 'addpd', 'mulps'])
    if mn.startswith('vmov') and mn != 'vmovsd' and rng.random() < .6:
        v = 'y' + v[1:]
    return '{} {}, {}'.format(mn, *(('%' + v, m) if store else (m, '%' + v)))


def bump(rng, syn, r, n):
    """Increment register *r* by *n* in one instruction."""
    forms = [lambda: syn.ins('add', syn.imm(n, rng), syn.reg(r)),
             lambda: syn.ins('sub', syn.imm(-n), syn.reg(r)),
             lambda: syn.ins('lea', syn.mem(n, r), syn.reg(r))]
    if n == 1:
        forms += [lambda: syn.ins('inc', syn.reg(r))] * 3
    if n == -1:
        forms += [lambda: syn.ins('dec', syn.reg(r))] * 3
    return rng.choice(forms[:2] * 3 + forms[2:])()


def noise(rng, syn, r, used):
    """An instruction that changes register *r* in some other way (or does not change it)."""
    q = rng.choice([x for x in REG if x != r])
    n = rng.choice([1, 2, 4, 8, 16, 32, -8, 24])
    R, Q = syn.reg(r), syn.reg(q)
    return rng.choice([
        lambda: bump(rng, syn, r, n), lambda: bump(rng, syn, r, n), lambda: bump(rng, syn, q, n),
        lambda: syn.ins('add', Q, R), lambda: syn.ins('sub', Q, R), lambda: syn.ins('mov', Q, R),
        lambda: syn.ins('mov', R, Q), lambda: syn.ins('shl', syn.imm(1), R),
        lambda: syn.ins('lea', syn.mem(n, r, q), R), lambda: syn.ins('lea', syn.mem(n, q), R),
        lambda: syn.ins('lea', syn.mem(0, r), R), lambda: syn.ins('lea', syn.mem(n, None, r, 2), R),
        lambda: syn.ins('lea', syn.mem(n, None, r, 1), R),
        lambda: syn.ins('lea', syn.mem(0, r, q, 8), R), lambda: syn.ins('lea', syn.mem(n, r), Q),
        lambda: syn.ins('imul', syn.imm(3), R, R), lambda: syn.ins('neg', R),
        lambda: syn.ins('xor', R, R), lambda: syn.ins('and', syn.imm(-32), R),
        lambda: syn.ins('mov', syn.mem(8, 'rsp'), R), lambda: syn.ins('mov', R, syn.mem(8, 'rsp')),
        lambda: syn.ins('add', syn.mem(8, 'rsp'), R), lambda: syn.ins('pop', R),
        lambda: syn.ins('add', syn.imm(n), syn.reg(r32(r)), suffix='l'),
        lambda: syn.ins('inc', syn.reg(r32(r)), suffix='l'),
        lambda: syn.ins('mov', syn.imm(n), R), lambda: syn.ins('cmovl', Q, R),
        lambda: syn.ins('inc', syn.mem(16, 'rsp')), lambda: syn.ins('dec', syn.mem(8, r)),
        lambda: syn.ins('add', syn.imm(n), syn.mem(0, r)), lambda: syn.ins('test', R, R),
        lambda: syn.ins('cmp', syn.imm(n), R), lambda: syn.rip('movsd', 'xmm0'),
        lambda: vector_ref(rng, syn, syn.mem(n, q, r, rng.choice([1, 4, 8])), True),
        lambda: vector_ref(rng, syn, syn.mem(n, r), True),
        lambda: vector_ref(rng, syn, syn.mem(n, r, r, rng.choice([1, 2, 8])), True),
        lambda: vector_ref(rng, syn, syn.mem(n, q), rng.random() < .5),
        lambda: vector_ref(rng, syn, syn.mem(24, 'rsp'), rng.random() < .5)])()


def x86_body(rng, syn):
    """(lines, the increment that has to be detected or None)."""
    regs = rng.sample(REG, 9)
    idx, others = regs[0], regs[1:]
    n = rng.choice([1, 1, 2, 4, 8, 16, 32, 64, 128, -1, -8, -32, 24])
    code = []
    loads, stores = rng.randint(0, 4), rng.randint(0, 2)
    if not loads + stores:
        loads = 1
    style = rng.choice(['index', 'index', 'pointers', 'one pointer'])
    if style == 'index':
        scale = rng.choice([1, 1, 2, 4, 8])
        for k in range(loads + stores):
            code.append(vector_ref(rng, syn, syn.mem(rng.choice([0, 0, 8, -16, 32, 64]),
                                                     rng.choice(others[:4]), idx, scale),
                                   k >= loads))
        expect = n * scale
        ups = [bump(rng, syn, idx, n)]
    else:
        ptrs = others[:rng.randint(1, 3)] if style == 'pointers' else [idx]
        used = set()
        for k in range(loads + stores):
            p = rng.choice(ptrs)
            used.add(p)
            code.append(vector_ref(rng, syn, syn.mem(rng.choice([0, 8, -16, 32, 64]), p),
                                   k >= loads))
        expect = n
        ups = [bump(rng, syn, p, n) for p in sorted(used)]
    code += ups
    rng.shuffle(code)
    wild = rng.random() < .65
    if wild:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            code.insert(rng.randint(0, len(code)), noise(rng, syn, rng.choice(
                [idx, idx] + others[:3]), None))
    end = rng.choice([syn.ins('cmp', syn.reg(others[5]), syn.reg(others[6])),
                      syn.ins('cmp', syn.reg(others[5]), syn.reg(idx)),
                      syn.ins('sub', syn.imm(1), syn.reg(others[6])),
                      syn.ins('dec', syn.reg(others[6]))])
    return code + [end], (None if wild else expect)


def a64_ref(rng, m, store):
    r = rng.randint(0, 31)
    k = rng.choice('dqs')
    if rng.random() < .2 and re.match(r'\[\w+(, #-?\d+)?\]', m):
        return '{} {}{}, {}{}, {}'.format('stp' if store else 'ldp', k, r, k, (r + 1) % 32, m)
    return '{} {}{}, {}'.format('str' if store else 'ldr', k, r, m)


def a64_bump(rng, r, n):
    neg = n < 0
    return rng.choice(['{} {}, {}, #{}', '{} {}, {}, {}']).format(
        ('sub' if neg else 'add') + rng.choice(['', '', 's']), r, r, abs(n))


def a64_noise(rng, r, pool):
    q = rng.choice([x for x in pool if x != r])
    w = rng.choice([x for x in pool if x not in (r, q)])
    n = rng.choice([1, 2, 4, 8, 16, 32, 24])
    st = rng.random() < .5
    return rng.choice([
        lambda: a64_bump(rng, r, n), lambda: a64_bump(rng, r, -n), lambda: a64_bump(rng, q, n),
        lambda: 'add {}, {}, {}'.format(r, r, q), lambda: 'add {}, {}, {}'.format(r, q, w),
        lambda: 'sub {}, {}, {}'.format(r, r, q), lambda: 'mov {}, {}'.format(r, q),
        lambda: 'mov {}, {}'.format(q, r), lambda: 'lsl {}, {}, #{}'.format(q, r, rng.choice([1, 3])),
        lambda: 'lsl {}, {}, #1'.format(r, r), lambda: 'add {}, {}, #{}'.format(q, r, n),
        lambda: 'sub {}, {}, #{}'.format(q, r, n), lambda: 'add {}, {}, #{}'.format(r, q, n),
        lambda: 'add {}, {}, {}, lsl #3'.format(r, r, q),
        lambda: 'add {}, {}, {}, lsl #3'.format(w, q, r),
        lambda: 'add {}, {}, {}'.format(w, q, r), lambda: 'sub {}, {}, {}'.format(w, q, r),
        lambda: 'mul {}, {}, {}'.format(r, r, q), lambda: 'mov {}, #{}'.format(r, n),
        lambda: 'ldr {}, [sp, #16]'.format(r), lambda: 'str {}, [sp, #16]'.format(r),
        lambda: 'add w{0}, w{0}, #{1}'.format(r[1:], n), lambda: 'add {}, {}, #1, lsl #12'.format(r, r),
        lambda: 'cmp {}, {}'.format(r, q), lambda: 'neg {}, {}'.format(r, r),
        lambda: a64_ref(rng, '[{}], #{}'.format(r, n), st),
        lambda: a64_ref(rng, '[{}, #{}]!'.format(r, n), st),
        lambda: a64_ref(rng, '[{}, {}]'.format(q, r), st),
        lambda: a64_ref(rng, '[{}, {}, lsl #3]'.format(q, r), st),
        lambda: a64_ref(rng, '[{}]'.format(w), st), lambda: a64_ref(rng, '[{}]'.format(r), st),
        lambda: a64_ref(rng, '[sp, #32]', st), lambda: 'str d0, [{}, :lo12:s]'.format(q)])()


def a64_body(rng):
    pool = ['x{}'.format(i) for i in range(0, 17)]
    regs = rng.sample(pool, 9)
    idx, others = regs[0], regs[1:]
    n = rng.choice([1, 1, 2, 4, 8, 16, 32, 64, -8, -16])
    loads, stores = rng.randint(0, 4), rng.randint(0, 2)
    if not loads + stores:
        loads = 1
    style = rng.choice(['index', 'index', 'shifted', 'pointers', 'post', 'pre'])
    code = []
    if style in ('index', 'shifted'):
        k = rng.choice([1, 2, 3, 4]) if style == 'shifted' else 0
        for i in range(loads + stores):
            b = rng.choice(others[:4])
            code.append(a64_ref(rng, '[{}, {}, lsl {}{}]'.format(
                b, idx, rng.choice(['#', '']), k) if k else '[{}, {}]'.format(b, idx), i >= loads))
        code.append(a64_bump(rng, idx, n))
        expect = n << k
    elif style == 'pointers':
        used = set()
        for i in range(loads + stores):
            p = rng.choice(others[:3])
            used.add(p)
            code.append(a64_ref(rng, rng.choice(['[{}]', '[{}, #16]', '[{}, #-32]']).format(p),
                                i >= loads))
        code += [a64_bump(rng, p, n) for p in sorted(used)]
        expect = n
    else:
        for i in range(loads + stores):
            p = pool[16 - i] if pool[16 - i] not in regs else None
            if p is None:
                continue
            code.append(a64_ref(rng, ('[{}], #{}' if style == 'post' else '[{}, #{}]!').format(p, n),
                                i >= loads))
        if not code:
            return a64_body(rng)
        expect = n
    rng.shuffle(code)
    wild = rng.random() < .65
    if wild:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            code.insert(rng.randint(0, len(code)), a64_noise(rng, rng.choice(
                [idx, idx] + others[:3]), pool))
    end = rng.choice(['cmp {}, {}'.format(others[5], others[6]),
                      'subs {0}, {0}, #1'.format(others[6]), 'cmp {}, {}'.format(idx, others[5])])
    return code + [end], (None if wild else expect)


KERNELS = [
    'void k({T} *restrict a, {T} *restrict b, long n){{for(long i=0;i<n;i{S})a[i]=b[i]*({T})2;}}',
    'void k({T} *a, {T} *b, {T} *c, {T} *d, long n){{for(long i=0;i<n;i{S})a[i]=b[i]+c[i]*d[i];}}',
    'void k({T} *restrict a, {T} *restrict b, {T} *restrict c, {T} s, int n){{'
    'for(int i=1;i<n-1;++i)a[i]=b[i-1]+s*c[i+1];}}',
    'void k({T} *restrict a, {T} *restrict b, int m, int n){{for(int j=1;j<m-1;++j)'
    'for(int i=1;i<n-1;++i)a[j*n+i]=b[(j-1)*n+i]+b[(j+1)*n+i]+b[j*n+i-1]+b[j*n+i+1];}}',
    'void k({T} *restrict a, const {T} *restrict b, int l, int m, int n){{for(int k=1;k<l-1;++k)'
    'for(int j=1;j<m-1;++j)for(int i=1;i<n-1;++i)a[(k*m+j)*n+i]=b[((k-1)*m+j)*n+i]+'
    'b[((k+1)*m+j)*n+i]+b[(k*m+j-1)*n+i]+b[(k*m+j+1)*n+i]+b[(k*m+j)*n+i-1]+b[(k*m+j)*n+i+1];}}',
    '{T} k({T} *a, {T} *b, long n){{{T} s=0;for(long i=0;i<n;i{S})s+=a[i]*b[i];return s;}}',
    'extern {T} s;void k({T} *a, long n){{for(long i=0;i<n;i{S})s+=a[i];}}',
    'void k({T} *restrict a, {T} *restrict b, {T} *restrict c, long n){{'
    'for(long i=0;i<n;i{S}){{a[i]=c[i];b[i]=c[i]+a[i];}}}}',
    'void k({T} *restrict a, {T} *restrict b, long n, long m){{for(long j=0;j<m;++j)'
    'for(long i=0;i<n;++i)a[i*m+j]=b[j*n+i];}}',
    'void k(double *restrict a, float *restrict b, long n){{for(long i=0;i<n;i{S})a[i]=b[i];}}',
    'void k({T} *restrict a, {T} *restrict b, long n){{for(long i=0;i<n;++i)a[i]=b[2*i];}}',
    'void k({T} *restrict a, {T} *restrict b, long n){{for(long i=n-1;i>=0;--i)a[i]=b[i]+a[i];}}',
    'void k({T} *restrict a, {T} *restrict b, {T} *restrict c, {T} *restrict d, {T} *restrict e,'
    '{T} *restrict f, {T} *restrict g, {T} *restrict h, {T} *restrict o, {T} *restrict p,'
    '{T} *restrict q, {T} *restrict r, {T} *restrict s, {T} *restrict t, {T} *restrict u,'
    '{T} *restrict v, long n){{for(long i=0;i<n;++i){{a[i]=b[i]+c[i]*d[i]+e[i]*f[i]+g[i]*h[i];'
    'o[i]=p[i]*q[i]+r[i]*s[i]+t[i]+u[i]*v[i];}}}}',
    'void k(int *restrict a, int n){{for(int i=0;i<n;++i)a[i]+=3;}}',
    'void k({T} *restrict a, {T} *restrict b, long n){{for(long i=0;i<n;++i)a[5]=b[i];}}',
]
CC = [('x86', 'gcc {}'), ('x86', 'clang {}'),
      ('aarch64', 'clang --target=aarch64-linux-gnu {}')]
FLAGS = {'x86': ['-O0', '-O1', '-O2', '-O3', '-Os', '-O3 -mavx2', '-O3 -mavx512f -ffast-math',
                 '-O2 -funroll-loops', '-O3 -march=corei7-avx -ffast-math', '-O3 -m32'[:3],
                 '-Ofast -mavx2 -mfma'],
         'aarch64': ['-O0', '-O1', '-O2', '-O3', '-Os', '-Ofast', '-O3 -fno-vectorize',
                     '-O3 -march=armv8-a+sve', '-O2 -funroll-loops -fno-vectorize',
                     '-O3 -march=armv8.2-a+sve -ffast-math']}


def compiled(rng, d):
    isa, cc = rng.choice(CC)
    src = rng.choice(KERNELS).format(T=rng.choice(['double', 'float']),
                                     S=rng.choice(['++', '++', '+=2', '+=4']))
    flags = rng.choice(FLAGS[isa])
    path = os.path.join(d, 'k.c')
    with open(path, 'w') as f:
        f.write(src + '\n')
    out = os.path.join(d, 'k.s')
    cmd = cc.format(flags).split() + ['-std=c99', '-S', path, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Skip('compiler refuses ' + ' '.join(cmd[:2]))
    with open(out) as f:
        return isa, src, ' '.join(cmd[:-4]), f.read()


def run(ck):
    from kerncraft import incore_model
    arch = {'x86': 'csx', 'aarch64': 'a64fx'}

    def blocks_of(code, isa):
        from osaca.semantics.marker_utils import find_basic_loop_bodies
        with quiet():
            return find_basic_loop_bodies(incore_model.parse_asm(code, isa, arch[isa]))

    def judge(obs, isa, block, expect, origin):
        lines = [l.line for l in block]
        body = (asm.X86Body if isa == 'x86' else asm.A64Body)(lines)
        adv = asm.advances(body)
        want = asm.increment(adv)
        kind, moving = asm.relevant(adv)
        obs.evals += 1
        name = isa
        try:
            with quiet():
                got = incore_model.ISA.get_isa(isa).get_pointer_increment(block)
        except Exception as e:
            obs.check(False, 'detection-fails-' + name, 'detection raises {}: {}'.format(
                type(e).__name__, e), body='\n'.join(lines), origin=origin)
            return
        obs.event('bodies ' + name)
        data = dict(body='\n'.join(lines), claimed=got, advances=adv, origin=origin)
        if got is None:
            obs.event('refused ' + name)
            if expect is not None:
                obs.check(got == expect, 'undetected-' + name, 'all accesses advance by {} through '
                          'a register incremented once, nothing detected'.format(expect), **data)
        else:
            obs.event('claimed ' + name)
            obs.check(got == want, 'wrong-increment-' + name,
                      'claimed {}, accesses advance by {}'.format(got, want if want is not None else
                                                                  sorted(set(map(str, moving)))),
                      **data)
        if expect is not None and want != expect:
            raise RuntimeError('generator and interpreter disagree: {} {}\n{}'.format(
                expect, want, '\n'.join(lines)))
        if got is not None or want is None:
            obs.distinct((isa, re.sub(r'(?m)^\s*\.?L[\w.]*:.*$', '', '\n'.join(lines))))
        obs.describe(isa=name, body=lines[:12], claimed=got, advance=want)

    def generated(isa):
        def fn(rng, obs):
            syn = Att()
            text, expected = [], {}
            for k in range(40):
                code, expect = x86_body(rng, syn) if isa == 'x86' else a64_body(rng)
                label = '.L{}'.format(k)
                text.append(label + ':')
                text += ['\t' + c.replace(' ', '\t', 1) for c in code]
                text.append('\t{}\t{}'.format('jne' if isa == 'x86' else 'b.ne', label))
                expected[label] = expect
            blocks = blocks_of('\n'.join(text) + '\n', isa)
            obs.evals -= 1
            if set(blocks) != set(expected):
                raise RuntimeError('blocks {}'.format(set(expected) - set(blocks)))
            for label, b in blocks.items():
                judge(obs, isa, b, expected[label], 'generated')
        return fn

    def from_compiler(rng, obs):
        with scratch() as d:
            isa, src, cmd, text = compiled(rng, d)
            blocks = blocks_of(text, isa)
            if not blocks:
                raise Skip('no loops')
            obs.evals -= 1
            for b in blocks.values():
                judge(obs, isa, b, None, cmd + ': ' + src)

    def remembered(rng, obs):
        """Increments given by the user."""
        text, labels = [], ['.L{}'.format(i) for i in range(6)]
        same = rng.random() < .7
        # nothing to detect here; bodies differ by a single operand or entirely
        one = rng.random() < .6
        spec = (rng.randint(0, 15), rng.randint(1, 1000), 'rdx', 8, 'q')
        seen = set()
        for l in labels:
            while spec in seen:
                new = (rng.randint(0, 15), rng.randint(1, 1000),
                       rng.choice(['rdx', 'rsi', 'r12', 'r15']), rng.choice([8, 16, 80]),
                       rng.choice(['q', 'l']))
                k = rng.randrange(5)
                spec = spec[:k] + (new[k],) + spec[k + 1:] if one else new
            seen.add(spec)
            x, n, r, off, w = spec
            code = ['movq {}(%rsp), %rax'.format(off), 'addq %{}, %rcx'.format(r),
                    'movsd %xmm{}, (%rax,%rcx)'.format(x),
                    'add{} ${}, %{}'.format(w, n, 'r9' if w == 'q' else 'r9d'),
                    'cmpq %r8, %r9']
            text += [l + ':'] + code + ['jne ' + l]
        blocks = blocks_of('\n'.join(text) + '\n', 'x86')
        for l in labels if same else ():
            # loops of different programs may have the same label
            for i in blocks[l]:
                i.line = re.sub(r'\.L\d+', '.L3', i.line)
        home = os.environ['HOME']
        with scratch() as d:
            os.environ['HOME'] = d
            try:
                model, isa = {}, incore_model.ISA.get_isa('x86')
                for _ in range(rng.randint(1, 12)):
                    l = rng.choice(labels)
                    v = rng.choice([8, 16, 32, -8, 24, 64])
                    incore_model.store_increment_to_cache(
                        blocks[l], v, comment=rng.choice([None, 'a comment', 'k.c 12']))
                    model[l] = v
                    for m in labels:
                        got = isa.get_pointer_increment(blocks[m])
                        obs.check(got == model.get(m), 'remembered-increment',
                                  'increment given by the user is {}, used is {}'.format(
                                      model.get(m), got))
                        obs.event('remembered increments')
                obs.distinct(sorted(model.items()))
            finally:
                os.environ['HOME'] = home

    from kcmon.gen.recorder import warm_osaca
    for isa in ('x86', 'aarch64'):  # databases are parsed once per HOME
        blocks_of('.L1:\n' + ('addq $8, %rax\njne .L1\n' if isa == 'x86' else
                              'add x0, x0, #8\nb.ne .L1\n'), isa)
    ck.cases('x86', ck.pick(60, 900), generated('x86'), limit=200, share=.3)
    ck.cases('aarch64', ck.pick(60, 900), generated('aarch64'), limit=200, share=.45)
    ck.cases('compiled', ck.pick(250, 4000), from_compiler, limit=200, share=.9)
    ck.cases('remembered', ck.pick(30, 300), remembered, limit=200)
    ck.require('claimed x86', 300)
    ck.require('claimed aarch64', 300)
    ck.require('remembered increments', 100)
