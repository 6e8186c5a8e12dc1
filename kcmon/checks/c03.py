"""C03: programs outside the supported language are refused (mutation monitor)."""
import copy
import re
from kcmon.core import Skip, quiet
from kcmon.gen import kernels as G
from kcmon.gen import util as U
from kcmon.gen.poly import Ex

LEVEL = 'exploration'
RULE = ('A valid random kernel is changed into one which leaves the supported language in a single '
        'place (about 70 kinds of change: loop heads, nesting, statements, expressions, '
        'subscripts, shapes, declarations), and the front end and its analyses must refuse it; '
        'for constructs which C gives a meaning the analysis could also report (octal numbers, '
        'increments), it must be refused or reported with that meaning. The unchanged kernel must '
        'be accepted. Non-trivial: every mutant.')
ASSUMPTIONS = ['Refused means an error from construction or from any of the basic analyses '
               '(iteration count, array sizes, address trace, kernel report).']

HEAD = re.compile(r'for\((?P<ty>[a-z ]+?) (?P<v>\w+)=(?P<s>[^;]*); (?P<c>[^;]*); (?P<n>[^{;]*)\) \{')


def heads(src):
    return list(HEAD.finditer(src))


def rehead(src, rng, fn, which=None):
    """Replace one loop head; fn(match dict) gives the new text between the parentheses."""
    hs = heads(src)
    m = hs[which] if which is not None else rng.choice(hs)
    d = m.groupdict()
    d['var'], d['lim'] = d['v'], d['c'].split('<', 1)[1]
    return src[:m.start()] + 'for({}) {{'.format(fn(d)) + src[m.end():]


def body_span(src):
    h = heads(src)[-1]
    return h.end(), src.index('}', h.end())


def at_body(src, text, end=False):
    a, b = body_span(src)
    return src[:b] + text + '\n' + src[b:] if end else src[:a] + '\n' + text + src[a:]


def in_rhs(src, rng, fn):
    """Replace the right side of one statement."""
    a, b = body_span(src)
    stmts = [m for m in re.finditer(r'(=) ?([^;=]*);', src[a:b])]
    m = rng.choice(stmts)
    return src[:a + m.start(2)] + fn(m.group(2)) + src[a + m.end(2):]


def loop_mutants():
    f = lambda t: (lambda src, spec, rng: rehead(src, rng, lambda d: t.format(**d)))
    inner_or_outer = {
        'le': '{ty} {var}={s}; {var}<={lim}; {n}',
        'ne': '{ty} {var}={s}; {var}!={lim}; {n}',
        'gt': '{ty} {var}={s}; {var}>{lim}; {n}',
        'ge': '{ty} {var}={s}; {var}>={lim}; {n}',
        'reversed-condition': '{ty} {var}={s}; {lim}>{var}; {n}',
        'reversed-lt': '{ty} {var}={s}; {lim}<{var}; {n}',
        'decrement': '{ty} {var}={s}; {var}<{lim}; --{var}',
        'post-decrement': '{ty} {var}={s}; {var}<{lim}; {var}--',
        'minus-step': '{ty} {var}={s}; {var}<{lim}; {var} -= 1',
        'times-step': '{ty} {var}={s}; {var}<{lim}; {var} *= 2',
        'shift-step': '{ty} {var}={s}; {var}<{lim}; {var} <<= 1',
        'assign-step': '{ty} {var}={s}; {var}<{lim}; {var} = {var}+1',
        'assign-constant': '{ty} {var}={s}; {var}<{lim}; {var} = 2',
        'negative-step': '{ty} {var}={s}; {var}<{lim}; {var} += -1',
        'float-step': '{ty} {var}={s}; {var}<{lim}; {var} += 1.5',
        'zero-step': '{ty} {var}={s}; {var}<{lim}; {var} += 0',
        'symbolic-step': '{ty} {var}={s}; {var}<{lim}; {var} += N',
        'expression-step': '{ty} {var}={s}; {var}<{lim}; {var} += 1+1',
        'no-step': '{ty} {var}={s}; {var}<{lim}; ',
        'no-condition': '{ty} {var}={s}; ; {n}',
        'no-init': '; {var}<{lim}; {n}',
        'two-steps': '{ty} {var}={s}; {var}<{lim}; {n}, ++qq',
        'two-inits': '{ty} {var}={s}, qq=0; {var}<{lim}; {n}',
        'two-conditions': '{ty} {var}={s}; {var}<{lim}, {var}<9; {n}',
        'and-condition': '{ty} {var}={s}; {var}<{lim} && {var}<9; {n}',
        'init-not-declared': '{var}={s}; {var}<{lim}; {n}',
        'uninitialized': '{ty} {var}; {var}<{lim}; {n}',
        'other-condition-variable': '{ty} {var}={s}; qq<{lim}; {n}',
        'other-step-variable': '{ty} {var}={s}; {var}<{lim}; ++qq',
        'other-step-variable2': '{ty} {var}={s}; {var}<{lim}; qq += 1',
        'condition-offset': '{ty} {var}={s}; {var}+1<{lim}; {n}',
        'division-limit': '{ty} {var}={s}; {var}<({lim})/2; {n}',
        'modulo-limit': '{ty} {var}={s}; {var}<({lim})%7; {n}',
        'shift-limit': '{ty} {var}={s}; {var}<({lim})>>1; {n}',
        'ternary-limit': '{ty} {var}={s}; {var}<({lim}>2?{lim}:2); {n}',
        'call-limit': '{ty} {var}={s}; {var}<min({lim}, 8); {n}',
        'float-limit': '{ty} {var}={s}; {var}<10.5; {n}',
        'negated-limit': '{ty} {var}={s}; {var}< -{lim}; {n}',
        'division-start': '{ty} {var}=({lim})/8; {var}<{lim}; {n}',
        'call-start': '{ty} {var}=max({s}, 1); {var}<{lim}; {n}',
        'comparison-start': '{ty} {var}={s}<1; {var}<{lim}; {n}',
        'assigning-condition': '{ty} {var}={s}; {var}<({var}={lim}); {n}',
    }
    return {k: f(v) for k, v in inner_or_outer.items()}


def structure_mutants():
    def twice(src, spec, rng):
        i = heads(src)[0].start()
        return src + '\n' + src[i:]

    def two_inner(src, spec, rng):
        if len(spec.loops) < 2:
            raise Skip('one loop')
        h = heads(src)[-1]
        e = src.index('}', h.end()) + 1
        inner = src[h.start():e]
        return src[:e] + '\n' + inner + src[e:]

    def between(text):
        def g(src, spec, rng):
            if len(spec.loops) < 2:
                raise Skip('one loop')
            h = heads(src)[rng.randrange(len(spec.loops) - 1)]
            return src[:h.end()] + '\n' + text.format(s=stmt(spec)) + src[h.end():]
        return g

    def after_inner(src, spec, rng):
        if len(spec.loops) < 2:
            raise Skip('one loop')
        e = src.index('}', heads(src)[-1].end()) + 1
        return src[:e] + '\n' + stmt(spec) + src[e:]

    def stmt(spec):
        r = next(r for r in spec.writes() if r.idx is not None)
        return '{} = 1.0;'.format(r.name + ''.join('[0]' for _ in r.idx))

    def trailing(text):
        return lambda src, spec, rng: src + '\n' + text.format(s=stmt(spec))

    def before(text):
        def g(src, spec, rng):
            i = heads(src)[0].start()
            return src[:i] + text.format(s=stmt(spec)) + '\n' + src[i:]
        return g

    def body(text):
        return lambda src, spec, rng: at_body(src, text.format(
            s=stmt(spec), v=spec.loops[-1].var, v0=spec.loops[0].var, t=spec.dtype,
            a=next(iter(spec.arrays))), end=rng.random() < .5)

    def guard(text):
        def g(src, spec, rng):
            a, b = body_span(src)
            return src[:a] + '\n' + text.format(
                body=src[a:b], v=spec.loops[-1].var) + '\n' + src[b:]
        return g
    return {
        'two-nests': twice, 'two-inner-loops': two_inner,
        'statement-between-loops': between('{s}'), 'if-between-loops': between('if (N > 2) {s}'),
        'statement-after-inner': after_inner, 'statement-after-nest': trailing('{s}'),
        'declaration-after-nest': trailing('double zz[4];'),
        'call-after-nest': trailing('finish(N);'),
        'statement-before-nest': before('{s}'), 'call-before-nest': before('init(N);'),
        'while-before-nest': before('while (0) {s}'),
        'if': body('if ({v} > 2) {s}'), 'if-else': body('if ({v} > 2) {s} else {s}'),
        'while': body('while (0) {s}'), 'do': body('do {s} while (0);'),
        'switch': body('switch ({v}) {{ case 1: {s} }}'),
        'continue': body('continue;'), 'break': body('break;'), 'return': body('return;'),
        'goto': body('goto out; out: {s}'), 'call': body('foo({v});'),
        'declaration-in-body': body('{t} qq = 1.0;'), 'increment-statement': body('{v}++;'),
        'counter-assigned': body('{v} = {v} + 1;'), 'counter-stepped': body('{v} += 1;'),
        'outer-counter-assigned': body('{v0} += 2;'),
        'constant-assigned': body('N = 3;'), 'constant-stepped': body('N += 1;'),
        'array-assigned-whole': body('{a} = 1.0;'), 'array-compound-whole': body('{a} += 1.0;'),
        'dereference': body('*{a} = 1.0;'), 'struct-member': body('{a}.x = 1.0;'),
        'nested-block': body('{{ {s} }}'),
        'all-in-if': guard('if ({v} % 2 == 0) {{ {body} }}'),
        'all-in-block-loop': guard('for (;;) {{ {body} break; }}'),
    }


def expression_mutants():
    def rhs(text):
        return lambda src, spec, rng: in_rhs(src, rng, lambda e: text.format(
            e=e, a=next(iter(spec.arrays)), v=spec.loops[-1].var,
            r=rng.choice([r.text() for r in spec.refs() if r.idx is not None])))
    return {
        'call-in-expression': rhs('sqrt({e})'), 'ternary': rhs('{v} > 2 ? {e} : 0.0'),
        'cast': rhs('(float)({e})'), 'chained-assignment': rhs('({r} = {e})'),
        'comma': rhs('({r}, {e})'), 'logical-and': rhs('({e}) && {r}'),
        'logical-or': rhs('({e}) || {r}'), 'not': rhs('!({e})'), 'complement': rhs('~({e})'),
        'address': rhs('&{r}'), 'dereference': rhs('*({a})'), 'sizeof': rhs('sizeof({r})'),
        'whole-array': rhs('({e}) + {a}'), 'member': rhs('{a}.x'), 'arrow': rhs('{a}->x'),
        'string': rhs('"x"[0] + ({e})'), 'compound-literal': rhs('(({e}) + (double){{1.0}})'),
        'counter-side-effect': rhs('({e}) + {v}++'),
    }


def spec_mutants():
    """Changes of the program's structure: fn(spec, rng) changes a copy in place."""
    def pick(spec, rng, nd=1):
        rs = [r for r in spec.refs() if r.idx is not None and len(r.idx) >= nd]
        if not rs:
            raise Skip('no such reference')
        return rng.choice(rs)

    def fewer(spec, rng):
        r = pick(spec, rng, 2)
        r.idx = r.idx[1:] if rng.random() < .5 else r.idx[:-1]

    def more(spec, rng):
        r = pick(spec, rng)
        r.idx = list(r.idx) + [Ex.num(0)] if rng.random() < .5 else [Ex.num(0)] + list(r.idx)

    def fewer_dims(spec, rng):
        r = pick(spec, rng, 2)
        spec.arrays[r.name] = spec.arrays[r.name][:-1]

    def more_dims(spec, rng):
        r = pick(spec, rng)
        spec.arrays[r.name] = list(spec.arrays[r.name]) + [Ex.num(4)]

    def undeclared(spec, rng):
        r = pick(spec, rng)
        spec.arrays.pop(r.name)
        if not spec.arrays:
            raise Skip('no array left')

    def undeclared_read(spec, rng):
        s = rng.choice(spec.stmts)
        s.rhs = ('bin', '+', s.rhs, ('ref', G.Ref('undecl', [Ex.var(spec.loops[-1].var)])))

    def undeclared_write(spec, rng):
        spec.stmts.append(G.Stmt(G.Ref('undecl', [Ex.var(spec.loops[-1].var)]), '=',
                                 ('num', '1.0')))

    def array_as_scalar(spec, rng):
        r = pick(spec, rng)
        spec.arrays.pop(r.name)
        spec.scalars.append(r.name)

    def scalar_as_array(spec, rng):
        rs = [r for r in spec.refs() if r.idx is None]
        if not rs:
            raise Skip('no scalar')
        r = rng.choice(rs)
        r.idx = [Ex.num(0)]

    def name(ex_text):
        def g(spec, rng):
            r = pick(spec, rng)
            k = rng.randrange(len(r.idx))
            idx = list(r.idx)
            idx[k] = copy.copy(idx[k])
            idx[k].text = ex_text.format(x=idx[k].text, v=spec.loops[-1].var,
                                         a=next(iter(spec.arrays)),
                                         z=''.join('[0]' for _ in next(iter(spec.arrays.values()))))
            r.idx = idx
        return g

    def shape(text):
        def g(spec, rng):
            n = rng.choice(sorted(spec.arrays))
            k = rng.randrange(len(spec.arrays[n]))
            ds = list(spec.arrays[n])
            ds[k] = copy.copy(ds[k])
            ds[k].text = text.format(x=ds[k].text, v=spec.loops[0].var)
            spec.arrays[n] = ds
        return g

    def shadow(spec, rng):
        if len(spec.loops) < 2:
            raise Skip('one loop')
        a, b = rng.sample(range(len(spec.loops)), 2)
        spec.loops[a] = copy.copy(spec.loops[a])
        spec.loops[a].var = spec.loops[b].var

    def triangular_end(spec, rng):
        if len(spec.loops) < 2:
            raise Skip('one loop')
        k = rng.randrange(1, len(spec.loops))
        spec.loops[k] = copy.copy(spec.loops[k])
        spec.loops[k].end = Ex.var(spec.loops[rng.randrange(k)].var).plus(rng.choice([0, 1, 2]))

    def triangular_start(spec, rng):
        if len(spec.loops) < 2:
            raise Skip('one loop')
        k = rng.randrange(1, len(spec.loops))
        spec.loops[k] = copy.copy(spec.loops[k])
        spec.loops[k].start = Ex.var(spec.loops[rng.randrange(k)].var)

    def self_bound(spec, rng):
        k = rng.randrange(len(spec.loops))
        spec.loops[k] = copy.copy(spec.loops[k])
        spec.loops[k].end = Ex.var(spec.loops[k].var).plus(5)

    return {
        'fewer-subscripts': fewer, 'more-subscripts': more, 'fewer-dimensions': fewer_dims,
        'more-dimensions': more_dims, 'undeclared-array': undeclared,
        'undeclared-array-read': undeclared_read, 'undeclared-array-written': undeclared_write,
        'array-declared-scalar': array_as_scalar, 'scalar-subscripted': scalar_as_array,
        'indirect-subscript': name('{a}{z}'), 'divided-subscript': name('({x})/2'),
        'modulo-subscript': name('({x})%2'), 'shifted-subscript': name('({x})<<1'),
        'negated-subscript': name('-({x})'), 'float-subscript': name('{x}*1.5'),
        'call-subscript': name('f({x})'), 'ternary-subscript': name('{v}>2?{v}:2'),
        'cast-subscript': name('(int)({x})'), 'incremented-subscript': name('{v}++'),
        'assigned-subscript': name('{v}={v}+1'), 'compared-subscript': name('{x}<2'),
        'masked-subscript': name('({x})&3'), 'comma-subscript': name('0, {x}'),
        'missing-subscript': name(''),
        'divided-shape': shape('({x})/2'), 'shape-of-counter': shape('{v}+20'),
        'call-shape': shape('f({x})'), 'empty-shape': shape(''), 'sizeof-shape': shape('sizeof(int)'),
        'float-shape': shape('10.5'), 'ternary-shape': shape('N>2?{x}:3'),
        'negative-shape': shape('-({x})'),
        'shadowed-counter': shadow, 'triangular-end': triangular_end,
        'triangular-start': triangular_start, 'self-bound': self_bound,
    }


def declaration_mutants():
    def decl(text):
        def g(src, spec, rng):
            n = rng.choice(sorted(spec.arrays))
            return text.format(n=n, t=spec.dtype, d=''.join(
                '[{}]'.format(x.text) for x in spec.arrays[n])) + '\n' + src
        return g

    def retype(to):
        def g(src, spec, rng):
            ls = src.split('\n')
            ds = [i for i, l in enumerate(ls) if l.startswith(spec.dtype + ' ')]
            if to in ('float', 'double') and (len(ds) < 2 or to == spec.dtype):
                raise Skip('single declaration')
            if to == 'both':
                return src
            i = rng.choice(ds)
            ls[i] = to + ls[i][len(spec.dtype):]
            return '\n'.join(ls)
        return g

    def cut(src, spec, rng):
        """Syntax errors."""
        i = rng.choice([m.start() for m in re.finditer(r'[;(){}\]]', src)])
        if src[i] in '{}' or src[i] == ';':
            return src[:i] + src[i + 1:] if src[i] != ';' else src[:i] + ' , ' + src[i + 1:]
        return src[:i] + src[i + 1:]
    return {
        'declared-twice-as-array': decl('{t} {n}[7];'), 'declared-twice-as-scalar': decl('{t} {n};'),
        'declared-twice-larger': decl('{t} {n}{d}[3];'),
        'integer-array': retype('int'), 'char-array': retype('char'), 'mixed-float': retype('float'),
        'mixed-double': retype('double'), 'long-double': retype('long double'),
        'struct-array': retype('struct s'), 'pointer': decl('{t} *ptr;'),
        'array-of-pointers': decl('{t} *ptr[4];'), 'function-pointer': decl('{t} (*fp)(int);'),
        'typedef': decl('typedef {t} real;'), 'function': decl('{t} f(int x);'),
        'struct': decl('struct s {{ int x; }} q;'), 'syntax-error': cut,
    }


def run(ck):
    from kerncraft.kernel import KernelDescription

    def analyse(src, env, desc=None):
        if desc is not None:
            k = KernelDescription(desc)
        else:
            k = U.code_kernel(None, None, source=src, bound=False)
        U.bind(k, env)
        n = k.iteration_length()
        n = int(n)
        {a: int(v) for a, v in k.array_sizes(in_bytes=True, subs_consts=True).items()}
        loops = [(str(l['index']), int(l['start']), int(l['stop']), int(l['increment']))
                 for l in k.get_loop_stack(subs_consts=True)]
        import io
        k.print_kernel_info(output_file=io.StringIO())
        k.print_variables_info(output_file=io.StringIO())
        rows = U.trace_rows(k.compile_global_offsets(iteration=range(0, min(3, max(1, n)))))
        return {'iterations': n, 'loops': loops, 'trace': rows, 'sources': k.sources,
                'destinations': k.destinations, 'flops': U.flops_of(k)}

    text_kinds = {}
    for group, fn in (('loop', loop_mutants), ('structure', structure_mutants),
                      ('expression', expression_mutants), ('declaration', declaration_mutants)):
        for k, g in fn().items():
            text_kinds[group + ':' + k] = g
    spec_kinds = {'program:' + k: g for k, g in spec_mutants().items()}
    kinds = sorted(text_kinds) + sorted(spec_kinds)

    def base(rng):
        o = G.Options(max_depth=3, max_stmts=2, max_len=8, min_len=2)
        for _ in range(50):
            spec = G.generate(rng, o)
            if any(spec.trace_columns()):
                break
        env = dict(spec.env)
        for c in ('N', 'qq'):
            env.setdefault(c, 12)
        return spec, env

    def accepted(obs, spec, env):
        with obs.subject('supported-kernel-refused'), quiet():
            r = analyse(spec.source(), env)
        obs.event('supported kernels accepted')
        return r

    def case(rng, obs):
        kind = kinds[obs.index % len(kinds)]
        spec, env = base(rng)
        good = accepted(obs, spec, env)
        bad = copy.deepcopy(spec)
        if kind in spec_kinds:
            spec_kinds[kind](bad, rng)
            src = bad.source()
        else:
            src = text_kinds[kind](spec.source(), bad, rng)
        if src == spec.source():
            raise Skip('unchanged')
        obs.distinct((kind, src))
        obs.describe(kind=kind, source=src)
        obs.event('mutants')
        obs.event('group ' + kind.split(':')[0])
        env.update({l.var: 5 for l in spec.loops} if rng.random() < .3 and
                   'triangular' not in kind and 'counter' not in kind and 'shape' not in kind
                   and 'self' not in kind and 'other' not in kind else {})
        obs.refuses(lambda: analyse(src, env), 'accepts-' + kind.split(':', 1)[1],
                    'analysed instead of refused', source=src, env=env)

    desc_kinds = ['fewer-subscripts', 'more-subscripts', 'fewer-dimensions', 'more-dimensions',
                  'undeclared-array', 'undeclared-array-read', 'undeclared-array-written',
                  'scalar-subscripted', 'array-declared-scalar', 'shadowed-counter',
                  'triangular-end', 'triangular-start', 'self-bound', 'shape-of-counter']

    def descriptions(rng, obs):
        kind = desc_kinds[obs.index % len(desc_kinds)]
        spec, env = base(rng)
        with obs.subject('supported-kernel-refused'), quiet():
            analyse(None, env, U.description(spec))
        bad = copy.deepcopy(spec)
        spec_mutants()[kind](bad, rng)
        if bad.source() == spec.source():
            raise Skip('unchanged')
        d = U.description(bad)
        obs.distinct((kind, repr(d)))
        obs.describe(kind=kind, description=d)
        obs.event('mutants')
        obs.event('description mutants')
        obs.refuses(lambda: analyse(None, env, d), 'description-accepts-' + kind, source=repr(d))

    def meaning(rng, obs):
        """Constructs with a C meaning: refused or analysed with that meaning."""
        spec, env = base(rng)
        good = accepted(obs, spec, env)
        want = dict(good)
        kind = rng.choice(['octal-limit', 'hex-limit', 'suffix-limit', 'octal-step', 'hex-step',
                           'octal-dim', 'octal-index', 'postfix-read', 'prefix-read',
                           'paren-index', 'plus-sign', 'char-limit'])
        src = spec.source()
        lits = {'octal': ('010', 8), 'hex': ('0x10', 16), 'suffix': (rng.choice(['10u', '10L',
                '10ul', '10LL']), 10), 'char': ("'\\n'", 10)}
        kk = kind.split('-')
        key = 'misreads-' + kind
        if kk[0] in lits and kk[1] == 'limit':
            lit, val = lits[kk[0]]
            k = rng.randrange(len(spec.loops))
            mk = lambda t: rehead(src, rng, lambda d: '{ty} {v}={s}; {v}<{t}; {n}'.format(t=t, **d), k)
            bad, ref = mk(lit), mk(str(val))
        elif kk[0] in lits and kk[1] == 'step':
            lit, val = lits[kk[0]]
            k = rng.randrange(len(spec.loops))
            mk = lambda t: rehead(src, rng, lambda d: '{ty} {v}={s}; {v}<{lim}; {v} += {t}'.format(
                t=t, **d), k)
            bad, ref = mk(lit), mk(str(val))
        elif kind == 'octal-dim':
            bad = spec.dtype + ' extra[4][010];\n' + src
            ref = spec.dtype + ' extra[4][8];\n' + src
        elif kind == 'octal-index':
            a = next(r for r in spec.refs() if r.idx is not None)
            mk = lambda t: at_body(src, a.name + ''.join('[{}]'.format(t) for _ in a.idx) + ' = 1.0;')
            bad, ref = mk('011'), mk('9')
        elif kind == 'paren-index':
            a = next(r for r in spec.refs() if r.idx is not None)
            mk = lambda p, q: at_body(src, a.name + ''.join('[{}{}{}]'.format(p, e.text, q)
                                                            for e in a.idx) + ' = 1.0;')
            bad, ref = mk('((', '))'), mk('', '')
        elif kind == 'plus-sign':
            bad, ref = in_rhs(src, rng, lambda e: '+(' + e + ')'), src
        else:
            # a[i]++ reads and writes a[i]
            st = copy.deepcopy(spec)
            r = rng.choice([r for r in spec.refs() if r.idx is not None])
            form = '{}++' if kind == 'postfix-read' else '++{}'
            bad = in_rhs(src, rng, lambda e: form.format(r.text()))
            obs.distinct((kind, bad))
            obs.describe(kind=kind, source=bad)
            try:
                with quiet():
                    got = analyse(bad, env)
            except Exception:
                obs.event('refusals')
                return
            acc = {n: {None if a is None else tuple(U.poly_of(e) for e in a) for a in s}
                   for n, s in got['destinations'].items()}
            obs.event('meanings compared')
            obs.check(r.polys() in acc.get(r.name, ()), key, 'write of {} missing'.format(r.text()),
                      source=bad)
            obs.check(sum(got['flops'].values()) >= 1, key, 'operation missing', source=bad)
            return
        obs.distinct((kind, bad))
        obs.describe(kind=kind, source=bad)
        with quiet():
            try:
                want = analyse(ref, env)
            except Exception:
                raise Skip('reference refused')
            try:
                got = analyse(bad, env)
            except Exception:
                obs.event('refusals')
                return
        obs.event('meanings compared')
        want.pop('flops'), got.pop('flops')
        obs.check(got == want, key, 'differs from {}'.format(ref), source=bad, got=got, want=want)

    ck.cases('mutants', len(kinds) * ck.pick(8, 60), case, share=.7)
    ck.cases('descriptions', len(desc_kinds) * ck.pick(8, 60), descriptions, share=.5)
    ck.cases('meanings', ck.pick(250, 2500), meaning)
    ck.require('mutants', 400)
    ck.require('supported kernels accepted', 400)
    ck.require('description mutants', 50)
    for g in ('loop', 'structure', 'expression', 'declaration', 'program'):
        ck.require('group ' + g, 50)
