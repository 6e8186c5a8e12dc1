"""
Random kernels in the documented C subset, together with their reference semantics.

A Spec knows the program it renders: loops (name, start, end, step), arrays (name, dims), scalars,
statements.  Everything the oracles compare against is computed from the Spec and a binding of its
constants, never from kerncraft.
"""
import itertools
from functools import reduce
from .poly import Poly, Ex

SIZES = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}


class Ref:
    """Array reference (or scalar, idx None)."""

    def __init__(self, name, idx):
        self.name, self.idx = name, idx

    def text(self):
        if self.idx is None:
            return self.name
        return self.name + ''.join('[{}]'.format(e.text) for e in self.idx)

    def polys(self):
        return None if self.idx is None else tuple(e.poly for e in self.idx)


class Loop:
    def __init__(self, var, start, end, step):
        self.var, self.start, self.end, self.step = var, start, end, step

    def length(self, env):
        s, e = self.start.poly(env), self.end.poly(env)
        return max(0, -(-(e - s) // self.step))

    def values(self, env):
        return range(self.start.poly(env), self.end.poly(env), self.step)


class Stmt:
    """lhs op rhs; rhs is a tree: ('ref', Ref) ('num', text) ('bin', op, l, r) ('neg', e)."""

    def __init__(self, lhs, op, rhs):
        self.lhs, self.op, self.rhs = lhs, op, rhs


def tree_refs(t):
    if t[0] == 'ref':
        yield t[1]
    elif t[0] == 'bin':
        yield from tree_refs(t[2])
        yield from tree_refs(t[3])
    elif t[0] == 'neg':
        yield from tree_refs(t[1])


def tree_flops(t, d):
    if t[0] == 'bin':
        tree_flops(t[2], d)
        tree_flops(t[3], d)
        d[t[1]] = d.get(t[1], 0) + 1
    elif t[0] == 'neg':
        tree_flops(t[1], d)
        d['-'] = d.get('-', 0) + 1


def tree_text(t, prec=0, rng=None):
    if t[0] == 'ref':
        return t[1].text()
    if t[0] == 'num':
        return t[1]
    if t[0] == 'neg':
        return '(-' + tree_text(t[1], 3, rng) + ')'
    p = {'+': 1, '-': 1, '*': 2, '/': 2}[t[1]]
    sp = ' ' if rng is None or rng.random() < .6 else ''
    s = tree_text(t[2], p, rng) + sp + t[1] + sp + tree_text(t[3], p + 1, rng)
    if p < prec or (rng is not None and rng.random() < .08):
        s = '(' + s + ')'
    return s


class Spec:
    def __init__(self, dtype, loops, arrays, scalars, stmts, env, index_type='int'):
        self.dtype, self.loops, self.arrays = dtype, loops, arrays
        self.scalars, self.stmts, self.env, self.index_type = scalars, stmts, dict(env), index_type
        self.esize = SIZES[dtype]
        self.swaps = []

    # ----------------------------------------------------------------- reference semantics
    def consts(self):
        """Constant symbols the program uses."""
        vs = set()
        for l in self.loops:
            vs |= l.start.poly.vars() | l.end.poly.vars()
        for dims in self.arrays.values():
            for d in dims:
                vs |= d.poly.vars()
        for r in self.refs():
            for e in (r.idx or ()):
                vs |= e.poly.vars()
        return sorted(vs - {l.var for l in self.loops})

    def refs(self):
        for s in self.stmts:
            yield s.lhs
            yield from tree_refs(s.rhs)

    def reads(self):
        for s in self.stmts:
            if s.op != '=':
                yield s.lhs
            yield from tree_refs(s.rhs)

    def writes(self):
        for s in self.stmts:
            yield s.lhs

    @staticmethod
    def distinct(refs):
        """name -> set of index polynomial tuples (None for scalars)."""
        d = {}
        for r in refs:
            d.setdefault(r.name, set()).add(r.polys())
        return d

    def flops(self):
        d = {}
        for s in self.stmts:
            tree_flops(s.rhs, d)
            if s.op != '=':
                d[s.op[0]] = d.get(s.op[0], 0) + 1
        return d

    def flat(self, name, polys):
        """Row-major element offset polynomial."""
        dims = [d.poly for d in self.arrays[name]]
        r = Poly()
        for k, p in enumerate(polys):
            r = r + p * reduce(lambda a, b: a * b, dims[k + 1:], Poly.const(1))
        return r

    def lengths(self, env=None):
        return [l.length(env or self.env) for l in self.loops]

    def total(self, env=None):
        return reduce(lambda a, b: a * b, self.lengths(env), 1)

    def indices(self, n, env=None):
        """Loop indices of the n-th executed iteration."""
        env = env or self.env
        out = {}
        for l in reversed(self.loops):
            ln = l.length(env)
            out[l.var] = l.start.poly(env) + (n % ln) * l.step
            n //= ln
        return out

    def nest(self, env=None):
        """Execute the loop nest: yield index dictionaries in order."""
        env = env or self.env
        for vals in itertools.product(*[l.values(env) for l in self.loops]):
            yield dict(zip((l.var for l in self.loops), vals))

    def bases(self, env=None, spacing=0, cl=64):
        """Alphabetical, cacheline aligned layout documented by compile_global_offsets."""
        env = env or self.env
        base, r = 0, {}
        for n in sorted(self.arrays):
            r[n] = base
            size = self.esize * reduce(lambda a, b: a * b,
                                       [d.poly(env) for d in self.arrays[n]], 1) + spacing
            base += -(-size // cl) * cl
        return r

    def varying(self, name, polys):
        """Whether the access moves with any loop counter."""
        return bool(self.flat(name, polys).vars() & {l.var for l in self.loops})

    def trace_columns(self):
        """(load polys, store polys): flattened accesses that depend on a loop counter."""
        out = []
        for refs in (self.reads(), self.writes()):
            cols = []
            for name, accs in sorted(self.distinct(refs).items()):
                if name in self.arrays:
                    cols += [(name, self.flat(name, a)) for a in accs if self.varying(name, a)]
            out.append(cols)
        return out

    def in_bounds(self, env=None, per_dim=True):
        env = env or self.env
        corner = [(l.start.poly(env), l.values(env)[-1] if len(l.values(env)) else None)
                  for l in self.loops]
        if any(b is None for a, b in corner):
            return False
        for r in self.refs():
            if r.idx is None:
                continue
            dims = [d.poly(env) for d in self.arrays[r.name]]
            if min(dims) < 1:
                return False
            for vals in itertools.product(*corner):
                e = dict(env, **dict(zip((l.var for l in self.loops), vals)))
                for x, d in zip(r.idx, dims):
                    if not 0 <= x.poly(e) < d:
                        return False
        return True

    # ------------------------------------------------------------------------- rendering
    def source(self, rng=None, comments=True, pragmas=True):
        def maybe(p):
            return rng is not None and rng.random() < p
        L = []
        decls = [(n, ''.join('[{}]'.format(d.text) for d in ds)) for n, ds in self.arrays.items()]
        decls += [(n, '') for n in self.scalars]
        if rng is not None:
            rng.shuffle(decls)
        i = 0
        while i < len(decls):
            j = i + 1
            while j < len(decls) and maybe(.3):
                j += 1
            L.append('{} {};'.format(self.dtype, ', '.join(n + d for n, d in decls[i:j])))
            if comments and maybe(.2):
                L[-1] += ' // decl; double x[i];'
            i = j
        if maybe(.3):
            L.append('')
        body = []
        for s in self.stmts:
            sp = '' if maybe(.3) else ' '
            body.append('{}{}{}{}{};'.format(s.lhs.text(), sp, s.op, sp, tree_text(s.rhs, 0, rng)))
            if maybe(.1):
                body[-1] = body[-1].replace(';', '\n   ;')
            if comments and maybe(.15):
                body[-1] += ' // ' + s.lhs.text() + ' = 0'
        for depth, l in reversed(list(enumerate(self.loops))):
            if l.step == 1 and not maybe(.2):
                inc = l.var + '++' if maybe(.4) else '++' + l.var
            else:
                inc = '{} += {}'.format(l.var, l.step)
            head = 'for({} {}={}; {}{}<{}{}; {})'.format(
                self.index_type, l.var, l.start.text, l.var, ' ' if maybe(.4) else '',
                ' ' if maybe(.4) else '', l.end.text, inc)
            brace = len(body) != 1 and depth == len(self.loops) - 1 or not maybe(.4) \
                or any(b.startswith('#') for b in body)
            if brace:
                if maybe(.2):
                    body = [head, '{'] + ['  ' + b if not b.startswith('#') else b
                                          for b in body] + ['}']
                else:
                    body = [head + ' {'] + ['  ' + b if not b.startswith('#') else b
                                            for b in body] + ['}']
            else:
                body = [head] + ['  ' + b for b in body]
            if pragmas and maybe(.12):
                body = ['#pragma ' + rng.choice(['vector aligned', 'unroll(4)', 'ivdep'])] + body
            if comments and maybe(.15):
                body = ['// loop over ' + l.var + ' { '] + body
        text = '\n'.join(L + body)
        for a, b in self.swaps:
            text += '\nswap({}, {});'.format(a, b)
        if not maybe(.3):
            text += '\n'
        return text

    def __repr__(self):
        return 'Spec({}, {!r})'.format(self.env, self.source())


class Options:
    def __init__(self, **kw):
        self.max_depth = 3
        self.steps = (1, 1, 1, 2, 3, 4)
        self.inner_steps = None
        self.dtypes = ('double', 'double', 'float', 'double _Complex', 'float _Complex')
        self.max_len = 14
        self.flat = True           # accesses like a[j*N+i]
        self.scaled = True         # accesses like a[2*i+1]
        self.mixed = True          # accesses like a[i+j], a[i][i], a[j][i] transposed
        self.const_idx = True
        self.scalars = True
        self.scalar_dest = True
        self.compound = True
        self.max_stmts = 3
        self.max_arrays = 4
        self.distinct_consts = True
        self.numeric_dims = True
        self.neg = True
        self.div = True
        self.empty_ok = False
        self.names = ('a', 'b', 'c', 'u', 'v', 'W', 'X', 'dta', 'x1', 'Ax', 'B_', 'rho')
        self.min_len = 1
        self.__dict__.update(kw)


CONSTS = ('N', 'M', 'L', 'K', 'NX', 'size', 'n_i')
INDICES = ('i', 'j', 'k', 'l')


def generate(rng, opt=None):
    """A random in-bounds Spec."""
    o = opt or Options()
    for _ in range(200):
        s = _generate(rng, o)
        if s is not None and s.in_bounds() and len(list(s.writes())) > 0:
            return s
    raise RuntimeError('generator found no kernel')


def _generate(rng, o):
    depth = rng.choice([d for d in (1, 1, 2, 2, 2, 3, 3, 4) if d <= o.max_depth])
    names = list(INDICES[:depth])
    rng.shuffle(names)
    if rng.random() < .6:
        names = {1: ['i'], 2: ['j', 'i'], 3: ['k', 'j', 'i'], 4: ['l', 'k', 'j', 'i']}[depth]
    consts = rng.sample(CONSTS, depth + 1)
    env = {}
    loops = []
    for d in range(depth):
        inner = d == depth - 1
        step = rng.choice(o.inner_steps if inner and o.inner_steps else o.steps)
        start = rng.choice([0, 0, 1, 1, 2, 3])
        ln = rng.randint(o.min_len, o.max_len if inner else max(2, o.max_len // 2))
        end = start + (ln - 1) * step + rng.randint(1, step)
        c = consts[d] if rng.random() < .85 else rng.choice(consts[:d + 1])
        style = rng.random()
        if c in env and style < .9:
            e_ = env[c]
            slack = rng.choice([0, 1, 2])
            if e_ - slack <= start:
                return None
            endx = Ex.var(c).plus(-slack, rng)
        elif style < .1:
            endx = Ex.num(end)
        else:
            kind = rng.random()
            if kind < .12 and end % 2 == 0:
                env[c] = end // 2
                endx = Ex.num(2).bin('*', Ex.var(c), rng) if rng.random() < .5 else \
                    Ex.var(c).bin('*', Ex.num(2), rng)
            else:
                slack = rng.choice([0, 0, 1, 1, 2, -1])
                if end + slack < 1:
                    return None
                env[c] = end + slack
                endx = Ex.var(c).plus(-slack, rng)
        startx = Ex.num(start)
        if rng.random() < .05:
            startx = Ex.num(start + 1).plus(-1)
        loops.append(Loop(names[d], startx, endx, step))
    lv = [l.var for l in loops]
    by = {l.var: l for l in loops}
    if any(l.length(env) < 1 for l in loops):
        return None

    arr_names = rng.sample(o.names, rng.randint(1, o.max_arrays))
    scal_names = rng.sample([n for n in ('s', 't', 'alpha', 'w0') if n not in arr_names],
                            rng.randint(0, 3)) if o.scalars else []
    # array "roles": which loop each dimension is walked by
    roles = {}
    for n in arr_names:
        r = rng.random()
        if o.flat and r < .12 and depth >= 2:
            roles[n] = 'flat'
        elif o.mixed and r < .3:
            roles[n] = [rng.choice(lv + ([None] if o.const_idx else []))
                        for _ in range(rng.randint(1, min(4, depth + 1)))]
        else:
            k = rng.choice(range(1, depth + 1)) if rng.random() < .3 else depth
            roles[n] = lv[-k:]

    maxidx = {}

    def index_for(v, name, dim):
        if v is None:
            e = Ex.num(rng.randint(0, 3))
            if rng.random() < .2 and env:
                c = rng.choice(sorted(env))
                e = Ex.var(c).plus(rng.choice([0, 1, 2]))
            return e
        st = by[v].start.poly(env)
        r = rng.random()
        if o.scaled and r < .12:
            f = rng.randint(2, 3)
            e = Ex.num(f).bin('*', Ex.var(v), rng) if rng.random() < .5 else \
                Ex.var(v).bin('*', Ex.num(f), rng)
            return e.plus(rng.randint(-min(f * st, 3), 3), rng)
        if o.mixed and r < .18 and len(lv) > 1:
            w = rng.choice([x for x in lv if x != v])
            return Ex.var(v).bin('+', Ex.var(w), rng)
        if o.mixed and r < .22 and o.const_idx:
            c = rng.choice(sorted(env)) if env else None
            if c:
                return Ex.var(v).bin('+', Ex.var(c), rng)
        return Ex.var(v).plus(rng.randint(-min(st, 3), 3) if rng.random() < .6 else 0, rng)

    flat_stride = {}

    def ref(n):
        if n in scal_names:
            return Ref(n, None)
        role = roles[n]
        if role == 'flat':
            ks = lv[-2:]
            stride = flat_stride.setdefault(n, rng.choice(sorted(env)) if env else None)
            if stride is None:
                idx = [Ex.var(ks[1])]
            else:
                st = by[ks[0]].start.poly(env)
                outer = Ex.var(ks[0]).plus(rng.randint(-min(st, 1), 1), rng)
                ist = by[ks[1]].start.poly(env)
                inner = Ex.var(ks[1]).plus(rng.randint(-min(ist, 2), 2)
                                           if rng.random() < .4 else 0, rng)
                idx = [outer.bin('*', Ex.var(stride), rng).bin('+', inner, rng)]
                if rng.random() < .3:
                    idx = [inner.bin('+', Ex.var(stride).bin('*', outer, rng), rng)]
        else:
            idx = [index_for(v, n, k) for k, v in enumerate(role)]
        return Ref(n, idx)

    def tree(d):
        r = rng.random()
        if d <= 0 or r < .25:
            r = rng.random()
            if r < .15:
                return ('num', rng.choice(['0.25', '2.0', '1.0e-3', '3', '0.5', '1.5']))
            pool = arr_names * 3 + scal_names
            return ('ref', ref(rng.choice(pool)))
        if o.neg and r < .31:
            return ('neg', tree(d - 1))
        ops = ['+', '+', '-', '*', '*'] + (['/'] if o.div else [])
        return ('bin', rng.choice(ops), tree(d - 1), tree(d - 1))

    stmts = []
    for _ in range(rng.randint(1, o.max_stmts)):
        if o.scalar_dest and scal_names and rng.random() < .2:
            lhs = Ref(rng.choice(scal_names), None)
        else:
            lhs = ref(rng.choice(arr_names))
        op = rng.choice(['=', '=', '=', '+=', '-=', '*=']) if o.compound else '='
        stmts.append(Stmt(lhs, op, tree(rng.randint(1, 4))))

    used = {r.name for s in stmts for r in [s.lhs] + list(tree_refs(s.rhs))}
    # dimensions: large enough for every access at this binding
    arrays = {}
    corners = list(itertools.product(*[(l.start.poly(env), l.values(env)[-1]) for l in loops]))
    for n in arr_names:
        need = None
        for s in stmts:
            for r in [s.lhs] + list(tree_refs(s.rhs)):
                if r.name == n:
                    for vals in corners:
                        e = dict(env, **dict(zip(lv, vals)))
                        idx = [x.poly(e) for x in r.idx]
                        if min(idx) < 0:
                            return None
                        need = idx if need is None else [max(a, b) for a, b in zip(need, idx)]
        if need is None:
            need = [3] * (len(roles[n]) if roles[n] != 'flat' else 1)
            if rng.random() < .5:
                continue
        dims = []
        for k, m in enumerate(need):
            m += 1
            cands = [Ex.var(c).plus(x) for c in sorted(env) for x in (0, 1, 2, 3, 4)
                     if env[c] + x >= m and env[c] + x <= m + 8]
            cands += [Ex.num(f).bin('*', Ex.var(c)).plus(x) for c in sorted(env)
                      for f in (2, 3) for x in (0, 3, 6)
                      if f * env[c] + x >= m and f * env[c] + x <= m + 20]
            cands += [Ex.var(c).bin('*', Ex.var(d)) for c in sorted(env) for d in sorted(env)
                      if m <= env[c] * env[d] <= m + 30]
            cands = [c for c in cands if c.poly(env) > 0]
            if (not cands) or (o.numeric_dims and rng.random() < .15):
                cands = [Ex.num(m + rng.randint(0, 3))]
            dims.append(rng.choice(cands[:6] if rng.random() < .7 else cands))
        arrays[n] = dims
    scal = [n for n in scal_names if n in used or rng.random() < .3]
    if not any(r.name in arrays for s in stmts for r in [s.lhs]):
        return None
    if all(s.lhs.name in scal_names for s in stmts):
        return None
    return Spec(rng.choice(o.dtypes), loops, arrays, scal, stmts, env,
                index_type=rng.choice(['int', 'int', 'long', 'unsigned int'])
                if o.__dict__.get('index_types', True) else 'int')
