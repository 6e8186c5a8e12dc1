"""Ways into the code under test which several checks share (public interfaces only)."""
import io
import re


def machine_stub(cl=64, **kw):
    from kerncraft.machinemodel import MachineModel
    from kerncraft.prefixedunit import PrefixedUnit
    d = {'kerncraft version': '0.8.11.dev0', 'cacheline size': PrefixedUnit(cl, '', 'B')}
    d.update(kw)
    return MachineModel(machine_yaml=d)


def sym(name):
    from kerncraft.kernel import symbol_pos_int
    return symbol_pos_int(name)


def bind(kernel, env):
    for k, v in env.items():
        kernel.set_constant(k, int(v))


def code_kernel(spec, machine=None, rng=None, env=None, source=None, bound=True, **kw):
    from kerncraft.kernel import KernelCode
    k = KernelCode(source if source is not None else spec.source(rng), machine, **kw)
    if bound:
        bind(k, env or spec.env)
    return k


def description(spec, rng=None, drop_scalars=False):
    """The YAML description dictionary of a Spec."""
    ty = tuple(spec.dtype.split())
    d = {'arrays': {}, 'loops': [], 'data sources': {}, 'data destinations': {},
         'flops': dict(spec.flops())}
    for n, dims in spec.arrays.items():
        d['arrays'][n] = {'type': ty, 'dimension': [_val(x, rng) for x in dims]}
    if not drop_scalars:
        for n in spec.scalars:
            d['arrays'][n] = {'type': ty, 'dimension': None}
    for l in spec.loops:
        d['loops'].append({'index': l.var, 'start': _val(l.start, rng), 'stop': _val(l.end, rng),
                           'step': l.step})
    for key, refs in (('data sources', spec.reads()), ('data destinations', spec.writes())):
        seen = set()
        for r in refs:
            if r.idx is None and drop_scalars:
                continue
            k = (r.name, r.polys())
            if k in seen:
                continue
            seen.add(k)
            d[key].setdefault(r.name, []).append(
                None if r.idx is None else [_val(e, rng) for e in r.idx])
    return d


def _val(ex, rng):
    if re.fullmatch('[0-9]+', ex.text) and (rng is None or rng.random() < .8):
        return int(ex.text)
    return ex.text


def flops_of(kernel):
    """FLOP counts as the kernel report prints them."""
    out = io.StringIO()
    kernel.print_kernel_info(output_file=out)
    text = out.getvalue()
    text = text[text.index('FLOPs:'):]
    r = {}
    for line in text.split('\n'):
        m = re.match(r'^(?:FLOPs:)?\s*(\S+) \|\s+([0-9]+)\s*$', line)
        if m:
            r[m.group(1)] = int(m.group(2))
    return r


def poly_of(expr):
    """kerncraft's sympy expression as a reference polynomial."""
    import sympy
    from .poly import Poly
    expr = sympy.expand(expr)
    t = {}
    for m, c in expr.as_coefficients_dict().items():
        vs = []
        for f in sympy.Mul.make_args(m):
            b, e = f.as_base_exp()
            if b == 1:
                continue
            vs += [b.name] * int(e)
        k = tuple(sorted(vs))
        t[k] = t.get(k, 0) + int(c)
    return Poly(t)


def trace_rows(offsets):
    """[(sorted loads, sorted stores)] of a compile_global_offsets result."""
    return [(sorted(int(x) for x in r['load']), sorted(int(x) for x in r['store']))
            for r in offsets]


def ref_rows(spec, its, env=None, spacing=0, cl=64):
    env = env or spec.env
    bases = spec.bases(env, spacing, cl)
    cols = spec.trace_columns()
    rows = []
    for n in its:
        e = dict(env)
        e.update(spec.indices(n, env))
        rows.append(tuple(sorted(bases[a] + spec.esize * p(e) for a, p in c) for c in cols))
    return rows
