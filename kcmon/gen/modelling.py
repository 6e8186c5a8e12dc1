"""Performance models on generated kernels, machines, in-core results and cache traffic."""
import io
import math
import re
from kcmon.core import Skip, quiet
from kcmon.gen import kernels, machines, util

UNITS = ('cy/CL', 'cy/It', 'It/s', 'FLOP/s')
PREFIX = {'': 1, 'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21,
          'Y': 1e24}


class Args:
    """Stands for parsed command line arguments."""

    def __init__(self, **kw):
        self.cores, self.verbose, self.unit = 1, 0, 'cy/CL'
        self.cache_predictor, self.asm_block = 'LC', 'auto'
        self.pointer_increment, self.incore_model = 'auto', 'OSACA'
        self.compiler, self.compiler_flags = None, None
        self.__dict__.update(kw)


def incore_kernel(source, machine, env, result, increment, asked):
    """A kernel whose in-core analysis gives *result*; requests are appended to *asked*."""
    from kerncraft.kernel import KernelCode

    class Kernel(KernelCode):
        def incore_analysis(self, asm_block='auto', pointer_increment='auto', model=None,
                            verbose=False):
            asked.append((asm_block, pointer_increment, model))
            return {k: (dict(v) if isinstance(v, dict) else v) for k, v in result.items()}, \
                increment
    k = Kernel(source, machine)
    util.bind(k, env)
    return k


def stub_predictor(traffic, made):
    """A predictor class which reports *traffic* (dictionary of lists)."""
    from kerncraft.cacheprediction import CachePredictor

    class Stub(CachePredictor):
        def __init__(self, kernel, machine, cores=1):
            super().__init__(kernel, machine, cores)
            made.append(cores)

        def get_loads(self):
            return list(traffic['loads'])

        def get_stores(self):
            return list(traffic['stores'])

        def get_misses(self):
            return list(traffic['misses'])

        def get_hits(self):
            return list(traffic['hits'])

        def get_evicts(self):
            return list(traffic['evicts'])

        def get_infos(self):
            return {'stub': True}
    return Stub


def number(rng, x):
    """x as one of the kinds of numbers predictors return."""
    if x == int(x) and rng.random() < .5:
        return int(x)
    return float(x)


def traffic(rng, levels):
    """Random traffic per level (index 0: CPU-L1, not known)."""
    mode = rng.choice(['int', 'int', 'float', 'tiny', 'none', 'mixed'])
    vanish = rng.randint(1, levels) if rng.random() < .35 else None
    loads, stores = [float('nan')], [0]
    for l in range(1, levels + 1):
        if mode == 'none' or vanish is not None and l > vanish:
            a, b = 0, 0
        elif mode == 'int' or mode == 'mixed' and rng.random() < .5:
            a, b = rng.randint(0, 12), rng.randint(0, 6)
        elif mode == 'tiny':
            a, b = rng.uniform(0, .02), rng.uniform(0, .01)
        else:
            a, b = rng.uniform(0, 12), rng.choice([0, rng.uniform(0, 6)])
        loads.append(number(rng, a))
        stores.append(number(rng, b))
    return {'loads': loads, 'stores': stores, 'misses': loads[1:] + [0], 'hits': [0] * (levels + 1),
            'evicts': stores[1:] + [0]}


class World:
    """One kernel on one machine with one in-core result, and what the oracles know of it."""

    def __init__(self, rng, real=None, small=False):
        data = machines.generated(rng)
        h = data['memory hierarchy']
        # only level transfers between overlapping and non-overlapping parts: a prefix
        over = rng.choice([0, 0, 0, 1, 2, len(h), rng.randint(0, len(h))])
        for i, e in enumerate(h):
            e['transfers overlap'] = i < over
        self.over = over
        for e in h:
            if real == 'SIM' and 'cache per group' in e:
                if e['cache per group']['replacement_policy'] == 'RR':
                    e['cache per group']['replacement_policy'] = 'LRU'
        if 'penalty cycles per cacheline load' not in h[-1] and rng.random() < .4:
            k = rng.choice(['load', 'store'])
            h[-1]['penalty cycles per cacheline ' + k] = rng.choice([0, 1.5, 4])
        models = ['OSACA', 'LLVM-MCA']
        rng.shuffle(models)
        data['in-core model'] = {m: 'X' for m in models}
        ports = ['0', '0DV', '1', '2', '2D', '3', '3D', '4', '5', '5D']
        self.ports = {}
        for m in models:
            ol = rng.sample(ports, rng.randint(1, 7))
            nol = rng.sample([p for p in ports if p not in ol], rng.randint(1, 3))
            self.ports[m] = (ol, nol)
        data['overlapping model']['ports'] = {m: p[0] for m, p in self.ports.items()}
        data['non-overlapping model']['ports'] = {m: p[1] for m, p in self.ports.items()}
        for p in ('SP', 'DP'):
            a = rng.choice([1, 2, 4, 8])
            data['FLOPs per cycle'][p] = {'total': 2 * a, 'ADD': a, 'MUL': a}
        if rng.random() < .8:
            data['FLOPs per cycle']['SP']['total'] = 2 * data['FLOPs per cycle']['DP']['total']
        self.data = data
        self.h = h
        self.machine = machines.model(data)
        self.clock = float(data['clock'])
        self.cl = int(float(data['cacheline size']))
        if real is not None:
            from kcmon.checks.c07 import stencil
            self.spec = stencil(rng)
            self.spec.env = {c: rng.choice([30, 50, 200] if small else [50, 200, 1000, 10 ** 4])
                             for c in self.spec.env}
        else:
            self.spec = kernels.generate(rng, kernels.Options(
                inner_steps=(1, 1, 1, 2, 2, 3, 4), max_len=60, min_len=1, max_depth=3))
        self.step = self.spec.loops[-1].step
        self.bpi = self.spec.esize * self.step
        self.it_cl = self.cl / self.bpi
        self.flops = sum(self.spec.flops().values())
        self.dp = 'double' in self.spec.dtype
        # in-core result
        self.its_block = rng.choice([1, 2, 4, 8, 8, 16, 3])
        self.increment = self.its_block * self.bpi * rng.choice([1, 1, 1, -1])
        cyc = {p: rng.choice([0, round(rng.uniform(0, 30), 2), float(rng.randint(0, 16))])
               for p in rng.sample(ports, rng.randint(2, len(ports)))}
        top = max(cyc.values())
        thr = rng.choice([max(top, .5), max(top, .5), top + rng.uniform(.1, 20),
                          rng.uniform(.5, 10)])
        if rng.random() < .1:
            cyc['other'] = 99.0
        self.incore = {'throughput': thr, 'port cycles': cyc,
                       'uops': rng.choice([None, 7, 12.5]), 'output': 'in-core output'}
        self.model = rng.choice(models + [None] + ['OSACA'])
        self.modelname = self.model or models[0]
        self.asked = []
        self.source = self.spec.source(rng)
        self.kernel = incore_kernel(self.source, self.machine, self.spec.env,
                                    self.incore, self.increment, self.asked)
        self.cores = rng.randint(1, data['cores per socket'])
        self.asm_block = rng.choice(['auto', 'auto', 'manual', 3])
        self.pincr = rng.choice(['auto', 'auto_with_manual_fallback', 'manual', 32])
        self.real = real
        self.made = []
        if real is None:
            self.traffic = traffic(rng, len(h) - 1)
        self.unit = rng.choice(UNITS)
        self.verbose = rng.choice([0, 0, 1, 2, 3])

    def predicted(self):
        """(loads, stores) of a predictor of its own."""
        if self.real is None:
            return self.traffic['loads'], self.traffic['stores']
        from kerncraft.cacheprediction import LayerConditionPredictor, CacheSimulationPredictor
        cls = {'LC': LayerConditionPredictor, 'SIM': CacheSimulationPredictor}[self.real]
        k = util.code_kernel(self.spec, self.machine, source=self.source)
        try:
            with quiet():
                p = cls(k, self.machine, self.cores)
                return p.get_loads(), p.get_stores()
        except (ValueError, AssertionError, ZeroDivisionError, NotImplementedError,
                TypeError) as e:
            raise Skip('predictor: {}'.format(type(e).__name__))

    def build(self, cls, pname='cache_predictor', incore=True, data=True):
        """The model: with arguments (real predictors) or by keywords (stub)."""
        if self.real is not None:
            return cls(self.kernel, self.machine, Args(
                cores=self.cores, verbose=self.verbose, unit=self.unit, cache_predictor=self.real,
                asm_block=self.asm_block, pointer_increment=self.pincr,
                incore_model=self.model), None)
        kw = {'verbose': self.verbose, 'unit': self.unit}
        if data:
            kw.update({'cores': self.cores, pname: stub_predictor(self.traffic, self.made)})
        if incore:
            kw.update({'asm_block': self.asm_block, 'pointer_increment': self.pincr,
                       'incore_model': self.model})
        return cls(self.kernel, self.machine, **kw)

    # ---------------------------------------------------------------------------- oracles
    def convert(self, it_s):
        """What *it_s* iterations per second are in every unit."""
        cy_it = self.clock / it_s if it_s else float('inf')
        return {'It/s': it_s, 'cy/It': cy_it, 'cy/CL': cy_it * self.it_cl,
                'FLOP/s': it_s * self.flops}

    def from_cy_cl(self, cy):
        return self.convert(self.clock / (cy / self.it_cl) if cy else float('inf'))

    def judge_units(self, obs, got, want, key, what, rel=1e-9):
        """All units of one reported performance."""
        for u in UNITS:
            w = want[u]
            if math.isnan(w) or (math.isinf(w) and u == 'FLOP/s' and not self.flops):
                continue
            g = float(got[u])
            if not obs.check(close(g, w, rel), key, '{}: {} {} instead of {} (all: {})'.format(
                    what, g, u, w, {k: str(v) for k, v in got.items()})):
                return False
            if hasattr(got[u], 'unit'):
                obs.check(got[u].unit == u, key + '-name', '{}: unit {!r} in place of {!r}'.format(
                    what, got[u].unit, u))
        obs.event('conversions', 4)
        return True

    def describe(self, obs, **kw):
        obs.describe(source=self.spec.source(), env=str(self.spec.env), it_cl=self.it_cl,
                     traffic=str(getattr(self, 'traffic', self.real)), **kw)


def close(a, b, rel=1e-9):
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def quantity(text):
    """(value, unit) of a printed quantity."""
    m = re.match(r'^\s*(-?(?:[0-9]+(?:\.[0-9]+)?|inf|nan))\s*([kMGTPEZY]?)(cy/CL|cy/It|It/s|FLOP/s|'
                 r'B/s)', text)
    if not m:
        return None
    return float(m.group(1)) * PREFIX[m.group(2)], m.group(3), PREFIX[m.group(2)]


def printed(obs, text, want, unit, key, what):
    """A printed quantity denotes *want* (in *unit*), up to the two digits shown."""
    q = quantity(text)
    if not obs.check(q is not None and q[1] == unit, key,
                     '{}: {!r} shown, expected {} {}'.format(what, text, want, unit)):
        return
    obs.event('printed quantities')
    if math.isnan(want):
        return
    ok = q[0] == want if math.isinf(want) or math.isinf(q[0]) else \
        abs(q[0] - want) <= .00501 * q[2] + .0101 * abs(want)
    obs.check(ok, key, '{}: {!r} shown, expected {} {}'.format(what, text, want, unit))


def report(model):
    """(text given to output_file, text printed elsewhere)."""
    out = io.StringIO()
    with quiet() as (o, e):
        model.report(output_file=out)
    return out.getvalue(), o.getvalue()
