"""Machine descriptions: the shipped ones and generated ones."""
import copy
import os
from kcmon.gen.recorder import REPO


def shipped():
    d = os.path.join(REPO, 'examples/machine-files')
    r = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.yml')]
    t = os.path.join(REPO, 'tests/test_files')
    return r + [os.path.join(t, f) for f in ('SandyBridgeEP_E5-2680.yml',
                                             'HaswellEP_E5-2695v3.yml')]


def load(path):
    from kerncraft.machinemodel import MachineModel
    from kcmon.core import Skip, quiet
    with quiet():
        try:
            return MachineModel(path)
        except ValueError:
            raise Skip('incompatible version')


def generated(rng, levels=None, noncontiguous=False):
    """The dictionary of a random but plausible machine description."""
    from kerncraft.prefixedunit import PrefixedUnit as Q
    levels = levels or rng.choice([1, 2, 3, 3, 3, 4])
    cores = rng.choice([1, 2, 4, 6, 8, 10, 12, 16])
    numa = rng.choice([n for n in (1, 2, 4) if cores % n == 0])
    sockets = rng.choice([1, 2])
    smt = rng.choice([1, 2])
    cl = rng.choice([64, 64, 64, 128, 32])
    clock = rng.choice([1.5, 2.0, 2.3, 2.7, 3.35])
    hierarchy = []
    sets, ways = rng.choice([16, 32, 64]), rng.choice([2, 4, 8])
    for i in range(levels):
        group = 1 if i < 2 and rng.random() < .8 else rng.choice(
            [g for g in range(1, cores + 1) if cores % g == 0])
        c = {'sets': sets, 'ways': ways, 'cl_size': cl if rng.random() < .5 else Q(cl, '', 'B'),
             'replacement_policy': rng.choice(['LRU', 'LRU', 'FIFO', 'RR']),
             'write_allocate': True, 'write_back': True}
        if i < levels - 1:
            c['load_from'] = 'L{}'.format(i + 2)
            c['store_to'] = 'L{}'.format(i + 2)
        e = {'level': 'L{}'.format(i + 1), 'cache per group': c, 'cores per group': group,
             'threads per group': group * smt, 'groups': cores * sockets // group,
             'upstream throughput': [
                 Q(rng.choice([16, 32, 64, 24.5]), '', 'B/cy'),
                 rng.choice(['half-duplex', 'full-duplex'])],
             'performance counter metrics': {
                 'loads': 'EV_L{}_LD:PMC[0-3]'.format(i), 'stores': 'EV_L{}_ST:PMC[0-3]'.format(i),
                 'misses': 'EV_L{}_MS:PMC[0-3]'.format(i), 'evicts': 'EV_L{}_EV:PMC[0-3]'.format(i)}}
        if i == 0:
            e['upstream throughput'] = ['architecture code analyzer', ['2D', '3D']]
        if rng.random() < .7:
            e['size per group'] = Q(sets * ways * cl, '', 'B')
        hierarchy.append(e)
        sets = sets * rng.choice([2, 4, 8])
        if rng.random() < .2:
            sets = sets * 3 // 2  # sets of shared caches are no power of two
    mem = {'level': 'MEM', 'cores per group': rng.choice([cores, cores // numa]),
           'threads per group': cores * smt, 'size per group': None,
           'upstream throughput': ['full socket memory bandwidth',
                                   rng.choice(['half-duplex', 'half-duplex', 'full-duplex'])]}
    if rng.random() < .5:
        mem['penalty cycles per cacheline load'] = rng.choice([0, 0, 1.5, 3])
        mem['penalty cycles per cacheline store'] = rng.choice([0, 0, 2.5])
    hierarchy.append(mem)
    kernels = {'load': (1, 0, 0), 'copy': (1, 0, 1), 'update': (1, 1, 1), 'triad': (3, 0, 1),
               'daxpy': (2, 1, 1)}
    for _ in range(rng.randint(0, 3)):
        r, w = rng.randint(0, 6), rng.randint(0, 4)
        kernels['k{}r{}w'.format(r, w)] = (r, rng.randint(0, min(r, w)), w)
    names = [n for n in kernels if n == 'load' or rng.random() < .85]
    rng.shuffle(names)
    esz = 8
    kinfo = {n: {'FLOPs per iteration': 2,
                 'read streams': {'streams': kernels[n][0], 'bytes': Q(kernels[n][0] * esz, 'B')},
                 'read+write streams': {'streams': kernels[n][1],
                                        'bytes': Q(kernels[n][1] * esz, 'B')},
                 'write streams': {'streams': kernels[n][2], 'bytes': Q(kernels[n][2] * esz, 'B')}}
             for n in names}
    kinfo = {n: i for n, i in kinfo.items()
             if float(i['read streams']['bytes']) + float(i['write streams']['bytes']) > 0}
    meas = {}
    corelist = list(range(1, cores + 1))
    if noncontiguous and cores > 2:
        corelist = sorted(rng.sample(corelist, rng.randint(1, cores - 1)))
    for e in hierarchy:
        meas[e['level']] = {}
        for t in range(1, smt + 1):
            meas[e['level']][t] = {
                'threads per core': t, 'cores': list(corelist),
                'threads': [c * t for c in corelist],
                'size per core': [Q(21.12, 'kB')] * len(corelist),
                'size per thread': [Q(21.12 / t, 'kB')] * len(corelist),
                'total size': [Q(21.12 * c, 'kB') for c in corelist],
                'results': {n: [Q(round(rng.uniform(5, 60) * (1 if e['level'] == 'MEM' else c), 2),
                                  'GB/s') for c in corelist] for n in kinfo}}
    ports = ['0', '1', '2', '3', '4', '5', '2D', '3D']
    return {'kerncraft version': '0.8.11.dev0', 'model name': 'generated', 'model type': 'gen',
            'sockets': sockets, 'cores per socket': cores, 'threads per core': smt,
            'NUMA domains per socket': numa, 'cores per NUMA domain': cores // numa,
            'clock': Q(clock, 'GHz'), 'isa': 'x86', 'cacheline size': Q(cl, '', 'B'),
            'FLOPs per cycle': {'SP': {'total': 16, 'ADD': 8, 'MUL': 8},
                                'DP': {'total': 8, 'ADD': 4, 'MUL': 4}},
            'in-core model': {'OSACA': 'SNB'}, 'compiler': {'gcc': '-O3 -fopenmp'},
            'overlapping model': {'ports': {'OSACA': ports[:6] + ['0DV']},
                                  'performance counter metric': 'EV_P0:PMC[0-3]'},
            'non-overlapping model': {'ports': {'OSACA': ['2D', '3D']},
                                      'performance counter metric': 'EV_P1:PMC[0-3]'},
            'memory hierarchy': hierarchy,
            'benchmarks': {'kernels': kinfo, 'measurements': meas}}


def model(data):
    from kerncraft.machinemodel import MachineModel
    return MachineModel(machine_yaml=data)
