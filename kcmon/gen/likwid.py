"""Stand-ins for the system: topologies and the tools which report and measure them."""
import contextlib
import io
import os
import subprocess
from unittest import mock

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class System:
    """A random computer."""

    def __init__(self, rng, small=False):
        self.sockets = rng.choice([1, 1, 2, 2, 4, 8] if not small else [1, 2])
        self.cores = rng.choice([1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 28, 32, 48, 64]
                                if not small else [1, 2, 3])
        self.smt = rng.choice([1, 2, 2, 4]) if not small else rng.choice([1, 1, 2])
        self.numa = rng.choice([n for n in (1, 1, 1, 2, 4) if self.cores % n == 0])
        # memory interleaved over all sockets: a single domain
        self.domains = 1 if rng.random() < .15 else self.numa * self.sockets
        if self.domains == 1:
            self.numa = 1
        self.type = rng.choice(['Intel Xeon IvyBridge EN/EP/EX processor', 'AMD K17 (Zen) architecture',
                                'Intel Cascadelake SP processor', 'Cavium Thunder X2 (ARMv8)',
                                'Fujitsu A64FX', 'nil'])
        self.name = rng.choice(['Intel(R) Xeon(R) CPU E5-2660 v2 @ 2.20GHz',
                                'AMD EPYC 7451 24-Core Processor', 'AMD Ryzen 7 1700X: Eight-Core',
                                None])
        self.mhz = rng.choice([None, 2200.0, 2700.0, 1234.567, 3350, 800.0, 4000.25])
        self.thp = rng.choice(['always', 'madvise', 'never'])
        self.caches = []
        size = rng.choice([16, 32, 48, 64])  # kB
        share = 1
        for l in range(rng.choice([1, 2, 3, 3, 3, 4] if not small else [2, 3])):
            if l:
                size *= rng.choice([2, 4, 5, 8, 16, 20, 24])
                options = [s for s in range(share, self.cores + 1)
                           if self.cores % s == 0 and s % share == 0]
                share = rng.choice(options[:1] * 2 + options + options[-1:] * 2 * (l > 1))
            if size >= 1024 and size % 1024 == 0:
                text, value = '{} MB'.format(size // 1024), size // 1024 * 1000000.
            elif size >= 1024 and (size % 256) == 0 and rng.random() < .7:
                text = '{:.2f} MB'.format(size / 1024)
                value = size / 1024 * 1e6
            else:
                text, value = '{} kB'.format(size), size * 1000.
            self.caches.append({'text': text, 'bytes': value, 'share': share})
        self.dies = rng.random() < .3

    def hwthreads(self, core):
        n = self.sockets * self.cores
        return [core + t * n for t in range(self.smt)]

    def topology(self):
        line = '-' * 80
        stars = '*' * 80
        out = [line, 'CPU name:\t' + (self.name or 'unknown'), 'CPU type:\t' + self.type,
               'CPU stepping:\t4', stars, 'Hardware Thread Topology', stars,
               'Sockets:\t\t{}'.format(self.sockets), 'Cores per socket:\t{}'.format(self.cores),
               'Threads per core:\t{}'.format(self.smt), line]
        if self.dies:
            out.append('HWThread        Thread        Core        Die        Socket        Available')
        else:
            out.append('HWThread\tThread\t\tCore\t\tSocket\t\tAvailable')
        for t in range(self.smt):
            for c in range(self.cores * self.sockets):
                v = [c + t * self.cores * self.sockets, t, c % self.cores, c // self.cores]
                if self.dies:
                    v.insert(3, 0)
                out.append(''.join('{:<16}'.format(x) for x in v) + '*')
        out.append(line)
        for s in range(self.sockets):
            m = [h for c in range(self.cores) for h in self.hwthreads(s * self.cores + c)]
            out.append('Socket {}:\t\t( {} )'.format(s, ' '.join(map(str, m))))
        out += [line, stars, 'Cache Topology', stars]
        for i, c in enumerate(self.caches, 1):
            groups = []
            for g in range(self.cores * self.sockets // c['share']):
                m = [h for k in range(c['share']) for h in self.hwthreads(g * c['share'] + k)]
                groups.append('( {} )'.format(' '.join(map(str, m))))
            out += ['Level:\t\t\t{}'.format(i), 'Size:\t\t\t' + c['text'],
                    'Cache groups:\t\t' + ' '.join(groups), line]
        out += [stars, 'NUMA Topology', stars, 'NUMA domains:\t\t{}'.format(self.domains), line]
        per = self.cores * self.sockets // self.domains
        for d in range(self.domains):
            m = [h for k in range(per) for h in self.hwthreads(d * per + k)]
            out += ['Domain:\t\t\t{}'.format(d), 'Processors:\t\t( {} )'.format(' '.join(map(str, m))),
                    'Distances:\t\t' + ' '.join('10' if i == d else '21' for i in range(self.domains)),
                    'Free memory:\t\t29023.3 MB', 'Total memory:\t\t32734.2 MB', line]
        return '\n'.join(out) + '\n'

    def cpuinfo(self):
        out = []
        for h in range(self.cores * self.sockets * self.smt):
            out += ['processor\t: {}'.format(h), 'cpu family\t: 6']
            if self.name:
                out += ['model\t\t: 62', 'model name\t: ' + self.name]
            out += ['cpu MHz\t\t: 1200.{:03d}'.format(h), 'cache size\t: 25600 KB', '']
        return '\n'.join(out) + '\n'

    def readouts(self):
        """What a description of this system says, apart from caches."""
        r = {'model type': self.type, 'model name': self.name, 'sockets': self.sockets,
             'cores per socket': self.cores, 'threads per core': self.smt,
             'NUMA domains per socket': self.numa, 'cores per NUMA domain': self.cores // self.numa,
             'transparent hugepage': self.thp}
        return r


THP = '/sys/kernel/mm/transparent_hugepage/enabled'


def forget():
    """A process only ever sees one computer; forget what was read of the former."""
    import gc
    from kerncraft import machinemodel
    for n in dir(machinemodel):
        f = getattr(machinemodel, n)
        if hasattr(f, 'cache_clear'):
            f.cache_clear()


@contextlib.contextmanager
def running_on(system, directory, tools=True):
    """All that kerncraft reads of the system is that of *system*."""
    d = os.path.join(directory, 'tools')
    os.makedirs(d, exist_ok=True)
    put(os.path.join(d, 'topology.txt'), system.topology())
    tool = os.path.join(d, 'likwid-topology')
    put(tool, '#!/bin/sh\nexec cat "{}/topology.txt"\n'.format(d))
    os.chmod(tool, 0o755)
    cpuinfo = os.path.join(directory, 'cpuinfo')
    put(cpuinfo, system.cpuinfo())
    opened = open

    def fake_open(f, *a, **k):
        if isinstance(f, (str, os.PathLike)) and os.fspath(f) == THP:
            return io.StringIO(' '.join('[{}]'.format(w) if w == system.thp else w
                                        for w in ('always', 'madvise', 'never')) + '\n')
        if isinstance(f, (str, os.PathLike)) and os.fspath(f) == '/proc/cpuinfo':
            f = cpuinfo
        return opened(f, *a, **k)
    freq = None
    if system.mhz is not None:
        freq = type('freq', (), {'current': system.mhz, 'min': 0.0, 'max': 0.0})()
    path = d + ':' + os.environ.get('PATH', '')
    forget()
    try:
        with mock.patch.dict(os.environ, {'PATH': path, 'KC_FAKE': directory}), \
                mock.patch('builtins.open', fake_open), mock.patch('io.open', fake_open), \
                mock.patch('psutil.cpu_freq', lambda *a, **k: freq):
            yield cpuinfo
    finally:
        forget()


def put(path, text):
    with open(path, 'w') as f:
        f.write(text)


def build(name, directory):
    """Compile native/NAME.c once."""
    out = os.path.join(directory, name)
    subprocess.check_call(['gcc', '-O1', '-w', '-o', out, os.path.join(HERE, 'native', name + '.c')])
    return out
