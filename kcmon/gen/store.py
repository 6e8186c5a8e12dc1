"""Runs over stored intermediates: what a run is, how it is executed and what it reported.

A run is a dictionary of options (see *random_run*); it is executed in a forked child, in a
directory which holds the kernel files and machine files of a World. Everything it reports
(results, text, content of generated files) is normalised to one comparable string.
"""
import hashlib
import os
import re
import subprocess
import sys
from kcmon.gen.fresh import norm
from kcmon.gen.recorder import run_cli, REPO, MACHINE

HASWELL = os.path.join(REPO, 'tests/test_files/HaswellEP_E5-2695v3.yml')
LIKWID = os.path.join(REPO, 'tests/test_files/dummy_likwid')

SOURCES = [
    'double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\na[i] = b[i] + s*c[i];\n',
    'double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\na[i] = b[i] * s + c[i] * b[i];\n',
    'double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\na[i] = b[i] * c[i] * s;\n',
    'float a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\na[i] = b[i] + s*c[i];\n',
    'double a[N], b[N], c[N], s;\nfor(int i=1; i<N-1; ++i)\na[i] = b[i-1] + s*b[i+1];\n',
    'double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\n// comment\na[i] = b[i] + s*c[i];\n',
    'double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
    'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] + b[j][i+1];\n',
    'double a[M][N], b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
    'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] - b[j][i+1];\n',
    'double a[N][M], b[N][M];\nfor(int j=1; j<N-1; ++j)\nfor(int i=1; i<M-1; ++i)\n'
    'a[j][i] = b[j-1][i] + b[j+1][i] + b[j][i-1] + b[j][i+1];\n',
    'float x[N], y[N+M];\nfor(int i=M; i<N; ++i)\nx[i] = y[i-M] + y[i];\n',
    'double a[N], s;\nfor(int i=0; i<N; ++i)\ns = s + a[i]*a[i];\n',
    'double a[N], s;\nfor(int i=0; i<N; ++i)\na[i] = s;\n',
]


def constants_of(source):
    return ['M', 'N'] if 'M' in source else ['N']


def machine_text(path, *edits):
    with open(path) as f:
        text = f.read()
    for old, new in edits:
        if old not in text:
            raise RuntimeError('nothing to edit in {}: {!r}'.format(path, old))
        text = text.replace(old, new)
    return trimmed(text)


def trimmed(text):
    """Machine description without the raw samples and SMT runs of its benchmarks (for speed)."""
    keep, skip = [], None
    for line in text.split('\n'):
        indent = len(line) - len(line.lstrip())
        if skip is not None and (indent > skip or not line.strip()):
            continue
        skip = None
        if re.match(r'        stats:$|      2:$', line):
            skip = indent
            continue
        keep.append(line)
    return '\n'.join(keep)


def machine_texts():
    """Machine descriptions of one name that differ in a single aspect (and another machine)."""
    m = lambda *e: machine_text(MACHINE, *e)
    return {
        'base': m(),
        'other': machine_text(HASWELL),
        'clock': m(('clock: 2.7 GHz', 'clock: 2.2 GHz')),
        'l1': m(('{sets: 64, ways: 8', '{sets: 16, ways: 8')),
        'l2way': m(('{sets: 512, ways: 8', '{sets: 512, ways: 4')),
        'l3share': m(('cores per group: 8\n  threads per group: 16\n  groups: 2',
                      'cores per group: 2\n  threads per group: 4\n  groups: 8')),
        'policy': m(('replacement_policy: LRU', 'replacement_policy: FIFO')),
        'bw': m(('upstream throughput: [32 B/cy, half-duplex]',
                 'upstream throughput: [16 B/cy, full-duplex]')),
        'ports': m(('OSACA: [2D, 3D]', 'OSACA: [2D, 3D, \'4\']')),
        'uarch': m(('OSACA: SNB', 'OSACA: IVB')),
        'flags': m(('gcc: -O3', 'gcc: -O2')),
        'cl': m(('cacheline size: 64 B', 'cacheline size: 128 B'), ('cl_size: 64', 'cl_size: 128')),
        'comment': '# a comment\n' + m(),
    }


def world_files(directory, kernels, machines):
    """Write files, each {relative name: content}."""
    for name, content in list(kernels.items()) + list(machines.items()):
        p = os.path.join(directory, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(content)


def listing(path):
    """Machine code (and data) of an object file, executable or text of any other file."""
    with open(path, 'rb') as f:
        head = f.read()
    if head.startswith(b'\x7fELF'):
        p = subprocess.run(['objdump', '-d', '-s', '-j', '.text', '-j', '.rodata', path],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        head = b'\n'.join(l for l in p.stdout.split(b'\n') if b'file format' not in l)
    return hashlib.sha1(head).hexdigest()


class Watch:
    """Audit hook of a child: intermediates it reads and writes."""

    def __init__(self):
        self.read, self.written = set(), set()
        sys.addaudithook(self)

    def __call__(self, event, args):
        if event == 'open' and isinstance(args[0], str) and '_kerncraft/' in args[0] \
                and not args[0].endswith('.lock'):
            mode, flags = args[1], args[2]
            if flags & (os.O_WRONLY | os.O_RDWR):
                self.written.add(os.path.realpath(args[0]))
            else:
                self.read.add(os.path.realpath(args[0]))


def cli_args(run):
    extra = ['--cores', str(run.get('cores', 1)), '-P', run.get('predictor', 'LC')]
    for opt, flag in (('pinc', '--pointer-increment'), ('block', '--asm-block'),
                      ('cc', '--compiler'), ('flags', '--compiler-flags'), ('unit', '--unit'),
                      ('incore', '--incore-model')):
        if run.get(opt) is not None:
            extra.append('{}={}'.format(flag, run[opt]))
    if run.get('verbose'):
        extra.append('-' + 'v' * run['verbose'])
    return extra + list(run.get('extra', ()))


def api_run(directory, run):
    """Use of the generated files of a kernel through its methods."""
    from kerncraft.kerncraft import clean_code
    from kerncraft.kernel import KernelCode
    from kerncraft.machinemodel import MachineModel
    path = os.path.join(directory, run['kernel'])
    with open(path) as f:
        code = clean_code(f.read())

    class A:
        compiler, compiler_flags = run.get('cc'), run.get('flags')
    m = MachineModel(os.path.join(directory, run['machine']), args=A)
    k = KernelCode(code, filename=path, machine=m)
    for n, v in run['defs']:
        k.set_constant(n, int(v))
    out, locks = [], []
    for what in run['files']:
        if what == 'header':
            name, lock = k.get_kernel_header()
            name = None
        elif what in ('code', 'code-omp'):
            name, lock = k.get_kernel_code(openmp='omp' in what)
        elif what == 'main':
            name, lock = k.get_main_code()
        elif what == 'exe':
            name, lock = k.build_executable(openmp=run.get('openmp', False))
        else:
            name, lock = k.compile_kernel(assembly=what == 'asm', openmp=run.get('openmp', False))
        out.append((what, listing(name) if name else None))
        locks.append(lock)
    for l in locks:
        l.close()
    return out


def execute(directory, run):
    """Perform *run*; to be called in a child. Returns (report, intermediates read, written)."""
    directory = os.path.realpath(directory)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    w = Watch()
    base = directory
    if run.get('rel'):
        os.chdir(directory)
        base = ''
    os.environ['LIKWID_INC'] = '-I' + os.path.join(LIKWID, 'include')
    os.environ['LIKWID_LIB'] = ''
    try:
        if run.get('files'):
            report = repr(api_run(base, run))
        else:
            r, text = run_cli(base, None, run['defs'], run['models'], cli_args(run),
                              machine=os.path.join(base, run['machine']), name=run['kernel'])
            report = repr(norm(r)) + '\n' + text
    except SystemExit as e:
        report = 'SystemExit {}'.format(e.code)
    except Exception as e:
        report = '{}: {}'.format(type(e).__name__, e)
    report = report.replace(directory, '<D>')
    report = re.sub(r'Timestamp: +[0-9: -]+|Analyzed file: [^\\\n]*', 'Header', report)
    report = re.sub(r'<_io\.[A-Za-z]+ [^>]*>|0x[0-9a-f]{6,}', '<OBJ>', report)
    fix = lambda s: sorted(os.path.relpath(p, directory) for p in s)
    return report, fix(w.read), fix(w.written)


def crashed(report):
    """Whether *report* is that of an error (and which)."""
    m = re.match(r'([A-Za-z]+)(?:: | )', report)
    return m.group(1) if m and m.group(1)[0].isupper() else None


CHEAP = [['LC'], ['ECMData'], ['RooflineFLOP'], ['ECMData', 'RooflineFLOP'], ['LC', 'ECMData']]
INCORE = [['ECMCPU'], ['RooflineASM'], ['ECM'], ['ECM', 'LC']]
FILES = [['header', 'code'], ['asm'], ['obj'], ['main'], ['exe'], ['exe', 'asm', 'obj'],
         ['code-omp', 'code', 'header', 'main']]


def defs_for(rng, source, values=(20, 60, 200, 37)):
    return [(n, str(rng.choice(values))) for n in constants_of(source)]


def random_run(rng, source, incore=False, files=False):
    """Options of a run of the kernel *source* (without kernel and machine names)."""
    run = {'defs': defs_for(rng, source)}
    if files:
        run['files'] = rng.choice(FILES)
        run['openmp'] = rng.random() < .4
        run['cc'] = rng.choice(['gcc', 'gcc', 'clang', None])
        run['flags'] = rng.choice([None, '-O2', '-O3 -mavx', '-O1'])
        if run['cc'] is None:
            run['flags'] = None
        elif run['flags']:
            run['flags'] += ' -D_POSIX_C_SOURCE=200809L'
            if run['openmp'] and run['cc'] == 'gcc':
                run['flags'] += ' -fopenmp'
        return run
    run.update(models=rng.choice(INCORE if incore else CHEAP), cores=rng.choice([1, 1, 2, 4]),
               predictor=rng.choice(['LC', 'LC', 'SIM']), verbose=rng.choice([0, 0, 1, 2]))
    if incore:
        run['pinc'] = rng.choice([None, None, 'auto', 8, 32, -8, 16])
        run['cc'] = rng.choice(['gcc', 'gcc', 'clang'])
        run['flags'] = rng.choice([None, '-O1', '-O3 -mavx', '-O2 -ffast-math', '-O3 -mavx2'])
    return run
