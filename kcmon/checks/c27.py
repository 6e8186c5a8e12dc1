"""C27: in-core results against the analyser's own figures for the chosen loop."""
import json
import os
import re
import stat
import subprocess
from kcmon.core import REPO, Skip, quiet, scratch
from kcmon.checks import c20
from kcmon.gen import asm

LEVEL = 'exploration'
RULE = ('Assembly (generated x86 AT&T and AArch64 loops, and what gcc and clang make of C kernels '
        'with many flags) is marked at a chosen loop and analysed. The three analysers are watched '
        'at their process boundary: llvm-mca through a logging wrapper, iaca through a stand-in '
        'printing random reports in the formats of versions 2 and 3, OSACA by running its own '
        'command on the same loop. What an analyser is given has to be the instructions of exactly '
        'the chosen loop, for exactly the architecture asked for; ports, cycles, throughput, '
        'latencies and micro-ops returned have to be its figures (llvm-mca: those of its JSON '
        'report, an independent run). Non-trivial: distinct loops with a non-zero port pressure.')
ASSUMPTIONS = ['For resources llvm-mca splits into units, the busiest unit counts.',
               'llvm-mca throughput and loop-carried latency are its total cycles per iteration, '
               'the critical path is the time from first dispatch to last retirement of the first '
               'iteration.',
               'IACA itself is not available, it is replaced by a stand-in printing its formats.']
BUDGET = {'quick': 260, 'thorough': 800}

X86_CPU = ['sandybridge', 'ivybridge', 'haswell', 'broadwell', 'skylake-avx512', 'cascadelake',
           'znver1', 'znver2', 'skylake', 'icelake-server', 'znver3', 'znver4', 'btver2', 'bdver2',
           'alderlake', 'nehalem']
A64_CPU = ['a64fx', 'thunderx2t99', 'cortex-a57', 'neoverse-n1', 'neoverse-v1', 'cortex-a72']
OSACA_ARCH = {'x86': ['SNB', 'IVB', 'HSW', 'BDW', 'SKX', 'CSX', 'ICL', 'ZEN1', 'ZEN2', 'ZEN3'],
              'aarch64': ['A64FX', 'TX2', 'N1', 'A72']}

MCA_WRAP = '''#!/bin/sh
n=$(mktemp -d "$MCA_LOG/XXXXXX")
cat > $n/in
printf '%s\\n' "$@" > $n/args
exec {real} "$@" < $n/in 2> $n/err
'''


def norm(line, isa):
    return re.sub(r'\s+', ' ', asm.strip_comment(line, isa))


def instructions(lines, isa):
    """Instructions only: no labels, directives, comments."""
    out = []
    for l in lines:
        l = re.sub(r'^[\w.$]+:\s*', '', norm(l, isa))
        if l and not l.startswith('.'):
            out.append(l)
    return out


def with_labels(lines, isa):
    return [n for n in (norm(l, isa) for l in lines) if n and (not n.startswith('.')
                                                              or n.endswith(':'))]


def random_bodies(rng, isa, k):
    syn = c20.Att()
    out = []
    for _ in range(k):
        code, _e = c20.x86_body(rng, syn) if isa == 'x86' else c20.a64_body(rng)
        if rng.random() < .08:  # long latencies
            n = rng.choice([4, 12, 30, 60])
            code = [('vdivpd %ymm1, %ymm0, %ymm0' if isa == 'x86' else
                     'fdiv v0.2d, v0.2d, v1.2d')] * n + code
        out.append(code)
    return out


def program(rng, isa, bodies):
    """(text lines, labels): loops one after the other."""
    jump = 'jne' if isa == 'x86' else 'b.ne'
    sign = '#' if isa == 'x86' else '//'
    text, labels = ['\t.text', '\t.globl\tkernel', 'kernel:'], []
    for k, code in enumerate(bodies):
        lab = '.L{}'.format(k + 2)
        labels.append(lab)
        filler = rng.choice([['movq\t%rax, %r8'], ['xorl\t%eax, %eax', 'addq\t$8, %r9'], []]) \
            if isa == 'x86' else rng.choice([['mov\tx9, x10'], ['add\tx9, x9, #8'], []])
        text += ['\t' + f for f in filler]
        text.append(lab + ':')
        for c in code:
            c = '\t' + c.replace(' ', '\t', 1)
            if rng.random() < .05:
                c += '\t\t{} comment {}'.format(sign, rng.randint(0, 9))
            text.append(c)
        text.append('\t{}\t{}'.format(jump, lab))
        if rng.random() < .3:
            text.append('{} a comment'.format(sign))
    text += ['\tret']
    return text, labels


def compiled_program(rng, d):
    isa, src, cmd, text = c20.compiled(rng, d)
    return isa, src, cmd, text.split('\n')


def mark(incore_model, d, lines, isa, select):
    """Path of the assembly marked at block *select*."""
    src, out = os.path.join(d, 'k.s'), os.path.join(d, 'k-marked.s')
    with open(src, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with quiet():
        with open(src) as fi, open(out, 'w') as fo:
            incore_model.asm_instrumentation(fi, fo, block_selection=select,
                                             pointer_increment=8, isa=isa)
    return out


def marked_section(path, isa):
    """Lines between the byte markers, read without the code under test."""
    with open(path) as f:
        lines = f.read().split('\n')
    start = end = None
    if isa == 'x86':
        def at(i, n):
            return norm(lines[i], isa).startswith('movl ${},'.format(n)) and [
                norm(x, isa) for x in lines[i + 1:i + 4]] == ['.byte 100', '.byte 103', '.byte 144']
        width = 4
    else:
        def at(i, n):
            return norm(lines[i], isa) == 'mov x1, #{}'.format(n) and norm(
                lines[i + 1], isa).startswith('.byte 213')
        width = 2
    for i in range(len(lines) - width + 1):
        if start is None and at(i, 111):
            start = i + width
        elif start is not None and at(i, 222):
            end = i
            break
    return None if start is None or end is None else lines[start:end]


def close(a, b, tol):
    return abs(a - b) <= tol


def run_mca(params, lines, isa):
    """Figures of an independent llvm-mca run on *lines* (JSON report)."""
    p = subprocess.run(['/usr/bin/llvm-mca'] + params.split() + [
        '-json', '-timeline', '-timeline-max-cycles=0', '-timeline-max-iterations=1'],
        input='\n'.join(lines).encode() + b'\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        timeout=100)
    if p.returncode:
        return None
    j = json.loads(p.stdout.decode())
    r = j['CodeRegions'][0]
    names = j['TargetInfo']['Resources']
    n = len(r['Instructions'])
    total = [0.0] * len(names)
    for u in r['ResourcePressureView']['ResourcePressureInfo']:
        if u['InstructionIndex'] == n:
            total[u['ResourceIndex']] += u['ResourceUsage']
    ports = {}
    for name, v in zip(names, total):
        m = re.match(r'(.*)\.(\d+|[\x00-\x1f])$', name, re.S)
        name = m.group(1) if m else name
        ports[name] = max(ports.get(name, 0.0), v)
    s = r['SummaryView']
    first = r['TimelineView']['TimelineInfo'][:n]
    return dict(ports=ports, cycles=s['TotalCycles'] / s['Iterations'], n=n,
                uops=s['TotaluOps'] / s['Iterations'],
                cp=max(t['CycleRetired'] for t in first) - min(
                    t['CycleDispatched'] for t in first))


def judge_mca(obs, got, params, block, isa, logdir, origin):
    ref = run_mca(params, with_labels(block, isa), isa)
    logs = sorted(os.listdir(logdir))
    if not obs.check(len(logs) == 1, 'mca-runs', '{} llvm-mca runs for one analysis'.format(
            len(logs))):
        return
    with open(os.path.join(logdir, logs[0], 'in')) as f:
        given = f.read().split('\n')
    with open(os.path.join(logdir, logs[0], 'args')) as f:
        args = f.read().split('\n')[:-1]
    obs.check(instructions(given, isa) == instructions(block, isa), 'mca-input',
              'llvm-mca was given other instructions than those of the chosen loop',
              given=instructions(given, isa), loop=instructions(block, isa), origin=origin)
    sel = [a for a in args if re.match(r'-+(mcpu|march|mattr|mtriple)', a)]
    obs.check(sel == params.split(), 'mca-architecture', 'llvm-mca was run with {} instead of {}'.
              format(sel, params))
    obs.event('llvm-mca runs')
    data = dict(loop=block, params=params, origin=origin, reference=ref,
                got={k: v for k, v in got.items() if k != 'output'})
    g = dict(got['port cycles'])
    obs.check(set(g) == set(ref['ports']), 'mca-ports', 'ports {} instead of {}'.format(
        sorted(g), sorted(ref['ports'])), **data)
    bad = {p: (g.get(p), v) for p, v in ref['ports'].items()
           if p in g and not close(g[p], v, .0051)}
    obs.check(not bad, 'mca-port-cycles', 'port cycles (returned, reported): {}'.format(bad),
              **data)
    for k, r in (('throughput', 'cycles'), ('lcd', 'cycles'), ('uops', 'uops'),
                 ('cp_latency', 'cp')):
        obs.check(got[k] is not None and close(got[k], ref[r], 1e-6), 'mca-' + k,
                  '{} is {} instead of {}'.format(k, got[k], ref[r]), **data)
    obs.event('llvm-mca figures', 4 + len(g))
    if any(ref['ports'].values()):
        obs.distinct(('mca', params, tuple(instructions(block, isa))))
    obs.describe(analyser='llvm-mca ' + params, loop=instructions(block, isa)[:8],
                 throughput=got['throughput'], cp_latency=got['cp_latency'])


OSACA_CLI = ('import sys; sys.path.insert(0, {!r}); from osaca import osaca; osaca.main()')


def run_osaca(d, arch, lines, isa):
    """Summary of OSACA's own command, run on the loop alone."""
    from ruamel.yaml import YAML
    path, out = os.path.join(d, 'alone.s'), os.path.join(d, 'alone.yml')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    cmd = ['/opt/venv/bin/osaca', '--arch', arch, '--yaml-out', out, '--ignore-unknown']
    if isa == 'x86':
        cmd += ['--syntax', 'ATT']
    p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    if p.returncode:
        return None
    with open(out) as f:
        text = f.read()
    m = re.search(r'^Summary:.*?(?=^[A-Z])', text, re.M | re.S)
    return YAML(typ='safe', pure=True).load(m.group())['Summary']


def judge_osaca(obs, got, said, arch, block, isa, d, origin):
    s = run_osaca(d, arch, block, isa)
    if s is None:
        raise Skip('osaca refuses the loop')
    data = dict(loop=block, arch=arch, origin=origin, summary=s,
                got={k: v for k, v in got.items() if k not in ('output', 'analyzed kernel')})
    done = [i.line for i in got['analyzed kernel'] if i.mnemonic is not None]
    obs.check(instructions(done, isa) == instructions(block, isa), 'osaca-input',
              'OSACA analysed other instructions than those of the chosen loop', **data)
    ref = {str(k): float(v) for k, v in s['PortPressure'].items()}
    g = {str(k): float(v) for k, v in got['port cycles'].items()}
    obs.check(set(g) == set(ref), 'osaca-ports', 'ports {} instead of {}'.format(
        sorted(g), sorted(ref)), **data)
    bad = {p: (g.get(p), v) for p, v in ref.items() if p in g and not close(g[p], v, .0101)}
    obs.check(not bad, 'osaca-port-cycles', 'port cycles (returned, reported): {}'.format(bad),
              **data)
    obs.check(close(got['lcd'], s['LCD'], 1e-6), 'osaca-lcd', 'lcd {} instead of {}'.format(
        got['lcd'], s['LCD']), **data)
    obs.check(close(got['cp_latency'], s['CriticalPath'], 1e-6), 'osaca-cp',
              'critical path {} instead of {}'.format(got['cp_latency'], s['CriticalPath']), **data)
    want = max(list(ref.values()) + [s['LCD']])
    obs.check(close(got['throughput'], want, .0101), 'osaca-throughput',
              'throughput {} instead of {}'.format(got['throughput'], want), **data)
    obs.event('OSACA figures', 3 + len(g))
    # instructions without performance data
    unknown = [i for i in got['analyzed kernel'] if 'tp_unknown' in i.flags
               and 'lt_unknown' in i.flags]
    ratio = len(unknown) / max(1, len(got['analyzed kernel']))
    warned = 'could not be matched' in said
    obs.check(warned == (ratio > .1), 'osaca-unmatched', '{} of {} instructions are unknown to '
              'OSACA, warning: {}'.format(len(unknown), len(done), warned), said=said, **data)
    obs.event('warnings' if warned else 'no warnings')
    if any(ref.values()):
        obs.distinct(('osaca', arch, tuple(instructions(block, isa))))
    obs.describe(analyser='OSACA ' + arch, loop=instructions(block, isa)[:8],
                 throughput=got['throughput'], lcd=got['lcd'], cp=got['cp_latency'])


# --------------------------------------------------------------------------------------------- IACA
IACA = '''#!/opt/venv/bin/python
import json, os, sys, shutil
d = os.environ['IACA_LOG']
c = json.load(open(os.path.join(d, 'report.json')))
with open(os.path.join(d, 'calls'), 'a') as f:
    f.write(json.dumps([os.path.basename(sys.argv[0]), sys.argv[1:]]) + '\\n')
shutil.copy(sys.argv[-1], os.path.join(d, 'object.o'))
sys.stdout.write(c['text'])
sys.exit(c['rc'])
'''
IACA_ARCH = {'NHM': 'iaca2.2', 'WSM': 'iaca2.2', 'SNB': 'iaca2.3', 'IVB': 'iaca2.3',
             'HSW': 'iaca3.0', 'BDW': 'iaca3.0', 'SKL': 'iaca3.0', 'SKX': 'iaca3.0'}
IACA_PORTS = {'NHM': 6, 'WSM': 6, 'SNB': 6, 'IVB': 6, 'HSW': 8, 'BDW': 8, 'SKL': 8, 'SKX': 8}


def iaca_report(rng, arch):
    """(text, expected figures) of a random report in IACA's format."""
    v3 = IACA_ARCH[arch] == 'iaca3.0'
    n = IACA_PORTS[arch]
    num = lambda: round(rng.choice([0, rng.randint(0, 9), rng.random() * 10,
                                    rng.random() * 150]), 1)
    heads, vals, ports = [], [], {}
    for i in range(n):
        a = num()
        if i in (0, 2, 3):
            b = num()
            sub = 'DV' if i == 0 else 'D'
            if v3:
                heads.append('  {:<2}-  {:<3} '.format(i, sub))
                vals.append(' {:<4}   {:<5}'.format(a, b))
            else:
                heads.append('  {}   -  {:<3}'.format(i, sub))
                vals.append(' {:<6} {:<4}'.format(a, b))
            ports[str(i)] = a
            ports[str(i) + sub] = b
        else:
            heads.append('   {}   '.format(i) if v3 else '  {}   '.format(i))
            vals.append('  {:<4} '.format(a) if v3 else ' {:<5}'.format(a))
            ports[str(i)] = a
    t, uops = round(rng.choice([rng.random() * 40, rng.random() * 900, rng.randint(1, 30)]), 2), \
        rng.randint(1, 400)
    rule = '-' * 80
    text = ['Intel(R) Architecture Code Analyzer Version - {}'.format('3.0' if v3 else '2.3'),
            'Analyzed File - object.o', 'Binary Format - 64Bit', 'Architecture  - ' + arch,
            'Analysis Type - Throughput', '', 'Throughput Analysis Report', '-' * 26,
            'Block Throughput: {:.2f} Cycles       Throughput Bottleneck: {}'.format(
                t, rng.choice(['FrontEnd', 'Port2_DATA, Port3_DATA', 'Backend', 'InterIteration']))]
    if v3:
        text += ['Loop Count:  {}'.format(rng.randint(20, 60))]
    text += ['', 'Port Binding In Cycles Per Iteration:', rule,
             '|  Port  |' + '|'.join(heads) + '|', rule, '| Cycles |' + '|'.join(vals) + '|', rule,
             '', 'N - port number or number of cycles resource conflict caused delay, DV - Divider '
             'pipe (on port 0)', '', '| Num Of |                    Ports pressure in cycles', rule,
             '|   1    | 1.0       |     |           |           |     |     |    | vmulpd', rule,
             'Total Num Of Uops: {}'.format(uops), '']
    return '\n'.join(text), dict(ports=ports, throughput=float('{:.2f}'.format(t)), uops=uops)


def object_section(path):
    """Machine code between the markers of an object file."""
    out = path + '.bin'
    subprocess.run(['objcopy', '-O', 'binary', '-j', '.text', path, out], check=True)
    with open(out, 'rb') as f:
        code = f.read()
    a = code.find(b'\xbb\x6f\x00\x00\x00\x64\x67\x90')
    b = code.find(b'\xbb\xde\x00\x00\x00\x64\x67\x90')
    return code[a + 8:b] if 0 <= a < b else None


def disassembly(code):
    """Mnemonics and operands of machine code; jump targets are relative to its start."""
    import tempfile
    with tempfile.NamedTemporaryFile(suffix='.bin') as f:
        f.write(code)
        f.flush()
        t = subprocess.run(['objdump', '-D', '-b', 'binary', '-m', 'i386:x86-64',
                            '--no-show-raw-insn', f.name], stdout=subprocess.PIPE,
                           check=True).stdout.decode()
    out = []
    for m in re.finditer(r'^\s*[0-9a-f]+:\t(.*)$', t, re.M):
        l = re.sub(r'\s+', ' ', m.group(1)).strip()
        out.append(re.sub(r'# 0x[0-9a-f]+', '', l).strip())
    return out


def assembled(d, lines):
    src, obj, raw = (os.path.join(d, 'own' + e) for e in ('.s', '.o', '.raw'))
    with open(src, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    if subprocess.run(['gcc', '-c', src, '-o', obj], stderr=subprocess.DEVNULL).returncode:
        return None
    subprocess.run(['objcopy', '-O', 'binary', '-j', '.text', obj, raw], check=True)
    with open(raw, 'rb') as f:
        return f.read()


def install_iaca(home):
    path = os.path.join(home, '.kerncraft', 'iaca', 'lin64', 'bin')
    os.makedirs(path)
    for n in ('iaca2.2', 'iaca2.3', 'iaca3.0'):
        with open(os.path.join(path, n), 'w') as f:
            f.write(IACA)
        os.chmod(os.path.join(path, n), 0o755)
    return path


def judge_iaca(obs, got, ref, arch, log, data):
    with open(os.path.join(log, 'calls')) as f:
        calls = [json.loads(l) for l in f]
    obs.check(len(calls) == 1 and calls[0][0] == IACA_ARCH[arch], 'iaca-version',
              'ran {} for {}'.format([c[0] for c in calls], arch))
    a = calls[0][1]
    obs.check('-arch' in a and a[a.index('-arch') + 1] == arch, 'iaca-architecture',
              'iaca was run with {}'.format(a[:-1]))
    g = {str(k): v for k, v in got['port cycles'].items()}
    obs.check(g == ref['ports'], 'iaca-port-cycles', 'port cycles {} instead of {}'.format(
        g, ref['ports']), **data)
    obs.check(got['throughput'] == ref['throughput'], 'iaca-throughput', '{} instead of {}'.format(
        got['throughput'], ref['throughput']), **data)
    obs.check(got['uops'] == ref['uops'], 'iaca-uops', '{} instead of {}'.format(
        got['uops'], ref['uops']), **data)
    obs.event('IACA figures', 2 + len(g))


class Env:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = dict(os.environ)
        os.environ.update(self.kw)

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.old)


def wrapper(d):
    b, log = os.path.join(d, 'bin'), os.path.join(d, 'log')
    os.makedirs(b)
    os.makedirs(log)
    p = os.path.join(b, 'llvm-mca')
    with open(p, 'w') as f:
        f.write(MCA_WRAP.format(real='/usr/bin/llvm-mca'))
    os.chmod(p, 0o755)
    return Env(PATH=b + ':' + os.environ['PATH'], MCA_LOG=log), log


KERNELS = [
    ('double a[N], b[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i];\n', 'N'),
    ('double a[N], b[N], c[N], d[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i] + c[i] * d[i];\n', 'N'),
    ('double s;\ndouble a[N], b[N];\nfor(int i=0; i<N; ++i)\ns = s + a[i] * b[i];\n', 'N'),
    ('float a[N], b[N];\nfloat s;\nfor(int i=1; i<N-1; ++i)\na[i] = s * (b[i-1] + b[i+1]);\n',
     'N'),
    ('double a[M][N], b[M][N];\ndouble s;\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i)\n'
     'b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s;\n', 'MN'),
    ('double a[N], b[N];\nfor(int i=0; i<N; ++i)\na[i] = 1.0 / b[i];\n', 'N'),
]
MACHINES = ['SandyBridgeEP_E5-2680.yml', 'HaswellEP_E5-2695v3.yml', 'SkylakeSP_Gold-6148.yml',
            'BroadwellEP_E5-2697v4_CoD.yml', 'CascadelakeSP_Gold-6248_SNC.yml']
COMPILERS = ['gcc', 'clang']
OPTIONS = ['-O3', '-O2', '-O3 -mavx2', '-O3 -mavx512f', '-O3 -march=haswell -ffast-math',
           '-O2 -fno-vectorize', '-O3 -fopenmp']


def run(ck):
    from kerncraft import incore_model

    def mca(isa):
        def fn(rng, obs):
            with scratch() as d:
                bodies = random_bodies(rng, isa, rng.randint(1, 4))
                lines, labels = program(rng, isa, bodies)
                k = rng.randrange(len(labels))
                jump = 'jne {}' if isa == 'x86' else 'b.ne {}'
                block = [labels[k] + ':'] + bodies[k] + [jump.format(labels[k])]
                if isa == 'x86':
                    params = '-mcpu=' + rng.choice(X86_CPU)
                else:
                    params = '-mcpu={} -march=aarch64'.format(rng.choice(A64_CPU))
                if run_mca(params, block, isa) is None:
                    raise Skip('llvm-mca refuses the loop')
                path = mark(incore_model, d, lines, isa, rng.choice([k, labels[k]]))
                env, log = wrapper(d)
                with env, obs.subject('mca-fails'), quiet():
                    got = incore_model.llvm_mca_analyse_instrumented_assembly(path, params, isa=isa)
                judge_mca(obs, got, params, block, isa, log, 'generated')
        return fn

    def mca_compiled(rng, obs):
        with scratch() as d:
            isa, src, cmd, lines = compiled_program(rng, d)
            try:
                path = mark(incore_model, d, lines, isa, rng.choice([0, 0, 1, 'auto']))
            except ValueError:
                raise Skip('no such loop')
            block = marked_section(path, isa)
            if not obs.check(block is not None, 'not-marked', 'no marked section'):
                return
            params = '-mcpu=skylake-avx512' if isa == 'x86' and rng.random() < .5 else \
                '-mcpu=' + rng.choice(X86_CPU) if isa == 'x86' else \
                '-mcpu=a64fx -march=aarch64'
            if run_mca(params, with_labels(block, isa), isa) is None:
                raise Skip('llvm-mca refuses the loop')
            env, log = wrapper(d)
            with env, obs.subject('mca-fails'), quiet():
                got = incore_model.llvm_mca_analyse_instrumented_assembly(path, params, isa=isa)
            judge_mca(obs, got, params, block, isa, log, cmd + ': ' + src)

    def osaca(rng, obs):
        with scratch() as d:
            if rng.random() < .5:
                isa = rng.choice(['x86', 'x86', 'aarch64'])
                bodies = random_bodies(rng, isa, rng.randint(1, 3))
                for b in bodies:
                    if rng.random() < .4:
                        for _ in range(rng.randint(1, 3)):
                            b.insert(rng.randint(0, len(b)), 'vfoobarpd %ymm1, %ymm2'
                                     if isa == 'x86' else 'fooadd v1.2d, v2.2d')
                lines, labels = program(rng, isa, bodies)
                k = rng.randrange(len(labels))
                jump = 'jne {}' if isa == 'x86' else 'b.ne {}'
                block = [labels[k] + ':'] + bodies[k] + [jump.format(labels[k])]
                path = mark(incore_model, d, lines, isa, k)
                origin = 'generated'
            else:
                isa, src, cmd, lines = compiled_program(rng, d)
                origin = cmd + ': ' + src
                try:
                    path = mark(incore_model, d, lines, isa, 'auto')
                except ValueError:
                    raise Skip('no loop')
                block = marked_section(path, isa)
                if not obs.check(block is not None, 'not-marked', 'no marked section'):
                    return
            arch = rng.choice(OSACA_ARCH[isa])
            err = ''
            try:
                with quiet() as (o, e):
                    got = incore_model.osaca_analyse_instrumented_assembly(
                        path, arch, isa=rng.choice([isa, None]))
                    err = e.getvalue()
            except Exception as ex:
                if 'daemonic processes' in str(ex):
                    raise Skip('OSACA wants processes of its own')
                if run_osaca(d, arch, block, isa) is None:
                    raise Skip('osaca refuses the loop')
                obs.check(False, 'osaca-fails', '{}: {}'.format(type(ex).__name__, ex),
                          loop=block, arch=arch)
                return
            judge_osaca(obs, got, err, arch, block, isa, d, origin)

    def iaca(rng, obs):
        with scratch() as d:
            home, log = os.path.join(d, 'home'), os.path.join(d, 'log')
            os.makedirs(log)
            os.makedirs(home)
            bindir = install_iaca(home)
            with Env(HOME=home, IACA_LOG=log):
                for k in range(4):
                    arch = rng.choice(list(IACA_ARCH))
                    text, ref = iaca_report(rng, arch)
                    rc = 1 if rng.random() < .1 else 0
                    miss = rng.random() < .1
                    if miss:
                        text = rng.choice(['', text.split('Port Binding')[0],
                                           text.replace('Block Throughput', 'Error')])
                    with open(os.path.join(log, 'report.json'), 'w') as f:
                        json.dump({'text': text, 'rc': rc}, f)
                    for n in ('calls',):
                        if os.path.exists(os.path.join(log, n)):
                            os.unlink(os.path.join(log, n))
                    obj = os.path.join(d, 'k{}.o'.format(k))
                    with open(obj, 'w') as f:
                        f.write('object {}'.format(k))
                    call = lambda: incore_model.iaca_analyse_instrumented_binary(obj, arch)
                    if rc or miss:
                        obs.refuses(call, 'iaca-failure', 'results although iaca {}'.format(
                            'failed' if rc else 'reported nothing'), report=text)
                        continue
                    with obs.subject('iaca-fails'), quiet():
                        got = call()
                    judge_iaca(obs, got, ref, arch, log, dict(report=text))
                    with open(os.path.join(log, 'object.o')) as f:
                        obs.check(f.read() == 'object {}'.format(k), 'iaca-object',
                                  'another object was analysed')
                    obs.distinct(('iaca', text))
            obs.describe(analyser='iaca stand-in ' + arch, bin=os.path.basename(bindir))

    def kernel(rng, obs):
        """Through KernelCode.incore_analysis, with its stored results."""
        from kerncraft.kernel import KernelCode
        from kerncraft.machinemodel import MachineModel
        with scratch() as d:
            src, consts = rng.choice(KERNELS)
            cc, opts = rng.choice(COMPILERS), rng.choice(OPTIONS)
            if cc == 'gcc':
                opts = opts.replace('-fno-vectorize', '-fno-tree-vectorize')
            with open(os.path.join(REPO, 'examples/machine-files', rng.choice(MACHINES))) as f:
                text = f.read()
            text, n = re.subn(r'(?m)^compiler:.*\n(?:[ \t-].*\n)+', 'compiler:\n  {}: {}\n'.format(
                cc, opts), text)
            if n != 1:
                raise RuntimeError('no compiler in machine file')
            mpath = os.path.join(d, 'm.yml')
            with open(mpath, 'w') as f:
                f.write(text)
            machine = MachineModel(mpath)
            path = os.path.join(d, 'k.c')
            with open(path, 'w') as f:
                f.write(src)
            home, ilog = os.path.join(d, 'home'), os.path.join(d, 'ilog')
            os.makedirs(ilog)
            env, log = wrapper(d)
            models = [m for m in ('LLVM-MCA', 'OSACA', 'IACA') if m in machine['in-core model']]
            order = [rng.choice(models) for _ in range(4)]
            seen = {}
            with env:
                os.environ['IACA_LOG'] = ilog
                for m in order:
                    k = KernelCode(src, machine, filename=path)
                    for c in consts:
                        k.set_constant(c, 1000)
                    param = machine['in-core model'][m]
                    if m == 'IACA':
                        old = os.environ['HOME']
                        if not os.path.isdir(home):
                            os.makedirs(home)
                            install_iaca(home)
                        text, ref = iaca_report(rng, param)
                        with open(os.path.join(ilog, 'report.json'), 'w') as f:
                            json.dump({'text': text, 'rc': 0}, f)
                        os.environ['HOME'] = home
                    try:
                        with quiet() as (o, e):
                            try:
                                got, inc = k.incore_analysis(
                                    asm_block='auto', pointer_increment='auto', model=m)
                            except RuntimeError as ex:
                                if 'pointer_increment' in str(ex):
                                    raise Skip('increment unknown')
                                raise
                            finally:
                                err = e.getvalue()
                    except (Skip, SystemExit):
                        raise Skip('not analysable')
                    except Exception as ex:
                        f = subprocess.run(['find', d, '-name', 'kernel-marked.s'],
                                           stdout=subprocess.PIPE).stdout.decode().split()
                        if 'daemonic processes' in str(ex):
                            raise Skip('OSACA wants processes of its own')
                        if m == 'LLVM-MCA' and f and run_mca(param, with_labels(
                                marked_section(f[0], 'x86'), 'x86'), 'x86') is None:
                            raise Skip('llvm-mca refuses the loop')
                        if m == 'OSACA' and f and run_osaca(
                                d, param, marked_section(f[0], 'x86'), 'x86') is None:
                            raise Skip('osaca refuses the loop')
                        obs.check(False, 'analysis-fails', '{}: {}'.format(type(ex).__name__, ex),
                                  model=m, kernel=src, machine=machine['compiler'])
                        return
                    finally:
                        if m == 'IACA':
                            os.environ['HOME'] = old
                    f = subprocess.run(['find', d, '-name', 'kernel-marked.s'],
                                       stdout=subprocess.PIPE).stdout.decode().split()
                    if not obs.check(len(f) == 1, 'marked-files', 'marked files: {}'.format(f)):
                        return
                    block = marked_section(f[0], 'x86')
                    if not obs.check(block is not None, 'not-marked', 'no marked section'):
                        return
                    origin = '{} {}: {}'.format(m, machine['compiler'], src)
                    if m in seen:
                        first, n = seen[m]
                        same = all(got[x] == first[x] for x in (
                            'throughput', 'lcd', 'cp_latency', 'uops', 'port cycles'))
                        obs.check(same, 'stored-analysis', 'the stored analysis differs from the '
                                  'first one', first=first, now=got)
                        obs.event('stored analyses')
                        continue
                    seen[m] = got, inc
                    if m == 'LLVM-MCA':
                        if run_mca(param, with_labels(block, 'x86'), 'x86') is None:
                            raise Skip('llvm-mca refuses')
                        judge_mca(obs, got, param, block, 'x86', log, origin)
                    elif m == 'OSACA':
                        judge_osaca(obs, got, err, param, block, 'x86', d, origin)
                    else:
                        judge_iaca(obs, got, ref, param, ilog, dict(report=text))
                        sec = object_section(os.path.join(ilog, 'object.o'))
                        own = assembled(d, with_labels(block, 'x86'))
                        if obs.check(sec is not None, 'iaca-unmarked', 'the object given to iaca '
                                     'has no marked section') and own is not None:
                            a, b = disassembly(sec), disassembly(own)
                            fix = lambda l: re.sub(r'^(j\w+|call\w?) .*', r'\1', l)
                            obs.check([fix(x) for x in a] == [fix(x) for x in b], 'iaca-input',
                                      'iaca was given other instructions than those of the chosen '
                                      'loop', given=a, loop=b)
                            obs.event('objects given to iaca')
            obs.event('kernels')

    from kcmon.gen.recorder import warm_osaca
    warm_osaca()
    ck.cases('mca-x86', ck.pick(120, 2500), mca('x86'), limit=200, share=.2)
    ck.cases('mca-aarch64', ck.pick(60, 1200), mca('aarch64'), limit=200, share=.3)
    ck.cases('mca-compiled', ck.pick(60, 1200), mca_compiled, limit=200, share=.4)
    ck.cases('iaca', ck.pick(60, 600), iaca, limit=200, share=.6)
    ck.cases('kernels', ck.pick(48, 500), kernel, limit=300, share=.8)
    ck.cases('osaca', ck.pick(80, 800), osaca, limit=300)
    ck.require('llvm-mca runs', 60)
    ck.require('IACA figures', 200)
    ck.require('OSACA figures', 100)
    ck.require('stored analyses', 10)
