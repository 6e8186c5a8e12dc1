"""C19: marked assembly compared line by line and, assembled, instruction by instruction."""
import builtins
import io
import os
import re
import subprocess
from kcmon.core import Skip, quiet, scratch
from kcmon.checks import c20

LEVEL = 'exploration'
RULE = ('Assembly of kernels compiled by gcc and clang with many flags (x86, AArch64) and '
        'generated files (many loops, nested loops, repeated bodies, comments, directives, blank '
        'lines) are marked with automatic selection, by number, by label and by a simulated user. '
        'Without the inserted lines the output has to be the input, line by line; the lines '
        'between the markers run from a label to a jump back to it with no other jump between, are the block asked '
        'for and the one returned, and OSACA finds just them; the increment is noted. Original and '
        'marked file are assembled and disassembled: without the marker instructions both have to '
        'have the same instructions and data. An automatic choice must not be worse than another '
        'block in every count of vector instructions. Non-trivial: distinct files with two loops '
        'or more.')
ASSUMPTIONS = ['Blank lines are not lines of the program.',
               'Files contain no marker before.']
BUDGET = {'quick': 300}

MARK = {'x86': (re.compile(r'\s*movl\s+\$(111|222),\s*%ebx'), re.compile(r'\s*\.byte\s+100\b'),
                4),
        'aarch64': (re.compile(r'\s*mov\s+x1,\s*#(111|222)'), re.compile(r'\s*\.byte\s+213,\s*3'),
                    2)}


def generated(rng):
    """Text of an assembly file with several loops."""
    isa = rng.choice(['x86', 'aarch64'])
    jump = 'jne' if isa == 'x86' else 'b.ne'
    always = 'jmp' if isa == 'x86' else 'b'
    note = '#' if isa == 'x86' else '//'
    out = ['\t.file\t1 "k.c"', '\t.text', '\t.globl\tkernel_loop', '', 'kernel_loop:', '.LFB0:',
           '\t.cfi_startproc']
    n = rng.randint(1, 6)
    bodies = []
    for k in range(n):
        if bodies and rng.random() < .35:
            code = rng.choice(bodies)  # the same instructions again
        else:
            code, _ = c20.x86_body(rng, c20.Att()) if isa == 'x86' else c20.a64_body(rng)
            bodies.append(code)
        label = rng.choice(['.L{}', '.LBB0_{}', '.Loop{}_x']).format(k)
        if rng.random() < .3:  # outer loop
            out.append('.Louter{}:'.format(k))
            out.append('\taddq\t$1, %r8' if isa == 'x86' else '\tadd\tx8, x8, #1')
        if rng.random() < .3:
            out.append('\t{}\t{}'.format(always if rng.random() < .3 else jump, label))
        if rng.random() < .4:
            out += ['\t.p2align 4,,10', '\t.p2align 3']
        if rng.random() < .2:
            out.append('')
        out.append(label + ':' + rng.choice(['', '', '\t{} =>This Inner Loop'.format(note)]))
        for c in code:
            line = '\t' + c.replace(' ', '\t', 1)
            if rng.random() < .1:
                line += '\t{} a comment'.format(note)
            out.append(line)
            if rng.random() < .08:
                out.append(rng.choice(['', '{} a comment'.format(note), '\t.loc 1 5 3', '   ']))
        if rng.random() < .15:  # another way out of it
            out.append('\t{}\t.Lend'.format(jump))
        out.append('\t{}\t{}'.format(jump, label))
        outer = '.Louter{}:'.format(k)
        if outer in out:
            out.append('\t{}\t.Louter{}'.format(jump, k))
    out += ['.Lend:', '\tret', '\t.cfi_endproc', '\t.size\tkernel_loop, .-kernel_loop',
            '\t.section\t.rodata', '.LC0:', '\t.long\t0', '\t.long\t1072693248', 's:', '\t.quad\t0']
    return isa, '\n'.join(out) + '\n'


LABEL = re.compile(r'([\w.$]+):')
JUMP = {'x86': re.compile(r'\s*(j[a-z]+|loop\w*)\s+([\w.$]+)'),
        'aarch64': re.compile(r'\s*(b(?:\.[a-z]+)?|cbn?z|tbn?z)\s+(?:.*,\s*)?([\w.$]+)\s*(?://.*)?$')}


def loops(lines, isa):
    """{label: (first, last line)} of bodies which jump back to their label with no other jump."""
    labels = {}
    for i, l in enumerate(lines):
        m = LABEL.match(l)
        if m:
            labels.setdefault(m.group(1), i)
    out = {}
    for label, i in labels.items():
        for j in range(i + 1, len(lines)):
            m = JUMP[isa].match(lines[j])
            if m and m.group(1) != 'b.none' and m.group(2) in labels:
                if m.group(2) == label:
                    out[label] = (i, j)
                break
    return out


def vector_counts(lines, isa):
    code = [re.sub(r'#.*|//.*', '', l).strip() for l in lines]
    if isa == 'x86':
        a = sum(bool(re.match(r'v?(mul|add|sub|div|fmadd(132|213|231)?)p[ds]\b', l)) for l in code)
        b = a + sum(bool(re.match(r'v?movup[ds]\b', l)) for l in code)
        return a, b, sum(bool(re.match(r'v?[a-z0-9]+p[ds]\b', l)) for l in code)
    use = [len(re.findall(r'\b[vz][0-9]+\b', l)) for l in code]
    return sum(use), sum(u > 0 for u in use)


def disassembly(path, isa):
    p = subprocess.run(['llvm-objdump-18' if TOOLS['objdump'] is None else TOOLS['objdump'], '-d',
                        '--no-show-raw-insn', '--no-leading-addr', path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[:300])
    out = []
    for l in p.stdout.split('\n'):
        l = re.sub(r'<[^>]*>|# .*|// .*|^\s*[0-9a-f]+: [0-9a-f\s]*(?=\.word)', '', l).strip()
        l = re.sub(r'0x[0-9a-f]+(?=\s*$)', 'X', l) if re.match(r'(j|b\b|b\.|cb|tb|call|loop)', l) \
            else l
        l = re.sub(r'-?0x[0-9a-f]+\(%rip\)', 'X(%rip)', l)
        if l and 'file format' not in l and \
                not re.match(r'(nop|data16|\.word\s+0xd503201f|cs\s+nop|xchgw)', l):
            out.append(re.sub(r'\s+', ' ', l))
    return out


TOOLS = {'objdump': None}


def run(ck):
    from kerncraft import incore_model
    from osaca import osaca
    import shutil
    TOOLS['objdump'] = next((t for t in ('llvm-objdump', 'llvm-objdump-18',
                                         '/usr/lib/llvm-18/bin/llvm-objdump')
                             if shutil.which(t)), None)
    if TOOLS['objdump'] is None:
        raise RuntimeError('no llvm-objdump')

    def assemble(text, isa, d, name):
        path = os.path.join(d, name)
        with open(path + '.s', 'w') as f:
            f.write(text)
        cmd = ['clang', '--target=aarch64-linux-gnu', '-march=armv8.5-a+sve2'] \
            if isa == 'aarch64' else ['gcc']
        p = subprocess.run(cmd + ['-c', path + '.s', '-o', path + '.o'], stderr=subprocess.PIPE,
                           text=True)
        if p.returncode:
            return None, p.stderr
        return disassembly(path + '.o', isa), None

    def unmarked(code, isa):
        """Disassembly without marker instructions; number of those found."""
        out, i, found = [], 0, []
        while i < len(code):
            l = code[i]
            if isa == 'x86':
                m = re.match(r'movl \$0x(6f|de), %ebx', l)
                if m and i + 1 < len(code) and re.match(r'(addr32|fs)', code[i + 1]):
                    found.append(m.group(1))
                    k = 1
                    # fs addr32 nop: 64 67 90
                    while i + k < len(code) and k < 4 and re.match(r'(fs|addr32|nop)', code[i + k]):
                        k += 1
                    i += k
                    continue
            else:
                m = re.match(r'mov x1, #(0x6f|0xde|111|222)', l)
                if m and i + 1 < len(code) and re.search(r'1f2003d5|d503201f|^nop', code[i + 1]):
                    found.append(m.group(1))
                    i += 2
                    continue
                if m:
                    found.append(m.group(1))
                    i += 1
                    continue
            out.append(l)
            i += 1
        return out, found

    def judge(obs, rng, isa, text, origin):
        lines = [l for l in text.split('\n') if l.strip()]
        bodies = loops(lines, isa)
        data = dict(origin=origin, isa=isa)
        how = rng.choice(['auto', 'auto', 'number', 'label', 'user', 'same file'])
        pinc = rng.choice([8, 16, 32, -8, 64, 128])
        obs.evals += 1
        with quiet():
            found = list(incore_model.find_basic_loop_bodies(incore_model.parse_asm(
                text, isa, {'x86': 'csx', 'aarch64': 'a64fx'}[isa])))
        obs.check(all(l in bodies for l in found), 'block-not-a-loop', 'blocks found are no loops: '
                  '{}'.format([l for l in found if l not in bodies]), text=text[:3000], **data)
        if not found:
            obs.event('files without loops')
            return
        want, selection = None, 'auto'
        real_input = builtins.input
        if how in ('number', 'label', 'user'):
            k = rng.randrange(len(found))
            want = found[k]
            selection = {'number': k, 'label': want, 'user': 'manual'}[how]
        with scratch() as d:
            name = os.path.join(d, 'm.s')
            try:
                if how == 'user':
                    answers = [want]
                    if rng.random() < .3:
                        answers.insert(0, 'no such block')
                    builtins.input = lambda prompt='': answers.pop(0)
                with quiet(), obs.subject('marking'):
                    if how == 'same file':
                        with open(name, 'w') as f:
                            f.write(text)
                        with open(name, 'r+') as f:
                            block, got_pinc = incore_model.asm_instrumentation(
                                f, f, block_selection='auto', pointer_increment=pinc, isa=isa)
                    else:
                        with open(name, 'w') as f:
                            block, got_pinc = incore_model.asm_instrumentation(
                                io.StringIO(text), f, block_selection=selection,
                                pointer_increment=pinc, isa=isa)
            finally:
                builtins.input = real_input
            with open(name) as f:
                out = f.read()
            obs.event('files marked')
            obs.event('selected by ' + how)
            got = [l for l in out.split('\n') if l.strip()]
            data.update(how=how, selection=selection, text=text[:2500])
            # markers: their first lines and what belongs to them
            first, byte, size = MARK[isa]
            starts = [i for i, l in enumerate(got) if first.match(l) and i + 1 < len(got)
                      and byte.match(got[i + 1])]
            kinds = [first.match(got[i]).group(1) for i in starts]
            if not obs.check(kinds == ['111', '222'], 'wrong-markers',
                             'markers are {}'.format(kinds), output=out[:2500], **data):
                return
            s, e = starts
            inserted = got[s:s + size]
            k = s + size
            comment = []
            while k < e and 'pointer_increment=' in got[k]:
                comment.append(got[k])
                k += 1
            region = got[k:e]
            rest = got[:s] + region + got[e + size:]
            obs.check(rest == lines, 'lines-changed', 'without markers, lines differ: {}'.format(
                [(a, b) for a, b in zip(rest, lines) if a != b][:3] or (len(rest), len(lines))),
                **data)
            m = LABEL.match(region[0]) if region else None
            label = m.group(1) if m else None
            i, j = bodies.get(label, (0, -2))
            obs.check(region == lines[i:j + 1], 'marked-region-no-loop', 'marked region {} ... {} '
                      'is no loop'.format(region[:1], region[-1:]), **data)
            obs.check(want is None or label == want, 'other-block-marked',
                      '{} was asked for, {} is marked'.format(want, label), **data)
            obs.check([l.line for l in block if l.line.strip()] == region, 'other-block-returned',
                      'block returned is not the one marked', **data)
            obs.check(got_pinc == pinc and any(re.search(
                r'pointer_increment={}\b'.format(re.escape(str(pinc))), c) for c in comment),
                'increment-not-noted', 'increment {} returned {} noted {}'.format(
                    pinc, got_pinc, comment), **data)
            if want is None:
                mine = vector_counts(region, isa)
                for l in found:
                    a, b = bodies.get(l, (0, -2))
                    other = vector_counts(lines[a:b + 1], isa)
                    obs.check(not all(x < y for x, y in zip(mine, other)), 'worse-block-chosen',
                              '{} has {} vector instructions, {} has {}'.format(
                                  label, mine, l, other), **data)
            if rng.random() < .25:
                with quiet():
                    p = incore_model.get_parser(isa)
                    section = osaca.reduce_to_section(p.parse_file(out), p)
                sec = [l.line for l in section if l.line.strip()
                       and 'pointer_increment=' not in l.line]
                obs.check(sec == region, 'section-differs', 'OSACA finds another section',
                          section=sec[:3] + sec[-3:], **data)
                obs.event('sections')
            a, err = assemble(text, isa, d, 'orig')
            if a is None:
                obs.event('original does not assemble')
            else:
                b, err = assemble(out, isa, d, 'marked')
                if obs.check(b is not None, 'does-not-assemble', 'marked file does not assemble: '
                             '{}'.format(str(err)[:500]), **data):
                    b, marks = unmarked(b, isa)
                    a, none = unmarked(a, isa)
                    obs.event('assembled files compared')
                    obs.check(a == b, 'code-differs', 'assembled code differs: {}'.format(
                        [(x, y) for x, y in zip(a, b) if x != y][:3] or (len(a), len(b))), **data)
            if len(found) > 1:
                obs.distinct((text, how))
            obs.describe(how=how, blocks=found[:8], marked=label, isa=isa, origin=origin)

    def from_generator(rng, obs):
        obs.evals -= 1
        for _ in range(3):
            isa, text = generated(rng)
            with scratch() as d:
                for _ in range(4):  # without lines the assembler knows nothing of
                    code, err = assemble(text, isa, d, 'try')
                    if code is not None:
                        break
                    bad = {int(n) for n in re.findall(r'\.s:(\d+):(?:\d+:)? (?:error|Error)', err)}
                    text = '\n'.join(l for k, l in enumerate(text.split('\n'), 1) if k not in bad)
            judge(obs, rng, isa, text, 'generated')

    def from_compiler(rng, obs):
        with scratch() as d:
            isa, src, cmd, text = c20.compiled(rng, d)
        obs.evals -= 1
        for _ in range(2):
            judge(obs, rng, isa, text, cmd + ': ' + src)

    # OSACA's machine models take seconds to load and do not change
    real_model, models = osaca.MachineModel, {}

    def model(arch=None, *args, **kwargs):
        if arch is None or args or kwargs:
            return real_model(arch, *args, **kwargs)
        if arch not in models:
            models[arch] = real_model(arch=arch)
        return models[arch]
    osaca.MachineModel = model
    with quiet():
        for isa, arch, code in (('x86', 'csx', 'addq $8, %rax\njne .L1\n'),
                                ('aarch64', 'a64fx', 'add x0, x0, #8\nb.ne .L1\n')):
            incore_model.parse_asm('.L1:\n' + code, isa, arch)
    ck.cases('generated', ck.pick(120, 2500), from_generator, limit=200, share=.5)
    ck.cases('compiled', ck.pick(140, 3000), from_compiler, limit=200)
    ck.require('files marked', 300)
    ck.require('assembled files compared', 150)
    for how in ('auto', 'number', 'label', 'user', 'same file'):
        ck.require('selected by ' + how, 20)
