"""Compile and run generated C programs under sanitizers."""
import os
import re
import subprocess

SAN = ('-O0 -g -ffp-contract=off -fsanitize=address,undefined -fno-sanitize-recover=all '
       '-fno-omit-frame-pointer')
REPO = os.path.realpath(os.environ.get('KCMON_REPO', '/repo'))
STUB_INC = '-I' + os.path.join(REPO, 'tests/test_files/dummy_likwid/include')
RUN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:exitcode=88:abort_on_error=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=88:print_stacktrace=0')


def compiler(cc='gcc', flags=SAN):
    """compiler entry of a machine description."""
    return {cc: flags}


def run(cmd, timeout=60, env=None, cwd=None):
    e = dict(os.environ, **RUN_ENV)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                       cwd=cwd)
    return p.returncode, p.stdout, p.stderr.decode('utf8', 'replace')


def sanitizer_report(rc, err):
    """The sanitizer's complaint, or None."""
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        return 'UBSan: ' + m.group(1)
    m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', err)
    if m:
        return 'ASan: ' + re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n]*)', err)
    if m:
        return 'TSan: ' + m.group(1)
    if rc < 0:
        return 'killed by signal {}'.format(-rc)
    return None


def prototype(path, name='kernel'):
    """[(parameter name, is pointer, C type)] of the function declared in file *path*."""
    from pycparser import CParser, c_ast, c_generator
    with open(path) as f:
        code = '\n'.join(l for l in f.read().split('\n') if not l.lstrip().startswith('#'))
    if not code.rstrip().endswith((';', '}')):
        code += ';'
    ast = CParser().parse(code)
    for e in ast.ext:
        d = e.decl if isinstance(e, c_ast.FuncDef) else e
        t = d if isinstance(d, c_ast.FuncDecl) else getattr(d, 'type', None)
        if isinstance(t, c_ast.FuncDecl):
            declared = d.name if isinstance(d, c_ast.Decl) else t.type.declname
            if declared == name:
                return [(p.name, isinstance(p.type, (c_ast.PtrDecl, c_ast.ArrayDecl)),
                         c_generator.CGenerator().visit(p)) for p in t.args.params]
    raise ValueError('no function {} in {}'.format(name, path))
