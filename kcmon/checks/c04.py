"""C04: comment / macro / pragma stripping and identifier replacement (differential monitor)."""
import re

from kcmon.core import quiet
from kcmon.gen import kernels as G

LEVEL = 'exploration'
RULE = ('Random texts of code tokens, line and block comments with hostile contents, (continued) '
        'macros and pragmas, with and without a final newline; the generator knows which tokens, '
        'on which lines, must survive. Syntax trees of random C functions for renaming. '
        'Non-trivial: at least one comment touching a code token, or two occurrences to rename.')
ASSUMPTIONS = ['No string or character literals containing comment markers (documented limit); '
               'directives are written "#name" without space; // comments do not end in a '
               'backslash.']
TOKEN = re.compile(r'\s*([A-Za-z_]\w*|\d+\.?\d*|\+\+|\+=|==|<=|//|/\*|\*/|[^\s\w])')


def tokens_by_line(text):
    r = []
    for n, line in enumerate(text.split('\n')):
        pos = 0
        while True:
            m = TOKEN.match(line, pos)
            if not m:
                break
            r.append((n, m.group(1)))
            pos = m.end()
    return r


CODE = ['int', 'x', 'a', '[', ']', '(', ')', '{', '}', ';', '+', '*', '/', '-', '=', '1', '2.5',
        'for', 'double', 'y1', '<', ',', '++', '+=']
CHUNK = ['*', '/', '//', 'x', ' ', '"', "'", 'int y;', '* /', '**', '/*', '#', '\t', 'a = 1;', '//x']


def run(ck):
    from kerncraft.pycparser_utils import clean_code, replace_id
    from pycparser import CParser, c_ast
    from pycparser.c_generator import CGenerator

    def texts(rng, obs):
        comments, macros, pragmas = [rng.random() < p for p in (.85, .5, .5)]
        out, expect, line, touching = '', [], 0, 0

        def emit(s):
            nonlocal out, line
            out += s
            line += s.count('\n')

        def comment_text(multi):
            s = ''.join(rng.choice(CHUNK + (['\n', '\n#define B 1\n'] if multi and comments
                                            else [])) for _ in range(rng.randint(0, 6)))
            if not comments:
                s = s.replace('#', 'h').replace('//', 'hh')
            s = s.replace('*/', '* ')
            return s

        def keep(s, at):
            for n, t in tokens_by_line(s):
                expect.append((at + n, t))

        for _ in range(rng.randint(1, 25)):
            r = rng.random()
            if r < .5:
                for _ in range(rng.randint(1, 4)):
                    t = rng.choice(CODE)
                    # two tokens which would merge, or form a comment, are separated
                    if out and (re.match(r'[\w.]', t[0]) and re.match(r'[\w.]', out[-1]) or
                                t[0] in '/*+=-<' and out[-1] in '/*+=-<'):
                        emit(' ')
                    expect.append((line, t))
                    emit(t)
                    if rng.random() < .4:
                        emit(' ')
            elif r < .62:
                emit(rng.choice(['\n', '\n\n', '  ', '\n  ']))
            elif r < .78:
                if out and out[-1] in '/*':
                    emit(' ')
                touching += bool(out) and not out[-1].isspace()
                body = comment_text(True)
                if body.endswith('*') and not comments or body.startswith('/'):
                    body = ' ' + body if comments or True else body
                if body.endswith('*'):
                    body += ' '
                if rng.random() < .05 and comments:
                    body = '/'            # "/*/" does not close itself
                    body += '*' if rng.random() < .2 else ' x'
                    if body.endswith('*'):
                        body += ' '
                if not comments:
                    keep('/*' + body + '*/', line)
                emit('/*' + body + '*/')
                if rng.random() < .25 and comments:
                    emit('/*' + comment_text(False).rstrip('*') .lstrip('/') + ' */')
            elif r < .88:
                if out and out[-1] in '/*':
                    emit(' ')
                body = comment_text(False).replace('\n', '').rstrip('\\')
                if not comments:
                    keep('//' + body, line)
                emit('//' + body + '\n')
            else:
                if out and not out.endswith('\n'):
                    emit('\n')
                emit(rng.choice(['', '  ']))
                prag = rng.random() < .5
                body = rng.choice(['#pragma omp parallel', '#pragma unroll (4)']) if prag else \
                    rng.choice(['#define A 1', '#include <x.h>', '#ifdef A', '#endif',
                                '#define pragma 2'])
                if rng.random() < .3:
                    body += ' \\\n  foo' + (' \\\n bar' if rng.random() < .4 else '')
                if not (pragmas if prag else macros):
                    keep(body, line)
                emit(body + '\n')
        nl = rng.random() < .5
        if nl:
            emit('\n')
        if not comments and ('//' in out or '/*' in out):
            pass
        with obs.subject('cleaning-raises'):
            got = clean_code(out, comments=comments, macros=macros, pragmas=pragmas)
        g = tokens_by_line(got)
        obs.event('texts cleaned')
        obs.event('tokens compared', len(expect))
        obs.describe(text=out, comments=comments, macros=macros, pragmas=pragmas)
        if touching:
            obs.distinct(out)
        if [t for _, t in g] != [t for _, t in expect]:
            obs.violate('tokens-changed', 'comments={} macros={} pragmas={}'.format(
                comments, macros, pragmas), text=out, cleaned=got,
                expected=' '.join(t for _, t in expect), got=' '.join(t for _, t in g))
        else:
            obs.check([n for n, _ in g] == [n for n, _ in expect], 'lines-moved', '', text=out,
                      cleaned=got)
        with obs.subject('cleaning-raises'):
            again = clean_code(got, comments=comments, macros=macros, pragmas=pragmas)
        obs.check(tokens_by_line(again) == g, 'not-idempotent', '', text=out)

    def kernels(rng, obs):
        """Stripping comments from a commented kernel gives the kernel."""
        spec = G.generate(rng)
        toks = spec.source().split()
        plain = ' '.join(toks)
        s = ''
        for t in toks:
            s += t + (' ' if t[-1] in '/*' else '') + rng.choice([' ', ' ', '\n', '/* c */ ', '// x\n', '/**/ ', '/*\n*/\n',
                                 ' /* a = b[i]; */\n// y\n'])
        if rng.random() < .5:
            s += rng.choice(['// end', '/* end */', '//', '/**/'])
        with obs.subject('cleaning-raises'):
            got = clean_code(s)
        obs.event('texts cleaned')
        obs.distinct(s)
        a = [t for _, t in tokens_by_line(got)]
        b = [t for _, t in tokens_by_line(plain)]
        obs.event('tokens compared', len(b))
        obs.check(a == b, 'tokens-changed', 'kernel', text=s, cleaned=got)

    NAMES = ['x', 'y', 'N', 'xx', 'x_', 'foo', 'i']

    def renaming(rng, obs):
        def expr(d):
            r = rng.random()
            if d == 0 or r < .3:
                return rng.choice(NAMES + ['1', '2.0'])
            if r < .5:
                return '{}[{}]'.format(rng.choice(NAMES), expr(d - 1))
            if r < .6:
                return 'call({}, {})'.format(expr(d - 1), expr(d - 1))
            if r < .65:
                return '-' + rng.choice(NAMES)
            return '({} {} {})'.format(expr(d - 1), rng.choice('+-*/'), expr(d - 1))

        def stmt(d):
            r = rng.random()
            if d == 0 or r < .4:
                return '{} = {};'.format(rng.choice([rng.choice(NAMES), 'z[{}]'.format(expr(1))]),
                                         expr(3))
            if r < .55:
                return 'if ({} < {}) {{ {} }} else {{ {} }}'.format(expr(1), expr(1), stmt(d - 1),
                                                                   stmt(d - 1))
            if r < .7:
                return 'for (int q = {}; q < {}; q++) {{ {} }}'.format(
                    expr(1), expr(1), stmt(d - 1))
            if r < .8:
                return 'call({});'.format(', '.join(expr(1) for _ in range(rng.randint(1, 3))))
            if r < .87:
                return '{};'.format(rng.choice(NAMES))
            return '{{ {} {} }}'.format(stmt(d - 1), stmt(d - 1))
        code = 'void f(double z[]) {{ {} }}'.format(' '.join(
            stmt(3) for _ in range(rng.randint(1, 5))))
        ast = CParser().parse(code)
        before = CGenerator().visit(ast)
        name = rng.choice(NAMES)
        n = len(re.findall(r'\b{}\b'.format(name), before))
        if n > 1:
            obs.distinct((code, name))
        with obs.subject('replace-raises'):
            replace_id(ast, name, c_ast.ID('NEW__'))
        after = CGenerator().visit(ast)
        obs.event('identifiers replaced', n)
        obs.check(after == re.sub(r'\b{}\b'.format(name), 'NEW__', before), 'wrong-replacement',
                  name, before=before, after=after)
        obs.describe(code=code, name=name)

    def splicing(rng, obs):
        """Statements standing for a list of statements are replaced by exactly that list."""
        items = [rng.choice(['HOLE', 'y', 'x = 1', 'g(HOLE2)', 'HOLE'])
                 for _ in range(rng.randint(1, 7))]
        code = 'void f() {{ {} }}'.format(' '.join(i + ';' for i in items))
        ast = CParser().parse(code)
        k = rng.choice([0, 1, 2, 3])
        new = ['p{}'.format(i) for i in range(k)]
        with obs.subject('replace-raises'):
            replace_id(ast, 'HOLE', [c_ast.ID(p) for p in new])
        got = re.sub(r'\s+', '', CGenerator().visit(ast))
        want = re.sub(r'\s+', '', 'void f() {{ {} }}'.format(''.join(
            i + ';' for x in items for i in (new if x == 'HOLE' else [x]))))
        obs.event('identifiers replaced', items.count('HOLE'))
        obs.distinct((tuple(items), k))
        obs.check(got == want, 'wrong-splice', 'items {} x {}'.format(items, k), got=got, want=want)

    ck.cases('texts', ck.pick(12000, 200000), texts, share=.5)
    ck.cases('kernels', ck.pick(800, 8000), kernels, share=.4)
    ck.cases('renaming', ck.pick(1000, 10000), renaming, share=.6)
    ck.cases('splicing', ck.pick(500, 4000), splicing)
    ck.require('tokens compared', 5000)
    ck.require('identifiers replaced', 300)
