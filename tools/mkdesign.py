#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the properties, the check modules, the seeded bugs and the notes."""
import ast
import json
import os
import re
import textwrap

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
tech = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
notes = {}
cur = None
for l in open(os.path.join(V, 'tools', 'design_notes.md')):
    m = re.match(r'== (\w+)$', l.strip())
    if m:
        cur = m.group(1)
        notes[cur] = ''
    else:
        notes[cur] += l


def module(i):
    path = os.path.join(V, 'kcmon', 'checks', i.lower() + '.py')
    d = {}
    if os.path.exists(path):
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS',
                                                                 'BUDGET'):
                v = n.value.right if isinstance(n.value, ast.BinOp) else n.value
                d[n.targets[0].id] = ast.literal_eval(v)
        src = open(path).read()
        d['cases'] = re.findall(r"ck\.cases\('([^']+)', ck\.pick\(([\d]+), ([\d]+)\)", src)
        d['needs'] = re.findall(r"ck\.require\('([^']+)', ([^)]+)\)", src)
    return d


seeds = {}
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m))

found = {}
for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    m = re.match(r'(known|fixed): property=(\w+) (\S+) (.*)', l)
    if m:
        found.setdefault(m.group(2), []).append(m.groups())


def w(text, indent=''):
    return textwrap.fill(re.sub(r'\s+', ' ', text).strip(), 98, initial_indent=indent,
                         subsequent_indent=' ' * len(indent), break_long_words=False,
                         break_on_hyphens=False)


out = [notes['head'].strip(), '', '## Properties', '']
for p in props:
    i, m = p['id'], module(p['id'])
    out += ['### {} {}'.format(i, p['title']), '', w(p['statement']), '']
    out += [w('**Decided by** ' + tech[i][0] + '. ' + tech[i][1][:1].upper() + tech[i][1][1:].rstrip('.') + '.',
              '- ')]
    out += [w('**Workload, monitor, oracle.** ' + m['RULE'], '- ')]
    out += [w('**Bounds and assumptions.** ' + ' '.join(m['ASSUMPTIONS']), '- ')]
    if m['cases']:
        out += [w('**Size.** ' + ', '.join('{} {} (thorough {})'.format(n, a, b)
                                           for n, a, b in m['cases']) +
                  ' cases, stopped after {} s (thorough {} s) at most.'.format(
                      m.get('BUDGET', {}).get('quick', 240), m.get('BUDGET', {}).get(
                          'thorough', 780)), '- ')]
    if m['needs']:
        out += [w('**Inconclusive unless observed:** ' + ', '.join(
            '{} x {}'.format(b.split(',')[-1].strip() if 'pick' in b else b, n)
            for n, b in m['needs']) + '.', '- ')]
    out += [w('**Beyond the tests.** ' + p['why_tests_cant'], '- ')]
    if i in notes:
        out += [w(notes[i], '- ')]
    for s, mm in seeds.get(i, []):
        out += [w('**Planted** `{}` ({}) Manifests: {} {}'.format(
            s, mm['what_it_breaks'].rstrip('.') + '.', mm['needs'].rstrip('.') + '.',
            mm.get('result', 'Caught by {}.'.format(i))), '- ')]
    n = [f for f in found.get(i, []) if f[0] == 'fixed']
    k = [f for f in found.get(i, []) if f[0] == 'known']
    if n:
        out += [w('**Defects repaired:** {}.'.format('; '.join('{} ({})'.format(f[3], f[2])
                                                              for f in n)), '- ')]
    for f in k:
        out += [w('**Known finding** {}: {}.'.format(f[2], f[3]), '- ')]
    out += ['']
out += [notes['tail'].strip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out).split('\n')), 'lines')
