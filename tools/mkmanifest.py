"""Writes /verif/MANIFEST.json from the check modules present."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
info = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'kcmon', 'checks', i.lower() + '.py')
    if os.path.exists(f) and i in info:
        src = open(f).read()
        level = next(n.value.value for n in ast.parse(src).body if isinstance(n, ast.Assign)
                     and n.targets[0].id == 'LEVEL')
        checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd':
                       './run.sh {} --thorough'.format(i), 'technique': info[i][0],
                       'level': level, 'level_note': info[i][1]})
    else:
        na.append({'property': i, 'reason': info.get(i, ['', ''])[1] if i in info else 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo: all monitors attach from outside (public API, CLI, '
              'stub tools, wrapped library calls). See DESIGN.md and KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable:', [x['property'] for x in na])
