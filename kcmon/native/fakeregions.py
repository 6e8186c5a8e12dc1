"""Stands for likwid-perfctr with marked regions: all that it reports is made up and logged."""
import json
import math
import os
import sys
import zlib

d = os.environ['KC_FAKE']
cfg = json.load(open(os.path.join(d, 'perfctr.json')))
argv = sys.argv[1:]
if argv == ['-a']:
    print('Group name\tDescription')
    print('-' * 80)
    for g in cfg['groups']:
        print('{:>12}\tWhat {} measures, in MBytes/s OR ELSE'.format(g, g.lower()))
    sys.exit(0)
group = cpus = None
csv = marker = False
i = 0
while i < len(argv) and argv[i].startswith('-'):
    if argv[i] in ('-f', '-O', '-m'):
        csv |= argv[i] == '-O'
        marker |= argv[i] == '-m'
    elif argv[i] in ('-g', '-C'):
        i += 1
        if argv[i - 1] == '-g':
            group = argv[i]
        else:
            cpus = argv[i]
    else:
        sys.exit('unknown option ' + argv[i])
    i += 1
cmd = argv[i:]
logfile = os.path.join(d, 'perflog')
n = sum(1 for _ in open(logfile)) if os.path.exists(logfile) else 0
fail = n in cfg['fail']


def noise(text):
    return zlib.crc32('{} {} {}'.format(cfg['seed'], n, text).encode()) / 2. ** 32


values = [float(x) for x in cmd[1:]]
clock = cfg['clock'][n % len(cfg['clock'])]
cores = 1
if cpus and '-' in cpus:
    cores = int(cpus.split('-')[1]) - int(cpus.split(':')[1].split('-')[0]) + 1
heads = ','.join('HWThread {}'.format(c) for c in range(cores))
events = group.split(',') if ':' in group else ['INSTR_RETIRED_ANY:FIXC0', 'CAS_COUNT_RD:MBOX0C0']
entry = {'group': group, 'cpus': cpus, 'csv': csv, 'marker': marker, 'cmd': cmd, 'n': n,
         'omp': os.environ.get('OMP_NUM_THREADS'), 'there': os.access(cmd[0], os.X_OK),
         'clock': clock, 'regions': {}}
regions = {}
for name, r in cfg['regions'].items():
    t = r['time']
    for v, p in zip(values, r['powers']):
        t *= max(v, 1e-3) ** p if p >= 0 else max(.1, 3 - math.log10(max(v, 1e-30)))
    t *= 1 + cfg['noise'] * (noise('time ' + name) - .5)
    calls = r['calls'] if isinstance(r['calls'], int) else int(values[r['calls'][0]])
    regions[name] = [0.0 if n < r['instant'] else float('%.6e' % t), calls]
if not marker:
    regions = {'': [float('%.6e' % sum(r[0] for r in regions.values())), None]}
out = ['TABLE,Info,3,,' if cfg['style'] else 'STRUCT,Info,3,,',
       'CPU name:,Some CPU with a name,', 'CPU type:,Some type of it,',
       'CPU clock:,{},'.format(clock)]
for name, (runtime, calls) in regions.items():
    r = entry['regions'][name] = {'runtime': runtime, 'calls': calls, 'counts': {}, 'metrics': {}}
    title = 'Region {},'.format(name) if marker else ''
    out.append('TABLE,{}Group 1 Raw,{},{}'.format(title, group.split(',')[0], len(events)))
    if marker:
        out += ['Region Info,' + heads, 'RDTSC Runtime [s],' + ','.join(['%e' % runtime] * cores),
                'call count,' + ','.join([str(calls)] * cores)]
    out.append('Event,Counter,' + heads)
    for e in events:
        ev, reg = e.split(':', 1)
        count = int(cfg['scale'] * (.5 + noise('base ' + name + ev + reg)))
        text = str(count)
        kind = noise('kind ' + name + e)
        if kind < cfg['missing'] and ':' in group:
            text, count = '-' if kind < cfg['missing'] / 2 else 'nan', 0
        r['counts'][e] = count
        out.append('{},{},{}'.format(ev, reg, ','.join([text] + [
            str(int(noise(c) * 1e9)) for c in range(1, cores)])))
    if cores > 1:
        out.append('TABLE,{}Group 1 Raw STAT,{},{}'.format(title, group.split(',')[0], len(events)))
        out.append('Event,Counter,Sum,Min,Max,Avg')
        for e in events:
            ev, reg = e.split(':', 1)
            out.append('{} STAT,{},1,2,3,4'.format(ev, reg))
    out += ['TABLE,{}Group 1 Metric,{},4'.format(title, group.split(',')[0]), 'Metric,' + heads,
            'Runtime (RDTSC) [s],' + ','.join(['%.6e' % runtime] + ['%e' % (runtime * 3)] *
                                              (cores - 1))]
    if ':' not in group:
        for m in cfg['metrics'].get(group, []):
            v = '%.4f' % (noise(name + m) * cfg['scale'])
            r['metrics'][m] = float(v)
            out.append('{},{}'.format(m, ','.join([v] + ['0'] * (cores - 1))))
    if cores > 1:
        out += ['TABLE,{}Group 1 Metric STAT,{},4'.format(title, group.split(',')[0]),
                'Metric,Sum,Min,Max,Avg', 'Runtime (RDTSC) [s] STAT,9,9,9,9']
out.append('')
with open(logfile, 'a') as f:
    f.write(json.dumps(entry) + '\n')
if fail:
    sys.exit('ERROR - something went wrong')
print('\n'.join(out))
