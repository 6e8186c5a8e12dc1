"""Stands for likwid-perfctr: counts are functions of event, register and options; all is logged."""
import json
import os
import sys
import zlib

d = os.environ['KC_FAKE']
cfg = json.load(open(os.path.join(d, 'perfctr.json')))
argv = sys.argv[1:]
if argv == ['-a']:
    print('Group name\tDescription')
    print('-' * 80)
    for g in cfg['groups']:
        print('{:>12}\tWhat {} measures, in MBytes/s OR ELSE'.format(g, g.lower()))
    sys.exit(0)
group = cpus = None
csv = marker = False
i = 0
while i < len(argv) and argv[i].startswith('-'):
    if argv[i] in ('-f', '-O', '-m'):
        csv |= argv[i] == '-O'
        marker |= argv[i] == '-m'
    elif argv[i] in ('-g', '-C'):
        i += 1
        if argv[i - 1] == '-g':
            group = argv[i]
        else:
            cpus = argv[i]
    else:
        sys.exit('unknown option ' + argv[i])
    i += 1
cmd = argv[i:]
logfile = os.path.join(d, 'perflog')
n = sum(1 for _ in open(logfile)) if os.path.exists(logfile) else 0
entry = {'group': group, 'cpus': cpus, 'csv': csv, 'marker': marker, 'cmd': cmd,
         'omp': os.environ.get('OMP_NUM_THREADS'), 'counts': {}, 'n': n,
         'there': os.access(cmd[0], os.X_OK)}
reps = float(cmd[1])
entry['reps'] = reps
fail = n in cfg['fail']


def noise(text):
    return zlib.crc32('{} {} {}'.format(cfg['seed'], n, text).encode()) / 2. ** 32


runtime = reps * cfg['time'] * (1 + cfg['noise'] * (noise('time') - .5))
if n < cfg['instant']:
    runtime = 0.0
runtime = float('%.6e' % runtime)
entry['runtime'] = runtime
clock = cfg['clock'][n % len(cfg['clock'])]
entry['clock'] = clock
cores = 1
if cpus and '-' in cpus:
    cores = int(cpus.split('-')[1]) - int(cpus.split(':')[1].split('-')[0]) + 1
heads = ','.join('HWThread {}'.format(c) for c in range(cores))
events = group.split(',') if ':' in group else ['INSTR_RETIRED_ANY:FIXC0', 'CAS_COUNT_RD:MBOX0C0']
out = ['TABLE,Info,3,,' if cfg['style'] else 'STRUCT,Info,3,,',
       'CPU name:,Some CPU with a name,', 'CPU type:,Some type of it,']
if clock is not None:
    out.append('CPU clock:,{},'.format(clock))
out += ['TABLE,Region loop,Group 1 Raw,{},{}'.format(group.split(',')[0], len(events)),
        'Region Info,' + heads, 'RDTSC Runtime [s],' + ','.join(['%e' % runtime] * cores),
        'call count,' + ','.join(['1'] * cores), 'Event,Counter,' + heads]
for e in events:
    name, reg = e.split(':', 1)
    # not every register shows the same, and not every run
    count = int(reps * cfg['scale'] * (.5 + noise('base ' + name + reg)))
    text = str(count)
    kind = noise('kind ' + e)
    if kind < cfg['missing'] and ':' in group:
        text, count = '-' if kind < cfg['missing'] / 2 else 'nan', 0
    entry['counts'][e] = count
    out.append('{},{},{}'.format(name, reg, ','.join([text] + [
        str(int(noise(c) * 1e9)) for c in range(1, cores)])))
if cores > 1:
    out.append('Event,Counter,Sum,Min,Max,Avg')
    for e in events:
        name, reg = e.split(':', 1)
        out.append('{} STAT,{},1,2,3,4'.format(name, reg))
out += ['TABLE,Region loop,Group 1 Metric,{},4'.format(group.split(',')[0]), 'Metric,' + heads,
        'Runtime (RDTSC) [s],' + ','.join([('%.6e' % runtime)] + ['%e' % (runtime * 3)] *
                                          (cores - 1))]
entry['metrics'] = {}
if ':' not in group:
    for m in cfg['metrics'].get(group, []):
        v = '%.4f' % (noise(m) * cfg['scale'])
        entry['metrics'][m] = float(v)
        out.append('{},{}'.format(m, ','.join([v] + ['0'] * (cores - 1))))
if cores > 1:
    out += ['Metric,Sum,Min,Max,Avg', 'Runtime (RDTSC) [s] STAT,9,9,9,9']
out.append('')
if cfg.get('execute'):
    # a few repetitions of the real binary
    import subprocess
    entry['ran'] = int(min(reps, 3))
    env = {k: v for k, v in os.environ.items() if k != 'OMP_NUM_THREADS'}
    env['OMP_NUM_THREADS'] = '1'
    p = subprocess.run([cmd[0], str(entry['ran'])] + cmd[2:], stderr=subprocess.PIPE, env=env,
                       timeout=60)
    entry['rc'], entry['said'] = p.returncode, p.stderr.decode()
with open(logfile, 'a') as f:
    f.write(json.dumps(entry) + '\n')
if fail:
    sys.exit('ERROR - something went wrong')
print('\n'.join(out))
