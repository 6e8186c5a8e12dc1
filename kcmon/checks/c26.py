"""C26: machine descriptions of simulated computers against what their tools reported."""
import copy
import math
import os
import re
import subprocess
import sys

from kcmon.core import Skip, quiet, scratch
from kcmon.gen import likwid

LEVEL = 'exploration'
RULE = ('Random computers (sockets, cores, SMT, shared and private caches, NUMA layouts, missing '
        'clock or model name) whose tools report them in the formats of likwid-topology, '
        '/proc/cpuinfo, sysfs and likwid-bench; descriptions are built from them, updated, '
        'compared, benchmarked, interrupted and continued. A case is non-trivial by its computer '
        'and the calls made.')
ASSUMPTIONS = ['likwid-topology and likwid-bench are replaced by stand-ins printing their formats; '
               'reading real hardware is outside.',
               'Benchmarked bandwidths are those the stand-in logged, not those of a computer.']
BUDGET = {'quick': 240, 'thorough': 800}
PRELOAD = True

COMPARED = ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
            'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']
KERNELS = ['load', 'copy', 'update', 'triad', 'daxpy']


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def close(a, b, rel=1e-6):
    return abs(float(a) - float(b)) <= rel * max(abs(float(a)), abs(float(b)))


def check_readouts(obs, data, system, before):
    for k, v in system.readouts().items():
        obs.check(k in data and data[k] == v and type(data[k]) is type(v), 'readout ' + k,
                  '{!r} instead of {!r} for {}'.format(data.get(k), v, summary(system)))
    if system.mhz is None:
        obs.check(data.get('clock') == before.get('clock'), 'clock-invented',
                  '{!r}, but not known'.format(data.get('clock')))
    else:
        obs.check(not isinstance(data.get('clock'), str) and
                  close(data['clock'], system.mhz * 1e6) and data['clock'].unit == 'Hz', 'clock',
                  '{!r} instead of {} MHz'.format(data.get('clock'), system.mhz))
    obs.event('readouts compared', len(system.readouts()) + 1)


def check_hierarchy(obs, data, system):
    h = data['memory hierarchy']
    want = ['L{}'.format(i + 1) for i in range(len(system.caches))] + ['MEM']
    if not obs.check([m['level'] for m in h] == want, 'levels', '{} instead of {}'.format(
            [m.get('level') for m in h], want)):
        return
    for i, c in enumerate(system.caches):
        m = h[i]
        obs.check(close(m['size per group'], c['bytes']) and m['size per group'].unit == 'B',
                  'cache-size', '{!r} instead of {}'.format(m['size per group'], c['text']))
        w = {'groups': system.cores * system.sockets // c['share'], 'cores per group': c['share'],
             'threads per group': c['share'] * system.smt}
        for k, v in w.items():
            obs.check(m.get(k) == v, 'cache-' + k.replace(' ', '-'), '{} of {}: {!r} instead of {} '
                      'for {}'.format(k, m['level'], m.get(k), v, summary(system)))
        nxt = 'L{}'.format(i + 2) if i + 1 < len(system.caches) else None
        cg = m['cache per group']
        obs.check(cg.get('load_from') == nxt and cg.get('store_to') == nxt, 'cache-chain',
                  '{}: loads from {}, stores to {}, next is {}'.format(
                      m['level'], cg.get('load_from'), cg.get('store_to'), nxt))
    m = h[-1]
    obs.check(m.get('cores per group') == system.cores and m.get('size per group', 0) is None and
              m.get('threads per group') == system.cores * system.smt, 'memory',
              '{} for {}'.format({k: m.get(k) for k in ('cores per group', 'threads per group',
                                                        'size per group')}, summary(system)))
    obs.event('levels compared', len(h))


def summary(s):
    return '{} sockets x {} cores x {} threads, {} NUMA domains, caches {}'.format(
        s.sockets, s.cores, s.smt, s.domains,
        [(c['text'], c['share']) for c in s.caches])


def check_nothing_invented(obs, data, system, known=()):
    """Whatever the reports do not state is marked as missing, absent or as it was before."""
    reported = {'level', 'groups', 'cores per group', 'threads per group', 'size per group',
                'load_from', 'store_to'}
    for path, v in leaves(data):
        if path[0] in COMPARED or path[0] in ('clock', 'kerncraft version'):
            continue
        if path[-1] in reported or (path, repr(v)) in known:
            continue
        if isinstance(v, str) and v.startswith('INFORMATION_REQUIRED'):
            obs.event('entries marked as missing')
            continue
        if v in ('architecture code analyzer', 'full socket memory bandwidth') and \
                path[-2:] == ('upstream throughput', 0):
            continue  # names where the throughput is to be taken from
        obs.check(v is None or (isinstance(path[-1], str) and path[-1].startswith('penalty') and
                                v == 0), 'invented',
                  '{} is {!r}, which nothing reported'.format(path, v))
    obs.event('descriptions searched for invented entries')


def case_describe(rng, obs):
    from kerncraft.machinemodel import MachineModel
    s = likwid.System(rng)
    with scratch() as d, likwid.running_on(s, d) as cpuinfo:
        with obs.subject(), quiet():
            fresh = MachineModel()
            before = copy.deepcopy(fresh._data)
            m = MachineModel()
            m.update(readouts=True, memory_hierarchy=True, benchmarks=False, machine_state=False,
                     cpuinfo_path=cpuinfo)
        check_readouts(obs, m._data, s, before)
        check_hierarchy(obs, m._data, s)
        check_nothing_invented(obs, m._data, s)
        obs.distinct(summary(s))
        obs.describe(system=summary(s))
        # partial updates touch nothing else
        for part in ({'readouts': True, 'memory_hierarchy': False},
                     {'readouts': False, 'memory_hierarchy': True}):
            with obs.subject(), quiet():
                p = MachineModel()
                p.update(benchmarks=False, machine_state=False, cpuinfo_path=cpuinfo, **part)
            rest = set(before) - ({'memory hierarchy'} if part['memory_hierarchy'] else
                                  set(COMPARED) | {'clock', 'kerncraft version'})
            obs.check(all(p._data[k] == before[k] for k in rest), 'partial-update',
                      '{} changed {}'.format(part, [k for k in rest if p._data[k] != before[k]]))
        # the description can be stored and is read back the same
        with obs.subject(), quiet():
            m.dump(os.path.join(d, 'm.yml'))
            back = MachineModel(os.path.join(d, 'm.yml'))
        for (pa, va), (pb, vb) in zip(sorted(leaves(m._data), key=repr),
                                      sorted(leaves(back._data), key=repr)):
            obs.check(pa == pb and (va == vb or close(va, vb)), 'stored-differs',
                      '{} {!r} is stored as {} {!r}'.format(pa, va, pb, vb))
        # each description is its own
        with obs.subject(), quiet():
            a = MachineModel()
            a.update(benchmarks=False, machine_state=False, cpuinfo_path=cpuinfo)
            for mem in a['memory hierarchy']:
                mem['upstream throughput'] = ['spoiled']
                mem['cores per group'] = 99
                mem.setdefault('cache per group', {})['sets'] = 12345
            a['memory hierarchy'].pop()
            a._data['sockets'] = 77
            b = MachineModel()
            b.update(benchmarks=False, machine_state=False, cpuinfo_path=cpuinfo)
        obs.check(b._data == m._data, 'descriptions-share', 'changing one description changed '
                  'another of {}'.format(summary(s)))


def case_revise(rng, obs):
    """Update of a description that knows more than the reports."""
    from kerncraft.machinemodel import MachineModel
    from kcmon.gen import machines
    s = likwid.System(rng)
    data = machines.generated(rng)
    before = copy.deepcopy(data)
    overwrite = rng.random() < .4
    with scratch() as d, likwid.running_on(s, d) as cpuinfo:
        with obs.subject(), quiet():
            m = MachineModel(machine_yaml=data)
            if rng.random() < .2:
                path = os.path.join(d, 'base.yml')
                m.dump(path)
                m = MachineModel(path)
            m.update(benchmarks=False, machine_state=False, overwrite=overwrite,
                     cpuinfo_path=cpuinfo)
        check_readouts(obs, m._data, s, before)
        check_hierarchy(obs, m._data, s)
        for k in set(before) - set(COMPARED) - {'clock', 'kerncraft version', 'memory hierarchy'}:
            obs.check(m._data[k] == before[k], 'update-changed-other',
                      '{}: {!r} became {!r}'.format(k, before[k], m._data[k]))
        known = {x['level']: x for x in before['memory hierarchy']}
        if not overwrite:
            stated = {'level', 'groups', 'cores per group', 'threads per group', 'size per group'}
            for mem in m['memory hierarchy']:
                old = known.get(mem['level'], {})
                for k, v in old.items():
                    if k in stated:
                        continue
                    if k == 'cache per group':
                        if 'cache per group' not in mem:
                            obs.check(False, 'known-lost', 'cache of ' + mem['level'])
                            continue
                        same = all(mem[k].get(x) == y for x, y in v.items()
                                   if x not in ('load_from', 'store_to'))
                        chain = {x: y for x, y in v.items() if x in ('load_from', 'store_to')}
                        if mem is m['memory hierarchy'][len(s.caches) - 1] and chain:
                            continue  # contradicts the report, checked in check_hierarchy
                    else:
                        same = mem.get(k) == v
                    obs.check(same, 'known-lost', '{} of {}: {!r} became {!r}'.format(
                        k, mem['level'], v, mem.get(k)))
            text = ' '.join(str(v) for _, v in leaves(m['memory hierarchy']))
            obs.check('INFORMATION_REQUIRED' not in text, 'placeholder-over-known', text[:300])
        else:
            check_nothing_invented(obs, {'memory hierarchy': m['memory hierarchy']}, s)
        obs.check(repr(data) == repr(before), 'given-description-altered', 'by update')
        obs.distinct((summary(s), overwrite))
        obs.event('descriptions revised')


def case_compare(rng, obs):
    from kerncraft.machinemodel import MachineModel
    s = likwid.System(rng)
    with scratch() as d, likwid.running_on(s, d) as cpuinfo:
        with obs.subject(), quiet():
            m = MachineModel()
            m.update(benchmarks=False, machine_state=False, cpuinfo_path=cpuinfo)
        for _ in range(6):
            data = copy.deepcopy(m._data)
            # where the clock, caches etc. differ, the system is the same nevertheless
            if rng.random() < .5:
                data['memory hierarchy'] = []
                data['compiler'] = {'gcc': '-O2'}
            wrong = rng.sample(COMPARED, rng.choice([0, 0, 1, 1, 1, 2, 3, 8]))
            for k in wrong:
                v = data[k]
                data[k] = v + rng.choice([1, 2, -1, 8]) if isinstance(v, int) else \
                    rng.choice(['something else', (v or 'x') + '2', (v or 'ab')[:-1]])
            for k in [k for k in COMPARED if k not in wrong and rng.random() < .1]:
                del data[k]
            with obs.subject(), quiet() as (out, err):
                x = MachineModel(machine_yaml=data)
                got = x.current_system(print_diff=True)
            text = out.getvalue() + err.getvalue()
            named = {k for k in COMPARED if "'{}'".format(k) in text}
            obs.check(got is (not wrong), 'comparison', '{} for differences in {}'.format(
                got, wrong))
            obs.check(named == set(wrong), 'comparison-report', 'reported {} instead of {}'.format(
                sorted(named), sorted(wrong)))
            for k in wrong:
                obs.check(any(repr(k) in l and repr(data[k]) in l and repr(m._data[k]) in l
                              for l in text.split('\n')), 'comparison-values',
                          '{!r} {!r} {!r} in {}'.format(k, data[k], m._data[k], text))
            with obs.subject(), quiet() as (out, err):
                silent = x.current_system()
            obs.check(silent is got and not out.getvalue(), 'comparison-silent', out.getvalue())
            obs.event('comparisons')
            obs.distinct((summary(s), tuple(sorted(wrong))))


# --- benchmarks ------------------------------------------------------------------------------

def offer(rng, directory):
    """The kernels the stand-in for likwid-bench knows."""
    lines = []
    for k in KERNELS + ['store', 'stream', 'sum']:
        variants = ['', '_sse', '_avx', '_avx512', '_avx512_fma', '_mem', '_mem_avx', '_sp',
                    '_sp_avx', '_nt', '_mem_avx512', '_avx_nt']
        for v in variants:
            if v and rng.random() < .35:
                continue
            mode = 'ok' if not v else rng.choice(['ok', 'ok', 'ok', 'fail', 'mute'])
            base = rng.choice([2000, 5000, 9000, 15000, 33000]) * rng.uniform(.9, 1.1)
            if v and ('_mem' in v or '_sp' in v or '_nt' in v):
                base *= 3  # the tempting ones
            lines.append((k + v, base, mode))
    rng.shuffle(lines)
    likwid.put(os.path.join(directory, 'kernels'),
               ''.join('{} {:.3f} {}\n'.format(*l) for l in lines))
    return lines


def read_log(directory):
    r = []
    try:
        with open(os.path.join(directory, 'log')) as f:
            for l in f:
                k, dom, size, threads, chunk, stride, groups, bw = l.split()
                r.append((k, dom, int(size), int(threads), int(chunk), int(stride), int(groups),
                          float(bw)))
    except FileNotFoundError:
        pass
    return r


def expected_sizes(system, level):
    """Bytes to be used on 1..n cores in the given level."""
    r = []
    caches = system.caches
    for c in range(1, system.cores + 1):
        if level == len(caches):
            r.append(15. * caches[-1]['bytes'])
            continue
        own = caches[level]
        size = max(own['bytes'] * c / own['share'], own['bytes']) * .66
        if level:
            up = caches[level - 1]
            size = max(size, max(up['bytes'] * c / up['share'], up['bytes']) * 1.2)
        r.append(size)
    return r


REPETITIONS = 10


def check_benchmarks(obs, m, system, log, lines, kept=(), kernels=KERNELS):
    """Every result against the log of runs."""
    b = m['benchmarks']
    speed = {k: (base, mode) for k, base, mode in lines}
    levels = ['L{}'.format(i + 1) for i in range(len(system.caches))] + ['MEM']
    obs.check(set(levels) <= set(b['measurements']), 'levels-measured', str(list(b['measurements'])))
    for k in kernels:
        info = b['kernels'][k]
        cand = {n: sp for n, (sp, mode) in speed.items() if n.startswith(k) and mode == 'ok' and
                not any(e in n for e in ('_mem', '_sp', '_nt'))}
        fastest = info.get('fastest bench kernel')
        top = max(cand.values())
        # up to 5 % noise per run
        obs.check(fastest in cand and cand[fastest] >= top / 1.06, 'fastest-kernel',
                  '{} of {} ({}) chosen instead of {}'.format(
                      fastest, speed.get(fastest), k, max(cand, key=cand.get)))
    used = 0
    for li, level in enumerate(levels):
        sizes = expected_sizes(system, li)
        for t in range(1, system.smt + 1):
            e = b['measurements'][level].get(t)
            if not obs.check(e is not None, 'threads-measured', '{} {}'.format(level, t)):
                continue
            cores = list(range(1, system.cores + 1))
            obs.check(list(e['cores']) == cores and e['threads per core'] == t and
                      list(e['threads']) == [c * t for c in cores], 'cores-noted', repr(e)[:300])
            for i, c in enumerate(cores):
                obs.check(close(e['total size'][i], sizes[i], .0101), 'size-noted',
                          '{} on {} cores: {!r} instead of {} for {}'.format(
                              level, c, e['total size'][i], sizes[i], summary(system)))
                obs.check(close(e['size per core'][i] * c, e['total size'][i], .011) and
                          close(e['size per thread'][i] * (c * t), e['total size'][i], .011),
                          'size-per-core', '{!r} {!r} {!r} on {}x{}'.format(
                              e['size per core'][i], e['size per thread'][i], e['total size'][i],
                              c, t))
            for k in kernels:
                res, stats = e['results'].get(k), e['stats'].get(k)
                if not obs.check(res is not None and stats is not None and
                                 len(res) == len(stats) == len(cores), 'results-complete',
                                 '{} {} {}: {!r}'.format(level, t, k, res)):
                    continue
                for i, c in enumerate(cores):
                    if (level, t, k, i) in kept:
                        obs.check(close(res[i], kept[(level, t, k, i)]), 'known-result-lost',
                                  '{} {} {} {}'.format(level, t, k, c))
                        continue
                    obs.check(len(stats[i]) == REPETITIONS, 'repetitions', str(len(stats[i])))
                    obs.check(close(res[i], max(float(x) for x in stats[i])) and
                              res[i].unit == 'B/s', 'best-of-measured',
                              '{!r} of {!r}'.format(res[i], stats[i]))
                    fk = b['kernels'][k]['fastest bench kernel']
                    runs = [r for r in log if r[0] == fk and r[3] == c * t and
                            close(r[2] * 1e3, e['total size'][i], 1e-3 + 1e3 / float(
                                e['total size'][i])) and
                            r[4:7] == (1, system.smt // t, 1) and r[1] == 'S0']
                    noted = sorted(float(x) for x in stats[i])
                    pool = sorted(r[7] * 1e6 for r in runs)
                    ok = all(any(close(x, y, 1e-6) for y in pool) for x in noted)
                    obs.check(ok and len(runs) >= REPETITIONS, 'not-what-was-measured',
                              '{} with {} on {} cores, {} threads per core: {} noted, {} logged '
                              'with these settings'.format(k, fk, c, t, noted[:3], pool[:3]))
                    used += len(noted)
    obs.event('measurements traced to runs', used)


def one_small(rng, d):
    s = likwid.System(rng, small=True)
    return s


def run_update(m, cpuinfo, obs, **kw):
    with obs.subject(), quiet():
        m.update(machine_state=False, cpuinfo_path=cpuinfo, **kw)


def case_benchmarks(tool):
    def case(rng, obs):
        from kerncraft.machinemodel import MachineModel
        s = one_small(rng, None)
        with scratch() as d, likwid.running_on(s, d) as cpuinfo:
            os.symlink(tool, os.path.join(d, 'tools', 'likwid-bench'))
            lines = offer(rng, d)
            path = os.path.join(d, 'machine.yml')
            kind = rng.choice(['new', 'file', 'again', 'stale', 'interrupted', 'interrupted'])
            import argparse
            args = rng.choice([None, argparse.Namespace(verbose=rng.choice([0, 1, 2, 3]))])
            m = MachineModel(args=args)
            if kind != 'new':
                m.set_path(path)
            kept = {}
            if kind == 'interrupted':
                stop = rng.randint(6, 60)
                os.environ['KC_FAKE_STOP'] = str(stop * 7 + rng.randint(0, 9))
                try:
                    with quiet():
                        m.update(machine_state=False, cpuinfo_path=cpuinfo)
                    done = True
                except (subprocess.CalledProcessError, RuntimeError):
                    done = False
                finally:
                    del os.environ['KC_FAKE_STOP']
                if not done and os.path.exists(path):
                    log = read_log(d)
                    with obs.subject('interrupted-file-unreadable'), quiet():
                        left = MachineModel(path, args=args)
                    found = 0
                    for lv, per in left['benchmarks']['measurements'].items():
                        for t, e in per.items():
                            for k, res in e['results'].items():
                                # (those of which some cores are missing may be repeated)
                                for i, v in enumerate(res):
                                    found += 1
                                    if len(res) == s.cores:
                                        kept[(lv, t, k, i)] = float(v)
                    complete = sum(len(r) for per in m['benchmarks']['measurements'].values()
                                   for e in per.values() for r in e['results'].values())
                    obs.check(found == complete, 'completed-measurement-lost',
                              '{} of {} in the file'.format(found, complete))
                    obs.event('interrupted benchmarks', 1)
                    obs.event('measurements kept over interruption', len(kept))
                    m = left
                runs_before = len(read_log(d))
                run_update(m, cpuinfo, obs, overwrite=False)
                check_benchmarks(obs, m, s, read_log(d), lines)
                if kept:
                    again = len(read_log(d)) - runs_before
                    total = (len(s.caches) + 1) * s.smt * s.cores * len(KERNELS)
                    bound = (total - len(kept)) * REPETITIONS + len(lines)
                    obs.check(again <= bound, 'measured-again', '{} runs for {} missing of {} '
                              'measurements'.format(again, total - len(kept), total))
                    now = m['benchmarks']['measurements']
                    obs.check(all(close(now[lv][t]['results'][k][i], v)
                                  for (lv, t, k, i), v in kept.items()), 'known-result-lost', '')
            else:
                run_update(m, cpuinfo, obs)
                check_benchmarks(obs, m, s, read_log(d), lines)
            if kind == 'file':
                with obs.subject(), quiet():
                    back = MachineModel(path)
                check_benchmarks(obs, back, s, read_log(d), lines)
            if kind in ('again', 'stale'):
                had = {(lv, t, k, i): float(v)
                       for lv, per in m['benchmarks']['measurements'].items()
                       for t, e in per.items() for k, r in e['results'].items()
                       for i, v in enumerate(r)}
                n = len(read_log(d))
                stale = set()
                if kind == 'stale':
                    # the description comes from a system with other caches or cores
                    for lv, per in m['benchmarks']['measurements'].items():
                        for t, e in per.items():
                            how = rng.choice(['no', 'no', 'size', 'little', 'missing', 'cores'])
                            if how == 'size':
                                i = rng.randrange(len(e['total size']))
                                f = rng.choice([.5, 2., 1.05, .9])
                                for key in ('total size', 'size per core', 'size per thread'):
                                    e[key][i] = e[key][i] * f
                            elif how == 'little':
                                e['total size'][0] = e['total size'][0] * 1.002
                            elif how == 'missing':
                                del e[rng.choice(['total size', 'cores', 'stats'])]
                            elif how == 'cores':
                                keys = ('total size', 'size per core', 'size per thread', 'cores',
                                        'threads')
                                for key in keys:
                                    e[key] = e[key] + [e[key][-1] * 2]
                                for r in list(e['results'].values()) + list(e['stats'].values()):
                                    r.append(r[-1])
                            if how not in ('no', 'little'):
                                stale.add((lv, t))
                            obs.event('stale measurements: ' + how)
                run_update(m, cpuinfo, obs)
                log = read_log(d)
                keep = {q: v for q, v in had.items() if q[:2] not in stale}
                check_benchmarks(obs, m, s, log, lines, kept=keep)
                if stale:
                    fresh = log[n:]
                    check_benchmarks(obs, m, s, fresh, lines, kept=keep)
                else:
                    obs.check(len(log) == n, 'measured-again', '{} runs, though all was '
                              'known'.format(len(log) - n))
            obs.event('benchmarks: ' + kind)
            obs.distinct((summary(s), kind))
    return case


def case_program(tool):
    """The command line tool itself, in a process of its own."""
    def case(rng, obs):
        from kerncraft.machinemodel import MachineModel
        from kcmon.gen.recorder import REPO
        s = one_small(rng, None)
        with scratch() as d, likwid.running_on(s, d) as cpuinfo:
            os.symlink(tool, os.path.join(d, 'tools', 'likwid-bench'))
            lines = offer(rng, d)
            path = os.path.join(d, 'machine.yml')
            # the process is given the same files by replacing open
            boot = os.path.join(d, 'boot.py')
            likwid.put(boot, '''
import sys
sys.path[:0] = [{verif!r}, {repo!r}]
from unittest import mock
import os, io, subprocess
from kcmon.gen import likwid
class S: pass
s = S(); s.thp = {thp!r}; s.mhz = {mhz!r}
s.topology = lambda: open({topo!r}).read()
text = open({cpuinfo!r}).read()
s.cpuinfo = lambda: text
import kerncraft.machinemodel as mm
assert os.path.realpath(mm.__file__).startswith({repo!r}), mm.__file__
mm.get_machien_state = lambda: 'state of the machine'
sys.argv[0] = 'likwid_bench_auto'
with likwid.running_on(s, {d!r}):
    mm.main()
'''.format(verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
           repo=REPO, thp=s.thp, mhz=s.mhz, topo=os.path.join(d, 'tools', 'topology.txt'),
           cpuinfo=cpuinfo, d=d))

            def tool_run(*a):
                p = subprocess.run([sys.executable, boot] + list(a), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, cwd=d, timeout=120)
                obs.event('runs of the program')
                return p.returncode, p.stdout.decode(), p.stderr.decode()
            kind = rng.choice(['file', 'stdout', 'in-place', 'compare', 'parts'])
            if kind == 'stdout':
                rc, out, err = tool_run('--no-benchmarks', '-')
                obs.check(rc == 0 and not os.path.exists(os.path.join(d, '<stdout>')),
                          'program-failed', '{} {}'.format(rc, err[-300:]))
                likwid.put(path, out)
            elif kind == 'parts':
                rc, out, err = tool_run('--no-benchmarks', '--no-memory-hierarchy', path)
                obs.check(rc == 0, 'program-failed', '{} {}'.format(rc, err[-300:]))
                with obs.subject(), quiet():
                    m = MachineModel(path)
                obs.check(isinstance(m['memory hierarchy'], str), 'parts', '--no-memory-hierarchy')
                check_readouts(obs, m._data, s, MachineModel()._data)
                rc, out, err = tool_run('--no-benchmarks', '--no-readouts', '-m', path, path)
                obs.check(rc == 0, 'program-failed', '{} {}'.format(rc, err[-300:]))
            elif kind == 'compare':
                rc, out, err = tool_run('--no-benchmarks', path)
                obs.check(rc == 0, 'program-failed', '{} {}'.format(rc, err[-300:]))
                with obs.subject(), quiet():
                    m = MachineModel(path)
                rc, out, err = tool_run('--compare-host', '-m', path, os.path.join(d, 'x.yml'))
                obs.check(rc == 0, 'program-comparison', '{} {}'.format(rc, out + err[-300:]))
                k = rng.choice(['sockets', 'model type', 'threads per core'])
                m._data[k] = m._data[k] * 2
                m.dump(os.path.join(d, 'other.yml'))
                rc, out, err = tool_run('--compare-host', '-m', os.path.join(d, 'other.yml'),
                                        os.path.join(d, 'x.yml'))
                obs.check(rc == 1 and k in out + err, 'program-comparison', '{} {}'.format(
                    rc, out + err[-300:]))
                rc, out, err = tool_run('--compare-host', os.path.join(d, 'x.yml'))
                obs.check(rc not in (0, 1) and 'Traceback' not in err, 'program-comparison', err)
            else:
                if kind == 'in-place':
                    rc, out, err = tool_run('--no-benchmarks', path)
                    rc, out, err = tool_run(rng.choice(['--no-overwrite', '--overwrite']),
                                            '-m', path, path)
                else:
                    rc, out, err = tool_run(*(rng.choice([[], ['-v'], ['-vv']]) + [path]))
                obs.check(rc == 0, 'program-failed', '{} {}'.format(rc, err[-500:]))
            with obs.subject('file-unreadable'), quiet():
                m = MachineModel(path)
            check_readouts(obs, m._data, s, MachineModel()._data)
            check_hierarchy(obs, m._data, s)
            if kind in ('file', 'in-place'):
                check_benchmarks(obs, m, s, read_log(d), lines)
            obs.event('program: ' + kind)
            obs.distinct((summary(s), kind))
    return case


def run(ck):
    import tempfile
    import shutil
    ck.cases('describe', ck.pick(500, 6000), case_describe, limit=60, share=.25)
    ck.cases('revise', ck.pick(400, 5000), case_revise, limit=60, share=.25)
    ck.cases('compare', ck.pick(200, 2000), case_compare, limit=60, share=.2)
    d = tempfile.mkdtemp(prefix='kcmon.')
    try:
        tool = likwid.build('fakebench', d)
        ck.cases('benchmarks', ck.pick(64, 400), case_benchmarks(tool), limit=150, share=.6)
        ck.cases('program', ck.pick(24, 120), case_program(tool), limit=200, share=.9)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.require('readouts compared', 1000)
    ck.require('levels compared', 500)
    ck.require('entries marked as missing', 1000)
    ck.require('comparisons', 200)
    ck.require('measurements traced to runs', 2000)
