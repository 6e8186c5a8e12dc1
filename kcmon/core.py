"""
Harness shared by all checks.

A check module (kcmon/checks/<id>.py) defines LEVEL, RULE, ASSUMPTIONS and run(ck).  It hands
workloads to the harness with ck.cases(name, n, fn): fn(rng, obs) is executed once per case in a
worker process, drives the real code, and tells the oracle's findings to *obs*:

  obs.event(kind, n)        something the monitor actually observed (counted into the evidence)
  obs.distinct(key)         the case was non-trivial; key identifies it among equals
  obs.check(cond, key, msg) an oracle verdict; False is a violation with mechanism *key*
  obs.subject()             context manager: an exception escaping from the code under test inside
                            it is a violation (the code was asked for something it must answer)

Verdicts are three-valued: violated / held on what was observed / inconclusive (exit 3: a monitor
that has to observe something observed nothing, or cases kept timing out).
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('KCMON_REPO', '/repo'))
NPROC = int(os.environ.get('KCMON_PROCS', '8'))


class CaseTimeout(BaseException):
    pass


class SubjectError(Exception):
    """The code under test raised where it had to give an answer (already recorded)."""


class Skip(Exception):
    """The generated case is not in the property's domain; not counted."""


def from_repo(tb):
    """Whether a traceback passes through the code under test."""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


class Obs:
    """What one case observed."""

    def __init__(self, replay):
        self.replay = replay
        self.events = {}
        self.keys = []
        self.violations = []
        self.sample = None
        self.skipped = None
        self.evals = 1

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def distinct(self, key):
        self.keys.append(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def describe(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update(kw)

    def check(self, cond, key, msg='', **data):
        self.event('verdicts')
        if not cond:
            self.violate(key, msg, **data)
        return bool(cond)

    def violate(self, key, msg='', **data):
        if len(self.violations) < 20:
            self.violations.append({'key': key, 'msg': str(msg)[:2000],
                                    'data': {k: repr(v)[:1500] for k, v in data.items()}})

    @contextlib.contextmanager
    def subject(self, key='unexpected-exception', expect=()):
        """Run code under test which has to succeed (except for exceptions in *expect*)."""
        try:
            yield
        except expect:
            raise
        except (CaseTimeout, Skip, SubjectError, KeyboardInterrupt):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            self.violate(key, '{}: {}'.format(type(e).__name__, e), traceback=tb[-1400:])
            raise SubjectError() from e

    def refuses(self, fn, key, msg='', **data):
        """fn() has to be refused with an error (any exception, or a SystemExit with failure)."""
        try:
            with quiet():
                r = fn()
        except CaseTimeout:
            raise
        except SystemExit as e:
            ok = e.code not in (None, 0)
            r = 'SystemExit({!r})'.format(e.code)
        except Exception as e:
            ok = True
        else:
            ok = False
        self.event('refusals' if ok else 'acceptances')
        return self.check(ok, key, msg or 'accepted instead of refused', result=r if not ok else '',
                          **data)


@contextlib.contextmanager
def quiet():
    """Capture stdout and stderr of the code under test."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


@contextlib.contextmanager
def scratch(prefix='kcmon.'):
    """A scratch directory, removed afterwards. The current directory is left alone."""
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(fn, name, index, seed, tier, prop, limit):
    replay = {'property': prop, 'workload': name, 'index': index, 'seed': seed, 'tier': tier}
    obs = Obs(replay)
    obs.tier = tier
    rng = random.Random('{}/{}/{}/{}'.format(seed, prop, name, index))
    obs.index = index
    status = 'ok'
    stuck = trace = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    t0 = time.time()
    cwd = os.getcwd()
    try:
        fn(rng, obs)
    except SubjectError:
        pass
    except Skip as e:
        obs.skipped = str(e) or 'skip'
    except CaseTimeout as e:
        status = 'timeout'
        stuck = from_repo(e.__traceback__)
        trace = traceback.format_exc()[-1400:]
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        status = 'error'
        # A crash inside the code under test which no oracle expected: the code was asked for
        # something it must answer.
        if from_repo(e.__traceback__) and not isinstance(e, (MemoryError,)):
            status = 'ok'
            obs.violate('unexpected-exception', '{}: {}'.format(type(e).__name__, e),
                        traceback=traceback.format_exc()[-1400:])
        else:
            obs.error = traceback.format_exc()
    finally:
        signal.alarm(0)
        try:
            if os.getcwd() != cwd:
                os.chdir(cwd)
        except OSError:
            os.chdir(cwd)
    return {'name': name, 'index': index, 'status': status, 'stuck': stuck and trace,
            'events': obs.events, 'keys': obs.keys,
            'violations': obs.violations, 'sample': obs.sample, 'skipped': obs.skipped,
            'evals': obs.evals, 'error': getattr(obs, 'error', None), 'replay': replay,
            'wall': time.time() - t0}


_WORK = {}


def _worker(arg):
    key, index = arg
    fn, name, seed, tier, prop, limit, deadline = _WORK[key]
    if time.time() > deadline:
        return {'name': name, 'index': index, 'status': 'unrun'}
    return run_case(fn, name, index, seed, tier, prop, limit)


class Check:
    def __init__(self, prop, module, tier, seed, replay=None):
        self.prop, self.module, self.tier, self.seed, self.replay = prop, module, tier, seed, replay
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.events = {}
        self.samples = []
        self.violations = {}
        self.counts = {}
        self.errors = []
        self.timeouts = []
        self.required = []
        self.notes = {}
        total = getattr(module, 'BUDGET', {}).get(tier) or (240 if tier == 'quick' else 780)
        self.deadline = self.t0 + float(os.environ.get('KCMON_BUDGET', total))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.deadline - time.time()

    def require(self, event, at_least=1):
        """The run is inconclusive unless the monitors observed this many of *event*."""
        self.required.append((event, at_least))

    def cases(self, name, n, fn, limit=120, share=1.0, procs=None, serial=False):
        """Run fn over cases 0..n-1 (an index list is fine too) within *share* of the time left."""
        indices = list(range(n)) if isinstance(n, int) else list(n)
        if self.replay is not None:
            if self.replay['workload'] != name:
                return
            r = run_case(fn, name, self.replay['index'], self.replay['seed'], self.replay['tier'],
                         self.prop, 10 * limit)
            self._absorb(r, fn, limit)
            return
        deadline = min(self.deadline, time.time() + self.left() * share)
        key = name
        _WORK[key] = (fn, name, self.seed, self.tier, self.prop, limit, deadline)
        procs = procs or NPROC
        retry = []
        if serial or len(indices) == 1:
            results = (_worker((key, i)) for i in indices)
            for r in results:
                if r['status'] == 'timeout':
                    retry.append(r)
                else:
                    self._absorb(r, fn, limit)
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(procs, len(indices)), maxtasksperchild=200) as pool:
                it = pool.imap_unordered(_worker, [(key, i) for i in indices], chunksize=1)
                done = 0
                while done < len(indices):
                    try:
                        r = it.next(timeout=max(1, deadline - time.time()) + 2 * limit)
                    except StopIteration:
                        break
                    except multiprocessing.TimeoutError:
                        self.timeouts.append({'name': name, 'index': None})
                        break
                    done += 1
                    if r['status'] == 'timeout':
                        retry.append(r)
                    else:
                        self._absorb(r, fn, limit)
                pool.terminate()
        # a case which found no answer is run again on its own, with a far larger limit
        for i, r in enumerate(retry[:2]):
            r2 = run_case(fn, name, r['index'], self.seed, self.tier, self.prop, 2 * limit)
            if r2['status'] == 'timeout' and r['stuck'] and r2['stuck']:
                # twice, the second time on its own, inside the code under test
                self._absorb(dict(r2, status='ok', violations=[{
                    'key': 'no-answer', 'msg': 'no answer within {} s'.format(2 * limit),
                    'data': {'traceback': r2['stuck']}}]), fn, limit)
                break
            elif r2['status'] == 'timeout':
                self.timeouts.append(r2)
            else:
                self._absorb(r2, fn, limit)
        else:
            self.timeouts += retry[2:]
        unrun = self.counts.get(name, {}).get('unrun', 0)
        if unrun and unrun == len(indices):
            self.timeouts.append({'name': name, 'index': None})

    def _absorb(self, r, fn, limit):
        c = self.counts.setdefault(r['name'], {'run': 0, 'skipped': 0, 'unrun': 0, 'wall': 0.0})
        if r['status'] == 'unrun':
            c['unrun'] += 1
            return
        c['wall'] = round(c['wall'] + r['wall'], 2)
        if r['skipped'] is not None:
            c['skipped'] += 1
            s = c.setdefault('skip_reasons', {})
            s[r['skipped'][:60]] = s.get(r['skipped'][:60], 0) + 1
            return
        c['run'] += 1
        self.evals += r['evals']
        self.keys.update((r['name'], k) for k in r['keys'])
        for k, v in r['events'].items():
            self.events[k] = self.events.get(k, 0) + v
        if r['sample'] is not None and sum(s['workload'] == r['name'] for s in self.samples) < 2:
            self.samples.append(dict(workload=r['name'], index=r['index'], **r['sample']))
        for v in r['violations']:
            self.violations.setdefault(v['key'], []).append(dict(v, replay=r['replay']))
        if r['status'] == 'error':
            self.errors.append(r)

    def finish(self):
        known = load_known(self.prop)
        new = {k: v for k, v in self.violations.items() if k not in known}
        wall = time.time() - self.t0
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.keys),
               'rule': self.module.RULE, 'samples': self.samples or [{'note': 'none'}],
               'observed_events': self.events, 'workloads': self.counts}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.module.LEVEL, 'coverage': cov,
              'assumptions': list(getattr(self.module, 'ASSUMPTIONS', [])),
              'wall_s': round(wall, 2), 'violations': sum(len(v) for v in new.values())}
        if self.replay is None:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            tmp = os.path.join(VERIF, 'evidence', '.{}.{}'.format(self.prop, os.getpid()))
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1, default=str)
            os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        print('{}: {} cases, {} distinct non-trivial, {:.1f}s, observed {}'.format(
            self.prop, self.evals, len(self.keys), wall,
            ', '.join('{}={}'.format(*kv) for kv in sorted(self.events.items()))))
        for name, c in self.counts.items():
            print('  {}: {}'.format(name, c))
        for k, what in known.items():
            if k in self.violations:
                print('KNOWN-FINDING: property={} {} [{}; seen {}x this run]'.format(
                    self.prop, what, k, len(self.violations[k])))
        if new:
            d = os.path.join(VERIF, 'replays', self.prop)
            os.makedirs(d, exist_ok=True)
            for k, vs in list(new.items())[:15]:
                v = vs[0]
                path = os.path.join(d, hashlib.sha1(k.encode()).hexdigest()[:10] + '.json')
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1)
                print('--- {} ({}x): {}'.format(k, len(vs), v['msg'][:600]))
                for dk, dv in v['data'].items():
                    print('      {}: {}'.format(dk, dv[:1400]))
                print('VIOLATION property={} replay={}'.format(self.prop, path))
            return 1
        if self.errors:
            print('INCONCLUSIVE: {} harness errors, first:'.format(len(self.errors)))
            print(self.errors[0]['replay'], self.errors[0]['error'])
            return 2
        if self.timeouts:
            print('INCONCLUSIVE: {} cases gave no answer in time: {}'.format(
                len(self.timeouts), [(t['name'], t['index']) for t in self.timeouts[:5]]))
            return 3
        if self.replay is None:
            for ev_name, n in self.required:
                if self.events.get(ev_name, 0) < n:
                    print('INCONCLUSIVE: monitors observed {} of {!r}, need {}'.format(
                        self.events.get(ev_name, 0), ev_name, n))
                    return 3
            if not self.evals or not self.keys:
                print('INCONCLUSIVE: nothing observed')
                return 3
        print('HELD on everything explored')
        return 0


def load_known(prop):
    """Known findings: lines 'known: property=<id> key=<mechanism> <what fails>'."""
    r = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == 'known:' and parts[1] == 'property=' + prop:
                r[parts[2][len('key='):]] = parts[3].strip()
    return r


def main(argv):
    prop = argv[0]
    replay = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
        replay = replay.get('replay', replay)
        tier = replay['tier']
    if getattr(importlib.import_module('kcmon.checks.' + prop.lower()), 'PRELOAD', False):
        from kcmon.gen import faults
        code = faults.preloaded(argv)
        if code is not None:
            return code
    home = tempfile.mkdtemp(prefix='kcmon.home.')
    os.environ['HOME'] = home
    tempfile.tempdir = home
    os.environ['TMPDIR'] = home
    me = os.getpid()
    try:
        module = importlib.import_module('kcmon.checks.' + prop.lower())
        ck = Check(prop, module, tier, seed, replay)
        module.run(ck)
        return ck.finish()
    finally:
        if os.getpid() == me:
            shutil.rmtree(home, ignore_errors=True)
