"""C24: merged result stores against a reference merge (differential monitor)."""
import copy
import os
import pickle
import sys
from kcmon.core import Skip, quiet, scratch

LEVEL = 'exploration'
RULE = ('Random result stores (nested dictionaries of several mapping types, tuple keys as written '
        'by kerncraft, shared sub-dictionaries, values of every kind results contain) are merged '
        'by the picklemerge command and by its update function; the outcome is compared with a '
        'reference union, and all inputs with what they were before. Non-trivial: nested entries '
        'present in several stores.')
ASSUMPTIONS = ['Result stores are pickled dictionaries.']


def rand_value(rng, depth, keys, pool):
    import collections
    from kerncraft.prefixedunit import PrefixedUnit
    r = rng.random()
    if depth > 0 and r < .5:
        if pool and rng.random() < .2:
            return rng.choice(pool)
        t = rng.choice([dict, dict, collections.OrderedDict, None])
        d = collections.defaultdict(list) if t is None else t()
        for _ in range(rng.randint(0, 4)):
            d[rng.choice(keys)] = rand_value(rng, depth - 1, keys, pool)
        pool.append(d)
        return d
    import sympy
    return rng.choice([None, 0, 1.5, 'text', [1, 2, {'x': 1}], (3, 4), {1, 2}, float('inf'), True,
                       PrefixedUnit(rng.randint(1, 9), 'G', 'B/s'), sympy.Symbol('N') * 2,
                       rng.randint(0, 99), [], ''])


def reference(stores):
    """Path-wise union; the later store wins unless both have dictionaries."""
    def merge(a, b):
        out = {k: v for k, v in a.items()}
        for k in b:
            if k in out and hasattr(out[k], 'items') and hasattr(b[k], 'items'):
                out[k] = merge(out[k], b[k])
            else:
                out[k] = b[k]
        return out
    r = {}
    for s in stores:
        r = merge(r, s)
    return r


def plain(x):
    """Comparable form: mapping types do not matter."""
    if hasattr(x, 'items'):
        return ('map', sorted(((repr(k), plain(v)) for k, v in x.items()), key=lambda i: i[0]))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(i) for i in x])
    return (type(x).__name__, repr(x))


def paths(x, pre=()):
    n = 0
    for k, v in x.items():
        n += paths(v, pre + (k,)) if hasattr(v, 'items') and v else 1
    return n


def run(ck):
    from kerncraft import picklemerge

    def stores(rng):
        keys = ['a', 'b', 1, ('pmodel', 'ECM'), (('define', (('N', 100),)), ('cores', 1)), 'L1-L2',
                2.5, 'cache']
        n = rng.randint(2, 5)
        out = []
        for _ in range(n):
            pool = []
            d = {}
            for _ in range(rng.randint(0, 5)):
                d[rng.choice(keys)] = rand_value(rng, rng.randint(0, 3), keys, pool)
            out.append(d)
        return out

    def command(rng, obs):
        ss = stores(rng)
        # what the pickles hold is what the loaded copies are
        want = plain(reference([copy.deepcopy(s) for s in ss]))
        if sum(any(hasattr(v, 'items') for v in s.values()) for s in ss) > 1:
            obs.distinct([plain(s) for s in ss])
        obs.describe(stores=[repr(s)[:300] for s in ss])
        with scratch() as d:
            files = []
            for i, s in enumerate(ss):
                files.append(os.path.join(d, '{}{}.pickle'.format(rng.choice('asxBZ'), i)))
                with open(files[-1], 'wb') as f:
                    pickle.dump(s, f, protocol=rng.choice([2, 3, 4]))
            before = [open(f, 'rb').read() for f in files]
            argv = sys.argv
            sys.argv = ['picklemerge'] + files
            try:
                with obs.subject('merge-raises'), quiet():
                    picklemerge.main()
            finally:
                sys.argv = argv
            for f, b in list(zip(files, before))[1:]:
                obs.check(open(f, 'rb').read() == b, 'source-file-changed', f)
            obs.check(sorted(os.listdir(d)) == sorted(map(os.path.basename, files)),
                      'files-left-behind', os.listdir(d))
            import gc
            gc.collect()
            with obs.subject('result-unreadable'):
                with open(files[0], 'rb') as f:
                    got = pickle.load(f)
                    rest = f.read()
            obs.check(rest == b'', 'trailing-garbage', len(rest))
            obs.check(plain(got) == want, 'wrong-union', 'got {!r}'.format(got)[:900],
                      stores=ss)
            obs.event('entries compared', paths(got))
            obs.event('files merged', len(files))

    def function(rng, obs):
        ss = stores(rng)
        if len(ss) > 2:
            obs.distinct([plain(s) for s in ss])
        want = plain(reference([copy.deepcopy(s) for s in ss]))
        d = copy.deepcopy(ss[0])
        orig = [plain(s) for s in ss]
        others = ss[1:]
        with obs.subject('update-raises'):
            for u in others:
                picklemerge.update(d, u)
        obs.check(plain(d) == want, 'wrong-union', 'update: {!r}'.format(d)[:900], stores=ss)
        obs.check([plain(s) for s in others] == orig[1:], 'operand-changed',
                  'update changed a source dictionary', stores=ss)
        obs.event('entries compared', paths(d))

    def refusal(rng, obs):
        """A store which is no dictionary is refused and the destination survives."""
        good = {'a': {'b': 1}}
        bad = rng.choice([[1, 2], 3, 'x', (1,), None])
        obs.distinct(repr(bad))
        with scratch() as d:
            f1, f2 = os.path.join(d, '1'), os.path.join(d, '2')
            pickle.dump(good, open(f1, 'wb'))
            pickle.dump(bad, open(f2, 'wb'))
            before = open(f1, 'rb').read()

            def go():
                argv = sys.argv
                sys.argv = ['picklemerge', f1, f2]
                try:
                    picklemerge.main()
                finally:
                    sys.argv = argv
            obs.refuses(go, 'accepts-non-dictionary', repr(bad))
            obs.check(open(f1, 'rb').read() == before, 'destination-lost-on-error', repr(bad))

    def unpicklable_space(rng, obs):
        """A failing write (disk full stand-in) leaves the destination complete."""
        ss = [{'a': {'b': list(range(500))}}, {'a': {'c': list(range(900))}}]
        at = rng.choice([0, 1, 200, 1500])
        obs.distinct(at)
        with scratch() as d:
            files = [os.path.join(d, str(i)) for i in range(2)]
            for f, s in zip(files, ss):
                pickle.dump(s, open(f, 'wb'))
            real = pickle.dump

            def failing(obj, fp, *a, **kw):
                fp.write(pickle.dumps(obj)[:at])
                fp.flush()
                raise OSError(28, 'No space left on device')
            argv = sys.argv
            sys.argv = ['picklemerge'] + files
            picklemerge.pickle.dump = failing
            try:
                with quiet():
                    picklemerge.main()
            except OSError:
                obs.event('writes failed')
            finally:
                sys.argv = argv
                picklemerge.pickle.dump = real
            try:
                got = pickle.load(open(files[0], 'rb'))
            except Exception as e:
                got = e
            obs.check(got in (ss[0], reference(ss)), 'destination-lost-on-failed-write',
                      repr(got)[:200])

    ck.cases('command', ck.pick(1500, 25000), command, share=.6)
    ck.cases('function', ck.pick(3000, 60000), function, share=.7)
    ck.cases('refusals', ck.pick(20, 60), refusal)
    ck.cases('failed-writes', ck.pick(12, 40), unpicklable_space)
    ck.require('entries compared', 3000)
    ck.require('files merged', 1000)
