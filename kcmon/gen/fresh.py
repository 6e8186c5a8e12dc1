"""Run functions in forked children, so that the calling process stays as it is."""
import os
import pickle
import signal
import sys
import traceback


def in_child(fn, *args):
    """fn(*args) in a forked child: ('ok', value) | ('exc', 'Type: text') | ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            try:
                v = ('ok', fn(*args))
            except BaseException as e:
                v = ('exc', '{}: {}'.format(type(e).__name__, e)[:300],
                     traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(v, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not data:
        return ('died', status)
    return pickle.loads(data)


def norm(x):
    """Comparable, picklable form of a result (quantities, sympy and numpy values included)."""
    if isinstance(x, dict):
        return sorted((str(k), norm(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, str)) or x is None:
        return x
    if hasattr(x, 'tolist'):
        return norm(x.tolist())
    try:
        if x == int(x) and type(x).__name__ not in ('PrefixedUnit',):
            return int(x)
    except (TypeError, ValueError, OverflowError, AttributeError):
        pass
    return str(x)
