"""Runs whose file operations are observed, delayed or cut short by a preloaded library."""
import ctypes
import fcntl
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

NATIVE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native')


def preloaded(argv):
    """Run this program with the library preloaded; returns its exit code (None: it is already)."""
    if os.environ.get('KCMON_NATIVE'):
        return None
    d = tempfile.mkdtemp(prefix='kcmon.native.')
    try:
        lib = os.path.join(d, 'faults.so')
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', lib,
                               os.path.join(NATIVE, 'faults.c'), '-ldl'])
        os.mkdir(os.path.join(d, 'bin'))
        subprocess.check_call(['gcc', '-O1', '-w', '-o', os.path.join(d, 'bin', 'gcc'),
                               os.path.join(NATIVE, 'slowcc.c')])
        shutil.copy(os.path.join(d, 'bin', 'gcc'), os.path.join(d, 'bin', 'clang'))
        env = dict(os.environ, KCMON_NATIVE=d, LD_PRELOAD=lib)
        return subprocess.call([sys.executable, '-W', 'ignore', '-m', 'kcmon'] + argv, env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Lib:
    def __init__(self):
        self.lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
        self.lib.faults_count.restype = ctypes.c_long
        self.arm_ = self.lib.faults_arm
        self.arm_.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int,
                              ctypes.c_uint, ctypes.c_uint, ctypes.c_ulonglong]

    def arm(self, directory, who, log_fd, kill_at=-1, phase=0, permille=0, max_us=0, seed=0):
        real = os.path.realpath(directory)
        other = directory if directory != real else ''
        self.arm_(os.fsencode(real), os.fsencode(other), who, log_fd, kill_at, phase, permille,
                  max_us, seed)

    def count(self):
        return self.lib.faults_count()


class Process:
    """fn(*args) in a forked child that leads a process group of its own."""

    def __init__(self, fn, *args, before=None):
        self.r, w = os.pipe()
        self.start = time.time()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                os.close(self.r)
                for s in (signal.SIGALRM, signal.SIGTERM, signal.SIGINT):
                    signal.signal(s, signal.SIG_DFL)
                signal.alarm(0)
                try:
                    if before:
                        before()
                    v = ('ok', fn(*args))
                except BaseException as e:
                    v = ('exc', '{}: {}'.format(type(e).__name__, e)[:300],
                         traceback.format_exc()[-1500:])
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(v, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.data = b''
        self.open = True

    def kill(self):
        for target in (-self.pid, self.pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass


def gather(processes, timeout):
    """Values of *processes*: ('ok', v) | ('exc', ...) | ('died', status) | ('late',)."""
    end = time.time() + timeout
    try:
        while any(p.open for p in processes) and time.time() < end:
            ready, _, _ = select.select([p.r for p in processes if p.open], [], [],
                                        max(.01, end - time.time()))
            for p in processes:
                if p.open and p.r in ready:
                    c = os.read(p.r, 1 << 20)
                    p.data += c
                    if not c:
                        p.open = False
                        os.close(p.r)
        out = []
        for p in processes:
            late = p.open
            if late:
                p.kill()
                os.close(p.r)
                p.open = False
            _, status = os.waitpid(p.pid, 0)
            p.status = status
            p.pid_done = True
            p.kill()  # whatever its children still do
            if late:
                out.append(('late',))
            elif not p.data:
                out.append(('died', status))
            else:
                out.append(pickle.loads(p.data))
        return out
    except BaseException:
        for p in processes:
            p.kill()
            try:
                os.waitpid(p.pid, 0)
            except OSError:
                pass
        raise


class Log:
    """Event log shared by the processes of a case."""

    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)

    def events(self):
        """[(time ns, process, operation, phase, number, name)] in order of time."""
        os.close(self.fd)
        out = []
        with open(self.path, errors='replace') as f:
            for line in f:
                p = line.rstrip('\n').split(' ', 5)
                if len(p) == 6:
                    out.append((int(p[0]), int(p[1]), p[2], p[3], int(p[4]), p[5]))
        return sorted(out)


def overlaps(events):
    """(accesses to files while another process wrote them, number of writes, of reads)."""
    spans = []  # (ino, begin, end, who, mode, name)
    running = {}
    last = {who: t for t, who, op, phase, n, name in events}
    for t, who, op, phase, n, name in events:
        if name.endswith('.lock'):
            continue
        if op in ('openR', 'openW'):
            running.setdefault((who, n, op[-1]), []).append((t, name))
        elif op == 'shut' and running.get((who, n, phase)):
            b, nm = running[(who, n, phase)].pop()
            spans.append((n, b, t, who, phase, nm))
    for (who, n, mode), rest in running.items():
        for b, nm in rest:
            spans.append((n, b, last[who], who, mode, nm))
    found = []
    writers = [s for s in spans if s[4] == 'W']
    for w in writers:
        for s in spans:
            if s[0] == w[0] and s[3] != w[3] and s[1] < w[2] and w[1] < s[2]:
                found.append((w[5], 'process {} {} while {} wrote'.format(
                    s[3], {'R': 'read', 'W': 'wrote'}[s[4]], w[3])))
    return found, len(writers), len(spans) - len(writers)


def held_locks(directory):
    """Lock files nobody should hold any more, but somebody does."""
    held = []
    for base, dirs, names in os.walk(directory):
        for n in names:
            p = os.path.join(base, n)
            if n.endswith('.lock'):
                with open(p, 'r+') as f:
                    try:
                        fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    except OSError:
                        held.append(os.path.relpath(p, directory))
    return held
