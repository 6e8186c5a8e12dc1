"""Observe the analyses a command line run performs: models are replaced by recorders."""
import contextlib
import io
import os

REPO = os.path.realpath(os.environ.get('KCMON_REPO', '/repo'))
MACHINE = os.path.join(REPO,
                       'tests/test_files/SandyBridgeEP_E5-2680.yml')


@contextlib.contextmanager
def recording(names=('LC', 'Roofline', 'ECM'), result=None, fail=None):
    """Models *names* become recorders; yields the list of analyses, in order."""
    from kerncraft import models
    log = []

    def make(name, real):
        class Recorder:
            configure_arggroup = real.configure_arggroup

            def __init__(self, kernel, machine, args=None, parser=None):
                self.kernel, self.machine, self._args = kernel, machine, args
                self.results = None

            def analyze(self):
                c = {str(k): int(v) for k, v in self.kernel.constants.items()}
                entry = {'model': name, 'constants': c, 'cores': self._args.cores,
                         'iterations': int(self.kernel.iteration_length())}
                if fail is not None and fail(entry, log):
                    raise KeyboardInterrupt()
                log.append(entry)
                self.results = result(entry) if result else dict(entry, serial=len(log))

            def report(self, output_file=None):
                print('RECORDED {} {} {}'.format(name, sorted(self.results['constants'].items()),
                                                 self.results.get('token', '')), file=output_file)
        Recorder.name = real.name
        return Recorder
    saved = {n: getattr(models, n) for n in names if hasattr(models, n)}
    try:
        for n, real in saved.items():
            setattr(models, n, make(n, real))
        yield log
    finally:
        for n, real in saved.items():
            setattr(models, n, real)


def run_cli(directory, source, defs, pmodels, extra=(), machine=MACHINE, name='k.c', parser=None):
    """One command line run in this process; returns (result, text output)."""
    from kerncraft import kerncraft as kc
    path = os.path.join(directory, name)
    if source is not None:
        with open(path, 'w') as f:
            f.write(source)
    argv = ['-m', machine, path]
    for p in pmodels:
        argv += ['-p', p]
    for n, t in defs:
        argv += ['-D', n, t]
    argv += list(extra)
    parser = parser or kc.create_parser()
    args = parser.parse_args(argv)
    kc.check_arguments(args, parser)
    out = io.StringIO()
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        r = kc.run(parser, args, output_file=out)
    return r, out.getvalue()


def warm_osaca(machines=(MACHINE,)):
    """Have OSACA's databases parsed and cached in HOME (they take seconds to parse)."""
    import tempfile
    import shutil
    for m in machines:
        d = tempfile.mkdtemp(prefix='kcmon.warm.')
        try:
            run_cli(d, 'double a[N], b[N];\nfor(int i=0; i<N; ++i)\na[i] = b[i];\n',
                    [('N', '100')], ['ECMCPU'], machine=m)
        finally:
            shutil.rmtree(d, ignore_errors=True)
