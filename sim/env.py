"""Sets up one interpreter for simulation: seams are installed before pyuoi is
imported from /repo's working tree, and the C optimizer is built from
/repo's sources against the simulated allocator."""
import ctypes
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get('SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, 'sim')
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


class HarnessError(BaseException):
    """The simulator or a check is at fault, not the code under test."""


class BuildError(HarnessError):
    pass


def _inputs():
    files = [os.path.join(SIM, 'simalloc.c'), os.path.join(SIM, 'simalloc.h')]
    for top in ('src/pyuoi/lbfgs', 'liblbfgs'):
        for d, _, names in os.walk(os.path.join(REPO, top)):
            for n in sorted(names):
                if n.endswith(('.pyx', '.pxd', '.pxi', '.h', '.c')) and \
                        n != '_lowlevel.c':
                    files.append(os.path.join(d, n))
    return sorted(files)


def build_ext():
    """Build the extension out of tree; returns (so, sim allocator handle path)."""
    import numpy
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    h.update((sys.version + numpy.__version__).encode())
    d = os.path.join(CACHE, 'ext-' + h.hexdigest()[:20])
    so = os.path.join(d, '_lowlevel.so')
    if os.path.exists(so):
        return so
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)

    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=tmp)
        if r.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd),
                                         r.stdout.decode(errors='replace')))
    pyx = os.path.join(REPO, 'src/pyuoi/lbfgs/_lowlevel.pyx')
    run([os.path.join(os.path.dirname(PY), 'cython'),
         '-I', os.path.join(REPO, 'src/pyuoi/lbfgs'), pyx,
         '-o', os.path.join(tmp, 'll.c')])
    inc = ['-I', numpy.get_include(), '-I', sysconfig.get_paths()['include'],
           '-I', os.path.join(REPO, 'liblbfgs')]
    common = ['gcc', '-O1', '-fPIC', '-fwrapv', '-w', '-c'] + inc
    objs = []
    csrc = [os.path.join(REPO, 'liblbfgs', n)
            for n in sorted(os.listdir(os.path.join(REPO, 'liblbfgs')))
            if n.endswith('.c')]
    for i, src in enumerate(csrc + [os.path.join(tmp, 'll.c')]):
        o = os.path.join(tmp, 'o%d.o' % i)
        run(common + ['-include', os.path.join(SIM, 'simalloc.h'), src,
                      '-o', o])
        objs.append(o)
    o = os.path.join(tmp, 'alloc.o')
    run(common + [os.path.join(SIM, 'simalloc.c'), '-o', o])
    run(['gcc', '-shared', '-o', os.path.join(tmp, '_lowlevel.so')] +
        objs + [o, '-lm'])
    try:
        os.rename(tmp, d)
    except OSError:
        if not os.path.exists(so):
            raise
    return so


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name != 'pyuoi.lbfgs._lowlevel':
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, self.so)
        return importlib.util.spec_from_file_location(name, self.so,
                                                      loader=loader)


class Alloc:
    """Handle on the simulated allocator."""

    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.lib.simctl_fail.argtypes = [ctypes.c_long, ctypes.c_long]
        self.lib.simctl_pattern.argtypes = [ctypes.c_long]
        self._out = (ctypes.c_long * 8)()

    def reset(self):
        self.lib.simctl_reset()

    def fail(self, start, count):
        self.lib.simctl_fail(start, count)

    def pattern(self, k):
        """What fresh memory holds: 0 NaN, 1 zero, 2 one, 3 1e300."""
        self.lib.simctl_pattern(k)

    def stats(self):
        self.lib.simctl_scan()
        self.lib.simctl_stats(self._out)
        return dict(zip(('alloc', 'free', 'live', 'failed', 'overflow',
                         'double_free', 'bad_free', 'use_after_free'),
                        self._out))


alloc = None
_ready = False


def setup():
    """Install every seam and import pyuoi. Idempotent."""
    global alloc, _ready
    if _ready:
        return
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    sys.dont_write_bytecode = True
    # locks created from here on (logging, pyuoi) cooperate with the scheduler
    from sim import sched
    sched.install_locks()
    from sim import mpi
    mpi.install()
    import warnings
    warnings.simplefilter('ignore')
    so = build_ext()
    sys.meta_path.insert(0, _ExtFinder(so))
    sys.path.insert(0, os.path.join(REPO, 'src'))
    from sim import seams
    seams.install()
    try:
        import pyuoi
        import pyuoi.linear_model
        import pyuoi.decomposition
        import pyuoi.datasets
        import pyuoi.mpi_utils
        import pyuoi.lbfgs
        import pyuoi.utils
    except HarnessError:
        raise
    if not os.path.realpath(pyuoi.__file__).startswith(
            os.path.realpath(os.path.join(REPO, 'src'))):
        raise HarnessError('pyuoi imported from ' + pyuoi.__file__)
    alloc = Alloc(so)
    seams.after_import()
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    _ready = True
