"""Seams around everything outside the code under test: entropy, clocks,
uninitialised memory, HDF5 files, solver calls."""
import os
import random
import sys
import time

import numpy as np

from . import sched
from .env import REPO, HarnessError

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep


# ------------------------------------------------------------------ entropy

class _Entropy:
    """What the operating system's entropy source returns. One stream per
    task, so that what a rank draws does not depend on the schedule."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.seed = seed
        self.streams = {}
        self.drawn = 0

    def _rng(self):
        t = sched.current()
        k = t.name if t is not None else 'main'
        if k not in self.streams:
            self.streams[k] = random.Random('entropy/%s/%s' % (self.seed, k))
        return self.streams[k]

    def getrandbits(self, n):
        self.drawn += 1
        return self._rng().getrandbits(n)

    def urandom(self, n):
        self.drawn += 1
        return self._rng().getrandbits(8 * n).to_bytes(n, 'big') if n else b''


entropy = _Entropy()


# -------------------------------------------------------------------- clock

class _Clock:
    def __init__(self):
        self.reset(1.6e9, 0.0)

    def reset(self, wall, rate):
        self.wall = wall
        self.rate = rate          # may be negative: a clock stepping back
        self.calls = 0

    def time(self):
        self.calls += 1
        return self.wall + self.rate * self.calls

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic(self):
        self.calls += 1
        return 1000.0 + 1e-6 * self.calls


clock = _Clock()


# ------------------------------------------------------ uninitialised memory

_np_empty, _np_empty_like = np.empty, np.empty_like
garbage = None       # None: as numpy does; else a kind


def _fill(a):
    if garbage is None or not isinstance(a, np.ndarray) or a.size == 0:
        return a
    if a.dtype.kind in 'fc':
        a.fill({'nan': np.nan, 'huge': 1e300, 'one': 1.0,
                'neg': -7.25}[garbage])
    elif a.dtype.kind in 'iu':
        a.fill({'nan': 113, 'huge': 127, 'one': 1, 'neg': 99}[garbage])
    elif a.dtype.kind == 'b':
        a.fill(True)
    return a


def _is_ours(depth=2):
    return sched._ours(sys._getframe(depth).f_code.co_filename)


def _empty(*a, **k):
    r = _np_empty(*a, **k)
    return _fill(r) if garbage is not None and _is_ours() else r


def _empty_like(*a, **k):
    r = _np_empty_like(*a, **k)
    return _fill(r) if garbage is not None and _is_ours() else r


# --------------------------------------------------------------------- HDF5

class Disk:
    """What h5py.File does: real files, plus faults the run plans."""

    def __init__(self):
        self.reset()

    def reset(self, run=None):
        self.run = run
        self.opens = []            # (path, mode, task name)
        self.open_now = 0
        self.reads = 0
        self.fail_open = None      # exception for the next open
        self.fail_read_at = None   # (n, exception): the n-th dataset read
        self.redirect = {}         # real path -> path used instead
        self.closed = 0


disk = Disk()


class InjectedIOError(OSError):
    pass


def _install_h5py():
    import h5py

    real = h5py.File

    class SimDataset:
        def __init__(self, d):
            self._d = d

        def _count(self):
            n = disk.reads
            disk.reads += 1
            if disk.fail_read_at is not None and disk.fail_read_at[0] == n:
                if disk.run is not None:
                    disk.run.fault('disk-read-error', n)
                raise disk.fail_read_at[1]

        def __getitem__(self, k):
            self._count()
            return self._d[k]

        def __len__(self):
            return len(self._d)

        def __array__(self, dtype=None, copy=None):
            a = self[()]
            return np.asarray(a, dtype=dtype)

        def __getattr__(self, n):
            if n in ('read_direct', 'astype', 'asstr', 'fields'):
                self._count()
            return getattr(self._d, n)

        def __setitem__(self, k, v):
            self._d[k] = v

    class SimFile:
        """h5py.File by delegation."""

        def __init__(self, name, mode='r', *a, **k):
            t = sched.current()
            path = os.fspath(name)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            path = os.path.abspath(path)
            disk.opens.append((path, mode, t.name if t else 'main'))
            path = disk.redirect.get(os.path.realpath(path), path)
            if disk.fail_open is not None:
                if disk.run is not None:
                    disk.run.fault('disk-open-error', os.path.basename(path))
                raise disk.fail_open
            self._f = real(path, mode, *a, **k)
            self._open = True
            disk.open_now += 1

        def close(self):
            if self._open:
                self._open = False
                disk.open_now -= 1
                disk.closed += 1
            self._f.close()

        def __enter__(self):
            return self

        def __exit__(self, *e):
            self.close()

        def __getitem__(self, k):
            o = self._f[k]
            return SimDataset(o) if isinstance(o, h5py.Dataset) else o

        def get(self, k, default=None, *a, **kw):
            return self[k] if k in self._f else default

        def __contains__(self, k):
            return k in self._f

        def __iter__(self):
            return iter(self._f)

        def __getattr__(self, n):
            return getattr(self._f, n)

        def __setitem__(self, k, v):
            self._f[k] = v

        def __delitem__(self, k):
            del self._f[k]

    h5py.RealFile = real
    h5py.File = SimFile


# ------------------------------------------------------------------ solvers

class InjectedError(Exception):
    """A failure the simulator injected."""


class Solvers:
    """Every call of a selection or estimation solver passes here."""

    def __init__(self):
        self.reset()

    def reset(self, run=None):
        self.run = run
        self.calls = {}          # task -> number of solver calls
        self.before = None       # fn(task, n, obj, X, y, kw)
        self.after = None        # fn(task, n, obj, X, y, kw)
        self.depth = {}


solvers = Solvers()


def _wrap(cls, name):
    orig = cls.__dict__[name]

    def fit(self, X, y, *a, **k):
        s = solvers
        if s.before is None and s.after is None:
            return orig(self, X, y, *a, **k)
        t = sched.current()
        who = t.name if t is not None else 'main'
        if s.depth.get(who):
            return orig(self, X, y, *a, **k)
        n = s.calls.get(who, 0)
        s.calls[who] = n + 1
        s.depth[who] = 1
        try:
            if s.before is not None:
                s.before(who, n, self, X, y, k)
            r = orig(self, X, y, *a, **k)
            if s.after is not None:
                s.after(who, n, self, X, y, k)
        finally:
            s.depth[who] = 0
        return r
    fit.__name__ = name
    fit.__wrapped__ = orig
    setattr(cls, name, fit)


# -------------------------------------------------------------------- setup

def install():
    """Before pyuoi is imported."""
    import numpy.random.bit_generator as bg
    if not hasattr(bg, 'randbits'):
        raise HarnessError('numpy entropy seam is gone')
    bg.randbits = entropy.getrandbits
    os.urandom = entropy.urandom
    random._urandom = entropy.urandom
    time.time = clock.time
    time.time_ns = clock.time_ns
    time.monotonic = clock.monotonic
    time.perf_counter = clock.monotonic
    time.sleep = lambda s: None
    np.empty, np.empty_like = _empty, _empty_like
    _install_h5py()
    # does the entropy seam work?
    entropy.reset(5)
    a = np.random.RandomState().rand()
    entropy.reset(5)
    if np.random.RandomState().rand() != a:
        raise HarnessError('numpy entropy seam does not hold')


def after_import():
    from sklearn.linear_model import ElasticNet, LinearRegression
    _wrap(ElasticNet, 'fit')
    _wrap(LinearRegression, 'fit')
    from pyuoi.linear_model import logistic, poisson, lasso
    for mod, name in ((logistic, 'MaskedCoefLogisticRegression'),
                      (poisson, 'Poisson'), (lasso, 'PycLasso')):
        cls = getattr(mod, name, None)
        if cls is not None and 'fit' in cls.__dict__:
            _wrap(cls, 'fit')


def reset(ch, run):
    """The ambient state of one run: everything a process inherits by
    accident. Drawn from the 'ambient' stream."""
    global garbage
    entropy.reset(ch.draw('ambient', 2 ** 20))
    np.random.seed(ch.draw('ambient', 2 ** 20))
    random.seed(ch.draw('ambient', 2 ** 20))
    clock.reset(1.6e9 + ch.draw('ambient', 10 ** 6),
                ch.pick('ambient', [1e-3, 0.0, -0.5, 3600.0]))
    garbage = ch.pick('ambient', [None, 'nan', 'huge', 'one', 'neg'])
    disk.reset(run)
    solvers.reset(run)
    import logging
    names = logging.Logger.manager.loggerDict
    for n in [n for n in names if n.startswith('uoi')]:
        lg = names.pop(n)
        if isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                if h not in (None,):
                    try:
                        logging.Handler.close(h)
                    except Exception:
                        pass
    logging.disable(logging.NOTSET)
    import warnings
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
