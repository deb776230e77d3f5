"""C26: operations leave the process as they found it, and keep nothing."""
import atexit
import gc
import io
import logging
import os
import random
import signal
import sys
import threading
import tracemalloc
import warnings
import weakref

import numpy as np
import sklearn

from sim import env, jobs, minim, mpi, sched, seams
from sim.core import Violation

QUICK, THOROUGH = 4000, 200000
REAL = ['pyuoi', 'pyuoi.lbfgs C extension with a simulated allocator',
        'scikit-learn, scipy, numpy, pycasso, logging, warnings']
STUB = ['MPI: sim/mpi.py', 'solver seam sim/seams.py', 'line monitor sim/sched.py',
        'allocator sim/simalloc.c',
        'entropy, clocks, uninitialised memory: sim/seams.py']
RULE = ('A run draws the state of the process (warning filters, '
        'floating-point error handling, print options, scikit-learn '
        'configuration, logging levels, streams, environment, random '
        'streams) and 1-4 operations (every model, solver, decomposition, '
        'dataset maker, minimization, verbose or not), of which some fail '
        'in a drawn solver call, callback or allocation, are cancelled, or '
        'are interrupted at a drawn line. After each the state is what it '
        'was, and once results and objects are dropped nothing given to the '
        'operation or made by it is alive. A share repeats one operation and '
        'looks for memory that accumulates. Non-trivial: an operation ended '
        'by a fault, or accumulation was looked for.')
ASSUMPTIONS = ['an interrupt at an arbitrary line may strike in clean-up '
               'code itself; after one, only references, files and threads '
               'are judged']
PROBES = ('completed', 'distributed', 'solver-fault', 'user-fault', 'line-fault', 'callback-fault',
          'cancelled', 'allocation-fault', 'verbose', 'accumulation',
          'several')


class Oops(Exception):
    pass


class BaseOops(BaseException):
    pass


KINDS = [Oops, KeyboardInterrupt, MemoryError, BaseOops, ValueError,
         FloatingPointError, np.linalg.LinAlgError, StopIteration,
         RuntimeError]

_armed = False
_writes = []


def _audit(event, args):
    if not _armed:
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and set(mode) & set('wax+')) or \
                (mode is None and isinstance(flags, int) and
                 flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            _writes.append('%s %s' % (event, args[0]))
    elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
                   'os.chdir', 'os.putenv', 'os.unsetenv', 'os.system',
                   'os.fork', 'os.exec', 'os.chmod', 'os.truncate',
                   'subprocess.Popen', 'socket.connect', 'socket.bind',
                   'signal.pthread_kill', 'os.kill', 'shutil.rmtree'):
        _writes.append('%s %s' % (event, args[:1]))


_hooked = False


class Watch:
    """Files written, processes started and the like."""

    def __enter__(self):
        global _armed, _hooked
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked = True
        del _writes[:]
        _armed = True

    def __exit__(self, *e):
        global _armed
        _armed = False


SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE,
           signal.SIGPIPE, signal.SIGUSR1, signal.SIGHUP)
HOOKS = ((sys, 'excepthook'), (sys, 'displayhook'),
         (threading, 'excepthook'), (sys, 'unraisablehook'))
# what not even the first use of something may change
AT_ONCE = ('showwarning', 'floating-point errors', 'floating-point handler',
           'print options', 'scikit-learn configuration', 'standard streams',
           'hooks', 'recursion limit', 'working directory',
           'signal handlers', 'garbage collector', 'numpy random stream',
           'random stream')


def handlers():
    out = {}
    for s in SIGNALS:
        out[s.name] = repr(signal.getsignal(s))
    return out


def loggers():
    """Every logger but pyuoi's own."""
    out = {'root': (logging.root.level, len(logging.root.handlers),
                    len(logging.root.filters)),
           'disable': logging.root.manager.disable,
           'raise': logging.raiseExceptions,
           'class': repr(logging.getLoggerClass()),
           'record': repr(logging.getLogRecordFactory()),
           'last': repr(logging.lastResort)}
    for n, g in list(logging.root.manager.loggerDict.items()):
        if n.startswith('uoi') or not isinstance(g, logging.Logger):
            continue
        out['logger ' + n] = (g.level, len(g.handlers), len(g.filters),
                              g.propagate, g.disabled)
    return out


def state():
    mt = np.random.get_state()
    out = {
        'warning filters': list(warnings.filters),
        'showwarning': repr(warnings.showwarning),
        'floating-point errors': np.geterr(),
        'floating-point handler': repr(np.geterrcall()),
        'print options': {k: repr(v) for k, v in
                          np.get_printoptions().items()},
        'scikit-learn configuration': sklearn.get_config(),
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'hooks': (repr(sys.excepthook), repr(sys.displayhook),
                  repr(threading.excepthook), repr(sys.unraisablehook)),
        'paths': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'signal handlers': handlers(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(),
                              gc.get_debug()),
        'exit functions': atexit._ncallbacks(),
        'numpy random stream': (mt[0], mt[1].tobytes(), mt[2], mt[3],
                                repr(mt[4])),
        'random stream': hash(random.getstate()),
    }
    out.update(loggers())
    return out


def compare(a, b, what):
    for k in a:
        if a[k] != b.get(k, a[k]):
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [q for q in set(x) | set(y) if x.get(q) != y.get(q)]
                x = {q: x.get(q) for q in ks}
                y = {q: y.get(q) for q in ks}
            raise Violation('state-changed', '%s: %s was %s and is %s'
                            % (what, k, str(x)[:150], str(y)[:150]))


def draw_state(ch, run):
    """A process as users leave it: not the defaults."""
    d = 'ambient'
    s = dict(fp=ch.pick(d, [{}, dict(divide='ignore', over='ignore'),
                            dict(invalid='ignore', under='warn'),
                            dict(all='ignore'), dict(all='warn')]),
             filt=ch.pick(d, ['ignore', 'keep', 'twice']),
             prec=ch.pick(d, [None, 3, 12]),
             sk=ch.pick(d, [{}, dict(print_changed_only=False),
                            dict(display='text')]),
             root=ch.pick(d, [logging.WARNING, logging.DEBUG,
                              logging.ERROR]),
             env=ch.flip(d, 0.3), seed=1 + ch.draw(d, 1000),
             suppress=ch.flip(d, 0.3), limit=ch.pick(d, [None, 1700, 3000]))
    return s


class Saved:
    def __enter__(self):
        self.err = np.geterr()
        self.po = np.get_printoptions()
        self.sk = sklearn.get_config()
        self.root = logging.root.level
        self.filters = list(warnings.filters)
        self.limit = sys.getrecursionlimit()
        self.streams = sys.stdout, sys.stderr
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.gc = gc.isenabled()
        self.disable = logging.root.manager.disable
        self.show = warnings.showwarning
        self.hooks = {(m, a): getattr(m, a) for m, a in HOOKS}
        self.signals = {g: signal.getsignal(g) for g in SIGNALS}
        self.thresholds = gc.get_threshold()
        self.call = np.geterrcall()
        return self

    def __exit__(self, *e):
        self.put_back()
        sys.stdout, sys.stderr = self.streams

    def put_back(self):
        np.seterr(**self.err)
        np.set_printoptions(**self.po)
        sklearn.set_config(**self.sk)
        logging.root.setLevel(self.root)
        logging.disable(self.disable)
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        warnings.showwarning = self.show
        for (m, a), f in self.hooks.items():
            if getattr(m, a) is not f:
                setattr(m, a, f)
        for g, f in self.signals.items():
            if signal.getsignal(g) is not f and f is not None:
                signal.signal(g, f)
        gc.set_threshold(*self.thresholds)
        np.seterrcall(self.call)
        sys.setrecursionlimit(self.limit)
        for k in set(os.environ) | set(self.env):
            if k not in self.env:
                del os.environ[k]
            elif os.environ.get(k) != self.env[k]:
                os.environ[k] = self.env[k]
        os.chdir(self.cwd)
        if self.gc:
            gc.enable()
        else:
            gc.disable()


def put(s, saved):
    """(Again after the first use of something.)"""
    saved.put_back()
    np.random.seed(s['seed'])
    random.seed(s['seed'])
    np.seterr(**s['fp'])
    if s['filt'] != 'ignore':
        warnings.filterwarnings('ignore', 'nothing like it')
        if s['filt'] == 'twice':
            warnings.filterwarnings('ignore', category=BytesWarning)
    np.set_printoptions(suppress=s['suppress'])
    if s['prec']:
        np.set_printoptions(precision=s['prec'])
    sklearn.set_config(**s['sk'])
    logging.root.setLevel(s['root'])
    if s['limit']:
        sys.setrecursionlimit(s['limit'])
    if s['env']:
        os.environ['OMP_NUM_THREADS'] = '1'
        os.environ['UOI_SIM'] = 'x'


def fds():
    return len(os.listdir('/proc/self/fd'))


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    s = draw_state(ch, run)
    with Saved() as saved:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        put(s, saved)
        if ch.flip('case', 0.05):
            return accumulation(ch, run)
        k = 1 + ch.draw('case', 4) * ch.flip('case', 0.3)
        run.case = dict(state=s, ops=[])
        if k > 1:
            run.probe('several')
        for i in range(k):
            if ch.flip('case', 0.04):
                ranks(ch, run, lambda: put(s, saved))
            elif ch.flip('case', 0.35):
                minimization(ch, run, lambda: put(s, saved))
            else:
                fit(ch, run, lambda: put(s, saved))
            seams.solvers.reset(run)


# what a user gives to the factorization
USER = ('cluster', 'consensus', 'regression')


class Cluster:
    def __init__(self, strike):
        self.fit_predict = strike


class Refs:
    """Objects that must be gone."""

    def __init__(self):
        self.refs = []

    def add(self, name, obj):
        try:
            self.refs.append((name, weakref.ref(obj)))
        except TypeError:
            pass

    def alive(self):
        out = [n for n, r in self.refs if r() is not None]
        if out:
            gc.collect()
            out = [n for n, r in self.refs if r() is not None]
        return out


def parts(m):
    """The fitted arrays."""
    for k, v in list(vars(m).items()):
        if k.endswith('_') and isinstance(v, np.ndarray) and v.size:
            yield k, v


def judge(run, what, before, after, refs, files, full):
    if full:
        compare(before, after, what)
    if _writes:
        raise Violation('side-effect', '%s: %s' % (what, _writes[:3]))
    if files[0] != files[1]:
        raise Violation('files-open', '%s: %d open files, were %d'
                        % (what, files[1], files[0]))
    new = [t for t in files[3] if t not in files[2]]
    for t in new:
        t.join(0.5)
    if any(t.is_alive() for t in new):
        raise Violation('threads', '%s: %d more threads' % (
            what, sum(t.is_alive() for t in new)))
    left = refs.alive()
    if left:
        raise Violation('kept-alive', '%s: %s still referred to'
                        % (what, ', '.join(sorted(set(left)))[:200]))


def fit(ch, run, renew):
    kinds = jobs.UOI * 2 + jobs.OTHER
    j = jobs.Job(ch, kinds, max_n=28)
    mode = ch.pick('fault', ['none', 'solver', 'line', 'none', 'malloc'])
    if j.kind == 'nmf' and mode in ('solver', 'malloc'):
        mode = ch.pick('fault', ['cluster', 'consensus', 'regression'])
    if mode == 'solver' and j.kind not in jobs.UOI:
        mode = 'line'
    if mode == 'malloc' and j.kind not in ('poisson', 'poisson1', 'masklog1',
                                           'logistic', 'lbfgs') and \
            j.kind not in jobs.UOI:
        mode = 'none'
    verbose = ch.flip('case', 0.2) and (j.kind in jobs.UOI or
                                        j.kind == 'nmf')
    run.case['ops'].append(dict(j.info(), mode=mode, verbose=verbose))
    # imports, caches and loggers of the first use
    renew()
    before = state()
    with Watch():
        j.reference()
    after = state()
    what = '%s job (%s)' % (j.kind, mode)
    compare({n: before[n] for n in AT_ONCE}, after, 'first ' + what)
    k = ch.draw('fault', 6) if mode != 'line' else \
        ch.draw('fault', ch.pick('fault', [40, 400, 3]))
    if mode in USER:
        k = 0
    exc = ch.pick('fault', KINDS if mode == 'solver' or mode in USER else
                  [Oops, KeyboardInterrupt, BaseOops])
    n = [0]
    hit = [False]

    def strike(*a):
        n[0] += 1
        if n[0] == k + 1 and not hit[0]:
            hit[0] = True
            run.fault('%s at a %s' % (exc.__name__, mode), k)
            raise exc('simulated')
    refs = Refs()
    renew()
    before = state()
    f0, t0 = fds(), threading.enumerate()
    with Watch():
        ended = run_fit(j, mode, strike, k, verbose, refs)
    after = state()
    f1, t1 = fds(), threading.enumerate()
    seams.solvers.reset(run)
    if mode == 'malloc':
        hit[0] = env.alloc.stats()['failed'] > 0
        env.alloc.reset()
        if hit[0]:
            run.fault('allocation', k)
    if hit[0]:
        run.nontrivial = True
        run.probe({'line': 'line-fault', 'solver': 'solver-fault',
                   'malloc': 'allocation-fault'}.get(mode, 'user-fault'))
    if ended == 'returned':
        run.probe('completed')
    if verbose:
        run.probe('verbose')
    run.log('op', j.kind, mode, ended)
    judge(run, what + ' that ' + ended, before, after, refs,
          (f0, f1, t0, t1), full=not (mode == 'line' and hit[0]))


def ranks(ch, run, renew):
    """A fit on 1-3 simulated ranks (of one process)."""
    j = jobs.Job(ch, jobs.UOI, max_n=28)
    if j.c['kind'] == 'pyc':
        return              # prints
    size = 1 + ch.draw('case', 3)
    run.case['ops'].append(dict(j.info(), size=size))
    w = mpi.World(ch, run, size)

    def main(comm):
        X, y, s = j.args()
        m = j.new(comm=comm)
        m.fit(X, y, stratify=s)
        return m.coef_
    renew()
    before = state()
    with Watch():
        outs = w.launch(main)
    after = state()
    compare(before, after, '%s job on %d ranks' % (j.kind, size))
    run.probe('distributed')
    run.log('op', j.kind, size, [o.state for o in outs])


def run_fit(j, mode, strike, k, verbose, refs):
    """Everything made here must be gone when it returns."""
    args = j.args()
    for n, a in zip(('X', 'y', 'third argument'), args):
        if a is not None:
            refs.add(n, a)
    if mode == 'solver':
        seams.solvers.before = strike
    elif mode == 'malloc':
        env.alloc.fail(k, 1 + k % 3)
    try:
        m = j.new()
        refs.add('estimator', m)
        kw = dict(verbose=True) if verbose else {}
        if mode == 'cluster':
            m.cluster = Cluster(strike)
        elif mode == 'consensus':
            m.cons_meth = strike
        elif mode == 'regression':
            m.nnreg = strike
        if mode == 'line':
            with sched.striking(strike):
                j.fit(m, args, **kw)
        else:
            j.fit(m, args, **kw)
        for n, v in parts(m):
            refs.add(n, v)
        # (predictions of the fitted model)
        j.predictions(m) if j.kind in jobs.UOI else None
        if mode == 'regression':
            m.transform(args[0])
        return 'returned'
    except sched.HarnessError:
        raise
    except BaseException as e:
        e.__traceback__ = None
        return 'raised ' + type(e).__name__
    finally:
        seams.solvers.before = None


def minimization(ch, run, renew):
    c = minim.Case(ch)
    how = ch.pick('fault', ['none', 'raise-f', 'raise-p', 'cancel', 'nan',
                            'malloc'])
    run.case['ops'].append(dict(c.c, mode=how))
    k = ch.draw('fault', 8)
    exc = ch.pick('fault', KINDS)
    use_p = ch.flip('case', 0.6) or how in ('raise-p', 'cancel')
    refs = Refs()
    renew()
    before = state()
    f0, t0 = fds(), threading.enumerate()
    hit = [False]
    with Watch():
        ended = run_min(run, c, how, k, exc, use_p, refs, hit)
    after = state()
    f1, t1 = fds(), threading.enumerate()
    if how == 'malloc':
        hit[0] = env.alloc.stats()['failed'] > 0
        if hit[0]:
            run.fault('allocation', k)
    env.alloc.reset()
    if hit[0]:
        run.nontrivial = True
        run.probe({'cancel': 'cancelled', 'malloc': 'allocation-fault'}.get(
            how, 'callback-fault'))
    if ended == 'returned':
        run.probe('completed')
    run.log('min', how, ended)
    judge(run, 'a minimization (%s) that %s' % (how, ended), before, after,
          refs, (f0, f1, t0, t1), full=True)


class Arg:
    pass


def run_min(run, c, how, k, exc, use_p, refs, hit):
    from pyuoi.lbfgs import fmin_lbfgs
    fn, x0 = c.make()
    refs.add('x0', x0)
    n = [0]
    extra = Arg()
    refs.add('extra argument', extra)

    def f(x, g, *a):
        refs.add('x of an evaluation', x)
        refs.add('g of an evaluation', g)
        i = n[0]
        n[0] += 1
        v, d = fn(np.array(x).ravel())
        g[...] = d.reshape(g.shape)
        if i == k and how == 'raise-f':
            hit[0] = True
            run.fault('%s in an evaluation' % exc.__name__, i)
            raise exc('simulated')
        if i == k and how == 'nan':
            hit[0] = True
            run.fault('nan', i)
            return np.nan
        return v

    def p(x, g, fx, xnorm, gnorm, step, it, ls, *a):
        refs.add('x of a report', x)
        refs.add('g of a report', g)
        if it == k // 2 + 1 and how in ('raise-p', 'cancel'):
            hit[0] = True
            if how == 'cancel':
                run.fault('cancelled', it)
                return [1, True, -2048][k % 3]
            run.fault('%s in a report' % exc.__name__, it)
            raise exc('simulated')
    refs.add('objective', f)
    refs.add('progress function', p)
    o = dict(c.o)
    if use_p:
        o['progress'] = p
    if how == 'malloc':
        env.alloc.fail(k, 1 + k % 3)
    try:
        x = fmin_lbfgs(f, x0, args=(extra,), **o)
        refs.add('result', x)
        return 'returned'
    except sched.HarnessError:
        raise
    except BaseException as e:
        e.__traceback__ = None
        refs.add('exception', e)
        return 'raised ' + type(e).__name__


def accumulation(ch, run):
    """The same operation over and over: what its lines allocated and is
    still there after it must not grow with the number of repetitions."""
    run.probe('accumulation')
    run.nontrivial = True
    mini = ch.flip('case', 0.4)
    if mini:
        c = minim.Case(ch)
        how = ch.pick('fault', ['none', 'raise-f', 'raise-p', 'cancel',
                                'nan', 'malloc'])
        k = ch.draw('fault', 6)
        exc = ch.pick('fault', KINDS)
        what = 'minimization'
        run.case = dict(c.c, mode=how)

        def once():
            run_min(Quiet, c, how, k, exc, True, Refs(), [False])
            env.alloc.reset()
    else:
        j = jobs.Job(ch, jobs.UOI * 2 + jobs.OTHER, max_n=24)
        mode = ch.pick('fault', ['none', 'none', 'solver'])
        k = ch.draw('fault', 4)
        verbose = ch.flip('case', 0.3) and (j.kind in jobs.UOI or
                                            j.kind == 'nmf')
        what = j.kind + ' job'
        run.case = dict(j.info(), mode=mode, verbose=verbose)

        def once():
            n = [0]

            def strike(*a):
                n[0] += 1
                if n[0] == k + 1:
                    raise Oops('simulated')
            run_fit(j, mode, strike, k, verbose, Refs())
            seams.solvers.reset(Quiet)
            sys.stdout.seek(0)
            sys.stdout.truncate()
    # (numpy itself keeps something of every floating-point warning)
    np.seterr(all='ignore')
    src = os.path.join(os.path.realpath(env.REPO), 'src', 'pyuoi') + os.sep
    size = []
    for i in range(3):
        once()
    tracemalloc.start(1)
    try:
        for i in range(8):
            once()
            gc.collect()
            if i:
                snap = tracemalloc.take_snapshot().filter_traces(
                    [tracemalloc.Filter(True, src + '*')])
                size.append(sum(t.size for t in snap.traces))
    finally:
        tracemalloc.stop()
    grows = [b - a for a, b in zip(size, size[1:])]
    run.log('accumulation', what, mini)
    # the same every time, but for the container it may be put in
    usual = sorted(grows)[len(grows) // 2]
    if min(grows) > 0 and grows.count(usual) >= 4:
        raise Violation('accumulates', '%s: %d bytes more per repetition '
                        '(%s)' % (what, sum(grows) // len(grows), grows))


class Quiet:
    @staticmethod
    def fault(*a):
        pass

    @staticmethod
    def log(*a):
        pass
