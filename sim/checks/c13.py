"""C13: errors and interrupts reach the caller, and leave everything usable."""
import gc
import warnings

import numpy as np

from sklearn.exceptions import ConvergenceWarning, NotFittedError

from sim import env, jobs, minim, sched, seams
from sim.core import Violation

QUICK, THOROUGH = 4000, 300000
REAL = ['pyuoi', 'pyuoi.lbfgs C extension with a simulated allocator',
        'scikit-learn, scipy, numpy, pycasso']
STUB = ['where exceptions strike: line monitor sim/sched.py, solver seam '
        'sim/seams.py', 'entropy, clocks, uninitialised memory: sim/seams.py']
RULE = ('A run draws a job (every model, solver, decomposition, dataset '
        'maker, minimization), a kind of exception and where it strikes: at '
        'the k-th line of pyuoi executed, in the k-th solver call, or in the '
        'k-th call of a callback of a minimization. It must reach the '
        'caller; then a fresh job must give what it gave before and no '
        'native memory may stay allocated. Non-trivial: the exception '
        'struck.')
ASSUMPTIONS = ['verbose output is off: the logging package by design drops '
               'errors of its handlers']
PROBES = ('at-line', 'in-solver', 'in-callback', 'in-lbfgs-callback',
          'in-progress', 'base-exception')


class Oops(Exception):
    pass


class BaseOops(BaseException):
    pass


ANYWHERE = [Oops, KeyboardInterrupt, MemoryError, SystemExit, BaseOops]
CALLS = ANYWHERE + [ValueError, FloatingPointError, StopIteration,
                    ZeroDivisionError, RuntimeError, AssertionError,
                    np.linalg.LinAlgError, TypeError, IndexError, KeyError,
                    AttributeError, OSError, TimeoutError, OverflowError,
                    NotImplementedError, GeneratorExit, UserWarning,
                    ConvergenceWarning, NotFittedError]


def reached(e, exc):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    live0 = env.alloc.stats()['live']
    mode = ch.pick('case', ['line', 'line', 'solver', 'callback'])
    if mode == 'callback':
        return callback(ch, run, live0)
    kinds = jobs.UOI * 2 + (jobs.OTHER if mode == 'line' else [])
    j = jobs.Job(ch, kinds, max_n=28)
    run.case = dict(j.info(), mode=mode)
    count = [0]

    def tally(code, line):
        count[0] += 1

    def tally_solver(who, n, obj, X, y, kw):
        count[0] += 1
    if mode == 'line':
        with sched.striking(tally):
            ref, err = j.reference()
    else:
        seams.solvers.before = tally_solver
        ref, err = j.reference()
        seams.solvers.reset(run)
    if err is not None or not count[0]:
        run.probe('serial-raises')
        return
    # late strikes are as likely as early ones, and rare lines get a share
    k = ch.draw('fault', count[0])
    if ch.flip('fault', 0.3):
        k = ch.draw('fault', min(count[0], 80))
    exc = ch.pick('fault', ANYWHERE if mode == 'line' else CALLS)('simulated')
    n = [0]
    struck = [None]

    def strike(where):
        n[0] += 1
        if n[0] == k + 1:
            struck[0] = where
            run.fault('%s at a %s' % (type(exc).__name__, mode), where)
            raise exc

    def at_line(code, line):
        strike(code.co_name)

    def at_solver(who, m, obj, X, y, kw):
        strike(type(obj).__name__)
    got = None
    raised = None
    try:
        if mode == 'line':
            with sched.striking(at_line):
                m = j.new()
                j.fit(m, j.args())
                got = j.result(m, predict=False)
        else:
            seams.solvers.before = at_solver
            m = j.new()
            j.fit(m, j.args())
            got = j.result(m, predict=False)
    except sched.HarnessError:
        raise
    except BaseException as e:
        raised = e
    seams.solvers.reset(run)
    if struck[0] is None:
        return
    run.nontrivial = True
    run.probe('at-line' if mode == 'line' else 'in-solver')
    if not isinstance(exc, Exception):
        run.probe('base-exception')
    if raised is None:
        raise Violation('swallowed', '%r in %s: the %s job returned a result'
                        % (exc, struck[0], j.kind))
    if not reached(raised, exc):
        raise Violation('replaced', '%r in %s became %r'
                        % (exc, struck[0], raised))
    raised = exc = m = None
    after(run, j, ref, live0, 'after a strike in %s' % struck[0])


def after(run, j, ref, live0, what):
    s = env.alloc.stats()
    if s['live'] != live0:
        gc.collect()
        s = env.alloc.stats()
    if s['live'] != live0 or s['overflow'] or s['double_free'] or \
            s['bad_free'] or s['use_after_free']:
        raise Violation('native-memory', '%s: %s' % (what, s))
    env.alloc.reset()
    got, err = j.reference()
    if err is not None:
        raise Violation('broken-afterwards', '%s: a fresh %s job raises %r'
                        % (what, j.kind, err))
    d = jobs.differ(ref, got)
    if d:
        raise Violation('broken-afterwards', '%s: %s' % (what, d))


def callback(ch, run, live0):
    """In a callback of a minimization; caught inside and raised again; or in
    a second one after the first was already raised."""
    c = minim.Case(ch)
    run.case = dict(c.c, mode='callback')
    ref = c.run()
    where = ch.pick('fault', ['f', 'p'])
    total = len(ref.evals) if where == 'f' else len(ref.steps)
    if not total:
        where, total = 'f', len(ref.evals)
    k = ch.draw('fault', total)
    exc = ch.pick('fault', CALLS)('simulated')
    later = [0]
    struck = [False]

    def strike(n):
        if struck[0]:
            later[0] += 1
        elif n == k:
            struck[0] = True
            run.fault('%s in a callback' % type(exc).__name__, where, n)
            raise exc
    how = ch.draw('fault', 3)

    def on_eval(h, x, v, g):
        if where == 'f':
            strike(len(h.evals))
        elif struck[0]:
            later[0] += 1
        if struck[0] and how == 1:
            raise Oops('another')

    def on_progress(h):
        if where == 'p':
            strike(len(h.steps) - 1)
        elif struck[0]:
            later[0] += 1
        if how == 2:
            return 0
    h = c.run(on_eval=on_eval, on_progress=on_progress)
    run.nontrivial = True
    run.probe('in-callback')
    run.probe('in-lbfgs-callback' if where == 'f' else 'in-progress')
    if h.end == 'returned':
        raise Violation('swallowed', '%r in %s call %d: returned %s'
                        % (exc, where, k, h.x))
    if not reached(h.error, exc):
        raise Violation('replaced', '%r in %s call %d became %r'
                        % (exc, where, k, h.error))
    if later[0]:
        raise Violation('went-on', '%d more callbacks after %r'
                        % (later[0], exc))
    tb = h.error.__traceback__
    names = []
    while tb is not None:
        names.append(tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    if 'strike' not in names:
        raise Violation('traceback-lost', 'only %s' % names)
    h = None
    s = env.alloc.stats()
    if s['live'] != live0:
        gc.collect()
        s = env.alloc.stats()
    if s['live'] != live0 or s['overflow'] or s['double_free'] or \
            s['bad_free'] or s['use_after_free']:
        raise Violation('native-memory', 'after %r in a callback: %s'
                        % (exc, s))
    env.alloc.reset()
    again = c.run()
    if again.seen() != ref.seen():
        raise Violation('broken-afterwards', 'a minimization gives %s %s, '
                        'was %s %s' % (again.end, again.x, ref.end, ref.x))
