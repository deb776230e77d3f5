"""C15: a failed native allocation is an error, never a leak or corruption."""
import gc

import numpy as np

from sim import env, jobs, minim, seams
from sim.core import Violation

QUICK, THOROUGH = 28000, 1000000
REAL = minim.REAL + ['pyuoi solvers that use the minimizer']
STUB = minim.STUB
RULE = ('A run draws a minimization, or a fit that uses the minimizer, counts '
        'the native allocations it makes, then repeats it with the k-th '
        'allocation (one, a burst, or all from there on) failing, possibly '
        'together with a callback that raises or cancels, a start that '
        'cannot be converted or an invalid parameter; then once more without '
        'faults and with other contents of fresh memory. Guards around every '
        'block, a quarantine of freed blocks and live counts are checked '
        'after each. Non-trivial: a fault fired.')
ASSUMPTIONS = ['allocation failures inside NumPy and Python are not '
               'injected here (memory errors at lines of pyuoi: C13)']
PROBES = ('alloc-failed', 'callback-raised', 'cancelled', 'bad-start',
          'bad-parameter', 'fit')


class Oops(Exception):
    pass


def guarded(what, live0):
    s = env.alloc.stats()
    if s['live'] != live0:
        gc.collect()
        s = env.alloc.stats()
    for k in ('overflow', 'double_free', 'bad_free', 'use_after_free'):
        if s[k]:
            raise Violation(k.replace('_', '-'), '%s: %d' % (what, s[k]))
    if s['live'] != live0:
        raise Violation('leak', '%s: %d blocks still allocated'
                        % (what, s['live'] - live0))
    return s


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    live0 = env.alloc.stats()['live']
    if ch.flip('case', 0.08):
        return fit(ch, run, live0)
    c = minim.Case(ch)
    how = ch.pick('case', ['alloc', 'alloc', 'alloc', 'alloc+raise', 'raise',
                           'cancel', 'start', 'parameter'])
    run.case = dict(c.c, how=how)
    ref = c.run()
    n = guarded('plain run', live0)['alloc']
    if ref.taken_back():
        raise Violation('taken-back', ref.taken_back())
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    k = ch.draw('fault', max(n, 1))
    burst = ch.pick('fault', [1, 2, 1000000])
    at = ch.draw('fault', 6)
    kw = {}
    if 'raise' in how:
        def on_eval(h, x, v, g):
            if len(h.evals) == at:
                run.fault('callback-error', at)
                run.probe('callback-raised')
                raise Oops()
        kw['on_eval'] = on_eval
        if how == 'raise' and ch.flip('fault', 0.4):
            def on_progress(h):
                if len(h.steps) == at + 1:
                    run.fault('progress-error', at)
                    run.probe('callback-raised')
                    raise Oops()
            kw = dict(on_progress=on_progress)
    if how == 'cancel':
        def stop(h):
            if len(h.steps) == at + 1:
                run.fault('cancel', at)
                run.probe('cancelled')
                return -2048 if k % 2 else 1
        kw['on_progress'] = stop
    if 'alloc' in how:
        env.alloc.fail(k, burst)
    saved = dict(c.o)
    if how == 'parameter':
        bad = ch.pick('fault', [('epsilon', -1.0), ('past', -1),
                                ('delta', -1.0), ('max_linesearch', 0),
                                ('ftol', -1.0), ('gtol', -1.0),
                                ('xtol', -1.0), ('min_step', -1.0),
                                ('max_step', 0.0), ('orthantwise_start', -1),
                                ('orthantwise_start', 99),
                                ('orthantwise_end', 99), ('m', 'x'),
                                ('m', 0), ('m', -1),
                                ('line_search', 'none'), ('wolfe', 7.0)])
        c.o[bad[0]] = bad[1]
        run.fault('bad-parameter', bad[0])
        run.probe('bad-parameter')
    if how == 'start':
        h = bad_start(ch, run, c)
    else:
        h = c.run(**kw)
    c.o.clear()
    c.o.update(saved)
    env.alloc.fail(-1, 0)
    s = guarded('%s, ended with %s' % (how, h), live0)
    if h.taken_back():
        raise Violation('taken-back', h.taken_back())
    if 'alloc' in how and s['failed']:
        run.fault('allocation-failure', k, burst)
        run.probe('alloc-failed')
        run.nontrivial = True
        if h.end != 'MemoryError' and not (
                how == 'alloc+raise' and h.end == 'Oops'):
            raise Violation('not-a-memory-error', 'allocation %d of %d '
                            'failed: ended with %s %s' % (k, n, h.end,
                                                          h.error))
        if h.end == 'MemoryError' and how == 'alloc' and h.steps:
            raise Violation('late', 'reported progress, then MemoryError')
    run.nontrivial = run.nontrivial or bool(run.faults)
    h = None
    env.alloc.reset()
    env.alloc.pattern(ch.draw('ambient', 4))
    again = c.run()
    guarded('run after ' + how, live0)
    if again.seen() != ref.seen():
        raise Violation('different-afterwards', 'after %s: %s %s, was %s %s'
                        % (how, again.end, again.x, ref.end, ref.x))


class Unfriendly:
    """A sequence that fails while it is read."""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError
        if i == self.at:
            raise Oops()
        return 1.0


class Bomb(float):
    pass


class NotANumber:
    def __float__(self):
        raise Oops()


def bad_start(ch, run, c):
    from pyuoi.lbfgs import fmin_lbfgs
    h = minim.History()
    p = c.c['p']
    run.fault('bad-start')
    run.probe('bad-start')
    x0 = np.ones(p, dtype=object)
    x0[ch.draw('fault', p)] = ch.pick('fault', [
        'x', None, NotANumber(), 1j, [1, 2]])
    kind = ch.draw('fault', 4)
    if kind == 1:
        x0 = np.array(['a'] * p)
    elif kind == 2:
        x0 = np.zeros(0)
    elif kind == 3:
        x0 = Unfriendly(p, ch.draw('fault', p))

    def f(x, g, *a):
        g[:] = 2 * x
        return float((x * x).sum())
    try:
        h.x = fmin_lbfgs(f, x0, **c.o)
        h.end = 'returned'
    except Exception as e:
        h.end, h.error = type(e).__name__, e.with_traceback(None)
    if h.end == 'returned':
        raise Violation('nonsense-accepted', 'start %r: returned %r'
                        % (x0, h.x))
    return h


def fit(ch, run, live0):
    j = jobs.Job(ch, ['logistic', 'poisson', 'masklog1', 'poisson1'],
                 max_n=28)
    if j.kind == 'masklog1':
        j.c['pen'] = 'l1'
    run.case = dict(j.info(), how='fit')
    ref, err = j.reference()
    if err is not None:
        run.probe('serial-raises')
        return
    n = guarded('plain fit', live0)['alloc']
    if not n:
        return
    run.probe('fit')
    env.alloc.reset()
    env.alloc.pattern(ch.draw('ambient', 4))
    k = ch.draw('fault', n)
    env.alloc.fail(k, ch.pick('fault', [1, 1000000]))
    end = 'returned'
    try:
        j.fit(j.new(), j.args())
    except MemoryError:
        end = 'MemoryError'
    except Exception as e:
        end = repr(e)
    env.alloc.fail(-1, 0)
    s = guarded('fit', live0)
    if s['failed']:
        run.fault('allocation-failure', k)
        run.probe('alloc-failed')
        run.nontrivial = True
        if end != 'MemoryError':
            raise Violation('not-a-memory-error', '%s: allocation %d of %d '
                            'failed: %s' % (j.kind, k, n, end))
    env.alloc.reset()
    got, err = j.reference()
    guarded('fit afterwards', live0)
    if err is not None:
        raise Violation('different-afterwards', repr(err))
    d = jobs.differ(ref, got)
    if d:
        raise Violation('different-afterwards', d)
