"""C24: a minimization converges once its objective is sound."""
import numpy as np

from sim import env, minim, seams
from sim.checks.c17 import KINDS, bend
from sim.core import Violation

QUICK, THOROUGH = 40000, 600000
REAL, STUB = minim.REAL, minim.STUB
RULE = ('A run draws a convex smooth objective, an L1 penalty on all '
        'or some coordinates or none, a start, the optimizer parameters, and '
        'a client that resumes from where the last attempt got to. Attempts '
        'meet faults until a drawn moment: wrong values and gradients, '
        'exceptions in the objective or the progress function, '
        'cancellations, failing allocations, and attempts that stop at an '
        'iteration limit or a loose criterion. After that moment nothing '
        'fails, and the next attempt has to converge: the point returned '
        'fulfils the optimality condition that the parameters ask for, '
        'computed from the objective alone, and is the same minimum that a '
        'fault-free run finds. Non-trivial: a fault fired before.')
ASSUMPTIONS = ['the objectives are smooth, convex with one minimum and of '
               'moderate size; convergence criteria between 1e-6 and 0.1']
PROBES = ('faultless', 'resumed', 'restarted', 'short-attempts', 'owlqn',
          'partial-penalty', 'raise', 'cancel', 'alloc', 'values',
          'one-optimizer', 'already-minimal', 'zero-coordinate',
          'start-zero', 'start-near-zero', 'start-far',
          'start-without-penalty')
TRIES = 60


class Oops(Exception):
    pass


def away(c, f, x):
    """How far from optimal, in the optimizer's measure."""
    q = []
    # (the penalty bends at zero: within rounding of it is at it)
    for x in (np.ravel(x), np.where(np.abs(np.ravel(x)) < 1e-12, 0,
                                    np.ravel(x))):
        v, g = f(x)
        q.append(np.linalg.norm(minim.slope(c, x, g)) / max(1, np.linalg.norm(x)))
    return min(q)


def convex(ch):
    c = minim.Case(ch)
    if c.c['fn'] == 'banana' or ch.flip('case', 0.15):
        # (of several coordinates without curvature, rounding errors of the
        # gradient make steps too long for halving)
        halving = c.o.get('orthantwise_c') or c.o['line_search'] not in (
            'default', 'morethuente')
        c.c['fn'] = 'far' if halving and c.c['p'] > 1 else 'huber'
    for k in ('past', 'delta', 'max_linesearch', 'max_iterations', 'epsilon'):
        c.o.pop(k, None)
        c.c.pop(k, None)
    # (a resumed attempt begins with a step of length one, far too long
    # near the minimum: twenty trials would not do)
    c.o['max_linesearch'] = c.c['max_linesearch'] = 60
    if ch.flip('case', 0.5):
        c.o['epsilon'] = c.c['epsilon'] = ch.pick('case', [1e-3, 1e-6, 0.1])
    if ch.flip('case', 0.15):
        # sums may cancel: a value of zero, or below
        # (and the last digits are lost)
        if c.o.get('epsilon') == 1e-6:
            c.o['epsilon'] = c.c['epsilon'] = 1e-5
        c.c['lift'] = ch.pick('case', [-50.0, 'zero'])
    return c


class From:
    """The optimizer, started elsewhere, on a shifted objective."""

    def __init__(self, opt, x, lift):
        self.opt, self.x, self.lift = opt, x, lift

    def __call__(self, f, x0, progress=None, args=(), **kw):
        def g(x, gr, *a):
            return f(x, gr, *a) + self.lift
        return self.opt(g, self.x, progress=progress, args=args, **kw)


def scenario(ch, run):
    from pyuoi import lbfgs
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    c = convex(ch)
    f, x0 = c.make()
    eps = c.o.get('epsilon', 1e-5)
    lift = c.c.get('lift', 0.0)
    if c.o.get('orthantwise_c'):
        run.probe('owlqn')
        if not c.penalised:
            run.probe('partial-penalty')
    start = ch.pick('case', ['given', 'given', 'given', 'zero', 'near zero',
                             'some zero', 'far', 'without penalty'])
    if start == 'without penalty':
        o0 = dict(c.o)
        c.o.pop('orthantwise_c', None)
        x = c.run(opt=From(lbfgs.fmin_lbfgs, x0, 0.0)).x
        c.o.clear()
        c.o.update(o0)
        x0 = x0 if x is None else x
    else:
        x0 = x0 * {'given': 1, 'zero': 0, 'near zero': 1e-12, 'far': 4,
                   'some zero': np.arange(x0.size).reshape(x0.shape) % 2}[
                       start]
    c.c['start'] = start
    run.probe('start-' + start.replace(' ', '-'))
    clean = c.run(opt=From(lbfgs.fmin_lbfgs, x0, 0.0))
    arrived(c, f, clean, eps, 'without faults')
    if lift == 'zero':
        lift = -f(np.ravel(clean.x))[0] - c.penalty(clean.x)
    small = ch.flip('case', 0.25)
    chunk = ch.pick('case', [5, 1, 12]) if small else 0
    crude = ch.flip('case', 0.15)
    again = ch.flip('fault', 0.3)      # start anew after an error
    own = ch.flip('case', 0.3)
    faults = [ch.pick('fault', ['values', 'values', 'raise', 'cancel',
                                'alloc', 'raise-progress'])
              for _ in range(ch.draw('fault', 4))]
    run.case = dict(c.c, faults=faults, chunk=chunk, crude=crude,
                    restart=again, own=own)
    if own:
        run.probe('one-optimizer')
    o0 = dict(c.o)
    one = optimizer(lbfgs) if own else lbfgs.fmin_lbfgs
    x = x0
    n = 0
    for kind in faults:
        if chunk:
            c.o['max_iterations'] = chunk
        if crude:
            c.o['epsilon'] = 0.1
        h = attempt(ch, run, c, kind, From(one, x, 0.0))
        c.o.clear()
        c.o.update(o0)
        env.alloc.fail(-1, 0)
        n += 1
        if again and h.end != 'returned':
            x = x0
            run.probe('restarted')
        else:
            y = h.x if h.end == 'returned' else \
                h.steps[-1]['x'] if h.steps else x
            if np.isfinite(y).all() and np.abs(y).max() < 1e3:
                x = y
                run.probe('resumed')
    what = '%d attempts with faults, then ' % n
    if chunk:
        # limited attempts, each from where the last ended, with more
        # time every fourth
        c.o['max_iterations'] = chunk
        run.probe('short-attempts')
    for i in range(TRIES):
        h = c.run(opt=From(one, x, lift))
        if h.end != 'returned':
            raise Violation('does-not-converge', '%sattempt %d ended with %r'
                            % (what, i + 1, h.error))
        if not chunk or not any('iterations' in w for w in h.warned):
            break
        if away(c, f, h.x) > eps and len(h.steps) != chunk:
            raise Violation('stopped-early', '%sattempt %d stopped after %d '
                            'of %d iterations' % (what, i + 1, len(h.steps),
                                                  chunk))
        if worth(c, f, h.x) > worth(c, f, x) + 1e-9 * (1 + abs(
                worth(c, f, x))) and c.penalised:
            raise Violation('worse', '%sattempt %d went from %r to %r'
                            % (what, i + 1, worth(c, f, x),
                               worth(c, f, h.x)))
        x = h.x
        if i % 4 == 3:
            chunk = c.o['max_iterations'] = 2 * chunk
    else:
        raise Violation('does-not-converge', '%s%d attempts of up to %d '
                        'iterations did not converge' % (what, TRIES, chunk))
    c.o.clear()
    c.o.update(o0)
    arrived(c, f, h, eps, what + 'a sound objective')
    if not h.steps:
        run.probe('already-minimal')
    if c.o.get('orthantwise_c') and (np.ravel(h.x) == 0).any():
        run.probe('zero-coordinate')
    a, b = worth(c, f, clean.x), worth(c, f, h.x)
    # within eps of optimal the value is within about eps^2 of the minimum;
    # the criterion is relative to the size of the point
    loose = eps * max(1, np.linalg.norm(h.x), np.linalg.norm(clean.x))
    if loose < 0.05 and abs(a - b) > 40 * loose * (1 + abs(a)) * c.c['p']:
        raise Violation('another-minimum', '%svalue %r, without faults %r'
                        % (what, b, a))
    if not n:
        run.probe('faultless')
    run.nontrivial = n > 0


def optimizer(lbfgs):
    """One optimizer object for all attempts."""
    opt = lbfgs.LBFGS()

    def go(f, x0, progress=None, args=(), orthantwise_c=0,
           orthantwise_start=0, orthantwise_end=-1, **kw):
        ls = kw.pop('line_search', 'default')
        opt.linesearch = 'wolfe' if orthantwise_c else ls
        opt.max_iterations = kw.pop('max_iterations', 0)
        opt.epsilon = kw.pop('epsilon', 1e-5)
        opt.orthantwise_c = orthantwise_c
        opt.orthantwise_start = orthantwise_start
        opt.orthantwise_end = orthantwise_end
        for k, v in kw.items():
            setattr(opt, k, v)
        return opt.minimize(f, x0, progress, args)
    return go


def worth(c, f, x):
    return f(np.ravel(x))[0] + c.penalty(x)


def arrived(c, f, h, eps, what):
    if h.end != 'returned':
        raise Violation('does-not-converge', '%s: ended with %r'
                        % (what, h.error))
    q = away(c, f, h.x)
    if not q <= eps * (1 + 1e-6) + 1e-12:
        raise Violation('not-optimal', '%s: %s is %g from optimal, the '
                        'criterion is %g (%s)'
                        % (what, h.x, q, eps, h.warned))


def attempt(ch, run, c, kind, opt):
    at = ch.draw('fault', 12)
    kw = {}
    if kind == 'values':
        pool = [ch.pick('fault', KINDS) for _ in range(1 + ch.draw('fault',
                                                                   2))]
        rate = ch.pick('fault', [0.2, 0.05, 1.0])
        stop = [120]

        def on_eval(h, x, v, g):
            stop[0] -= 1
            if stop[0] < 0:
                raise Oops()
            if len(h.evals) < at % 4 or not ch.flip('fault', rate):
                return None
            k = ch.pick('fault', pool)
            run.fault(k, len(h.evals))
            run.probe('values')
            return bend(k, v, g, ch.draw('fault', 8))
        kw['on_eval'] = on_eval
    elif kind == 'raise':
        def on_eval(h, x, v, g):
            if len(h.evals) == at:
                run.fault('callback-error', at)
                run.probe('raise')
                raise Oops()
        kw['on_eval'] = on_eval
    elif kind == 'alloc':
        env.alloc.reset()
        env.alloc.fail(at, ch.pick('fault', [1, 1000000]))
        run.fault('allocation-failure', at)
        run.probe('alloc')
    else:
        def on_progress(h):
            if len(h.steps) == 1 + at % 6:
                run.fault(kind, at % 6)
                run.probe('cancel')
                if kind == 'cancel':
                    return 1 - 2049 * (at % 2)
                raise Oops()
        kw['on_progress'] = on_progress
    return c.run(opt=opt, **kw)
