"""C17: the minimizer never returns a point worse than what it accepted."""
import numpy as np

from sim import env, minim, seams
from sim.core import Violation

QUICK, THOROUGH = 90000, 1000000
REAL, STUB = minim.REAL, minim.STUB
RULE = ('A run draws an objective, a start, the optimizer parameters, and a '
        'set of evaluations at which the value or gradient is replaced: NaN, '
        'infinities, huge values, a gradient of the wrong sign or scale, '
        'zeros; the recorded history of evaluations, reported iterates and '
        'the returned point is checked. Non-trivial: a fault fired and the '
        'minimizer did not stop at the first evaluation.')
ASSUMPTIONS = ['the objective is finite at the start (else only termination '
               'and that a non-finite objective is not called a success are '
               'checked)']
PROBES = ('nan-value', 'inf-value', 'nan-gradient', 'flipped-gradient',
          'huge-value', 'returned', 'raised', 'faulty-start', 'owlqn',
          'stayed-at-start', 'converged')
KINDS = ['nan-value', 'inf-value', 'minus-inf-value', 'huge-value',
         'nan-gradient', 'inf-gradient', 'flipped-gradient', 'zero-gradient',
         'scaled-gradient', 'noisy-value', 'one-nan-gradient']


def bend(kind, v, g, z):
    if kind == 'nan-value':
        return np.nan, g
    if kind == 'inf-value':
        return np.inf, g
    if kind == 'minus-inf-value':
        return -np.inf, g
    if kind == 'huge-value':
        return 1e308 if z % 2 else v + 1e6, g
    if kind == 'nan-gradient':
        return v, g * np.nan
    if kind == 'one-nan-gradient':
        g = g.copy()
        g[z % g.size] = np.nan
        return v, g
    if kind == 'inf-gradient':
        g = g.copy()
        g[z % g.size] = np.inf
        return v, g
    if kind == 'flipped-gradient':
        return v, -g
    if kind == 'zero-gradient':
        return v, g * 0
    if kind == 'scaled-gradient':
        return v, g * [1e-8, 1e8, 1e3, 0.1][z % 4]
    return v + [1e-3, -1e-3, 1.0, -1.0][z % 4] * (1 + abs(v)), g


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    c = minim.Case(ch)
    if not c.o['max_iterations']:
        c.o['max_iterations'] = c.c['max_iterations'] = 60
    rate = ch.pick('fault', [0.1, 0.03, 0.4, 1.0])
    pool = [ch.pick('fault', KINDS) for _ in range(1 + ch.draw('fault', 3))]
    first = ch.flip('fault', 0.1)
    run.case = dict(c.c, rate=rate, faults=pool)
    plan = {}
    limit = (c.o['max_iterations'] + 1) * (c.o.get('max_linesearch', 20) + 1)\
        + 1

    def on_eval(h, x, v, g):
        n = len(h.evals)
        if n > limit:
            raise Violation('does-not-end', '%d evaluations, at most %d '
                            'iterations of %d' % (
                                n, c.o['max_iterations'],
                                c.o.get('max_linesearch', 20)))
        if (n == 0 and not first) or not ch.flip('fault', rate):
            return None
        k = ch.pick('fault', pool)
        z = ch.draw('fault', 8)
        run.fault(k, n)
        run.probe(k)
        plan[n] = k
        if n == 0:
            run.probe('faulty-start')
        return bend(k, v, g, z)
    h = c.run(on_eval=on_eval)
    if isinstance(h.error, Violation):
        raise h.error
    limits(c, h)
    run.nontrivial = bool(plan) and len(h.evals) > 1
    if c.o.get('orthantwise_c'):
        run.probe('owlqn')
    judge(run, c, h)


def limits(c, h):
    most, tries = c.o['max_iterations'], c.o.get('max_linesearch', 20)
    if len(h.steps) > most:
        raise Violation('too-many-iterations', '%d iterations reported, the '
                        'limit is %d' % (len(h.steps), most))
    at = [1] + [s['evals'] for s in h.steps] + [len(h.evals)]
    for i in range(1, len(at)):
        if at[i] - at[i - 1] > tries:
            raise Violation('too-many-evaluations', '%d evaluations in line '
                            'search %d, the limit is %d'
                            % (at[i] - at[i - 1], i, tries))


def judge(run, c, h):
    if not h.evals:
        raise Violation('no-evaluation', 'ended with %r before any'
                        % (h.error,))
    bad_start = not (np.isfinite(h.evals[0][1]) and
                     np.isfinite(h.evals[0][2]).all())
    if h.evals[0][0].tobytes() != h.x0.tobytes():
        raise Violation('not-the-start', 'began at %s, was to begin at %s'
                        % (h.evals[0][0], h.x0))
    if h.end == 'returned':
        run.probe('returned')
        points = [('start', h.x0.ravel())] + \
            [('iterate %d' % s['k'], s['x'].ravel()) for s in h.steps]
        hits = [n for n, p in points
                if np.array_equal(p, h.x.ravel(), equal_nan=True)]
        if not hits:
            raise Violation('unknown-point', 'returned %s, which is neither '
                            'the start nor a reported iterate' % h.x)
        if points[-1][0] not in hits:
            raise Violation('not-the-last-iterate', 'returned the %s of %d '
                            'iterates' % (hits[-1], len(h.steps)))
        if points[-1][0] == 'start':
            run.probe('stayed-at-start')
    elif h.end in ('LBFGSError', 'AllZeroLBFGSError'):
        run.probe('raised')
    else:
        raise Violation('unexpected-error', repr(h.error))
    if bad_start:
        if h.end == 'returned' and not h.warned and not h.steps and \
                not np.isfinite(h.evals[0][1]):
            raise Violation('success-not-finite', 'the objective at the '
                            'start was %r' % h.evals[0][1])
        return
    stopping(run, c, h)
    # every reported iterate: an evaluation, and not worse than before
    before = h.evals[0][1] + c.penalty(h.x0)
    used = 1
    for s in h.steps:
        mine = h.evals[used:s['evals']]
        used = s['evals']
        vals = [v for x, v, g in mine if np.array_equal(x, s['x'])]
        pen = c.penalty(s['x'])
        if not any(abs(v + pen - s['f']) <= 1e-9 * max(1, abs(v), pen) or
                   v == s['f'] for v in vals):
            raise Violation('wrong-value', 'iterate %d reported with %r, '
                            'evaluated to %r plus penalty %r'
                            % (s['k'], s['f'], vals, pen))
        if np.isnan(s['f']) or s['f'] == np.inf:
            raise Violation('accepted-not-finite', 'iterate %d has objective '
                            '%r' % (s['k'], s['f']))
        if c.penalised and s['f'] > before + 1e-9 * max(1, abs(before)):
            raise Violation('objective-increased', 'iterate %d: %r after %r'
                            % (s['k'], s['f'], before))
        before = s['f']


def stopping(run, c, h):
    """It ends at the first iterate that fulfils a criterion it was given."""
    eps, past = c.o.get('epsilon', 1e-5), c.o.get('past', 0)
    delta = c.o.get('delta', 0.0)
    f = [h.evals[0][1] + c.penalty(h.x0)] + [s['f'] for s in h.steps]
    at = [(h.evals[0][0], h.evals[0][2])] + \
        [(s['x'], s['g']) for s in h.steps]

    def fulfilled(j):
        """None if rounding decides, or the gradient is not a number."""
        if not np.isfinite(at[j][1]).all():
            return None
        with np.errstate(all='ignore'):
            q = np.linalg.norm(minim.slope(c, *at[j])) / \
                max(1, np.linalg.norm(at[j][0]))
            r = np.abs(np.float64(f[j - past] - f[j]) / f[j]) \
                if past and j and j >= past else np.nan
            if q <= eps * (1 - 1e-9) or r < delta * (1 - 1e-9) - 1e-15:
                return True
            if q <= eps * (1 + 1e-9) or r < delta * (1 + 1e-9) + 1e-15:
                return None
        return False
    n = len(h.steps)
    warned = [w for w in h.warned if 'OWL-QN' not in w]
    success = h.end == 'returned' and not warned
    if success and fulfilled(n) is False:
        raise Violation('stopped-early', 'after %d iterations, without an '
                        'error or warning; no criterion is fulfilled' % n)
    if success:
        run.probe('converged')
    for j in range(n + (not success)):
        if fulfilled(j):
            raise Violation('did-not-stop', 'iterate %d fulfils a criterion, '
                            'the minimization went on (%d iterations, %s)'
                            % (j, n, h.error or h.warned))
    if any('iterations' in w for w in h.warned) and \
            n != c.o['max_iterations']:
        raise Violation('stopped-early', 'at %d of %d iterations'
                        % (n, c.o['max_iterations']))
