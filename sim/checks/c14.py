"""C14: progress reports are complete, and cancelling always works."""
import numpy as np

from sim import env, minim, seams
from sim.core import Violation

QUICK, THOROUGH = 70000, 1000000
REAL, STUB = minim.REAL, minim.STUB
RULE = ('A run draws an objective, a start, the optimizer parameters, and '
        'whether and where the progress function cancels and with what '
        'value; the history of evaluations and reports is checked. '
        'Non-trivial: at least one report was made.')
ASSUMPTIONS = []
PROBES = ('cancelled', 'all-zero-code', 'went-on', 'owlqn', 'converged',
          'warned')
GO_ON = [None, 0, 0.0, False, np.float64(0), np.int64(0)]
STOP = [1, -1, 7, True, -1001, -1024, 0.5, np.int64(3), np.float64(2.5),
        1000000, 2, 'stop']
ALLZERO = [-2048, np.int64(-2048), -2048.0]


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    c = minim.Case(ch)
    run.case = dict(c.c)
    quiet = c.run(watch=False)
    # replies, one per iteration; the drawn one may cancel
    cancel_at = 1 + ch.draw('fault', 8) if ch.flip('fault', 0.6) else None
    kind = ch.draw('fault', 4)
    code = ch.pick('fault', STOP) if kind < 3 else ch.pick('fault', ALLZERO)

    def reply(h):
        if cancel_at is not None and len(h.steps) == cancel_at:
            run.fault('cancel', cancel_at)
            return code
        return ch.pick('case', GO_ON)
    h = c.run(on_progress=reply)
    check(run, c, h)
    run.nontrivial = bool(h.steps)
    if c.o.get('orthantwise_c'):
        run.probe('owlqn')
    if cancel_at is not None and len(h.steps) >= cancel_at:
        run.case.update(cancel=cancel_at, code=repr(code))
        want = 'AllZeroLBFGSError' if kind == 3 else 'LBFGSError'
        if len(h.steps) > cancel_at or h.trail[-1] != 'p':
            raise Violation('calls-after-cancel', 'cancelled at report %d '
                            'with %r, then: %s' % (cancel_at, code,
                                                   ''.join(h.trail)))
        if h.end != want:
            raise Violation('cancel-ignored', 'cancelled with %r: ended with '
                            '%s, expected %s' % (code, h.end, want))
        run.probe('all-zero-code' if kind == 3 else 'cancelled')
        # up to there, nothing was different
        full = c.run()
        n = len(h.evals)
        if full.key()[4][:n] != h.key()[4]:
            raise Violation('watching-matters', 'evaluations before the '
                            'cancellation differ')
        return
    run.probe('went-on')
    run.probe('converged' if h.end == 'returned' and not h.warned
              else 'warned')
    if h.key() != quiet.key():
        raise Violation('watching-matters', 'with progress: %s %s %s %s, '
                        'without: %s %s %s %s' % (
                            h.end, h.error, h.warned, h.x, quiet.end,
                            quiet.error, quiet.warned, quiet.x))
    if h.end == 'returned':
        if h.x.shape != h.x0.shape:
            raise Violation('shape', 'start %s, result %s'
                            % (h.x0.shape, h.x.shape))
        last = h.steps[-1]['x'] if h.steps else h.x0
        if not np.array_equal(h.x, last):
            raise Violation('not-the-last-iterate', '%s and %s'
                            % (h.x, last))
    mi = c.o['max_iterations']
    if mi and len(h.steps) > mi:
        raise Violation('too-many-iterations', '%d of %d'
                        % (len(h.steps), mi))
    if mi and len(h.steps) < mi and any(
            'maximum number of iterations' in w for w in h.warned):
        raise Violation('lost-reports', '%d reports of %d iterations'
                        % (len(h.steps), mi))


def check(run, c, h):
    if h.bad_args is not None:
        raise Violation('args', 'callbacks got %r' % (h.bad_args,))
    for s in h.shapes:
        if s != (h.x0.shape, h.x0.shape):
            raise Violation('shape', 'start %s, callbacks got %s'
                            % (h.x0.shape, s))
    if not h.evals:
        raise Violation('no-evaluation', 'ended with %r before any'
                        % (h.error,))
    if not np.array_equal(h.evals[0][0], h.x0):
        raise Violation('start', 'the first evaluation is not at the start')
    before = 1
    for i, s in enumerate(h.steps):
        if s['k'] != i + 1:
            raise Violation('numbering', 'report %d says iteration %d'
                            % (i + 1, s['k']))
        mine = h.evals[before:s['evals']]
        if s['num'] != len(mine):
            raise Violation('evaluation-count', 'iteration %d: %d '
                            'evaluations, reported %d'
                            % (s['k'], len(mine), s['num']))
        before = s['evals']
        hit = [(v, g) for x, v, g in mine if np.array_equal(x, s['x'])]
        if not hit:
            raise Violation('unknown-point', 'iteration %d reports a point '
                            'that was not evaluated in it' % s['k'])
        ok = any(np.array_equal(g, s['g']) and
                 abs(v + c.penalty(s['x']) - s['f']) <=
                 1e-9 * max(1.0, abs(v), c.penalty(s['x']))
                 for v, g in hit)
        if not ok:
            raise Violation('wrong-report', 'iteration %d: reported %r, '
                            'evaluations gave %r plus penalty %r'
                            % (s['k'], s['f'], [v for v, g in hit],
                               c.penalty(s['x'])))
        n = np.sqrt((s['x'] ** 2).sum())
        if abs(n - s['xnorm']) > 1e-9 * max(1, n):
            raise Violation('wrong-report', 'xnorm %r, is %r'
                            % (s['xnorm'], n))
        if not c.o.get('orthantwise_c'):
            n = np.sqrt((s['g'] ** 2).sum())
            if abs(n - s['gnorm']) > 1e-9 * max(1, n):
                raise Violation('wrong-report', 'gnorm %r, is %r'
                                % (s['gnorm'], n))
