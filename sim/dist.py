"""Distributed fits in a simulated world."""
import numpy as np

from . import mpi, seams, sched, workloads as W
from .core import Violation

REAL = ['pyuoi (all Python code of the models and helpers)',
        'pyuoi.lbfgs C extension, built from /repo with a simulated allocator',
        'scikit-learn, scipy, numpy, pycasso']
STUB = ['MPI library and network: sim/mpi.py (mpi4py API, discrete-event '
        'scheduler)', 'entropy, clocks, uninitialised memory: sim/seams.py']


def sizes(ch, c, tame=False):
    """A number of ranks that matters for this case: few, about the number of
    bootstraps, or more than there is work."""
    B, R = c['B1'], W.n_reg_params(c)
    k = ch.draw('case', 41)
    many = k == 40
    k %= 5
    if many:
        # as many as nobody has seen in the tests
        s = 9 + ch.draw('case', 9)
    elif k <= 1:
        s = 2 + ch.draw('case', 3)
    elif k == 2:
        s = B + ch.draw('case', 2)
    elif k == 3:
        s = B + 1 + ch.draw('case', 3)
    else:
        s = min(8, max(B * R, c['B2'] * 2) + 1)
    if not many:
        s = min(max(s, 2), 8)
    if s > B:
        # one regularization parameter at a time, spread over the ranks:
        # no previous solution to start from, no path-wise solver
        if c['kind'] == 'pyc':
            s = B
        else:
            c['warm'] = False
    return max(s, 1)


def fit_ranks(world, c, X, y, strat, rs=None, **kw):
    """Every rank builds and fits its own model on its own copy."""
    def main(comm):
        m = W.make(c, comm=comm, random_state=rs() if rs else 'seed', **kw)
        m.fit(X.copy(), y.copy(),
              stratify=None if strat is None else strat.copy())
        return W.state(m)
    return world.launch(main)


def all_ok(world, outs, what=''):
    world.check_clean()
    for r, o in enumerate(outs):
        if o.state != 'ok':
            raise Violation('rank-failed', '%srank %d: %s %s %r'
                            % (what, r, o.state, o.where, o.error))


def plan_stalls(ch, world, n_ops):
    """Ranks that stop for a second of simulated time at drawn calls."""
    if ch.flip('fault', 0.3):
        for _ in range(1 + ch.draw('fault', 2)):
            world.plan[(ch.draw('fault', world.size),
                        ch.draw('fault', n_ops))] = 'stall'
