"""C07: a rank that dies or fails never leaves another with a wrong model."""
import numpy as np
from sklearn.exceptions import ConvergenceWarning, NotFittedError

from sim import dist, mpi, sched, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1000, 60000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run first fits without faults on 2-6 simulated ranks, then again '
        'with one or two faults: a rank crashes or its MPI call fails at a '
        'drawn call, a rank is interrupted at a drawn line of pyuoi, or a '
        'drawn solver call fails. Ranks may end with an error, or wait for '
        'the dead one (MPI then ends the job), but a rank that returns must '
        'hold exactly the fault-free model; the job started again from '
        'scratch must give it too. Non-trivial: a fault fired.')
ASSUMPTIONS = ['ranks blocked on a dead rank are ended by the MPI runtime']
PROBES = ('crash', 'mpi-error', 'line', 'solver', 'some-rank-returned',
          'all-ranks-returned', 'died-late')

ERRORS = [seams.InjectedError, ValueError, RuntimeError, FloatingPointError,
          np.linalg.LinAlgError, MemoryError, KeyboardInterrupt, TypeError,
          ConvergenceWarning, NotFittedError, AttributeError, IndexError,
          KeyError, OSError, StopIteration, ZeroDivisionError, SystemExit]


def scenario(ch, run):
    seams.reset(ch, run)
    c = W.fit_case(ch, max_n=30, dress=0.15)
    size = min(dist.sizes(ch, c), 6)
    X, y, strat = W.case_data(c)
    run.case = dict(c, size=size)
    ref, err = W.serial(c, X, y, strat)
    if err is not None or size < 2:
        run.probe('serial-raises')
        return
    kind = ch.pick('fault', ['crash', 'mpi-error', 'line', 'solver'])
    lines = [0] * size

    def count(code, line):
        t = sched.current()
        if t is not None and hasattr(t, 'rank'):
            lines[t.rank] += 1
    w = mpi.World(ch, run, size)
    if kind == 'solver':
        seams.solvers.before = lambda *a: None
    if kind == 'line':
        with sched.striking(count):
            outs = dist.fit_ranks(w, c, X, y, strat)
    else:
        outs = dist.fit_ranks(w, c, X, y, strat)
    calls = dict(seams.solvers.calls)
    seams.solvers.reset(run)
    dist.all_ok(w, outs, 'no fault yet: ')
    for r, o in enumerate(outs):
        W.must_equal(ref, o.value, 'differs-from-serial', 'rank %d: ' % r)

    w2 = mpi.World(ch, run, size)
    n = 1 + (ch.draw('fault', 4) == 3)
    hits = {}
    late = False
    for _ in range(n):
        r = ch.draw('fault', size)
        if kind in ('crash', 'mpi-error'):
            k = ch.draw('fault', max(1, w.ops[r]))
            late = late or k > 0.8 * w.ops[r]
            w2.plan[(r, k)] = kind
        elif kind == 'line':
            k = ch.draw('fault', max(1, lines[r]))
            late = late or k > 0.95 * lines[r]
            hits[r] = (k, ch.pick('fault', [mpi.SimCrash, KeyboardInterrupt,
                                            MemoryError] + ERRORS))
        else:
            hits['r%d' % r] = (ch.draw('fault', max(1, calls.get('r%d' % r,
                                                                 1))),
                               ch.pick('fault', ERRORS))
    fired = []
    lines2 = [0] * size

    def at_line(code, line):
        t = sched.current()
        if t is None or not hasattr(t, 'rank') or t.abort:
            return
        r = t.rank
        lines2[r] += 1
        if r in hits and lines2[r] - 1 == hits[r][0]:
            fired.append(r)
            run.fault('%s at a line' % hits[r][1].__name__, r, code.co_name)
            raise hits[r][1]('simulated')

    def solver(who, n, obj, X_, y_, kw):
        if who in hits and hits[who][0] == n:
            fired.append(int(who[1:]))
            run.fault('solver-error', who, n, hits[who][1].__name__)
            raise hits[who][1]('simulated solver failure')
    if kind == 'solver':
        seams.solvers.before = solver
    if kind == 'line':
        with sched.striking(at_line):
            outs = dist.fit_ranks(w2, c, X, y, strat)
    else:
        outs = dist.fit_ranks(w2, c, X, y, strat)
    seams.solvers.reset(run)
    if w2.failed is not None and not run.faults:
        raise w2.failed
    states = [o.state for o in outs]
    for r, o in enumerate(outs):
        if o.state == 'ok':
            run.probe('some-rank-returned')
            W.must_equal(ref, o.value, 'wrong-model', 'after %s, rank %d of '
                         '%d (%s): ' % (kind, r, size, states))
    if all(s == 'ok' for s in states):
        run.probe('all-ranks-returned')
    else:
        run.nontrivial = True
        run.probe(kind)
        if late:
            run.probe('died-late')
    # the operator starts the job again
    w3 = mpi.World(ch, run, size)
    outs = dist.fit_ranks(w3, c, X, y, strat)
    dist.all_ok(w3, outs, 'restarted: ')
    for r, o in enumerate(outs):
        W.must_equal(ref, o.value, 'restart-differs', 'rank %d: ' % r)
