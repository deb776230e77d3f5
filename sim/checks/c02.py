"""C02: after a distributed fit every rank holds the same model."""
import numpy as np

from sim import dist, mpi, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1400, 60000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a model, parameters, data, 1-3 consecutive fits, 2-8 '
        'ranks that share nothing but messages (each its own random streams: '
        'seed an int, a RandomState, the '
        'global one or None; verbosity as drawn per rank), '
        'and the timing of every message; afterwards the fitted attributes '
        'and predictions of all ranks are compared bit by bit. Non-trivial: '
        'all ranks fitted.')
ASSUMPTIONS = ['every rank is given the same data and parameters']


def predictions(m, X):
    out = {}
    for f in ('predict', 'predict_proba', 'predict_mean'):
        if hasattr(m, f):
            try:
                out[f] = np.array(getattr(m, f)(X))
            except Exception as e:
                out[f] = np.array(['%s: %s' % (type(e).__name__, e)])
    return out


def scenario(ch, run):
    seams.reset(ch, run)
    c = W.fit_case(ch, dress=0.2)
    size = dist.sizes(ch, c)
    how = ch.pick('case', ['int', 'none', 'instance', 'npint',
                            'module'])
    fits = 1 + ch.draw('case', 3)
    if not ch.flip('case', 0.5):
        fits = 1
    verb = [ch.flip('case', 0.2) for _ in range(size)]
    run.case = dict(c, size=size, how=how, fits=fits)
    sets = [W.case_data(dict(c, data=c['data'] + i)) for i in range(fits)]
    ref, err = W.serial(c, *sets[0])
    if err is not None:
        run.probe('serial-raises')
        return
    w = mpi.World(ch, run, size)
    dist.plan_stalls(ch, w, 40)

    def main(comm):
        rs = {'int': c['seed'], 'none': None, 'module': np.random.mtrand._rand,
              'npint': np.int64(c['seed']),
              # a different stream on every rank
              'instance': np.random.RandomState(c['seed'] + 7 * comm.rank)
              }[how]
        m = W.make(c, comm=comm, random_state=rs)
        out = []
        for X, y, s in sets:
            m.fit(X.copy(), y.copy(), stratify=s, verbose=verb[comm.rank])
            out.append(W.state(m))
            out.append(predictions(m, W.rows(X, 5)))
        return out
    outs = w.launch(main)
    if any(o.state == 'raised' for o in outs) and how != 'int':
        # an unlucky split (drawn by rank 0 alone) has no fit: every rank
        # that fits fails, and which do is up to the split
        run.probe('unlucky-split')
        return
    dist.all_ok(w, outs)
    run.nontrivial = True
    for r in range(1, size):
        for k, (a, b) in enumerate(zip(outs[0].value, outs[r].value)):
            d = W.differ(a, b, rtol=0, atol=0)
            if d:
                raise Violation('ranks-differ', 'rank 0 and rank %d after '
                                'fit %d: %s' % (r, k // 2, d))
    run.probe('seed-' + how)
