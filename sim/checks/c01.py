"""C01: a distributed fit equals the serial fit."""
import numpy as np

from sim import dist, mpi, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1800, 60000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a model (Lasso by coordinate descent or pycasso, elastic '
        'net, logistic, Poisson), its parameters and data, 2-8 ranks, every '
        "message's delay, eager or synchronous completion, stalls and "
        'stragglers; each rank fits, and its state is compared with the fit '
        'without a communicator. Non-trivial: the serial fit exists and at '
        'least two ranks fitted.')
ASSUMPTIONS = ['message loss, duplication and reordering within a '
               'communicator do not occur: MPI guarantees delivery']
PROBES = ('more-ranks-than-bootstraps', 'idle-rank', 'subcommunicator')


def scenario(ch, run):
    seams.reset(ch, run)
    c = W.fit_case(ch, dress=0.2)
    size = dist.sizes(ch, c)
    sub = ch.flip('case', 0.2) and size < 7
    how = ch.pick('case', ['int', 'int', 'instance', 'npint'])
    X, y, strat = W.case_data(c)
    run.case = dict(c, size=size, sub=sub, how=how)

    def rs(c):
        return {'int': int, 'npint': np.int64,
                'instance': np.random.RandomState}[how](c['seed'])
    ref, err = W.serial(c, X, y, strat, random_state=rs(c))
    if err is not None:
        run.probe('serial-raises')
        return
    if not sub:
        w = mpi.World(ch, run, size)
        dist.plan_stalls(ch, w, 40)
        outs = dist.fit_ranks(w, c, X, y, strat, rs=lambda: rs(c))
        dist.all_ok(w, outs)
        for r, o in enumerate(outs):
            W.must_equal(ref, o.value, 'differs-from-serial', 'rank %d of %d: '
                         % (r, size), rtol=1e-9, atol=1e-11)
    else:
        # two fits at the same time on the halves of one world
        c2 = dict(c, data=c['data'] + 1, seed=c['seed'] + 1)
        X2, y2, strat2 = W.case_data(c2)
        ref2, err2 = W.serial(c2, X2, y2, strat2,
                              random_state=rs(c2))
        if err2 is not None:
            run.probe('serial-raises')
            return
        extra = 1 + ch.draw('case', 2)
        if extra > c['B1']:
            # one regularization parameter per rank: see dist.sizes
            if c['kind'] == 'pyc' or c['warm']:
                extra = c['B1']
        w = mpi.World(ch, run, size + extra)
        dist.plan_stalls(ch, w, 40)

        def main(comm):
            color = int(comm.rank >= size)
            mine = comm.Split(color, comm.rank)
            cc, XX, yy, ss = ((c, X, y, strat), (c2, X2, y2, strat2))[color]
            m = W.make(cc, comm=mine, random_state=rs(cc))
            m.fit(XX.copy(), yy.copy(), stratify=ss)
            return W.state(m)
        outs = w.launch(main)
        dist.all_ok(w, outs)
        for r, o in enumerate(outs):
            W.must_equal(ref if r < size else ref2, o.value,
                         'differs-from-serial', 'rank %d of %d+%d: '
                         % (r, size, extra), rtol=1e-9, atol=1e-11)
        run.probe('subcommunicator')
    run.nontrivial = size > 1
    if size > c['B1']:
        run.probe('more-ranks-than-bootstraps')
    if size > c['B1'] * W.n_reg_params(c):
        run.probe('idle-rank')
    if not ref.get('supports_', np.ones(1)).any():
        run.probe('empty-supports')
