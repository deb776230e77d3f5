"""C03: distributed programs make progress: no deadlock, no mismatch."""
import numpy as np

from sim import dist, mpi, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1800, 60000
RUN_TIMEOUT = 60
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a program of 1-6 collective steps, the same on all of '
        '1-8 ranks (fits, broadcasts, gathers, loads, a rank-0 only log '
        'read-out), with drawn roots, message delays, eager or synchronous '
        'completion, stalls, stragglers and slow starters. Every collective '
        'must be called by all ranks in the same order with the same root, '
        'and every rank must end within a bounded number of steps. '
        'Non-trivial: at least two ranks and two steps.')
ASSUMPTIONS = ['all ranks run the same program on the same data, and the '
               'serial program succeeds']


def scenario(ch, run):
    seams.reset(ch, run)
    steps = []
    n = 1 + ch.draw('case', 6)
    size = 1 + ch.draw('case', 8) + 8 * ch.flip('case', 0.03)
    fits = 0
    for i in range(n):
        k = ch.pick('case', ['bcast', 'gather', 'fit', 'load', 'fit-comm2'])
        if k.startswith('fit'):
            fits += 1
            if fits > 2:
                k = 'bcast'
        if k.startswith('fit'):
            c = W.fit_case(ch, dress=0.2)
            if size > c['B1']:
                c['warm'] = False
                if c['kind'] == 'pyc':
                    c['kind'] = 'lasso'
            X, y, s = W.case_data(c)
            if c['signal'] == 0.15 and ch.flip('case', 0.3):
                y = np.zeros_like(y)      # a constant response
            ref, err = W.serial(c, X, y, s)
            if err is not None:
                run.probe('serial-raises')
                k = 'bcast'
            else:
                steps.append((k, (c, X, y, s, ref)))
        if not k.startswith('fit'):
            steps.append((k, (ch.draw('case', size),
                              [ch.draw('case', 4) for _ in range(size)],
                              ch.pick('case', ['f8', 'i8', 'f4', 'i4']))))
    use_world = ch.flip('case', 0.3)      # comm=None: MPI.COMM_WORLD
    run.case = dict(size=size, steps=[s[0] for s in steps],
                    models=[s[1][0] for s in steps
                            if s[0].startswith('fit')])
    w = mpi.World(ch, run, size)
    dist.plan_stalls(ch, w, 60)
    h5 = c06_file(run)

    def main(comm):
        from pyuoi.mpi_utils import (Bcast_from_root, Gatherv_rows,
                                     load_data_MPI)
        done = 0
        cm = None if use_world else comm
        for k, a in steps:
            if k.startswith('fit'):
                c, X, y, s, ref = a
                mine = comm.Dup() if k == 'fit-comm2' else comm
                W.make(c, comm=mine).fit(X.copy(), y.copy(), stratify=s)
            else:
                root, rows, dt = a
                if k == 'bcast':
                    arr = np.arange(6, dtype=dt).reshape(2, 3) + root
                    Bcast_from_root(arr if comm.rank == root else None,
                                    cm, root=root)
                elif k == 'gather':
                    Gatherv_rows(np.full((rows[comm.rank], 2), comm.rank,
                                         dtype=dt), cm, root=root)
                else:
                    load_data_MPI(h5, comm=cm, root=root)
            done += 1
        return done
    outs = w.launch(main)
    dist.all_ok(w, outs)
    for r, o in enumerate(outs):
        if o.value != len(steps):
            raise Violation('lost-step', 'rank %d did %r of %d steps'
                            % (r, o.value, len(steps)))
    run.nontrivial = size > 1 and len(steps) > 1
    if w.slow is not None:
        run.probe('straggler')


_h5 = None


def c06_file(run):
    """One small data file per process, in scratch."""
    global _h5
    import h5py
    import os
    import tempfile
    if _h5 is None or _h5[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='sim-c03-')
        p = os.path.join(d, 'd.h5')
        with h5py.RealFile(p, 'w') as f:
            f['X'] = np.arange(12.).reshape(4, 3)
            f['y'] = np.arange(4.)
        _h5 = (os.getpid(), p)
    return _h5[1]
