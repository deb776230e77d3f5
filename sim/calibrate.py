#!/usr/bin/env python3
"""calibrate.py [PROGRAMS] [RANKS]: the same programs on the simulated MPI and
on the installed one, results compared. Not a check: it supports the trust put
in sim/mpi.py. Needs mpiexec, and pyuoi as installed by the build."""
import os
import pickle
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def program(seed, comm, MPI, np):
    """A list of results, one per step; errors by type."""
    r = np.random.RandomState(seed)
    out = []
    c = comm
    for step in range(8):
        op = r.randint(16)
        root = r.randint(c.size)
        dt = ['f8', 'f4', 'i4', 'i8', 'u1', '?', 'c16'][r.randint(7)]
        shape = [(3,), (2, 3), (0,), (4, 1, 2), (1,)][r.randint(5)]
        order = 'CF'[r.randint(2)]
        counts = r.randint(4, size=c.size)
        base = (r.rand(*shape) * 9).astype(dt)
        mine = np.array(base * (1 + c.rank if dt != '?' else 1), order=order)
        q = r.randint(4)
        try:
            if op == 0:
                a = mine.copy(order='K')
                c.Bcast(a, root=root)
                out.append(a)
            elif op == 1:
                out.append(c.bcast({'r': c.rank, 'a': mine}, root=root))
            elif op == 2:
                out.append(c.gather((c.rank, mine), root=root))
            elif op == 3:
                out.append(c.allgather([c.rank] * c.rank))
            elif op == 4:
                out.append(c.allreduce(c.rank + 1, op=[
                    MPI.SUM, MPI.MAX, MPI.MIN, MPI.PROD][q]))
            elif op == 5:
                out.append(c.reduce(c.rank + 1, root=root))
            elif op in (6, 7):
                n = int(counts[c.rank])
                send = np.full((n, 2), c.rank + .5)
                if c.rank == root:
                    recv = np.empty((counts.sum(), 2))
                    d = np.insert(np.cumsum(2 * counts), 0, 0)[:-1]
                    if op == 6:
                        c.Gatherv(send, (recv, 2 * counts), root=root)
                    else:
                        c.Gatherv(send, [recv, (2 * counts, d), MPI.DOUBLE],
                                  root=root)
                    out.append(recv)
                else:
                    c.Gatherv(send, None, root=root)
                    out.append(None)
            elif op == 8:
                a, b = np.arange(3.) * c.rank, np.empty(3)
                c.Allreduce(a, b, op=[MPI.SUM, MPI.MAX][q % 2])
                out.append(b)
            elif op == 9:
                a = np.arange(3) + c.rank
                b = np.zeros(3, a.dtype) if c.rank == root else None
                c.Reduce(a, b, op=MPI.SUM, root=root)
                out.append(b)
            elif op == 10:
                c = c.Dup() if q == 0 else comm
                out.append((c.rank, c.size))
            elif op == 11:
                d = comm.Split(comm.rank % 2, -comm.rank if q == 0 else 0)
                out.append((d.rank, d.size, d.allgather(comm.rank)))
            elif op == 12:
                c.Barrier()
                out.append(c.scatter([i * i for i in range(c.size)]
                                     if c.rank == root else None, root=root))
            elif op == 13:
                b = np.empty((c.size, 2), 'i8') if c.rank == root else None
                c.Gather(np.array([c.rank, 7]), b, root=root)
                out.append(b)
            elif op == 14:
                # refused before anything is sent
                bad = [np.arange(6.).reshape(2, 3)[:, ::2],
                       np.zeros(2, 'S3'), np.arange(3)[::-1],
                       np.array([None])][q]
                try:
                    MPI.COMM_SELF.Bcast(bad, root=0)
                    out.append('accepted')
                except Exception as e:
                    out.append(type(e).__name__)
            else:
                ro = np.arange(3.)
                ro.flags.writeable = False
                try:
                    MPI.COMM_SELF.Bcast(ro, root=0)
                    out.append('accepted')
                except Exception as e:
                    out.append(type(e).__name__)
        except Exception as e:
            out.append('raised %s' % type(e).__name__)
            break
    return out


def fit(seed, comm, np):
    import warnings
    from pyuoi.linear_model import UoI_Lasso, UoI_L1Logistic
    warnings.simplefilter('ignore')
    r = np.random.RandomState(seed)
    X = r.normal(size=(40, 5))
    if seed % 2:
        m = UoI_Lasso(n_boots_sel=2 + seed % 5, n_boots_est=2 + seed % 4,
                      n_lambdas=5, random_state=seed, comm=comm)
        m.fit(X, X[:, 0] * 2 + r.normal(size=40))
    else:
        m = UoI_L1Logistic(n_boots_sel=2 + seed % 5, n_boots_est=3, n_C=4,
                           random_state=seed, comm=comm)
        m.fit(X, (X[:, 1] + r.normal(size=40) > 0).astype(int))
    return [m.coef_, m.intercept_, m.estimates_, m.scores_, m.supports_,
            m.rp_max_idx_]


def child(n, out):
    import numpy as np
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    res = [program(i, comm, MPI, np) for i in range(n)]
    res += [fit(i, comm, np) for i in range(max(4, n // 20))]
    with open(os.path.join(out, str(comm.rank)), 'wb') as f:
        pickle.dump(res, f)


def simulated(n, size):
    sys.path[0] = os.path.dirname(HERE)
    from sim import core, env
    env.setup()
    import numpy as np
    from sim import mpi, seams

    def scenario(ch, run):
        seams.reset(ch, run)
        w = mpi.World(ch, run, size)

        def main(comm):
            from mpi4py import MPI
            res = [program(i, comm, MPI, np) for i in range(n)]
            return res + [fit(i, comm, np) for i in range(max(4, n // 20))]
        run.out = w.launch(main)
    run, v = core.execute(scenario, core.Choices(seed='calibrate'))
    if v is not None:
        raise SystemExit('simulation: %s' % v)
    for o in run.out:
        if o.state != 'ok':
            raise SystemExit('simulation: %s %r' % (o.state, o.error))
    return [o.value for o in run.out]


def same(np, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and \
            np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(np, x, y)
                                        for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(np, a[k], b[k]) for k in a)
    return a == b


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    size = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    with tempfile.TemporaryDirectory() as out:
        e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1',
                 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        subprocess.run(['mpiexec', '--oversubscribe', '-n', str(size), PY,
                        os.path.abspath(__file__), 'child', str(n), out],
                       check=True, env=e, cwd=out, timeout=600)
        real = [pickle.load(open(os.path.join(out, str(r)), 'rb'))
                for r in range(size)]
    sim = simulated(n, size)
    import numpy as np
    bad = 0
    for i in range(len(sim[0])):
        for r in range(size):
            if not same(np, sim[r][i], real[r][i]):
                bad += 1
                if bad < 10:
                    for s, t in zip(sim[r][i], real[r][i]):
                        if not same(np, s, t):
                            print('program %d rank %d: simulated %r, real %r'
                                  % (i, r, s, t))
                            break
    print('%d programs and %d fits on %d ranks, %d differences'
          % (n, len(sim[0]) - n, size, bad))
    return bad > 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['child']:
        child(int(sys.argv[2]), sys.argv[3])
    else:
        sys.exit(main())
