"""C04: a broadcast array arrives exactly, whatever the root and layout."""
import numpy as np

from sim import arrays as A, mpi, seams
from sim.core import Violation

QUICK, THOROUGH = 4000, 200000
REAL = ['pyuoi.mpi_utils']
STUB = ['MPI library and network: sim/mpi.py']
RULE = ('A run draws 1-8 ranks, 1-6 broadcasts one after the other on the '
        'world, a half or a duplicate of it, or the default communicator, '
        'with drawn root, dtype, shape (empty ones included) and memory '
        'layout, what the other ranks pass instead, and all message timing. '
        'Non-trivial: at least two ranks and one root other than 0.')
ASSUMPTIONS = ['dtypes without an MPI type may be refused, by '
               'every rank']


def scenario(ch, run):
    seams.reset(ch, run)
    size = 1 + ch.draw('case', 8) + 8 * ch.flip('case', 0.03)
    n = 1 + ch.draw('case', 6)
    where = ch.pick('case', ['comm', 'none', 'split', 'dup'])
    seed = ch.draw('case', 10 ** 6)
    half = (size + 1) // 2
    steps = []
    for i in range(n):
        ndim = ch.pick('case', [2, 1, 3, 4, 0])
        shape = tuple(ch.pick('case', [3, 1, 2, 5, 0, 40][:6 if d < 2 else 5])
                      for d in range(ndim))
        if ndim and ch.flip('case', 0.03):
            # more than a message, a page or a short can hold
            shape = (ch.pick('case', [1025, 4099, 33000, 70001]),) + \
                shape[1:2]
            run.probe('large')
        steps.append(dict(
            root=ch.draw('case', half if where == 'split' else size),
            dt=ch.pick('case', A.GOOD) if ch.draw('case', 12) != 11
            else ch.pick('case', A.ODD),
            shape=shape, layout=ch.pick('case', A.LAYOUTS),
            others=ch.pick('case', ['none', 'same', 'other', 'strided'])))
    run.case = dict(size=size, where=where, steps=steps, seed=seed)
    w = mpi.World(ch, run, size)

    def array(i, g):
        return A.values(np.random.RandomState(seed + 31 * i + 7 * g),
                        steps[i]['shape'], steps[i]['dt'])

    def main(comm):
        from pyuoi.mpi_utils import Bcast_from_root
        g = 0
        if where == 'split':
            g = int(comm.rank >= half)
            mine = comm.Split(g, comm.rank)
        else:
            mine = comm.Dup() if where == 'dup' else comm
        kept = []
        for i, s in enumerate(steps):
            root = s['root'] % mine.size
            want = array(i, g)
            if mine.rank == root:
                send = A.layout(want, s['layout'])
            elif s['others'] == 'none':
                send = None
            elif s['others'] == 'same':
                send = np.full(s['shape'], 1, dtype=s['dt'])
            elif s['others'] == 'other':
                send = np.full((mine.rank + 1, 7), 3.5, dtype='f4')
            else:
                send = np.arange(24).reshape(4, 6)[::2, ::3]
            before = None if send is None else send.copy()
            try:
                got = Bcast_from_root(send, None if where == 'none' else mine,
                                      root=root)
            except Exception as e:
                if s['dt'] in A.GOOD:
                    raise
                kept.append(type(e).__name__)
                run.probe('unsupported-dtype-refused')
                continue
            if not A.same(got, want):
                return ('wrong-array', 'rank %d, step %d: %s, root %d sent %s'
                        % (comm.rank, i, A.show(got), root, A.show(want)))
            if before is not None and not A.same(send, before):
                return ('argument-changed', 'rank %d, step %d: %s became %s'
                        % (comm.rank, i, A.show(before), A.show(send)))
            kept.append(got)
        # later broadcasts leave earlier results alone
        for i, got in enumerate(kept):
            if isinstance(got, np.ndarray) and not A.same(got, array(i, g)):
                return ('result-changed', 'rank %d: the array of step %d '
                        'changed later' % (comm.rank, i))
        return [k if isinstance(k, str) else 'ok' for k in kept]
    outs = w.launch(main)
    for r, o in enumerate(outs):
        if o.state == 'ok' and isinstance(o.value, tuple):
            raise Violation(*o.value)
    w.check_clean()
    for r, o in enumerate(outs):
        if o.state != 'ok':
            raise Violation('rank-failed', 'rank %d: %s %s %r'
                            % (r, o.state, o.where, o.error))
        if (o.value != outs[0].value):
            raise Violation('ranks-disagree', 'rank 0: %s, rank %d: %s'
                            % (outs[0].value, r, o.value))
    run.nontrivial = size > 1 and any(s['root'] for s in steps)
    run.probe('comm-' + where)
