"""C05: gathered rows are all the rows, in rank order, at the root only."""
import numpy as np

from sim import arrays as A, mpi, seams
from sim.core import Violation

QUICK, THOROUGH = 4000, 200000
REAL = ['pyuoi.mpi_utils']
STUB = ['MPI library and network: sim/mpi.py']
RULE = ('A run draws 1-8 ranks, 1-6 gathers on the world, a half or a '
        'duplicate of it, or the default communicator, with drawn root, '
        'dtype, trailing shape, rows and memory layout per rank (ranks with '
        'no rows included), and all message timing; the result is compared '
        'with the concatenation of what was sent. Non-trivial: at least two '
        'ranks with different numbers of rows.')
ASSUMPTIONS = ['ndim >= 1; dtypes without an MPI type may be refused, by '
               'every rank']


def scenario(ch, run):
    seams.reset(ch, run)
    size = 1 + ch.draw('case', 8) + 8 * ch.flip('case', 0.03)
    n = 1 + ch.draw('case', 6)
    where = ch.pick('case', ['comm', 'none', 'split', 'dup'])
    seed = ch.draw('case', 10 ** 6)
    half = (size + 1) // 2
    steps = []
    for i in range(n):
        nd = ch.pick('case', [1, 0, 2, 3])
        steps.append(dict(
            root=ch.draw('case', half if where == 'split' else size),
            dt=ch.pick('case', A.GOOD) if ch.draw('case', 12) != 11
            else ch.pick('case', A.ODD),
            tail=tuple(ch.pick('case', [2, 1, 3, 5, 0])
                       for _ in range(nd)),
            rows=[ch.pick('case', [1, 2, 0, 3, 7, 30])
                  for _ in range(size)],
            big=ch.flip('case', 0.03),
            layouts=[ch.pick('case', A.LAYOUTS) for _ in range(size)]))
        if steps[-1]['big'] and ch.flip('case', 0.3):
            # rows longer than a short can count
            steps[-1]['tail'] = ch.pick('case', [(40000,), (70000,),
                                                 (300, 250)])
            steps[-1]['rows'] = [min(m, 3) for m in steps[-1]['rows']]
            run.probe('long-rows')
        elif steps[-1]['big']:
            # more than a message, a page or a short can hold
            run.probe('large')
            k = ch.pick('case', [100, 1037, 9001])
            steps[-1]['rows'] = [k * m for m in steps[-1]['rows']]
    run.case = dict(size=size, where=where, steps=steps, seed=seed)
    w = mpi.World(ch, run, size)

    def part(i, r):
        s = steps[i]
        return A.values(np.random.RandomState(seed + 31 * i + 1009 * r),
                        (s['rows'][r],) + s['tail'], s['dt'])

    def main(comm):
        from pyuoi.mpi_utils import Gatherv_rows
        members = list(range(size))
        mine = comm
        if where == 'split':
            g = int(comm.rank >= half)
            mine = comm.Split(g, comm.rank)
            members = [m for m in members if int(m >= half) == g]
        elif where == 'dup':
            mine = comm.Dup()
        kept = []
        for i, s in enumerate(steps):
            root = s['root'] % mine.size
            send = A.layout(part(i, comm.rank), s['layouts'][comm.rank])
            try:
                got = Gatherv_rows(send, None if where == 'none' else mine,
                                   root=root)
            except Exception as e:
                if s['dt'] in A.GOOD:
                    raise
                kept.append((type(e).__name__, None))
                run.probe('unsupported-dtype-refused')
                continue
            if not A.same(send, part(i, comm.rank)):
                return ('argument-changed', 'rank %d, step %d' %
                        (comm.rank, i))
            if mine.rank != root:
                if got is not None:
                    return ('not-only-root', 'rank %d, step %d: %s'
                            % (comm.rank, i, A.show(got)))
                kept.append(('none', None))
                continue
            want = np.concatenate([part(i, m) for m in members])
            if not A.same(got, want):
                return ('wrong-rows', 'root %d, step %d: %s, sent were %s'
                        % (comm.rank, i, A.show(got), A.show(want)))
            kept.append((got, want))
        for i, (got, want) in enumerate(kept):
            if want is not None and not A.same(got, want):
                return ('result-changed', 'the array of step %d changed '
                        'later' % i)
        return ['ok' if not isinstance(k[0], str) or k[0] == 'none' else k[0]
                for k in kept]
    outs = w.launch(main)
    for r, o in enumerate(outs):
        if o.state == 'ok' and isinstance(o.value, tuple):
            raise Violation(*o.value)
    w.check_clean()
    for r, o in enumerate(outs):
        if o.state != 'ok':
            raise Violation('rank-failed', 'rank %d: %s %s %r'
                            % (r, o.state, o.where, o.error))
        if o.value != outs[0].value:
            raise Violation('ranks-disagree', 'rank 0: %s, rank %d: %s'
                            % (outs[0].value, r, o.value))
    run.nontrivial = size > 1 and any(len(set(s['rows'])) > 1 for s in steps)
    if any(0 in s['rows'] for s in steps):
        run.probe('rank-without-rows')
    run.probe('comm-' + where)
