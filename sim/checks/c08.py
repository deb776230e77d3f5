"""C08: the ranks share the work: every piece once, evenly."""
import collections
import logging

import numpy as np

from sim import dist, mpi, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1200, 60000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a model and data, records every solver call of the '
        'serial fit (rows, features, regularization) and of a fit on 2-8 '
        'simulated ranks with drawn timing; together the ranks must make '
        'the calls of the serial fit, each as often, and no rank may do two '
        'units of selection or estimation work more than another. '
        'Non-trivial: at least two ranks made calls.')
ASSUMPTIONS = ['solver calls on all rows (intercepts) are not counted: '
               'every rank may make those']
PROBES = ('by-bootstrap', 'by-parameter', 'idle-rank')


class Recorder:
    """Solver calls as (phase, rows, features or parameter)."""

    def __init__(self, c, X, y):
        X = np.asarray(X, float)
        # as given, scaled, centred and scaled
        self.forms = [X, X / X.std(axis=0),
                      (X - X.mean(axis=0)) / X.std(axis=0)]
        self.n, self.p = X.shape
        self.calls = []
        self.unknown = 0

    def rows_cols(self, A):
        """Which rows and columns of Z these are."""
        A = np.asarray(A)
        if A.ndim != 2 or not A.shape[0] or not A.shape[1]:
            return None
        for Z in self.forms:
            rc = self._in(A, Z)
            if rc is not None:
                return rc
        return None

    @staticmethod
    def _in(A, Z):
        near = np.abs(A[0][:, None, None] - Z[None]) < 1e-7
        cols = []
        for j in range(A.shape[1]):
            hit = np.argwhere(near[j])
            if len(hit) != 1:
                return None
            cols.append(int(hit[0][1]))
        rows = []
        for i in range(A.shape[0]):
            k = np.flatnonzero(np.abs(A[i, 0] - Z[:, cols[0]]) < 1e-7)
            if len(k) != 1 or np.abs(A[i] - Z[k[0], cols]).max() > 1e-6:
                return None
            rows.append(int(k[0]))
        return tuple(sorted(rows)), tuple(cols)

    def __call__(self, who, n, obj, A, y, kw):
        rc = self.rows_cols(A)
        if rc is None:
            self.unknown += 1
            return
        rows, cols = rc
        if len(rows) == self.n:
            return
        name = type(obj).__name__
        mask = kw.get('coef_mask')
        if name == 'LinearRegression':
            key = ('est', rows, cols)
        elif mask is not None:
            key = ('est', rows, tuple(np.flatnonzero(np.ravel(mask)).tolist()))
        elif name == 'PycLasso':
            key = ('sel', rows, tuple('%.9e' % a for a in
                                      np.ravel(obj.alphas)))
        else:
            par = [getattr(obj, a, None) for a in ('C', 'alpha', 'l1_ratio')]
            par = tuple(None if a is None else '%.9e' % float(a)
                        for a in par)
            full = cols == tuple(range(self.p))
            key = ('sel' if full else 'est', rows, par if full else cols)
        self.calls.append((who, key))

    def count(self):
        return collections.Counter(k for _, k in self.calls)


class Messages(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def fit(world, c, X, y, strat, said):
    def main(comm):
        log = logging.Logger('of rank %d' % comm.rank)
        h = said[comm.rank] = Messages()
        log.addHandler(h)
        m = W.make(c, comm=comm, logger=log)
        m.fit(X.copy(), y.copy(), stratify=None if strat is None
              else strat.copy(), verbose=True)
        return W.state(m)
    return world.launch(main)


def estimation(c, size, b, said, supports):
    """Estimation units per rank: as the ranks report them, or else at least
    by their solver calls (a support without features needs none)."""
    total = c['B2'] * len(supports)
    lo, hi = total // size, -(-total // size)
    calls = [0] * size
    for who, k in b.calls:
        if k[0] == 'est':
            calls[int(who[1:])] += 1
    empty = c['B2'] * int((supports.reshape(len(supports), -1).sum(axis=1)
                           == 0).sum())
    told = [sum('estimation' in m for m in said[r].seen)
            for r in range(size)]
    if sum(calls) + empty != total:
        return          # splits that coincide, solvers not recognised
    if sum(told) == total:
        units, slack = told, 0
    else:
        units, slack = calls, empty
    if max(units) > hi or min(units) + slack < lo:
        raise Violation('uneven', 'estimation work per rank: %s of %d'
                        % (units, total))


def show(key):
    return '%s fit on rows %s with %s' % (
        {'sel': 'selection', 'est': 'estimation'}[key[0]], list(key[1]),
        key[2])


def scenario(ch, run):
    seams.reset(ch, run)
    c = W.fit_case(ch)
    size = dist.sizes(ch, c)
    X, y, strat = W.case_data(c)
    run.case = dict(c, size=size)
    a = Recorder(c, X, y)
    seams.solvers.after = a
    ref, err = W.serial(c, X, y, strat)
    seams.solvers.reset(run)
    if err is not None:
        run.probe('serial-raises')
        return
    b = Recorder(c, X, y)
    seams.solvers.after = b
    w = mpi.World(ch, run, size)
    dist.plan_stalls(ch, w, 40)
    said = {}
    outs = fit(w, c, X, y, strat, said)
    seams.solvers.reset(run)
    dist.all_ok(w, outs)
    if a.unknown or b.unknown:
        run.probe('unrecognised-solver-call')
        return
    ca, cb = a.count(), b.count()
    if ca != cb:
        lost, more = ca - cb, cb - ca
        if lost:
            k = sorted(lost, key=repr)[0]
            raise Violation('work-lost', '%d calls missing on %d ranks; %s: '
                            '%d times, serially %d'
                            % (sum(lost.values()), size, show(k), cb[k],
                               ca[k]))
        k = sorted(more, key=repr)[0]
        who = [q for q, kk in b.calls if kk == k]
        raise Violation('work-repeated', '%d extra calls on %d ranks; %s: by '
                        '%s, serially %d times'
                        % (sum(more.values()), size, show(k), who, ca[k]))
    # shares of the selection
    by_boot = size <= c['B1']
    per = {'r%d' % r: set() for r in range(size)}
    n_calls = {'r%d' % r: 0 for r in range(size)}
    for who, k in b.calls:
        if k[0] == 'sel':
            n_calls[who] += 1
            per[who].add(k[1])
    if not any(n_calls.values()):
        return
    counts = [len(per['r%d' % r]) if by_boot else n_calls['r%d' % r]
              for r in range(size)]
    rows = {k[1] for k in ca if k[0] == 'sel'}
    R = W.n_reg_params(c)
    whole = len(rows) == c['B1'] and (
        c['kind'] == 'pyc' or
        sum(v for k, v in ca.items() if k[0] == 'sel') == c['B1'] * R)
    if whole and max(counts) - min(counts) > 1:
        raise Violation('uneven', 'selection work per rank: %s %s'
                        % (counts, 'bootstraps' if by_boot else 'fits'))
    estimation(c, size, b, said, outs[0].value['supports_'])
    run.nontrivial = size > 1 and sum(1 for x in counts if x) > 1
    run.probe('by-bootstrap' if by_boot else 'by-parameter')
    if 0 in counts:
        run.probe('idle-rank')
