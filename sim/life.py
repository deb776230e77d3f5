"""Operations in the life of an estimator, as data, so that several objects
can live the same life."""
import numpy as np

from . import jobs, seams
from . import workloads as W


def arrays(j, op):
    X, y, s = j.args()
    if op['data']:
        r = np.random.RandomState(op['data'])
        X = W.columns_scaled(X, r.uniform(0.8, 1.25, size=X.shape[1]))
        if y is not None and j.kind in ('lasso', 'enet', 'pyc', 'pyc1'):
            y = y + r.normal(size=y.shape) * 0.3
    return X, y, s


def observe(j, m):
    """What a user sees of it, fitted or not."""
    try:
        out = j.result(m)
    except Exception as e:
        out = {'error': np.array([type(e).__name__])}
    for a in ('n_boots', 'n_boots_sel', 'n_boots_est', 'selection_frac',
              'estimation_frac', 'fit_intercept', 'standardize', 'max_k',
              'tol', 'max_iter', 'alpha', 'l1_ratio', 'C', 'penalty',
              'estimation_score', 'warm_start'):
        v = getattr(m, a, None)
        if isinstance(v, (int, float, str, bool)):
            out['param:' + a] = np.array([str(v)])
    return out


def draw(ch, fail=True):
    d = 'case'
    op = dict(kind=ch.pick(d, ['fit', 'fit', 'predict'] +
                           (['fail'] if fail else [])),
              data=ch.pick(d, [0, 0, 1, 2]))
    if op['kind'] == 'fail':
        op['at'] = ch.draw(d, 12)
        op['how'] = ch.pick(d, ['error', 'interrupt'])
    return op


def apply(j, m, op):
    """One operation; what it gave."""
    if op['kind'] == 'predict':
        return observe(j, m)
    err = None
    if op['kind'] == 'fail':
        E = {'error': seams.InjectedError,
             'interrupt': KeyboardInterrupt}[op['how']]
        calls = [0]

        def before(*a):
            calls[0] += 1
            if calls[0] == op['at'] + 1:
                raise E('planned')
        seams.solvers.before = before
    try:
        j.fit(m, arrays(j, op))
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
    finally:
        seams.solvers.before = None
    out = observe(j, m)
    if err:
        out['raised'] = np.array([err])
    return out
