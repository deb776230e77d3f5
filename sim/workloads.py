"""Cases: models, their parameters and data, drawn from the 'case' stream; and
what of a fitted model a user can see."""
import numpy as np

from .core import Violation


# --------------------------------------------------------------------- data

def data(kind, seed, n, p, signal=1.0, classes=2):
    """Continuous features, so that every row and value is unique."""
    r = np.random.RandomState(seed)
    X = r.normal(0.5, 1.0, size=(n, p)) * r.uniform(0.5, 2.0, size=p)
    beta = np.where(r.rand(p) < 0.6, r.normal(0, 2.0, size=p), 0.0) * signal
    if kind == 'poisson':
        Xs = X / X.std(axis=0) / 4
        y = r.poisson(np.exp(0.7 + Xs.dot(np.clip(beta, -1.5, 1.5))))
        y = y.astype(float)
    elif kind == 'logistic':
        if classes == 2:
            pr = 1 / (1 + np.exp(-(X - X.mean(0)).dot(beta)))
            y = (r.rand(n) < 0.15 + 0.7 * pr).astype(int)
        else:
            W = r.normal(size=(p, classes)) * (r.rand(p, 1) < 0.7) * signal
            z = (X - X.mean(0)).dot(W) + r.gumbel(size=(n, classes))
            y = z.argmax(axis=1)
        # every class often enough for any split to contain it
        for c in range(classes):
            y[c * 4:(c + 1) * 4] = c
        q = r.permutation(n)
        X, y = X[q], y[q]
    else:
        y = X.dot(beta) + r.normal(0, 0.7, size=n)
    return X, y


KINDS = ('lasso', 'enet', 'logistic', 'poisson', 'pyc')


def fit_case(ch, kinds=KINDS, max_p=5, max_n=36, scale=0.06, dress=0.0):
    """A model and its data. Zero draws give a plain Lasso. dress: how often
    the data are of another type."""
    d = 'case'
    c = {}
    c['kind'] = ch.pick(d, list(kinds))
    k = c['kind']
    c['p'] = 1 if ch.flip(d, 0.03) else 2 + ch.draw(d, max_p - 1)
    c['n'] = (24 if k in ('logistic', 'poisson') else 18) + \
        ch.draw(d, max_n - 23)
    c['data'] = ch.draw(d, 100000)
    c['signal'] = ch.pick(d, [1.0, 0.15, 3.0])
    c['B1'] = ch.pick(d, [2, 1, 3, 4, 5])
    c['B2'] = ch.pick(d, [2, 1, 3, 4])
    c['reg'] = ch.pick(d, [3, 2, 4, 5, 1])
    c['f1'] = ch.pick(d, [0.8, 0.6, 0.9])
    c['f2'] = ch.pick(d, [0.8, 0.6, 0.75])
    c['stab'] = ch.pick(d, [1.0, 0.5, 'list', 1, 'farray', 'iarray', 'flist'])
    c['icpt'] = not ch.flip(d, 0.25)
    c['std'] = not ch.flip(d, 0.3)
    c['warm'] = not ch.flip(d, 0.4)
    c['target'] = ch.pick(d, [None, 'train', 'test'])
    if k in ('lasso', 'enet', 'pyc'):
        c['score'] = ch.pick(d, ['r2', 'AIC', 'BIC', 'AICc'])
    elif k == 'logistic':
        c['score'] = ch.pick(d, ['acc', 'log', 'BIC', 'AIC', 'AICc'])
        c['classes'] = ch.pick(d, [2, 3])
        c['shared'] = not ch.flip(d, 0.35)
        c['multi'] = ch.pick(d, ['auto', 'multinomial'])
    else:
        c['score'] = ch.pick(d, ['log', 'BIC', 'AIC', 'AICc'])
    if k in ('enet', 'poisson'):
        c['alphas'] = ch.pick(d, [[0.5], [1.0], [0.3, 0.9]])
        c['reg'] = min(c['reg'], 3)
    if k == 'pyc':
        c['icpt'] = True
    if k == 'pyc':
        c['reg'] = max(c['reg'], 3)     # pycasso reads two lambdas as a range
    if k == 'logistic':
        c['n'] = max(c['n'], 10 * c['classes'])
        # splits without a class have no fit
        c['strat'] = True
        c['B1'] = min(c['B1'], 3)
    else:
        c['strat'] = ch.flip(d, 0.15)
    if k == 'poisson':
        c['solver'] = ch.pick(d, ['lbfgs', 'cd'])
        if c['solver'] == 'cd':
            c['warm'] = False
            c['B1'] = min(c['B1'], 2)
            c['B2'] = min(c['B2'], 2)
            c['reg'] = min(c['reg'], 2)
    c['seed'] = ch.draw(d, 10000)
    if ch.flip(d, scale):
        rescale(ch, c)
    if dress and ch.flip(d, dress):
        redress(ch, c)
    return c


def redress(ch, c):
    """The same data as users may hold them."""
    d, k = 'case', c['kind']
    ways = ['f4', 'int', 'F', 'list-strat']
    if k in ('lasso', 'enet'):
        ways += ['col', 'csr', 'csc', 'coo', 'y-int']
    if k == 'logistic':
        ways += ['text', 'odd', 'float', 'bool', 'csr', 'csc']
    if k == 'poisson':
        ways += ['y-int']
    way = c['dress'] = ch.pick(d, ways)
    if way == 'bool' and c['classes'] > 2:
        c['dress'] = 'odd'
    if way in ('csr', 'csc', 'coo') and c['std'] and c['icpt']:
        # (they are not centered)
        c['std' if ch.flip(d, 0.5) else 'icpt'] = False


def dressed(c, X, y, strat):
    way = c.get('dress')
    if way == 'f4':
        X = X.astype(np.float32)
    elif way == 'int':
        X = np.round(20 * X).astype(int)
    elif way == 'F':
        X = np.asfortranarray(X)
    elif way == 'col':
        y = y[:, np.newaxis]
    elif way in ('csr', 'csc', 'coo'):
        import scipy.sparse as sp
        X = np.where(np.abs(X) < 0.5, 0.0, X)
        X[0] = 0.75             # (no column is empty)
        X = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix,
             'coo': sp.coo_matrix}[way](X)
    elif way == 'y-int':
        y = np.round(y).astype(int)
    elif way == 'text':
        y = np.array(['w', 'b', 'aa'])[y]
    elif way == 'odd':
        y = np.array([7, -2, 30])[y]
    elif way == 'float':
        y = np.array([2.5, -1.0, 0.0])[y]
    elif way == 'bool':
        y = y.astype(bool)
    if strat is not None and way == 'list-strat':
        strat = strat.astype(float)
    return X, y, strat


def columns_scaled(X, f):
    """X with its columns times f."""
    if hasattr(X, 'multiply'):
        return X.multiply(f[np.newaxis]).asformat(X.format)
    return X * f


def rows(X, k):
    """The first k."""
    return X.tocsr()[:k] if hasattr(X, 'tocsr') else X[:k]


def rescale(ch, c):
    """Now and then much more of something: features, rows or bootstraps."""
    d, k = 'case', c['kind']
    slow = k in ('logistic', 'poisson')
    what = c['scale'] = ch.pick(d, ['wide', 'tall', 'many', 'flat'])
    if what == 'wide':
        c['p'] = 8 + ch.draw(d, 8 if slow else 40)
        if not slow and ch.flip(d, 0.3):
            c['p'] = 260 + ch.draw(d, 60)
    elif what == 'tall':
        c['n'] = 60 + ch.draw(d, 200)
    elif what == 'many':
        if c.get('solver') == 'cd' and k == 'poisson':
            return
        c['B1'] = 6 + ch.draw(d, 7)
        c['B2'] = 6 + ch.draw(d, 7)
        if not slow:
            c['reg'] = 6 + ch.draw(d, 8)
    else:
        # a feature that does not vary, one that is repeated
        c['flat'] = ch.pick(d, ['constant', 'repeated', 'both'])
        c['p'] = max(c['p'], 3)      # some feature must vary


def case_data(c):
    k = {'poisson': 'poisson', 'logistic': 'logistic'}.get(c['kind'], 'lin')
    X, y = data(k, c['data'], c['n'], c['p'], c['signal'],
                c.get('classes', 2))
    if c.get('flat') in ('constant', 'both'):
        X[:, 0] = 2.0
    if c.get('flat') in ('repeated', 'both') and c['p'] > 1:
        X[:, -1] = X[:, -2]
    strat = None
    if c['strat']:
        strat = y.copy() if c['kind'] == 'logistic' else \
            (np.arange(c['n']) % 2) + 1
    return dressed(c, X, y, strat)


def n_reg_params(c):
    return c['reg'] * (len(c['alphas']) if c['kind'] in ('enet', 'poisson')
                       else 1)


def thresholds(c):
    B = c['B1']
    s = c['stab']
    if s == 'list':
        return sorted({max(1, B // 2), B})
    if s == 'flist':
        return [1.0, max(0.7, 1.0 / B)]
    if s == 'farray':
        return np.array([1.0, max(0.5, 1.0 / B)])
    if s == 'iarray':
        return np.array([1, B])
    if isinstance(s, float) and int(s * B) < 1:
        return 1.0
    return s


def make(c, comm=None, random_state='seed', logger=None):
    from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet,
                                    UoI_L1Logistic, UoI_Poisson)
    kw = dict(n_boots_sel=c['B1'], n_boots_est=c['B2'],
              selection_frac=c['f1'], estimation_frac=c['f2'],
              stability_selection=thresholds(c),
              estimation_score=c['score'], estimation_target=c['target'],
              fit_intercept=c['icpt'], standardize=c['std'],
              random_state=c['seed'] if isinstance(random_state, str)
              else random_state, comm=comm, logger=logger)
    k = c['kind']
    limit = dict(max_iter={'logistic': 60, 'poisson': 100}.get(k, 1000))
    if c.get('tight'):
        limit = dict(max_iter=20000, tol=1e-9 if k in ('lasso', 'enet')
                     else 1e-6)
    if k in ('lasso', 'pyc'):
        kw.update(limit)
        return UoI_Lasso(n_lambdas=c['reg'], warm_start=c['warm'],
                         solver='pyc' if k == 'pyc' else 'cd', **kw)
    if k == 'enet':
        kw.update(limit)
        return UoI_ElasticNet(n_lambdas=c['reg'],
                              alphas=np.array(c['alphas']),
                              warm_start=c['warm'], **kw)
    if k == 'logistic':
        return UoI_L1Logistic(n_C=c['reg'], warm_start=c['warm'],
                              multi_class=c['multi'],
                              shared_support=c['shared'], eps=1e-2,
                              **limit, **kw)
    return UoI_Poisson(n_lambdas=c['reg'], alphas=np.array(c['alphas']),
                       warm_start=c['warm'], solver=c['solver'],
                       **limit, **kw)


# -------------------------------------------------------------------- state

ATTRS = ('coef_', 'intercept_', 'supports_', 'n_supports_', 'estimates_',
         'scores_', 'rp_max_idx_', 'classes_')


def state(m, attrs=ATTRS):
    """The fitted model as its user sees it, copied."""
    out = {}
    for a in attrs:
        if hasattr(m, a):
            v = getattr(m, a)
            out[a] = None if v is None else np.array(v)
    rp = getattr(m, 'reg_params_', None)
    if rp is not None:
        out['reg_params_'] = np.array([[float(d[k]) for k in sorted(d)]
                                       for d in rp])
    return out


def differ(a, b, rtol=1e-6, atol=1e-8, what=''):
    """The first difference between two states, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return '%s%s is missing on one side' % (what, k)
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return '%s%s: %r and %r' % (what, k, x, y)
        if x is None:
            continue
        if x.shape != y.shape:
            return '%s%s: shapes %s and %s' % (what, k, x.shape, y.shape)
        if (x.dtype.kind == 'b') != (y.dtype.kind == 'b'):
            # a mask and numbers index differently
            return '%s%s: %s and %s' % (what, k, x.dtype, y.dtype)
        if x.dtype.kind in 'biuSUO' or y.dtype.kind in 'biuSUO':
            same = np.array_equal(x, y)
        else:
            same = np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        if not same:
            return '%s%s: %s and %s' % (what, k, _short(x), _short(y))
    return None


def _short(x):
    return np.array2string(np.asarray(x), precision=6, threshold=24,
                           max_line_width=200).replace('\n', ' ')


def must_equal(a, b, cls, what='', **k):
    d = differ(a, b, what=what, **k)
    if d:
        raise Violation(cls, d)


def flat(st):
    """A state as plain numbers, for comparison across processes."""
    out = []
    for k in sorted(st):
        v = st[k]
        if v is None:
            out.append(k)
        elif v.dtype.kind in 'biufc':
            out.append([k, list(v.shape),
                        [float(z) for z in np.ravel(v.astype(float))]])
        else:
            out.append([k, list(v.shape), [str(z) for z in v.ravel()]])
    return out


def serial(c, X, y, strat, **k):
    """Reference: the same model without a communicator. (state, error)"""
    try:
        m = make(c, **k)
        m.fit(X.copy(), y.copy(), stratify=strat)
    except Exception as e:      # the case has no result, also not serially
        return None, e
    return state(m), None
