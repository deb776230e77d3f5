"""The UoI algorithm, executable, over a recorded history of solver runs: what
supports, estimates, scores and coefficients follow from what the solvers
returned. Independent of the code under test: it computes its own
standardization, thresholds, predictions and criteria."""
import collections

import numpy as np
from scipy.sparse import issparse

from .core import Violation
from . import workloads as W


def dense(A):
    return A.toarray() if issparse(A) else np.asarray(A)


class Unclear(Exception):
    """The history does not determine the model (equal splits, ...)."""


Call = collections.namedtuple('Call', 'phase rows cols mask reg coef icpt')


def scaled(Z, centre):
    """Standardized columns: (Z, mean, scale), constant columns unscaled."""
    mean = Z.mean(axis=0)
    scale = np.sqrt(((Z - mean) ** 2).mean(axis=0))
    scale[scale < 1e-12] = 1.0
    return (Z - mean if centre else Z) / scale, mean, scale


class Problem:
    """The data as the model sees it."""

    def __init__(self, c, X, y):
        self.c = c
        k = self.kind = c['kind']
        self.X0 = dense(X).astype(float)
        self.n, self.p = self.X0.shape
        self.lin = k in ('lasso', 'enet', 'pyc')
        self.X, self.mx, self.sx = self.X0, None, np.ones(self.p)
        self.sy = 1.0
        if k == 'logistic':
            self.classes = sorted(set(np.ravel(y).tolist()))
            self.y0 = np.array([self.classes.index(v)
                                for v in np.ravel(y).tolist()])
            self.K = len(self.classes) if len(self.classes) > 2 or \
                c['multi'] == 'multinomial' else 1
        else:
            self.y0 = np.ravel(y).astype(float)
            self.K = 1
        self.y = self.y0
        self.std = c['std']
        if self.std:
            self.X, self.mx, self.sx = scaled(self.X0, c['icpt'])
            if self.lin:
                z, _, s = scaled(self.y0[:, None], c['icpt'])
                self.y, self.sy = z[:, 0], s[0]
        self.ncoef = self.p * self.K
        self.thresholds = self._thresholds()

    def _thresholds(self):
        t = W.thresholds(self.c)
        B = self.c['B1']
        if isinstance(t, (int, float)):
            t = [t]
        return [int(x * B) if isinstance(x, (float, np.floating)) else int(x)
                for x in t]

    # ------------------------------------------------------ identification
    def locate(self, A):
        A = dense(A)
        if A.ndim != 2 or not A.size:
            return None
        near = np.abs(A[0][:, None, None] - self.X[None]) < 1e-9
        cols = []
        for j in range(A.shape[1]):
            hit = np.argwhere(near[j])
            if len(hit) != 1:
                return None
            cols.append(int(hit[0][1]))
        d = np.abs(A[:, None, 0] - self.X[None, :, cols[0]])
        rows = d.argmin(axis=1)
        if np.abs(A - self.X[rows][:, cols]).max() > 1e-8:
            return None
        return rows, tuple(cols)


class History:
    """Solver runs, as seen at the solver classes."""

    def __init__(self, prob):
        self.prob = prob
        self.calls = []           # (who, Call)
        self.unknown = 0

    def __call__(self, who, n, obj, A, y, kw):
        P = self.prob
        rc = P.locate(A)
        if rc is None:
            self.unknown += 1
            return
        rows, cols = rc
        want = P.y[rows]
        got = np.ravel(dense(y)).astype(float)
        if got.shape != want.shape or np.abs(got - want).max() > 1e-8:
            if got.shape == want.shape:
                # another unit is not this model's concern
                u = np.stack([want, np.ones(len(want))], 1)
                fit = u.dot(np.linalg.lstsq(u, got, rcond=None)[0])
                if np.abs(fit - got).max() < 1e-6 * (1 + np.abs(got).max()):
                    self.unknown += 1
                    return
            raise Violation('wrong-responses', 'a %s gets rows %s with '
                            'responses that are not theirs: %s, should be %s'
                            % (type(obj).__name__, rows.tolist(),
                               W._short(got), W._short(want)))
        if len(rows) != len(set(rows.tolist())):
            raise Violation('repeated-rows', 'a %s gets rows %s'
                            % (type(obj).__name__, sorted(rows.tolist())))
        mask = kw.get('coef_mask')
        mask = None if mask is None else \
            tuple(np.ravel(np.asarray(mask)).astype(int).tolist())
        name = type(obj).__name__
        reg = None
        if name == 'PycLasso':
            reg = tuple(float(a) for a in np.ravel(obj.alphas))
        elif name != 'LinearRegression':
            reg = tuple(float(getattr(obj, a)) for a in
                        ('C', 'alpha', 'l1_ratio') if hasattr(obj, a) and
                        isinstance(getattr(obj, a), (int, float, np.number)))
            if name == 'MaskedCoefLogisticRegression':
                reg = reg[:1]
        icpt = getattr(obj, 'intercept_', 0.0)
        self.calls.append((who, Call(
            name, tuple(sorted(rows.tolist())), cols, mask, reg,
            np.array(obj.coef_, float), np.array(icpt, float))))


def close(a, b):
    return len(a) == len(b) and bool(np.allclose(a, b, rtol=1e-9, atol=0.0))


def regularizations(prob, reg_params):
    """What a solver object shows of each of the model's parameters."""
    names = {'logistic': ('C',), 'lasso': ('alpha',), 'pyc': ('alpha',)}.get(
        prob.kind, ('alpha', 'l1_ratio'))
    return [tuple(float(d[a]) for a in names) for d in reg_params]


def parameter(prob, call, regs):
    """The parameter a solver run selected with, None for an estimation."""
    if call.phase == 'LinearRegression':
        return None
    reg = call.reg[:1] if prob.kind == 'lasso' else call.reg
    return next((i for i, r in enumerate(regs) if close(r, reg)), None)


class Reference:
    """Selection and estimation of a history, for the regularization
    parameters of the fitted model."""

    def __init__(self, prob, hist, reg_params):
        self.P = prob
        c = prob.c
        if hist.unknown:
            raise Unclear('solver calls on other data')
        self.R = len(reg_params)
        regs = regularizations(prob, reg_params)
        sel = {}
        self.est = {}
        full = tuple(range(prob.p))
        for who, k in hist.calls:
            if k.phase == 'PycLasso':
                if len(k.reg) != self.R or k.cols != full:
                    raise Unclear('partial path')
                order = [next((i for i, r in enumerate(regs)
                               if close(r, (a,))), None) for a in k.reg]
                if None in order:
                    raise Unclear('other parameters')
                co = k.coef.reshape(self.R, -1)
                for i, row in zip(order, co):
                    self._add(sel.setdefault(k.rows, {}), i, row)
                continue
            i = parameter(prob, k, regs)
            if i is not None:
                if k.cols != full:
                    raise Unclear('selection on some features')
                self._add(sel.setdefault(k.rows, {}), i, k.coef.ravel())
            else:
                if k.mask is not None:
                    s = k.mask
                else:
                    s = tuple(int(j in k.cols) for j in full)
                self._add(self.est.setdefault(k.rows, {}), s, k)
        if len(sel) != c['B1'] or any(len(v) != self.R for v in sel.values()):
            raise Unclear('selection')
        # boots x parameters x coefficients
        self.sel = np.array([[v[i] for i in range(self.R)]
                             for v in sel.values()])

    @staticmethod
    def _add(d, k, v):
        if k in d:
            raise Unclear('repeated fits')
        d[k] = v

    # ------------------------------------------------------------ supports
    def supports(self):
        P = self.P
        out = set()
        for t in P.thresholds:
            for r in range(self.R):
                nz = (self.sel[:, r] != 0).sum(axis=0)
                s = nz >= t
                if P.K > 1 and P.c['shared']:
                    s = s.reshape(P.K, P.p).any(axis=0)
                out.add(tuple(int(x) for x in s))
        return out

    # ----------------------------------------------------------- estimates
    def estimate(self, s, call):
        """The coefficients, all features, of an estimation solver run."""
        P = self.P
        full = np.zeros((P.K, P.p))
        if call.mask is not None:
            full[:] = call.coef.reshape(P.K, P.p)
        else:
            full[:, list(call.cols)] = call.coef.reshape(P.K, -1)
        return full

    def score(self, s, rows, call):
        """The criterion of a support on a bootstrap, higher is better."""
        P, c = self.P, self.P.c
        m = c['score']
        target = c['target'] or ('test' if m in ('r2', 'log', 'acc')
                                 else 'train')
        tr = list(rows)
        ev = tr if target == 'train' else \
            sorted(set(range(P.n)) - set(rows))
        y = P.y[ev]
        n = len(ev)
        if call is None:
            eta = None
        else:
            eta = P.X[ev].dot(self.estimate(s, call).T) + \
                np.ravel(call.icpt)[None]
        k = int(sum(s))
        yt = P.y[tr]
        if P.lin:
            mu = np.full(n, yt.mean()) if eta is None else eta[:, 0]
            rss = ((y - mu) ** 2).sum()
            if m == 'r2':
                return 1 - rss / ((y - y.mean()) ** 2).sum()
            if rss / n < 1e-15 * max(1.0, (y ** 2).mean()):
                return np.nan       # a perfect fit: only rounding errors
            ll = -n / 2.0 * (1 + np.log(rss / n))
        elif P.kind == 'poisson':
            if eta is None:
                mu, has = np.full(n, yt.mean()), np.log(yt.mean()) != 0
            else:
                mu, has = np.exp(eta[:, 0]), np.ravel(call.icpt)[0] != 0
            ll = (y * np.log(mu) - mu).mean()
            if m == 'log':
                return ll
            ll *= n
            k += int(has)
        else:
            if eta is None:
                pr = np.array([(yt == q).mean() for q in range(max(2, P.K))])
                pr = np.tile(pr, (n, 1))
                if P.K == 1:        # a tie goes to the second class
                    pred = np.full(n, int(pr[0, 1] >= 0.5))
                else:
                    pred = pr.argmax(axis=1)
            else:
                e = np.concatenate([np.zeros_like(eta), eta], axis=1) \
                    if P.K == 1 else eta
                e = e - e.max(axis=1, keepdims=True)
                pr = np.exp(e)
                pr /= pr.sum(axis=1, keepdims=True)
                pred = (eta[:, 0] > 0).astype(int) if P.K == 1 else \
                    eta.argmax(axis=1)
            if m == 'acc':
                return (pred == y).mean()
            own = pr[np.arange(n), y.astype(int)]
            if own.min() < 1e-12:
                return np.nan       # how certainty is limited is open
            ll = np.log(own).mean()
            if m == 'log':
                return ll
            ll *= n
        if m == 'BIC':
            return -(k * np.log(n) - 2 * ll)
        aic = 2 * k - 2 * ll
        if m == 'AICc' and n > k + 1:
            aic += 2.0 * (k * k + k) / (n - k - 1)
        return -aic


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def same_scores(a, q):
    """Undefined criteria (perfect fits, certain predictions) are open."""
    known = np.isfinite(q)
    return near(np.asarray(a)[known], q[known])


def check(prob, hist, st, reg_params, what=''):
    """The fitted state against the history. Returns what was decided."""
    P, c = prob, prob.c
    done = set()
    sup = [tuple(int(x) for x in np.ravel(s)) for s in st['supports_']]
    if len(set(sup)) != len(sup):
        raise Violation('repeated-support', '%ssupports %s' % (what, sup))
    ref = Reference(P, hist, reg_params)
    want = ref.supports()
    if set(sup) != want:
        raise Violation('supports', '%ssupports %s; from the selection: %s'
                        % (what, sorted(sup), sorted(want)))
    done.add('supports')
    S = len(sup)
    if int(st['n_supports_']) != S:
        raise Violation('supports', '%sn_supports_ is %s of %d'
                        % (what, st['n_supports_'], S))
    est = st['estimates_']
    if est.shape != (c['B2'], S, P.ncoef) or \
            st['scores_'].shape != (c['B2'], S):
        raise Violation('shape', '%sestimates %s, scores %s'
                        % (what, est.shape, st['scores_'].shape))
    some = [s for s in sup if any(s)]
    if some:
        if len(ref.est) != c['B2'] or \
                any(set(v) != set(some) for v in ref.est.values()):
            raise Unclear('estimation')
        groups = []
        for rows, v in ref.est.items():
            E = np.array([ref.estimate(s, v[s]).ravel() if any(s) else
                          np.zeros(P.ncoef) for s in sup])
            with np.errstate(all='ignore'):
                Q = np.array([ref.score(s, rows, v.get(s)) for s in sup])
            groups.append((rows, E, Q))
        left = list(range(len(groups)))
        for b in range(c['B2']):
            fits = [g for g in left if near(est[b], groups[g][1])]
            if not fits:
                g = min(left, key=lambda g: np.abs(est[b] -
                                                   groups[g][1]).max())
                s = int(np.abs(est[b] - groups[g][1]).max(axis=1).argmax())
                raise Violation('estimate', '%sestimate %d of support %s is '
                                '%s; the solver returned %s'
                                % (what, b, sup[s], W._short(est[b][s]),
                                   W._short(groups[g][1][s])))
            ok = [g for g in fits
                  if same_scores(st['scores_'][b], groups[g][2])]
            if not ok:
                Q = groups[fits[0]][2]
                raise Violation('score', '%s%s scores of bootstrap %d are '
                                '%s, should be %s'
                                % (what, c['score'], b,
                                   W._short(st['scores_'][b]), W._short(Q)))
            left.remove(ok[0])
        done.add('estimates')
    elif est.any():
        raise Violation('estimate', '%sno support has features, but the '
                        'estimates are %s' % (what, W._short(est)))
    # nan is not a score: such a support is not the best
    known = [[v if v == v else -np.inf for v in r]
             for r in st['scores_'].tolist()]
    best = np.array([r.index(max(r)) for r in known])
    if not np.array_equal(np.ravel(st['rp_max_idx_']), best):
        raise Violation('best', '%sbest supports %s for scores %s'
                        % (what, st['rp_max_idx_'], W._short(st['scores_'])))
    # median of the best estimates
    rows = np.array([est[b, best[b]] for b in range(c['B2'])])
    h = np.sort(rows, axis=0)
    n = len(h)
    med = (h[(n - 1) // 2] + h[n // 2]) / 2.0
    med = med.reshape(P.K, P.p) / P.sx * P.sy
    if not near(np.ravel(st['coef_']), med.ravel()):
        raise Violation('coefficients', '%scoefficients %s; the median of '
                        'the best estimates is %s'
                        % (what, W._short(st['coef_']), W._short(med)))
    done.add('coefficients')
    intercept(P, st, med, what)
    return done


def intercept(P, st, med, what):
    c = P.c
    b = np.ravel(st['intercept_'])
    if not c['icpt']:
        if b.any():
            raise Violation('intercept', '%sintercept %s without '
                            'fit_intercept' % (what, b))
        return
    eta = P.X0.dot(med.T) + b[None]
    if P.lin:
        want = P.y0.mean() - P.X0.mean(axis=0).dot(med[0])
        if not near(b, [want]):
            raise Violation('intercept', '%sintercept %s, should be %s'
                            % (what, b, want))
    elif P.kind == 'poisson':
        if np.abs(eta).max() < 200 and not near(np.exp(eta).mean(),
                                                P.y0.mean(), 1e-5):
            raise Violation('intercept', '%sintercept %s gives a mean of %s, '
                            'the data %s' % (what, b, np.exp(eta).mean(),
                                             P.y0.mean()))
    elif np.abs(eta).max() < 8:
        # at the optimum every class is as frequent as predicted
        e = eta if P.K > 1 else np.concatenate([0 * eta, eta], axis=1)
        pr = np.exp(e - e.max(axis=1, keepdims=True))
        pr /= pr.sum(axis=1, keepdims=True)
        f = np.array([(P.y0 == q).mean() for q in range(pr.shape[1])])
        if np.abs(pr.mean(axis=0) - f).max() > 5e-3:
            raise Violation('intercept', '%sintercept %s predicts classes '
                            '%s of the time, the data %s'
                            % (what, b, pr.mean(axis=0), f))
