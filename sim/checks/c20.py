"""C20: a fitted model is what its solver runs imply."""
import hashlib

import numpy as np
import scipy.sparse as sp

from sim import dist, mpi, reference, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 4000, 200000
REAL, STUB = dist.REAL, dist.STUB + [
    'in a third of the runs, what the solvers return: arbitrary coefficients '
    'derived from the seed and their input']
RULE = ('A run draws a model (sparse or dense data, class labels of several '
        'kinds, a constant response), fits it serially or on 2-8 simulated '
        'ranks, and records every solver run: rows, features, parameters, '
        'coefficients. A reference implementation of the algorithm computes '
        'from that history the supports, estimates, scores, choices, '
        'coefficients and intercept. Non-trivial: estimates were compared.')
ASSUMPTIONS = ['histories in which two bootstraps drew the same rows, or a '
               'score is not finite, do not determine the model and are '
               'skipped after the support check',
               'the intercept of a logistic model is not checked where a '
               'class is predicted almost surely']
PROBES = ('integers', 'units', 'hundreds', 'holes', 'rare-class', 'distributed', 'arbitrary-solver', 'sparse', 'labels', 'constant',
          'empty-support', 'unshared', 'history-unclear', 'column', 'several-supports')


def arbitrary(seed, prob):
    """Solver results of an adversary: zeros, negative zeros, tiny and large
    numbers, many ties. A function of the solver's input."""
    def after(who, n, obj, A, y, kw):
        rc = prob.locate(A)
        if rc is None:
            return
        key = (seed, rc[0].tolist(), rc[1],
               [repr(float(getattr(obj, a))) for a in ('C', 'alpha')
                if isinstance(getattr(obj, a, None), (int, float))])
        h = hashlib.sha256(repr(key).encode()).digest()
        r = np.random.RandomState(np.frombuffer(h[:16], np.uint32))
        shape = np.shape(obj.coef_)
        v = np.where(r.rand(*shape) < r.choice([0.2, 0.5, 0.9]),
                     r.normal(size=shape) * 0.5, 0.0)
        q = r.rand(*shape)
        v[q < 0.1] = -0.0
        v[(q >= 0.1) & (q < 0.15)] = 1e-12
        v[(q >= 0.15) & (q < 0.2)] = -1e-12
        m = kw.get('coef_mask')
        if m is not None:
            v = v * (np.reshape(np.asarray(m), shape) != 0)
        obj.coef_ = v
        b = getattr(obj, 'intercept_', None)
        if isinstance(b, (float, np.ndarray)) and obj.fit_intercept:
            z = r.normal(size=np.shape(b)) * 0.3
            obj.intercept_ = z if isinstance(b, np.ndarray) else float(z)
    return after


class Starts:
    """No solver starts from another bootstrap's solution."""

    def __init__(self, prob):
        self.prob, self.last, self.keep = prob, {}, []

    def __call__(self, who, n, obj, A, y, kw):
        if not getattr(obj, 'warm_start', False):
            return
        rc = self.prob.locate(A)
        if rc is None:
            return
        rows = frozenset(rc[0].tolist())
        names = ['coef_']
        if type(obj).__name__ == 'Poisson' and obj.fit_intercept:
            names.append('intercept_')
        for a in names:
            v = getattr(obj, a, None)
            if v is None or not np.any(v) or not np.all(np.isfinite(v)):
                continue
            of = self.last.get((id(obj), a))
            if of is not None and of != rows:
                raise Violation('start', '%s: a %s of one bootstrap starts '
                                'with %s %s of another' % (
                                    who, type(obj).__name__, a, W._short(v)))
        for a in ('coef_', 'intercept_'):
            self.last[id(obj), a] = rows
        self.keep.append(obj)


LABELS = [None, None, [0, 1, 2], [5, 7, 9], ['b', 'a', 'c'], [2, 1, 3],
          [-1, 1, 0], [1.5, 0.5, 2.5]]


def scenario(ch, run):
    seams.reset(ch, run)
    c = W.fit_case(ch)
    if c['kind'] == 'lasso' and ch.flip('case', 0.02):
        # more than fit into a byte
        c['B1'], c['B2'], c['reg'] = 130 + ch.draw('case', 200), 2, 3
        c['p'], c['stab'] = min(c['p'], 5), ch.pick('case', [1.0, 0.5, 1])
        run.probe('hundreds')
    size = dist.sizes(ch, c) if ch.flip('case', 0.4) else 1
    adv = ch.flip('case', 0.35)
    lab = ch.pick('case', LABELS) if c['kind'] == 'logistic' else None
    fmt = None
    if c['kind'] in ('lasso', 'enet', 'logistic') and ch.flip('case', 0.25):
        fmt = ch.pick('case', ['csr', 'csc', 'coo'])
        if c['std']:
            c['icpt'] = False
    const = c['kind'] != 'pyc' and c.get('solver') != 'cd' and \
        ch.flip('case', 0.03)
    rare = c['kind'] == 'logistic' and c['classes'] == 2 and \
        ch.flip('case', 0.2)
    if rare:
        c['n'] = max(c['n'], 60)
    holes = fmt is not None and ch.flip('case', 0.25)
    far = c['std'] and not holes and ch.flip('case', 0.15)
    X, y, strat = W.case_data(c)
    if rare:
        y[np.flatnonzero(y == 1)[4:]] = 0
        strat = y.copy()
        run.probe('rare-class')
    if holes:
        X = np.where(np.abs(X) < 0.5, 0.0, X)
        X[0] = 0.75
    if far:
        # features in all kinds of units
        X = X * 10.0 ** np.array([ch.draw('case', 13) - 7
                                  for _ in range(X.shape[1])])
        run.probe('units')
    if lab is not None:
        y = np.array(lab)[y]
    const = const and not holes
    if const:
        v = ch.pick('case', [0, 1, 2])
        y = np.full(len(y), y[0] if c['kind'] == 'logistic' else
                    [3.5, 0.0, -2.0][v] if c['kind'] != 'poisson' else
                    [0.0, 1.0, 3.0][v])
    if fmt is None and not far and ch.flip('case', 0.1) and (
            c['std'] or c['kind'] not in ('poisson', 'logistic')):
        X = np.round(X * 1e6).astype(int)
        run.probe('integers')
    yy = y
    if c['kind'] in ('lasso', 'enet', 'pyc') and ch.flip('case', 0.1):
        yy = y[:, None]
        run.probe('column')
    run.case = dict(c, size=size, adversary=adv, labels=lab, sparse=fmt,
                    const=const)
    if const or c['kind'] == 'poisson' and c['solver'] == 'cd':
        adv = False      # its update divides by its own weights
    prob = reference.Problem(c, X, y)
    hist = reference.History(prob)
    adversary = arbitrary(ch.draw('case', 1 << 30), prob) if adv else None

    def after(*a):
        if adversary is not None:
            adversary(*a)
        hist(*a)

    def fit(comm):
        m = W.make(c, comm=comm)
        XX = X.copy() if fmt is None else getattr(sp, fmt + '_matrix')(X)
        m.fit(XX, yy.copy(), stratify=None if strat is None else strat.copy())
        more = m.predict_proba(X) if c['kind'] == 'logistic' else \
            m.predict_mean(X) if c['kind'] == 'poisson' else None
        return m, W.state(m), (m.predict(X), more)
    if not holes:
        seams.solvers.after = after
        seams.solvers.before = Starts(prob)
    try:
        if size == 1:
            try:
                outs = [fit(None)]
            except Violation:
                raise
            except Exception as e:
                if fmt is not None:
                    try:        # is it the data?
                        seams.solvers.reset(run)
                        seams.solvers.after = adversary
                        W.make(c).fit(X.copy(), y.copy(), stratify=strat)
                    except Exception:
                        pass
                    else:
                        raise Violation('sparse-fails', repr(e))
                raise Violation('fit-raises', '%s: %s' % (type(e).__name__, e))
        else:
            w = mpi.World(ch, run, size)
            dist.plan_stalls(ch, w, 40)
            got = w.launch(fit)
            for o in got:
                if isinstance(o.error, Violation):
                    raise o.error
            for o in got:
                if o.state != 'ok':
                    raise Violation('fit-raises', 'rank %d: %s %r' % (
                        got.index(o), o.state, o.error))
            outs = [o.value for o in got]
            run.probe('distributed')
    finally:
        seams.solvers.reset(run)
    what = [''] if size == 1 else ['rank %d of %d: ' % (r, size)
                                   for r in range(size)]
    if const:
        for (m, st, pred), w_ in zip(outs, what):
            constant(c, y, st, pred, w_)
        run.probe('constant')
        run.nontrivial = True
        return
    if holes:
        # (rows are not told apart)
        for (m, st, pred), w_ in zip(outs, what):
            reference.intercept(prob, st, np.reshape(
                st['coef_'], (prob.K, prob.p)), w_)
            linear_predictions(prob, st, pred, w_)
        run.probe('holes')
        return
    for (m, st, pred), w_ in zip(outs, what):
        try:
            done = reference.check(prob, hist, st, m.reg_params_, w_)
        except reference.Unclear as e:
            run.probe('history-unclear')
            return
        linear_predictions(prob, st, pred, w_)
    run.nontrivial = 'estimates' in done
    if adv:
        run.probe('arbitrary-solver')
    if fmt is not None:
        run.probe('sparse')
    if lab is not None:
        run.probe('labels')
    sup = outs[0][1]['supports_']
    if not sup.reshape(len(sup), -1).any(axis=1).all():
        run.probe('empty-support')
    if len(sup) > 1:
        run.probe('several-supports')
    if c['kind'] == 'logistic' and not c['shared'] and prob.K > 1:
        run.probe('unshared')


def linear_predictions(P, st, pred, what):
    """What predict() returns follows from the fitted attributes."""
    eta = P.X0.dot(np.reshape(st['coef_'], (P.K, P.p)).T) + \
        np.ravel(st['intercept_'])[None]
    pred, more = pred
    if P.lin:
        want = eta[:, 0]
        ok = np.shape(pred) == want.shape and np.allclose(pred, want)
    elif P.kind == 'poisson':
        mu = np.exp(eta[:, 0])
        edge = np.abs(mu - np.round(mu)) < 1e-6 * (1 + mu)
        want = np.floor(mu)
        ok = np.shape(pred) == want.shape and \
            (edge | np.isclose(pred, want)).all()
    else:
        i = (eta[:, 0] > 0).astype(int) if P.K == 1 else eta.argmax(axis=1)
        want = [P.classes[j] for j in i]
        ok = list(np.ravel(pred)) == want and np.shape(pred) == (P.n,)
    if not ok:
        raise Violation('prediction', '%spredict gives %s, the coefficients '
                        'and intercept %s' % (what, W._short(pred),
                                              W._short(np.array(want))))
    if more is None:
        return
    if P.kind == 'poisson':
        want = np.exp(eta[:, 0])
    elif P.K == 1:
        want = 1 / (1 + np.exp(-eta[:, 0]))
        want = np.stack([1 - want, want], axis=1)
    else:
        want = np.exp(eta - eta.max(axis=1)[:, None])
        want /= want.sum(axis=1)[:, None]
    if np.shape(more) != want.shape or not np.allclose(more, want):
        raise Violation('prediction', '%sthe predicted %s are %s, by the '
                        'coefficients and intercept %s' % (
                            what, 'means' if P.kind == 'poisson' else
                            'probabilities', W._short(more), W._short(want)))


def constant(c, y, st, pred, what):
    if np.ravel(st['coef_']).any():
        raise Violation('coefficients', '%scoefficients %s for a constant '
                        'response' % (what, W._short(st['coef_'])))
    pred, more = pred
    if c['kind'] == 'logistic':
        ok = list(np.ravel(pred)) == list(y) and np.shape(more)[0] == len(y) \
            and np.isclose(np.sum(more, axis=1), 1).all() and \
            (not c['icpt'] or (more[:, 0] > 0.7).all())
        if not ok:
            raise Violation('prediction', '%spredict gives %s with '
                            'probabilities %s for the one class %s' % (
                                what, W._short(pred), W._short(more), y[0]))
        return
    if c['kind'] == 'poisson':
        want = np.array(y) if c['icpt'] else np.ones_like(y)
        pred = more
    else:
        want = y if c['icpt'] else np.zeros_like(y)
    if np.shape(pred) != y.shape or not np.allclose(pred, want, atol=1e-5):
        raise Violation('prediction', '%s%s for the constant response %s' % (
            what, W._short(pred), y[0]))
