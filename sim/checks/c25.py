"""C25: a solver that was fitted before finds the minimum as a new one does."""
import numpy as np

from sim import env, sched, seams
from sim import workloads as W
from sim.core import Violation

QUICK, THOROUGH = 10000, 120000
REAL = ['pyuoi: Poisson, MaskedCoefLogisticRegression, the minimizer',
        'scikit-learn, scipy, numpy']
STUB = ['where exceptions strike: line monitor sim/sched.py',
        'the allocator under the extension: sim/simalloc.c',
        'entropy, clocks, uninitialised memory: sim/seams.py']
RULE = ('A run draws a component solver of the package and a history of its '
        'fits: one object, other penalties, data, masks, weights, labels, '
        'iteration limits, warm starts on or off; in between, fits that are '
        'interrupted at a drawn line, stop at an iteration limit, or fail '
        'to allocate, and predictions. After every fit that could converge, '
        'the coefficients and the intercept fulfil the optimality '
        'conditions of the objective, computed from data and parameters '
        'alone; what earlier fits returned is what it was; predictions are '
        'those of the coefficients. Non-trivial: a fit after another.')
ASSUMPTIONS = ['no separable classes, moderate coefficients; tolerance of '
               'the solvers 1e-6 or smaller, of the check 1e-3']
PROBES = ('poisson-lbfgs', 'poisson-cd', 'log-l1', 'log-l2', 'multinomial',
          'warm', 'cold', 'standardized', 'no-intercept', 'masked',
          'weighted', 'class-weights', 'interrupted', 'short', 'alloc',
          'zero-solution', 'zero-then-not', 'text-labels', 'fit',
          'constant-response')


class Oops(Exception):
    pass


def scaled(c, X, coef, icpt):
    """The data and the solution where the penalty applies."""
    X = np.asarray(X, float)
    if not c['std']:
        return X, coef, icpt
    mu, sd = X.mean(0), X.std(0)
    sd = np.where(sd > 0, sd, 1.0)
    if not c['icpt']:
        mu = np.zeros_like(mu)      # (nothing could take up a shift)
    b = coef * sd
    return (X - mu) / sd, b, icpt + (coef * mu).sum(-1)


def subgradient(g, b, l1):
    """The smallest, per coordinate."""
    s = np.where(b != 0, g + np.sign(b) * l1,
                 np.sign(g) * np.maximum(np.abs(g) - l1, 0))
    return np.abs(s)


def poisson_gap(c, o, X, y, coef, icpt):
    X, b, a = scaled(c, X, coef, icpt)
    w = np.ones(len(y)) if o['w'] is None else o['w']
    mu = np.exp(a + X.dot(b))
    r = w * (mu - y)
    g = X.T.dot(r) / len(y) + o['pen'] * (1 - o['l1']) * b
    gap = subgradient(g, b, o['pen'] * o['l1'])
    if c['icpt']:
        gap = np.append(gap, abs(r.mean()))
    elif np.any(icpt != 0):
        return np.inf
    return gap.max()


def log_gap(c, o, X, y, coef, icpt):
    X, b, a = scaled(c, X, coef, icpt)
    lab, yi = np.unique(y, return_inverse=True)
    n = len(y)
    w = np.ones(n) if o['w'] is None else o['w'].copy()
    if c['cw'] == 'balanced':
        w = w * (n / (len(lab) * np.bincount(yi)))[yi]
    elif c['cw'] == 'dict':
        w = w * np.array([1.0 + k for k in range(len(lab))])[yi]
    z = X.dot(b.T) + a
    if b.shape[0] == 1:
        d = (1 / (1 + np.exp(-z[:, 0])) - yi)[:, None]
    else:
        z = z - z.max(1, keepdims=True)
        d = np.exp(z)
        d = d / d.sum(1, keepdims=True) - np.eye(len(lab))[yi]
    d = d * w[:, None]
    g = d.T.dot(X) / n
    if c['penalty'] == 'l2':
        gap = np.abs(g + b / o['pen'])
    else:
        gap = subgradient(g, b, 1 / o['pen'])
    if o['mask'] is not None:
        m = np.asarray(o['mask']).reshape(b.shape).astype(bool)
        if np.any(b[~m] != 0):
            return np.inf
        gap = gap[m]
    gap = np.ravel(gap)
    if c['icpt']:
        gap = np.append(gap, np.abs(d.mean(0)))
    elif np.any(icpt != 0):
        return np.inf
    return gap.max() if gap.size else 0.0


def predictions(c, m, X, y, coef, icpt, what):
    """They are those of the coefficients."""
    z = X.dot(coef.T) + icpt
    if c['kind'] == 'poisson':
        got = m.predict_mean(X)
        want = np.exp(z)
        if not np.allclose(got, want, rtol=1e-9):
            raise Violation('predictions', '%s: means %s, not %s'
                            % (what, got[:4], want[:4]))
        if not np.array_equal(m.predict(X), np.floor(want)):
            near = np.abs(want - np.round(want)) < 1e-9
            if not np.array_equal(m.predict(X)[~near],
                                  np.floor(want)[~near]):
                raise Violation('predictions', '%s: not the modes' % what)
        return
    lab = np.unique(y)
    got = m.predict(X)
    k = (z[:, 0] > 0).astype(int) if z.shape[1] == 1 else z.argmax(1)
    sure = np.abs(z[:, 0]) > 1e-9 if z.shape[1] == 1 else \
        np.diff(np.sort(z, 1)[:, -2:], axis=1)[:, 0] > 1e-9
    if not np.array_equal(np.asarray(got)[sure], lab[k][sure]):
        raise Violation('predictions', '%s: %s, not %s'
                        % (what, got[:6], lab[k][:6]))


def draw(ch):
    d = 'case'
    c = dict(kind=ch.pick(d, ['poisson', 'log']),
             p=1 + ch.draw(d, 5), n=40 + ch.draw(d, 40),
             icpt=not ch.flip(d, 0.3), std=ch.flip(d, 0.4),
             warm=not ch.flip(d, 0.25), data=ch.draw(d, 100000),
             tol=ch.pick(d, [1e-7, 1e-6]))
    if c['kind'] == 'poisson':
        c['solver'] = ch.pick(d, ['lbfgs', 'cd'])
    else:
        c['penalty'] = ch.pick(d, ['l1', 'l2'])
        c['classes'] = ch.pick(d, [2, 3, 4])
        c['multi'] = ch.pick(d, ['auto', 'multinomial'])
        c['cw'] = ch.pick(d, [None, None, 'balanced', 'dict'])
        c['labels'] = ch.pick(d, ['int', 'text', 'odd'])
        c['n'] = max(c['n'], 25 * c['classes'])
    return c


def tables(ch, c):
    """Two or three data sets alike in shape."""
    out = []
    for i in range(2 + ch.draw('case', 2)):
        r = np.random.RandomState([c['data'], i])
        X = r.normal(0.3, 1, size=(c['n'], c['p'])) * \
            r.uniform(0.6, 1.6, size=c['p'])
        b = r.normal(size=(c['p'], c.get('classes', 1))) * 0.6
        b *= r.rand(c['p'], 1) < 0.7
        z = (X - 0.3).dot(b)
        if c['kind'] == 'poisson':
            y = r.poisson(np.exp(np.clip(0.4 + 0.6 * z[:, 0], -3, 2.5)))
            y = y.astype(float)
        else:
            y = (z + r.gumbel(size=z.shape)).argmax(1)
            y[r.rand(c['n']) < 0.15] = r.randint(c['classes'])
            for k in range(c['classes']):
                y[4 * k:4 * k + 4] = k
            if c['labels'] == 'text':
                y = np.array(['w', 'b', 'c', 'aa'])[:c['classes']][y]
            elif c['labels'] == 'odd':
                y = np.array([7, -2, 3, 40])[y]
        if c['kind'] == 'poisson' and i and ch.flip('case', 0.2):
            y = np.full(c['n'], ch.pick('case', [2.0, 1.0, 0.0] if c['icpt']
                                        else [2.0, 1.0]))
        out.append((X, y))
    return out


def linear_gap(X, y, coef, icpt, fit_icpt, l1, l2):
    n = len(y)
    r = X.dot(coef.T) + icpt - y
    gap = subgradient(X.T.dot(r) / n + l2 * coef, coef, l1)
    if fit_icpt:
        gap = np.append(gap, abs(r.mean()))
    elif np.any(icpt != 0):
        return np.inf
    return gap.max()


def gap_of(obj, X, y, kw, free):
    """Of a solver run in a fit. free: nothing is penalised."""
    from sklearn.linear_model import LinearRegression
    from pyuoi.linear_model import MaskedCoefLogisticRegression, Poisson
    X = np.asarray(X, float)
    coef = np.array(obj.coef_, float)
    icpt = np.array(obj.intercept_, float)
    c = dict(std=getattr(obj, 'standardize', False),
             icpt=obj.fit_intercept)
    o = dict(w=None, mask=kw.get('coef_mask'))
    if isinstance(obj, Poisson):
        o.update(pen=0.0 if free else obj.alpha, l1=obj.l1_ratio)
        return poisson_gap(c, o, X, y, coef, icpt)
    if isinstance(obj, MaskedCoefLogisticRegression):
        c.update(cw=None, penalty='l2' if free else 'l1')
        o['pen'] = np.inf if free else obj.C
        return log_gap(c, o, X, y, coef, icpt)
    l1 = l2 = 0.0
    if not isinstance(obj, LinearRegression) and not free:
        l1, l2 = obj.alpha * obj.l1_ratio, obj.alpha * (1 - obj.l1_ratio)
    return linear_gap(X, np.ravel(y), np.ravel(coef), icpt, c['icpt'],
                      l1, l2)


def whole(ch, run):
    """The solver runs of fits."""
    c = W.fit_case(ch, kinds=('lasso', 'enet', 'logistic', 'poisson'),
                   scale=0.0)
    c['tight'] = True
    c['n'] = max(c['n'], 40 + 20 * (c['kind'] == 'logistic'))
    c['warm'] = not ch.flip('case', 0.2)
    run.case = c
    run.probe('fit')
    m = W.make(c)
    X, y, strat = W.case_data(c)
    runs, first = [], c['B1'] * W.n_reg_params(c)
    prior = ch.draw('case', 3)
    for i in range(prior + 1):
        del runs[:]
        last = i == prior
        how = None if last else ch.pick('fault', ['line', 'solver', None])
        X1, y1 = (X, y) if last else other(c, i)
        left = [1 + ch.draw('fault', 600 if how == 'line' else
                            first + 2 if how else 1)] if not last else [0]

        def strike(*a):
            left[0] -= 1
            if left[0] == 0:
                run.fault('%s in a fit' % how)
                raise Oops('simulated')

        def after(who, n, obj, Xr, yr, kw):
            if last:
                runs.append((type(obj).__name__, np.shape(Xr), len(runs),
                             gap_of(obj, Xr, yr, kw, len(runs) >= first),
                             float(np.abs(obj.coef_).max())))
            elif how == 'solver':
                strike()
        seams.solvers.reset(run)
        seams.solvers.after = after
        try:
            if how == 'line':
                with sched.striking(strike):
                    m.fit(X1, y1, stratify=strat)
            else:
                m.fit(X1, y1, stratify=strat)
        except Oops:
            run.probe('interrupted')
        except Exception as e:
            run.log('raises', repr(e)[:60])
            run.probe('fit-raises')
            if last:
                return
        finally:
            seams.solvers.reset(run)
    run.nontrivial = prior > 0 or c['warm']
    for name, shape, k, gap, size in runs:
        run.log(name, k, gap)
        if not gap < 2e-3 * max(1, size):
            raise Violation('not-a-minimum', 'solver run %d of the fit, %s on '
                            '%s: the gradient is %.3g' % (k, name, shape, gap))


def other(c, i):
    X, y, _ = W.case_data(dict(c, data=c['data'] + 1 + i, strat=False))
    return X, y


def scenario(ch, run):
    from pyuoi.linear_model import MaskedCoefLogisticRegression, Poisson
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    if ch.flip('case', 0.25):
        return whole(ch, run)
    c = draw(ch)
    sets = tables(ch, c)
    run.case = c
    d = 'case'
    if c['kind'] == 'poisson':
        m = Poisson(fit_intercept=c['icpt'], standardize=c['std'],
                    max_iter=3000, tol=c['tol'], warm_start=c['warm'],
                    solver=c['solver'])
        run.probe('poisson-' + c['solver'])
        rows = 1
    else:
        cw = c['cw'] if c['cw'] != 'dict' else \
            {v: 1.0 + k for k, v in
             enumerate(np.unique(sets[0][1]).tolist())}
        m = MaskedCoefLogisticRegression(
            penalty=c['penalty'], tol=c['tol'], fit_intercept=c['icpt'],
            standardize=c['std'], class_weight=cw, max_iter=3000,
            multi_class=c['multi'], warm_start=c['warm'])
        run.probe('log-' + c['penalty'])
        rows = c['classes'] if c['classes'] > 2 or \
            c['multi'] == 'multinomial' else 1
        if rows > 1:
            run.probe('multinomial')
    run.probe('warm' if c['warm'] else 'cold')
    if c['std']:
        run.probe('standardized')
    if not c['icpt']:
        run.probe('no-intercept')
    kept = []
    was_zero = False
    for i in range(2 + ch.draw(d, 4)):
        X, y = sets[ch.draw(d, len(sets)) if ch.flip(d, 0.4) else 0]
        r = np.random.RandomState([c['data'], 99, i])
        o = dict(w=None, mask=None, l1=1.0)
        if c['kind'] == 'poisson':
            o['pen'] = ch.pick(d, [0.05, 0.3, 1e-3, 5.0, 0.01])
            o['l1'] = ch.pick(d, [1.0, 0.5, 0.0])
        else:
            o['pen'] = ch.pick(d, [20.0, 5.0, 100.0, 0.1, 1.0])
        if ch.flip(d, 0.2):
            o['w'] = r.uniform(0.3, 2.0, size=c['n'])
            run.probe('weighted')
        kw = {} if o['w'] is None else dict(sample_weight=o['w'].copy())
        if c['kind'] == 'log' and ch.flip(d, 0.3):
            o['mask'] = (r.rand(rows, c['p']) < 0.6).astype(int)
            if rows == 1:
                o['mask'] = o['mask'].ravel()
            kw['coef_mask'] = o['mask'].copy()
            run.probe('masked')
        if c.get('cw'):
            run.probe('class-weights')
        if c.get('labels') == 'text':
            run.probe('text-labels')
        pen = dict(C=o['pen']) if c['kind'] == 'log' else \
            dict(alpha=o['pen'], l1_ratio=o['l1'])
        if ch.flip(d, 0.5):
            m.set_params(**pen)
        else:
            for k, v in pen.items():
                setattr(m, k, v)
        fault = ch.pick('fault', [None, None, None, 'line', 'short',
                                  'alloc'])
        m.max_iter = 3000
        if fault == 'short':
            m.max_iter = 1 + ch.draw('fault', 3)
        what = 'fit %d of %s, %s' % (i, c['kind'], pen)
        done = attempt(ch, run, m, X, y, kw, fault, what)
        for j, (ref, val) in enumerate(kept):
            if not np.array_equal(ref, val, equal_nan=True):
                raise Violation('earlier-result', '%s changed what an '
                                'earlier one returned: %s, was %s'
                                % (what, ref, val))
        if kw.get('sample_weight') is not None and \
                not np.array_equal(kw['sample_weight'], o['w']) or \
                'coef_mask' in kw and \
                not np.array_equal(kw['coef_mask'], o['mask']):
            raise Violation('input-changed', '%s changed the weights or the '
                            'mask it was given' % what)
        if np.all(y == y[0]):
            run.probe('constant-response')
        run.log('fit', i, fault, done,
                np.array(m.coef_) if done else None)
        if not done:
            continue
        coef = np.array(m.coef_, float)
        icpt = np.array(m.intercept_, float)
        kept += [(m.coef_, coef.copy())]
        if isinstance(m.intercept_, np.ndarray):
            kept += [(m.intercept_, icpt.copy())]
        predictions(c, m, X, y, coef, icpt, what)
        if fault == 'short':
            continue
        gap = (poisson_gap if c['kind'] == 'poisson' else log_gap)(
            c, o, X, y, coef, icpt)
        run.log('gap', float(gap))
        if not gap < 1e-3 * max(1, np.abs(coef).max()):
            raise Violation('not-a-minimum', '%s: coefficients %s, intercept '
                            '%s; the gradient is %.3g'
                            % (what, coef.ravel(), icpt, gap))
        zero = not coef.any()
        if zero:
            run.probe('zero-solution')
        if was_zero and not zero:
            run.probe('zero-then-not')
        was_zero = zero
        if i:
            run.nontrivial = True


def attempt(ch, run, m, X, y, kw, fault, what):
    """False: the fault ended the fit."""
    X0, y0 = X.copy(), y.copy()
    left = [-1]
    exc = Oops('simulated')

    def strike(code, line):
        left[0] -= 1
        if left[0] == 0:
            run.fault('exception at a line', code.co_name)
            raise exc
    try:
        if fault == 'line':
            left[0] = 1 + ch.draw('fault', 400)
            with sched.striking(strike):
                m.fit(X, y, **kw)
        elif fault == 'alloc':
            env.alloc.reset()
            env.alloc.fail(1 + ch.draw('fault', 12), 1)
            m.fit(X, y, **kw)
        else:
            m.fit(X, y, **kw)
    except Oops:
        if fault != 'line':
            raise
        run.probe('interrupted')
        return False
    except MemoryError:
        if fault != 'alloc':
            raise
        run.fault('allocation')
        run.probe('alloc')
        return False
    except Exception as e:
        raise Violation('raises', '%s: %r' % (what, e))
    finally:
        env.alloc.fail(-1, 0)
    if fault == 'short':
        run.fault('iteration limit', m.max_iter)
        run.probe('short')
    if not np.array_equal(X, X0) or not np.array_equal(y, y0):
        raise Violation('input-changed', what)
    return True
