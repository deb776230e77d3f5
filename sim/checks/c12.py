"""C12: what the caller passes in, and what earlier calls returned, is never
changed."""
import copy

import numpy as np

from sim import arrays as A, dist, jobs, mpi, sched, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 4000, 120000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a job, the memory layout and type of its arrays '
        '(contiguous either way, strided, reversed, read-only, integer, '
        'single precision), and whether it completes, fails in a solver '
        'call, is interrupted at a drawn line, runs on 2-3 simulated ranks, '
        'or is followed by another fit of the same object. Inputs must stay '
        'bit for bit what they were; earlier results too; the result must '
        'not depend on the layout, nor change when the caller later reuses '
        'the inputs. Non-trivial: the job started.')
ASSUMPTIONS = []
PROBES = ('completed', 'failed', 'interrupted', 'distributed', 'refit',
          'read-only')
KINDS = jobs.UOI * 2 + ['cur', 'curp', 'nmf', 'poisson1', 'masklog1', 'pyc1',
                        'lbfgs', 'dataset', 'masklog1']
LABELS = [None, [1, 2, 3], [-1, 1, 4], [7, 3, 5], ['b', 'c', 'a']]


def snapshot(d):
    return {k: (v.copy() if isinstance(v, np.ndarray) else
                list(v) if isinstance(v, list) else v)
            for k, v in d.items()}


def unchanged(before, now, what):
    for k in before:
        a, b = before[k], now[k]
        if isinstance(a, np.ndarray):
            if not A.same(a, b):
                raise Violation('input-changed', '%s%s: %s became %s'
                                % (what, k, A.show(a), A.show(b)))
        elif a != b:
            raise Violation('input-changed', '%s%s: %r became %r'
                            % (what, k, a, b))


def held(m):
    """The arrays a caller may keep from a fitted object."""
    out = {}
    for k in sorted(vars(m)):
        v = vars(m)[k]
        if k.endswith('_') and not k.startswith('_') and \
                isinstance(v, np.ndarray):
            out[k] = v
    return out


def scenario(ch, run):
    seams.reset(ch, run)
    j = jobs.Job(ch, KINDS, dress=0.0)
    mode = ch.pick('case', ['complete', 'solver', 'line', 'refit', 'ranks',
                            'line'])
    if mode == 'ranks' and j.kind not in jobs.UOI:
        mode = 'complete'
    if j.kind == 'lbfgs':
        return optimizer(ch, run, j)
    if j.kind == 'dataset':
        return helper(ch, run, j)
    X, y, s = j.args()
    ty = ch.pick('case', ['f8', 'f8', 'f8', 'f4', 'int'])
    if j.kind not in ('lasso', 'enet', 'cur', 'curp', 'nmf'):
        ty = 'f8'
    if ty == 'f4':
        X = X.astype('f4')
    elif ty == 'int':
        X = np.round(X * 50).astype('i8')
        X[:, 0] += np.arange(len(X))
    yty = ch.pick('case', ['same', 'list', 'i4'])
    if j.kind in ('logistic', 'masklog1'):
        names = ch.pick('case', LABELS)
        if names and j.c.get('cw') != 'dict':
            y = np.array(names)[y]
    kw = {}
    if j.kind in ('masklog1', 'poisson1') and ch.flip('case', 0.5):
        kw['sample_weight'] = np.random.RandomState(j.c['data']).uniform(
            0.2, 2.0, size=len(y))
    lay = ch.pick('case', A.LAYOUTS)
    layy = ch.pick('case', ['C', 'step', 'neg', 'offset', 'ro'])
    ref = None
    if ty == 'f8':
        try:
            m = j.new()
            j.fit(m, (X.copy(), None if y is None else y.copy(),
                      None if s is None else s.copy()),
                  **{k: v.copy() for k, v in kw.items()})
            ref = j.result(m)
        except Exception:
            run.probe('serial-raises')
            return
    X = A.layout(X, lay)
    if y is not None:
        y = A.layout(y, layy)
    if s is not None:
        s = A.layout(s, ch.pick('case', ['C', 'ro', 'step'][:2]
                                if np.ndim(s) > 1 else ['C', 'ro', 'step']))
    run.case = dict(j.info(), mode=mode, type=ty, layout=lay, layout_y=layy)
    kw = {k: A.layout(v, ch.pick('case', ['C', 'step', 'ro']))
          for k, v in kw.items()}
    now = dict(X=X, y=y, stratify=s, **kw)
    if j.kind in jobs.UOI:
        th = W.thresholds(j.c)
        if isinstance(th, (list, np.ndarray)):
            now['stability_selection'] = th
    before = snapshot(now)
    if lay == 'ro' or layy == 'ro':
        run.probe('read-only')
    if mode == 'ranks':
        return ranks(ch, run, j, now, before, ref)
    m = make(j, now)
    count = [0]
    run.nontrivial = True
    if mode == 'solver':
        k = ch.draw('fault', 8)

        def fail(who, n, obj, X_, y_, kw):
            if n == k:
                run.fault('solver-error', n)
                raise seams.InjectedError('simulated')
        seams.solvers.before = fail
        try:
            j.fit(m, (X, y, s), **kw)
            run.probe('completed')
        except Exception:
            run.probe('failed')
        seams.solvers.reset(run)
        unchanged(before, now, 'after a failed fit: ')
        return
    if mode == 'line':
        k = ch.draw('fault', 800) if ch.flip('fault', 0.6) else \
            ch.draw('fault', 60)

        def at(code, line):
            count[0] += 1
            if count[0] == k + 1:
                run.fault('interrupt at a line', code.co_name)
                raise KeyboardInterrupt('simulated')
        try:
            with sched.striking(at):
                j.fit(m, (X, y, s), **kw)
            run.probe('completed')
        except (Exception, KeyboardInterrupt):
            run.probe('interrupted')
        unchanged(before, now, 'after an interrupted fit: ')
        return
    try:
        j.fit(m, (X, y, s), **kw)
    except Exception as e:
        unchanged(before, now, 'after a failed fit: ')
        if ref is not None:
            raise Violation('layout-matters', 'layouts %s, %s: %s: %s'
                            % (lay, layy, type(e).__name__, e))
        run.probe('failed')
        return
    run.probe('completed')
    unchanged(before, now, 'after a fit: ')
    got = j.result(m, predict=False)
    unchanged(before, now, 'after predictions: ')
    if ref is not None:
        want = {k: v for k, v in ref.items() if k in got}
        W.must_equal(want, got, 'layout-matters', 'layouts %s, %s: '
                     % (lay, layy), rtol=1e-6, atol=1e-8)
    mine = held(m)
    copies = snapshot(mine)
    # the caller reuses its buffers
    for k in ('X', 'y', 'stratify', 'sample_weight'):
        v = now.get(k)
        if isinstance(v, np.ndarray):
            if v.flags.writeable:
                v[...] = v.ravel()[0] if v.dtype.kind == 'U' else 0
    W.must_equal(got, j.result(m, predict=False), 'result-shares-input',
                 'after the caller cleared its arrays: ', rtol=0, atol=0)
    if j.kind not in ('pyc1',):
        # predictions do not change what they are given, nor the model
        Z = j.args()[0][:5]
        if ch.flip('case', 0.5):
            # data to predict for need not be like data to fit
            Z = Z - np.median(Z)
        Z = A.layout(Z, ch.pick('case', A.LAYOUTS))
        Zc = Z.copy()
        for f in ('predict', 'predict_proba', 'predict_mean', 'transform'):
            if hasattr(m, f):
                try:
                    getattr(m, f)(Z)
                except Exception:
                    pass
        if not A.same(Z, Zc):
            raise Violation('input-changed', 'by a prediction')
        W.must_equal(got, j.result(m, predict=False), 'model-changed',
                     'by a prediction: ', rtol=0, atol=0)
    if mode == 'refit':
        o = jobs.Job.__new__(jobs.Job)
        o.c = dict(j.c, data=j.c['data'] + 5)
        o.kind, o.seed = j.kind, j.seed
        try:
            j.fit(m, o.args())
        except Exception as e:
            run.log('refit', type(e).__name__)
        run.probe('refit')
        for k in copies:
            if not A.same(copies[k], mine[k]):
                raise Violation('old-result-changed', '%s of the first fit '
                                'was %s, after the second fit %s'
                                % (k, A.show(copies[k]), A.show(mine[k])))


def make(j, now, comm=None):
    m = j.new(comm=comm)
    if 'stability_selection' in now and j.kind in jobs.UOI:
        old = W.thresholds
        W.thresholds = lambda c: now['stability_selection']
        try:
            m = j.new(comm=comm)
        finally:
            W.thresholds = old
    return m


def ranks(ch, run, j, now, before, ref):
    size = min(3, dist.sizes(ch, j.c))
    if j.kind == 'pyc':
        size = min(size, j.c['B1'])
    w = mpi.World(ch, run, size)
    mine = [dict(now, **{k: v.copy() if v.flags.writeable else v
                         for k, v in now.items()
                         if isinstance(v, np.ndarray)})
            for _ in range(size)]

    def main(comm):
        a = mine[comm.rank]
        m = make(j, a, comm)
        m.fit(a['X'], a['y'], stratify=a['stratify'])
        got = j.result(m, predict=False)
        for k in ('X', 'y', 'stratify'):
            if isinstance(a[k], np.ndarray):
                if not A.same(before[k], a[k]):
                    return 'rank %d: %s changed' % (comm.rank, k)
                if a[k].flags.writeable:
                    a[k][...] = a[k].ravel()[0] \
                        if a[k].dtype.kind == 'U' else 0
        after = j.result(m, predict=False)
        d = W.differ(got, after, rtol=0, atol=0)
        return d and 'rank %d, after the caller cleared its arrays: %s' % (
            comm.rank, d)
    outs = w.launch(main)
    for o in outs:
        if o.state == 'ok' and o.value:
            raise Violation('input-changed', o.value)
    if ref is not None:
        dist.all_ok(w, outs)
    run.probe('distributed')
    run.nontrivial = True


def optimizer(ch, run, j):
    from pyuoi.lbfgs._lowlevel import LBFGSError
    f, x0 = j.objective()
    lay = ch.pick('case', ['C', 'step', 'neg', 'offset', 'ro', 'list', 'i8',
                           'F2', 'odd', 'nested', 'f4'])
    if lay == 'list':
        x = [float(v) for v in x0]
    elif lay == 'i8':
        x = np.round(x0).astype('i8')
        x0 = x.astype(float)
    elif lay == 'f4':
        x = x0.astype('f4')
        x0 = x.astype(float)
    elif lay in ('F2', 'nested'):
        # more dimensions: the callbacks see that shape
        d = max(k for k in (1, 2, 3) if len(x0) % k == 0)
        x = np.asfortranarray(x0.reshape(d, -1))
        if lay == 'nested':
            x = x.tolist()
    elif lay == 'odd':
        x0 = x0.copy()
        x0[ch.draw('case', len(x0))] = ch.pick('case', [
            np.nan, np.inf, -0.0, 5e-324, 1e200, -np.inf])
        x = x0.copy()
    else:
        x = A.layout(x0, lay)
    run.case = dict(j.info(), layout=lay)
    run.nontrivial = True
    k = ch.draw('fault', 12) if ch.flip('fault', 0.5) else -1
    where = ch.pick('fault', ['eval', 'progress'])
    n = [0]
    shape = np.shape(x)

    def strike():
        n[0] += 1
        if n[0] == k + 1:
            run.fault('error in a callback', where, k)
            raise seams.InjectedError('simulated')

    def g(z, grad, *a):
        if where == 'eval':
            strike()
        if z.shape != shape or grad.shape != shape:
            raise Violation('layout-matters', 'x0 has shape %s, the objective '
                            'gets %s' % (shape, z.shape))
        if z.ndim == 1:
            return f(z, grad)
        flat = np.zeros(z.size)
        v = f(z.ravel(), flat)
        grad[...] = flat.reshape(grad.shape)
        return v

    def progress(*a):
        if where == 'progress':
            strike()

    def go(**kw):
        try:
            return j.minimize(**kw)
        except (LBFGSError, FloatingPointError) as e:
            return e
    want = None
    if k < 0:
        want = go(x0=x0.copy())
    before = copy.deepcopy(x)
    try:
        got = go(f=g, x0=x, progress=progress)
        run.probe('completed')
    except seams.InjectedError:
        got = None
        run.probe('failed')
    same = before == x if isinstance(x, list) else A.same(before, x)
    if not same:
        raise Violation('input-changed', 'x0: %r became %r' % (before, x))
    if want is not None and type(want) is not type(got):
        raise Violation('layout-matters', 'x0 as %s: %r, plain: %r'
                        % (lay, got, want))
    if isinstance(got, np.ndarray):
        if got.shape != shape:
            raise Violation('layout-matters', 'x0 of shape %s gives %s'
                            % (shape, got.shape))
        if want is not None and not np.allclose(
                got.ravel(), want, rtol=1e-9, atol=1e-12, equal_nan=True):
            raise Violation('layout-matters', 'x0 as %s: %r, plain: %r'
                            % (lay, got, want))
        keep = got.copy()
        go()
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 0
        if not A.same(keep, got):
            raise Violation('old-result-changed', 'x was %s, is %s'
                            % (A.show(keep), A.show(got)))


def helper(ch, run, j):
    """Functions that take arrays: data generators, helpers of the models."""
    from pyuoi import datasets
    from pyuoi.decomposition import utils as du
    from pyuoi.linear_model import utils as lu
    r = np.random.RandomState(j.c['data'])
    p = j.c['p']

    def lay(a, kinds=A.LAYOUTS):
        return A.layout(np.asarray(a), ch.pick('case', kinds))
    flat = ['C', 'step', 'neg', 'ro', 'offset']
    which = ch.pick('case', ['linear', 'poisson', 'intersection', 'threshold',
                             'columns', 'dissimilarity', 'cur', 'nmf',
                             'paths'])
    run.case = dict(j.info(), helper=which)
    run.nontrivial = True
    kw = {}
    if which in ('linear', 'poisson'):
        kw = dict(beta=lay(r.normal(size=p) * 0.1, flat))
        f = datasets.make_linear_regression if which == 'linear' else \
            datasets.make_poisson_regression

        def call(beta):
            return f(n_samples=j.c['n'], n_features=p, beta=beta,
                     include_intercept=j.c['icpt'], random_state=j.seed)
    elif which == 'intersection':
        B, R = 1 + r.randint(4), 1 + r.randint(4)
        co = r.normal(size=(B, R, p)) * (r.rand(B, R, p) < 0.6)
        kw = dict(coefs=lay(co), th=lay(np.arange(1, B + 1), flat))

        def call(coefs, th):
            return lu.intersection(coefs, th),
    elif which == 'threshold':
        B = 2 + r.randint(6)
        th = np.arange(1, B + 1) if r.rand() < 0.5 else \
            np.arange(1, B + 1) / B
        kw = dict(th=lay(th, flat))

        def call(th):
            return lu.stability_selection_to_threshold(th, B),
    elif which == 'columns':
        V = np.linalg.qr(r.normal(size=(p + 3, 2)))[0]
        kw = dict(V=lay(V))

        def call(V):
            return du.column_select(V, 2.5, leverage_sort=True,
                                    random_state=j.seed),
    elif which == 'dissimilarity':
        H = r.rand(3, p) * (r.rand(3, 1) < 0.8)
        kw = dict(H1=lay(H), H2=lay(r.rand(3, p)))

        def call(H1, H2):
            return np.array(du.dissimilarity(H1, H2)),
    elif which == 'cur':
        from pyuoi.decomposition import UoI_CUR
        kw = dict(X=lay(r.normal(size=(12, p + 3))),
                  ks=lay(np.array([2, 1]), flat),
                  cs=lay(np.array([2.5, 1.0]), flat))

        def call(X, ks, cs):
            m = UoI_CUR(n_boots=2, max_k=2, boots_frac=0.8,
                        stability_selection=0.5, random_state=j.seed)
            m.fit(X, ks=ks, cs=cs)
            return m.column_indices_, m.components_, m.transform(X)
    elif which == 'nmf':
        from pyuoi.decomposition import UoI_NMF
        kw = dict(X=lay(r.rand(10, p + 2) + 0.1),
                  ranks=lay(np.array([2, 3]), flat), W=lay(r.rand(4, 1)))

        def call(X, ranks, W):
            m = UoI_NMF(n_boots=2, ranks=ranks, nmf_max_iter=20,
                        random_state=j.seed)
            m.fit(X)
            W = np.asarray(W)
            if m.n_components != W.shape[1]:
                W = np.repeat(W, m.n_components, axis=1)
            return m.components_, m.transform(X), m.inverse_transform(W)
    else:
        from pyuoi.linear_model import UoI_ElasticNet, UoI_Poisson
        X, y = W.data('poisson', j.c['data'], 30, p)
        kw = dict(X=lay(X), y=lay(y, flat),
                  alphas=lay(np.array([0.5, 1.0]), flat))
        cls = UoI_ElasticNet if r.rand() < 0.5 else UoI_Poisson

        def call(X, y, alphas):
            m = cls(n_boots_sel=2, n_boots_est=2, n_lambdas=2, alphas=alphas,
                    random_state=j.seed, selection_frac=0.8)
            m.fit(X, y)
            return m.coef_, m.estimates_
    before = snapshot(kw)
    try:
        ref = call(**{k: np.ascontiguousarray(v) for k, v in before.items()})
    except Exception:
        run.probe('serial-raises')
        ref = None
    if ref is None:
        return
    try:
        got = call(**kw)
    except Exception as e:
        raise Violation('layout-matters', '%s with %s: %s: %s' % (
            which, {k: v.flags.writeable for k, v in kw.items()},
            type(e).__name__, e))
    unchanged(before, kw, 'by %s: ' % which)

    def compare(a, b, cls, tol):
        for u, v in zip(a, b):
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape or not np.allclose(u, v, rtol=tol, atol=tol,
                                                     equal_nan=True):
                raise Violation(cls, '%s: %s and %s' % (which, A.show(u),
                                                        A.show(v)))
    compare(ref, got, 'layout-matters', 1e-6)
    keep = [np.array(v) for v in got]
    same = [v for k in kw for v in got if v is kw[k]]
    for v in kw.values():
        if v.flags.writeable:
            v[...] = 1
    if not same:
        # (the generators return the coefficients they are given)
        compare(keep, got, 'result-shares-input', 0)
    call(**before)
    if not same:
        compare(keep, got, 'old-result-changed', 0)
