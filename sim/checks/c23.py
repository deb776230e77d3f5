"""C23: a decomposition is what its solver runs and random draws imply."""
import numpy as np

from sim import dist, seams
from sim.core import Violation

QUICK, THOROUGH = 14000, 400000
REAL = ['pyuoi', 'scikit-learn', 'scipy', 'numpy']
STUB = ['entropy, clock and uninitialised memory',
        'in part of the runs, what the NMF, SVD and clustering solvers '
        'return: arbitrary results from the seed; failing solver calls']
RULE = ('A run draws a decomposition (UoI NMF with its own or supplied '
        'solvers, UoI CUR, CUR), data of several types and a history of 1-2 '
        'fits (one of which may fail in a drawn solver call) and transforms. '
        'Every solver run and every random draw is recorded. A reference '
        'computes from them the dissimilarities, the chosen rank, the pooled '
        'bases, the consensus bases, the selected columns; transforms are '
        'checked against the optimality conditions of non-negative least '
        'squares. Non-trivial: a fitted decomposition was compared.')
ASSUMPTIONS = ['ties of the dissimilarity within 1e-9 and draws within 1e-12 '
               'of the probability do not determine the result and are not '
               'judged']
PROBES = ('hundreds', 'nmf', 'uoi-cur', 'cur', 'adversary', 'zero-basis',
          'noise-label',
          'all-ranks', 'own-solvers', 'refit', 'after-failure', 'integers',
          'no-columns', 'certain-column', 'several-thresholds', 'regressor',
          'dbscan', 'fit-transform')


def scenario(ch, run):
    seams.reset(ch, run)
    k = ch.draw('case', 5)
    if k < 3:
        nmf(ch, run)
    elif k == 3:
        uoi_cur(ch, run)
    else:
        cur(ch, run)


def differ(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape != b.shape or (a.size and
                                  not np.abs(a - b).max() <=
                                  tol * (1 + np.abs(b).max()))


class Boom(Exception):
    pass


class Record:
    """Outermost fits of a scikit-learn decomposition: inputs, results;
    replaced results; failures."""

    def __init__(self, cls, replace=None, fail=None):
        self.cls, self.replace, self.fail = cls, replace, fail
        self.runs, self.depth, self.n = [], 0, 0

    def __enter__(self):
        self.orig = {n: self.cls.__dict__[n] for n in ('fit', 'fit_transform')
                     if n in self.cls.__dict__}
        for n, f in self.orig.items():
            setattr(self.cls, n, self._wrap(f))
        return self

    def _wrap(self, f):
        def g(obj, X, *a, **k):
            if self.depth:
                return f(obj, X, *a, **k)
            self.n += 1
            if self.fail == self.n:
                raise Boom('solver call %d' % self.n)
            self.depth += 1
            try:
                out = f(obj, X, *a, **k)
            finally:
                self.depth -= 1
            if self.replace is not None:
                obj.components_ = self.replace(obj.components_.shape)
            self.runs.append((np.array(X), np.array(obj.components_)))
            return out
        return g

    def __exit__(self, *e):
        for n, f in self.orig.items():
            setattr(self.cls, n, f)


# --------------------------------------------------------------------- NMF

def unit(H):
    """Rows of unit length; zero rows stay zero."""
    n = np.sqrt((H ** 2).sum(axis=1, keepdims=True))
    return H / np.where(n == 0, 1, n)


def distance(A, B):
    """The dissimilarity of two sets of k bases."""
    C = unit(A).dot(unit(B).T)
    k = len(A)
    return 1 - (sum(C[:, j].max() for j in range(k)) +
                sum(C[i].max() for i in range(k))) / (2. * k)


class Solver:
    """An NMF solver of the user's own."""

    def __init__(self, gen, calls, fail):
        self.gen, self.calls, self.fail = gen, calls, fail
        self.k = self.n = 0

    def set_params(self, n_components=None, **kw):
        if n_components is not None:
            self.k = n_components
        return self

    def fit(self, X, y=None):
        self.n += 1
        if self.fail == self.n:
            raise Boom('solver call %d' % self.n)
        self.components_ = self.gen((self.k, X.shape[1]))
        self.calls.append((np.array(X), self.components_.copy()))
        return self

    def fit_transform(self, X, y=None):
        self.fit(X)
        return np.zeros((len(X), self.k))


class Cluster:
    """A clusterer of the user's own: arbitrary labels, some noise."""

    def __init__(self, seed, most, noise):
        self.seed, self.most, self.noise = seed, most, noise
        self.calls = []

    def fit(self, H):
        r = np.random.RandomState(self.seed)
        lab = r.randint(min(self.most, len(H)), size=len(H))
        if r.rand() < 0.7:
            # the clusters are numbered without gaps
            lab = np.unique(lab, return_inverse=True)[1]
        else:
            lab = lab * 2 + r.randint(3)
        if self.noise:
            out = r.rand(len(H)) < 0.3
            for c in np.unique(lab):
                out[np.flatnonzero(lab == c)[0]] = False
            lab = np.where(out, -1, lab)
        self.labels_ = lab
        self.calls.append((np.array(H), lab.copy()))
        return self

    def fit_predict(self, H):
        return self.fit(H).labels_


def bases(r, adversary):
    """Non-negative bases of an adversary: zero rows, copies, tiny rows."""
    def gen(shape):
        H = r.rand(*shape) * (r.rand(*shape) < 0.7)
        for i in range(shape[0]):
            q = r.randint(12)
            if q == 0:
                H[i] = 0
            elif q == 1:
                H[i] = H[0]
            elif q == 2:
                H[i] *= 1e-9
            elif q == 3:
                H[i] *= 1e6
        return H
    return gen


def nmf(ch, run):
    from sklearn.cluster import DBSCAN
    from sklearn.decomposition import NMF
    from sklearn.linear_model import LinearRegression
    from pyuoi.decomposition import UoI_NMF
    from pyuoi.decomposition.NMF import UoI_NMF_Base
    d = 'case'
    n, p, B = 8 + ch.draw(d, 15), 3 + ch.draw(d, 4), 2 + ch.draw(d, 5)
    ranks = ch.pick(d, [[2], [2, 3], 3, [3, 2], (1, 3), range(2, 4),
                        np.array([3, 1]), [4, 2, 3]])
    kk = list(range(2, ranks + 1)) if isinstance(ranks, int) else \
        [int(k) for k in ranks]
    own = ch.flip(d, 0.4)
    adv = own or ch.flip(d, 0.3)
    diss = not ch.flip(d, 0.25)
    B = 1 if not diss and ch.flip(d, 0.3) else B
    if ch.flip(d, 0.05):
        B += 6
    at_once = ch.pick(d, [None, None, True, False])
    seed, data = ch.draw(d, 60000), ch.draw(d, 100000)
    kind = ch.pick(d, ['float', 'float', 'float32', 'int', 'lowrank'])
    r = np.random.RandomState(data)
    low = r.rand(n, 2).dot(r.rand(2, p))
    X = {'float': low + 0.3 * r.rand(n, p), 'lowrank': low,
         'float32': (low + 0.3 * r.rand(n, p)).astype('f4'),
         'int': r.poisson(4 * low + 1)}[kind]
    fits = 1 + ch.flip(d, 0.4)
    fail = [None] * fits
    if fits == 2 and ch.flip('fault', 0.4):
        fail[0] = 1 + ch.draw('fault', B * len(kk))
    calls, cl, cons, nnreg = [], None, None, None
    run.case = dict(kind='nmf', n=n, p=p, B=B, ranks=kk, own=own, adv=adv,
                    diss=diss, seed=seed, data=data, X=kind, fits=fits,
                    fail=fail, at_once=at_once)
    gen = bases(np.random.RandomState(ch.draw(d, 1 << 30)), adv) if adv \
        else None
    eps, ms = ch.pick(d, [0.5, 0.2, 0.05]), ch.pick(d, [None, None, 1, 2])
    solver = None
    if own:
        solver = Solver(gen, calls, None)
        if ch.flip(d, 0.6):
            cl = Cluster(ch.draw(d, 1 << 20), 1 + ch.draw(d, 4),
                         ch.flip(d, 0.5))
        cons = ch.pick(d, [None, np.median, np.max])
        nnreg = ch.pick(d, [None, 'callable', 'estimator'])
        reg = {None: None, 'callable': lambda A, b: A.T.dot(b),
               'estimator': LinearRegression(positive=True,
                                             fit_intercept=False)}[nnreg]
        m = UoI_NMF_Base(n_boots=B, ranks=ranks, nmf=solver, cluster=cl,
                         cons_meth=cons, nnreg=reg, use_dissimilarity=diss,
                         random_state=seed)
        eps, ms = 0.5, None
        run.probe('own-solvers')
    else:
        algo = ch.pick(d, ['mu', 'cd'])
        m = UoI_NMF(n_boots=B, ranks=ranks, nmf_init='random',
                    nmf_solver=algo, nmf_max_iter=30, db_eps=eps,
                    nmf_beta_loss='frobenius' if algo == 'cd' or
                    ch.flip(d, 0.5) else 'kullback-leibler',
                    db_min_samples=ms, use_dissimilarity=diss,
                    random_state=seed)
    for f in range(fits):
        XX = X[r.permutation(n)] if f else X
        what = 'fit %d: ' % f
        try:
            if own:
                del calls[:]
                solver.fail, solver.n = fail[f], 0
                W = fit_nmf(m, XX, at_once)
                runs = list(calls)
            else:
                with Record(NMF, gen, fail[f]) as rec:
                    W = fit_nmf(m, XX, at_once)
                runs = rec.runs
        except Boom:
            run.fault('solver-fails')
            run.probe('after-failure')
            continue
        except ValueError as e:
            # nothing to cluster
            run.probe('fit-raises')
            run.note = repr(e)
            if not nothing(calls if own else rec.runs, kk, B, diss, cl,
                           eps, ms, DBSCAN):
                raise Violation('raises', what + repr(e))
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation('raises', what + repr(e))
        if fail[f] and (solver if own else rec).n >= fail[f]:
            raise Violation('swallowed', what + 'solver call %d failed, the '
                            'fit did not' % fail[f])
        if adv:
            run.fault('arbitrary-solver-result')
            run.probe('adversary')
        run.log('nmf', what, np.round(m.components_, 12).tolist())
        judge(run, m, XX, B, kk, runs, diss, cl, cons, eps, ms, DBSCAN, what,
              at_once)
        if at_once is not None and len(m.components_):
            run.probe('fit-transform')
            if (m.reconstruction_err_ is not None) is not at_once:
                raise Violation('stale', what + 'reconstruction_err_ is %r'
                                % m.reconstruction_err_)
            W2 = m.transform(XX.copy(), reconstruction_err=False)
            if W.dtype != W2.dtype or not np.array_equal(W, W2):
                raise Violation('fit-transform', what + 'fit_transform and '
                                'transform differ')
        encode(ch, run, m, XX, nnreg, what)
        if ch.flip(d, 0.3):
            # other data, of another number of rows and another type
            Y = np.random.RandomState(data + 1).poisson(
                3, size=(1 + ch.draw(d, 4), p))
            encode(ch, run, m, Y if ch.flip(d, 0.5) else Y / 7.,
                   nnreg, what + 'other data: ')
        if f:
            run.probe('refit')
        run.nontrivial = True
        run.probe('nmf')
    if kind == 'int':
        run.probe('integers')


def fit_nmf(m, X, at_once):
    if at_once is None:
        m.fit(X.copy())
        return None
    return m.fit_transform(X.copy(), reconstruction_err=at_once)


def nothing(runs, kk, B, diss, cl, eps, ms, DBSCAN):
    """No basis to cluster, or no cluster."""
    H = {k: [C.astype(float) for _, C in runs if len(C) == k]
         for k in kk}
    if any(len(h) != B for h in H.values()):
        return True
    pools = [kk]
    if diss:
        g = [np.mean([distance(H[k][a], H[k][b])
                      for a in range(B) for b in range(a)]) for k in kk]
        pools = [[k] for k, v in zip(kk, g) if v <= min(g) + 1e-9]
    for pool in pools:
        P = np.concatenate([h for k in pool for h in H[k]])
        P = unit(P[P.sum(axis=1) != 0])
        if not len(P):
            return True
        if cl is None and (DBSCAN(
                eps=eps, min_samples=max(B // 2, 1) if ms is None else ms)
                .fit(P).labels_ == -1).all():
            return True
    return False


def judge(run, m, X, B, kk, runs, diss, cl, cons, eps, ms, DBSCAN, what,
          at_once=None):
    n, p = X.shape
    boots = np.asarray(m.bootstraps_)
    if boots.shape != (B, n) or boots.min() < 0 or boots.max() >= n:
        raise Violation('bootstraps', what + 'bootstraps_ %s' % (boots.shape,))
    if len(runs) != B * len(kk):
        run.probe('history-unclear')
        return
    H = {}
    left = list(runs)
    for k in kk:
        for b in range(B):
            hit = [i for i, (A, C) in enumerate(left) if len(C) == k and
                   A.shape == X.shape and np.array_equal(A, X[boots[b]])]
            if not hit:
                raise Violation('bootstraps', what + 'no solver run for rank '
                                '%d on the rows of bootstrap %d' % (k, b))
            H[k, b] = left.pop(hit[0])[1].astype(float)
    zero = [not row.any() for h in H.values() for row in h]
    if any(zero):
        run.probe('zero-basis')
    if diss:
        g = np.array([np.mean([distance(H[k, a], H[k, b])
                               for a in range(B) for b in range(a)])
                      for k in kk])
        if differ(m.dissimilarity_, g):
            raise Violation('dissimilarity', what + 'dissimilarity_ is %s, '
                            'the solver runs give %s'
                            % (m.dissimilarity_, g))
        pools = [[k] for k, v in zip(kk, g) if v <= g.min() + 1e-9]
    else:
        pools = [kk]
        run.probe('all-ranks')
    S, lab = np.asarray(m.bases_samples_), \
        np.asarray(m.bases_samples_labels_)
    ok = False
    for pool in pools:
        P = np.concatenate([H[k, b] for k in pool for b in range(B)])
        P = unit(P[P.sum(axis=1) != 0])
        ok = ok or same_rows(S, P)
    if not ok:
        raise Violation('samples', what + 'bases_samples_ (%d rows) are not '
                        'the unit bases of rank %s'
                        % (len(S), ' or '.join(map(str, pools))))
    if lab.shape != (len(S),):
        raise Violation('labels', what + 'labels of shape %s for %d bases'
                        % (lab.shape, len(S)))
    if cl is not None:
        A, want = cl.calls[-1]
        if differ(A, S) or not np.array_equal(want, lab):
            raise Violation('labels', what + 'labels %s; the clusterer gave '
                            '%s' % (lab.tolist(), want.tolist()))
    else:
        want = DBSCAN(eps=eps, min_samples=max(B // 2, 1) if ms is None
                      else ms).fit(S).labels_
        if not np.array_equal(want, lab):
            raise Violation('labels', what + 'labels %s; DBSCAN gives %s'
                            % (lab.tolist(), want.tolist()))
        run.probe('dbscan')
    if (lab == -1).any():
        run.probe('noise-label')
    ids = sorted(set(lab.tolist()) - {-1})
    C = np.asarray(m.components_)
    want = np.zeros((len(ids), p))
    for i, c in enumerate(ids):
        want[i] = (cons or np.mean)(S[lab == c], axis=0)
    if differ(C, unit(want)):
        raise Violation('consensus', what + 'components_ %s; the clusters '
                        'give %s' % (C.tolist(), unit(want).tolist()))
    if m.n_components != len(ids):
        raise Violation('consensus', what + 'n_components is %r for %d '
                        'clusters' % (m.n_components, len(ids)))
    if not at_once and getattr(m, 'reconstruction_err_', None) is not None:
        raise Violation('stale', what + 'reconstruction_err_ of an earlier '
                        'transform')


def same_rows(S, P):
    """The same rows, in any order."""
    if S.shape != P.shape:
        return False
    if not differ(S, P):
        return True
    left = list(range(len(P)))
    for s in S:
        hit = [j for j in left if np.abs(P[j] - s).max() <= 1e-9]
        if not hit:
            return False
        left.remove(hit[0])
    return True


def encode(ch, run, m, X, nnreg, what):
    C = np.asarray(m.components_)
    if not len(C):
        return
    err = ch.flip('case', 0.7)
    before = getattr(m, 'reconstruction_err_', None)
    W = m.transform(X.copy(), reconstruction_err=err)
    if W.shape != (len(X), len(C)):
        raise Violation('transform', what + 'of shape %s' % (W.shape,))
    tol = 1e-3 if X.dtype == np.float32 else 1e-9
    Xf = X.astype(float)
    if nnreg == 'callable':
        if differ(W, Xf.dot(C.T), tol):
            raise Violation('transform', what + 'is not what the supplied '
                            'regressor returns')
    else:
        if not (W >= 0).all():
            raise Violation('transform', what + 'negative coefficients')
        G = (W.dot(C) - Xf).dot(C.T)        # gradient, row by row
        size = 1 + np.abs(Xf).max()
        if G.min() < -tol * size or np.abs(G * W).max() > tol * size ** 2:
            i = int(np.abs(np.where(W > 0, G, np.minimum(G, 0)))
                    .max(axis=1).argmax())
            raise Violation('transform', what + 'row %d: %s is not the '
                            'non-negative least squares solution (gradient '
                            '%s)' % (i, W[i].tolist(), G[i].tolist()))
    if nnreg:
        run.probe('regressor')
    R = m.inverse_transform(W)
    if differ(R, W.astype(float).dot(C), tol):
        raise Violation('inverse', what + 'inverse_transform is not W H')
    want = np.sqrt(((Xf - W.dot(C)) ** 2).sum()) if err else before
    got = m.reconstruction_err_
    if (got is None) != (want is None) or \
            (want is not None and differ(got, want, tol)):
        raise Violation('error', what + 'reconstruction_err_ is %r, should '
                        'be %r' % (got, want))


# --------------------------------------------------------------------- CUR

class Stream(np.random.RandomState):
    """A generator that notes its uniform draws."""

    def __init__(self, seed):
        super().__init__(seed)
        self.quiet, self.draws = 0, []

    def _note(self, f, *a, **k):
        self.quiet += 1        # one method may call another
        try:
            v = f(*a, **k)
        finally:
            self.quiet -= 1
        if not self.quiet:
            self.draws += np.ravel(v).tolist()
        return v

    def rand(self, *a):
        return self._note(super().rand, *a)

    def random_sample(self, *a, **k):
        return self._note(super().random_sample, *a, **k)

    def random(self, *a, **k):
        return self._note(super().random, *a, **k)

    def uniform(self, low=0.0, high=1.0, size=None):
        if low == 0.0 and high == 1.0:
            return self._note(super().uniform, low, high, size)
        return super().uniform(low, high, size)


def singular(r):
    """Right singular vectors of an adversary: whole columns without
    leverage, columns with all of it, ties."""
    def gen(shape):
        V = r.normal(size=shape) / np.sqrt(shape[1])
        for j in range(shape[1]):
            q = r.randint(6)
            if q == 0:
                V[:, j] = 0
            elif q == 1:
                V[:, j] = V[:, 0]
            elif q == 2:
                V[:, j] *= 5
        return V
    return gen


def cur_case(ch, run, kind):
    d = 'case'
    n, p = 12 + ch.draw(d, 12), 3 + ch.draw(d, 6)
    K = 1 + ch.draw(d, min(p, 6) - 1)
    seed, data = ch.draw(d, 60000), ch.draw(d, 100000)
    adv = ch.flip(d, 0.35)
    dt = ch.pick(d, ['f8', 'f8', 'f4', 'int'])
    r = np.random.RandomState(data)
    X = r.normal(size=(n, p)) * r.choice([0.05, 1, 5], size=p)
    X = np.round(X * 3).astype(int) if dt == 'int' else X.astype(dt)
    gen = singular(np.random.RandomState(ch.draw(d, 1 << 30))) if adv \
        else None
    run.case = dict(kind=kind, n=n, p=p, K=K, seed=seed, data=data, adv=adv,
                    X=dt)
    return n, p, K, seed, X, gen, ch.pick(d, ['randomized', 'arpack'])


def chosen(V, k, c, draws):
    """(certainly selected, possibly selected) columns."""
    pi = (V[:k].astype(float) ** 2).sum(axis=0) / k
    pr = np.minimum(1, c * pi)
    u = np.asarray(draws)
    slack = 1e-12 if V.dtype == np.float64 else 1e-5
    return pr > u + slack, pr > u - slack, pi


class SVD(Record):
    """Marks in the stream of draws where each decomposition began."""

    def __init__(self, cls, replace, fail, stream):
        super().__init__(cls, replace, fail)
        self.stream, self.marks = stream, []

    def _wrap(self, f):
        g0 = super()._wrap(f)

        def g(obj, X, *a, **k):
            self.stream.quiet += 1
            try:
                out = g0(obj, X, *a, **k)
            finally:
                self.stream.quiet -= 1
            if not self.depth and not self.stream.quiet:
                self.marks.append(len(self.stream.draws))
            return out
        return g


def uoi_cur(ch, run):
    from sklearn.decomposition import TruncatedSVD
    from pyuoi.decomposition import UoI_CUR
    n, p, K, seed, X, gen, algo = cur_case(ch, run, 'uoi-cur')
    if algo == 'arpack' and K >= p:
        algo = 'randomized'
    d = 'case'
    B = 1 + ch.draw(d, 6)
    if ch.flip(d, 0.01):
        B = 130 + ch.draw(d, 200)       # more than fit into a byte
        run.probe('hundreds')
    frac = ch.pick(d, [1, 0.75, 0.6])
    stab = ch.pick(d, [1., 1, 0.5, 'most'])
    if stab == 'most':
        stab = 1 + ch.draw(d, B)
    if isinstance(stab, float) and int(stab * B) < 1:
        stab = 1
    thr = int(stab * B) if isinstance(stab, float) else stab
    ks = ch.pick(d, [None, None, 'one', 'some', 'array'])
    ks = {'one': 1 + ch.draw(d, K), 'some': [K, 1], 'array':
          1 + np.arange(K)}.get(ks, None)
    kk = [int(k) for k in (1 + np.arange(K) if ks is None else
                           np.atleast_1d(ks))]
    cs = ch.pick(d, [None, 1, 2.5, 'list', 0.05])
    if cs == 'list':
        cs = [ch.pick(d, [0.5, 1, 2.0, 4]) for _ in kk]
    cc = [k + 20 for k in kk] if cs is None else \
        [float(cs)] * len(kk) if np.ndim(cs) == 0 else list(cs)
    fits = 1 + ch.flip(d, 0.3)
    fail = 1 + ch.draw('fault', B) if fits == 2 and ch.flip('fault', 0.4) \
        else None
    run.case.update(B=B, frac=frac, stab=stab, ks=kk, cs=cc, fits=fits,
                    fail=fail, algo=algo)
    S = Stream(seed)
    at_once = ch.flip(d, 0.3)
    m = UoI_CUR(n_boots=B, max_k=K, boots_frac=frac, algorithm=algo,
                stability_selection=stab, random_state=S)
    for f in range(fits):
        what = 'fit %d: ' % f
        XX = X[::-1] if f else X
        del S.draws[:]
        try:
            with SVD(TruncatedSVD, gen, None if f else fail, S) as rec:
                A = XX.astype(float) if XX.dtype == int else XX.copy()
                if at_once:
                    W = m.fit_transform(A, ks=ks, cs=cs)
                else:
                    m.fit(A, ks=ks, cs=cs)
        except Boom:
            run.fault('solver-fails')
            run.probe('after-failure')
            continue
        except Exception as e:
            raise Violation('raises', what + repr(e))
        if not f and fail and rec.n >= fail:
            raise Violation('swallowed', what + 'solver call %d failed, the '
                            'fit did not' % fail)
        if gen is not None:
            run.fault('arbitrary-solver-result')
            run.probe('adversary')
        if len(rec.runs) != B or \
                len(S.draws) != B * len(kk) * p or \
                rec.marks != [b * len(kk) * p for b in range(B)]:
            run.probe('history-unclear')
            return
        for A, _ in rec.runs:
            if frac == 1 and A.shape != X.shape:
                raise Violation('sample', what + '%d of %d rows for a '
                                'fraction of 1' % (len(A), n))
        sure, may = np.zeros(p, bool), np.zeros(p, bool)
        u = np.reshape(S.draws, (B, len(kk), p))
        for i, k in enumerate(kk):
            pick = [chosen(V, k, cc[i], u[b, i])
                    for b, (_, V) in enumerate(rec.runs)]
            sure |= sum(s.astype(int) for s, _, _ in pick) >= thr
            may |= sum(s.astype(int) for _, s, _ in pick) >= thr
            if any((cc[i] * pi >= 1).any() for _, _, pi in pick):
                run.probe('certain-column')
        got = np.asarray(m.column_indices_)
        run.log(what, got.tolist())
        flags = np.zeros(p, bool)
        flags[got] = True
        if (sure & ~flags).any() or (flags & ~may).any() or \
                len(set(got.tolist())) != len(got) or sorted(got) != \
                list(got):
            raise Violation('columns', what + 'columns %s selected; the '
                            'draws give %s (threshold %d of %d)'
                            % (got.tolist(), np.flatnonzero(sure).tolist(),
                               thr, B))
        parts(m, XX.astype(float) if XX.dtype == int else XX, got, what, run)
        if at_once and len(got):
            run.probe('fit-transform')
            if differ(W, XX[:, got]):
                raise Violation('fit-transform', what + 'fit_transform did '
                                'not return columns %s' % got.tolist())
        run.nontrivial = True
        run.probe('uoi-cur')
        if f:
            run.probe('refit')
        if 1 < thr < B:
            run.probe('several-thresholds')


def parts(m, X, got, what, run):
    C = np.asarray(m.components_)
    if len(got):
        if differ(C, X[:, got]):
            raise Violation('components', what + 'components_ are not the '
                            'columns %s' % got.tolist())
    else:
        run.probe('no-columns')
        if C.size:
            raise Violation('components', what + 'components_ of shape %s '
                            'without columns' % (C.shape,))
        return
    T = np.arange(3. * X.shape[1]).reshape(3, -1)
    if differ(m.transform(T), T[:, got]):
        raise Violation('transform', what + 'is not columns %s'
                        % got.tolist())


def cur(ch, run):
    from sklearn.decomposition import TruncatedSVD
    from pyuoi.decomposition import CUR
    n, p, K, seed, X, gen, algo = cur_case(ch, run, 'cur')
    if algo == 'arpack' and K >= p:
        algo = 'randomized'
    c = ch.pick('case', [None, 1, 2.5, 0.05])
    fits = 1 + ch.flip('case', 0.3)
    run.case.update(c=c, fits=fits, algo=algo)
    S = Stream(seed)
    at_once = ch.flip('case', 0.3)
    m = CUR(max_k=K, algorithm=algo, random_state=S)
    for f in range(fits):
        what = 'fit %d: ' % f
        XX = (X[::-1] if f else X).astype(float)
        del S.draws[:]
        with SVD(TruncatedSVD, gen, None, S) as rec:
            if at_once:
                W = m.fit_transform(XX.copy(), c=c)
            else:
                m.fit(XX.copy(), c=c)
        if gen is not None:
            run.fault('arbitrary-solver-result')
            run.probe('adversary')
        if len(rec.runs) != 1 or len(S.draws) != p:
            run.probe('history-unclear')
            return
        sure, may, pi = chosen(rec.runs[0][1], K, K + 20 if c is None else c,
                               S.draws)
        got = np.asarray(m.column_indices_)
        run.log(what, got.tolist())
        flags = np.zeros(p, bool)
        flags[got] = True
        if (sure & ~flags).any() or (flags & ~may).any() or \
                len(set(got.tolist())) != len(got):
            raise Violation('columns', what + 'columns %s selected; the '
                            'draws give %s' % (got.tolist(),
                                               np.flatnonzero(sure).tolist()))
        if (np.diff(pi[got]) < -1e-12 * (1 + pi.max())).any():
            raise Violation('order', what + 'columns %s have leverage scores '
                            '%s' % (got.tolist(), pi[got].tolist()))
        if len(got):
            parts(m, XX, got, what, run)
        if at_once and len(got):
            run.probe('fit-transform')
            if differ(W, XX[:, got]):
                raise Violation('fit-transform', what + 'fit_transform did '
                                'not return columns %s' % got.tolist())
        run.nontrivial = True
        run.probe('cur')
        if f:
            run.probe('refit')
