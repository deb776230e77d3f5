"""Anything pyuoi fits, behind one interface: draw it, make it, fit it, read
the result. The result holds what a user can see, copied."""
import numpy as np

from . import workloads as W

UOI = list(W.KINDS)
OTHER = ['cur', 'curp', 'nmf', 'poisson1', 'masklog1', 'pyc1', 'lbfgs',
         'dataset']


on_eval = None       # called in every evaluation of an 'lbfgs' job


class Holder:
    pass


class Job:
    def __init__(self, ch, kinds, **kw):
        d = 'case'
        k = ch.pick(d, kinds)
        self.kind = k
        if k in UOI:
            kw.setdefault('dress', 0.2)
            self.c = W.fit_case(ch, kinds=[k], **kw)
            self.seed = self.c['seed']
            return
        c = self.c = dict(kind=k, data=ch.draw(d, 100000),
                          seed=ch.draw(d, 10000))
        self.seed = c['seed']
        if k in ('cur', 'curp'):
            c.update(n=12 + ch.draw(d, 12), p=4 + ch.draw(d, 6),
                     max_k=1 + ch.draw(d, 3), B=1 + ch.draw(d, 4),
                     frac=ch.pick(d, [0.7, 0.9, 1]),
                     stab=ch.pick(d, [1.0, 0.5]),
                     algo=ch.pick(d, ['randomized', 'arpack']),
                     cs=ch.pick(d, [2, 3.5, 1]), strat=ch.flip(d, 0.2))
            if int(c['stab'] * c['B']) < 1:
                c['stab'] = 1.0
        elif k == 'nmf':
            c.update(n=10 + ch.draw(d, 8), p=4 + ch.draw(d, 4),
                     B=2 + ch.draw(d, 3), ranks=ch.pick(d, [2, 3, [2, 4]]),
                     diss=ch.flip(d, 0.5), solver=ch.pick(d, ['mu', 'cd']),
                     iter=ch.pick(d, [10, 40]),
                     base=ch.pick(d, [None, None, 'default', 'estimator',
                                      'median']))
        elif k == 'poisson1':
            c.update(n=20 + ch.draw(d, 15), p=2 + ch.draw(d, 4),
                     alpha=ch.pick(d, [0.05, 0.5, 0.001]),
                     l1=ch.pick(d, [1.0, 0.5]), std=ch.flip(d, 0.5),
                     solver=ch.pick(d, ['lbfgs', 'cd']))
        elif k == 'masklog1':
            c.update(n=20 + ch.draw(d, 15), p=2 + ch.draw(d, 4),
                     C=ch.pick(d, [1.0, 0.1, 20.0]),
                     pen=ch.pick(d, ['l2', 'l1']), std=ch.flip(d, 0.5),
                     classes=ch.pick(d, [2, 3]), mask=ch.flip(d, 0.5),
                     multi=ch.pick(d, ['auto', 'multinomial']),
                     cw=ch.pick(d, [None, None, 'balanced', 'dict']),
                     icpt=not ch.flip(d, 0.25), own=ch.flip(d, 0.4))
        elif k == 'pyc1':
            c.update(n=20 + ch.draw(d, 15), p=2 + ch.draw(d, 4),
                     L=3 + ch.draw(d, 3))
        elif k == 'lbfgs':
            c.update(p=1 + ch.draw(d, 6), l1=ch.pick(d, [0, 0.3, 2.0]),
                     fn=ch.pick(d, ['quad', 'rosen', 'logit']),
                     m=ch.pick(d, [10, 3, 1]),
                     ls=ch.pick(d, ['default', 'wolfe', 'armijo',
                                    'strongwolfe']),
                     it=ch.pick(d, [0, 5]))
        elif k == 'dataset':
            c.update(which=ch.pick(d, ['linear', 'class', 'poisson']),
                     n=5 + ch.draw(d, 20), p=2 + ch.draw(d, 5),
                     icpt=ch.flip(d, 0.5), classes=ch.pick(d, [2, 3]),
                     shared=ch.flip(d, 0.5))
            # (with a large scale the Poisson rates cannot be drawn from)
            c.update(inf=ch.draw(d, c['p'] + 1) if ch.flip(d, 0.5) else 1,
                     scale=ch.pick(d, [1.0, 1.0, 0.3, 40.0]),
                     loc=ch.pick(d, [0.0, 0.0, 1.5]),
                     size=ch.pick(d, [1.0, 1.0, 3.0]))

    # ------------------------------------------------------------- inputs
    def args(self):
        """Fresh arrays: X, y, stratify."""
        c, k = self.c, self.kind
        if k in UOI:
            return W.case_data(c)
        r = np.random.RandomState(c['data'])
        if k in ('cur', 'curp'):
            X = r.normal(size=(c['n'], 3)).dot(r.normal(size=(3, c['p'])))
            X += 0.3 * r.normal(size=X.shape)
            return X, None, (np.arange(c['n']) % 2 + 1) if c['strat'] and \
                k == 'cur' else None
        if k == 'nmf':
            X = r.rand(c['n'], 3).dot(r.rand(3, c['p'])) + 0.05
            return X + 0.05 * r.rand(*X.shape), None, None
        if k == 'poisson1':
            X, y = W.data('poisson', c['data'], c['n'], c['p'])
            return X / 3, y, None
        if k == 'masklog1':
            n = max(c['n'], 8 * c['classes'])
            X, y = W.data('logistic', c['data'], n, c['p'],
                          classes=c['classes'])
            mask = None
            if c['mask']:
                # one mask for all classes
                nc = 1 if c['classes'] == 2 and c['multi'] == 'auto' else \
                    c['classes']
                one = (r.rand(c['p']) < 0.7).astype(int)
                one[r.randint(c['p'])] = 1
                mask = np.tile(one, (nc, 1))
                if c['own'] and nc > 1:
                    # each class its own, no class without
                    mask = (r.rand(nc, c['p']) < 0.7).astype(int)
                    mask[np.arange(nc), r.randint(c['p'], size=nc)] = 1
                if nc == 1:
                    mask = mask.ravel()
            return X, y, mask
        if k == 'pyc1':
            X, y = W.data('lin', c['data'], c['n'], c['p'])
            return X, y, None
        return None, None, None

    # ------------------------------------------------------------ running
    def new(self, random_state='seed', comm=None, logger=None):
        c, k = self.c, self.kind
        rs = c['seed'] if isinstance(random_state, str) else random_state
        if k in UOI:
            return W.make(c, comm=comm, random_state=rs, logger=logger)
        if k == 'cur':
            from pyuoi.decomposition import UoI_CUR
            return UoI_CUR(n_boots=c['B'], max_k=min(c['max_k'], c['p'] - 1),
                           boots_frac=c['frac'],
                           stability_selection=c['stab'],
                           algorithm=c['algo'], random_state=rs)
        if k == 'curp':
            from pyuoi.decomposition import CUR
            return CUR(max_k=min(c['max_k'], c['p'] - 1),
                       algorithm=c['algo'], random_state=rs)
        if k == 'nmf' and c['base']:
            from sklearn.decomposition import NMF
            from sklearn.linear_model import LinearRegression
            from pyuoi.decomposition.NMF import UoI_NMF_Base
            kw = {}
            if c['base'] == 'estimator':
                kw = dict(nnreg=LinearRegression(positive=True))
            elif c['base'] == 'median':
                kw = dict(cons_meth=np.median)
            if c['base'] != 'default':
                kw['nmf'] = NMF(init='random', solver=c['solver'],
                                max_iter=c['iter'])
            return UoI_NMF_Base(n_boots=c['B'], ranks=c['ranks'],
                                use_dissimilarity=c['diss'], random_state=rs,
                                logger=logger, **kw)
        if k == 'nmf':
            from pyuoi.decomposition import UoI_NMF
            return UoI_NMF(n_boots=c['B'], ranks=c['ranks'],
                           nmf_init='random', nmf_solver=c['solver'],
                           nmf_beta_loss='frobenius' if c['solver'] == 'cd'
                           else 'kullback-leibler', nmf_max_iter=c['iter'],
                           use_dissimilarity=c['diss'], random_state=rs,
                           logger=logger)
        if k == 'poisson1':
            from pyuoi.linear_model import Poisson
            return Poisson(alpha=c['alpha'], l1_ratio=c['l1'],
                           standardize=c['std'], solver=c['solver'],
                           max_iter=100)
        if k == 'masklog1':
            from pyuoi.linear_model.logistic import \
                MaskedCoefLogisticRegression
            return MaskedCoefLogisticRegression(
                C=c['C'], penalty=c['pen'], standardize=c['std'],
                multi_class=c['multi'], max_iter=100,
                fit_intercept=c['icpt'],
                class_weight={q: 1.0 + q for q in range(c['classes'])}
                if c['cw'] == 'dict' else c['cw'])
        if k == 'pyc1':
            from pyuoi.linear_model.lasso import PycLasso
            return PycLasso(alphas=np.logspace(0, -1.5, c['L']))
        h = Holder()
        h.rs = rs
        return h

    def fit(self, m, args, **kw):
        c, k = self.c, self.kind
        X, y, s = args
        if k in UOI:
            m.fit(X, y, stratify=s, **kw)
        elif k == 'cur':
            m.fit(X, cs=c['cs'], stratify=s)
        elif k == 'curp':
            m.fit(X, c=c['cs'])
        elif k == 'nmf':
            m.fit(X, **kw)
        elif k == 'masklog1':
            m.fit(X, y, coef_mask=s, **kw)
        elif k in ('poisson1', 'pyc1'):
            m.fit(X, y, **kw)
        elif k == 'lbfgs':
            m.x = self.minimize()
        else:
            m.out = self.generate(m.rs)
        return m

    def objective(self):
        c = self.c
        r = np.random.RandomState(c['data'])
        p = c['p']
        A = r.normal(size=(p + 2, p))
        b = r.normal(size=p + 2)
        if c['fn'] == 'quad':
            def f(x, g, *a):
                e = A.dot(x) - b
                g[:] = A.T.dot(e)
                return 0.5 * e.dot(e)
        elif c['fn'] == 'rosen':
            def f(x, g, *a):
                u = np.asarray(x) - b[:p]
                g[:] = 2 * u + 0.4 * u ** 3
                g[0] += 0.3 * np.cos(u[0])
                return float(u.dot(u) + 0.1 * (u ** 4).sum() +
                             0.3 * np.sin(u[0]))
        else:
            y = np.sign(b)

            def f(x, g, *a):
                z = y * A.dot(x)
                g[:] = A.T.dot(-y / (1 + np.exp(z))) + 0.2 * x
                return float(np.logaddexp(0, -z).sum() + 0.1 * x.dot(x))
        return f, r.normal(size=p)

    def minimize(self, **kw):
        from pyuoi.lbfgs import fmin_lbfgs
        c = self.c
        f, x0 = self.objective()
        o = dict(orthantwise_c=c['l1'], m=c['m'], max_iterations=c['it'],
                 line_search=c['ls'])
        o.update(kw)
        f = o.pop('f', f)
        if on_eval is not None:
            g = f

            def f(x, grad, *a):
                on_eval(self)
                return g(x, grad, *a)
        x0 = o.pop('x0', x0)
        return fmin_lbfgs(f, x0, **o)

    def generate(self, rs):
        from pyuoi import datasets
        c = self.c
        if c['which'] == 'linear':
            return datasets.make_linear_regression(
                n_samples=c['n'], n_features=c['p'], n_informative=c['inf'],
                X_loc=c['loc'], X_scale=c['scale'], snr=5 * c['size'],
                beta_low=-c['size'], beta_high=2 * c['size'],
                include_intercept=c['icpt'], random_state=rs)
        if c['which'] == 'class':
            return datasets.make_classification(
                n_samples=c['n'], n_features=c['p'], n_informative=c['inf'],
                n_classes=c['classes'], shared_support=c['shared'],
                w_scale=c['scale'],
                include_intercept=c['icpt'], random_state=rs)
        return datasets.make_poisson_regression(
            n_samples=c['n'], n_features=c['p'], n_informative=c['inf'],
            X_loc=c['loc'], X_scale=c['scale'], beta_shape=c['size'],
            include_intercept=c['icpt'], random_state=rs)

    # ------------------------------------------------------------- result
    def result(self, m, predict=True):
        c, k = self.c, self.kind
        if k == 'lbfgs':
            return dict(x=np.array(m.x))
        if k == 'dataset':
            return {'out%d' % i: np.array(v) for i, v in enumerate(m.out)}
        if k in UOI:
            out = W.state(m)
        else:
            out = {}
            for a in ('coef_', 'intercept_', 'components_',
                      'column_indices_', 'bases_samples_',
                      'bases_samples_labels_', 'bootstraps_',
                      'dissimilarity_', 'classes_'):
                if hasattr(m, a) and getattr(m, a) is not None:
                    out[a] = np.array(getattr(m, a))
        if predict:
            out.update(self.predictions(m))
        return out

    def predictions(self, m):
        out = {}
        X = W.rows(self.args()[0], 6)
        for f in ('predict', 'predict_proba', 'predict_mean', 'transform'):
            if hasattr(m, f):
                if self.kind == 'nmf' and not len(m.components_):
                    continue
                try:
                    out[f] = np.array(getattr(m, f)(X))
                except Exception as e:
                    out[f] = np.array([type(e).__name__])
        return out

    def reference(self, **kw):
        """(result, None), or (None, error) when the job has no result."""
        try:
            m = self.new(**kw)
            self.fit(m, self.args())
            return self.result(m), None
        except Exception as e:
            return None, e

    def info(self):
        return dict(self.c)


def differ(a, b, **kw):
    return W.differ(a, b, **kw)
