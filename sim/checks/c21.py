"""C21: resamples are random subsets of the right size, each different."""
import collections

import numpy as np

from sim import dist, mpi, reference, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1400, 40000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws a model, at least 60 rows, sizes, strata and a way of '
        'giving the random state (integer types, generator, a generator '
        'shared by two estimators, none), fits up to two estimators twice '
        'each, serially or on simulated ranks, and identifies the rows of '
        'every solver run by their values. Over the history: sizes, '
        'proportions, no row twice, all splits of all bootstraps, phases and '
        'fits different, every row in and out of the sample at least once. '
        'The decompositions likewise. Non-trivial: two resamples were seen.')
ASSUMPTIONS = ['two independent splits of 60 or more rows coincide with '
               'probability below 1e-12; a row is always in or always out of '
               '60 splits with probability below 1e-9']
PROBES = ('linear', 'distributed', 'cur', 'nmf', 'stratified', 'all-rows',
          'shared', 'none', 'instance')
SEEDS = {'int': int, 'int64': np.int64, 'int32': np.int32,
         'uint16': np.uint16, 'instance': np.random.RandomState,
         'none': lambda s: None, 'module': lambda s: np.random.mtrand._rand}


def scenario(ch, run):
    seams.reset(ch, run)
    k = ch.draw('case', 10)
    how = ch.pick('case', list(SEEDS))
    if k == 0:
        return cur(ch, run, how)
    if k == 1:
        return nmf(ch, run, how)
    c = W.fit_case(ch)
    c['n'] = 60 + ch.draw('case', 20)
    c['f1'], c['f2'] = [ch.pick('case', [0.6, 0.7, 0.65]) for _ in 'ab']
    cheap = c['kind'] in ('lasso', 'enet')
    many = cheap and ch.flip('case', 0.5)
    if many:
        c['B1'], c['B2'], c['reg'] = 18, 18, min(c['reg'], 2)
    c['stab'] = ch.pick('case', [1, 0.5, 1.0])
    size = dist.sizes(ch, c) if ch.flip('case', 0.35) else 1
    strata = None
    groups = ch.pick('case', [None, None, 2, 3])
    X, y, _ = W.case_data(c)
    if c['kind'] == 'logistic':
        strata = y.copy()
    elif groups:
        r = np.random.RandomState(c['data'])
        strata = 1 + np.minimum(r.randint(groups + 1, size=c['n']),
                                groups - 1)
    shared = how == 'instance' and ch.flip('case', 0.5)
    run.case = dict(c, size=size, how=how, shared=shared,
                    strata=None if strata is None else
                    np.bincount(strata).tolist())
    prob = reference.Problem(c, X, y)
    objects = 2 if shared or how in ('none', 'module') else 1
    ran = []          # histories

    def fits(comm, note):
        rs = [SEEDS[how](c['seed'] % 60000)] * 2 if shared else \
            [SEEDS[how](c['seed'] % 60000) for _ in range(objects)]
        out = []
        for i in range(objects):
            m = W.make(c, comm=comm, random_state=rs[i])
            for f in range(2):
                h = note(i, f)
                if comm is not None:
                    comm.Barrier()
                m.fit(X.copy(), y.copy(),
                      stratify=None if strata is None else strata.copy())
                out.append((h, m.reg_params_, m.supports_.copy()))
        return out

    def note(i, f):
        h = reference.History(prob)
        seams.solvers.after = h
        return h
    try:
        if size == 1:
            ran = fits(None, note)
        else:
            hs = {}
            stage = {}

            def per_rank(who, *a):
                hs.setdefault(stage[who], reference.History(prob))(who, *a)

            def main(comm):
                def note(i, f):
                    stage['r%d' % comm.rank] = (i, f)
                    return i, f
                return fits(comm, note)
            seams.solvers.after = per_rank
            w = mpi.World(ch, run, size)
            got = w.launch(main)
            for o in got:
                if isinstance(o.error, Violation):
                    raise o.error
            if any(o.state != 'ok' for o in got):
                run.probe('fit-raises')
                return
            ran = [(hs.get(k) or reference.History(prob), rp, s)
                   for k, rp, s in got[0].value]
            run.probe('distributed')
    except Violation:
        raise
    except Exception as e:
        run.probe('fit-raises')
        run.note = repr(e)
        return
    finally:
        seams.solvers.reset(run)
    every = []
    for i, (h, rp, sup) in enumerate(ran):
        every += splits(run, c, prob, h, rp, sup, strata, 'fit %d: ' % i)
    compare(every)
    if len(every) >= 60:
        n_in = np.zeros(c['n'], int)
        for _, rows in every:
            n_in[list(rows)] += 1
        if n_in.min() == 0 or n_in.max() == len(every):
            raise Violation('not-random', 'in %d splits, rows %s are never '
                            'and rows %s always in the sample'
                            % (len(every), np.flatnonzero(n_in == 0).tolist(),
                               np.flatnonzero(n_in == len(every)).tolist()))
        run.probe('all-rows')
    run.nontrivial = len(every) > 1
    run.probe('linear')
    for k, v in (('stratified', strata is not None), ('shared', shared),
                 (how, True)):
        if v:
            run.probe(k)


def compare(every):
    seen = {}
    for what, rows in every:
        if rows in seen:
            raise Violation('repeated-split', '%s and %s use the same rows %s'
                            % (seen[rows], what, list(rows)))
        seen[rows] = what


def splits(run, c, prob, h, reg_params, sup, strata, what):
    if h.unknown:
        run.probe('unrecognised-solver-call')
        return []
    regs = reference.regularizations(prob, reg_params)
    sel, est = collections.Counter(), collections.Counter()
    for who, k in h.calls:
        if len(k.rows) == c['n']:
            continue        # intercepts
        if k.phase == 'PycLasso' or \
                reference.parameter(prob, k, regs) is not None:
            sel[k.rows] += 1
        else:
            est[k.rows] += 1
    some = int((sup.reshape(len(sup), -1).sum(axis=1) > 0).sum())
    R = 1 if c['kind'] == 'pyc' else len(regs)
    out = []
    for name, cnt, B, per, frac in (
            ('selection', sel, c['B1'], R, c['f1']),
            ('estimation', est, c['B2'] if some else 0, some, c['f2'])):
        if sum(cnt.values()) == B * per and len(cnt) < B:
            raise Violation('repeated-split', '%s%d %s bootstraps used %d '
                            'different splits' % (what, B, name, len(cnt)))
        if sum(cnt.values()) == B * per and len(cnt) > B:
            raise Violation('several-splits', '%sthe solver runs of %d %s '
                            'bootstraps used %d different splits'
                            % (what, B, name, len(cnt)))
        for i, rows in enumerate(cnt):
            w = '%s%s bootstrap %d' % (what, name, i)
            check(rows, c['n'], frac, strata, w)
            out.append((w, rows))
    return out


def check(rows, n, frac, strata, what):
    if len(set(rows)) != len(rows):
        raise Violation('repeated-rows', '%s: rows %s' % (what, list(rows)))
    if abs(len(rows) - frac * n) > 1 + 1e-9:
        raise Violation('size', '%s has %d of %d rows for a fraction of %s'
                        % (what, len(rows), n, frac))
    if strata is not None:
        for s in set(strata.tolist()):
            n_s = int((strata == s).sum())
            t = int((strata[list(rows)] == s).sum())
            if abs(t - frac * n_s) >= 2:
                raise Violation('strata', '%s has %d of the %d rows of '
                                'stratum %s for a fraction of %s'
                                % (what, t, n_s, s, frac))


# ------------------------------------------------------------ decompositions

class Seen:
    """Calls of a scikit-learn decomposition, outermost only."""

    def __init__(self, cls):
        self.cls = cls
        self.inputs = []
        self.depth = 0

    def __enter__(self):
        self.orig = {}
        for n in ('fit', 'fit_transform'):
            if n in self.cls.__dict__:
                self.orig[n] = self.cls.__dict__[n]
                setattr(self.cls, n, self._wrap(self.orig[n]))
        return self

    def _wrap(self, f):
        def g(obj, X, *a, **k):
            if not self.depth:
                self.inputs.append(np.array(X))
            self.depth += 1
            try:
                return f(obj, X, *a, **k)
            finally:
                self.depth -= 1
        return g

    def __exit__(self, *e):
        for n, f in self.orig.items():
            setattr(self.cls, n, f)


def rows_of(A, X):
    d = np.abs(A[:, None, :] - X[None]).max(axis=2)
    if d.shape[0] == 0 or d.min(axis=1).max() > 1e-12:
        return None
    return d.argmin(axis=1)


def cur(ch, run, how):
    from sklearn.decomposition import TruncatedSVD
    from pyuoi.decomposition import UoI_CUR
    d = 'case'
    n, p, B = 60 + ch.draw(d, 15), 4 + ch.draw(d, 5), 2 + ch.draw(d, 20)
    frac = ch.pick(d, [0.6, 0.7, 0.65, 0.95, 0.9])
    seed, data = ch.draw(d, 60000), ch.draw(d, 100000)
    algo = ch.pick(d, ['randomized', 'arpack'])
    groups = ch.pick(d, [None, None, 2])
    r = np.random.RandomState(data)
    X = r.normal(size=(n, p))
    strata = None if groups is None else 1 + r.randint(groups, size=n)
    run.case = dict(kind='cur', n=n, p=p, B=B, frac=frac, seed=seed,
                    data=data, how=how, algo=algo, groups=groups)
    m = UoI_CUR(n_boots=B, max_k=2, boots_frac=frac, algorithm=algo,
                stability_selection=0.5, random_state=SEEDS[how](seed))
    every = []
    again = how in ('instance', 'none', 'module')
    for f in range(2):
        with Seen(TruncatedSVD) as s:
            m.fit(X.copy(), stratify=strata)
        mine = []
        for i, A in enumerate(s.inputs):
            rows = rows_of(A, X)
            if rows is None:
                run.probe('unrecognised-solver-call')
                return
            w = 'CUR fit %d bootstrap %d' % (f, i)
            check(tuple(rows.tolist()), n, frac, strata, w)
            mine.append((w, tuple(sorted(rows.tolist()))))
        if len(mine) != B:
            return
        if frac > 0.8:
            # (few rows are held out, and chance repeats)
            if B > 4 and len({r for _, r in mine}) == 1:
                compare(mine)
            continue
        compare(mine)
        every += mine
    if again:
        compare(every)
    run.nontrivial = True
    run.probe('cur')
    run.probe(how)


def nmf(ch, run, how):
    from sklearn.decomposition import NMF
    from pyuoi.decomposition import UoI_NMF
    d = 'case'
    n, p, B = 30 + ch.draw(d, 15), 4 + ch.draw(d, 4), 2 + ch.draw(d, 8)
    seed, data = ch.draw(d, 60000), ch.draw(d, 100000)
    r = np.random.RandomState(data)
    X = r.rand(n, 3).dot(r.rand(3, p)) + 0.05 + 0.05 * r.rand(n, p)
    run.case = dict(kind='nmf', n=n, p=p, B=B, seed=seed, data=data, how=how)
    m = UoI_NMF(n_boots=B, ranks=2, nmf_init='random', nmf_solver='mu',
                nmf_max_iter=5, random_state=SEEDS[how](seed))
    every = []
    for f in range(2):
        with Seen(NMF) as s:
            try:
                m.fit(X.copy())
            except Exception:
                run.probe('fit-raises')
                return
        boots = np.asarray(m.bootstraps_)
        if boots.shape != (B, n) or boots.min() < 0 or boots.max() >= n:
            raise Violation('size', 'NMF bootstraps of shape %s, rows %s to '
                            '%s' % (boots.shape, boots.min(), boots.max()))
        mine = [('NMF fit %d bootstrap %d' % (f, i), tuple(b.tolist()))
                for i, b in enumerate(boots)]
        every += mine
        used = [rows_of(A, X) for A in s.inputs]
        used = [tuple(u.tolist()) for u in used if u is not None and
                len(u) == n and u.tolist() != list(range(n))]
        for w, b in mine:
            if len(used) >= B and b not in used:
                raise Violation('other-rows', '%s says rows %s; no solver '
                                'had them' % (w, list(b)))
    compare(every)
    hits = np.bincount(np.concatenate([b for _, b in every]), minlength=n)
    # each row is drawn about once per bootstrap
    if len(every) >= 16 and (hits.min() == 0 or
                             hits.max() > len(every) * n // 2):
        raise Violation('not-random', 'draws per row: %s' % hits.tolist())
    # with replacement: all rows at once has a probability below 1e-10
    if sum(len(set(b)) == n for _, b in every):
        raise Violation('not-random', 'a bootstrap of %d rows without one '
                        'that is repeated' % n)
    run.nontrivial = True
    run.probe('nmf')
    run.probe(how)
