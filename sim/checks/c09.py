"""C09: a fit depends on its arguments, not on what the estimator did before."""
import numpy as np

from sim import dist, jobs, mpi, sched, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 2000, 120000
REAL, STUB = dist.REAL, dist.STUB
RULE = ('A run draws an estimator and 1-4 earlier operations on it: fits on '
        'other data, sizes or classes, fits that fail in a drawn solver '
        'call, fits interrupted at a drawn line of pyuoi, fits on invalid or '
        'constant data, with other parameters, predictions; some on 2-4 simulated ranks. Its random '
        'stream is then set back and the last fit must equal that of a fresh '
        'estimator. Non-trivial: an earlier operation touched the estimator.')
ASSUMPTIONS = ['estimators that promise a warm start across fit calls are '
               'not asked for it']
PROBES = ('other-data', 'other-parameters', 'solver-failed', 'interrupted', 'invalid', 'constant',
          'distributed', 'predicted')
# what may be changed between fits: by one or more, or by a factor
SETTINGS = {'n_boots_est': 1, 'n_lambdas': 1, 'n_C': 1, 'eps': 0.5,
            'n_boots': 1, 'estimation_frac': 0.9, 'selection_frac': 0.9,
            'max_iter': 1, 'alpha': 0.5, 'C': 0.5}
KINDS = jobs.UOI * 2 + ['cur', 'curp', 'nmf', 'poisson1', 'masklog1', 'pyc1']


def other_args(ch, j):
    """Data of another shape for the same parameters."""
    c = dict(j.c)
    c['data'] += 1 + ch.draw('case', 50)
    if 'n' in c:
        c['n'] += ch.draw('case', 8)
    c['p'] += ch.draw('case', 3)
    if 'classes' in c and j.kind == 'logistic' and ch.flip('case', 0.4):
        c['classes'] = 5 - c['classes']
        c['n'] = max(c['n'], 10 * c['classes'])
    o = jobs.Job.__new__(jobs.Job)
    o.c, o.kind, o.seed = c, j.kind, j.seed
    return o.args()


def constant(args, kind):
    X, y, s = args
    v = 1 if kind in ('logistic', 'masklog1') else 3.0
    if y is None:
        return X, None, s
    y = np.full_like(y, v)
    return X, y, None


def scenario(ch, run):
    seams.reset(ch, run)
    j = jobs.Job(ch, KINDS)
    last_const = ch.flip('case', 0.05) and j.kind in ('lasso', 'enet',
                                                      'poisson')
    args = j.args()
    if last_const:
        args = constant(args, j.kind)
    instance = ch.flip('case', 0.9) or j.kind not in ('cur', 'curp',
                                                      'poisson1', 'masklog1')

    def rng():
        return np.random.RandomState(j.seed)
    rs = rng() if instance else j.seed
    start = rs.get_state() if instance else None
    try:
        m = j.new(random_state=rng() if instance else j.seed)
        j.fit(m, j.args() if not last_const else constant(j.args(), j.kind))
        own = error_of(m)
        ref = j.result(m)
    except Exception:
        run.probe('serial-raises')
        return
    n = 1 + ch.draw('case', 4)
    ops = [ch.pick('case', ['other', 'solver', 'line', 'bad', 'constant',
                            'predict', 'other', 'params'])
           for _ in range(n)]
    if j.kind in jobs.UOI and ch.flip('case', 0.2):
        return distributed(ch, run, j, ref, args, last_const)
    run.case = dict(j.info(), ops=ops, const=last_const)
    m = j.new(random_state=rs)
    for op in ops:
        earlier(ch, run, j, m, op)
    if instance:
        rs.set_state(start)
    seams.solvers.reset(run)
    try:
        j.fit(m, args)
        now = error_of(m)
        got = j.result(m)
    except Exception as e:
        raise Violation('fit-fails', 'after %s: %s: %s' % (
            ops, type(e).__name__, e))
    if not np.isclose(own, now, equal_nan=True):
        raise Violation('history-matters', 'after %s: the reconstruction '
                        'error is %r, of a fresh estimator %r'
                        % (ops, now, own))
    compare(ref, got, last_const, 'after %s: ' % ops)


def error_of(m):
    e = getattr(m, 'reconstruction_err_', None)
    return np.nan if e is None else float(e)


def compare(ref, got, last_const, what):
    # on a constant response nothing is selected, and nothing earlier is left
    W.must_equal(ref, got, 'constant-keeps' if last_const else
                 'history-matters', what)


def earlier(ch, run, j, m, op):
    a = other_args(ch, j)
    same = ch.flip('case', 0.3)
    if same:
        a = j.args()
    count = [0]
    if op == 'predict':
        try:
            j.predictions(m)
        except Exception:
            pass
        run.probe('predicted')
        return
    if op == 'params':
        names = [a for a in SETTINGS if isinstance(getattr(m, a, None),
                                                   (int, float))]
        if not names:
            return
        name = ch.pick('case', names)
        was = getattr(m, name)
        setattr(m, name, was + (1 + ch.draw('case', 4)) * SETTINGS[name]
                if SETTINGS[name] == 1 else was * SETTINGS[name])
        try:
            j.fit(m, a)
            run.probe('other-parameters')
            run.nontrivial = True
        except Exception as e:
            run.log('earlier fit, other', name, type(e).__name__)
        finally:
            setattr(m, name, was)
        return
    if op == 'other':
        try:
            j.fit(m, a)
            run.probe('other-data')
            run.nontrivial = True
        except Exception as e:
            run.log('earlier fit', type(e).__name__)
        return
    if op == 'constant':
        try:
            j.fit(m, constant(a, j.kind))
        except Exception as e:
            run.log('constant fit', type(e).__name__)
        run.probe('constant')
        run.nontrivial = True
        return
    if op == 'bad':
        X, y, s = a
        how = ch.draw('case', 3)
        X = X.copy()
        if how == 0:
            X = X * np.nan
        elif how == 1 and y is not None:
            y = y[:-1]
        else:
            X = W.rows(X, 1)
            y = y[:1] if y is not None else None
        try:
            j.fit(m, (X, y, s))
        except Exception as e:
            run.log('bad fit', type(e).__name__)
        run.probe('invalid')
        run.nontrivial = True
        return
    if op == 'solver':
        k = ch.draw('fault', 12)

        def before(who, n, obj, X_, y_, kw):
            if n == k:
                count[0] += 1
                run.fault('solver-error', n)
                raise seams.InjectedError('simulated solver failure')
        seams.solvers.reset(run)
        seams.solvers.before = before
        try:
            j.fit(m, a)
        except Exception as e:
            run.log('fit with failing solver', type(e).__name__)
        seams.solvers.reset(run)
        if count[0]:
            run.probe('solver-failed')
        run.nontrivial = True
        return
    k = ch.draw('fault', 1200) if ch.flip('fault', 0.6) else \
        ch.draw('fault', 60)
    exc = ch.pick('fault', [KeyboardInterrupt, MemoryError,
                            seams.InjectedError])

    def at(code, line):
        count[0] += 1
        if count[0] == k + 1:
            run.fault('%s at a line' % exc.__name__, code.co_name)
            raise exc('simulated')
    try:
        with sched.striking(at):
            j.fit(m, a)
    except (KeyboardInterrupt, Exception) as e:
        run.log('interrupted fit', type(e).__name__)
    if count[0] > k:
        run.probe('interrupted')
    run.nontrivial = True


def distributed(ch, run, j, ref, args, last_const):
    c = j.c
    size = min(dist.sizes(ch, c), 4)
    if c['kind'] == 'pyc':
        size = min(size, c['B1'])
    # sizes may have dropped the warm start
    try:
        m = j.new(random_state=np.random.RandomState(j.seed))
        j.fit(m, args)
        ref = j.result(m)
    except Exception:
        run.probe('serial-raises')
        return
    others = [other_args(ch, j) for _ in range(1 + ch.draw('case', 2))]
    serial_ok = []
    for a in others:
        try:
            j.fit(j.new(), a)
            serial_ok.append(a)
        except Exception:
            pass
    run.case = dict(j.info(), size=size, others=len(serial_ok),
                    const=last_const)
    w = mpi.World(ch, run, size)

    def main(comm):
        rs = np.random.RandomState(j.seed)
        start = rs.get_state()
        m = j.new(random_state=rs, comm=comm)
        for a in serial_ok:
            try:
                m.fit(a[0].copy(), a[1].copy(), stratify=a[2])
            except ValueError:
                # an unlucky split: the random stream is not the serial one
                return 'unlucky'
        rs.set_state(start)
        m.fit(args[0].copy(), args[1].copy(), stratify=args[2])
        return j.result(m)
    outs = w.launch(main)
    if any(o.state == 'ok' and o.value == 'unlucky' for o in outs):
        return
    dist.all_ok(w, outs)
    for r, o in enumerate(outs):
        compare(ref, o.value, last_const, 'rank %d, after %d fits: '
                % (r, len(serial_ok)))
    run.probe('distributed')
    run.nontrivial = bool(serial_ok) and size > 1
