"""Minimizations as a user runs them, recorded."""
import math
import warnings

import numpy as np

REAL = ['pyuoi.lbfgs (Python and Cython, liblbfgs built from /repo)']
STUB = ['native allocator: sim/simalloc.c', 'entropy, clocks, '
        'uninitialised memory: sim/seams.py']


def problem(r, fn, p):
    """An objective as (value, gradient) of a point, and a start. Computed in
    Python floats: numpy's sums may depend on where an array lies in memory,
    and equal minimizations must be exactly equal."""
    A = r.normal(size=(p + 2, p)).tolist()
    b = r.normal(size=p + 2).tolist()
    t = r.normal(size=p).tolist()
    P, Q = range(p), range(p + 2)

    def fit(x):
        return [sum(A[i][j] * x[j] for j in P) for i in Q]

    def back(e):
        return [sum(A[i][j] * e[i] for i in Q) for j in P]
    if fn == 'quad':
        def f(x):
            e = [z - c for z, c in zip(fit(x), b)]
            return 0.5 * sum(c * c for c in e), back(e)
    elif fn == 'quartic':
        def f(x):
            u = [c - d for c, d in zip(x, t)]
            g = [2 * c + 0.4 * c ** 3 for c in u]
            g[0] += 0.3 * math.cos(u[0])
            return sum(c * c + 0.1 * c ** 4 for c in u) \
                + 0.3 * math.sin(u[0]), g
    elif fn == 'banana':
        def f(x):
            u = [c - d for c, d in zip(x, t)]
            v = sum(0.3 * c * c for c in u)
            g = [0.6 * c for c in u]
            for i in range(p - 1):
                a = x[i + 1] - x[i] ** 2
                v += 5 * a * a + (1 - x[i]) ** 2
                g[i] += -20 * a * x[i] - 2 * (1 - x[i])
                g[i + 1] += 10 * a
            return v, g
    elif fn in ('far', 'huber'):
        # little curvature far away; or none at all
        t = [6 * c for c in t]

        def f(x):
            u = [c - d for c, d in zip(x, t)]
            if fn == 'huber':
                return sum(c * c / 2 if abs(c) < 1 else abs(c) - 0.5
                           for c in u), [max(-1.0, min(1.0, c)) for c in u]
            r = [math.sqrt(1 + c * c) for c in u]
            return sum(c - 1 for c in r), [c / d for c, d in zip(u, r)]
    else:
        y = [math.copysign(1, c) for c in b]

        def f(x):
            z = [c * d for c, d in zip(y, fit(x))]
            v = sum(math.log1p(math.exp(-abs(c))) + max(-c, 0.0) for c in z)
            h = [-c * (1 / (1 + math.exp(d)) if d < 500 else 0.0)
                 for c, d in zip(y, z)]
            return v + 0.1 * sum(c * c for c in x), \
                [c + 0.2 * d for c, d in zip(back(h), x)]

    def safe(x):
        try:
            v, g = f(x.tolist())
        except OverflowError:
            return np.inf, np.zeros(p)
        return v, np.array(g)
    return safe, 2 * r.normal(size=p)


class Case:
    """One minimization, drawn."""

    def __init__(self, ch, dom='case', l1='any', ndim=True):
        c = self.c = {}
        c['data'] = ch.draw(dom, 100000)
        c['p'] = 1 + ch.draw(dom, 6)
        if ch.flip(dom, 0.003):
            c['p'] = 30 + ch.draw(dom, 100)
        c['fn'] = ch.pick(dom, ['quad', 'quartic', 'logit', 'banana'])
        o = self.o = {}
        if l1 == 'any' and ch.flip(dom, 0.4) or l1 == 'yes':
            o['orthantwise_c'] = ch.pick(dom, [0.3, 0.05, 2.0, 30.0])
            if ch.flip(dom, 0.4):
                o['orthantwise_start'] = ch.draw(dom, c['p'])
            if ch.flip(dom, 0.4):
                o['orthantwise_end'] = ch.span(
                    dom, o.get('orthantwise_start', 0), c['p'])
        o['line_search'] = ch.pick(dom, ['default', 'wolfe', 'armijo',
                                         'strongwolfe', 'morethuente'])
        o['m'] = ch.pick(dom, [6, 3, 1, 10])
        o['max_iterations'] = ch.pick(dom, [0, 3, 1, 12, 0])
        if ch.flip(dom, 0.3):
            o['max_linesearch'] = ch.pick(dom, [3, 1, 8])
        if ch.flip(dom, 0.3):
            o['past'] = ch.pick(dom, [1, 2, 5])
            o['delta'] = ch.pick(dom, [1e-3, 0.0, 0.3])
        if ch.flip(dom, 0.3):
            o['epsilon'] = ch.pick(dom, [1e-3, 1e-9, 0.0])
            if o['epsilon'] == 0.0 and not o['max_iterations']:
                o['max_iterations'] = 40
        c['shape'] = ch.pick(dom, ['flat', 'flat', 'col', 'row']) if ndim \
            else 'flat'
        c['args'] = ch.draw(dom, 3)
        c['zero'] = ch.flip(dom, 0.1)
        c.update(o)

    def make(self):
        r = np.random.RandomState(self.c['data'])
        f, x0 = problem(r, self.c['fn'], self.c['p'])
        if self.c['zero']:
            x0 = 0 * x0
        if self.c['shape'] == 'col':
            x0 = x0.reshape(-1, 1)
        elif self.c['shape'] == 'row':
            x0 = x0.reshape(1, -1)
        return f, x0

    @property
    def penalised(self):
        """All coordinates are in the penalty, or there is none."""
        o = self.o
        return not o.get('orthantwise_c') or (
            o.get('orthantwise_start', 0) == 0 and
            o.get('orthantwise_end', -1) in (-1, self.c['p']))

    def penalty(self, x):
        o = self.o
        if not o.get('orthantwise_c'):
            return 0.0
        e = o.get('orthantwise_end', -1)
        e = self.c['p'] if e < 0 else e
        return o['orthantwise_c'] * np.abs(
            np.ravel(x)[o.get('orthantwise_start', 0):e]).sum()

    def run(self, on_eval=None, on_progress=None, watch=True, opt=None):
        """Minimize; returns a History. on_eval(h, x, f, g) may change what
        the objective returns, on_progress(h) what the progress returns."""
        from pyuoi.lbfgs import fmin_lbfgs
        f, x0 = self.make()
        h = History()
        h.x0 = np.array(x0)
        extra = tuple(range(self.c['args']))

        def call(x, g, *a):
            if a != extra:
                h.bad_args = a
            h.trail.append('f')
            v, gr = f(np.array(x).ravel())
            if on_eval is not None:
                r = on_eval(h, np.array(x), v, gr)
                if r is not None:
                    v, gr = r
            g[:] = gr.reshape(g.shape)
            h.evals.append((np.array(x), float(v), np.array(g)))
            h.keep(x, g)
            h.shapes.add((x.shape, g.shape))
            return v

        def progress(x, g, fx, xnorm, gnorm, step, k, num, *a):
            if a != extra:
                h.bad_args = a
            h.trail.append('p')
            h.steps.append(dict(x=np.array(x), g=np.array(g), f=fx,
                                xnorm=xnorm, gnorm=gnorm, step=step, k=k,
                                num=num, evals=len(h.evals)))
            h.shapes.add((x.shape, g.shape))
            h.keep(x, g)
            if on_progress is not None:
                return on_progress(h)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                h.x = (opt or fmin_lbfgs)(
                    call, x0, progress=progress if watch else None,
                    args=extra, **self.o)
                h.end = 'returned'
            except BaseException as e:
                if type(e).__name__ in ('SimAbort', 'HarnessError',
                                        'Violation'):
                    raise
                h.error = e
                h.end = type(e).__name__
        h.warned = sorted(str(x.message) for x in w if not issubclass(
            x.category, DeprecationWarning))
        h.x0_after = x0
        return h


def slope(c, x, g):
    """The gradient; with a penalty the smallest subgradient."""
    o = c.o
    x, g = np.ravel(x), np.array(np.ravel(g))
    C = o.get('orthantwise_c', 0)
    if C:
        e = o.get('orthantwise_end', -1)
        for i in range(o.get('orthantwise_start', 0),
                       c.c['p'] if e < 0 else e):
            g[i] = g[i] + np.sign(x[i]) * C if x[i] else \
                np.sign(g[i]) * max(abs(g[i]) - C, 0)
    return g


class History:
    def __init__(self):
        self.evals, self.steps, self.trail = [], [], []
        self.shapes = set()
        self.x = self.error = self.end = self.bad_args = None
        self.warned = []
        self.given = []

    def keep(self, *arrays):
        """What a callback was given, as a user keeps it: without a copy."""
        if len(self.given) < 40:
            self.given += [(len(self.evals), len(self.steps), a, a.copy())
                           for a in arrays]

    def taken_back(self):
        for i, j, a, b in self.given:
            if a.tobytes() != b.tobytes():
                return 'an array given to a callback after %d evaluations ' \
                    'and %d steps was %s, is now %s' % (i, j, b, a)

    def key(self):
        """What a user saw of it, exactly."""
        return (self.end, None if self.x is None else self.x.tobytes(),
                str(self.error), tuple(self.warned),
                tuple((x.tobytes(), repr(v), g.tobytes())
                      for x, v, g in self.evals))

    def seen(self):
        # (not the warnings: those of an inner minimization are recorded by
        # whoever records them, and warnings are not recorded per thread)
        k = self.key()
        return k[:3] + k[4:] + tuple((s['k'], s['num'], repr(s['f']),
                                      s['x'].tobytes()) for s in self.steps)
