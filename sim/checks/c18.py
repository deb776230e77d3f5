"""C18: every log message appears exactly once, where it should."""
import collections
import io
import logging
import sys

import numpy as np

from sim import dist, jobs, mpi, sched, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 2000, 120000
REAL = ['pyuoi', 'logging (Python standard library)', 'pyuoi.lbfgs C '
        'extension', 'scikit-learn, scipy, numpy, pycasso', 'threads']
STUB = ['standard output: an in-memory file', 'thread scheduling, locks: '
        'sim/sched.py', 'MPI: sim/mpi.py', 'entropy, clocks: sim/seams.py']
RULE = ('A run draws a history of constructions, verbose and silent fits '
        '(some failing at a drawn solver call) and replacements of the '
        'standard output, or several threads that construct and fit at the '
        'same time with switches at any line, or 2-6 simulated ranks. What '
        'each message of a fit is comes from the same fit with a private '
        'logger; each must be written once, in order, to the output in '
        'force. Non-trivial: a verbose fit wrote messages.')
ASSUMPTIONS = ['a message is the end of the line it is written on',
               'fits at the same time are all verbose: the level belongs to '
               'the shared logger']
PROBES = ('stdout-replaced', 'stdout-closed', 'user-logger', 'threads',
          'ranks', 'failed-fit', 'silent', 'more-ranks-than-bootstraps',
          'mute-logger', 'ten-ranks')

KINDS = ['lasso', 'enet', 'logistic', 'poisson', 'nmf']   # pycasso prints


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []
        self.who = []

    def emit(self, record):
        t = sched.current()
        self.seen.append(record.getMessage())
        self.who.append((t.name if t is not None else 'main', record.name))


def private():
    log = logging.Logger('private')
    log.handlers = [Keep()]
    return log, log.handlers[0]


def lines(f):
    return f.getvalue().splitlines()


class Out:
    """sys.stdout of a run."""

    def __enter__(self):
        self.old = sys.stdout
        self.new()
        return self

    def new(self):
        self.f = sys.stdout = io.StringIO()
        return self.f

    def __exit__(self, *a):
        sys.stdout = self.old


def fit(ch_fail, j, **kw):
    """(model, error): the solver fails at its ch_fail-th call."""
    verbose = kw.pop('verbose', True)

    def strike(who, n, obj, X, y, k):
        if n == ch_fail:
            raise seams.InjectedError('simulated solver failure')
    seams.solvers.reset()
    if ch_fail is not None:
        seams.solvers.before = strike
    m = j.new(**kw)
    err = None
    try:
        j.fit(m, j.args(), verbose=verbose)
    except Exception as e:
        err = e
    seams.solvers.reset()
    return m, err


def expect(got, want, what):
    """Lines got: exactly the messages want, in order."""
    if len(got) != len(want) or any(not g.endswith(w)
                                    for g, w in zip(got, want)):
        raise Violation('wrong-output', '%s: %d lines for %d messages; %s'
                        % (what, len(got), len(want), _first(got, want)))


def _first(got, want):
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g is None or w is None or not g.endswith(w):
            return 'line %d is %r, the message is %r' % (i, g, w)


def scenario(ch, run):
    seams.reset(ch, run)
    mode = ch.pick('case', ['history', 'history', 'threads', 'ranks'])
    with Out() as out:
        {'history': history, 'threads': threads, 'ranks': ranks}[mode](
            ch, run, out)


def history(ch, run, out):
    js = [jobs.Job(ch, KINDS, max_n=26) for _ in range(1 + ch.draw('case', 2))]
    ops = 2 + ch.draw('case', 5)
    run.case = dict(jobs=[j.info() for j in js], ops=ops)
    alive = []
    want, what = [], []          # of the output now in force
    done = []

    def settle():
        expect(lines(out.f), want, ', '.join(what))
    for i in range(ops):
        op = ch.pick('case', ['fit', 'fit', 'make', 'stdout', 'silent',
                              'user', 'again'])
        j = js[ch.draw('case', len(js))]
        what.append('%s %s' % (op, j.kind) if op != 'stdout' else op)
        if op == 'make':
            for _ in range(1 + ch.draw('case', 3)):
                alive.append((j, j.new()))
        elif op == 'stdout':
            settle()
            old = out.f
            done.append((old, len(lines(old))))
            want.clear()
            what.clear()
            out.new()
            run.probe('stdout-replaced')
            if ch.flip('fault', 0.5):
                done.pop()
                old.close()
                run.fault('stdout closed')
                run.probe('stdout-closed')
        elif op == 'silent':
            _, err = fit(None, j, verbose=False)
            run.probe('silent')
        elif op == 'again' and alive:
            # an estimator made earlier, perhaps under another output
            j, m = alive[ch.draw('case', len(alive))]
            log, h = private()
            _, e1 = fit(None, j, logger=log)
            alive.remove((j, m))
            err = None
            try:
                j.fit(m, j.args(), verbose=True)
            except Exception as e:
                err = e
            if (err is None) != (e1 is None):
                raise Violation('outcome', '%r and %r' % (err, e1))
            want += h.seen
            run.nontrivial |= len(h.seen) > 0
        else:
            at = ch.draw('fault', 12) if ch.flip('fault', 0.25) else None
            log, h = private()
            _, e1 = fit(at, j, logger=log)
            if isinstance(e1, seams.InjectedError):
                run.fault('solver error')
                run.probe('failed-fit')
            if op == 'user':
                # a logger of the user's: all there, nothing here
                log2, h2 = private()
                mute = ch.flip('case', 0.25)
                if mute:
                    # nobody is to see them
                    log2.handlers = []
                    log2.propagate = ch.flip('case', 0.5)
                    run.probe('mute-logger')
                _, e2 = fit(at, j, logger=log2)
                run.probe('user-logger')
                if h2.seen != h.seen and not mute:
                    raise Violation('user-logger', '%s: %s and %s'
                                    % (j.kind, h2.seen, h.seen))
            else:
                _, e2 = fit(at, j)
                want += h.seen
                run.nontrivial |= len(h.seen) > 0
            if type(e1) is not type(e2):
                raise Violation('outcome', '%r and %r' % (e1, e2))
    settle()
    for f, n in done:
        if len(lines(f)) != n:
            raise Violation('wrong-output', 'an output replaced earlier '
                            'still gets messages')


def threads(ch, run, out):
    n = 2 + ch.draw('case', 2)
    fixed = ch.pick('case', [None, 'lasso', 'nmf', 'logistic'])
    js, wants = [], []
    for i in range(n):
        j = jobs.Job(ch, [fixed] if fixed else
                     KINDS, max_n=24)
        log, h = private()
        _, err = fit(None, j, logger=log)
        if err is None:
            js.append(j)
            wants.append(h.seen)
    run.case = dict(mode='threads', jobs=[j.info() for j in js])
    if len(js) < 2:
        return
    s = sched.Scheduler(ch, run, policy='random', max_steps=400000)
    p = sched.Preempter(s, ch, run, mean=ch.pick('case', [3, 20, 200]))
    extra = ch.draw('case', 3)

    def body(j):
        def go():
            for _ in range(extra):
                j.new()
            m = j.new()
            j.fit(m, j.args(), verbose=True)
        return go
    for i, j in enumerate(js):
        s.spawn(body(j), 't%d' % i)
    try:
        with sched.monitoring(p):
            s.run()
    except sched.Deadlock as e:
        raise Violation('deadlock', str(e))
    run.sim_time += s.steps * 1e-6
    for i, t in enumerate(s.tasks):
        if isinstance(t.error, sched.HarnessError):
            raise t.error
        if t.error is not None:
            raise Violation('thread-failed', 'thread %d: %r' % (i, t.error))
    run.probe('threads')
    run.nontrivial = p.switches > 0 and any(wants)
    want = collections.Counter(w for ws in wants for w in ws)
    multiset(lines(out.f), want, '%d threads' % len(js))


def multiset(got, want, what):
    left = want.copy()
    for g in got:
        # the longest message the line ends with
        c = [w for w in left if g.endswith(w)]
        if not c:
            raise Violation('wrong-output', '%s: nobody wrote %r' % (what, g))
        w = max(c, key=len)
        left[w] -= 1
        if left[w] < 0:
            raise Violation('wrong-output', '%s: %r is written %d times, '
                            'should be %d' % (what, w, sum(
                                x.endswith(w) for x in got), want[w]))
    lost = {w: n for w, n in left.items() if n > 0}
    if lost:
        raise Violation('wrong-output', '%s: missing %s' % (what, lost))


def ranks(ch, run, out):
    c = W.fit_case(ch, kinds=KINDS[:4], max_n=26)
    size = dist.sizes(ch, c)
    if ch.flip('case', 0.06):
        # ranks of two digits
        size, c['warm'] = 10 + ch.draw('case', 4), False
        run.probe('ten-ranks')
    own = ch.flip('case', 0.25)
    X, y, strat = W.case_data(c)
    run.case = dict(c, size=size, own=own)
    log, h = private()
    try:
        m = W.make(c, logger=log)
        m.fit(X.copy(), y.copy(), stratify=strat, verbose=True)
    except Exception:
        run.probe('serial-raises')
        return
    root = Keep()
    logging.getLogger().addHandler(root)
    mine = [private() for _ in range(size)]
    again = 1 + ch.draw('case', 2)

    def main(comm):
        for _ in range(again):
            mm = W.make(c, comm=comm,
                        logger=mine[comm.rank][0] if own else None)
            mm.fit(X.copy(), y.copy(), stratify=strat, verbose=True)
        # and silently
        mm = W.make(c, comm=comm)
        mm.fit(X.copy(), y.copy(), stratify=strat)
    try:
        w = mpi.World(ch, run, size)
        outs = w.launch(main)
    finally:
        logging.getLogger().removeHandler(root)
    dist.all_ok(w, outs)
    run.probe('ranks')
    run.nontrivial = size > 1
    got = lines(out.f)
    if own:
        if got:
            raise Violation('wrong-output', 'own loggers, but %d lines on '
                            'standard output: %r' % (len(got), got[0]))
        said = [x for _, k in mine for x in k.seen]
    else:
        said = [g.split(' - ', 3)[-1] if g.count(' - ') >= 3 else g
                for g in got]
        names = collections.defaultdict(set)
        for (who, name), msg in zip(root.who, root.seen):
            names[name].add(who)
        for name, who in names.items():
            if len(who) > 1:
                raise Violation('shared-name', '%s all log as %r'
                                % (sorted(who), name))
    want = collections.Counter()
    for x in h.seen:
        if x.startswith('selection') and size > c['B1']:
            continue
        want[x] += again
    rest = collections.Counter(said)
    if size > c['B1']:
        run.probe('more-ranks-than-bootstraps')
        sel = collections.Counter(x for x in said
                                  if x.startswith('selection'))
        total = c['B1'] * W.n_reg_params(c)
        if sum(sel.values()) != total * again or \
                set(sel.values()) != {again}:
            raise Violation('wrong-output', '%d selection units, messages %s'
                            % (total, dict(sel)))
        rest -= sel
    if rest != want:
        raise Violation('wrong-output', '%d ranks: missing %s, too many %s'
                        % (size, dict(want - rest), dict(rest - want)))
