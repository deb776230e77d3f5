"""C16: minimizations are re-entrant."""
import numpy as np

from sim import env, minim, sched, seams
from sim.core import Violation

QUICK, THOROUGH = 10000, 500000
REAL = minim.REAL
STUB = minim.STUB + ['thread scheduling: sim/sched.py']
RULE = ('A run draws 1-3 trees of minimizations, each node started inside a '
        'drawn callback of its parent (objective or progress), some of them '
        'failing (raising, cancelled, out of native memory) and caught by '
        'the parent; the trees run in their own threads, switched in every '
        'callback, some nodes sharing one optimizer object. Each must end as '
        'it ends alone: the same evaluations, reports and result, exactly. '
        'Non-trivial: two minimizations were under way at once.')
ASSUMPTIONS = ['objects shared between minimizations keep their parameters']
PROBES = ('nested', 'threads', 'inner-failed', 'shared-optimizer', 'deep')


class Oops(Exception):
    pass


class Node:
    def __init__(self, ch, depth):
        self.case = minim.Case(ch)
        if not self.case.o['max_iterations']:
            self.case.o['max_iterations'] = 25
        self.fail = ch.pick('fault', [None, None, None, 'raise', 'cancel'])
        self.fail_at = ch.draw('fault', 5)
        self.kids = []
        if depth < 4:
            for _ in range([1, 0, 1, 2][ch.draw('case', 4)]
                           if depth == 0 else ch.draw('case', 3)):
                self.kids.append((ch.pick('case', ['f', 'p']),
                                  ch.draw('case', 6), Node(ch, depth + 1)))
        self.depth = depth
        self.times = 0
        self.bad = None

    def count(self):
        return 1 + sum(k.count() for _, _, k in self.kids)

    def deepest(self):
        return max([self.depth] + [k.deepest() for _, _, k in self.kids])

    def hooks(self, run, step=None, kids=True, opt=None):
        def on_eval(h, x, v, g):
            if step is not None:
                step()
            if kids:
                for where, at, kid in self.kids:
                    if where == 'f' and at == len(h.evals):
                        kid.go(run, step, opt)
            if self.fail == 'raise' and len(h.evals) == self.fail_at:
                raise Oops()

        def on_progress(h):
            if step is not None:
                step()
            if kids:
                for where, at, kid in self.kids:
                    if where == 'p' and at == len(h.steps) - 1:
                        kid.go(run, step, opt)
            if self.fail == 'cancel' and len(h.steps) == self.fail_at + 1:
                return 1
        return dict(on_eval=on_eval, on_progress=on_progress)

    def alone(self, run):
        self.ref = self.case.run(**self.hooks(run, kids=False)).seen()
        for _, _, k in self.kids:
            k.alone(run)

    def go(self, run, step=None, opt=None):
        self.times += 1
        h = self.case.run(opt=opt and opt(self.case.o),
                          **self.hooks(run, step, opt=opt))
        if self.fail and h.end in ('Oops', 'LBFGSError'):
            run.probe('inner-failed')
        if self.depth:
            run.probe('nested')
        if h.seen() != self.ref and self.bad is None:
            self.bad = '%s %s %s with %d evaluations, alone: %s %s with %d' \
                % (h.end, h.error, h.x, len(h.evals), self.ref[0],
                   None if self.ref[1] is None else np.frombuffer(self.ref[1]),
                   len(self.ref[3]))

    def judge(self, i):
        if self.bad:
            raise Violation('not-re-entrant', 'tree %d depth %d (%s): %s'
                            % (i, self.depth, self.case.c, self.bad))
        for _, _, k in self.kids:
            k.judge(i)


def shared():
    """One optimizer object for every set of parameters."""
    from pyuoi.lbfgs import LBFGS
    made = {}

    def get(o):
        ls = o['line_search']
        if o.get('orthantwise_c', 0) > 0:
            ls = 'wolfe'
        key = repr(sorted(dict(o, line_search=ls).items()))

        def minimize(f, x0, progress=None, args=(), **kw):
            if key not in made:
                opt = made[key] = LBFGS()
                # what fmin_lbfgs sets when it is not given
                opt.orthantwise_c = o.get('orthantwise_c', 0)
                opt.max_linesearch, opt.min_step = 20, 1e-20
                opt.max_step, opt.xtol = 1e+20, 1e-30
                opt.delta = 0.0
                for k, v in o.items():
                    if k != 'line_search':
                        setattr(opt, k, v)
                opt.linesearch = ls
            return made[key].minimize(f, x0, progress=progress, args=args)
        return minimize
    return get


def scenario(ch, run):
    seams.reset(ch, run)
    env.alloc.pattern(ch.draw('ambient', 4))
    env.alloc.reset()
    live0 = env.alloc.stats()['live']
    nt = ch.pick('case', [1, 2, 3, 2])
    trees = [Node(ch, 0) for _ in range(nt)]
    while sum(t.count() for t in trees) > 24:
        t = max(trees, key=lambda t: t.count())
        t.kids = t.kids[:-1]
    share = ch.flip('case', 0.3)
    if share and ch.flip('case', 0.7):
        # the same parameters everywhere: really one object
        def same(t):
            t.case.o.clear()
            t.case.o.update(trees[0].case.o if t is not trees[0] else o)
            t.case.o.pop('orthantwise_start', None)
            t.case.o.pop('orthantwise_end', None)
            for _, _, k in t.kids:
                same(k)
        o = dict(trees[0].case.o)
        for t in trees:
            same(t)
    run.case = dict(threads=nt, nodes=[t.count() for t in trees],
                    share=share, roots=[t.case.c for t in trees])
    for t in trees:
        t.alone(run)
    opt = shared() if share else None
    if share:
        run.probe('shared-optimizer')
    times = 1 + ch.draw('case', 2)
    if nt == 1:
        for _ in range(times):
            trees[0].go(run, opt=opt)
    else:
        run.probe('threads')
        s = sched.Scheduler(ch, run, policy='random', max_steps=400000)

        def step():
            if ch.draw('sched', 3) == 0:
                s.park('ready')

        def body(t):
            def go():
                for _ in range(times):
                    t.go(run, step, opt)
            return go
        for i, t in enumerate(trees):
            s.spawn(body(t), 't%d' % i)
        try:
            s.run()
        except sched.Deadlock as e:
            raise Violation('deadlock', str(e))
        run.sim_time += s.steps * 1e-6
        for i, t in enumerate(s.tasks):
            if t.error is not None:
                if isinstance(t.error, sched.HarnessError):
                    raise t.error
                raise Violation('thread-failed', repr(t.error))
    run.nontrivial = nt > 1 or any(k.times for _, _, k in trees[0].kids)
    if max(t.deepest() for t in trees) >= 3:
        run.probe('deep')
    for i, t in enumerate(trees):
        t.judge(i)
    a = env.alloc.stats()
    if a['live'] != live0 or a['overflow'] or a['double_free'] or \
            a['bad_free'] or a['use_after_free']:
        raise Violation('native-memory', str(a))
