"""C11: independent work in several threads does not interfere."""
import numpy as np

from sim import jobs, sched, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1200, 80000
REAL = ['pyuoi', 'pyuoi.lbfgs C extension', 'scikit-learn, scipy, numpy, '
        'pycasso', 'threads (released one at a time)']
STUB = ['thread scheduling, locks of pyuoi and logging: sim/sched.py',
        'entropy, clocks, uninitialised memory: sim/seams.py']
RULE = ('A run draws 2-4 jobs (models, solvers, decompositions, optimizer '
        'calls, dataset makers), each on its own objects in its own thread; '
        'the simulator switches threads at drawn lines of pyuoi, in '
        'evaluations of the optimizer and at locks. Every thread must get '
        'the result it gets alone. Non-trivial: threads were switched inside '
        'pyuoi.')
ASSUMPTIONS = ['code below pyuoi (scikit-learn, NumPy, pycasso) is not '
               'interrupted by another thread in the middle of a call']
KINDS = jobs.UOI + jobs.OTHER


def scenario(ch, run):
    seams.reset(ch, run)
    n = 2 + (ch.draw('case', 4) > 1) + (ch.draw('case', 4) == 3)
    js, refs = [], []
    fixed = ch.pick('case', [None, 'poisson1', 'lbfgs', 'logistic', 'lasso'])
    for i in range(n):
        j = jobs.Job(ch, [fixed] if fixed else KINDS, max_n=28)
        if j.c.get('kind') == 'poisson1':
            j.c['solver'] = j.c.get('solver', 'lbfgs')
        ref, err = j.reference()
        if err is None:
            js.append(j)
            refs.append(ref)
    run.case = dict(jobs=[j.info() for j in js])
    if len(js) < 2:
        return
    s = sched.Scheduler(ch, run, policy='random', max_steps=400000)
    mean = ch.pick('case', [200, 20, 1000, 5])
    p = sched.Preempter(s, ch, run, mean=mean)
    times = 1 + ch.draw('case', 2)

    def body(j):
        def go():
            out = []
            for _ in range(times):
                m = j.new()
                j.fit(m, j.args())
                out.append(j.result(m))
            return out
        return go

    def at_eval(j):
        if ch.draw('sched', 3) == 0:
            p.switches += 1
            s.park('ready')
    for i, j in enumerate(js):
        s.spawn(body(j), 't%d' % i)
    jobs.on_eval = at_eval
    try:
        with sched.monitoring(p):
            s.run()
    except sched.Deadlock as e:
        raise Violation('deadlock', str(e))
    finally:
        jobs.on_eval = None
    run.sim_time += s.steps * 1e-6
    run.nontrivial = p.switches > 0
    run.probe('switches', )
    for i, t in enumerate(s.tasks):
        if t.error is not None:
            if isinstance(t.error, sched.HarnessError):
                raise t.error
            raise Violation('thread-failed', 'thread %d (%s): %r'
                            % (i, js[i].kind, t.error))
        for got in t.result:
            W.must_equal(refs[i], got, 'threads-interfere',
                         'thread %d of %d (%s): ' % (i, len(js), js[i].kind),
                         rtol=1e-9, atol=1e-11)
