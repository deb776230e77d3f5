"""C22: a model survives serialization at any point of its life."""
import copy
import io
import logging
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from sim import dist, env, jobs, life, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 1500, 60000
REAL = ['pyuoi', 'pyuoi.lbfgs C extension', 'scikit-learn, scipy, numpy, '
        'pycasso', 'pickle, copy; in a part of the runs another process']
STUB = ['entropy, clocks, uninitialised memory: sim/seams.py', 'MPI: not used']
RULE = ('A run draws an estimator and the operations of its life (fits on '
        'several data sets, predictions, fits that fail or are interrupted '
        'in a drawn solver call) and one or two points at which it is '
        'checkpointed (every pickle protocol, through a file or memory, deep '
        'copy). One object lives the life undisturbed; the other and its '
        'restored copies live the rest of it interleaved in a drawn order, '
        'in a part of the runs the copy in another process. All must show '
        'the same after every operation. Non-trivial: an operation with a '
        'result came after the checkpoint.')
ASSUMPTIONS = ['loggers of their own are made with logging.getLogger: others '
               'cannot be pickled in Python']
PROBES = ('pickle', 'deepcopy', 'process', 'fitted', 'unfitted', 'failed',
          'twice', 'logger')
KINDS = jobs.UOI * 2 + ['cur', 'curp', 'nmf', 'poisson1', 'masklog1', 'pyc1']


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def checkpoint(ch, m):
    """A function that restores, and how."""
    how = ch.pick('case', ['pickle', 'deepcopy', 'file'])
    if how == 'deepcopy':
        c = copy.deepcopy(m)
        return (lambda: c), how, None
    proto = ch.pick('case', [4, 2, 0, 5, 1, 3])
    try:
        if how == 'pickle':
            b = pickle.dumps(m, proto)
        else:
            f = io.BytesIO()
            pickle.Pickler(f, proto).dump(m)
            b = f.getvalue()
    except Exception as e:
        raise Violation('not-serializable', '%s: %r'
                        % (type(m).__name__, e))
    return (lambda: pickle.loads(b)), 'pickle', b


def same(a, b, what):
    W.must_equal(a, b, 'copy-differs', what, rtol=1e-9, atol=1e-11)


def scenario(ch, run):
    seams.reset(ch, run)
    j = jobs.Job(ch, KINDS, **{})
    before = [life.draw(ch) for _ in range(ch.draw('case', 3))]
    after = [life.draw(ch) for _ in range(1 + ch.draw('case', 3))]
    twice = ch.flip('case', 0.3)
    named = ch.flip('case', 0.25) and (j.kind in jobs.UOI or j.kind == 'nmf')
    away = ch.flip('case', 0.02)
    run.case = dict(j.info(), before=[str(o) for o in before],
                    after=[str(o) for o in after], twice=twice, named=named,
                    away=away)
    said = Handler()
    logger = None
    if named:
        logger = logging.getLogger('uoi of the user')
        logger.addHandler(said)
    # undisturbed
    t = j.new(logger=logger)
    for op in before:
        life.apply(j, t, op)
    want = [life.observe(j, t)] + [life.apply(j, t, op) for op in after]
    # checkpointed
    o = j.new(logger=logger)
    for op in before:
        life.apply(j, o, op)
    restore, how, blob = checkpoint(ch, o)
    same(want[0], life.observe(j, o), 'the original after a %s: ' % how)
    name = 'the %s copy' % ('deep' if how == 'deepcopy' else 'unpickled')
    lives = [['the original, copied', o, 0]]
    late = ch.flip('sched', 0.5) and how != 'deepcopy'

    def back(label):
        try:
            c = restore()
        except Exception as e:
            raise Violation('not-restorable', '%s: %r'
                            % (type(o).__name__, e))
        same(want[0], life.observe(j, c), '%s: ' % label)
        lives.append([label, c, 0])
        return c
    if away and blob is not None:
        process(run, j, blob, after, want)
    if not late:
        c = back(name)
        if twice:
            # a copy of the copy
            restore, how2, _ = checkpoint(ch, c)
            back('a copy of ' + name)
            run.probe('twice')
    while True:
        todo = [v for v in lives if v[2] < len(after)]
        if not todo:
            if late:
                late = False
                back(name)
                continue
            break
        v = ch.pick('sched', todo)
        run.step('life', lives.index(v), v[2])
        got = life.apply(j, v[1], after[v[2]])
        v[2] += 1
        same(want[v[2]], got, '%s after %s: ' % (v[0], [
            x['kind'] for x in after[:v[2]]]))
        # the others are where they were
        for u in lives:
            if u is not v:
                at = {k: x for k, x in want[u[2]].items() if k != 'raised'}
                same(at, life.observe(j, u[1]),
                     '%s, when %s was used: ' % (u[0], v[0]))
    if named:
        counts = []
        for v in [['', t]] + lives:
            said.seen.clear()
            try:
                j.fit(v[1], j.args(), verbose=True)
            except Exception:
                pass
            counts.append(list(said.seen))
        if any(k != counts[0] for k in counts):
            raise Violation('logger-lost', 'messages of a verbose fit: %s '
                            'undisturbed, %s' % (counts[0][:3], [
                                k[:3] for k in counts[1:]]))
        logger.removeHandler(said)
        run.probe('logger')
    run.nontrivial = any('error' not in w for w in want[1:])
    run.probe(how)
    run.probe('fitted' if 'error' not in want[0] and any(
        x['kind'] != 'predict' for x in before) else 'unfitted')
    if any(x['kind'] == 'fail' for x in before):
        run.probe('failed')


def process(run, j, blob, ops, want):
    with tempfile.TemporaryDirectory(prefix='c22-') as d:
        path = os.path.join(d, 'job')
        with open(path, 'wb') as f:
            pickle.dump(dict(job=j, blob=blob, ops=ops), f)
        e = dict(os.environ, PYTHONHASHSEED='31')
        r = subprocess.run([sys.executable, os.path.join(env.SIM, 'child.py'),
                            path], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise Violation('not-restorable', 'in another process: %s'
                            % r.stdout.decode(errors='replace')[-400:])
        with open(path + '.out', 'rb') as f:
            got = pickle.load(f)
    for i, (a, b) in enumerate(zip(want, got)):
        same(a, b, 'in another process after %d operations: ' % i)
    run.probe('process')
