"""C10: with a seed, results depend on nothing else around them."""
import contextlib
import io
import json
import logging
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from sim import env, jobs, seams, workloads as W
from sim.core import Violation

QUICK, THOROUGH = 2400, 150000
REAL = ['pyuoi', 'pyuoi.lbfgs C extension', 'scikit-learn, scipy, numpy, '
        'pycasso']
STUB = ['entropy, clocks, uninitialised memory, global random streams: '
        'sim/seams.py', 'MPI: not used']
RULE = ('A run draws a job (every UoI model, the plain solvers, CUR, NMF, '
        'the optimizer, the dataset makers), does it with a seed, changes '
        'everything ambient (operating system entropy, global random '
        'streams, clock, contents of uninitialised memory, log level and '
        'verbosity, work done in between, a generator instead of its seed) '
        'and does it again; a part of the runs is repeated in processes with '
        'other hash seeds. Non-trivial: the job has a result.')
ASSUMPTIONS = ['one machine, one set of libraries, one BLAS thread']
HASHSEEDS = (77, 4242)
KINDS = jobs.UOI * 2 + jobs.OTHER


def disturb(ch):
    seams.entropy.reset(ch.draw('ambient', 2 ** 20))
    np.random.seed(ch.draw('ambient', 2 ** 20))
    random.seed(ch.draw('ambient', 2 ** 20))
    seams.clock.reset(1.5e9 + ch.draw('ambient', 10 ** 8),
                      ch.pick('ambient', [0.0, 1e-3, -7.0, 1e5]))
    seams.garbage = ch.pick('ambient', ['nan', None, 'huge', 'one', 'neg'])
    for _ in range(ch.draw('ambient', 4)):
        np.random.rand()
    np.random.bytes(4 * ch.draw('ambient', 3))
    logging.disable(ch.pick('ambient', [logging.NOTSET, logging.CRITICAL,
                                        logging.INFO]))
    logging.getLogger().setLevel(ch.pick('ambient', [
        logging.WARNING, logging.DEBUG, logging.CRITICAL]))


def calm():
    logging.disable(logging.NOTSET)
    logging.getLogger().setLevel(logging.WARNING)


def scenario(ch, run):
    seams.reset(ch, run)
    j = jobs.Job(ch, KINDS)
    run.case = j.info()
    seeded = j.kind not in ('poisson1', 'masklog1', 'pyc1', 'lbfgs')
    ref, err = j.reference()
    n = 1 + ch.draw('ambient', 3)
    what = []
    for k in range(n):
        if ch.flip('ambient', 0.3):
            # something else in between, unseeded
            jobs.Job(ch, KINDS).reference(random_state=None)
            what.append('other job')
        disturb(ch)
        before = (np.random.get_state()[1:3], random.getstate())
        how = ch.pick('ambient', ['int', 'npint', 'instance']) if seeded \
            else 'int'
        rs = {'int': int, 'npint': np.int64,
              'instance': np.random.RandomState}[how](j.seed)
        if how == 'instance' and j.kind in ('cur', 'curp'):
            rs = j.seed       # two streams from a seed, one from a generator
        what.append(how)
        try:
            m = j.new(random_state=rs)
            kw = {}
            if j.kind in jobs.UOI + ['nmf']:
                kw['verbose'] = ch.flip('ambient', 0.4)
                what[-1] += ' verbose' * kw['verbose']
            with contextlib.redirect_stdout(io.StringIO()):
                j.fit(m, j.args(), **kw)
            got, e = j.result(m), None
        except Exception as x:
            got, e = None, x
        finally:
            calm()
        if (err is None) != (e is None):
            raise Violation('depends-on-ambient', 'once %r, once %r'
                            % (err, e))
        after = (np.random.get_state()[1:3], random.getstate())
        if not (np.array_equal(before[0][0], after[0][0]) and
                before[0][1] == after[0][1]):
            raise Violation('global-stream-used', 'the seeded job drew from '
                            'the global NumPy stream')
        if before[1] != after[1]:
            raise Violation('global-stream-used', 'the seeded job drew from '
                            "Python's global stream")
        if err is not None:
            continue
        W.must_equal(ref, got, 'depends-on-ambient', 'time %d (%s): '
                     % (k + 2, ', '.join(what)), rtol=1e-9, atol=1e-11)
    run.nontrivial = err is None
    run.probe(j.kind if err is None else 'raises')
    run.out = W.flat(ref) if ref is not None else [type(err).__name__]


# ----------------------------------------------------------- other processes

def _out(seed, hashseed, args):
    fd, p = tempfile.mkstemp(prefix='sim-c10-')
    os.close(fd)
    try:
        e = dict(os.environ, SIM_HASHSEED=str(hashseed))
        r = subprocess.run([sys.executable, os.path.join(env.SIM, 'run.py'),
                            'C10', '--seed', str(seed), '--digests', p] +
                           args, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=3000)
        if r.returncode != 0:
            raise env.HarnessError('hash seed %s: exit %d: %s' % (
                hashseed, r.returncode,
                r.stdout.decode(errors='replace')[-500:]))
        return {int(k): v[1] for k, v in json.load(open(p)).items()}
    finally:
        os.unlink(p)


def apart(a, b):
    """The first difference of two flat results."""
    if a is None or b is None or len(a) != len(b):
        return 'results of different form'
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return '%r and %r' % (x, y)
            continue
        if x[0] != y[0] or list(x[1]) != list(y[1]):
            return '%s%s and %s%s' % (x[0], x[1], y[0], y[1])
        if x[2] and isinstance(x[2][0], str):
            if list(x[2]) != list(y[2]):
                return '%s: %s and %s' % (x[0], x[2], y[2])
        elif not np.allclose(np.array(x[2], float), np.array(y[2], float),
                             rtol=1e-9, atol=1e-11, equal_nan=True):
            return '%s: %s and %s' % (x[0], x[2][:8], y[2][:8])
    return None


def final(results, seed, n):
    k = max(1, min(n // 4, 4000))
    compared = 0
    base = {i: json.loads(json.dumps(d['out'])) for i, d in results.items()
            if d['out']}
    for h in HASHSEEDS:
        other = _out(seed, h, ['--runs', str(k)])
        for i in sorted(other):
            if i not in base:
                continue
            compared += 1
            d = apart(base[i], other[i])
            if d:
                return dict(property='C10', mode='hashseed', seed=seed,
                            index=i, hashseed=h, cls='depends-on-hash-seed',
                            msg='run %d with hash seed 0 and %d: %s'
                            % (i, h, d), streams=None,
                            case=results[i]['case']), {}
    return None, dict(hash_seeds=[0] + list(HASHSEEDS),
                      runs_compared_across_processes=compared)


def replay(obj):
    i = str(obj['index'])
    a = _out(obj['seed'], 0, ['--only', i])
    b = _out(obj['seed'], obj['hashseed'], ['--only', i])
    d = apart(a.get(int(i)), b.get(int(i)))
    if d:
        print('depends-on-hash-seed: %s' % d)
        print('VIOLATION property=C10 replay=run %s, hash seeds 0 and %s'
              % (i, obj['hashseed']))
        return 1
    print('no violation: property=C10')
    return 0
