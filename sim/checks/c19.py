"""C19: the packaged data set loads anywhere and is never changed."""
import gc
import hashlib
import os
import shutil
import tempfile

import numpy as np

from sim import env, sched, seams
from sim.core import Violation

QUICK, THOROUGH = 4000, 200000
REAL = ['pyuoi.datasets', 'h5py and HDF5 on a real file', 'threads']
STUB = ['where the data file lies: a scratch copy, faults at open and read: '
        'sim/seams.py', 'thread scheduling: sim/sched.py']
RULE = ('A run draws a history of loads on a scratch copy of the file: flat '
        'or not, some in 2-4 threads switched at any line, some while other '
        'readers hold the file, some with an error at open or read, a '
        'truncated file or an interrupt at a drawn line; results are '
        'overwritten by their user. Every completed load gives the stored '
        'images, failures raise, no handle stays, the file keeps its bytes '
        'and its time. Non-trivial: a load completed after a failure, beside '
        'another, or beside a reader.')
ASSUMPTIONS = ['the file is opened through h5py (else its real path is '
               'watched, without faults)']
PROBES = ('threads', 'readers', 'open-error', 'read-error', 'interrupt',
          'truncated', 'load-after-failure', 'overwritten')
ERRORS = [lambda: seams.InjectedIOError(5, 'simulated I/O error'),
          lambda: PermissionError(13, 'simulated'),
          lambda: OSError(24, 'simulated: too many open files'),
          lambda: MemoryError('simulated')]
INSTALLED = os.path.join(env.REPO, 'src', 'pyuoi', 'data', 'Swimmer.h5')
_truth = {}


def stamp(p):
    s = os.stat(p)
    return (hashlib.sha256(open(p, 'rb').read()).hexdigest(), s.st_mtime_ns,
            s.st_size, s.st_mode)


def handles(paths):
    real = {os.path.realpath(p) for p in paths}
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.path.realpath('/proc/self/fd/' + f) in real
        except OSError:
            pass
    return n


def truth():
    import h5py
    if not _truth:
        with h5py.RealFile(INSTALLED, 'r') as f:
            Y = f['Y'][()].astype(float)
        _truth[False] = Y
        _truth[True] = Y.T.reshape(256, 1024)
    return _truth


def check(got, flat, what):
    want = truth()[flat]
    if not isinstance(got, np.ndarray) or got.shape != want.shape or \
            got.dtype != want.dtype or not np.array_equal(got, want):
        raise Violation('wrong-images', '%s: %s' % (
            what, 'shape %s %s' % (np.shape(got), getattr(got, 'dtype', ''))))


def scenario(ch, run):
    seams.reset(ch, run)
    import h5py
    d = tempfile.mkdtemp(prefix='sim-c19-')
    try:
        copy = os.path.join(d, 'Swimmer.h5')
        shutil.copy2(INSTALLED, copy)
        os.chmod(copy, 0o444 if ch.flip('case', 0.5) else 0o644)
        whole = stamp(INSTALLED)
        seams.disk.redirect = {os.path.realpath(INSTALLED): copy}
        _history(ch, run, copy, d, h5py)
        if stamp(INSTALLED) != whole:
            raise Violation('file-changed', 'the installed file')
    finally:
        seams.disk.redirect = {}
        shutil.rmtree(d, ignore_errors=True)


def _history(ch, run, copy, d, h5py):
    from pyuoi.datasets import load_swimmer
    before = stamp(copy)
    failed = False
    held = []
    n = 1 + ch.draw('case', 5)
    steps = []
    run.case = dict(steps=steps)
    for i in range(n):
        op = ch.pick('fault', ['load', 'threads', 'readers', 'open-error',
                               'read-error', 'interrupt', 'truncated'])
        flat = not ch.flip('case', 0.4)
        steps.append('%s %s' % (op, flat))
        what = 'load %d (%s)' % (i, op)
        seams.disk.fail_open = seams.disk.fail_read_at = None
        seams.disk.opens = []
        base = seams.disk.open_now
        was = handles([copy, INSTALLED])
        if op == 'readers':
            for _ in range(1 + ch.draw('case', 2)):
                held.append(h5py.RealFile(copy, 'r'))
            run.probe('readers')
            was = handles([copy, INSTALLED])
        if op == 'threads':
            many(ch, run, load_swimmer)
        else:
            exc = fault(ch, run, op, copy, d, h5py)
            err = got = None
            count = [0]

            def at(code, line):
                count[0] += 1
                if exc is not None and count[0] == k + 1:
                    run.fault('interrupt at a line', code.co_name)
                    raise exc
            try:
                if op == 'interrupt':
                    k = ch.draw('fault', 10)
                    with sched.striking(at):
                        got = load_swimmer(flatten=flat)
                elif flat and ch.flip('case', 0.5):
                    got = load_swimmer()
                else:
                    got = load_swimmer(flatten=flat)
            except BaseException as e:
                if isinstance(e, env.HarnessError):
                    raise
                err = e
            struck = op in ('open-error', 'truncated') or \
                op == 'read-error' and seams.disk.reads > \
                seams.disk.fail_read_at[0] or \
                op == 'interrupt' and count[0] > k
            seen = bool(seams.disk.opens)   # faults need the h5py seam
            if struck and seen and err is None:
                raise Violation('error-hidden', '%s: returned %s'
                                % (what, np.shape(got)))
            if err is not None and not struck:
                raise Violation('load-failed', '%s: %r' % (what, err))
            if err is not None:
                failed = True
                run.probe(op)
                err = None
                if op == 'interrupt':
                    # one that strikes between two lines may find a file that
                    # no code can know of yet: it lives as long as the frame
                    exc.__traceback__ = exc.__context__ = None
                    gc.collect()
                    base = seams.disk.open_now
            else:
                check(got, flat, what)
                if failed:
                    run.probe('load-after-failure')
                run.nontrivial |= failed or bool(held)
                if ch.flip('case', 0.5):
                    got[...] = -1.0        # it is the caller's
                    run.probe('overwritten')
            if op == 'truncated':
                seams.disk.redirect[os.path.realpath(INSTALLED)] = copy
        for p, mode, who in seams.disk.opens:
            if mode not in ('r',):
                raise Violation('opened-to-write', '%s: mode %r'
                                % (what, mode))
        if seams.disk.open_now != base or handles([copy, INSTALLED]) != was:
            raise Violation('handle-left-open', '%s: %d files stay open'
                            % (what, max(seams.disk.open_now - base, handles(
                                [copy, INSTALLED]) - was)))
        while held and ch.flip('case', 0.5):
            held.pop().close()
    while held:
        held.pop().close()
    if stamp(copy) != before:
        raise Violation('file-changed', '%s, was %s' % (stamp(copy), before))


def fault(ch, run, op, copy, d, h5py):
    if op == 'open-error':
        seams.disk.fail_open = ERRORS[ch.draw('fault', len(ERRORS))]()
        return seams.disk.fail_open
    if op == 'read-error':
        seams.disk.reads = 0
        seams.disk.fail_read_at = (0, ERRORS[ch.draw('fault', 4)]())
        return seams.disk.fail_read_at[1]
    if op == 'truncated':
        p = os.path.join(d, 'cut.h5')
        data = open(copy, 'rb').read()
        cut = ch.draw('fault', len(data) // 2)
        with open(p, 'wb') as f:
            f.write(data[:cut])
        run.fault('truncated file', cut)
        seams.disk.redirect[os.path.realpath(INSTALLED)] = p
        return None
    if op == 'interrupt':
        return ch.pick('fault', [KeyboardInterrupt, MemoryError])('simulated')


def many(ch, run, load_swimmer):
    n = 2 + ch.draw('case', 3)
    s = sched.Scheduler(ch, run, policy='random', max_steps=20000)
    p = sched.Preempter(s, ch, run, mean=3)
    flats = [not ch.flip('case', 0.4) for _ in range(n)]
    times = 1 + ch.draw('case', 2)

    def body(flat):
        def go():
            out = []
            for _ in range(times):
                a = load_swimmer(flatten=flat)
                out.append(a.copy())
                a[...] = -1.0
            return out
        return go
    for i, f in enumerate(flats):
        s.spawn(body(f), 't%d' % i)
    try:
        with sched.monitoring(p):
            s.run()
    except sched.Deadlock as e:
        raise Violation('deadlock', str(e))
    run.probe('threads')
    run.nontrivial = True
    for i, t in enumerate(s.tasks):
        if isinstance(t.error, env.HarnessError):
            raise t.error
        if t.error is not None:
            raise Violation('load-failed', 'thread %d: %r' % (i, t.error))
        for a in t.result:
            check(a, flats[i], 'thread %d' % i)
