"""C06: a distributed load gives every rank the data, or an error: never a
hang, a part, or a touched file."""
import hashlib
import os
import shutil
import tempfile

import numpy as np

from sim import arrays as A, mpi, seams
from sim.core import Violation

QUICK, THOROUGH = 6000, 150000
REAL = ['pyuoi.mpi_utils', 'h5py, libhdf5 and the file system (scratch)']
STUB = ['MPI library and network: sim/mpi.py',
        'h5py.File: sim/seams.py (delegates; injects open and read errors)']
RULE = ('A run draws 1-6 ranks, 1-4 loads on one communicator, HDF5 files '
        '(dtypes, shapes, chunking, compression, key names), the root, '
        'message timing, and for each load a fault or none: missing file or '
        'key, a group or an unsupported type instead of a dataset, a '
        'truncated file, an error on open or on the n-th read. Non-trivial: '
        'at least two ranks.')
ASSUMPTIONS = ['an interrupt (KeyboardInterrupt) on one rank ends the job, '
               'as MPI does', 'all ranks name the same root']
PROBES = ('load-ok', 'load-failed', 'load-after-failure')

FAULTS = [None, None, None, 'no-file', 'no-X', 'no-y', 'group', 'dtype',
          'truncated', 'open-error', 'read-error', 'read-error', 'empty-file']
ERRORS = [lambda: seams.InjectedIOError('simulated I/O error'),
          lambda: PermissionError(13, 'simulated'),
          lambda: MemoryError('simulated'), lambda: KeyError('simulated'),
          lambda: seams.InjectedError('simulated'),
          lambda: MemoryError(), lambda: OSError(),
          lambda: RuntimeError(''),
          lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'simulated')]


def write(path, s, r):
    import h5py
    X = A.values(r, s['X'], s['dX'])
    y = A.values(r, s['y'], s['dy'])
    with h5py.RealFile(path, 'w') as f:
        for k, v in ((s['kX'], X), (s['ky'], y)):
            kw = {}
            if s['store'] and v.size:
                kw = dict(chunks=True)
                if s['store'] == 'gzip':
                    kw['compression'] = 'gzip'
            if s['fault'] == 'no-X' and v is X or \
                    s['fault'] == 'no-y' and v is y:
                continue
            if s['fault'] == 'group' and v is y:
                f.create_group(k)
                continue
            f.create_dataset(k, data=v, **kw)
        f['other'] = np.arange(3)
    if s['fault'] == 'truncated':
        n = os.path.getsize(path)
        os.truncate(path, int(n * s['cut'] / 100))
    elif s['fault'] == 'empty-file':
        os.truncate(path, 0)
    elif s['fault'] == 'no-file':
        os.unlink(path)


def reference(path, s):
    """What the file holds, read by h5py alone: (X, y) or the error."""
    import h5py
    try:
        with h5py.RealFile(path, 'r') as f:
            return f[s['kX']][()], f[s['ky']][()]
    except Exception as e:
        return e


def digest(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        out[n] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return out


def scenario(ch, run):
    seams.reset(ch, run)
    size = ch.pick('case', [2, 3, 1, 4, 5, 6]) + 8 * ch.flip('case', 0.02)
    n = 1 + ch.draw('case', 4)
    use_world = ch.flip('case', 0.3)
    seed = ch.draw('case', 10 ** 6)
    steps = []
    for i in range(n):
        nx = ch.pick('case', [2, 1, 3])
        s = dict(root=ch.draw('case', size),
                 X=tuple(ch.pick('case', [3, 5, 1, 0]) for _ in range(nx)),
                 y=tuple(ch.pick('case', [4, 1, 7, 0])
                         for _ in range(ch.pick('case', [1, 2]))),
                 dX=ch.pick('case', A.GOOD), dy=ch.pick('case', A.GOOD),
                 store=ch.pick('case', [None, 'chunked', 'gzip']),
                 kX=ch.pick('case', ['X', 'features', 'g/X']),
                 ky=ch.pick('case', ['y', 'targets', 'g/y']),
                 defaults=False,
                 fault=ch.pick('fault', FAULTS), cut=ch.draw('fault', 100))
        if ch.flip('case', 0.03):
            s['X'] = (ch.pick('case', [1025, 20011]),) + s['X'][1:]
            s['y'] = (ch.pick('case', [1025, 40009]),) + s['y'][1:]
            run.probe('large')
        if s['fault'] == 'dtype':
            s[ch.pick('case', ['dX', 'dy'])] = ch.pick('case', A.ODD)
        if s['fault'] == 'read-error':
            s['nth'] = ch.draw('fault', 2)
        if s['fault'] in ('read-error', 'open-error'):
            s['error'] = ch.draw('fault', len(ERRORS))
        if s['kX'] == 'X' and s['ky'] == 'y':
            s['defaults'] = ch.flip('case', 0.5)
        steps.append(s)
    run.case = dict(size=size, steps=steps, seed=seed, world=use_world)
    d = tempfile.mkdtemp(prefix='sim-c06-')
    try:
        _run(ch, run, d, steps, size, use_world, seed)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    run.nontrivial = size > 1


def _run(ch, run, d, steps, size, use_world, seed):
    refs = []
    for i, s in enumerate(steps):
        p = os.path.join(d, 'd%d.h5' % i)
        write(p, s, np.random.RandomState(seed + i))
        refs.append(reference(p, s))
        if s['fault'] not in (None, 'open-error', 'read-error'):
            run.fault('file-' + s['fault'])
    before = digest(d)
    failed_before = False
    for i, s in enumerate(steps):
        path = os.path.join(d, 'd%d.h5' % i)
        ref = refs[i]
        seams.disk.reset(run)
        if s['fault'] == 'open-error':
            seams.disk.fail_open = ERRORS[s['error']]()
        if s['fault'] == 'read-error':
            seams.disk.fail_read_at = (s['nth'], ERRORS[s['error']]())
        w = mpi.World(ch, run, size)

        def main(comm):
            from pyuoi.mpi_utils import load_data_MPI
            kw = {} if s['defaults'] else dict(X_key=s['kX'], y_key=s['ky'])
            if not use_world:
                kw['comm'] = comm
            try:
                got = load_data_MPI(path, root=s['root'], **kw)
                err = None
            except Exception as e:
                got, err = None, e
            # the communicator is still usable, at the same point everywhere
            sync = comm.allgather(comm.rank)
            return got, err, sync
        outs = w.launch(main)
        w.check_clean()
        what = 'load %d (%s): ' % (i, s['fault'])
        for r, o in enumerate(outs):
            if o.state != 'ok':
                raise Violation('rank-failed', '%srank %d: %s %s %r' % (
                    what, r, o.state, o.where, o.error))
            if o.value[2] != list(range(size)):
                raise Violation('communicator-broken', '%srank %d got %s'
                                % (what, r, o.value[2]))
        ok = [r for r, o in enumerate(outs) if o.value[1] is None]
        if ok and len(ok) < size:
            bad = [r for r in range(size) if r not in ok]
            raise Violation('partial-failure', '%sranks %s loaded, ranks %s '
                            'raised %r' % (what, ok, bad,
                                           outs[bad[0]].value[1]))
        injected = seams.disk.fail_open or (
            seams.disk.fail_read_at[1] if seams.disk.fail_read_at and
            seams.disk.reads > seams.disk.fail_read_at[0] else None)
        if ok:
            run.probe('load-ok')
            if failed_before:
                run.probe('load-after-failure')
            if injected is not None or isinstance(ref, Exception):
                raise Violation('error-hidden', '%severy rank returned data, '
                                'but reading fails with %r'
                                % (what, injected or ref))
            for r, o in enumerate(outs):
                for nm, a, b in zip('Xy', o.value[0], ref):
                    if not A.same(a, b):
                        raise Violation('wrong-data', '%srank %d, %s: %s, in '
                                        'the file: %s' % (what, r, nm,
                                                          A.show(a),
                                                          A.show(b)))
        else:
            failed_before = True
            run.probe('load-failed')
            cause = outs[s['root']].value[1]
            if injected is None and not isinstance(ref, Exception) and \
                    s['dX'] in A.GOOD and s['dy'] in A.GOOD:
                raise Violation('spurious-error', '%sthe file reads well, '
                                'but every rank raised; the root: %r'
                                % (what, cause))
            if injected is not None and cause is not injected and \
                    type(cause) is not type(injected) and \
                    injected not in (cause.__cause__, cause.__context__):
                raise Violation('wrong-error', '%sthe root raised %r for %r'
                                % (what, cause, injected))
        for p, mode, who in seams.disk.opens:
            if who != 'r%d' % s['root']:
                raise Violation('not-only-root', '%s%s opened the file, the '
                                'root is %d' % (what, who, s['root']))
            if mode != 'r':
                raise Violation('opened-to-write', '%smode %r' % (what, mode))
        if seams.disk.open_now:
            raise Violation('file-left-open', what)
    if digest(d) != before:
        raise Violation('file-changed', 'a data file is not what it was')
