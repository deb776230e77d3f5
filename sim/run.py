#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE] [--runs N] [--seed S] [--only I]

Runs one property's simulations on all cores, each run a function of
VERIF_SEED, the property and the run's number. A violation is shrunk, written
to replays/, confirmed in a fresh process and reported. Exit 0: none found;
1: VIOLATION; 2: the harness failed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
FIXED_ENV = dict(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')

if __name__ == '__main__':
    want = dict(FIXED_ENV)
    want['PYTHONHASHSEED'] = os.environ.get('SIM_HASHSEED', '0')
    if any(os.environ.get(k) != v for k, v in want.items()) or (
            os.path.exists(PY) and sys.prefix != '/opt/venv'):
        e = dict(os.environ, **want)
        for k in ('PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONSTARTUP'):
            e.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    sys.path[0] = VERIF

import argparse       # noqa: E402
import faulthandler   # noqa: E402
import hashlib        # noqa: E402
import importlib      # noqa: E402
import pickle         # noqa: E402
import select         # noqa: E402
import signal         # noqa: E402
import struct         # noqa: E402
import subprocess     # noqa: E402
import time           # noqa: E402
import traceback      # noqa: E402

from sim import core, env      # noqa: E402

real_time = time.time
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS,
           signal.SIGILL}
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))


def load(prop):
    return importlib.import_module('sim.checks.' + prop.lower())


def seed_of(seed, prop, i):
    return '%s/%s/%d' % (seed, prop, i)


def known_findings():
    """property -> identities of listed, unrepaired findings."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = dict(w.split('=', 1) for w in line.split(' ')[1:3])
                out.setdefault(f['property'], []).append(
                    (f['id'], line.split(' ', 3)[3]))
    return out


def one(check, streams=None, seed=None):
    """Run the scenario once; returns a plain dict."""
    ch = core.Choices(seed=seed, streams=streams)
    t0 = real_time()
    try:
        run, v = core.execute(check.scenario, ch)
    except env.HarnessError as e:
        return dict(harness='%s: %s\n%s' % (type(e).__name__, e,
                                            traceback.format_exc()),
                    streams=ch.log)
    except Exception as e:
        return dict(harness='%s: %s\n%s' % (type(e).__name__, e,
                                            traceback.format_exc()),
                    streams=ch.log)
    d = run.summary()
    d['wall'] = real_time() - t0
    d['out'] = getattr(run, 'out', None)
    if v is not None:
        d['cls'], d['msg'] = v.cls, v.msg
        d['finding'] = getattr(v, 'finding', None)
        d['streams'] = ch.log
        d['tail'] = run.tail[-200:]
    return d


# ------------------------------------------------------- isolated execution

def isolated(check, timeout, streams=None, seed=None, before=()):
    """one() in a forked child, so that crashes and hangs are observed.
    before: seeds of runs made first in the same process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _quiet()
            for b in before:
                one(check, seed=b)
            data = pickle.dumps(one(check, streams, seed))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = b''
    end = real_time() + timeout
    while True:
        left = end - real_time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return dict(cls='hang', msg='no end within %d s' % timeout,
                        hang=True)
        ok, _, _ = select.select([r], [], [], left)
        if ok:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in CRASHES:
            return dict(cls='native-crash', msg='killed by %s'
                        % signal.Signals(s).name)
        return dict(harness='child killed by signal %d' % s)
    if not buf:
        return dict(harness='child ended with %s and no result' % st)
    return pickle.loads(buf)


def _quiet():
    """Real standard output and error are not for the code under test."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if not os.environ.get('SIM_NOISY'):
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        os.close(n)


# ----------------------------------------------------------------- the pool

def _send(f, tag, obj):
    b = pickle.dumps((tag, obj))
    f.write(struct.pack('<I', len(b)) + b)
    f.flush()


def pool(check, prop, seed, todo, wall_cap, run_timeout):
    """Runs todo (run numbers) on WORKERS forked processes. Returns
    (results by number, first failing number or None, note)."""
    nw = max(1, min(WORKERS, len(todo)))
    procs = {}
    for k in range(nw):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs.values():
                os.close(p['fd'])
            try:
                _quiet()
                with os.fdopen(w, 'wb') as f:
                    for i in todo[k::nw]:
                        _send(f, 'start', i)
                        d = one(check, seed=seed_of(seed, prop, i))
                        _send(f, 'end', (i, d))
                        if d.get('harness') or (d.get('cls') and
                                                not d.get('finding')):
                            break
            except BaseException:
                os._exit(3)
            os._exit(0)
        os.close(w)
        procs[r] = dict(pid=pid, fd=r, buf=b'', cur=None, t0=real_time())
    results = {}
    bad = {}
    t_end = real_time() + wall_cap
    capped = False
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 0.5)
        now = real_time()
        for fd in ready:
            p = procs[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del procs[fd]
                _, st = os.waitpid(p['pid'], 0)
                if p.get('killed'):
                    continue
                if os.WIFSIGNALED(st):
                    s = os.WTERMSIG(st)
                    i = p['cur']
                    if i is not None and s in CRASHES:
                        bad[i] = dict(cls='native-crash', msg='killed by %s'
                                      % signal.Signals(s).name)
                    else:
                        bad[-1 if i is None else i] = dict(
                            harness='worker killed by signal %d' % s)
                elif st:
                    bad[-1] = dict(harness='worker ended with %s' % st)
                continue
            p['buf'] += b
            while len(p['buf']) >= 4:
                n = struct.unpack('<I', p['buf'][:4])[0]
                if len(p['buf']) < 4 + n:
                    break
                tag, obj = pickle.loads(p['buf'][4:4 + n])
                p['buf'] = p['buf'][4 + n:]
                if tag == 'start':
                    p['cur'], p['t0'] = obj, now
                else:
                    i, d = obj
                    p['cur'] = None
                    if d.get('harness') or (d.get('cls') and
                                            not d.get('finding')):
                        bad[i] = d
                    else:
                        results[i] = d
        first = min(bad) if bad else None
        for fd, p in list(procs.items()):
            if p.get('killed'):
                continue
            i = p['cur']
            if i is not None and now - p['t0'] > run_timeout:
                bad[i] = dict(cls='hang', msg='no end within %d s'
                              % run_timeout, hang=True)
                p['killed'] = True
                os.kill(p['pid'], signal.SIGKILL)
            elif first is not None and i is not None and i > first:
                p['killed'] = True
                os.kill(p['pid'], signal.SIGKILL)
            elif now > t_end:
                capped = True
                p['killed'] = True
                os.kill(p['pid'], signal.SIGKILL)
    return results, bad, capped


# ------------------------------------------------------------------ reports

def write_replay(prop, obj):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(obj.get('streams'), sort_keys=True,
                                  default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    core.dump(p, obj)
    return p


def confirm(prop, path):
    """Replay in a fresh process; True when it fails again."""
    r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), prop,
                        '--replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    return r.returncode == 1, r.stdout.decode(errors='replace')


def report_sequence(check, prop, seed, i, t_budget, nw):
    """A run that fails only after earlier runs of its worker: the code under
    test keeps state between them. Find which runs are needed."""
    mine = [seed_of(seed, prop, j) for j in range(i % nw, i, nw)]
    this = seed_of(seed, prop, i)
    timeout = 300

    def fails(before):
        r = isolated(check, timeout, seed=this, before=before)
        return r if r.get('cls') and not r.get('finding') else None
    end = real_time() + 3 * t_budget
    r = fails(mine)
    if not r:
        print('run %d fails neither alone nor after its predecessors' % i)
        return None
    size = max(1, len(mine) // 2)
    while real_time() < end:
        k = 0
        while k < len(mine) and real_time() < end:
            cand = mine[:k] + mine[k + size:]
            q = fails(cand)
            if q:
                mine, r = cand, q
            else:
                k += size
        if size == 1:
            break
        size //= 2
    obj = dict(property=prop, seed=seed, index=i, run_seed=this,
               before=mine, cls=r['cls'], msg=r.get('msg'), streams=None,
               case=r.get('case'), digest=r.get('digest'),
               trace=r.get('tail'))
    path = write_replay(prop, obj)
    ok, out = confirm(prop, path)
    print('%s (after %d earlier runs in the same process): %s'
          % (r['cls'], len(mine), str(r.get('msg'))[:1500]))
    return path if ok else None


def report(check, prop, seed, i, d, t_budget, nw):
    """Shrink, save, confirm. Returns the replay path, or None."""
    timeout = getattr(check, 'RUN_TIMEOUT', 60)
    cls = d['cls']
    print('run %d: %s: %s' % (i, cls, str(d.get('msg'))[:600]))
    sys.stdout.flush()
    first = isolated(check, timeout * 3 if d.get('hang') else timeout,
                     seed=seed_of(seed, prop, i))
    if first.get('harness'):
        print('HARNESS: %s' % first['harness'])
        return None
    if first.get('cls') is None:
        return report_sequence(check, prop, seed, i, t_budget, nw)
    cls = first['cls']
    streams = first.get('streams')
    best = dict(first)
    if streams is None:
        # crashed or hung: take the choices from the seed
        obj = dict(property=prop, seed=seed, index=i, cls=cls,
                   run_seed=seed_of(seed, prop, i), streams=None,
                   msg=first.get('msg'))
        path = write_replay(prop, obj)
    else:
        end = real_time() + t_budget
        n = [0]

        def budget():
            return real_time() < end and n[0] < 400
        same = getattr(check, 'same_class', lambda a, b: a == b)

        def test(s):
            n[0] += 1
            r = isolated(check, timeout, streams=s)
            if r.get('cls') and not r.get('finding') and \
                    same(r['cls'], cls):
                best.clear()
                best.update(r)
                return True
            return False
        s = core.shrink(test, streams, budget)
        obj = dict(property=prop, seed=seed, index=i,
                   run_seed=seed_of(seed, prop, i), cls=best['cls'],
                   msg=best.get('msg'), streams=s, case=best.get('case'),
                   faults=best.get('faults'), digest=best.get('digest'),
                   trace=best.get('tail'),
                   original=dict(streams=streams, digest=first.get('digest'),
                                 cls=cls, msg=first.get('msg')),
                   shrink_attempts=n[0])
        path = write_replay(prop, obj)
    ok, out = confirm(prop, path)
    if not ok and streams is not None:
        obj['streams'] = streams
        path = write_replay(prop, obj)
        ok, out = confirm(prop, path)
    if not ok:
        obj['streams'] = None
        path = write_replay(prop, obj)
        ok, out = confirm(prop, path)
    if not ok:
        print('the failure does not replay:\n' + out[-3000:])
        return None
    print('%s: %s' % (obj['cls'], str(obj.get('msg'))[:1500]))
    return path


def replay(check, prop, path):
    obj = json.load(open(path))
    if hasattr(check, 'replay') and obj.get('mode'):
        return check.replay(obj)
    timeout = getattr(check, 'RUN_TIMEOUT', 60) * 2
    if obj.get('streams') is None:
        before = obj.get('before') or ()
        d = isolated(check, timeout + 10 * len(before),
                     seed=obj['run_seed'], before=before)
    else:
        d = isolated(check, timeout, streams=obj['streams'])
    if d.get('harness'):
        print('HARNESS: ' + d['harness'])
        return 2
    for line in d.get('tail') or ():
        print('  ' + line)
    if d.get('cls'):
        print('%s: %s' % (d['cls'], d.get('msg')))
        if obj.get('digest'):
            print('history digest %s, recorded %s: %s'
                  % (d.get('digest'), obj['digest'],
                     'identical' if d.get('digest') == obj['digest']
                     else 'DIFFERENT'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('no violation: property=%s' % prop)
    return 0


def merge(results):
    faults, probes, real, stub = {}, {}, set(), set()
    for d in results:
        for k, v in d['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d['probes'].items():
            probes[k] = probes.get(k, 0) + v
        real.update(d['real'])
        stub.update(d['stub'])
    return faults, probes, sorted(real), sorted(stub)


def evidence(check, prop, seed, tier, results, wall, violations, capped,
             extra):
    rs = [results[i] for i in sorted(results)]
    faults, probes, real, stub = merge(rs)
    key = set()
    for d in rs:
        if d['nontrivial']:
            key.add((json.dumps(d['case'], sort_keys=True, default=str),
                     d['inter']))
    samples = [dict(run=i, case=results[i]['case'],
                    faults=results[i]['faults'],
                    events=results[i]['events'],
                    history_digest=results[i]['digest'],
                    simulated_seconds=round(results[i]['sim_time'], 6))
               for i in sorted(results)[:6]]
    cov = dict(
        evaluations=len(rs), distinct_nontrivial=len(key), rule=check.RULE,
        samples=samples,
        distinct_interleavings=len({d['inter'] for d in rs}),
        distinct_histories=len({d['digest'] for d in rs}),
        interleaving_measure='hash of the sequence of (task released, '
        'preemption point, fault fired) of a run',
        simulated_seconds=round(sum(d['sim_time'] for d in rs), 3),
        faults_fired=dict(sorted(faults.items())),
        probes=dict(sorted(probes.items())),
        runs_per_hour=int(len(rs) / max(wall, 1e-3) * 3600),
        seeds='%s/%s/0 .. %d (run r uses the PRNG streams named '
              '"<VERIF_SEED>/<property>/<r>/<domain>")'
              % (seed, prop, max(results) if results else -1),
        events=sum(d['events'] for d in rs),
        stopped_by_wall_cap=capped,
        real_components=real or sorted(check.REAL),
        stub_components=stub or sorted(check.STUB))
    cov.update(extra or {})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    core.dump(os.path.join(VERIF, 'evidence', prop + '.json'), dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=cov, assumptions=getattr(check, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=violations))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--only', type=int)
    ap.add_argument('--digests', help='write {run: [digest, out]} here')
    ap.add_argument('--wall', type=float)
    a = ap.parse_args()
    prop = a.property
    faulthandler.disable()
    seed = a.seed if a.seed is not None else \
        int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = real_time()
    try:
        env.setup()
        check = load(prop)
        if hasattr(check, 'prepare'):
            check.prepare()
    except env.HarnessError as e:
        print('HARNESS: %s: %s' % (type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        return replay(check, prop, a.replay)
    n = a.runs or (check.THOROUGH if tier == 'thorough' else check.QUICK)
    todo = [a.only] if a.only is not None else list(range(n))
    cap = a.wall or (10 * 3600 if tier == 'thorough' else 300)
    if a.only is not None and os.environ.get('SIM_NOISY'):
        d = one(check, seed=seed_of(seed, prop, a.only))
        print(json.dumps({k: v for k, v in d.items() if k not in
                          ('streams', 'tail', 'harness')}, indent=1,
                         default=str))
        print('\n'.join(d.get('tail') or ()))
        print(d.get('harness') or '')
        return 0
    results, bad, capped = pool(check, prop, seed, todo, cap,
                                getattr(check, 'RUN_TIMEOUT', 60))
    if a.digests:
        core.dump(a.digests, {str(i): [d['digest'], d['out'], d['inter']]
                              for i, d in results.items()})
    rc = 0
    nviol = 0
    if bad:
        i = min(bad)
        d = bad[i]
        if d.get('harness'):
            # a violation seen elsewhere still counts
            vs = [j for j in sorted(bad) if bad[j].get('cls')]
            print('HARNESS: run %d: %s' % (i, d['harness']))
            rc = 2
            if vs:
                i = vs[0]
                d = bad[i]
        if d.get('cls'):
            path = report(check, prop, seed, i, d,
                          30 if tier == 'quick' else 300,
                          max(1, min(WORKERS, len(todo))))
            if path:
                nviol = len([1 for x in bad.values() if x.get('cls')])
                print('VIOLATION property=%s replay=%s' % (prop, path))
                rc = 1
            else:
                rc = 2
    extra = {}
    if rc == 0 and hasattr(check, 'final') and not a.digests and \
            a.only is None:
        try:
            v, extra = check.final(results, seed, n)
        except env.HarnessError as e:
            print('HARNESS: %s' % e)
            return 2
        if v is not None:
            path = write_replay(prop, v)
            print('%s: %s' % (v['cls'], v['msg']))
            ok, out = confirm(prop, path)
            if ok:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                rc, nviol = 1, 1
            else:
                print('the failure does not replay:\n' + out[-3000:])
                rc = 2
    listed = dict(known_findings().get(prop, ()))
    seen = {d['finding'] for d in results.values() if d.get('finding')}
    for f in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, listed[f]))
    extra = dict(extra or {})
    if listed:
        extra['known_findings_seen'] = sorted(seen)
    if a.only is None and not a.digests:
        evidence(check, prop, seed, tier, results, real_time() - t0, nviol,
                 capped, extra)
    if rc == 0:
        missing = [p for p in getattr(check, 'PROBES', ())
                   if not any(d['probes'].get(p) for d in results.values())]
        print('%s: %d runs, no violation, %.1f s%s%s'
              % (prop, len(results), real_time() - t0,
                 ', wall cap' if capped else '',
                 ', probes at zero: %s' % missing if missing else ''))
        if not results:
            return 2
    return rc


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
