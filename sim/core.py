"""Seeded choices, run records, shrinking. No clock, no entropy: everything a
run does is a function of its choice streams and the code under test."""
import os
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold. cls names the kind of failure (stable under
    shrinking), msg says what was seen."""

    def __init__(self, cls, msg=''):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Choices:
    """Named streams of choices. Recording: every stream is a PRNG derived from
    the seed. Replaying: the recorded lists; past their end every choice is 0,
    and 0 is always the simplest option."""

    def __init__(self, seed=None, streams=None):
        self.seed = seed
        self.given = streams
        self.log = {}
        self._rng = {}
        self._pos = {}

    def draw(self, dom, n):
        """An integer in [0, n)."""
        if n <= 1:
            v = 0
        elif self.given is not None:
            pos = self._pos.get(dom, 0)
            self._pos[dom] = pos + 1
            s = self.given.get(dom, ())
            v = s[pos] if pos < len(s) else 0
            if not 0 <= v < n:
                v = v % n
        else:
            r = self._rng.get(dom)
            if r is None:
                r = self._rng[dom] = random.Random('%s/%s' % (self.seed, dom))
            v = int(r.random() * n)
        if n > 1:
            self.log.setdefault(dom, []).append(v)
        return v

    def pick(self, dom, options):
        return options[self.draw(dom, len(options))]

    def flip(self, dom, p):
        """True with probability p; replays as False when exhausted."""
        return self.draw(dom, 1000) >= 1000 - int(round(1000 * p))

    def span(self, dom, lo, hi):
        return lo + self.draw(dom, hi - lo + 1)

    def shuffled(self, dom, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(dom, i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Run:
    """What one simulated run did."""

    def __init__(self, ch):
        self.ch = ch
        self.events = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.case = {}
        self.inter = hashlib.sha256()
        self.nontrivial = False
        self.real = set()
        self.stub = set()

    def log(self, *what):
        line = ' '.join(str(w) for w in what)
        self.events.update(line.encode() + b'\n')
        self.n_events += 1
        self.tail.append(line)
        if len(self.tail) > 400:
            del self.tail[:200]

    def step(self, *what):
        """A scheduling step: part of the interleaving's identity."""
        self.inter.update((' '.join(str(w) for w in what) + '\n').encode())
        self.log(*what)

    def fault(self, kind, *where):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.inter.update(('F %s %s\n' % (kind, where)).encode())
        self.log('FAULT', kind, *where)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def summary(self):
        return dict(digest=self.events.hexdigest()[:24], events=self.n_events,
                    faults=self.faults, probes=self.probes,
                    sim_time=self.sim_time, case=self.case,
                    inter=self.inter.hexdigest()[:24],
                    nontrivial=bool(self.nontrivial),
                    real=sorted(self.real), stub=sorted(self.stub))


def execute(scenario, ch):
    """Run one scenario; returns (Run, Violation or None). Harness errors
    propagate."""
    run = Run(ch)
    try:
        scenario(ch, run)
    except Violation as v:
        run.log('VIOLATION', v.cls, v.msg)
        return run, v
    except Exception as e:
        if not of_code_under_test(e) and not promised(e):
            raise
        v = Violation('raises', '%s: %s' % (type(e).__name__, e))
        run.log('VIOLATION', v.cls, v.msg)
        return run, v
    return run, None


def promised(e):
    """Is a documented attribute of an estimator missing?"""
    cls = type(getattr(e, 'obj', None))
    name = getattr(e, 'name', None) or '_'
    return isinstance(e, AttributeError) and not name.startswith('_') and \
        cls.__module__.startswith('pyuoi') and \
        any(name in (c.__doc__ or '').replace('``', ' ').split()
            for c in cls.__mro__)


def of_code_under_test(e):
    """Was this exception raised in the code under test, or in a library it
    called, where the scenario expects none?"""
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    mine = [i for i, f in enumerate(files)
            if os.path.abspath(f).startswith(here + os.sep)]
    after = files[mine[-1] + 1:] if mine else files
    return any(os.sep + 'pyuoi' + os.sep in f for f in after)


def shrink(test, streams, budget):
    """Reduce the choice streams while test(streams) still fails. test returns
    True when the same kind of violation persists; budget is a callable that
    says whether to go on."""
    cur = {k: list(v) for k, v in streams.items()}

    def attempt(cand):
        cand = {k: _strip(v) for k, v in cand.items()}
        if cand == cur:
            return False
        if test(cand):
            cur.clear()
            cur.update(cand)
            return True
        return False

    order = sorted(cur, key=lambda k: (k not in ('sched', 'fault', 'ambient'),
                                       k))
    # whole streams first: no faults, plain schedule
    for k in order:
        if not budget():
            return cur
        attempt({**cur, k: []})
    progress = True
    while progress and budget():
        progress = False
        for k in order:
            # truncate, then zero blocks, then lower single values
            n = len(cur.get(k, ()))
            size = n // 2
            while size >= 1 and budget():
                if attempt({**cur, k: cur.get(k, [])[:max(0, n - size)]}):
                    progress = True
                    n = len(cur.get(k, ()))
                    size = min(size, n // 2) or (1 if n else 0)
                    if not n:
                        break
                else:
                    size //= 2
            size = max(1, len(cur.get(k, ())) // 2)
            while size >= 1 and budget():
                i = 0
                while i < len(cur.get(k, ())) and budget():
                    s = cur[k]
                    if any(s[i:i + size]):
                        if attempt({**cur, k: s[:i] + [0] * len(s[i:i + size])
                                    + s[i + size:]}):
                            progress = True
                    i += size
                if size == 1:
                    break
                size //= 2
            i = 0
            while i < len(cur.get(k, ())) and i < 64 and budget():
                v = cur[k][i]
                for w in (1, v // 2, v - 1):
                    if 0 < w < v and attempt(
                            {**cur, k: cur[k][:i] + [w] + cur[k][i + 1:]}):
                        progress = True
                        break
                i += 1
    return cur


def _strip(s):
    s = list(s)
    while s and s[-1] == 0:
        s.pop()
    return s


def dump(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
