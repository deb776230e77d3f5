"""Real threads, parked and released one at a time: which one runs is a seeded
choice. Also the line monitor, which lets a run switch threads or raise an
exception at any line of pyuoi, and locks that wait through the scheduler."""
import _thread
import os
import dis
import sys
import threading

from .env import HarnessError, REPO

_real_lock = _thread.allocate_lock
_real_rlock = _thread.RLock


class SimAbort(BaseException):
    """Unwinds a parked thread when its run is over."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


_tasks = {}         # thread ident -> Task


def current():
    return _tasks.get(_thread.get_ident())


class Task:
    def __init__(self, sched, fn, name):
        self.sched = sched
        self.fn = fn
        self.name = name
        self.go = _real_lock()
        self.go.acquire()
        self.state = 'ready'      # ready, blocked, lockwait, done
        self.when = 0.0
        self.seq = 0
        self.lock = None
        self.why = ''
        self.result = None
        self.error = None
        self.ctx = None
        self.abort = False
        self.lines = 0
        self.nopreempt = 0
        self.pending = None       # exception to raise at the next resume

    def _main(self):
        self.go.acquire()
        _tasks[_thread.get_ident()] = self
        try:
            if not self.abort:
                self.result = self.fn()
        except SimAbort:
            self.error = self.error or SimAbort()
        except BaseException as e:   # noqa: recorded, judged by the check
            self.error = e
        finally:
            self.state = 'done'
            del _tasks[_thread.get_ident()]
            self.sched._back.release()


class Scheduler:
    """policy 'random': the next task is drawn from the ready ones;
    policy 'time': the ready task with the smallest (time, seq) runs."""

    def __init__(self, ch, run, policy='random', max_steps=200000):
        self.ch = ch
        self.run_rec = run
        self.policy = policy
        self.tasks = []
        self._back = _real_lock()
        self._back.acquire()
        self.now = 0.0
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.running = None
        self.last = None
        self.on_switch = None     # called with (old task, new task)
        self.quantum = 0

    def spawn(self, fn, name):
        t = Task(self, fn, name)
        self.seq += 1
        t.seq = self.seq
        self.tasks.append(t)
        return t

    def run(self):
        """Run until every task is done. Raises Deadlock if none can go on."""
        for t in self.tasks:
            if t.state != 'done' and not getattr(t, 'thread', None):
                t.thread = threading.Thread(target=t._main, daemon=True)
                t.thread.start()
        try:
            while True:
                ready = [t for t in self.tasks if t.state == 'ready']
                if not ready:
                    if all(t.state == 'done' for t in self.tasks):
                        return
                    raise Deadlock('; '.join(
                        '%s waits for %s' % (t.name, t.why or t.state)
                        for t in self.tasks if t.state != 'done'))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise StepLimit('%d scheduling steps' % self.steps)
                if self.policy == 'time':
                    t = min(ready, key=lambda t: (t.when, t.seq))
                    self.now = max(self.now, t.when)
                elif len(ready) == 1:
                    t = ready[0]
                else:
                    t = ready[self.ch.draw('sched', len(ready))]
                self._resume(t)
        finally:
            self._reap()

    def _resume(self, t):
        if self.last is not t:
            if self.on_switch:
                self.on_switch(self.last, t)
            self.run_rec.step('run', t.name)
            self.last = t
        self.running = t
        t.go.release()
        self._back.acquire()
        self.running = None
        if t.state == 'done':
            self.run_rec.log('done', t.name,
                             type(t.error).__name__ if t.error else 'ok')

    def _reap(self):
        for t in self.tasks:
            if not getattr(t, 'thread', None):
                t.state = 'done'
                continue
            for _ in range(50):
                if t.state == 'done':
                    break
                t.abort = True
                t.go.release()
                self._back.acquire()
            if t.state != 'done':
                raise HarnessError('task %s does not unwind' % t.name)
            t.thread.join()

    # called by the running task
    def park(self, state='ready', why='', when=None):
        t = current()
        t.state = state
        t.why = why
        self.seq += 1
        t.seq = self.seq
        if when is not None:
            t.when = when
        self._back.release()
        t.go.acquire()
        if t.abort:
            raise SimAbort()
        t.state = 'ready'
        t.why = ''
        if t.pending is not None:
            e, t.pending = t.pending, None
            raise e

    def wake(self, t, when=None):
        t.state = 'ready'
        self.seq += 1
        t.seq = self.seq
        if when is not None:
            t.when = when


# ---------------------------------------------------------------- locks

class SimLock:
    _make = staticmethod(_real_lock)

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else \
                self._l.acquire(False)
        while not self._l.acquire(False):
            if timeout is not None and timeout >= 0:
                return False
            t.lock = self
            t.sched.park('lockwait', 'a lock')
        t.lock = None
        return True

    def release(self):
        self._l.release()
        t = current()
        if t is not None:
            for o in t.sched.tasks:
                if o.state == 'lockwait' and o.lock is self:
                    o.state = 'ready'

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _make = staticmethod(_real_rlock)

    def locked(self):
        return self._l._is_owned()

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        return self._l._release_save()

    def _acquire_restore(self, s):
        return self._l._acquire_restore(s)


_SRC = os.path.join(os.path.realpath(REPO), 'src', 'pyuoi') + os.sep


def _ours(filename):
    return filename.startswith(_SRC) or filename.startswith(
        os.path.join(REPO, 'src', 'pyuoi') + os.sep)


def install_locks():
    def lock():
        f = sys._getframe(1).f_code.co_filename
        return SimLock() if _ours(f) or 'logging' in f else _real_lock()

    def rlock(*a):
        f = sys._getframe(1).f_code.co_filename
        return SimRLock() if _ours(f) or 'logging' in f else _real_rlock()
    threading.Lock = lock
    threading.RLock = rlock
    import logging
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.createLock()


# -------------------------------------------------------------- monitor

TOOL = 4
hook = None          # hook(code, line): called at every line of pyuoi
_installed = False


def _on_line(code, line):
    if not _ours(code.co_filename):
        return sys.monitoring.DISABLE
    h = hook
    if h is not None:
        h(code, line)


def install_monitor():
    global _installed
    if _installed:
        return
    m = sys.monitoring
    m.use_tool_id(TOOL, 'sim')
    m.register_callback(TOOL, m.events.LINE, _on_line)
    m.set_events(TOOL, m.events.LINE)
    _installed = True


class monitoring:
    """with monitoring(fn): fn(code, line) at every line of pyuoi."""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        global hook
        install_monitor()
        self.old, hook = hook, self.fn

    def __exit__(self, *a):
        global hook
        hook = self.old


_with_lines = {}


def _withs(code):
    """Lines of code with a with statement. The interpreter delivers an
    asynchronous exception after calls, at function entries and backward
    jumps: never between the end of a with body and its __exit__, where the
    line event of that line comes a second time."""
    w = _with_lines.get(code)
    if w is None:
        w, line = set(), None
        for i in dis.get_instructions(code):
            line = i.positions.lineno if i.positions else line
            if i.opname in ('BEFORE_WITH', 'BEFORE_ASYNC_WITH'):
                w.add(line)
        _with_lines[code] = w
    return w


class striking(monitoring):
    """Like monitoring, only where an exception can really appear."""

    def __init__(self, fn):
        def at(code, line):
            if line not in _withs(code):
                fn(code, line)
        super().__init__(at)


class Preempter:
    """Line hook for a 'random' scheduler: after a drawn number of lines the
    running task is parked and any ready task may go on."""

    def __init__(self, sched, ch, run, mean=40):
        self.s, self.ch, self.run, self.mean = sched, ch, run, mean
        self.left = self._next()
        self.switches = 0

    def _next(self):
        # mostly long stretches, sometimes a burst of single lines
        if self.ch.draw('sched', 4) == 3:
            return 1 + self.ch.draw('sched', 3)
        return 1 + self.ch.draw('sched', 2 * self.mean)

    def __call__(self, code, line):
        t = current()
        if t is None or t.sched is not self.s or t.abort or t.nopreempt:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self._next()
        self.switches += 1
        self.run.step('preempt', t.name, code.co_name)
        self.s.park('ready')
