"""A simulated MPI: the modules mpi4py and mpi4py.MPI, and a World in which
every rank is a task of the discrete-event scheduler. Messages are copied,
collectives match by their order on the communicator, completion is eager or
synchronous as drawn, buffers are checked the way mpi4py and MPI check them."""
import ctypes
import pickle
import random
import sys
import types

import numpy as np

from . import sched
from .core import Violation
from .env import HarnessError


class SimUnsupported(HarnessError):
    """An MPI feature the simulator does not model."""


class MPIException(RuntimeError):
    def __init__(self, code=16):
        super().__init__(code)
        self.error_code = code

    def Get_error_code(self):
        return self.error_code

    def Get_error_string(self):
        return 'MPI error %s' % self.error_code

    def __str__(self):
        return self.Get_error_string()


ERR_TRUNCATE, ERR_ROOT, ERR_RANK, ERR_OTHER, ERR_COUNT = 15, 7, 6, 16, 2


class Datatype:
    def __init__(self, name, dtype):
        self.name = name
        self.dtype = np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize

    @property
    def size(self):
        return self.dtype.itemsize

    extent = size

    def Get_name(self):
        return self.name

    def tobytes(self):
        return self.name.encode()

    def Commit(self):
        return self

    def Free(self):
        pass

    def __repr__(self):
        return 'MPI.' + self.name


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return 'MPI.' + self.name


TYPES = {n: Datatype(n, d) for n, d in dict(
    FLOAT='f4', DOUBLE='f8', LONG='i8', INT='i4', SHORT='i2', CHAR='i1',
    SIGNED_CHAR='i1', UNSIGNED_CHAR='u1', BYTE='u1', BOOL='?', C_BOOL='?',
    CXX_BOOL='?', LONG_LONG='i8', UNSIGNED='u4', UNSIGNED_LONG='u8',
    UNSIGNED_INT='u4', UNSIGNED_SHORT='u2', UNSIGNED_LONG_LONG='u8',
    INT8_T='i1', INT16_T='i2', INT32_T='i4', INT64_T='i8', UINT8_T='u1',
    UINT16_T='u2', UINT32_T='u4', UINT64_T='u8', COMPLEX='c8',
    C_FLOAT_COMPLEX='c8', DOUBLE_COMPLEX='c16', C_DOUBLE_COMPLEX='c16',
    REAL4='f4', REAL8='f8', INTEGER='i4', INTEGER8='i8', AINT='i8').items()}
OPS = {n: Op(n, f) for n, f in dict(
    SUM=lambda a, b: a + b, PROD=lambda a, b: a * b,
    MAX=lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray)
    else max(a, b),
    MIN=lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray)
    else min(a, b),
    LAND=lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray)
    else bool(a and b),
    LOR=lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray)
    else bool(a or b),
    BAND=lambda a, b: a & b, BOR=lambda a, b: a | b).items()}


class _InPlace:
    def __repr__(self):
        return 'MPI.IN_PLACE'


IN_PLACE = _InPlace()
ANY_SOURCE, ANY_TAG, PROC_NULL = -1, -1, -2


class Status:
    def __init__(self):
        self.source = self.tag = -1
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


# ------------------------------------------------------------- buffer specs

def _is_type(x):
    return isinstance(x, Datatype)


def _ints(seq, what):
    """Counts and displacements, as mpi4py reads them: sequences of integers."""
    if isinstance(seq, np.ndarray):
        # mpi4py reads these through getarray(), int by int
        seq = list(seq.ravel())
    out = []
    for s in seq:
        if isinstance(s, (bool, int, np.integer)):
            out.append(int(s))
        else:
            raise TypeError("%s: '%s' object cannot be interpreted as an "
                            "integer" % (what, type(s).__name__))
    return out


class Spec:
    """A parsed message buffer."""

    def __init__(self, arr, dtype, count=None, displ=0, counts=None,
                 displs=None):
        self.arr = arr
        self.dtype = dtype
        self.count, self.displ = count, displ
        self.counts, self.displs = counts, displs


def _array_of(obj, writable):
    if obj is None:
        return None
    if isinstance(obj, np.ndarray) or isinstance(obj, np.generic):
        a = obj
    elif isinstance(obj, (bytearray, bytes, memoryview)):
        a = np.frombuffer(obj, dtype='u1')
    else:
        a = None
        try:
            m = memoryview(obj)
            a = np.asarray(m)
        except TypeError:
            pass
        if a is None:
            raise TypeError('message: expecting buffer or list/tuple')
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise BufferError('memoryview: underlying buffer is not contiguous')
    if writable and not a.flags.writeable:
        raise BufferError('Object is not writable.')
    return a


def parse(msg, writable, vector=False, size=1):
    """[data], [data, type], [data, count, type], [data, counts, displs,
    type], [data, (counts, displs), type]."""
    typ = count = displ = None
    if isinstance(msg, (list, tuple)):
        parts = list(msg)
        if not 1 <= len(parts) <= 4:
            raise ValueError('message: expecting 2 to 4 items')
        data = parts[0]
        rest = parts[1:]
        if rest and (_is_type(rest[-1]) or isinstance(rest[-1], str)):
            typ = rest.pop()
        elif rest and rest[-1] is None:
            rest.pop()
        if len(rest) >= 1:
            count = rest[0]
        if len(rest) >= 2:
            displ = rest[1]
        if len(rest) == 1 and isinstance(count, tuple) and len(count) == 2 \
                and not all(isinstance(c, (int, np.integer))
                            for c in count):
            count, displ = count
    else:
        data = msg
    arr = _array_of(data, writable)
    if typ is None:
        dt = arr.dtype if arr is not None else np.dtype('u1')
    elif isinstance(typ, str):
        dt = np.dtype(typ)
    else:
        dt = typ.dtype
    if dt.kind not in 'iufcb':
        raise KeyError(dt.str)
    sp = Spec(arr, dt)
    total = 0 if arr is None else arr.nbytes // dt.itemsize
    if vector:
        if count is None:
            # even split, the remainder to the first ranks
            q, r = divmod(total, size)
            sp.counts = [q + (i < r) for i in range(size)]
        elif isinstance(count, (int, np.integer)):
            sp.counts = [int(count)] * size
        else:
            sp.counts = _ints(count, 'counts')
        if displ is None:
            sp.displs = [sum(sp.counts[:i]) for i in range(len(sp.counts))]
        else:
            sp.displs = _ints(displ, 'displacements')
        if len(sp.counts) != size or len(sp.displs) != size:
            raise ValueError('message: expecting %d counts and '
                             'displacements, got %d and %d'
                             % (size, len(sp.counts), len(sp.displs)))
    else:
        if count is None:
            sp.count = total
        else:
            if isinstance(count, (tuple, list)):
                raise ValueError('message: bad count')
            sp.count = _ints([count], 'count')[0]
        sp.displ = 0 if displ is None else _ints([displ], 'displ')[0]
        if arr is not None and (sp.count + sp.displ) * dt.itemsize > \
                arr.nbytes:
            raise ValueError('message: buffer too small for requested count')
        if arr is None and sp.count:
            raise ValueError('message: cannot send from a null buffer')
    return sp


def _bytes(arr):
    if arr.flags.c_contiguous:
        return arr.reshape(-1).view('u1') if arr.size else \
            np.zeros(0, 'u1')
    return arr.T.reshape(-1).view('u1')


def read(sp):
    if sp.arr is None:
        return b''
    s = sp.dtype.itemsize
    return _bytes(sp.arr)[sp.displ * s:(sp.displ + sp.count) * s].tobytes()


def write(sp, data):
    if not data:
        return
    s = sp.dtype.itemsize
    if len(data) > sp.count * s:
        raise MPIException(ERR_TRUNCATE)
    b = _bytes(sp.arr)
    b[sp.displ * s:sp.displ * s + len(data)] = np.frombuffer(data, 'u1')


# -------------------------------------------------------------------- world

class SimCrash(BaseException):
    """The rank's process dies here."""


class Slot:
    def __init__(self, kind, root, op):
        self.kind, self.root, self.op = kind, root, op
        self.entries = {}
        self.left = set()
        self.eager = True


_MT = 624 * 4 + 4


def _np_addr():
    return np.random.mtrand._rand._bit_generator.ctypes.state_address


def _np_get():
    # get_state() costs 80 us; this is called at every task switch
    return ctypes.string_at(_np_addr(), _MT)


def _np_set(b):
    ctypes.memmove(_np_addr(), b, _MT)


class Context:
    """A communicator as all its ranks see it."""
    n = 0

    def __init__(self, world, members, label):
        self.world = world
        self.members = members        # world ranks
        self.label = label
        self.seq = [0] * len(members)
        self.slots = {}
        self.mail = [[] for _ in members]
        self.waiting = {}
        self.children = 0


class Outcome:
    """How a rank ended: 'ok', 'raised', 'crashed', 'blocked'."""

    def __init__(self):
        self.state = None
        self.value = None
        self.error = None
        self.where = ''
        self.ops = 0

    def __repr__(self):
        return '<%s %s>' % (self.state, self.error or '')


class World:
    """size ranks, each running fn(comm). Plan: (kind, rank, op) -> done at
    the op-th MPI call of that rank."""

    def __init__(self, ch, run, size, max_steps=60000):
        self.ch, self.run, self.size = ch, run, size
        self.sched = sched.Scheduler(ch, run, policy='time',
                                     max_steps=max_steps)
        self.sched.on_switch = self._switch
        self.ops = [0] * size
        self.lines = [0] * size
        self.plan = {}
        self.failed = None            # first Violation seen inside a rank
        self.harness = None
        self.history = []             # (kind, rank, op no)
        # how this world's network and nodes behave
        self.jitter = ch.pick('sched', [0, 3, 30, 300])
        self.slow = None
        if size > 1 and ch.flip('fault', 0.15):
            self.slow = ch.draw('fault', size)
        self.eager_mode = ch.pick('sched', ['mixed', 'eager', 'sync'])
        self.rank_state = [None] * size
        self.tasks = []
        self.world_ctx = Context(self, list(range(size)), 'world')
        self.contexts = [self.world_ctx]
        self.aborted = None

    # per-rank process state: the global random streams
    def _switch(self, old, new):
        if old is not None and getattr(old, 'rank', None) is not None:
            self.rank_state[old.rank] = (_np_get(), random.getstate())
        if new is not None and getattr(new, 'rank', None) is not None:
            st = self.rank_state[new.rank]
            if st is None:
                base = self.base_entropy * 1009 + new.rank
                np.random.seed(base % (2 ** 32))
                random.seed(base)
            else:
                _np_set(st[0])
                random.setstate(st[1])

    def launch(self, fn):
        """fn(comm) on every rank; returns outcomes."""
        global _active
        if _active is not None:
            raise HarnessError('nested worlds')
        self.base_entropy = self.ch.draw('ambient', 2 ** 20)
        self.outcomes = [Outcome() for _ in range(self.size)]
        saved = (np.random.get_state(), random.getstate())
        for r in range(self.size):
            t = self.sched.spawn(
                (lambda r=r: fn(SimComm(self.world_ctx, r))), 'r%d' % r)
            t.rank = r
            t.when = float(self.ch.draw('sched', 1 + self.jitter))
            self.tasks.append(t)
        _active = self
        stuck = None
        try:
            try:
                self.sched.run()
            except sched.Deadlock as e:
                stuck = str(e)
            except sched.StepLimit as e:
                stuck = 'no end after ' + str(e)
        finally:
            _active = None
            np.random.set_state(saved[0])
            random.setstate(saved[1])
        self.run.sim_time += self.sched.now * 1e-6
        self.stuck = stuck
        for r, t in enumerate(self.tasks):
            o = self.outcomes[r]
            o.ops = self.ops[r]
            if isinstance(t.error, HarnessError):
                raise t.error
            if isinstance(t.error, SimCrash):
                o.state = 'crashed'
            elif isinstance(t.error, sched.SimAbort):
                o.state = 'blocked'
                o.where = getattr(t, 'at', '')
            elif t.error is not None:
                o.state, o.error = 'raised', t.error
            else:
                o.state, o.value = 'ok', t.result
            self.run.log('rank', r, o.state, type(o.error).__name__)
        if self.harness:
            raise self.harness
        return self.outcomes

    def check_clean(self):
        """No mismatch, no deadlock, nothing left over."""
        if self.failed:
            raise self.failed
        if self.stuck:
            raise Violation('deadlock', self.stuck)
        for c in self.contexts:
            for seq, s in sorted(c.slots.items()):
                missing = [m for i, m in enumerate(c.members)
                           if i not in s.entries]
                if missing:
                    raise Violation('unmatched-collective', '%s #%d on %s: '
                                    'ranks %s never called it'
                                    % (s.kind, seq, c.label, missing))
            for i, box in enumerate(c.mail):
                if box:
                    raise Violation('unreceived-message', 'rank %d leaves %d '
                                    'messages' % (c.members[i], len(box)))

    def fail(self, cls, msg):
        v = Violation(cls, msg)
        if self.failed is None:
            self.failed = v
        raise v

    def unsupported(self, what):
        e = SimUnsupported(what)
        self.harness = self.harness or e
        raise e

    # ------------------------------------------------------- scheduling
    def before_op(self, kind):
        t = sched.current()
        if t is None or t.sched is not self.sched:
            self.unsupported('MPI call outside a rank task: ' + kind)
        r = t.rank
        k = self.ops[r]
        self.ops[r] += 1
        t.at = '%s (call %d)' % (kind, k)
        self.history.append((r, k, kind))
        act = self.plan.get((r, k))
        self.run.log('op', r, k, kind)
        if act is not None:
            self.run.fault(act, r, k)
            if act == 'crash':
                raise SimCrash('rank %d at %s' % (r, kind))
            if act == 'mpi-error':
                raise MPIException(ERR_OTHER)
            if act == 'stall':
                t.when = self.sched.now + 10 ** 6
                self.sched.park('ready', 'stall', when=t.when)
        d = self.ch.draw('sched', 1 + self.jitter) if self.jitter else 0
        if self.slow == r:
            d = d * 50 + 500
            self.run.faults['straggler'] = \
                self.run.faults.get('straggler', 0) + 1
        self.sched.park('ready', 'before ' + kind, when=self.sched.now + d)
        return t

    def latency(self):
        return 1 + (self.ch.draw('sched', 1 + self.jitter)
                    if self.jitter else 0)

    def is_eager(self):
        if self.eager_mode == 'mixed':
            return self.ch.draw('sched', 2) == 0
        return self.eager_mode == 'eager'


_active = None


class Request:
    def __init__(self, comm, ready=None, finish=None, value=None):
        self.comm, self.ready, self.finish = comm, ready, finish
        self.value = value
        self.done = ready is None

    def wait(self, status=None):
        if not self.done:
            self.comm._block(self.ready, 'wait')
            self.value = self.finish()
            self.done = True
        return self.value

    Wait = wait

    def test(self, status=None):
        if not self.done and self.ready():
            self.value = self.finish()
            self.done = True
        return self.done, self.value

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class SimComm:
    def __init__(self, ctx, rank):
        self._c = ctx
        self._r = rank
        self.name = 'SIM_' + ctx.label

    # ------------------------------------------------------------ identity
    @property
    def rank(self):
        return self._r

    @property
    def size(self):
        return len(self._c.members)

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self.size

    def Get_name(self):
        return self.name

    def Is_inter(self):
        return False

    def __eq__(self, o):
        return isinstance(o, SimComm) and o._c is self._c and o._r == self._r

    def __hash__(self):
        return hash((id(self._c), self._r))

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if not name[:1].isupper() and name not in (
                'scan', 'exscan', 'probe', 'iprobe', 'mprobe', 'bsend',
                'ibarrier', 'group'):
            raise AttributeError(name)
        e = SimUnsupported('Comm.' + name)
        if self._c.world is not None:
            self._c.world.harness = self._c.world.harness or e
        raise e

    def __reduce__(self):
        # as mpi4py: a communicator cannot be pickled
        raise ValueError('cannot pickle MPI communicator')

    # ---------------------------------------------------------- mechanics
    def _block(self, ready, why):
        w = self._c.world
        while not ready():
            t = sched.current()
            t.at = why
            self._c.waiting[self._r] = t
            w.sched.park('blocked', why)
        self._c.waiting.pop(self._r, None)

    def _wake(self):
        w = self._c.world
        for r, t in sorted(self._c.waiting.items()):
            if t.state == 'blocked':
                w.sched.wake(t, when=w.sched.now + w.latency())

    def _root(self, root):
        if not isinstance(root, (int, np.integer)):
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(root).__name__)
        if not 0 <= root < self.size:
            raise MPIException(ERR_ROOT)
        return int(root)

    def _coll(self, kind, root, op, payload, pattern):
        """Take part in the next collective. pattern: which ranks wait for
        which. Returns the entries (rank -> payload)."""
        c = self._c
        if c.world is None:           # a communicator of one, unsimulated
            return {0: payload}
        w = c.world
        w.before_op(kind)
        seq = c.seq[self._r]
        c.seq[self._r] += 1
        s = c.slots.get(seq)
        if s is None:
            s = c.slots[seq] = Slot(kind, root, op)
            s.eager = w.is_eager()
            s.first = self._r
        elif (s.kind, s.root, s.op) != (kind, root, op):
            w.fail('collective-mismatch',
                   'call %d on %s: rank %d calls %s(root=%s, op=%s), rank %d '
                   'called %s(root=%s, op=%s)'
                   % (seq, c.label, self._r, kind, root, op, s.first, s.kind,
                      s.root, s.op))
        s.entries[self._r] = payload
        n = self.size
        if pattern == 'all':
            def ready():
                return len(s.entries) == n
        elif pattern == 'down':
            if self._r == root:
                def ready():
                    return s.eager or len(s.entries) == n
            else:
                def ready():
                    return root in s.entries
        else:
            if self._r == root:
                def ready():
                    return len(s.entries) == n
            else:
                def ready():
                    return s.eager or root in s.entries
        self._wake()
        if not ready():
            w.run.step('wait', kind, seq, self._r)
        self._block(ready, '%s #%d' % (kind, seq))
        s.left.add(self._r)
        if len(s.left) == n:
            del c.slots[seq]
        return s.entries

    # ------------------------------------------------ pickled collectives
    def bcast(self, obj, root=0):
        root = self._root(root)
        data = pickle.dumps(obj, 5) if self._r == root else None
        e = self._coll('bcast', root, None, data, 'down')
        return obj if self._r == root else pickle.loads(e[root])

    def gather(self, sendobj, root=0):
        root = self._root(root)
        e = self._coll('gather', root, None, pickle.dumps(sendobj, 5), 'up')
        if self._r != root:
            return None
        return [pickle.loads(e[i]) for i in range(self.size)]

    def allgather(self, sendobj):
        e = self._coll('allgather', None, None, pickle.dumps(sendobj, 5),
                       'all')
        return [pickle.loads(e[i]) for i in range(self.size)]

    def scatter(self, sendobj, root=0):
        root = self._root(root)
        data = None
        if self._r == root:
            objs = list(sendobj)
            if len(objs) != self.size:
                raise ValueError('expecting %d items, got %d'
                                 % (self.size, len(objs)))
            data = [pickle.dumps(o, 5) for o in objs]
        e = self._coll('scatter', root, None, data, 'down')
        return pickle.loads(e[root][self._r])

    def alltoall(self, sendobj):
        data = [pickle.dumps(o, 5) for o in sendobj]
        e = self._coll('alltoall', None, None, data, 'all')
        return [pickle.loads(e[i][self._r]) for i in range(self.size)]

    def _fold(self, vals, op):
        out = vals[0]
        for v in vals[1:]:
            out = op(out, v)
        return out

    def reduce(self, sendobj, op=None, root=0):
        root = self._root(root)
        op = op or OPS['SUM']
        e = self._coll('reduce', root, op.name, pickle.dumps(sendobj, 5),
                       'up')
        if self._r != root:
            return None
        return self._fold([pickle.loads(e[i]) for i in range(self.size)], op)

    def allreduce(self, sendobj, op=None):
        op = op or OPS['SUM']
        e = self._coll('allreduce', None, op.name, pickle.dumps(sendobj, 5),
                       'all')
        return self._fold([pickle.loads(e[i]) for i in range(self.size)], op)

    def barrier(self):
        self._coll('Barrier', None, None, None, 'all')

    Barrier = barrier

    # ------------------------------------------------- buffer collectives
    def Bcast(self, buf, root=0):
        root = self._root(root)
        sp = parse(buf, writable=self._r != root)
        e = self._coll('Bcast', root, None,
                       read(sp) if self._r == root else None, 'down')
        if self._r != root:
            write(sp, e[root])

    def _vec_write(self, sp, i, data):
        part = Spec(sp.arr, sp.dtype, sp.counts[i], sp.displs[i])
        if sp.arr is None:
            if data:
                raise MPIException(ERR_TRUNCATE)
            return
        end = (part.displ + part.count) * sp.dtype.itemsize
        if len(data) and (end > sp.arr.nbytes or part.displ < 0):
            # real MPI would write outside the buffer
            self._c.world.fail('write-outside-buffer',
                               'counts %s displs %s for %d bytes'
                               % (sp.counts, sp.displs, sp.arr.nbytes))
        write(part, data)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        return self._gatherv('Gatherv', sendbuf, recvbuf, root)

    def _gatherv(self, kind, sendbuf, recvbuf, root):
        rsp = None
        if self._r == root:
            rsp = parse(recvbuf, True, vector=True, size=self.size)
        inplace = sendbuf is IN_PLACE
        ssp = None if inplace else parse(sendbuf, False)
        e = self._coll(kind, root, None,
                       b'' if inplace else read(ssp), 'up')
        if self._r == root:
            for i in range(self.size):
                if not (inplace and i == root):
                    self._vec_write(rsp, i, e[i])

    def Gather(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        rsp = None
        if self._r == root:
            rsp = parse(recvbuf, True)
            if rsp.count % self.size:
                raise ValueError('message: buffer not divisible by size')
        inplace = sendbuf is IN_PLACE
        e = self._coll('Gather', root, None,
                       b'' if inplace else read(parse(sendbuf, False)), 'up')
        if self._r == root:
            m = rsp.count // self.size
            for i in range(self.size):
                if not (inplace and i == root):
                    write(Spec(rsp.arr, rsp.dtype, m, i * m), e[i])

    def Allgather(self, sendbuf, recvbuf):
        rsp = parse(recvbuf, True)
        e = self._coll('Allgather', None, None, read(parse(sendbuf, False)),
                       'all')
        m = rsp.count // self.size
        for i in range(self.size):
            write(Spec(rsp.arr, rsp.dtype, m, i * m), e[i])

    def Allgatherv(self, sendbuf, recvbuf):
        rsp = parse(recvbuf, True, vector=True, size=self.size)
        e = self._coll('Allgatherv', None, None, read(parse(sendbuf, False)),
                       'all')
        for i in range(self.size):
            self._vec_write(rsp, i, e[i])

    def Scatter(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        data = None
        if self._r == root:
            ssp = parse(sendbuf, False)
            m = ssp.count // self.size
            data = [read(Spec(ssp.arr, ssp.dtype, m, i * m))
                    for i in range(self.size)]
        rsp = None if recvbuf is IN_PLACE else parse(recvbuf, True)
        e = self._coll('Scatter', root, None, data, 'down')
        if rsp is not None:
            write(rsp, e[root][self._r])

    def Scatterv(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        data = None
        if self._r == root:
            ssp = parse(sendbuf, False, vector=True, size=self.size)
            data = [read(Spec(ssp.arr, ssp.dtype, ssp.counts[i],
                              ssp.displs[i])) for i in range(self.size)]
        rsp = None if recvbuf is IN_PLACE else parse(recvbuf, True)
        e = self._coll('Scatterv', root, None, data, 'down')
        if rsp is not None:
            write(rsp, e[root][self._r])

    def _nums(self, data, dt):
        return np.frombuffer(data, dt)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        root = self._root(root)
        op = op or OPS['SUM']
        rsp = None
        if self._r == root:
            rsp = parse(recvbuf, True)
        ssp = rsp if sendbuf is IN_PLACE else parse(sendbuf, False)
        data = read(ssp)
        if self._r == root and rsp.count * rsp.dtype.itemsize != len(data):
            raise MPIException(ERR_TRUNCATE)
        e = self._coll('Reduce', root, op.name, (data, ssp.dtype.str), 'up')
        if self._r == root:
            write(rsp, self._fold([self._nums(*e[i])
                                   for i in range(self.size)],
                                  op).astype(rsp.dtype).tobytes())

    def Allreduce(self, sendbuf, recvbuf, op=None):
        op = op or OPS['SUM']
        rsp = parse(recvbuf, True)
        ssp = rsp if sendbuf is IN_PLACE else parse(sendbuf, False)
        e = self._coll('Allreduce', None, op.name,
                       (read(ssp), ssp.dtype.str), 'all')
        write(rsp, self._fold([self._nums(*e[i]) for i in range(self.size)],
                              op).astype(rsp.dtype).tobytes())

    # ---------------------------------------------------- point to point
    def _post(self, data, dest, tag, kind):
        if not isinstance(dest, (int, np.integer)) or not \
                0 <= dest < self.size:
            raise MPIException(ERR_RANK)
        c = self._c
        item = [self._r, tag, data, kind, False]
        if c.world is None:
            c.mail[dest].append(item)
            return item
        c.world.before_op('send')
        c.mail[dest].append(item)
        self._wake()
        return item

    def _match(self, source, tag):
        for it in self._c.mail[self._r]:
            if source in (ANY_SOURCE, it[0]) and tag in (ANY_TAG, it[1]):
                return it
        return None

    def _take(self, source, tag, status):
        it = self._match(source, tag)
        self._c.mail[self._r].remove(it)
        it[4] = True
        if status is not None:
            status.source, status.tag = it[0], it[1]
        if self._c.world is not None:
            self._wake()
        return it

    def send(self, obj, dest, tag=0):
        it = self._post(pickle.dumps(obj, 5), dest, tag, 'obj')
        w = self._c.world
        if w is not None and not w.is_eager():
            self._block(lambda: it[4], 'send')

    def ssend(self, obj, dest, tag=0):
        it = self._post(pickle.dumps(obj, 5), dest, tag, 'obj')
        if self._c.world is not None:
            self._block(lambda: it[4], 'ssend')

    def isend(self, obj, dest, tag=0):
        it = self._post(pickle.dumps(obj, 5), dest, tag, 'obj')
        return Request(self, lambda: True, lambda: None) if it else None

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._c.world
        if w is not None:
            w.before_op('recv')
            self._block(lambda: self._match(source, tag) is not None, 'recv')
        return pickle.loads(self._take(source, tag, status)[2])

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, lambda: self._match(source, tag) is not None,
                       lambda: pickle.loads(self._take(source, tag,
                                                       None)[2]))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None,
                 source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._post(pickle.dumps(sendobj, 5), dest, sendtag, 'obj')
        return self.recv(None, source, recvtag, status)

    def Send(self, buf, dest, tag=0):
        it = self._post(read(parse(buf, False)), dest, tag, 'buf')
        w = self._c.world
        if w is not None and not w.is_eager():
            self._block(lambda: it[4], 'Send')

    def Isend(self, buf, dest, tag=0):
        self._post(read(parse(buf, False)), dest, tag, 'buf')
        return Request(self, lambda: True, lambda: None)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sp = parse(buf, True)
        w = self._c.world
        if w is not None:
            w.before_op('Recv')
            self._block(lambda: self._match(source, tag) is not None, 'Recv')
        write(sp, self._take(source, tag, status)[2])

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        sp = parse(buf, True)
        return Request(self, lambda: self._match(source, tag) is not None,
                       lambda: write(sp, self._take(source, tag, None)[2]))

    # ------------------------------------------------------ communicators
    def _derive(self, members, label):
        c = self._c
        if c.world is None:
            return SimComm(Context(None, [0], label), 0)
        key = (label, tuple(members))
        kids = c.__dict__.setdefault('kids', {})
        if key not in kids:
            kids[key] = Context(c.world, [c.members[m] for m in members],
                                label)
            c.world.contexts.append(kids[key])
        return SimComm(kids[key], list(members).index(self._r))

    def Dup(self):
        k = self._c.__dict__.setdefault('dups', {})
        k[self._r] = k.get(self._r, 0) + 1
        self._coll('Dup', None, None, None, 'all')
        return self._derive(range(self.size),
                            '%s.dup%d' % (self._c.label, k[self._r]))

    Clone = Dup

    def Split(self, color=0, key=0):
        k = self._c.__dict__.setdefault('splits', {})
        k[self._r] = k.get(self._r, 0) + 1
        e = self._coll('Split', None, None, (color, key), 'all')
        if color is None or color < 0:
            return None
        mem = sorted((e[i][1], i) for i in e if e[i][0] == color)
        return self._derive([i for _, i in mem], '%s.split%d.%s'
                            % (self._c.label, k[self._r], color))

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise SimCrash('Abort(%s)' % errorcode)


class _WorldProxy:
    """MPI.COMM_WORLD: the calling rank's communicator."""

    def __init__(self):
        self.__dict__['_single'] = SimComm(Context(None, [0], 'self'), 0)

    def _target(self):
        t = sched.current()
        if _active is not None and t is not None and \
                t.sched is _active.sched:
            return SimComm(_active.world_ctx, t.rank)
        return self._single

    def __getattr__(self, name):
        return getattr(self._target(), name)

    def __eq__(self, o):
        return o is self or self._target() == o

    def __hash__(self):
        return 0

    def __bool__(self):
        return True


def install():
    """Put the simulated modules where `import mpi4py` finds them."""
    if 'mpi4py' in sys.modules:
        raise HarnessError('mpi4py was imported before the simulator')
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.__version__ = '4.1.2'
    m = types.ModuleType('mpi4py.MPI')
    for n, t in TYPES.items():
        setattr(m, n, t)
    for n, o in OPS.items():
        setattr(m, n, o)
    m.Datatype, m.Op, m.Comm, m.Intracomm = Datatype, Op, SimComm, SimComm
    m.Request, m.Status, m.Exception = Request, Status, MPIException
    m.IN_PLACE, m.ANY_SOURCE, m.ANY_TAG = IN_PLACE, ANY_SOURCE, ANY_TAG
    m.PROC_NULL = PROC_NULL
    m.COMM_WORLD = _WorldProxy()
    m.COMM_SELF = SimComm(Context(None, [0], 'self'), 0)
    m.COMM_NULL = None
    m.UNDEFINED = -32766
    m.SUCCESS = 0
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Wtime = lambda: __import__('time').time()
    m.Get_processor_name = lambda: 'sim'

    def missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise SimUnsupported('MPI.' + name)
    m.__getattr__ = missing
    pkg.MPI = m
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = m
    return m
