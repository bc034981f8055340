"""A simulated MPI: N ranks in one process, with every communication step under
the control of a scheduler.

Each rank is a coroutine (its own C stack and Python thread state); exactly one runs at any time: control moves only
inside a communication call, and which runnable rank continues is decided by
World.pick (first-in first-out unless an explorer enumerates the choices).
Messages are pickled by the sender and unpickled by each receiver, so ranks
share no objects, as separate processes would not.
"""
import pickle
import sys
from collections import deque

import numpy as np


class WorldAbort(BaseException):
    """Ends a rank: another one failed, or nothing can make progress."""


class SimMPIError(Exception):
    pass



PROC_NULL = -2
ANY_SOURCE = -1
ANY_TAG = -1
UNDEFINED = -32766
SUCCESS = 0
IN_PLACE = type('InPlaceType', (int,), {'__repr__': lambda s: 'IN_PLACE'})(1)
COMM_TYPE_SHARED = 1
THREAD_MULTIPLE = 3


class Op:
    def __init__(self, name='null', py=None, arr=None):
        self.name, self.py, self.arr = name, py, arr

    def __call__(self, x, y):
        return self.py(x, y)

    @classmethod
    def Create(cls, function, commute=False):
        return cls('user', function, function)

    def Free(self):
        pass

    def __repr__(self):
        return 'Op(%s)' % self.name

    def __reduce__(self):
        return (_op_by_name, (self.name,))


def _op_by_name(name):
    return globals()[name]


MAX = Op('MAX', lambda x, y: y if y > x else x, np.maximum)
MIN = Op('MIN', lambda x, y: y if y < x else x, np.minimum)
SUM = Op('SUM', lambda x, y: x + y, np.add)
PROD = Op('PROD', lambda x, y: x * y, np.multiply)
LAND = Op('LAND', lambda x, y: bool(x) and bool(y), np.logical_and)
BAND = Op('BAND', lambda x, y: x & y, np.bitwise_and)
LOR = Op('LOR', lambda x, y: bool(x) or bool(y), np.logical_or)
BOR = Op('BOR', lambda x, y: x | y, np.bitwise_or)
LXOR = Op('LXOR', lambda x, y: bool(x) != bool(y), np.logical_xor)
BXOR = Op('BXOR', lambda x, y: x ^ y, np.bitwise_xor)
_C_OPS = {1: MAX, 2: MIN, 3: SUM, 4: PROD, 5: LAND, 7: LOR}


class Datatype:
    def __init__(self, name, dtype):
        self.name, self.dtype = name, np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize

    size = property(Get_size)

    def __repr__(self):
        return self.name


BYTE = Datatype('BYTE', 'u1')
CHAR = Datatype('CHAR', 'i1')
SHORT = Datatype('SHORT', 'i2')
INT = INT32_T = INTEGER = Datatype('INT', 'i4')
UNSIGNED = UINT32_T = Datatype('UNSIGNED', 'u4')
LONG = LONG_LONG = INT64_T = Datatype('LONG', 'i8')
UNSIGNED_LONG = UINT64_T = Datatype('UNSIGNED_LONG', 'u8')
FLOAT = Datatype('FLOAT', 'f4')
DOUBLE = Datatype('DOUBLE', 'f8')
BOOL = C_BOOL = Datatype('BOOL', '?')


class Status:
    def __init__(self):
        self.source, self.tag = ANY_SOURCE, ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


# ---------------------------------------------------------------- the world

class _Slot:
    __slots__ = ('op', 'root', 'data', 'n_in', 'n_out', 'first')

    def __init__(self, op, root, n, first):
        self.op, self.root, self.first = op, root, first
        self.data = [None] * n
        self.n_in = 0
        self.n_out = 0


class _Group:
    """The state all ranks' handles of one communicator share."""

    def __init__(self, world, members, key, cart=None):
        self.world = world
        self.members = members          # world ranks
        self.key = key
        self.cart = cart                # (dims, periods)
        self.slots = {}
        self.mail = deque()             # (src, dst, tag, payload)


class _Rank:
    __slots__ = ('rank', 'state', 'cond', 'result', 'exc', 'modules', 'ops', 'where')

    def __init__(self, rank):
        self.rank = rank
        self.state = 'new'
        self.cond = None
        self.result = None
        self.exc = None
        self.modules = None
        self.ops = {}
        self.where = ''


class World:
    """N simulated ranks. run(fn) calls fn(rank, comm) on each of them."""

    def __init__(self, n, modules=None, pick=None, max_ops=20000):
        self.n = n
        self.ranks = [_Rank(i) for i in range(n)]
        if modules:
            for r, m in zip(self.ranks, modules):
                r.modules = m
        self.pick = pick
        self.max_ops = max_ops
        self.n_ops = 0
        self.switches = 0
        self.abort_reason = None
        self.order = deque()
        self.groups = {}
        self.handles = []
        self.group_seq = 0
        self.current = None
        self.trace = None

    # -- running
    def run(self, fn, *args):
        global _world
        prev, prev_mods = _world, None
        _world = self
        ws = self.group('WORLD', list(range(self.n)))
        comms = [self.comm(ws, i) for i in range(self.n)]
        if self.ranks[0].modules:
            prev_mods = {k: sys.modules.get(k) for k in self.ranks[0].modules}
        for r in self.ranks:
            r.state = 'ready'
            r.result = r.exc = None
            self.order.append(r)
        try:
            if self.n == 1 and not self.pick:
                # no coroutine needed
                r = self.ranks[0]
                self.current = r
                self.order.clear()
                if r.modules:
                    sys.modules.update(r.modules)
                r.state = 'running'
                self._body(r, fn, comms[0], args)
            else:
                for r in self.ranks:
                    _co.prepare(r.rank, lambda r=r: self._co_main(r, fn, comms[r.rank], args))
                _co.switch_to(self._next())
        finally:
            _world = prev
            if prev_mods is not None:
                for k, v in prev_mods.items():
                    if v is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = v
            self.groups.clear()
            self.handles.clear()
        return [r.result for r in self.ranks]

    def errors(self):
        return [(r.rank, r.exc) for r in self.ranks if r.exc is not None]

    def _body(self, r, fn, comm, args):
        try:
            r.result = fn(r.rank, comm, *args)
        except WorldAbort:
            pass
        except BaseException as e:
            r.exc = e
            if self.abort_reason is None:
                self.abort_reason = 'rank %d raised %r' % (r.rank, e)
        r.state = 'done'

    def _co_main(self, r, fn, comm, args):
        r.state = 'running'
        if self.abort_reason is None:
            self._body(r, fn, comm, args)
        else:
            r.state = 'done'
        return self._next()

    def _runnable(self):
        out = []
        for r in self.order:
            if r.state == 'ready' or (r.state == 'blocked' and r.cond()):
                out.append(r)
        return out

    def _next(self):
        """The rank to continue (-1: the run is over)."""
        if self.abort_reason is None:
            run = self._runnable()
            if not run and any(r.state != 'done' for r in self.ranks):
                stuck = ['rank %d in %s' % (r.rank, r.where) for r in self.ranks if r.state == 'blocked']
                done = [r.rank for r in self.ranks if r.state == 'done']
                self.abort_reason = 'deadlock: %s; finished ranks: %s' % ('; '.join(stuck), done)
        if self.abort_reason is not None:
            run = [r for r in self.ranks if r.state != 'done' and r is not self.current] or \
                  [r for r in self.ranks if r.state != 'done']
        if not run:
            return -1
        if self.pick is not None and len(run) > 1 and self.abort_reason is None:
            r = run[self.pick([x.rank for x in run])]
        else:
            r = run[0]
        try:
            self.order.remove(r)
        except ValueError:
            pass
        self.current = r
        self.switches += 1
        if r.modules:
            sys.modules.update(r.modules)
        r.state = 'running'
        return r.rank

    def _wait(self, r, cond, where):
        """Blocks rank r until cond()."""
        if cond() and self.pick is None:
            return
        r.cond = cond
        r.where = where
        r.state = 'blocked'
        self.order.append(r)
        if self.n == 1 and not self.pick:
            self.abort_reason = 'deadlock: rank 0 in %s' % where
            raise WorldAbort(self.abort_reason)
        _co.switch_to(self._next())
        r.state = 'running'
        r.cond = None
        self._check()

    def _check(self):
        if self.abort_reason is not None:
            raise WorldAbort(self.abort_reason)

    # -- communicators
    def group(self, key, members, cart=None):
        g = self.groups.get(key)
        if g is None:
            g = self.groups[key] = _Group(self, members, key, cart)
        return g

    def comm(self, group, rank, cls=None):
        c = (cls or (Cartcomm if group.cart else Intracomm)).__new__(cls or (Cartcomm if group.cart else Intracomm))
        c._setup(group, rank, len(self.handles))
        self.handles.append(c)
        return c

    # -- the exchange all collectives are made of
    def exchange(self, comm, op, payload, kind='all', root=None):
        """Deposits payload, waits as `kind` demands, and returns the list of
        payloads by rank (None where not needed)."""
        self._check()
        g, me = comm._g, comm._r
        wr = self.ranks[g.members[me]]
        self.n_ops += 1
        if self.n_ops > self.max_ops:
            self.abort_reason = 'no end: more than %d communication calls (last: %s)' % (self.max_ops, op)
            raise WorldAbort(self.abort_reason)
        k = wr.ops.get(g.key, 0)
        wr.ops[g.key] = k + 1
        n = len(g.members)
        slot = g.slots.get(k)
        if slot is None:
            slot = g.slots[k] = _Slot(op, root, n, me)
        elif slot.op != op or slot.root != root:
            self.abort_reason = 'collective mismatch: rank %d calls %s(root=%s) where rank %d called %s(root=%s)' % (
                me, op, root, slot.first, slot.op, slot.root)
            raise WorldAbort(self.abort_reason)
        slot.data[me] = (payload,)
        slot.n_in += 1
        if kind == 'all':
            def cond():
                return slot.n_in == n
        elif kind == 'to_root':
            def cond():
                return me != root or slot.n_in == n
        else:
            def cond():
                return slot.data[root] is not None
        if self.n > 1 or not cond():
            self._wait(wr, cond, '%s #%d on %s' % (op, k, g.key))
        data = slot.data
        slot.n_out += 1
        if slot.n_out == n:
            g.slots.pop(k, None)
        return [d[0] if d is not None else None for d in data]


_world = None
_co = None


def use_coroutines(co):
    global _co
    import os
    _co = co
    os.register_at_fork(after_in_child=co.reset)


# ---------------------------------------------------------------- buffers

def _dtype_arr(buf, dt=None):
    if hasattr(buf, 'numpy') and not isinstance(buf, np.ndarray):
        buf = buf.numpy()
    a = buf if isinstance(buf, np.ndarray) else np.asarray(buf)
    if not (a.flags['C_CONTIGUOUS'] or a.flags['F_CONTIGUOUS']):
        raise ValueError('ndarray is not contiguous')
    f = a.reshape(-1) if a.flags['C_CONTIGUOUS'] else a.T.reshape(-1)
    if dt is not None and dt.dtype.itemsize != f.dtype.itemsize:
        f = f.view(dt.dtype)
    return f


def _simple(spec):
    """[buf], [buf, type], [buf, count, type] or buf -> flat array."""
    dt = None
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        count = None
        for x in spec[1:]:
            if isinstance(x, Datatype):
                dt = x
            elif isinstance(x, str):
                dt = Datatype(x, x)
            elif isinstance(x, int):
                count = x
            elif isinstance(x, (list, tuple)) and x:
                count = x[0]
        a = _dtype_arr(buf, dt)
        return a if count is None else a[:count]
    return _dtype_arr(spec)


def _vector(spec, n):
    """-> flat array, counts, displs."""
    if not isinstance(spec, (list, tuple)):
        a = _dtype_arr(spec)
        base, rem = divmod(len(a), n)
        counts = [base] * n
        return a, counts, list(np.cumsum([0] + counts[:-1]))
    buf, rest = spec[0], list(spec[1:])
    dt = None
    if rest and isinstance(rest[-1], (Datatype, str)):
        t = rest.pop()
        dt = t if isinstance(t, Datatype) else Datatype(t, t)
    a = _dtype_arr(buf, dt)
    counts = displs = None
    if len(rest) == 1:
        x = rest[0]
        if isinstance(x, tuple) and len(x) == 2 and (hasattr(x[0], '__len__') or hasattr(x[1], '__len__') or x[1] is None):
            counts, displs = x
        else:
            counts = x
    elif len(rest) >= 2:
        counts, displs = rest[0], rest[1]
    if counts is None:
        counts = [len(a) // n] * n
    elif np.isscalar(counts):
        counts = [int(counts)] * n
    counts = [int(c) for c in counts]
    if displs is None:
        displs = [0] + [int(x) for x in np.cumsum(counts)[:-1]]
    displs = [int(d) for d in displs]
    return a, counts, displs


def _put(dst, at, data):
    if at + len(data) > len(dst):
        raise SimMPIError('message truncated: %d elements at offset %d of a buffer of %d' % (len(data), at, len(dst)))
    if dst.dtype != data.dtype and dst.dtype.itemsize != data.dtype.itemsize:
        b = data.tobytes()
        if len(b) > (len(dst) - at) * dst.dtype.itemsize:
            raise SimMPIError('message truncated')
        x = np.frombuffer(b, dtype=dst.dtype)
        dst[at:at + len(x)] = x
    else:
        dst[at:at + len(data)] = data.view(dst.dtype)


_D = pickle.dumps
_L = pickle.loads


class Request:
    def __init__(self, fn=None, value=None, ready=None):
        self._fn, self._value, self._ready = fn, value, ready

    def wait(self, status=None):
        if self._fn is not None:
            self._value = self._fn()
            self._fn = None
        return self._value

    Wait = wait

    def test(self, status=None):
        if self._fn is None:
            return True, self._value
        if self._ready is None or self._ready():
            return True, self.wait()
        return False, None

    def Test(self, status=None):
        return self.test()[0]

    @classmethod
    def waitall(cls, reqs, statuses=None):
        return [r.wait() for r in reqs]

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True


class Comm:
    def _setup(self, group, rank, handle):
        self._g = group
        self._r = rank
        self._w = group.world
        self._mc_handle = handle
        self._n = len(group.members)

    def _x(self, *a, **k):
        return self._w.exchange(self, *a, **k)

    # -- queries
    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._n

    rank = property(Get_rank)
    size = property(Get_size)
    name = property(lambda self: str(self._g.key))

    def Get_name(self):
        return str(self._g.key)

    def Is_inter(self):
        return False

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Set_errhandler(self, h):
        pass

    def Abort(self, errorcode=0):
        self._w.abort_reason = 'MPI_Abort(%s) by rank %d' % (errorcode, self._r)
        raise WorldAbort(self._w.abort_reason)

    def __eq__(self, o):
        return isinstance(o, Comm) and o._g is self._g and o._r == self._r

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self._g), self._r))

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    # -- communicators from communicators
    def Dup(self, info=None):
        xs = self._x('Dup', None)
        k = self._w.ranks[self._g.members[self._r]].ops[self._g.key]
        g = self._w.group((self._g.key, 'dup', k), self._g.members, self._g.cart)
        return self._w.comm(g, self._r)

    Clone = Dup

    def Split(self, color=0, key=0):
        xs = self._x('Split', (color, key))
        k = self._w.ranks[self._g.members[self._r]].ops[self._g.key]
        mine = sorted((x[1], i) for i, x in enumerate(xs) if x[0] == color)
        members = [self._g.members[i] for _, i in mine]
        g = self._w.group((self._g.key, 'split', k, color), members)
        return self._w.comm(g, [i for _, i in mine].index(self._r))

    # -- object collectives
    def barrier(self):
        self._x('barrier', None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        d = self._x('bcast', _D(obj) if self._r == root else None, 'from_root', root)
        return obj if self._r == root else _L(d[root])

    def gather(self, sendobj, root=0):
        d = self._x('gather', _D(sendobj), 'to_root', root)
        return [_L(x) for x in d] if self._r == root else None

    def scatter(self, sendobj=None, root=0):
        p = None
        if self._r == root:
            sendobj = list(sendobj)
            if len(sendobj) != self._n:
                raise ValueError('expecting %d items, got %d' % (self._n, len(sendobj)))
            p = [_D(x) for x in sendobj]
        d = self._x('scatter', p, 'from_root', root)
        return _L(d[root][self._r])

    def allgather(self, sendobj):
        return [_L(x) for x in self._x('allgather', _D(sendobj))]

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self._n:
            raise ValueError('expecting %d items, got %d' % (self._n, len(sendobj)))
        d = self._x('alltoall', [_D(x) for x in sendobj])
        return [_L(x[self._r]) for x in d]

    def _fold(self, vals, op):
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj, op=SUM, root=0):
        d = self._x('reduce', _D(sendobj), 'to_root', root)
        return self._fold([_L(x) for x in d], op) if self._r == root else None

    def allreduce(self, sendobj, op=SUM):
        return self._fold([_L(x) for x in self._x('allreduce:' + op.name, _D(sendobj))], op)

    def scan(self, sendobj, op=SUM):
        return self._fold([_L(x) for x in self._x('scan', _D(sendobj))[:self._r + 1]], op)

    def exscan(self, sendobj, op=SUM):
        d = self._x('exscan', _D(sendobj))[:self._r]
        return self._fold([_L(x) for x in d], op) if d else None

    # -- buffer collectives
    def Bcast(self, buf, root=0):
        a = _simple(buf)
        d = self._x('Bcast', a.copy() if self._r == root else None, 'from_root', root)
        if self._r != root:
            _put(a, 0, d[root])

    def _red(self, xs, op):
        n = len(xs[0])
        for x in xs:
            if len(x) != n:
                raise SimMPIError('reduction over buffers of different lengths: %s' % [len(x) for x in xs])
        acc = xs[0].copy()
        for x in xs[1:]:
            if op.name == 'user':
                t = x.copy()
                op.arr(acc, t, None)
                acc = t
            else:
                acc = op.arr(acc, x)
        return acc

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        a = _simple(src).copy()
        d = self._x('Reduce:' + op.name, a, 'to_root', root)
        if self._r == root:
            _put(_simple(recvbuf), 0, self._red(d, op))

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        d = self._x('Allreduce:' + op.name, _simple(src).copy())
        _put(_simple(recvbuf), 0, self._red(d, op))

    def Gather(self, sendbuf, recvbuf, root=0):
        d = self._x('Gather', None if sendbuf is IN_PLACE else _simple(sendbuf).copy(), 'to_root', root)
        if self._r == root:
            r = _simple(recvbuf)
            each = len(r) // self._n
            for i, x in enumerate(d):
                if x is not None:
                    _put(r, i * each, x)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        d = self._x('Gatherv', _simple(sendbuf).copy(), 'to_root', root)
        if self._r == root:
            a, c, s = _vector(recvbuf, self._n)
            for i, x in enumerate(d):
                _put(a, s[i], x)

    def Allgather(self, sendbuf, recvbuf):
        r = _simple(recvbuf)
        each = len(r) // self._n
        a = r[each * self._r: each * (self._r + 1)].copy() if sendbuf is IN_PLACE else _simple(sendbuf).copy()
        d = self._x('Allgather', a)
        for i, x in enumerate(d):
            _put(r, i * each, x)

    def Allgatherv(self, sendbuf, recvbuf):
        d = self._x('Allgatherv', _simple(sendbuf).copy())
        a, c, s = _vector(recvbuf, self._n)
        for i, x in enumerate(d):
            if len(x) > c[i]:
                raise SimMPIError('message truncated')
            _put(a, s[i], x)

    def Scatter(self, sendbuf, recvbuf, root=0):
        d = self._x('Scatter', _simple(sendbuf).copy() if self._r == root else None, 'from_root', root)
        each = len(d[root]) // self._n
        _put(_simple(recvbuf), 0, d[root][each * self._r: each * (self._r + 1)])

    def Alltoall(self, sendbuf, recvbuf):
        a = _simple(sendbuf)
        each = len(a) // self._n
        d = self._x('Alltoall', a.copy())
        r = _simple(recvbuf)
        reach = len(r) // self._n
        for i, x in enumerate(d):
            e = len(x) // self._n
            if e > reach:
                raise SimMPIError('Alltoall: message truncated')
            _put(r, i * reach, x[e * self._r: e * (self._r + 1)])

    def Alltoallv(self, sendbuf, recvbuf):
        a, c, s = _vector(sendbuf, self._n)
        for i in range(self._n):
            if c[i] and (s[i] < 0 or s[i] + c[i] > len(a)):
                raise SimMPIError('Alltoallv: send slice out of the buffer')
        d = self._x('Alltoallv', [a[s[i]: s[i] + c[i]].copy() for i in range(self._n)])
        b, rc, rs = _vector(recvbuf, self._n)
        for i, x in enumerate(d):
            m = x[self._r]
            if len(m) != rc[i]:
                # MPI would truncate or leave part of the buffer untouched
                if len(m) > rc[i]:
                    raise SimMPIError('Alltoallv: message truncated')
            _put(b, rs[i], m)

    # -- point to point
    def _post(self, data, dest, tag):
        if dest != PROC_NULL:
            self._g.mail.append((self._r, dest, tag, data))

    def _match(self, source, tag):
        for i, m in enumerate(self._g.mail):
            if m[1] == self._r and source in (ANY_SOURCE, m[0]) and tag in (ANY_TAG, m[2]):
                return i
        return None

    def _take(self, source, tag, status=None):
        w = self._w
        w._check()
        w.n_ops += 1
        if self._match(source, tag) is None or w.pick is not None:
            w._wait(w.ranks[self._g.members[self._r]], lambda: self._match(source, tag) is not None,
                    'recv(source=%s, tag=%s)' % (source, tag))
        i = self._match(source, tag)
        m = self._g.mail[i]
        del self._g.mail[i]
        if status is not None:
            status.source, status.tag = m[0], m[2]
        return m[3]

    def send(self, obj, dest, tag=0):
        self._post(_D(obj), dest, tag)

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        return _L(self._take(source, tag, status))

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(None, source, tag), ready=lambda: self._match(source, tag) is not None)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag, status)

    def Send(self, buf, dest, tag=0):
        self._post(_simple(buf).copy(), dest, tag)

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request()

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source != PROC_NULL:
            _put(_simple(buf), 0, self._take(source, tag, status))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(buf, source, tag), ready=lambda: self._match(source, tag) is not None)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.Send(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._w
        w._wait(w.ranks[self._g.members[self._r]], lambda: self._match(source, tag) is not None, 'probe')
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._match(source, tag) is not None

    # -- cartesian
    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [dims] if isinstance(dims, int) else list(dims)
        if periods is None:
            periods = [False] * len(dims)
        elif isinstance(periods, (bool, int)):
            periods = [periods] * len(dims)
        return _cart_create(self, dims, [int(bool(p)) for p in periods])


class Intracomm(Comm):
    pass


class Cartcomm(Intracomm):
    @property
    def dims(self):
        return list(self._g.cart[0])

    @property
    def periods(self):
        return list(self._g.cart[1])

    @property
    def coords(self):
        return self.Get_coords(self._r)

    @property
    def dim(self):
        return len(self._g.cart[0])

    ndim = dim

    def Get_dim(self):
        return self.dim

    def Get_topo(self):
        return self.dims, self.periods, self.coords

    topo = property(Get_topo)

    def Get_coords(self, rank):
        return _coords(self._g.cart, rank)

    def Get_cart_rank(self, coords):
        return _cart_rank(self._g.cart, list(coords))

    def Shift(self, direction, disp):
        return _shift(self._g.cart, self._r, direction, disp)


def _coords(cart, rank):
    out = []
    for d in reversed(cart[0]):
        out.append(rank % d)
        rank //= d
    return out[::-1]


def _cart_rank(cart, coords):
    r = 0
    for c, d, p in zip(coords, cart[0], cart[1]):
        if c < 0 or c >= d:
            if not p:
                return PROC_NULL
            c %= d
        r = r * d + c
    return r


def _shift(cart, rank, direction, disp):
    c = _coords(cart, rank)
    s, d = list(c), list(c)
    s[direction] -= disp
    d[direction] += disp
    return _cart_rank(cart, s), _cart_rank(cart, d)


def _cart_create(comm, dims, periods):
    comm._x('cart_create', (tuple(dims), tuple(periods)))
    n = 1
    for d in dims:
        n *= d
    if n > comm._n:
        raise SimMPIError('cartesian grid larger than the communicator')
    w = comm._w
    k = w.ranks[comm._g.members[comm._r]].ops[comm._g.key]
    if comm._r >= n:
        return COMM_NULL
    g = w.group((comm._g.key, 'cart', k, tuple(dims), tuple(periods)), comm._g.members[:n], (list(dims), list(periods)))
    return w.comm(g, comm._r)


def Compute_dims(nnodes, dims):
    if isinstance(dims, int):
        dims = [0] * dims
    return _c_dims_create(nnodes, list(dims))


# ---------------------------------------------------------------- C stub entry points

def _h(c):
    return _world.handles[c]


def _c_size(c):
    return _h(c)._n


def _c_rank(c):
    return _h(c)._r


def _c_wrap(c):
    if c < 0:
        return COMM_NULL
    return _h(c)


def _c_dup(c):
    return _h(c).Dup()._mc_handle


def _c_barrier(c):
    _h(c).barrier()


def _assign_nodes(ndim, nfactor, factors):
    """Open MPI's distribution: each factor, largest first, goes to the
    currently smallest bin; then bins in non-increasing order."""
    bins = [1] * ndim
    for f in reversed(factors):
        i = min(range(ndim), key=lambda j: bins[j])
        bins[i] *= f
    return sorted(bins, reverse=True)


def _c_dims_create(nnodes, dims):
    free = [i for i, d in enumerate(dims) if d == 0]
    fixed = 1
    for d in dims:
        if d > 0:
            fixed *= d
    if nnodes % fixed:
        raise SimMPIError('Dims_create: %d nodes over %s' % (nnodes, dims))
    left = nnodes // fixed
    if free:
        factors, p, m = [], 2, left
        while m > 1:
            while m % p == 0:
                factors.append(p)
                m //= p
            p += 1
        b = _assign_nodes(len(free), len(factors), factors)
        for i, v in zip(free, b):
            dims[i] = v
    return dims


def _c_cart_create(c, dims, periods, reorder):
    return _cart_create(_h(c), dims, periods)._mc_handle


def _fatal(msg):
    # MPI_ERRORS_ARE_FATAL, the default for a call made from C
    if _world.abort_reason is None:
        _world.abort_reason = msg
    raise WorldAbort(msg)


def _c_cart_coords(c, rank):
    if not 0 <= rank < _h(c)._n:
        _fatal('MPI_Cart_coords: rank %d of a communicator of size %d' % (rank, _h(c)._n))
    return _coords(_h(c)._g.cart, rank)


def _c_cartdim(c):
    return len(_h(c)._g.cart[0])


def _c_cart_get(c):
    g = _h(c)._g
    return (list(g.cart[0]), list(g.cart[1]), _coords(g.cart, _h(c)._r))


def _c_cart_rank(c, coords):
    r = _cart_rank(_h(c)._g.cart, coords)
    if r == PROC_NULL:
        _fatal('MPI_Cart_rank: coordinates %s outside a non-periodic topology %s' % (coords, _h(c)._g.cart[0]))
    return r


def _c_cart_shift(c, direction, disp):
    return _shift(_h(c)._g.cart, _h(c)._r, direction, disp)


def _c_allgather(c, b):
    return b''.join(_h(c)._x('c_allgather', b))


def _c_dt(t):
    return np.dtype({0: 'i', 1: 'u', 2: 'f'}[t >> 8] + str(t & 0xff))


def _c_allreduce(c, b, t, op):
    o = _C_OPS[op]
    xs = [np.frombuffer(x, dtype=_c_dt(t)) for x in _h(c)._x('c_allreduce', b)]
    return _h(c)._red(xs, o).astype(_c_dt(t)).tobytes()


def _c_bcast(c, b, root):
    return _h(c)._x('c_bcast', b, 'from_root', root)[root]


# ---------------------------------------------------------------- module level communicators

class _Null(Comm):
    def __init__(self):
        self._mc_handle = -1
        self._r = self._n = -1
        self._g = self._w = None

    def __bool__(self):
        return False


COMM_NULL = _Null()


class _WorldComm(Intracomm):
    """COMM_WORLD: the communicator of whichever rank is running."""

    def _c(self):
        if _world is None or _world.current is None:
            raise SimMPIError('COMM_WORLD used outside a simulated world')
        return _world.handles[_world.current.rank]

    _g = property(lambda s: s._c()._g)
    _r = property(lambda s: s._c()._r)
    _w = property(lambda s: s._c()._w)
    _n = property(lambda s: s._c()._n)
    _mc_handle = property(lambda s: s._c()._mc_handle)


COMM_WORLD = _WorldComm()


class _SelfComm(Intracomm):
    def _setup_self(self):
        w = World(1)
        self._setup(w.group('SELF', [0]), 0, -3)


COMM_SELF = _SelfComm()
COMM_SELF._setup_self()


def Get_processor_name():
    return 'sim'


def Is_initialized():
    return True


def Is_finalized():
    return False


def Wtime():
    import time
    return time.time()


def Init():
    pass


def Finalize():
    pass


def Get_version():
    return (3, 1)


Group = type('Group', (), {})
Info = type('Info', (), {})
INFO_NULL = Info()
Intercomm = type('Intercomm', (Comm,), {})
Errhandler = type('Errhandler', (), {})
ERRORS_RETURN = Errhandler()
ERRORS_ARE_FATAL = Errhandler()
Win = type('Win', (), {})
File = type('File', (), {})
