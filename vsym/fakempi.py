"""Deterministic in-process MPI: P ranks run as coroutine-like threads, one at
a time.  Blocking sends use rendezvous semantics, collectives must match in
order and kind, messages must fit their buffers; a state in which no rank can
move is a deadlock."""
import builtins
import copy
import threading
import types

import numpy as np

from . import core, sarr
from .scalars import SBool, SInt, cast_scalar, is_sym, smax, smin, sor, sand, _cmp
from .sarr import SArr, asarr, raw, typed


class RankKilled(BaseException):
    pass


class _Deadlock(BaseException):
    pass


class MPIError(Exception):
    pass


class MPIAbort(BaseException):
    code = None


MAX_COLLECTIVES = 400       # per communicator; legitimate cases stay far below


class NoProgress(Exception):
    pass


class MPIFinalized(Exception):
    pass


_tls = threading.local()


def cur_rank():
    return getattr(_tls, "rank", None)


def cur_world():
    return getattr(_tls, "world", None)


class World:
    def __init__(self, size):
        self.size = size
        self.state = CommState(self, list(range(size)))
        self.main = threading.Semaphore(0)
        self.sems = [threading.Semaphore(0) for _ in range(size)]
        self.wait = [None] * size          # predicate blocking the rank
        self.done = [False] * size
        self.outs = [None] * size
        self.exc = [None] * size
        self.kill = False
        self.nops = 0

    def _body(self, r, fn):
        _tls.rank = r
        _tls.world = self
        self.sems[r].acquire()
        try:
            if not self.kill:
                self.outs[r] = fn(Comm(self.state, r), r)
        except RankKilled:
            pass
        except BaseException as e:      # noqa
            self.exc[r] = e
        self.done[r] = True
        self.main.release()

    def block(self, pred):
        """Called by a rank: wait until pred() is true."""
        self.nops += 1
        if self.kill:
            raise RankKilled()
        if pred():
            return
        r = _tls.rank
        if self.size == 1:
            raise _Deadlock()
        self.wait[r] = pred
        self.main.release()
        self.sems[r].acquire()
        if self.kill:
            raise RankKilled()

    def pause(self):
        """Called by a rank: let the other ranks run until they block."""
        if self.size > 1:
            ran = [False]

            def pred():
                r, ran[0] = ran[0], True
                return r
            self.block(pred)

    # (set by the harness) decides what a probe sees: sched(number of the probe, sources with a message)
    # -> source or None
    sched = None
    nprobe = 0
    nempty = 0

    def run(self, fn):
        """-> ("ok", outs) | ("exc", rank, exception) | ("deadlock", info)"""
        if self.size == 1:
            return self._run1(fn)
        ths = [threading.Thread(target=self._body, args=(r, fn), daemon=True) for r in range(self.size)]
        for t in ths:
            t.start()
        outcome = None
        while True:
            ran = False
            for r in range(self.size):
                if self.done[r]:
                    continue
                if self.wait[r] is not None and not self.wait[r]():
                    continue
                self.wait[r] = None
                ran = True
                self.sems[r].release()
                self.main.acquire()
                if self.done[r] and self.exc[r] is not None:
                    e = self.exc[r]
                    outcome = ("exc", r, e)
                    break
            if outcome is not None:
                break
            if all(self.done):
                outcome = ("ok", self.outs)
                break
            if not ran:
                outcome = ("deadlock", "ranks %s blocked" %
                           [r for r in range(self.size) if not self.done[r]])
                break
        self.kill = True
        for r in range(self.size):
            if not self.done[r]:
                self.sems[r].release()
                self.main.acquire()
        for t in ths:
            t.join()
        if outcome[0] == "exc" and not isinstance(outcome[2], Exception):
            raise outcome[2]
        if outcome[0] == "ok":
            left = self.state.leftovers()
            if left:
                return ("exc", 0, MPIError("unmatched messages at exit: %s" % left))
        return outcome


    def _run1(self, fn):
        old = cur_rank(), cur_world()
        _tls.rank, _tls.world = 0, self
        try:
            out = fn(Comm(self.state, 0), 0)
        except _Deadlock:
            return ("deadlock", "rank 0 blocked")
        except Exception as e:      # noqa
            return ("exc", 0, e)
        finally:
            _tls.rank, _tls.world = old
        left = self.state.leftovers()
        if left:
            return ("exc", 0, MPIError("unmatched messages at exit: %s" % left))
        return ("ok", [out])


class CommState:
    def __init__(self, world, members):
        self.world = world
        self.members = members
        self.size = len(members)
        self.seq = [0] * self.size
        self.colls = {}
        self.sends = []
        self.recvs = []
        self.freed = 0

    def leftovers(self):
        return ["%d->%d" % (s.src, s.dst) for s in self.sends if not s.done] + \
               ["recv at %d" % r.dst for r in self.recvs if not r.done]


class Msg:
    __slots__ = ("src", "dst", "tag", "payload", "buf", "done", "n", "dt", "obj", "eager", "defer", "late", "sent", "is_send")

    def __init__(self, src, dst, tag):
        self.src, self.dst, self.tag = src, dst, tag
        self.done = False
        self.payload = self.buf = self.obj = self.dt = self.n = None
        self.eager = False
        self.defer = False      # non-blocking receive: data appears only at Wait
        self.late = None
        self.sent = None        # (of a receive) the message received
        self.is_send = False


ANY = -1
PROC_NULL = -2


class Status:
    """Receive status."""

    def __init__(self):
        self.m = None

    def set(self, m):
        self.m = m.sent if m is not None else None

    def Get_source(self):
        return self.m.src if self.m is not None else ANY

    def Get_tag(self):
        return self.m.tag if self.m is not None else ANY

    def Get_count(self, datatype=None):
        if self.m is None or self.m.obj is not None:
            raise core.Inconclusive("Status.Get_count")
        dt = datatype.dt if datatype is not None else np.dtype("u1")
        return self.m.n * self.m.dt.itemsize // dt.itemsize

    def Get_elements(self, datatype):
        return self.Get_count(datatype)

    def Get_error(self):
        return 0

    def Is_cancelled(self):
        return False

    source = property(Get_source)
    tag = property(Get_tag)
    count = property(Get_count)
    error = property(Get_error)


class Request:
    def __init__(self, world=None, msg=None, comm=None):
        self.world, self.msg = world, msg

    def wait(self, status=None):
        if self.msg is not None:
            self.world.block(lambda: self.msg.done)
            if self.msg.late is not None:
                self.msg.buf.write(0, self.msg.buf.total, self.msg.late)
                self.msg.late = None
            if status is not None:
                status.set(self.msg)
            return self.msg.obj if not self.msg.is_send else None
        return None

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        if self.msg is not None and not self.msg.done:
            raise core.Inconclusive("test of an unfinished request")
        return (True, self.wait(status))

    def Test(self, status=None):
        return self.test(status)[0]

    def Free(self):
        self.msg = None

    @staticmethod
    def Waitall(reqs, statuses=None):
        for i, r in enumerate(reqs):
            r.wait(statuses[i] if statuses else None)
        return True

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait(statuses[i] if statuses else None) for i, r in enumerate(reqs)]


# ------------------------------------------------------------ buffers
class Datatype:
    def __init__(self, dt):
        self.dt = np.dtype(dt)
        self.freed = False

    def Commit(self):
        return self

    def Free(self):
        if self.freed:
            raise MPIError("MPI datatype freed twice")
        self.freed = True

    def Get_size(self):
        return self.dt.itemsize

    def Get_extent(self):
        return (0, self.dt.itemsize)


def from_numpy_dtype(dt):
    dt = np.dtype(dt)
    if dt.hasobject:
        raise ValueError("NumPy datatype with object entries")
    if not dt.isnative:
        raise ValueError("NumPy datatype with non-native byteorder")
    return Datatype(dt)


class Buf:
    """Flat element view of a communication buffer."""

    def __init__(self, arr, dt, count=None, displ=0, counts=None, displs=None):
        self.arr = arr
        self.dt = dt
        self.count = count
        self.displ = displ
        self.counts = counts
        self.displs = displs
        if hasattr(arr, "_is_farr"):
            self.flat = None
            self.n = arr.contig_size()
        else:
            d = arr._d
            if d.flags.c_contiguous:
                self.flat = d.reshape(-1)
            elif d.flags.f_contiguous:
                self.flat = d.T.reshape(-1)
            else:
                raise ValueError("ndarray is not contiguous")
            self.n = d.size
        self.total = self.n if count is None else count

    def read(self, off, n):
        if self.flat is None:
            return self.arr.payload(off, n)
        off, n = int(off), int(n)
        if off < 0 or n < 0 or off + n > self.n:
            raise MPIError("buffer overrun: elements %d..%d of a send buffer of %d" % (off, off + n, self.n))
        return ("list", self.flat[off:off + n].copy(), self.dt)

    def write(self, off, n, payload):
        if self.flat is None:
            return self.arr.store_payload(off, n, payload)
        if payload[0] == "farr":
            raise core.Inconclusive("lazily sized data received into a fixed array")
        _, data, dt = payload
        off, n = int(off), int(n)
        if len(data) > n:
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        if off < 0 or off + len(data) > self.n:
            raise MPIError("buffer overrun: elements %d..%d of a receive buffer of %d"
                           % (off, off + len(data), self.n))
        if dt != self.dt and len(data):
            if dt.kind in "iu" and self.dt.kind in "iu" and dt.itemsize == self.dt.itemsize:
                data = np.asarray([None] * len(data), dtype=object)
                for i in range(len(data)):
                    data[i] = raw(cast_scalar(typed(payload[1][i], dt), self.dt))
            elif dt.names and self.dt.names and dt.itemsize == self.dt.itemsize:
                pass
            else:
                raise MPIError("type mismatch: %s received as %s" % (dt, self.dt))
        self.flat[off:off + len(data)] = data


def parse_buf(spec, vector=False):
    cnt = None
    ty = None
    counts = displs = None
    if isinstance(spec, (list, tuple)) and not hasattr(spec, "_is_sarr"):
        parts = list(spec)
        arr = parts[0]
        rest = parts[1:]
        if rest and isinstance(rest[-1], Datatype):
            ty = rest.pop()
        if rest:
            x = rest.pop(0)
            if isinstance(x, (tuple, list)) and len(x) == 2 and vector:
                counts, displs = x
            elif vector and x is not None:
                counts = x
                if rest:
                    displs = rest.pop(0)
            else:
                cnt = x
                if isinstance(cnt, (tuple, list)):
                    cnt = cnt[0]
        if ty is None and rest and isinstance(rest[-1], Datatype):
            ty = rest.pop()
    else:
        arr = spec
    if arr is None:
        return None
    if isinstance(arr, np.ndarray):
        raise core.Inconclusive("real ndarray used as MPI buffer")
    if is_sym(arr) or isinstance(arr, (np.generic,)):
        arr = asarr(arr)
    if not hasattr(arr, "_is_sarr") and not hasattr(arr, "_is_farr"):
        raise TypeError("cannot interpret object as MPI buffer: %r" % (type(arr),))
    dt = arr.dtype
    if ty is None and not dt.isnative:
        raise ValueError("cannot use non-native byte order array as MPI buffer")
    if dt.kind == "O":
        raise TypeError("object array as MPI buffer")
    if ty is not None and ty.freed:
        raise MPIError("use of a freed MPI datatype")
    if ty is not None and ty.dt != dt and (ty.dt.itemsize != dt.itemsize):
        raise MPIError("buffer of %s described by an MPI type for %s" % (dt, ty.dt))
    return Buf(arr, dt, cnt, 0, counts, displs)


def _clone(x):
    """What pickling does to an object sent with the lower-case methods."""
    if hasattr(x, "_is_farr"):
        return x.copy()
    if hasattr(x, "_is_sarr"):
        # pickle keeps C/F order
        o = "F" if (x._d.flags.f_contiguous and not x._d.flags.c_contiguous) else "C"
        return x._wrap(x._d.copy(order=o))
    if isinstance(x, list):
        return [_clone(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_clone(y) for y in x) if type(x) is tuple else x
    if isinstance(x, dict):
        return {k: _clone(v) for k, v in x.items()}
    if is_sym(x) or x is None or isinstance(x, (int, float, str, bytes, bool, np.generic, np.dtype, type)):
        return x
    return copy.deepcopy(x)


# ------------------------------------------------------------ ops
class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)

    def Reduce_local(self, inbuf, inoutbuf):
        i, o = parse_buf(inbuf), parse_buf(inoutbuf)
        if i.n != o.n:
            raise MPIError("Reduce_local size mismatch")
        if i.dt != o.dt:
            raise ValueError("mismatch in send and receive MPI datatypes")
        for k in range(int(i.n)):
            o.flat[k] = raw(cast_scalar(self.f(typed(i.flat[k], i.dt), typed(o.flat[k], o.dt)), o.dt))

    def Is_commutative(self):
        return True


def _pymax(a, b):
    if is_sym(a) or is_sym(b):
        return smax(a, b)
    return builtins.max(a, b)


def _pymin(a, b):
    if is_sym(a) or is_sym(b):
        return smin(a, b)
    return builtins.min(a, b)


OPS = dict(SUM=Op("SUM", lambda a, b: a + b), PROD=Op("PROD", lambda a, b: a * b),
           MAX=Op("MAX", _pymax), MIN=Op("MIN", _pymin),
           LAND=Op("LAND", lambda a, b: sand(a, b) if is_sym(a) or is_sym(b) else bool(a) and bool(b)),
           LOR=Op("LOR", lambda a, b: sor(a, b) if is_sym(a) or is_sym(b) else bool(a) or bool(b)),
           BAND=Op("BAND", lambda a, b: a & b), BOR=Op("BOR", lambda a, b: a | b),
           LXOR=Op("LXOR", lambda a, b: bool(a) != bool(b)), BXOR=Op("BXOR", lambda a, b: a ^ b))


# ------------------------------------------------------------ communicator
def _real_mpi():
    import mpi4py               # (never reached in a process that uses MPI)
    mpi4py.rc.initialize = False        # (only looked at for the names it has)
    mpi4py.rc.finalize = False
    from mpi4py import MPI
    return MPI


class Comm:
    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return core.standin(_real_mpi().Intracomm)(self, name)

    def __init__(self, state, rank):
        self._s = state
        self._r = rank
        self._freed = False

    def __eq__(self, o):
        return isinstance(o, Comm) and o._s is self._s

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self._s)

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._s.size

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return "comm"

    # -- core collective machinery
    def _coll(self, op, arg, compute, root=None):
        if self._freed:
            raise MPIError("communicator used after Free")
        s = self._s
        k = s.seq[self._r]
        s.seq[self._r] += 1
        if k > MAX_COLLECTIVES:
            raise NoProgress("more than %d collective operations: no progress" % MAX_COLLECTIVES)
        slot = s.colls.get(k)
        if slot is None:
            slot = s.colls[k] = dict(op=op, root=root, args=[None] * s.size, n=0, res=None, err=None)
        if slot["op"] != op or slot["root"] != root:
            raise MPIError("collective mismatch: rank %d calls %s(root=%s) while others call %s(root=%s)"
                           % (self._r, op, root, slot["op"], slot["root"]))
        slot["args"][self._r] = arg
        slot["n"] += 1
        if slot["n"] == s.size:
            slot["res"] = compute(slot["args"])
            slot["ready"] = True
            s.colls.pop(k, None)
        s.world.block(lambda: slot.get("ready", False))
        return slot["res"][self._r]

    def Barrier(self):
        self._coll("Barrier", None, lambda a: [None] * len(a))

    barrier = Barrier

    # -- lower-case
    def allgather(self, x):
        return self._coll("allgather", _clone(x), lambda a: [[_clone(y) for y in a] for _ in a])

    def gather(self, x, root=0):
        return self._coll("gather", _clone(x),
                          lambda a: [list(a) if i == root else None for i in range(len(a))], root)

    def bcast(self, x=None, root=0):
        return self._coll("bcast", _clone(x) if self._r == root else None,
                          lambda a: [_clone(a[root]) if i != root else a[root] for i in range(len(a))], root) \
            if self._r != root else (self._coll("bcast", _clone(x), lambda a: [_clone(a[root]) for i in a], root), x)[1]

    def scatter(self, x=None, root=0):
        def comp(a):
            if len(a[root]) != len(a):
                raise ValueError("expecting %d items, got %d" % (len(a), len(a[root])))
            return [_clone(y) for y in a[root]]
        return self._coll("scatter", _clone(x) if self._r == root else None, comp, root)

    def alltoall(self, x):
        return self._coll("alltoall", _clone(list(x)),
                          lambda a: [[a[j][i] for j in range(len(a))] for i in range(len(a))])

    def _fold(self, a, op):
        r = a[0]
        for y in a[1:]:
            r = op(r, y)
        return r

    def allreduce(self, x, op=None):
        op = op or OPS["SUM"]
        return self._coll("allreduce:" + op.name, _clone(x),
                          lambda a: [_clone(v) for v in [self._fold(a, op)] * len(a)])

    def reduce(self, x, op=None, root=0):
        op = op or OPS["SUM"]
        return self._coll("reduce:" + op.name, _clone(x),
                          lambda a: [self._fold(a, op) if i == root else None for i in range(len(a))], root)

    def scan(self, x, op=None):
        op = op or OPS["SUM"]
        return self._coll("scan:" + op.name, _clone(x),
                          lambda a: [self._fold(a[:i + 1], op) for i in range(len(a))])

    def exscan(self, x, op=None):
        op = op or OPS["SUM"]
        return self._coll("exscan:" + op.name, _clone(x),
                          lambda a: [self._fold(a[:i], op) if i else None for i in range(len(a))])

    # -- upper-case collectives
    def Scatter(self, send, recv, root=0):
        sb = self._snap(parse_buf(send)) if self._r == root else None
        rb = parse_buf(recv) if recv is not IN_PLACE and recv is not None else None

        def comp(a):
            P = len(a)
            n = int(a[root][0].total)
            if n % P:
                raise MPIError("Scatter buffer not divisible by communicator size")
            for i in range(P):
                if a[i][1] is None:
                    if i != root:
                        raise MPIError("Scatter: no receive buffer")
                    continue
                if int(a[i][1].total) != n // P:
                    raise MPIError("Scatter count mismatch")
                a[i][1].write(0, n // P, a[root][0].read(i * (n // P), n // P))
            return [None] * P
        self._coll("Scatter", (sb, rb), comp, root)

    def Scatterv(self, send, recv, root=0):
        sb = self._snap(parse_buf(send, True)) if self._r == root else None
        rb = parse_buf(recv) if recv is not IN_PLACE and recv is not None else None

        def comp(a):
            P = len(a)
            counts, displs = self._vspec(a[root][0], P)
            for i in range(P):
                if a[i][1] is None:
                    if i != root:
                        raise MPIError("Scatterv: no receive buffer")
                    continue
                if int(a[i][1].total) != int(counts[i]):
                    raise MPIError("Scatterv count mismatch")
                a[i][1].write(0, counts[i], a[root][0].read(displs[i], counts[i]))
            return [None] * P
        self._coll("Scatterv", (sb, rb), comp, root)

    def Reduce_scatter_block(self, send, recv, op=None):
        op = op or OPS["SUM"]
        sb, rb = self._snap(parse_buf(send)), parse_buf(recv)

        def comp(a):
            P = len(a)
            cols, dt = self._redvec(a, op, P)
            per = len(cols) // P
            for i, x in enumerate(a):
                self._store(x[1], [self._fold(c, op) for c in cols[i * per:(i + 1) * per]], dt)
            return [None] * P
        self._coll("Reduce_scatter_block:" + op.name, (sb, rb), comp)

    def _gatherlike(self, a_send, a_recv, P, targets):
        """Allgather/Gather with equal counts."""
        for t in targets:
            rb = a_recv[t]
            per = rb.total // P
            for i in range(P):
                sb = a_send[i]
                n = sb.total
                if int(n) != int(per):
                    raise MPIError("gather count mismatch: rank %d sends %s, receiver expects %s" % (i, n, per))
                rb.write(i * per, per, sb.read(0, n))

    def _snap(self, b):
        """Freeze a send buffer at call time."""
        if b is None:
            return None
        f = Buf.__new__(Buf)
        f.__dict__.update(b.__dict__)
        if b.flat is not None:
            f.flat = b.flat.copy()
        else:
            f.arr = b.arr.copy()
        return f

    def Allgather(self, send, recv):
        rb = parse_buf(recv)
        if send is IN_PLACE:
            per = int(rb.total) // self._s.size
            sb = Buf.__new__(Buf)
            sb.__dict__.update(rb.__dict__)
            sb.flat = rb.flat[self._r * per:(self._r + 1) * per].copy()
            sb.n = sb.total = per
        else:
            sb = self._snap(parse_buf(send))

        def comp(a):
            self._gatherlike([x[0] for x in a], [x[1] for x in a], len(a), range(len(a)))
            return [None] * len(a)
        self._coll("Allgather", (sb, rb), comp)

    def Gather(self, send, recv, root=0):
        sb = self._snap(parse_buf(send))
        rb = parse_buf(recv) if self._r == root else None

        def comp(a):
            self._gatherlike([x[0] for x in a], [x[1] for x in a], len(a), [root])
            return [None] * len(a)
        self._coll("Gather", (sb, rb), comp, root)

    def _vspec(self, b, P):
        if b.counts is None:
            raise core.Inconclusive("vector collective without counts")
        counts = list(b.counts)
        if b.displs is None:
            displs = [0]
            for c in counts[:-1]:
                displs.append(displs[-1] + c)
        else:
            displs = list(b.displs)
        if len(counts) != P or len(displs) != P:
            raise MPIError("counts/displacements have the wrong length")
        for x in counts + displs:
            lim = 2**31 - 1
            if is_sym(x):
                if core.eng().decide(sor(x > lim, x < -lim - 1).t if is_sym(sor(x > lim, x < -lim - 1)) else
                                     bool(sor(x > lim, x < -lim - 1))):
                    raise OverflowError("value too large to convert to int")
            elif int(x) > lim:
                raise OverflowError("value too large to convert to int")
        return counts, displs

    def _gatherv(self, a, targets):
        P = len(a)
        for t in targets:
            rb = a[t][1]
            counts, displs = self._vspec(rb, P)
            for i in range(P):
                sb = a[i][0]
                n = sb.total
                if is_sym(n) or is_sym(counts[i]):
                    if not core.eng().decide((n == counts[i]).t if is_sym(n == counts[i]) else bool(n == counts[i])):
                        raise MPIError("gatherv count mismatch")
                elif int(n) != int(counts[i]):
                    raise MPIError("gatherv count mismatch: rank %d sends %s, root expects %s" % (i, n, counts[i]))
                rb.write(displs[i], counts[i], sb.read(0, n))
        return [None] * P

    def Gatherv(self, send, recv, root=0):
        sb = self._snap(parse_buf(send))
        rb = parse_buf(recv, True) if self._r == root else None
        self._coll("Gatherv", (sb, rb), lambda a: self._gatherv(a, [root]), root)

    def Allgatherv(self, send, recv):
        sb = self._snap(parse_buf(send))
        rb = parse_buf(recv, True)
        self._coll("Allgatherv", (sb, rb), lambda a: self._gatherv(a, range(len(a))))

    def Bcast(self, buf, root=0):
        b = parse_buf(buf)

        def comp(a):
            src = a[root].read(0, a[root].total)
            for i, x in enumerate(a):
                if i != root:
                    x.write(0, x.total, src)
            return [None] * len(a)
        self._coll("Bcast", b, comp, root)

    def Alltoall(self, send, recv):
        sb, rb = self._snap(parse_buf(send)), parse_buf(recv)

        def comp(a):
            P = len(a)
            for i in range(P):
                ns = int(a[i][0].total)
                if ns % P:
                    raise MPIError("Alltoall buffer not divisible by communicator size")
                for j in range(P):
                    per, perj = ns // P, int(a[j][1].total) // P
                    if per != perj:
                        raise MPIError("Alltoall count mismatch")
                    a[j][1].write(i * perj, perj, a[i][0].read(j * per, per))
            return [None] * P
        self._coll("Alltoall", (sb, rb), comp)

    def Alltoallv(self, send, recv):
        sb, rb = self._snap(parse_buf(send, True)), parse_buf(recv, True)

        def comp(a):
            P = len(a)
            sp = [self._vspec(x[0], P) for x in a]
            rp = [self._vspec(x[1], P) for x in a]
            for i in range(P):
                for j in range(P):
                    if int(sp[i][0][j]) != int(rp[j][0][i]):
                        raise MPIError("Alltoallv count mismatch")
                    a[j][1].write(rp[j][1][i], rp[j][0][i], a[i][0].read(sp[i][1][j], sp[i][0][j]))
            return [None] * P
        self._coll("Alltoallv", (sb, rb), comp)

    def _redvec(self, a, op, P):
        n = int(a[0][0].total)
        for x in a:
            if int(x[0].total) != n:
                raise MPIError("reduce count mismatch")
            if x[0].dt != a[0][0].dt:
                raise MPIError("reduce type mismatch")
        dt = a[0][0].dt
        return [[typed(x[0].flat[k], dt) for x in a] for k in range(n)], dt

    def _ipbuf(self, send, recv):
        rb = parse_buf(recv) if recv is not None else None
        sb = self._snap(rb if send is IN_PLACE else parse_buf(send))
        return sb, rb

    def _store(self, rb, vals, dt):
        d = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            d[i] = raw(cast_scalar(v, dt))
        if len(vals) != int(rb.total):
            raise MPIError("MPI_ERR_COUNT: receive buffer has %s elements, %d reduced" % (rb.total, len(vals)))
        rb.write(0, len(vals), ("list", d, dt))

    def Allreduce(self, send, recv, op=None):
        op = op or OPS["SUM"]
        sb, rb = self._ipbuf(send, recv)

        def comp(a):
            cols, dt = self._redvec(a, op, len(a))
            vals = [self._fold(c, op) for c in cols]
            for x in a:
                self._store(x[1], vals, dt)
            return [None] * len(a)
        self._coll("Allreduce:" + op.name, (sb, rb), comp)

    def Reduce(self, send, recv, op=None, root=0):
        op = op or OPS["SUM"]
        sb, rb = self._ipbuf(send, recv if self._r == root else None) if send is not IN_PLACE or self._r == root \
            else (None, None)

        def comp(a):
            cols, dt = self._redvec(a, op, len(a))
            self._store(a[root][1], [self._fold(c, op) for c in cols], dt)
            return [None] * len(a)
        self._coll("Reduce:" + op.name, (sb, rb), comp, root)

    def Scan(self, send, recv, op=None):
        op = op or OPS["SUM"]
        sb, rb = self._ipbuf(send, recv)

        def comp(a):
            cols, dt = self._redvec(a, op, len(a))
            for i, x in enumerate(a):
                self._store(x[1], [self._fold(c[:i + 1], op) for c in cols], dt)
            return [None] * len(a)
        self._coll("Scan:" + op.name, (sb, rb), comp)

    def Exscan(self, send, recv, op=None):
        op = op or OPS["SUM"]
        sb, rb = self._ipbuf(send, recv)

        def comp(a):
            cols, dt = self._redvec(a, op, len(a))
            for i, x in enumerate(a):
                if i:
                    self._store(x[1], [self._fold(c[:i], op) for c in cols], dt)
            return [None] * len(a)
        self._coll("Exscan:" + op.name, (sb, rb), comp)

    # -- point to point
    def _post_send(self, dst, tag, buf=None, obj=None, is_obj=False):
        dst = int(dst)
        if dst == PROC_NULL:
            m = Msg(self._r, dst, tag)
            m.done = m.is_send = True
            return m
        if not 0 <= dst < self._s.size:
            raise MPIError("MPI_ERR_RANK: invalid rank %d" % dst)
        m = Msg(self._r, dst, tag)
        m.is_send = True
        if is_obj:
            m.obj = ("obj", _clone(obj))
        else:
            m.n, m.dt = buf.total, buf.dt
            m.payload = buf.read(0, buf.total)
        self._s.sends.append(m)
        self._match()
        return m

    def _post_recv(self, src, tag, buf=None, is_obj=False, defer=False):
        if src is None:
            src = ANY
        src = int(src)
        if src == PROC_NULL:
            m = Msg(src, self._r, tag)
            m.sent = Msg(PROC_NULL, self._r, ANY)
            m.sent.n, m.sent.dt = 0, np.dtype("u1")
            m.done = True
            return m
        if not -1 <= src < self._s.size:
            raise MPIError("MPI_ERR_RANK: invalid rank %d" % src)
        m = Msg(src, self._r, tag)
        m.buf = buf
        m.obj = None
        m.eager = is_obj
        m.defer = defer
        self._s.recvs.append(m)
        self._match()
        return m

    def _match(self):
        s = self._s
        for r in s.recvs:
            if r.done:
                continue
            for m in s.sends:
                if m.done or m.dst != r.dst:
                    continue
                if r.src not in (ANY, m.src) or r.tag not in (ANY, m.tag):
                    continue
                if r.eager:
                    if m.obj is None:
                        raise MPIError("object receive matched buffer send")
                    r.obj = m.obj[1]
                else:
                    if m.obj is not None:
                        raise MPIError("buffer receive matched object send")
                    if r.defer:
                        if m.payload[0] == "list" and len(m.payload[1]) > int(r.buf.total):
                            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
                        r.late = m.payload
                    else:
                        r.buf.write(0, r.buf.total, m.payload)
                m.done = r.done = True
                r.sent = m
                break
        s.sends = [m for m in s.sends if not m.done]
        s.recvs = [r for r in s.recvs if not r.done]

    def Send(self, buf, dest, tag=0):
        m = self._post_send(dest, tag, parse_buf(buf))
        self._s.world.block(lambda: m.done)

    Ssend = Send

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        m = self._post_recv(source, tag, parse_buf(buf))
        self._s.world.block(lambda: m.done)
        if status is not None:
            status.set(m)

    def Isend(self, buf, dest, tag=0):
        return Request(self._s.world, self._post_send(dest, tag, parse_buf(buf)))

    def Irecv(self, buf, source=ANY, tag=ANY):
        return Request(self._s.world, self._post_recv(source, tag, parse_buf(buf), defer=True))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self._post_recv(source, recvtag, parse_buf(recvbuf))
        m = self._post_send(dest, sendtag, parse_buf(sendbuf))
        self._s.world.block(lambda: m.done and r.done)
        if status is not None:
            status.set(r)

    def send(self, obj, dest, tag=0):
        m = self._post_send(dest, tag, obj=obj, is_obj=True)
        self._s.world.block(lambda: m.done)

    ssend = send

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        m = self._post_recv(source, tag, is_obj=True)
        self._s.world.block(lambda: m.done)
        if status is not None:
            status.set(m)
        return m.obj

    def isend(self, obj, dest, tag=0):
        return Request(self._s.world, self._post_send(dest, tag, obj=obj, is_obj=True))

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(self._s.world, self._post_recv(source, tag, is_obj=True))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self._post_recv(source, recvtag, is_obj=True)
        m = self._post_send(dest, sendtag, obj=sendobj, is_obj=True)
        self._s.world.block(lambda: m.done and r.done)
        if status is not None:
            status.set(r)
        return r.obj

    def _pending(self, source, tag):
        """First message from every possible source."""
        out = {}
        for m in self._s.sends:
            if not m.done and m.dst == self._r and source in (ANY, None, m.src) and tag in (ANY, m.tag):
                out.setdefault(m.src, m)
        return out

    def Iprobe(self, source=ANY, tag=ANY, status=None):
        w = self._s.world
        w.pause()
        p = self._pending(source, tag)
        k = w.nprobe
        w.nprobe += 1
        w.nempty = 0 if p else w.nempty + 1
        if w.nempty > 300 or k > 5000:
            raise NoProgress("probing without progress")
        src = min(p) if p else None
        if w.sched is not None:
            src = w.sched(k, sorted(p))
        if src is None:
            return False
        if status is not None:
            status.m = p[src]
        return True

    iprobe = Iprobe

    def Probe(self, source=ANY, tag=ANY, status=None):
        self._s.world.pause()
        self._s.world.block(lambda: bool(self._pending(source, tag)))
        p = self._pending(source, tag)
        w = self._s.world
        src = min(p)
        if w.sched is not None:
            k = w.nprobe
            w.nprobe += 1
            src = w.sched(k, sorted(p), True)
        if status is not None:
            status.m = p[src]
        return True

    probe = Probe

    # -- management
    def Split(self, color=0, key=0):
        def comp(a):
            res = [COMM_NULL] * len(a)
            for c in sorted(set(int(x[0]) for x in a if x[0] is not UNDEFINED)):
                mem = sorted([i for i in range(len(a)) if a[i][0] is not UNDEFINED and int(a[i][0]) == c],
                             key=lambda i: (int(a[i][1]), i))
                st = CommState(self._s.world, mem)
                for j, i in enumerate(mem):
                    res[i] = Comm(st, j)
            return res
        return self._coll("Split", (color, key), comp)

    def Dup(self, info=None):
        def comp(a):
            st = CommState(self._s.world, list(range(len(a))))
            return [Comm(st, i) for i in range(len(a))]
        return self._coll("Dup", None, comp)

    Clone = Dup

    def Free(self):
        if self._freed:
            raise MPIError("communicator freed twice")
        self._coll("Free", None, lambda a: [None] * len(a))
        self._freed = True

    def Abort(self, errorcode=0):
        e = MPIAbort("MPI_Abort called on rank %d" % self._r)
        e.code = errorcode
        raise e


class _NullComm:
    def __bool__(self):
        return False

    def __eq__(self, o):
        return o is self

    def __hash__(self):
        return 0


COMM_NULL = _NullComm()


class _InPlace:
    pass


IN_PLACE = _InPlace()
UNDEFINED = object()


class _MPI(types.ModuleType):
    def __init__(self):
        super().__init__("mpi4py.MPI")
        d = self.__dict__
        for n, o in OPS.items():
            d[n] = o
        d.update(IN_PLACE=IN_PLACE, ANY_SOURCE=ANY, ANY_TAG=ANY, UNDEFINED=UNDEFINED, Request=Request,
                 Comm=Comm, Intracomm=Comm, Datatype=Datatype, Op=Op, Exception=MPIError, PROC_NULL=PROC_NULL,
                 COMM_NULL=COMM_NULL, Status=Status, IDENTICAL=0, CONGRUENT=1)
        for n, t in dict(BYTE="u1", CHAR="S1", INT="i4", LONG="i8", INT64_T="i8", INT32_T="i4", DOUBLE="f8",
                         FLOAT="f4", UINT64_T="u8", UINT32_T="u4", LONG_LONG="i8", BOOL="?").items():
            d[n] = Datatype(t)

    @property
    def COMM_WORLD(self):
        w = cur_world()
        if w is None:
            return Comm(World(1).state, 0)
        return Comm(w.state, cur_rank())

    def Finalize(self):
        raise MPIFinalized()

    def Wtime(self):
        return 0.0

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return core.standin(_real_mpi(), "MPI")(None, name)

    @property
    def COMM_SELF(self):
        w = cur_world()
        key = (w, cur_rank() if w is not None else 0)
        d = w.__dict__.setdefault("selfs", {}) if w is not None else {}
        if key[1] not in d:
            d[key[1]] = Comm(CommState(w, [key[1]]), 0) if w is not None else Comm(World(1).state, 0)
        return d[key[1]]

    def Is_initialized(self):
        return True

    def Is_finalized(self):
        return False

    def Get_processor_name(self):
        return "localhost"


MPI = _MPI()
mpi4py = types.ModuleType("mpi4py")
mpi4py.MPI = MPI
_u = types.ModuleType("mpi4py.util")
_d = types.ModuleType("mpi4py.util.dtlib")
_d.from_numpy_dtype = from_numpy_dtype
_u.dtlib = _d
mpi4py.util = _u
mpi4py.rc = types.SimpleNamespace()
MODULES = {"mpi4py": mpi4py, "mpi4py.MPI": MPI, "mpi4py.util": _u, "mpi4py.util.dtlib": _d}
