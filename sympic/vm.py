"""Virtual ranks / threads and the MPI model.

Ranks run as coroutines (one OS thread each, exactly one running at a time, in
rank order; a rank is switched only when it blocks).  Point-to-point semantics:
messages match by (source, tag) in posting order; a receive buffer is undefined
from the Irecv to the completion, the data appear at completion; a send buffer
must be unchanged between Isend and completion.
"""
import copy as _copy
import threading
import numpy as np

from . import rt
from .rt import UNDEF, Ptr, Mem, NumpyMem, XD, X, py, NULL, unpy
from .explore import Violation
from .ir import IRError


class Abort(BaseException):
    pass


class Sched:
    def __init__(self):
        self.cv = threading.Condition()
        self.cur = None
        self.state = {}       # id -> None (runnable) | predicate
        self.desc = {}
        self.error = None
        self.tls = threading.local()

    def run(self, fns):
        n = len(fns)
        res = [None] * n
        self.state = {i: None for i in range(n)}
        self.done = set()
        self.cur = 0
        self.error = None

        def body(i):
            self.tls.id = i
            with self.cv:
                while self.cur != i:
                    self.cv.wait()
            try:
                if self.error is None:
                    res[i] = fns[i]()
            except Abort:
                pass
            except BaseException as e:
                if self.error is None:
                    self.error = e
            finally:
                with self.cv:
                    self.done.add(i)
                    self.next(i)
        threading.stack_size(256 * 1024 * 1024)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error
        return res

    def next(self, i):
        """pick the next runnable (called with cv held)"""
        n = len(self.state)
        live = [k for k in range(n) if k not in self.done]
        if not live:
            self.cur = -1
            self.cv.notify_all()
            return
        for d in range(1, n + 1):
            k = (i + d) % n
            if k in self.done:
                continue
            p = self.state[k]
            if self.error is not None or p is None or p():
                self.cur = k
                self.cv.notify_all()
                return
        self.error = Violation("deadlock: every rank is blocked: " + "; ".join("%d in %s" % (k, self.desc.get(k)) for k in live))
        self.cur = live[0]
        self.cv.notify_all()

    def block(self, pred, desc):
        if pred():
            return
        i = self.tls.id
        with self.cv:
            self.state[i] = pred
            self.desc[i] = desc
            self.next(i)
            while self.cur != i:
                self.cv.wait()
            self.state[i] = None
        if self.error is not None:
            raise Abort()


class Req:
    __slots__ = ("kind", "src", "dst", "tag", "cells", "snap", "matched", "done", "ctx", "world", "post")


class World:
    def __init__(self, size, sched=None, tag_ub=2 ** 30):
        self.size = size
        self.sched = sched
        self.tag_ub = tag_ub
        self.sends = {}      # (ctx, src, dst, tag) -> [Req]
        self.recvs = {}
        self.coll = {}
        self.nmsg = 0
        self.objs = {}
        self.ctxs = {}

    def key(self, r):
        return (r.ctx, r.src, r.dst, r.tag)

    def post(self, r):
        if r.tag < 0 or r.tag > self.tag_ub:
            raise Violation("MPI tag %d outside 0..%d" % (r.tag, self.tag_ub))
        if not (0 <= r.src < self.size and 0 <= r.dst < self.size):
            raise Violation("MPI peer rank out of range: %d -> %d of %d" % (r.src, r.dst, self.size))
        k = self.key(r)
        a, b = (self.sends, self.recvs) if r.kind == "s" else (self.recvs, self.sends)
        q = b.get(k)
        self.nmsg += r.kind == "s"
        if q:
            o = q.pop(0)
            r.matched = o
            o.matched = r
        else:
            a.setdefault(k, []).append(r)

    def check_empty(self):
        for nm, d in (("send", self.sends), ("receive", self.recvs)):
            for k, q in d.items():
                if q:
                    raise Violation("unmatched MPI %s: context %s, %d -> %d tag %d (%d left)" % (nm, k[0], k[1], k[2], k[3], len(q)))

    def complete(self, r):
        """called by the owner when it waits"""
        if r.done:
            return
        self.sched.block(lambda: r.matched is not None,
                         "MPI_Wait(%s %d->%d tag %d)" % (("send" if r.kind == "s" else "recv"), r.src, r.dst, r.tag))
        r.done = True
        o = r.matched
        if r.kind == "s":
            for (obj, off, k), v in zip(r.cells, r.snap):
                w = obj.load(off, k)
                if not same(w, v):
                    raise Violation("send buffer modified before completion (%d->%d tag %d)" % (r.src, r.dst, r.tag))
            return
        if len(o.cells) > len(r.cells):
            raise Violation("message truncated: %d elements sent, %d expected (%d->%d tag %d)" % (len(o.cells), len(r.cells), r.src, r.dst, r.tag))
        if o.cells and r.cells and o.cells[0][2] != r.cells[0][2]:
            raise Violation("message type mismatch (%d->%d tag %d)" % (r.src, r.dst, r.tag))
        for (obj, off, k), v in zip(r.cells, r.snap):
            if isinstance(obj, NumpyMem) and obj.dt == "O" or isinstance(obj, Mem):
                w = peek(obj, off)
                if w is not UNDEF:
                    raise Violation("receive buffer written before completion (%d->%d tag %d)" % (r.src, r.dst, r.tag))
        for (obj, off, k), v in zip(r.cells, o.snap):
            obj.store(off, k, v)
        for (obj, off, k), v in list(zip(r.cells, r.snap))[len(o.cells):]:
            obj.store(off, k, v)


def peek(obj, off):
    if isinstance(obj, NumpyMem):
        return obj.flat[off // obj.isz]
    c = obj.cells.get(off)
    return UNDEF if c is None else c[0]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, rt.R) and isinstance(b, rt.R):
        return a.p == b.p
    if isinstance(a, rt.R) or isinstance(b, rt.R):
        a = rt.lift(a) if not isinstance(a, float) else a
        b = rt.lift(b) if not isinstance(b, float) else b
        return isinstance(a, rt.R) and isinstance(b, rt.R) and a.p == b.p
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


# ---------------------------------------------------------------- python-level communicator
class Comm:
    """mpi4py.MPI.Comm of one virtual rank"""

    def __init__(self, world=None, rank=0, ctx=0):
        self.world = world or World(1)
        self.rank = rank
        self.size = self.world.size
        self.ctx = ctx
        self._n = 0
        self.ndup = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Dup(self, info=None):
        self.ndup += 1
        c = Comm(self.world, self.rank, (self.ctx, self.ndup))
        c.collective("dup", None)
        return c

    def Free(self):
        pass

    def __deepcopy__(self, memo):
        return self

    def Get_attr(self, k):
        return self.world.tag_ub

    def Abort(self, code=0):
        raise Violation("MPI Abort(%s)" % code)

    def collective(self, name, val):
        n = self._n
        self._n += 1
        w = self.world
        k = (self.ctx, n)
        d = w.coll.setdefault(k, {})
        d[self.rank] = (name, val)
        if w.size > 1:
            w.sched.block(lambda: len(d) == w.size, "collective %s #%d" % (name, n))
        names = {v[0] for v in d.values()}
        if len(names) > 1:
            raise Violation("collective calls do not match: %s" % sorted(names))
        return [d[r][1] for r in range(w.size)]

    def Barrier(self):
        self.collective("Barrier", None)
    barrier = Barrier

    def allgather(self, v):
        return [_c(x) for x in self.collective("allgather", v)]

    def gather(self, v, root=0):
        r = self.collective("gather%d" % root, v)
        return [_c(x) for x in r] if self.rank == root else None

    def bcast(self, v=None, root=0):
        return _c(self.collective("bcast%d" % root, v)[root])

    def scatter(self, v=None, root=0):
        r = self.collective("scatter%d" % root, v)[root]
        if len(r) != self.size:
            raise Violation("scatter of %d items over %d ranks" % (len(r), self.size))
        return _c(r[self.rank])

    def _red(self, vals, op):
        r = vals[0]
        for v in vals[1:]:
            if op in (None, MPI.SUM):
                r = r + v
            elif op == MPI.MAX:
                r = r if r >= v else v
            elif op == MPI.MIN:
                r = r if r <= v else v
            elif op == MPI.LOR:
                r = r or v
            elif op == MPI.LAND:
                r = r and v
            else:
                raise IRError("reduction op")
        return r

    def allreduce(self, v, op=None):
        return self._red(self.collective("allreduce", v), op)

    def reduce(self, v, op=None, root=0):
        r = self.collective("reduce%d" % root, v)
        return self._red(r, op) if self.rank == root else None

    # object messages (eager)
    def _q(self, src, dst, tag):
        return self.world.objs.setdefault((self.ctx, src, dst, tag), [])

    def send(self, obj, dest, tag=0):
        self._q(self.rank, dest, tag).append(_c(obj))

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return DoneReq()

    def recv(self, source=0, tag=0, status=None, buf=None):
        q = self._q(source, self.rank, tag)
        self.world.sched.block(lambda: bool(q), "recv from %d tag %d" % (source, tag))
        return q.pop(0)

    def irecv(self, source=0, tag=0, buf=None):
        return ObjRecv(self, source, tag)

    def _buf(self, b):
        if isinstance(b, (list, tuple)):
            b = b[0]
        a = np.asarray(b)
        if not a.flags.c_contiguous:
            raise Violation("MPI buffer is not contiguous")
        return a

    def _req(self, kind, buf, peer, tag):
        a = self._buf(buf)
        o = NumpyMem(a)
        k = "d" if o.dt in "Of" else str(o.isz)
        r = mkreq(self, kind, [(o, i * o.isz, k) for i in range(a.size)], peer, tag)
        return PyReq(r, self.world)

    def Isend(self, buf, dest, tag=0):
        return self._req("s", buf, dest, tag)

    def Irecv(self, buf, source, tag=0):
        return self._req("r", buf, source, tag)

    def Send(self, buf, dest, tag=0):
        a = self._buf(buf).copy()
        # eager: the model never blocks a standard send
        self._req("s", a, dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        self._req("r", buf, source, tag).Wait()

    def Allreduce(self, s, r, op=None):
        v = self.collective("Allreduce", None if s is MPI.IN_PLACE else np.array(s))
        raise IRError("Allreduce")


def _c(x):
    return _copy.deepcopy(x)


class DoneReq:
    def wait(self, status=None):
        return None
    Wait = wait

    def test(self):
        return (True, None)


class ObjRecv:
    def __init__(self, c, s, t):
        self.a = (c, s, t)

    def wait(self, status=None):
        c, s, t = self.a
        return c.recv(s, t)


class PyReq:
    def __init__(self, r, w):
        self.r = r
        self.w = w

    def Wait(self, status=None):
        self.w.complete(self.r)
        return True
    wait = Wait

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.Wait()
        return True
    waitall = Waitall


def mkreq(comm, kind, cells, peer, tag):
    w = comm.world
    r = Req()
    r.kind = kind
    r.ctx = comm.ctx
    r.src, r.dst = (comm.rank, peer) if kind == "s" else (peer, comm.rank)
    r.tag = tag
    r.cells = cells
    r.matched = None
    r.done = False
    r.world = w
    r.post = 0
    if kind == "s":
        r.snap = [o.load(f, k) for o, f, k in cells]
        for v in r.snap:
            if v is UNDEF:
                raise Violation("uninitialised data sent (%d->%d tag %d)" % (r.src, r.dst, tag))
    else:
        r.snap = [peek(o, f) for o, f, k in cells]
        for o, f, k in cells:
            n = rt.SIZE[k]
            if isinstance(o, NumpyMem):
                o.idx(f, n, "receive")
                if o.dt == "O":
                    o.flat[f // o.isz] = UNDEF
            else:
                o.chk(f, n, "receive")
                o.cells[f] = (UNDEF, k)
    w.post(r)
    return r


class _MPI:
    SUM = "SUM"; MAX = "MAX"; MIN = "MIN"; LOR = "LOR"; LAND = "LAND"; IN_PLACE = object()
    ANY_SOURCE = -1; ANY_TAG = -1; TAG_UB = 1; PROC_NULL = -2
    DOUBLE = "DOUBLE"; INT64_T = "INT64_T"; BOOL = "BOOL"; INT = "INT"
    Comm = Comm
    Intracomm = Comm
    Request = PyReq
    COMM_NULL = None

    class Status:
        pass

    class Info:
        pass

    @property
    def COMM_WORLD(self):
        return current_comm()

    @property
    def COMM_SELF(self):
        return Comm()

    @staticmethod
    def Is_initialized():
        return True

    @staticmethod
    def Is_finalized():
        return False

    @staticmethod
    def Wtime():
        return 0.0


MPI = _MPI()
_tls = threading.local()


class ProxyComm(Comm):
    """COMM_WORLD captured at import time: resolves to the running rank"""

    def __init__(self):
        pass

    def __getattribute__(self, k):
        if k in ("__class__", "__deepcopy__", "__reduce__", "__reduce_ex__"):
            return object.__getattribute__(self, k)
        return getattr(current_comm(True), k)

    def __deepcopy__(self, m):
        return self


_single = Comm()
_proxy = ProxyComm()


def current_comm(real=False):
    if not real:
        return _proxy
    return getattr(_tls, "comm", None) or _single


def run_ranks(n, body, tag_ub=2 ** 30, check_empty=True):
    """body(comm) on n virtual ranks -> list of results"""
    s = Sched()
    w = World(n, s, tag_ub)

    def mk(i):
        def f():
            _tls.comm = Comm(w, i)
            from . import env
            env.rank_tls.rank = i
            env.rank_tls.insts = {}
            return body(_tls.comm)
        return f
    r = s.run([mk(i) for i in range(n)])
    if check_empty:
        w.check_empty()
    return r


# ---------------------------------------------------------------- C-level MPI
class CommObj:
    __slots__ = ("comm",)

    def __init__(self, c):
        self.comm = c

    def load(self, off, k):
        raise Violation("MPI_Comm dereferenced")
    store = load


TYPES = {1: ("1", 1), 2: ("4", 4), 3: ("8", 8), 4: ("d", 8), 5: ("8", 8)}


def dtype_cells(M, dt):
    """-> (list of (byte offset, kind), extent)"""
    if dt in TYPES:
        k, n = TYPES[dt]
        return [(0, k)], n
    st = M.__dict__.setdefault("mpitypes", {})
    t = st.get(dt)
    if t is None:
        raise Violation("invalid MPI datatype handle %r" % dt)
    if not t["committed"]:
        raise Violation("uncommitted MPI datatype used")
    if t["freed"]:
        raise Violation("freed MPI datatype used")
    return t["cells"], t["extent"]


def buf_cells(M, p, count, dt):
    cells, ext = dtype_cells(M, dt)
    out = []
    for i in range(count):
        for off, k in cells:
            out.append((p.o, p.f + i * ext + off, k))
    return out


def xe(f):
    X[f.__name__] = f
    XD[f.__name__] = f
    return f


def getcomm(p):
    if not isinstance(p.o, CommObj):
        raise Violation("bad MPI communicator")
    return p.o.comm


@xe
def x_PyMPIComm_Get(M, p):
    c = unpy(p)
    if isinstance(c, ProxyComm):
        c = current_comm(True)
    if not isinstance(c, Comm):
        raise TypeError("not a communicator: %r" % (c,))
    m = Mem(8, "comm", "const")
    m.cells[0] = (Ptr(CommObj(c), 0), "p")
    return Ptr(m, 0)


@xe
def x_MPI_Comm_rank(M, c, p):
    p.o.store(p.f, "4", getcomm(c).rank)
    return 0


@xe
def x_MPI_Comm_size(M, c, p):
    p.o.store(p.f, "4", getcomm(c).size)
    return 0


@xe
def x_MPI_Comm_get_attr(M, c, key, pv, pf):
    m = Mem(4, "tag_ub", "const")
    m.cells[0] = (min(getcomm(c).world.tag_ub, 2 ** 31 - 1), "4")
    pv.o.store(pv.f, "p", Ptr(m, 0))
    pf.o.store(pf.f, "4", 1)
    return 0


@xe
def x_MPI_Barrier(M, c):
    getcomm(c).Barrier()
    return 0


def reqtab(M):
    return M.__dict__.setdefault("reqs", {})


def newreq(M, r, p):
    t = reqtab(M)
    h = len(t) + 1
    t[h] = r
    p.o.store(p.f, "8", h)


def count_chk(n):
    if n < 0:
        raise Violation("negative MPI count %d" % n)


@xe
def x_MPI_Isend(M, buf, count, dt, dest, tag, comm, preq):
    count_chk(count)
    if dest == -2:
        preq.o.store(preq.f, "8", 0)
        return 0
    newreq(M, mkreq(getcomm(comm), "s", buf_cells(M, buf, count, dt), dest, tag), preq)
    return 0


@xe
def x_MPI_Irecv(M, buf, count, dt, src, tag, comm, preq):
    count_chk(count)
    if src == -2:
        preq.o.store(preq.f, "8", 0)
        return 0
    if src < 0 or tag < 0:
        raise IRError("wildcard receive")
    newreq(M, mkreq(getcomm(comm), "r", buf_cells(M, buf, count, dt), src, tag), preq)
    return 0


@xe
def x_MPI_Wait(M, preq, st):
    h = preq.o.load(preq.f, "8")
    if h == 0:
        return 0
    r = reqtab(M).get(h)
    if r is None:
        raise Violation("MPI_Wait on an invalid request")
    r.world.complete(r)
    preq.o.store(preq.f, "8", 0)
    return 0


@xe
def x_MPI_Waitall(M, n, preq, st):
    for i in range(n):
        x_MPI_Wait(M, Ptr(preq.o, preq.f + 8 * i), st)
    return 0


@xe
def x_MPI_Send(M, buf, count, dt, dest, tag, comm):
    c = getcomm(comm)
    r = mkreq(c, "s", buf_cells(M, buf, count, dt), dest, tag)
    r.done = True      # eager
    return 0


@xe
def x_MPI_Recv(M, buf, count, dt, src, tag, comm, st):
    c = getcomm(comm)
    r = mkreq(c, "r", buf_cells(M, buf, count, dt), src, tag)
    r.world.complete(r)
    return 0


@xe
def x_MPI_Sendrecv(M, sb, sc, sd, dst, stag, rb, rc, rd, src, rtag, comm, st):
    c = getcomm(comm)
    s = mkreq(c, "s", buf_cells(M, sb, sc, sd), dst, stag)
    r = mkreq(c, "r", buf_cells(M, rb, rc, rd), src, rtag)
    r.world.complete(r)
    r.world.complete(s)
    return 0


def ints(p, n):
    return [p.o.load(p.f + 4 * i, "4") for i in range(n)]


@xe
def x_MPI_Type_create_subarray(M, nd, psizes, psub, pstart, order, old, pnew):
    sizes, sub, start = ints(psizes, nd), ints(psub, nd), ints(pstart, nd)
    for a, b, c in zip(sizes, sub, start):
        if not (1 <= b <= a and 0 <= c <= a - b):
            raise Violation("invalid MPI subarray sizes=%s subsizes=%s starts=%s" % (sizes, sub, start))
    oc, ext = dtype_cells(M, old)
    cells = []
    dims = range(nd) if order == 56 else range(nd - 1, -1, -1)
    stride = [0] * nd
    s = ext
    for d in reversed(list(dims)):
        stride[d] = s
        s *= sizes[d]
    rng = [range(start[d], start[d] + sub[d]) for d in dims]
    import itertools
    for idx in itertools.product(*rng):
        off = sum(i * stride[d] for i, d in zip(idx, dims))
        for o, k in oc:
            cells.append((off + o, k))
    st = M.__dict__.setdefault("mpitypes", {})
    h = 1000 + len(st)
    st[h] = dict(cells=cells, extent=s, committed=False, freed=False)
    pnew.o.store(pnew.f, "8", h)
    return 0


@xe
def x_MPI_Type_vector(M, count, blk, stride, old, pnew):
    oc, ext = dtype_cells(M, old)
    cells = [((i * stride + j) * ext + o, k) for i in range(count) for j in range(blk) for o, k in oc]
    st = M.__dict__.setdefault("mpitypes", {})
    h = 1000 + len(st)
    st[h] = dict(cells=cells, extent=((count - 1) * stride + blk) * ext, committed=False, freed=False)
    pnew.o.store(pnew.f, "8", h)
    return 0


@xe
def x_MPI_Type_contiguous(M, count, old, pnew):
    return x_MPI_Type_vector(M, count, 1, 1, old, pnew)


@xe
def x_MPI_Type_commit(M, p):
    h = p.o.load(p.f, "8")
    M.__dict__["mpitypes"][h]["committed"] = True
    return 0


@xe
def x_MPI_Type_free(M, p):
    h = p.o.load(p.f, "8")
    t = M.__dict__["mpitypes"].get(h)
    if t is None or t["freed"]:
        raise Violation("MPI_Type_free of an invalid datatype")
    t["freed"] = True
    p.o.store(p.f, "8", 0)
    return 0
