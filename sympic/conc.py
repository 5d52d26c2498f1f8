"""Concrete twin of SymCtx: the same scenario over the real build."""
import math
import numpy as np


class ReplayMismatch(Exception):
    """the concrete run left the recorded path (missing value)"""


class ConcCtx:
    symbolic = False

    def __init__(self, values, comm=None, tol=1e-7):
        self.reals = dict(values.get("reals", {}))
        self.choices = dict(values.get("choices", {}))
        self.comm = comm
        self.tol = tol
        self.failures = []
        self.n = 0
        self.scale = 1.0
        self._undo = []

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.reals.get(name)
        if v is None:
            lo_ = float(lo) if lo is not None else None
            hi_ = float(hi) if hi is not None else None
            if lo_ is not None and hi_ is not None:
                v = 0.5 * (lo_ + hi_)
            elif lo_ is not None:
                v = lo_ + 1.0
            elif hi_ is not None:
                v = hi_ - 1.0
            else:
                v = 0.0
            self.reals[name] = v
        return v

    def array(self, name, shape, lo=None, hi=None, where=None, default=0.0):
        a = np.empty(shape)
        for idx in np.ndindex(*a.shape):
            if where is not None and not where[idx]:
                a[idx] = default
            else:
                a[idx] = self.real("%s[%s]" % (name, ",".join(map(str, idx))), lo, hi)
        return a

    def nonlinear_mode(self, let_limit=0):
        pass

    def num(self, v):
        return float(v)

    def zeros(self, shape):
        return np.zeros(shape)

    def asarray(self, v):
        return np.array([float(x) for x in v])

    def bool(self, name):
        return bool(self.choices.get(name, False))

    def choice(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        return opts[self.choices.get(name, 0)]

    def integer(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def floor(self, a):
        return math.floor(a)

    def assume(self, c):
        if not c:
            raise ReplayMismatch("assumption does not hold on the concrete input")

    def close(self, a, b):
        a = float(a); b = float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * max(self.scale, abs(a), abs(b))

    def eq(self, a, b, msg):
        self.n += 1
        if not self.close(a, b):
            self.failures.append("%s: %r != %r" % (msg, float(a), float(b)))

    def eq_arrays(self, a, b, msg, where=None):
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            self.failures.append("%s: shape %s vs %s" % (msg, a.shape, b.shape))
            return
        for idx in np.ndindex(*a.shape):
            if where is None or where[idx]:
                self.eq(a[idx], b[idx], "%s%s" % (msg, list(idx)))

    def ok(self, c, msg):
        self.n += 1
        if not c:
            self.failures.append(msg)

    def le(self, a, b, msg):
        """a <= b up to rounding"""
        self.n += 1
        if not (a <= b or self.close(a, b)):
            self.failures.append("%s: %r > %r" % (msg, float(a), float(b)))

    def fail(self, msg):
        self.failures.append(msg)

    def sqrt(self, a):
        return math.sqrt(a)

    def func(self, f, a):
        return getattr(math, f)(a)

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        self._undo.append((obj, name, old))

    def sym_patch(self, obj, name, value):
        """replacement only needed to run symbolically"""

    def undo(self):
        while self._undo:
            o, n, v = self._undo.pop()
            setattr(o, n, v)

    def run_ranks(self, n, body, **kw):
        if n == 1 and self.comm is None:
            from mpi4py import MPI
            return [body(MPI.COMM_WORLD)]
        if self.comm is None or self.comm.Get_size() != n:
            raise ReplayMismatch("needs %d ranks" % n)
        try:
            r = (True, body(self.comm))
        except Exception as e:
            import traceback
            r = (False, "%s: %s" % (type(e).__name__, e))
            traceback.print_exc()
        out = self.comm.allgather(r)
        bad = [x[1] for x in out if not x[0]]
        if bad:
            raise RuntimeError(bad[0])
        return [x[1] for x in out]
