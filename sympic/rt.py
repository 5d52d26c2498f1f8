"""Run-time of the lowered C: memory model, arithmetic helpers, and the
environment models (CPython API, libc, libm, OpenMP).  MPI lives in vm.py."""
import math
from fractions import Fraction
import numpy as np

from . import sreal, ir
from .sreal import R, B, fr
from .explore import Violation
from .ir import IRError


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"

    def _bad(self, *a):
        raise Violation("uninitialised or in-flight value used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __int__ = __float__ = __floor__ = __trunc__ = __index__ = _bad

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self


UNDEF = _Undef()

# access recorder for the data-race analysis: callable(obj, off, size, write) or None
class _Rec:
    fn = None


REC = _Rec()
SIZE = {"d": 8, "p": 8, "8": 8, "4": 4, "2": 2, "1": 1}


class Ptr:
    __slots__ = ("o", "f")

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __bool__(self):
        return self.o is not NULLOBJ

    def __repr__(self):
        return "Ptr(%r+%d)" % (self.o, self.f)


class NullObj:
    def load(self, off, k):
        raise Violation("null pointer dereference")

    def store(self, off, k, v):
        raise Violation("null pointer dereference")

    def __repr__(self):
        return "NULL"


NULLOBJ = NullObj()
NULL = Ptr(NULLOBJ, 0)


class Mem:
    """stack or heap block"""
    __slots__ = ("size", "cells", "fills", "name", "kind", "freed", "shared")

    def __init__(self, size, name="", kind="stack"):
        self.size = size
        self.cells = {}
        self.fills = []
        self.name = name
        self.kind = kind
        self.freed = False
        self.shared = kind != "stack"

    def __repr__(self):
        return "<%s %s[%d]>" % (self.kind, self.name, self.size)

    def chk(self, off, n, what):
        if self.freed:
            raise Violation("%s after free of %s" % (what, self.name))
        if off < 0 or off + n > self.size:
            raise Violation("out-of-bounds %s: offset %d size %d in %s" % (what, off, n, self))

    def load(self, off, k):
        n = SIZE[k]
        if self.freed or off < 0 or off + n > self.size:
            self.chk(off, n, "read")
        if REC.fn is not None:
            REC.fn(self, off, n, False)
        c = self.cells.get(off)
        if c is not None:
            if c[1] == k:
                return c[0]
            if SIZE[c[1]] == n:
                return conv(c[0], c[1], k)
            raise IRError("type-punned read in %s" % self)
        for a, b, byte in reversed(self.fills):
            if a <= off and off + n <= b:
                if byte == 0:
                    return NULL if k == "p" else 0
                if k in "1248":
                    v = int.from_bytes(bytes([byte]) * n, "little")
                    return v - (1 << 8 * n) if v >> (8 * n - 1) else v
                raise IRError("non-zero fill read as %s" % k)
        return UNDEF if k in "dp" else self.uninit(off)

    def uninit(self, off):
        raise Violation("read of uninitialised memory %s offset %d" % (self, off))

    def store(self, off, k, v):
        n = SIZE[k]
        if self.freed or off < 0 or off + n > self.size:
            self.chk(off, n, "write")
        if REC.fn is not None:
            REC.fn(self, off, n, True)
        self.cells[off] = (v, k)

    def fill(self, off, n, byte):
        self.chk(off, n, "write") if n else None
        if REC.fn is not None and n:
            REC.fn(self, off, n, True)
        for o in [o for o in self.cells if off <= o < off + n]:
            del self.cells[o]
        self.fills.append((off, off + n, byte))


def conv(v, a, b):
    if v is UNDEF:
        return v
    if a == "p" and v is NULL and b == "8":
        return 0
    if a == "8" and b == "p" and v == 0:
        return NULL
    if b == "d" and a == "8" and v == 0:
        return 0
    if b == "8" and a == "d" and isinstance(v, int) and v == 0:
        return 0
    raise IRError("type-punned access %s as %s" % (a, b))


class NumpyMem:
    """data buffer of a numpy array; object arrays stand for float64 arrays"""
    __slots__ = ("arr", "flat", "isz", "size", "name", "kind", "freed", "dt", "base", "shared", "ov")

    def __init__(self, arr, name=""):
        if not arr.flags.c_contiguous:
            raise Violation("C code takes the data pointer of a non-contiguous array")
        self.arr = arr
        self.flat = arr.reshape(-1)
        self.isz = arr.itemsize
        self.size = arr.size * arr.itemsize
        self.name = name
        self.dt = arr.dtype.kind
        self.freed = False
        self.kind = "array"
        self.shared = True
        self.ov = None

    # float64 scratch buffers may hold symbolic values or other types for the
    # duration of one call; the array itself then holds NaN at those places
    def over_load(self, off, k, n):
        if off < 0 or off + n > self.size:
            self.idx(off, self.isz, "read")
        for o in range(off - 7, off + n):
            c = self.ov.get(o) if self.ov else None
            if c is not None and o + SIZE[c[1]] > off:
                if o != off or SIZE[c[1]] != n:
                    raise IRError("mixed-size read in %s" % self)
                return c[0] if c[1] == k else conv(c[0], c[1], k)
        if n == 8 and off % 8 == 0:
            if k != "d":
                raise Violation("double array read as integer")
            return fl(self.flat[off // 8])
        return int.from_bytes(self.flat.tobytes()[off:off + n], "little", signed=True)

    def over_store(self, off, k, n, v):
        if off < 0 or off + n > self.size:
            self.idx(off, self.isz, "write")
        if self.ov is None:
            self.ov = {}
        for o in range(off - 7, off + n):
            c = self.ov.get(o)
            if c is not None and o + SIZE[c[1]] > off:
                if o < off or o + SIZE[c[1]] > off + n:
                    raise IRError("mixed-size write in %s" % self)
                del self.ov[o]
        if k == "d" and off % 8 == 0 and not (isinstance(v, R) and not v.is_const()) and v is not UNDEF:
            self.flat[off // 8] = float(v)
            return
        self.ov[off] = (v, k)
        for i in range(off // 8, (off + n - 1) // 8 + 1):
            self.flat[i] = math.nan

    def __repr__(self):
        return "<array %s%s>" % (self.name, self.arr.shape)

    def idx(self, off, n, what):
        if off < 0 or off + n > self.size:
            raise Violation("out-of-bounds %s: offset %d of %s (%d bytes)" % (what, off, self, self.size))
        if n != self.isz or off % n:
            raise Violation("misaligned or wrongly sized %s of %s" % (what, self))
        return off // n

    def load(self, off, k):
        n = SIZE[k]
        i = off // n
        if self.dt == "f" and (self.ov is not None or n != 8):
            if REC.fn is not None:
                REC.fn(self, off, n, False)
            return self.over_load(off, k, n)
        if off < 0 or off + n > self.size or n != self.isz or off % n:
            i = self.idx(off, n, "read")
        if REC.fn is not None:
            REC.fn(self, off, n, False)
        v = self.flat[i]
        d = self.dt
        if d == "O":
            if k != "d":
                return conv_obj(v, k)
            return v
        if d in "iu":
            if k == "d":
                raise Violation("integer array %s read as double" % self)
            return int(v)
        if d == "b":
            return int(v)
        if d == "f":
            if k != "d":
                raise Violation("double array read as integer")
            return fl(v)
        raise IRError("array dtype %s" % self.arr.dtype)

    def store(self, off, k, v):
        n = SIZE[k]
        i = off // n
        if self.dt == "f" and (self.ov is not None or n != 8 or (isinstance(v, R) and not v.is_const())):
            if REC.fn is not None:
                REC.fn(self, off, n, True)
            return self.over_store(off, k, n, v)
        if off < 0 or off + n > self.size or n != self.isz or off % n:
            i = self.idx(off, n, "write")
        if REC.fn is not None:
            REC.fn(self, off, n, True)
        d = self.dt
        if d == "O":
            self.flat[i] = v
        elif d in "iu":
            if k == "d":
                raise Violation("double written to integer array %s" % self)
            self.flat[i] = v
        elif d == "b":
            self.flat[i] = bool(v & 1)
        elif d == "f":
            if isinstance(v, R) and not v.is_const():
                raise IRError("symbolic value stored to float64 array")
            self.flat[i] = float(v)
        else:
            raise IRError("array dtype %s" % self.arr.dtype)

    def fill(self, off, n, byte):
        if n == 0:
            return
        if off < 0 or off + n > self.size:
            raise Violation("out-of-bounds memset: offset %d length %d of %s" % (off, n, self))
        if off % self.isz or n % self.isz:
            raise Violation("memset of partial elements")
        if REC.fn is not None:
            REC.fn(self, off, n, True)
        a = off // self.isz; b = (off + n) // self.isz
        if self.ov:
            for o in [o for o in self.ov if off <= o < off + n]:
                del self.ov[o]
        if byte == 0:
            self.flat[a:b] = 0
        elif self.dt == "O" :
            raise IRError("non-zero memset of doubles")
        elif self.dt == "b":
            self.flat[a:b] = bool(byte & 1)
        else:
            self.flat[a:b] = int.from_bytes(bytes([byte & 255]) * self.isz, "little", signed=True)


def conv_obj(v, k):
    if k == "8" and isinstance(v, Bits):
        return v
    raise IRError("double array accessed as integer")


class Bits:
    """an integer payload carried in a double slot (bit cast)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def fl(v):
    v = float(v)
    if v != v or v in (math.inf, -math.inf):
        return v
    q = fr(v)
    return int(q) if q.denominator == 1 else q


class PyObj:
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def load(self, off, k):
        raise Violation("C code dereferences a Python object directly")
    store = load

    def __repr__(self):
        return "<py %s>" % type(self.obj).__name__


class FuncObj:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def load(self, off, k):
        raise Violation("read of function memory")
    store = load


def py(o):
    return Ptr(PyObj(o), 0)


def unpy(p):
    if p is NULL or p.o is NULLOBJ:
        raise Violation("NULL used as a Python object")
    if not isinstance(p.o, PyObj):
        raise Violation("non-object pointer used as a Python object")
    return p.o.obj


# ---------------------------------------------------------------- helpers used by generated code
def P_add(p, k):
    return Ptr(p.o, p.f + k)


def p_eq(a, b):
    if isinstance(a, int):
        a = NULL if a == 0 else a
    if a is UNDEF or b is UNDEF:
        raise Violation("uninitialised pointer compared")
    if a.o is b.o:
        return a.f == b.f
    if isinstance(a.o, PyObj) and isinstance(b.o, PyObj):
        return a.o.obj is b.o.obj
    if isinstance(a.o, FuncObj) and isinstance(b.o, FuncObj):
        return a.o.name == b.o.name
    if isinstance(a.o, NumpyMem) and isinstance(b.o, NumpyMem):
        return a.f == b.f and a.o.arr.__array_interface__["data"] == b.o.arr.__array_interface__["data"]
    return False


def p_cmp(pr, a, b):
    if a.o is not b.o:
        raise IRError("ordering of unrelated pointers")
    return {"ult": a.f < b.f, "ule": a.f <= b.f, "ugt": a.f > b.f, "uge": a.f >= b.f,
            "slt": a.f < b.f, "sle": a.f <= b.f, "sgt": a.f > b.f, "sge": a.f >= b.f}[pr]


_base = {}


def ptrtoint(p):
    if p.o is NULLOBJ:
        return p.f
    k = id(p.o)
    if k not in _base:
        _base[k] = ((len(_base) + 1) << 32, p.o)
    return _base[k][0] + p.f


def inttoptr(x):
    if x == 0:
        return NULL
    for b, o in _base.values():
        if b <= x < b + (1 << 32):
            return Ptr(o, x - b)
    raise Violation("integer used as pointer")


def overflow(fn):
    raise Violation("signed integer overflow in " + fn)


def wrap64(x):
    if -0x8000000000000000 <= x <= 0x7fffffffffffffff:
        return x
    x &= 0xffffffffffffffff
    return x - (1 << 64) if x >> 63 else x


def wrap32(x):
    if -0x80000000 <= x <= 0x7fffffff:
        return x
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def wrap16(x):
    x &= 0xffff
    return x - (1 << 16) if x >> 15 else x


def wrap8(x):
    x &= 0xff
    return x - 256 if x >> 7 else x


def sdiv(a, b):
    if b == 0:
        raise Violation("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    return a - b * sdiv(a, b)


def udiv(a, b):
    if b == 0:
        raise Violation("integer division by zero")
    return a // b


def urem(a, b):
    if b == 0:
        raise Violation("integer division by zero")
    return a % b


def b_not(x):
    return ~x if isinstance(x, B) else not x


def b_and(x, y):
    if isinstance(x, B) or isinstance(y, B):
        return x & y if isinstance(x, B) else (y if x else False)
    return bool(x) and bool(y)


def b_or(x, y):
    if isinstance(x, B) or isinstance(y, B):
        return x | y if isinstance(x, B) else (True if x else y)
    return bool(x) or bool(y)


def b_xor(x, y):
    if isinstance(x, B):
        return x ^ y
    if isinstance(y, B):
        return y ^ bool(x)
    return bool(x) != bool(y)


def b_select(c, x, y):
    """short-circuit logic: keep it lazy"""
    if not isinstance(c, B):
        return x if c else y
    if not isinstance(y, B) and not isinstance(x, B):
        if x and not y:
            return c
        if y and not x:
            return ~c
        return bool(x)
    if not isinstance(y, B) and not y:
        return c & x
    if not isinstance(x, B) and x:
        return c | y
    return x if c else y


def fdiv(a, b):
    if isinstance(a, R) or isinstance(b, R):
        return a / b
    if a is UNDEF or b is UNDEF:
        UNDEF._bad()
    if isinstance(b, float) or isinstance(a, float):
        try:
            return float(a) / float(b)
        except ZeroDivisionError:
            return math.nan if (a == 0 or a != a) else math.inf * (1 if a > 0 else -1)
    if b == 0:
        return math.nan if a == 0 else (math.inf if a > 0 else -math.inf)
    return Fraction(a) / Fraction(b)


def frem(a, b):
    if isinstance(a, R) or isinstance(b, R):
        a = a if isinstance(a, R) else R.const(a)
        q = a / b
        return a - b * q.__trunc__()
    a = Fraction(a); b = Fraction(b)
    return a - b * math.trunc(a / b)


def isnan(x):
    return isinstance(x, float) and x != x


def fcmp(pr, x, y):
    if x is UNDEF or y is UNDEF:
        UNDEF._bad()
    if isnan(x) or isnan(y):
        return pr[0] == "u"
    if pr in ("uno",):
        return False
    if pr == "ord":
        return True
    o = pr[1:]
    if o == "eq":
        return x == y
    if o == "ne":
        return x != y
    if o == "lt":
        return x < y
    if o == "le":
        return x <= y
    if o == "gt":
        return x > y
    return x >= y


def fptosi(x, n):
    if x is UNDEF:
        UNDEF._bad()
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        raise Violation("conversion of %r to integer" % x)
    v = math.trunc(x) if not isinstance(x, R) else x.__trunc__()
    if not -(1 << (n - 1)) <= v < (1 << (n - 1)):
        raise Violation("floating value out of integer range")
    return v


def byval_copy(p):
    m = Mem(p.o.size - p.f, "byval")
    copy(Ptr(m, 0), p, m.size)
    return Ptr(m, 0)


def zero_agg():
    raise IRError("zero aggregate")


def agg_set(t, k, v):
    t = list(t)
    t[k] = v
    return tuple(t)


def copy(d, s, n):
    if n == 0:
        return
    so, do = s.o, d.o
    if isinstance(so, NumpyMem) and isinstance(do, NumpyMem):
        if so.dt == do.dt and so.isz == do.isz and s.f % so.isz == 0 and d.f % so.isz == 0 and n % so.isz == 0:
            if s.f < 0 or s.f + n > so.size:
                raise Violation("out-of-bounds memcpy source %s" % so)
            if d.f < 0 or d.f + n > do.size:
                raise Violation("out-of-bounds memcpy destination %s" % do)
            if REC.fn is not None:
                REC.fn(so, s.f, n, False); REC.fn(do, d.f, n, True)
            z = so.isz
            do.flat[d.f // z:(d.f + n) // z] = so.flat[s.f // z:(s.f + n) // z].copy()
            return
    if isinstance(so, Mem):
        so.chk(s.f, n, "read")
        if isinstance(do, Mem):
            do.chk(d.f, n, "write")
            if REC.fn is not None:
                REC.fn(so, s.f, n, False); REC.fn(do, d.f, n, True)
            cells = [(o, c) for o, c in so.cells.items() if s.f <= o < s.f + n]
            fills = [(max(a, s.f), min(b, s.f + n), y) for a, b, y in so.fills if a < s.f + n and b > s.f]
            for o in [o for o in do.cells if d.f <= o < d.f + n]:
                del do.cells[o]
            for a, b, y in fills:
                do.fills.append((a - s.f + d.f, b - s.f + d.f, y))
            for o, c in cells:
                do.cells[o - s.f + d.f] = c
            return
    # element-wise
    z = so.isz if isinstance(so, NumpyMem) else (do.isz if isinstance(do, NumpyMem) else 8)
    if n % z:
        raise IRError("memcpy of partial elements")
    dt = so.dt if isinstance(so, NumpyMem) else do.dt
    k = "d" if dt in "Of" else str(z)
    for i in range(0, n, z):
        do.store(d.f + i, k, so.load(s.f + i, k))


def cstr(p):
    out = []
    i = p.f
    while True:
        c = p.o.load(i, "1") & 255
        if c == 0:
            return bytes(out).decode("utf8", "replace")
        out.append(c)
        i += 1


def mkstr(s):
    b = s.encode() + b"\0"
    m = Mem(len(b), "str", "const")
    for i, c in enumerate(b):
        m.cells[i] = (c if c < 128 else c - 256, "1")
    return Ptr(m, 0)


# ---------------------------------------------------------------- externals
X = {}


def ext(f):
    X[f.__name__] = f
    return f


class _XD(dict):
    def __missing__(self, k):
        def missing(M, *a):
            raise IRError("no model of external function " + k[2:])
        return missing


XD = _XD(X)


def setup(d):
    X.update(d)


@ext
def x_malloc(M, n):
    m = Mem(n, "malloc", "heap")
    M.heap.append(m)
    return Ptr(m, 0)


@ext
def x_calloc(M, a, b):
    m = Mem(a * b, "calloc", "heap")
    m.fills.append((0, a * b, 0))
    M.heap.append(m)
    return Ptr(m, 0)


@ext
def x_realloc(M, p, n):
    q = x_malloc(M, n)
    if p:
        copy(q, p, min(n, p.o.size))
        x_free(M, p)
    return q


@ext
def x_aligned_alloc(M, a, n):
    return x_malloc(M, n)


@ext
def x_posix_memalign(M, pp, a, n):
    pp.o.store(pp.f, "p", x_malloc(M, n))
    return 0


@ext
def x_free(M, p):
    if p is UNDEF:
        raise Violation("free of uninitialised pointer")
    if p.o is NULLOBJ:
        return
    if not isinstance(p.o, Mem) or p.o.kind != "heap" or p.f:
        raise Violation("free of a pointer not obtained from malloc: %r" % p)
    if p.o.freed:
        raise Violation("double free")
    p.o.freed = True


for _n in ("PyMem_Malloc", "PyMem_RawMalloc"):
    X["x_" + _n] = x_malloc
for _n in ("PyMem_Free", "PyMem_RawFree"):
    X["x_" + _n] = x_free


@ext
def x_llvm_memset(M, p, v, n, vol=0):
    if n:
        p.o.fill(p.f, n, v & 255)


@ext
def x_memset(M, p, v, n):
    if n:
        p.o.fill(p.f, n, v & 255)
    return p


@ext
def x_llvm_memcpy(M, d, s, n, vol=0):
    copy(d, s, n)


@ext
def x_llvm_memmove(M, d, s, n, vol=0):
    copy(d, s, n)


@ext
def x_memcpy(M, d, s, n):
    copy(d, s, n)
    return d


X["x_memmove"] = x_memcpy


@ext
def x_strcmp(M, a, b):
    a, b = cstr(a), cstr(b)
    return (a > b) - (a < b)


@ext
def x_strncmp(M, a, b, n):
    a, b = cstr(a)[:n], cstr(b)[:n]
    return (a > b) - (a < b)


@ext
def x_strlen(M, a):
    return len(cstr(a))


def x_printf(M, *a):
    return 0


for _n in ("printf", "fprintf", "puts", "fflush", "putchar", "perror"):
    X["x_" + _n] = x_printf


@ext
def x_abort(M):
    raise Violation("abort() called")


@ext
def x_exit(M, c):
    raise Violation("exit() called")


@ext
def x___assert_fail(M, e, f, l, fn):
    raise Violation("assertion failed: " + cstr(e))


@ext
def x_qsort(M, base, n, sz, cmpf):
    if not isinstance(base.o, Mem):
        raise IRError("qsort of array")
    items = []
    for i in range(n):
        m = Mem(sz, "qs")
        copy(Ptr(m, 0), Ptr(base.o, base.f + i * sz), sz)
        items.append(m)
    import functools
    items.sort(key=functools.cmp_to_key(lambda a, b: call_ptr(M, cmpf, Ptr(a, 0), Ptr(b, 0))))
    for i, m in enumerate(items):
        copy(Ptr(base.o, base.f + i * sz), Ptr(m, 0), sz)


# libm
def lift(x):
    return x if isinstance(x, R) else R.const(x)


def fm(name):
    def g(M, x):
        if x is UNDEF:
            UNDEF._bad()
        if isinstance(x, float):
            try:
                return getattr(math, name)(x)
            except ValueError:
                return math.nan
        return sreal.ctx().func(name, lift(x))
    return g


for _n in ("exp", "log", "sin", "cos", "tan", "log10", "log2", "atan", "asin", "acos", "tanh", "cbrt", "exp2", "log1p", "expm1"):
    X["x_" + _n] = fm(_n)
    X["x_llvm_" + _n] = fm(_n)


@ext
def x_sqrt(M, x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else math.nan
    return sreal.ctx().sqrt(lift(x))


X["x_llvm_sqrt"] = x_sqrt


@ext
def x_floor(M, x):
    if isinstance(x, float):
        return x if x != x or math.isinf(x) else math.floor(x)
    return sreal.ctx().floor(x) if isinstance(x, R) else math.floor(x)


X["x_llvm_floor"] = x_floor


@ext
def x_ceil(M, x):
    return -x_floor(M, -x)


X["x_llvm_ceil"] = x_ceil


@ext
def x_trunc(M, x):
    if isinstance(x, float) and (x != x or math.isinf(x)):
        return x
    return x.__trunc__() if isinstance(x, R) else math.trunc(x)


X["x_llvm_trunc"] = x_trunc


@ext
def x_round(M, x):
    if x >= 0:
        return x_floor(M, x + Fraction(1, 2))
    return -x_floor(M, -x + Fraction(1, 2))


X["x_llvm_round"] = x_round
X["x_lround"] = X["x_llround"] = x_round


@ext
def x_rint(M, x):
    v = x_floor(M, x + Fraction(1, 2))
    if x + Fraction(1, 2) == v and v % 2:
        return v - 1
    return v


X["x_llvm_rint"] = X["x_llvm_nearbyint"] = X["x_nearbyint"] = x_rint


@ext
def x_fabs(M, x):
    if isnan(x):
        return x
    return x if x >= 0 else -x


X["x_llvm_fabs"] = x_fabs


@ext
def x_fmax(M, a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return a if a >= b else b


X["x_llvm_maxnum"] = X["x_llvm_smax"] = x_fmax


@ext
def x_fmin(M, a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return a if a <= b else b


X["x_llvm_minnum"] = X["x_llvm_smin"] = x_fmin
X["x_llvm_abs"] = lambda M, a, b=0: abs(a)
X["x_abs"] = X["x_labs"] = X["x_llabs"] = lambda M, a: abs(a)


@ext
def x_llvm_umax(M, a, b):
    return max(a, b) if a >= 0 and b >= 0 else (_ for _ in ()).throw(IRError("umax"))


@ext
def x_llvm_umin(M, a, b):
    return min(a, b) if a >= 0 and b >= 0 else (_ for _ in ()).throw(IRError("umin"))


@ext
def x_llvm_fmuladd(M, a, b, c):
    return a * b + c


X["x_llvm_fma"] = X["x_fma"] = x_llvm_fmuladd


@ext
def x_llvm_copysign(M, a, b):
    m = x_fabs(M, a)
    return m if b >= 0 else -m


X["x_copysign"] = x_llvm_copysign


@ext
def x_pow(M, a, b):
    return lift(a) ** b


X["x_llvm_pow"] = x_pow


@ext
def x_llvm_powi(M, a, b):
    return lift(a) ** b


@ext
def x_fmod(M, a, b):
    return frem(a, b)


@ext
def x_llvm_is_fpclass(M, x, mask):
    if isnan(x):
        return bool(mask & 3)
    if isinstance(x, float) and math.isinf(x):
        return bool(mask & (512 if x > 0 else 4))
    fin = mask & 0x1f8
    if fin == 0x1f8:
        return True
    if fin == 0:
        return False
    raise IRError("fpclass")


X["x_isnan"] = X["x___isnan"] = lambda M, x: int(isnan(x))


# ---------------------------------------------------------------- CPython API
class PyError(Exception):
    pass


def seterr(M, e):
    M.err = e


@ext
def x_PyArg_ParseTuple(M, args, fmt, *outs):
    a = unpy(args)
    f = cstr(fmt)
    f = f.split(":")[0].split(";")[0]
    k = 0
    outs = list(outs)
    n = 0
    opt = False
    j = 0
    while j < len(f):
        c = f[j]
        j += 1
        if c == "|":
            opt = True
            continue
        if k >= len(a):
            if opt:
                break
            seterr(M, TypeError("function missing argument %d" % k))
            return 0
        o = a[k]
        k += 1
        if c == "O":
            if j < len(f) and f[j] == "!":
                j += 1
                ty = outs.pop(0)
                dst = outs.pop(0)
                tn = getattr(ty.o, "name", "")
                if tn == "PyArray_Type" and not isinstance(o, np.ndarray):
                    seterr(M, TypeError("expected array"))
                    return 0
                if tn == "PyList_Type" and not isinstance(o, list):
                    seterr(M, TypeError("expected list"))
                    return 0
                dst.o.store(dst.f, "p", py(o))
            else:
                dst = outs.pop(0)
                dst.o.store(dst.f, "p", py(o))
        elif c in "ilnLhIkK":
            dst = outs.pop(0)
            if isinstance(o, R):
                raise Violation("real passed where the C function expects an integer")
            try:
                v = o.__index__()
            except AttributeError:
                seterr(M, TypeError("an integer is required, got %r" % (o,)))
                return 0
            bits = 32 if c in "iI" else (16 if c == "h" else 64)
            if not -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
                seterr(M, OverflowError("integer too large"))
                return 0
            dst.o.store(dst.f, {32: "4", 64: "8", 16: "2"}[bits], v)
        elif c == "p":
            dst = outs.pop(0)
            dst.o.store(dst.f, "4", int(bool(o)))
        elif c == "d":
            dst = outs.pop(0)
            dst.o.store(dst.f, "d", todouble(M, o))
        elif c == "s":
            dst = outs.pop(0)
            dst.o.store(dst.f, "p", mkstr(o))
        else:
            raise IRError("PyArg_ParseTuple format " + c)
    if k < len(a):
        seterr(M, TypeError("too many arguments"))
        return 0
    return 1


def todouble(M, o):
    if isinstance(o, (R, Fraction)):
        return o
    if isinstance(o, np.ndarray) and o.ndim == 0:
        o = o.item()
    if isinstance(o, (bool, int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return fl(o)
    if hasattr(o, "__float__"):
        return fl(float(o))
    seterr(M, TypeError("must be real number, not %s" % type(o).__name__))
    return -1


@ext
def x_PyFloat_AsDouble(M, p):
    return todouble(M, unpy(p))


@ext
def x_PyLong_AsLong(M, p):
    o = unpy(p)
    if isinstance(o, (R, float)):
        seterr(M, TypeError("'float' object cannot be interpreted as an integer"))
        return -1
    try:
        return o.__index__()
    except AttributeError:
        seterr(M, TypeError("an integer is required"))
        return -1


X["x_PyLong_AsLongLong"] = X["x_PyLong_AsSsize_t"] = x_PyLong_AsLong


@ext
def x_PyLong_FromLong(M, v):
    return py(v)


X["x_PyLong_FromLongLong"] = X["x_PyLong_FromSsize_t"] = x_PyLong_FromLong
X["x_PyFloat_FromDouble"] = x_PyLong_FromLong
X["x_PyBool_FromLong"] = lambda M, v: py(bool(v))


@ext
def x_PyObject_GetAttrString(M, p, s):
    try:
        return py(getattr(unpy(p), cstr(s)))
    except AttributeError as e:
        seterr(M, e)
        return NULL


@ext
def x_PyObject_GetAttr(M, p, s):
    try:
        return py(getattr(unpy(p), unpy(s)))
    except AttributeError as e:
        seterr(M, e)
        return NULL


@ext
def x_PyObject_HasAttrString(M, p, s):
    return int(hasattr(unpy(p), cstr(s)))


@ext
def x_PyObject_SetAttrString(M, p, s, v):
    setattr(unpy(p), cstr(s), unpy(v))
    return 0


@ext
def x_PyObject_IsTrue(M, p):
    return int(bool(unpy(p)))


def getitem(M, p, i, checked):
    l = unpy(p)
    if not isinstance(l, (list, tuple)):
        if hasattr(l, "__getitem__") and checked is None:
            return py(l[i])
        if checked:
            seterr(M, SystemError("bad argument to PyList_GetItem"))
            return NULL
        raise Violation("PyList_GET_ITEM on a non-list")
    if not 0 <= i < len(l):
        if checked:
            seterr(M, IndexError("list index out of range"))
            return NULL
        raise Violation("list item read out of range: %d of %d" % (i, len(l)))
    return py(l[i])


X["x_PyList_GetItem"] = lambda M, p, i: getitem(M, p, i, True)
X["x_SymPyList_GET_ITEM"] = lambda M, p, i: getitem(M, p, i, False)
X["x_PySequence_GetItem"] = lambda M, p, i: getitem(M, p, i, None)
X["x_PyTuple_GetItem"] = lambda M, p, i: getitem(M, p, i, True)
X["x_PyList_Size"] = X["x_PyTuple_Size"] = X["x_PySequence_Size"] = lambda M, p: len(unpy(p))
X["x_PyList_Check"] = lambda M, p: int(isinstance(unpy(p), list))


@ext
def x_PyList_New(M, n):
    return py([None] * n)


@ext
def x_PyList_SetItem(M, p, i, v):
    unpy(p)[i] = unpy(v)
    return 0


@ext
def x_PyList_Append(M, p, v):
    unpy(p).append(unpy(v))
    return 0


@ext
def x_PyTuple_Pack(M, n, *items):
    return py(tuple(unpy(i) for i in items[:n]))


@ext
def x_PyTuple_New(M, n):
    return py([None] * n)


X["x_PyTuple_SetItem"] = x_PyList_SetItem


@ext
def x_SymPy_incref(M, p):
    pass


@ext
def x_SymPy_decref(M, p):
    pass


@ext
def x_SymPy_gil(M, v):
    pass


@ext
def x_PyUnicode_CompareWithASCIIString(M, p, s):
    a, b = unpy(p), cstr(s)
    return (a > b) - (a < b)


@ext
def x_PyUnicode_AsUTF8(M, p):
    return mkstr(unpy(p))


@ext
def x_PyUnicode_FromString(M, s):
    return py(cstr(s))


class Capsule:
    def __init__(self, ptr, name):
        self.ptr = ptr
        self.name = name


@ext
def x_PyCapsule_New(M, p, name, d):
    return py(Capsule(p, cstr(name) if name else None))


@ext
def x_PyCapsule_GetPointer(M, p, name):
    c = unpy(p)
    if not isinstance(c, Capsule) or c.name != (cstr(name) if name else None):
        seterr(M, ValueError("PyCapsule_GetPointer called with incorrect name"))
        return NULL
    return c.ptr


@ext
def x_PyErr_SetString(M, t, s):
    cls = unpy(t) if isinstance(t.o, PyObj) else RuntimeError
    seterr(M, cls(cstr(s)))


@ext
def x_PyErr_Format(M, t, s, *a):
    cls = unpy(t) if isinstance(t.o, PyObj) else RuntimeError
    seterr(M, cls(cstr(s)))
    return NULL


@ext
def x_PyErr_Clear(M):
    M.err = None


@ext
def x_PyErr_NoMemory(M):
    seterr(M, MemoryError())
    return NULL


@ext
def x_PyErr_Occurred(M):
    return NULL if M.err is None else py(type(M.err))


@ext
def x_PyErr_Print(M):
    M.err = None


@ext
def x_SymArray_DATA(M, p):
    a = unpy(p)
    if not isinstance(a, np.ndarray):
        raise Violation("PyArray_DATA on %s" % type(a).__name__)
    return Ptr(M.numpymem(a), 0)


@ext
def x_SymArray_DIM(M, p, k):
    return unpy(p).shape[k]


@ext
def x_SymArray_DIMS(M, p):
    a = unpy(p)
    m = Mem(8 * a.ndim, "dims", "const")
    for i, n in enumerate(a.shape):
        m.cells[8 * i] = (n, "8")
    return Ptr(m, 0)


@ext
def x_SymArray_NDIM(M, p):
    return unpy(p).ndim


@ext
def x_SymArray_SIZE(M, p):
    return unpy(p).size


@ext
def x_PyArray_Check(M, p):
    return int(isinstance(unpy(p), np.ndarray))


NPT = {0: np.bool_, 1: np.int8, 3: np.int16, 5: np.int32, 7: np.int64, 9: np.int64, 12: object}


@ext
def x_SymArray_ZEROS(M, nd, dims, t, f):
    shape = tuple(dims.o.load(dims.f + 8 * i, "8") for i in range(nd))
    if any(s < 0 for s in shape):
        seterr(M, ValueError("negative dimensions are not allowed"))
        return NULL
    a = np.zeros(shape, NPT[t])
    return py(a)


@ext
def x_SymArray_EMPTY(M, nd, dims, t, f):
    shape = tuple(dims.o.load(dims.f + 8 * i, "8") for i in range(nd))
    a = np.zeros(shape, NPT[t])
    if a.dtype == object:
        a.fill(UNDEF)
    return py(a)


# ---------------------------------------------------------------- OpenMP (serial view)
X["x_omp_get_max_threads"] = lambda M: M.nthreads
X["x_omp_get_num_threads"] = lambda M: 1
X["x_omp_get_thread_num"] = lambda M: 0
X["x_omp_in_parallel"] = lambda M: 0
X["x_omp_set_num_threads"] = lambda M, n: None


def call_ptr(M, p, *args):
    if not isinstance(p.o, FuncObj):
        raise Violation("call through a bad function pointer")
    return M.module.ns["f_" + __import__("re").sub(r"\W", "_", p.o.name)](M, *args) if p.o.name in M.module.fns else XD["x_" + p.o.name](M, *args)


EXC = {"PyExc_ValueError": ValueError, "PyExc_RuntimeError": RuntimeError, "PyExc_TypeError": TypeError,
       "PyExc_MemoryError": MemoryError, "PyExc_IndexError": IndexError, "PyExc_KeyError": KeyError,
       "PyExc_AttributeError": AttributeError, "PyExc_Exception": Exception, "PyExc_OverflowError": OverflowError}


class NamedObj(Mem):
    __slots__ = ()


class Module:
    """a lowered C file, compiled to Python"""

    def __init__(self, path, name, openmp=False):
        text = ir.lower(path, openmp)
        self.path = path
        self.name = name
        m = ir.Module(text, name)
        self.m = m
        self.fns = m.fns
        code = m.build()
        ns = dict(Ptr=Ptr, P_add=P_add, NULL=NULL, UNDEF=UNDEF, p_eq=p_eq, p_cmp=p_cmp, wrap64=wrap64, wrap32=wrap32,
                  wrap16=wrap16, wrap8=wrap8, sdiv=sdiv, srem=srem, udiv=udiv, urem=urem, b_not=b_not, b_and=b_and,
                  b_or=b_or, b_xor=b_xor, b_select=b_select, fdiv=fdiv, frem=frem, fcmp=fcmp, fptosi=fptosi, X=XD,
                  IRError=IRError, Violation=Violation, overflow=overflow, call_ptr=call_ptr, byval_copy=byval_copy,
                  zero_agg=zero_agg, agg_set=agg_set, ptrtoint=ptrtoint, inttoptr=inttoptr)
        XD.update(X)
        ns.update(m.consts)
        exec(compile(code, "<lowered %s>" % name, "exec"), ns)
        self.ns = ns
        self.code = code
        self.counts = {}

    def methods(self):
        """python-visible functions, from the PyMethodDef tables"""
        inst = Instance(self)
        out = {}
        for nm, (t, init, const) in self.m.globals.items():
            tt = t
            if tt[0] == "a" and tt[2] == ("n", "%struct.PyMethodDef"):
                o = inst.g[nm].o
                for k in range(tt[1]):
                    p = o.load(32 * k, "p")
                    if p is NULL or p is UNDEF or not p:
                        break
                    out[cstr(p)] = o.load(32 * k + 8, "p").o.name
        return out


class Instance:
    """one process image of a module (globals), e.g. one MPI rank"""

    def __init__(self, module, rank=0, nthreads=2):
        self.module = module
        self.g = {}
        self.err = None
        self.heap = []
        self.nthreads = nthreads
        self.rank = rank
        self.mpi = None
        self._np = {}
        m = module.m
        for nm in list(m.fns) + list(m.decls):
            self.g[nm] = Ptr(FuncObj(nm), 0)
        for nm, (t, init, const) in m.globals.items():
            if nm == "SymPy_None":
                self.g[nm] = py(None)
            elif nm in ("SymPy_True", "SymPy_False"):
                self.g[nm] = py(nm == "SymPy_True")
            elif nm in EXC:
                mm = Mem(8, nm, "const"); mm.cells[0] = (py(EXC[nm]), "p")
                self.g[nm] = Ptr(mm, 0)
            else:
                self.g[nm] = Ptr(Mem(m.sizeof(t), nm, "global"), 0)
        for nm, (t, init, const) in m.globals.items():
            if init is not None:
                self.init(self.g[nm].o, 0, t, init)
        self.stack_cnt = 0

    def init(self, o, off, t, v):
        m = self.module.m
        rt = m.resolve(t)
        k = v[0]
        if k == "zero":
            o.fills.append((off, off + m.sizeof(t), 0))
        elif k == "undef":
            pass
        elif k == "str":
            for i, c in enumerate(v[1]):
                o.cells[off + i] = (c if c < 128 else c - 256, "1")
        elif k == "agg":
            for i, (et, ev) in enumerate(v[1]):
                t2, eo = m.elem(rt, i)
                self.init(o, off + eo, et, ev)
        elif k == "null":
            o.cells[off] = (NULL, "p")
        elif k == "g":
            o.cells[off] = (self.g[v[1]], "p")
        elif k == "gep":
            o.cells[off] = (P_add(self.g[v[1][1]], v[2]), "p")
        elif k == "c":
            if rt[0] == "d":
                o.cells[off] = (ir.const_num(v[1]), "d")
            else:
                o.cells[off] = (v[1], {1: "1", 8: "1", 16: "2", 32: "4", 64: "8"}[rt[1]])
        else:
            raise IRError("initialiser %r" % (v,))

    def alloca(self, n, name):
        return Mem(n, name, "stack")

    def count(self, fn):
        c = self.module.counts
        c[fn] = c.get(fn, 0) + 1

    def atomic(self, on):
        REC_atomic[0] += 1 if on else -1

    def numpymem(self, a):
        k = id(a)
        r = self._np.get(k)
        if r is None or r.arr is not a or r.flat.size != a.size:
            r = NumpyMem(a)
            self._np[k] = r
        return r

    def call(self, cname, *args):
        """call a METH_VARARGS C function"""
        self.err = None
        self.heap = []
        fn = self.module.ns["f_" + cname]
        r = fn(self, py(None), py(tuple(args)))
        self._np.clear()
        if r is UNDEF:
            raise Violation("uninitialised result")
        if not r:
            e = self.err
            if e is None:
                raise SystemError("%s returned NULL without setting an exception" % cname)
            self.err = None
            raise e
        if self.err is not None:
            e = self.err
            self.err = None
            raise SystemError("%s returned a result with an exception set: %r" % (cname, e))
        o = unpy(r)
        return o


REC_atomic = [0]
