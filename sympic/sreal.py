"""Symbolic real numbers for the executor.

An R is a multivariate polynomial with exact rational coefficients over atoms.
Atoms are inputs of the run or auxiliary unknowns with a defining constraint
(inverse, square root, uninterpreted function).  Comparisons give a B, whose
truth value is decided by the current path explorer (ctx()).
"""
from fractions import Fraction
import math
import numbers
import numpy as np

_ctx = None


def ctx():
    if _ctx is None:
        raise RuntimeError("symbolic value used outside a run")
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


_frcache = {}
_C = Fraction(299792458)
NICE = {}
for _k in (_C ** 2, 1 / _C, 1 / _C ** 2, _C ** 3, _C ** 4):
    NICE[float(_k)] = _k
    NICE[-float(_k)] = -_k
NICE[299792458.0 ** 2] = _C ** 2
NICE[1 / 299792458.0 ** 2] = 1 / _C ** 2


def fr(x):
    """Real number denoted by a floating point constant: the simplest rational
    (denominator <= 4096) that rounds to it, else its exact binary value."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return Fraction(int(x))
    x = float(x)
    r = _frcache.get(x)
    if r is None:
        f = Fraction(x)
        if x in NICE:
            r = NICE[x]
        elif f.denominator == 1:
            r = f
        else:
            g = f.limit_denominator(4096)
            r = g if float(g) == x else f
        if len(_frcache) < 200000:
            _frcache[x] = r
    return r


NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def coerce(o):
    """-> polynomial dict, or None when not a finite real"""
    if isinstance(o, R):
        return o.p
    if isinstance(o, Fraction):
        return {(): o} if o else {}
    if isinstance(o, (int, np.integer, np.bool_)):
        return {(): Fraction(int(o))} if o else {}
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if o != o or o in (math.inf, -math.inf):
            return None
        return {(): fr(o)} if o else {}
    return NotImplemented


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else -c
        else:
            v = v + c if s == 1 else v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pmul(a, b):
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    return r


def pconst(a):
    """value if constant else None"""
    if not a:
        return Fraction(0)
    if len(a) == 1 and () in a:
        return a[()]
    return None


_track = False      # keep signs and sums of squares (set by SymCtx.nonlinear_mode)


def set_track(v):
    global _track
    _track = v


def sinfo(x):
    """(sign, squares): sign 2 positive, 1 non-negative, 0 unknown;
    squares: x is the sum of their squares plus something non-negative"""
    if isinstance(x, R):
        if x.s or x.q:
            return x.s, x.q
        c = pconst(x.p)
        if c is None:
            return 0, None
    else:
        c = x
    return (2, ()) if c > 0 else ((1, ()) if c == 0 else (0, None))


def isinf_(o):
    return isinstance(o, (float, np.floating)) and math.isinf(o)


class R:
    __slots__ = ("p", "s", "q")

    def __init__(self, p, s=0, q=None):
        self.p = p
        self.s = s
        self.q = q

    # -- construction
    @staticmethod
    def const(v):
        v = fr(v)
        return R({(): v} if v else {})

    def is_const(self):
        return pconst(self.p) is not None

    def value(self):
        return pconst(self.p)

    # -- arithmetic
    def _bin(self, o, f):
        q = coerce(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return math.nan
        if _track:
            return self._tracked(o, q, f)
        return R(f(self.p, q))

    def _tracked(self, o, q, f):
        r = f(self.p, q)
        s, sq = 0, None
        if f is pmul:
            lim = ctx().let_limit
            if lim and len(self.p) > 1 and len(q) > 1 and len(self.p) * len(q) > 4 * lim and (len(self.p) > 8 or len(q) > 8):
                same = q == self.p
                a = ctx().let(self.p) if len(self.p) > 8 else self.p
                q = a if same else ctx().let(q) if len(q) > 8 else q
                return R(a, self.s, self.q)._tracked(R(q, o.s, o.q), q, f)
            if q == self.p:
                s, sq = max(1, sinfo(self)[0]), (self.p,)
            else:
                sa, qa = sinfo(self)
                sb, qb = sinfo(o)
                if sa and sb:
                    s = min(sa, sb)
            lim = ctx().let_limit
            if lim and len(r) > lim:
                r = ctx().let(r)
        elif f is padd:
            sa, qa = sinfo(self)
            sb, qb = sinfo(o)
            if sa and sb:
                s = max(sa, sb)
                if qa is not None and qb is not None:
                    sq = qa + qb
                elif qa or qb:
                    sq = qa or qb
        return R(r, s, sq)

    def __add__(self, o):
        if isinf_(o):
            return o
        return self._bin(o, padd)
    __radd__ = __add__

    def __sub__(self, o):
        if isinf_(o):
            return -o
        return self._bin(o, lambda a, b: padd(a, b, -1))

    def __rsub__(self, o):
        if isinf_(o):
            return o
        return self._bin(o, lambda a, b: padd(b, a, -1))

    def __mul__(self, o):
        if isinf_(o):
            return o if self > 0 else -o if self < 0 else math.nan
        return self._bin(o, pmul)
    __rmul__ = __mul__

    def __neg__(self):
        return R({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __truediv__(self, o):
        q = coerce(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return R({}) if isinstance(o, (float, np.floating)) and math.isinf(o) else math.nan
        return rdiv(self, R(q))

    def __rtruediv__(self, o):
        q = coerce(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return math.nan
        return rdiv(R(q), self)

    def __pow__(self, e):
        if isinstance(e, R):
            e = e.value()
            if e is None:
                raise NotImplementedError("symbolic exponent")
        e = fr(e)
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return rdiv(R.const(1), self ** (-n))
            if _track and n % 2 == 0 and n > 2:
                h = self ** (n // 2)
                return h * h
            r = R.const(1)
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e == Fraction(1, 2):
            return self.sqrt()
        if e == Fraction(-1, 2):
            return rdiv(R.const(1), self.sqrt())
        near = e.limit_denominator(12)
        if abs(float(e - near)) < 1e-13 and near.denominator > 1:
            # x^(n/k) = (k-th root of x)^n
            return ctx().root(self, near.denominator) ** near.numerator
        return ctx().func("pow_%s" % e, self)

    def __rpow__(self, o):
        c = self.value()
        if c is None:
            raise NotImplementedError("symbolic exponent")
        return R.const(o) ** c

    def __mod__(self, o):
        o = o if isinstance(o, R) else R.const(o)
        return self - o * ctx().floor(self / o)

    def __rmod__(self, o):
        return R.const(o) % self

    def __floordiv__(self, o):
        return R.const(ctx().floor(self / o))

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    # -- comparison
    def _cmp(self, o, op):
        q = coerce(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            if math.isnan(o):
                return op == "!="
            if op in ("<", "<="):
                return o > 0
            if op in (">", ">="):
                return o < 0
            return op == "!="
        if _track and self.s and not q:
            if self.s == 2 or op in ("<", ">="):
                return op in (">", ">=", "!=")
        return cmp(padd(self.p, q, -1), op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(frozenset(self.p.items()))

    def __bool__(self):
        return bool(self != 0)

    # -- functions (numpy object ufuncs call these)
    def sqrt(self):
        return ctx().sqrt(self)

    def exp(self):
        return ctx().func("exp", self)

    def log(self):
        return ctx().func("log", self)

    def log10(self):
        return ctx().func("log10", self)

    def cos(self):
        return ctx().func("cos", self)

    def sin(self):
        return ctx().func("sin", self)

    def __floor__(self):
        return ctx().floor(self)

    def floor(self):
        return R.const(ctx().floor(self))

    def __ceil__(self):
        return -ctx().floor(-self)

    def __trunc__(self):
        if self >= 0:
            return ctx().floor(self)
        return -ctx().floor(-self)

    def __int__(self):
        return self.__trunc__()

    def __float__(self):
        v = self.value()
        if v is None:
            raise TypeError("symbolic real used as a concrete float")
        return float(v)

    def __round__(self, n=None):
        if n is not None:
            raise NotImplementedError("round of symbolic real to digits")
        h = self + Fraction(1, 2)
        k = ctx().floor(h)
        return k - 1 if k % 2 and h == k else k

    def conjugate(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (R, (self.p,))

    def __repr__(self):
        if self.is_const():
            return "R(%s)" % self.value()
        return "R<%s>" % show(self.p)

    def size_(self):
        return len(self.p)


numbers.Real.register(R)


def show(p, limit=6):
    out = []
    for m, c in list(p.items())[:limit]:
        names = "*".join(ctx().name(v) if _ctx is not None else "v%d" % v for v in m)
        out.append("%s%s" % (c if (c != 1 or not m) else "", ("*" if c != 1 and m else "") + names))
    if len(p) > limit:
        out.append("...(%d terms)" % len(p))
    return " + ".join(out) if out else "0"


def rdiv(a, b):
    c = pconst(b.p)
    if c is not None:
        if c == 0:
            v = pconst(a.p)
            if v is not None and v != 0:
                return math.inf if v > 0 else -math.inf
            if v is None:
                if a > 0:
                    return math.inf
                if a < 0:
                    return -math.inf
            return math.nan
        if _track:
            return a * R.const(1 / c)
        return R(pscale(a.p, 1 / c))
    if a.p and a.p == b.p:
        if b == 0:
            return math.nan
        return R.const(1)
    # exact quotient by a single term
    if len(b.p) == 1:
        (mb, cb), = b.p.items()
        r = {}
        for m, c in a.p.items():
            rest = list(m)
            ok = True
            for v in mb:
                if v in rest:
                    rest.remove(v)
                else:
                    ok = False
                    break
            if not ok:
                r = None
                break
            r[tuple(rest)] = c / cb
        if r is not None:
            if b == 0:
                return math.nan
            return R(r, min(a.s, b.s))
    inv = ctx().inverse(b)
    if inv is None:     # zero denominator on this path
        if a > 0:
            return math.inf
        if a < 0:
            return -math.inf
        return math.nan
    return a * inv


_OPS = {"<": lambda v: v < 0, "<=": lambda v: v <= 0, ">": lambda v: v > 0,
        ">=": lambda v: v >= 0, "==": lambda v: v == 0, "!=": lambda v: v != 0}
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def cmp(p, op):
    """p op 0"""
    c = pconst(p)
    if c is not None:
        return _OPS[op](c)
    # canonical form: '<' and '<=' and '==' only, sign-normalised
    neg = False
    if op == ">":
        p = pscale(p, Fraction(-1)); op = "<"
    elif op == ">=":
        p = pscale(p, Fraction(-1)); op = "<="
    elif op == "!=":
        op = "=="; neg = True
    b = B("atom", (p, op))
    return ~b if neg else b


class B:
    """Symbolic condition"""
    __slots__ = ("k", "a")

    def __init__(self, k, a):
        self.k = k
        self.a = a

    def __bool__(self):
        return ctx().branch(self)

    def __invert__(self):
        if self.k == "not":
            return self.a
        if self.k == "atom" and self.a[1] != "==":
            p, op = self.a
            return B("atom", (pscale(p, Fraction(-1)), "<=" if op == "<" else "<"))
        return B("not", self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return B("and", (self, o))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return B("or", (self, o))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        return (self & ~o) | (~self & o)

    def key(self):
        if self.k == "atom":
            return (self.a[1], frozenset(self.a[0].items()))
        if self.k == "not":
            return ("not", self.a.key())
        if self.k == "var":
            return ("var", self.a)
        return (self.k,) + tuple(x.key() for x in self.a)

    def __repr__(self):
        if self.k == "atom":
            return "(%s %s 0)" % (show(self.a[0]), self.a[1])
        return "B[%s %r]" % (self.k, self.a)


def and_(*cs):
    r = True
    for c in cs:
        if isinstance(c, B):
            r = c if r is True else (r if r is False else r & c)
        elif not c:
            return False
    return r


def or_(*cs):
    r = False
    for c in cs:
        if isinstance(c, B):
            r = c if r is False else (r if r is True else r | c)
        elif c:
            return True
    return r
