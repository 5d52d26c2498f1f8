"""Path explorer: runs a scenario once per feasible path, with z3 deciding
feasibility of every branch and every obligation."""
from fractions import Fraction
import math
import os
import time
import numpy as np
import z3

from . import sreal
from .sreal import R, B, pmul, padd, pscale, pconst, fr


class Infeasible(Exception):
    """the current path's assumptions are unsatisfiable"""


class Violation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Inconclusive(Exception):
    pass


class Budget(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.branches = 0
        self.unknown = 0
        self.reach = 0
        self.norm = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)

    def asdict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(d["solver_s"], 3)
        return d


class SymCtx:
    """One path of a symbolic run."""
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000, deadline=None):
        self.prefix = prefix
        self.decisions = []      # list of (bool)
        self.pending = []        # alternative prefixes found on this path
        self.stats = stats
        self.timeout = timeout_ms
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.names = []
        self.z3vars = []
        self.byname = {}
        self.kind = []           # input / inv / sqrt / func
        self.defn = {}           # var -> ("inv", poly) | ("sqrt", poly) | ...
        self.cache = {}
        self.known = {}
        self.choices = {}        # name -> concrete choice on this path
        self.bools = {}
        self.obls = []           # (poly_l, poly_r, msg) | (B, msg)
        self.log = []
        self.nonlinear = False
        self._undo = []
        self.let_limit = 0
        self.psign = {}
        self.conds = []
        self.funcs = {}
        self.lin = None
        self._abs = False
        self.monos = {}
        self.squares = {}
        sreal.set_track(False)

    # ---------------------------------------------------------------- atoms
    def name(self, v):
        return self.names[v]

    def newvar(self, name, kind):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.z3vars.append(z3.Real(name))
        return i

    def nonlinear_mode(self, let_limit=0):
        """track signs and sums of squares; name products larger than let_limit"""
        sreal.set_track(True)
        self.let_limit = let_limit
        self.lin = z3.Solver()

    def let(self, p):
        """name of a large polynomial"""
        k = p[max(p)]
        p = pscale(p, 1 / k)
        key = ("let", frozenset(p.items()))
        v = self.cache.get(key)
        if v is None:
            v = self.newvar("let%d" % len(self.names), "let")
            self.defn[v] = ("let", p)
            self.cache[key] = v
            self.add(lambda: self.z3vars[v] == self.to_z3(p))
        return {(v,): k}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.byname:
            return R({(self.byname[name],): Fraction(1)}, self.psign.get(self.byname[name], 0))
        lo0 = lo
        i = self.newvar(name, "input")
        self.byname[name] = i
        r = R({(i,): Fraction(1)})
        z = self.z3vars[i]
        if lo is not None:
            lo = self._q(lo)
            self.add(lambda: z > lo if lo_open else z >= lo)
        if hi is not None:
            hi = self._q(hi)
            self.add(lambda: z < hi if hi_open else z <= hi)
        if lo0 is not None and not isinstance(lo0, R) and lo0 >= 0:
            r.s = self.psign[i] = 2 if lo_open or lo0 > 0 else 1
        return r

    def _q(self, v):
        if isinstance(v, R):
            return self.to_z3(v.p)
        f = fr(v)
        return z3.RealVal(str(f))

    def array(self, name, shape, lo=None, hi=None, where=None, default=0.0):
        """array of independent symbols (optionally only where mask is true)"""
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            if where is not None and not where[idx]:
                a[idx] = default
            else:
                a[idx] = self.real("%s[%s]" % (name, ",".join(map(str, idx))), lo, hi)
        return a

    def num(self, v):
        """exact constant"""
        return R.const(v)

    def zeros(self, shape):
        a = np.empty(shape, dtype=object)
        a.fill(R.const(0))
        return a

    def asarray(self, v):
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x if isinstance(x, R) else R.const(x)
        return a

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        self._undo.append((obj, name, old))

    sym_patch = patch

    def undo(self):
        while self._undo:
            o, n, v = self._undo.pop()
            setattr(o, n, v)

    def run_ranks(self, n, body, **kw):
        from . import vm
        return vm.run_ranks(n, body, **kw)

    def le(self, a, b, msg):
        self.ok(a <= b, msg)

    def inverse(self, b):
        c0 = self._lead(b.p)
        p = pscale(b.p, 1 / c0)
        key = ("inv", frozenset(p.items()))
        v = self.cache.get(key)
        if v is None:
            if b.s != 2 and R(p) == 0:
                return None
            v = self.newvar("inv%d" % len(self.names), "inv")
            self.defn[v] = ("inv", p)
            self.cache[key] = v
            self.add(lambda: self.to_z3(pmul(p, {(v,): Fraction(1)})) == 1)
            self.nonlinear = True
            if len(p) == 1:
                (m,), = [list(p)] if len(list(p)[0]) == 1 else [(None,)]
                d = self.defn.get(m[0]) if m else None
                if d is not None and d[0] == "sqrt" and b.s == 2 and c0 > 0:
                    # valid facts: |x| <= sqrt(x^2 + ...), hence |x / sqrt| <= 1
                    z = self.z3vars[v]
                    self.add(lambda: z > 0)
                    for sq in self.squares.get(m[0], ()):
                        self.unit_bound(pmul(sq, {(v,): Fraction(1)}))
                        while True:     # the same fact with the names expanded
                            ls = [x for mm in sq for x in mm if self.kind[x] == "let"]
                            if not ls or len(sq) * len(self.defn[max(ls)][1]) > 2000:
                                break
                            x = max(ls)
                            r = {}
                            for mm, cc in sq.items():
                                t = {tuple(y for y in mm if y != x): cc}
                                for _ in range(mm.count(x)):
                                    t = pmul(t, self.defn[x][1])
                                r = padd(r, t)
                            sq = r
                            self.unit_bound(pmul(sq, {(v,): Fraction(1)}))
        return R({(v,): 1 / c0}, 2 if b.s == 2 else 0)

    @staticmethod
    def _lead(p):
        m = max(p)
        return p[m]

    def sqrt(self, a):
        c = a.value()
        if c is not None:
            if c < 0:
                return math.nan
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R.const(Fraction(n, d))
        key = ("sqrt", frozenset(a.p.items()))
        v = self.cache.get(key)
        if v is None:
            if not a.s and a < 0:
                return math.nan
            v = self.newvar("sqrt%d" % len(self.names), "sqrt")
            self.defn[v] = ("sqrt", a.p)
            self.cache[key] = v
            z = self.z3vars[v]
            self.add(lambda: z3.And(z >= 0, self.to_z3({(v, v): Fraction(1)}) == self.to_z3(a.p)))
            self.nonlinear = True
            if a.q:
                self.squares[v] = a.q
        return R({(v,): Fraction(1)}, a.s)

    def root(self, a, k):
        """non-negative k-th root"""
        c = a.value()
        if c is not None and c in (0, 1):
            return a
        if k == 2:
            return a.sqrt()
        if c is not None and c < 0 or c is None and a < 0:
            return math.nan
        r = self._func("root%d" % k, a)
        (v,), = r.p
        key = ("rootdef", v)
        if key not in self.cache:
            self.cache[key] = 1
            z = self.z3vars[v]
            self.add(lambda: z3.And(z >= 0, (z == 0) == (self.to_z3(a.p) == 0), self.to_z3({(v,) * k: Fraction(1)}) == self.to_z3(a.p)))
            self.nonlinear = True
        return r

    def func(self, f, a):
        """uninterpreted real function; congruence by canonical argument"""
        if not isinstance(a, R):
            a = R.const(a)
        if f == "sin" or f == "cos":
            s = self._func("sin", a)
            c = self._func("cos", a)
            key = ("trig", frozenset(a.p.items()))
            if key not in self.cache:
                self.cache[key] = 1
                (vs,), (vc,) = next(iter(s.p)), next(iter(c.p))
                self.defn[max(vs, vc)] = ("trig", min(vs, vc))
                zs, zc = self.z3vars[vs], self.z3vars[vc]
                self.add(lambda: self.to_z3({(vs, vs): Fraction(1), (vc, vc): Fraction(1)}) == 1)
                self.nonlinear = True
            return s if f == "sin" else c
        return self._func(f, a)

    def _func(self, f, a):
        c = a.value()
        if c is not None and f in ("exp", "log", "log10") and not getattr(self, "keep_func", False):
            x = float(c)
            try:
                return R.const({"exp": math.exp, "log": math.log, "log10": math.log10}[f](x))
            except ValueError:
                return math.nan
        key = ("f", f, frozenset(a.p.items()))
        v = self.cache.get(key)
        if v is None:
            v = self.newvar("%s_%d" % (f, len(self.names)), "func")
            self.funcs[v] = (f, a.p)
            self.cache[key] = v
            if f == "exp":
                self.add(lambda: self.z3vars[v] > 0)
        return R({(v,): Fraction(1)})

    # ---------------------------------------------------------------- z3
    def add(self, f):
        """add a constraint, and its linear relaxation (products as unknowns)"""
        self.solver.add(f())
        if self.lin is not None:
            self._abs = True
            try:
                self.lin.add(f())
            finally:
                self._abs = False

    def unit_bound(self, p):
        self.add(lambda: z3.And(self.to_z3(p) <= 1, self.to_z3(p) >= -1))

    def to_lin(self, p):
        self._abs = True
        try:
            return self.to_z3(p)
        finally:
            self._abs = False

    def feasible(self, zc, lc):
        """z3.unsat when the branch is impossible.  On nonlinear paths the linear
        relaxation decides (more paths than real ones: sound for the obligations)."""
        if self.lin is None:
            return self.check(zc)
        t = time.perf_counter()
        r = self.lin.check(lc)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r

    def to_z3(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(z3.RealVal(str(c)))
                continue
            if self._abs and len(m) > 1:
                t = self.monos.get(m)
                if t is None:
                    t = self.monos[m] = z3.Real("m" + "_".join(map(str, m)))
                    if len(m) % 2 == 0 and m[::2] == m[1::2]:
                        self.lin.add(t >= 0)
                if c != 1:
                    t = z3.RealVal(str(c)) * t
                ts.append(t)
                continue
            t = self.z3vars[m[0]]
            for v in m[1:]:
                t = t * self.z3vars[v]
            if c != 1:
                t = z3.RealVal(str(c)) * t
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def cond(self, b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        if b.k == "atom":
            p, op = b.a
            e = self.to_z3(p)
            return e < 0 if op == "<" else (e <= 0 if op == "<=" else e == 0)
        if b.k == "not":
            return z3.Not(self.cond(b.a))
        if b.k == "var":
            return z3.Bool(b.a)
        if b.k == "and":
            return z3.And(*[self.cond(x) for x in b.a])
        if b.k == "or":
            return z3.Or(*[self.cond(x) for x in b.a])
        raise AssertionError(b.k)

    def check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    # ---------------------------------------------------------------- branching
    def branch(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        k = b.key()
        if k in self.known:
            return self.known[k]
        n = len(self.decisions)
        zc = self.cond(b)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.decisions.append(v)
        else:
            self.stats.branches += 1
            lc = None
            if self.lin is not None:
                self._abs = True
                lc = self.cond(b)
                self._abs = False
            t = self.feasible(zc, lc)
            f = self.feasible(z3.Not(zc), None if lc is None else z3.Not(lc)) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                v = False
            elif f == z3.unsat:
                v = True
            else:
                v = True
                self.pending.append(self.decisions + [False])
            self.decisions.append(v)
        self.add(lambda: self.cond(b) if v else z3.Not(self.cond(b)))
        self.known[k] = v
        self.known[(~b).key()] = not v
        if self.lin is not None:
            self.conds.append((b, v))
        return v

    def assume(self, b):
        """restrict inputs"""
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise Infeasible()
            return
        self.add(lambda: self.cond(b))
        if self.lin is not None:
            self.conds.append((b, True))
        self.known[b.key()] = True
        self.known[(~b).key()] = False

    def bool(self, name):
        """symbolic boolean, decided per path"""
        if name in self.choices:
            return self.choices[name]
        v = self.branch(B("var", name))
        self.choices[name] = bool(v)
        return bool(v)

    def choice(self, name, options):
        """symbolic selection among options (list or int n)"""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if name in self.choices:
            return opts[self.choices[name]]
        lo, hi = 0, len(opts)
        k = 0
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.branch(B("var", "%s<%d" % (name, mid))):
                hi = mid
            else:
                lo = mid
        k = lo
        self.choices[name] = k
        return opts[k]

    def integer(self, name, lo, hi):
        """symbolic integer in [lo, hi], concretised by path splitting on demand"""
        return self.choice(name, list(range(lo, hi + 1)))

    def floor(self, a):
        """floor as a concrete integer; splits the path per value"""
        if not isinstance(a, R):
            return math.floor(a)
        c = a.value()
        if c is not None:
            return math.floor(c)
        key = ("floor", frozenset(a.p.items()))
        if key in self.cache:
            return self.cache[key]
        z = self.to_z3(a.p)
        # follow the prefix: floor decisions are stored as integers
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.decisions.append(v)
        else:
            self.stats.branches += 1
            vals = []
            s = self.solver
            if self.lin is not None:
                s = self.lin
                z = self.to_lin(a.p)
            s.push()
            try:
                while True:
                    r = self.check() if s is self.solver else s.check()
                    if r == z3.unsat:
                        break
                    if r == z3.unknown:
                        raise Inconclusive("floor: solver unknown")
                    m = s.model()
                    q = m.eval(z, model_completion=True)
                    k = _floorval(q)
                    vals.append(k)
                    s.add(z3.Or(z < k, z >= k + 1))
                    if len(vals) > 200:
                        if os.environ.get("SYMPIC_DEBUG"):
                            print("floor of", sreal.show(a.p, 40), {self.names[v]: sreal.show(self.defn[v][1], 12) for m in a.p for v in m if v in self.defn})
                        raise Inconclusive("floor: too many values")
            finally:
                s.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            v = vals[0]
            for w in vals[1:]:
                self.pending.append(self.decisions + [w])
            self.decisions.append(v)
        self.add(lambda: z3.And(self.to_z3(a.p) >= v, self.to_z3(a.p) < v + 1))
        self.cache[key] = v
        if self.lin is not None:
            self.conds.append((B("atom", (pscale(padd(a.p, {(): Fraction(v)} if v else {}, -1), Fraction(-1)), "<=")), True))
            self.conds.append((B("atom", (padd(a.p, {(): Fraction(v + 1)} if v + 1 else {}, -1), "<")), True))
        return v

    # ---------------------------------------------------------------- obligations
    def eq(self, a, b, msg):
        """obligation a == b"""
        if _isnan(a) or _isnan(b):
            if _isnan(a) and _isnan(b):
                return
            self.obls.append((False, msg + " (nan: %r vs %r)" % (a, b)))
            return
        if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
            if not (isinstance(a, float) and isinstance(b, float) and a == b):
                self.obls.append((False, msg + " (inf: %r vs %r)" % (a, b)))
            return
        pa = a.p if isinstance(a, R) else coerce_p(a)
        pb = b.p if isinstance(b, R) else coerce_p(b)
        self.obls.append((pa, pb, msg))

    def eq_arrays(self, a, b, msg, where=None):
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            self.obls.append((False, "%s: shape %s vs %s" % (msg, a.shape, b.shape)))
            return
        for idx in np.ndindex(*a.shape):
            if where is None or where[idx]:
                self.eq(a[idx], b[idx], "%s%s" % (msg, list(idx)))

    def ok(self, c, msg):
        """obligation: condition holds"""
        if isinstance(c, (bool, np.bool_)):
            self.obls.append((bool(c), msg))
        else:
            self.obls.append((c, msg))

    def fail(self, msg):
        self.obls.append((False, msg))

    # ---------------------------------------------------------------- reduction
    def reduce(self, p, limit=200000):
        """rewrite with the defining equations of auxiliary atoms (sound:
        denominators are non-zero on the path). p == 0 iff result == 0."""
        for v in range(len(self.names) - 1, -1, -1):
            d = self.defn.get(v)
            if d is None or not any(v in m for m in p):
                continue
            if d[0] == "let":
                k = max(m.count(v) for m in p)
                pows = [{(): Fraction(1)}]
                for _ in range(k):
                    pows.append(pmul(pows[-1], d[1]))
                r = {}
                groups = {}
                for m, c in p.items():
                    groups.setdefault(m.count(v), {})[tuple(x for x in m if x != v)] = c
                for e, g in groups.items():
                    r = padd(r, pmul(g, pows[e]))
                p = r
            elif d[0] == "inv":
                den = d[1]
                k = max(m.count(v) for m in p)
                pows = [{(): Fraction(1)}]
                for _ in range(k):
                    pows.append(pmul(pows[-1], den))
                r = {}
                groups = {}
                for m, c in p.items():
                    e = m.count(v)
                    groups.setdefault(e, {})[tuple(x for x in m if x != v)] = c
                for e, g in groups.items():
                    r = padd(r, pmul(g, pows[k - e]))
                p = r
            elif d[0] in ("sqrt", "trig"):
                if d[0] == "sqrt":
                    rel = d[1]
                else:
                    rel = {(): Fraction(1), (d[1], d[1]): Fraction(-1)}
                pows = {0: {(): Fraction(1)}}
                r = {}
                groups = {}
                for m, c in p.items():
                    e = m.count(v)
                    rest = tuple(x for x in m if x != v)
                    if e % 2:
                        rest = tuple(sorted(rest + (v,)))
                    groups.setdefault(e // 2, {})[rest] = c
                for e, g in groups.items():
                    if e:
                        q = {(): Fraction(1)}
                        for _ in range(e):
                            q = pmul(q, rel)
                        g = pmul(g, q)
                    r = padd(r, g)
                p = r
            if len(p) > limit:
                raise Inconclusive("reduction too large")
        return p

    def discharge(self):
        """-> None or (message, model values)"""
        bad = []
        raw = 0
        for o in self.obls:
            self.stats.obligations += 1
            if len(o) == 2:
                c, msg = o
                if isinstance(c, bool):
                    if not c:
                        return msg, self._values(None)
                    continue
                bad.append((z3.Not(self.cond(c)), msg, None))
            else:
                pa, pb, msg = o
                d = padd(pa, pb, -1)
                if not d:
                    if raw < 4000 and self.lin is None and not self.nonlinear:
                        # let the solver confirm the normal form on the raw pair
                        raw += len(pa) + len(pb)
                        bad.append((self.to_z3(pa) != self.to_z3(pb), msg, d))
                    else:
                        self.stats.norm += 1
                    continue
                try:
                    d2 = self.reduce(d) if self.defn else d
                except Inconclusive as x:
                    if os.environ.get("SYMPIC_DEBUG"):
                        print("reduction of", msg, len(pa), len(pb), ":", sreal.show(d, 40), {self.names[v]: sreal.show(self.defn[v][1], 6) for m in d for v in m if v in self.defn})
                    raise Inconclusive("%s: %s" % (x, msg))
                if not d2:
                    self.stats.norm += 1
                    continue
                if pconst(d2) is not None:
                    return msg, self._values(None)
                bad.append((self.to_z3(d2) != 0, msg, d2))
        if not bad:
            return None
        if self.lin is not None and bad:
            if os.environ.get("SYMPIC_DEBUG"):
                print("nonlinear obligations left:", [(b[1], None if b[2] is None else len(b[2])) for b in bad][:6], flush=True)
            r = self.instantiate([o for o in self.obls if o[-1] in {b[1] for b in bad} and not isinstance(o[0], bool)])
            if r is not None:
                return r
        self.solver.push()
        try:
            self.solver.add(z3.Or(*[b[0] for b in bad]) if len(bad) > 1 else bad[0][0])
            r = self.check()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                # one at a time
                self.solver.pop(); self.solver.push()
                unk = None
                for zb, msg, d in bad:
                    r = self.check(zb)
                    if r == z3.sat:
                        self.solver.add(zb)
                        self.check()
                        return msg, self._values(self.solver.model(), zb)
                    if r == z3.unknown:
                        unk = msg
                if unk:
                    raise Inconclusive("solver returned unknown for: " + unk)
                return None
            m = self.solver.model()
            msg, d = next((b[1], b[2]) for b in bad if z3.is_true(m.eval(b[0], model_completion=True)))
            # prefer a counterexample that survives rounding
            if d is not None:
                e = self.to_z3(d)
                for thr in ("1/4", "1/100"):
                    r = self.check(z3.Or(e > z3.RealVal(thr), e < z3.RealVal("-" + thr)))
                    if r == z3.sat:
                        m = self.solver.model()
                        break
            return msg, self._values(m)
        finally:
            self.solver.pop()

    def numeric(self, rng):
        """a random input of this path: inputs from the linear relaxation, the
        auxiliary unknowns and the path's conditions evaluated.  None if it fails"""
        s = self.lin
        s.push()
        try:
            names = list(self.byname.items())
            rng.shuffle(names)
            for n, i in names[:80]:
                for k in range(3):
                    s.push()
                    s.add(self.z3vars[i] == z3.Q(rng.randint(-40, 40), rng.choice((1, 2, 4, 8, 16))))
                    self.stats.queries += 1
                    if s.check() == z3.sat:
                        break
                    s.pop()
            if s.check() != z3.sat:
                return None
            m = s.model()
            vals = {n: _val(m.eval(self.z3vars[i], model_completion=True)) for n, i in self.byname.items()}
        finally:
            s.pop(s.num_scopes())
        at = {i: vals[n] for n, i in self.byname.items()}
        for v in range(len(self.names)):
            if v in at:
                continue
            d = self.defn.get(v)
            try:
                if d is None or d[0] == "trig":
                    f = self.funcs.get(v)
                    if f is None:
                        return None
                    x = self.peval(f[1], at)
                    at[v] = x ** (1.0 / int(f[0][4:])) if f[0].startswith("root") else getattr(math, f[0])(x)
                else:
                    x = self.peval(d[1], at)
                    at[v] = x if d[0] == "let" else 1 / x if d[0] == "inv" else math.sqrt(x)
            except (ArithmeticError, ValueError, AttributeError):
                return None
        for b, v in self.conds:
            r = self.beval(b, at)
            if r is not None and r != v:
                return None
        return vals, at

    @staticmethod
    def peval(p, at):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for v in m:
                x *= at[v]
            t += x
        return t

    def beval(self, b, at):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.k == "atom":
            x = self.peval(b.a[0], at)
            return x < 0 if b.a[1] == "<" else x <= 0 if b.a[1] == "<=" else x == 0
        if b.k == "not":
            r = self.beval(b.a, at)
            return None if r is None else not r
        if b.k == "var":
            return None
        rs = [self.beval(x, at) for x in b.a]
        if None in rs:
            return None
        return all(rs) if b.k == "and" else any(rs)

    def instantiate(self, bad, tries=40):
        """nonlinear paths: look for a concrete input that breaks an obligation"""
        import random
        rng = random.Random(len(self.decisions) + 17)
        for t in range(tries):
            r = self.numeric(rng)
            if r is None:
                continue
            vals, at = r
            for o in bad:
                if len(o) == 2:
                    if self.beval(o[0], at) is False:
                        return o[1], dict(reals=vals, choices=dict(self.choices))
                else:
                    a, b = self.peval(o[0], at), self.peval(o[1], at)
                    if abs(a - b) > 1e-6 * max(abs(a), abs(b), 1e-9):
                        return o[2], dict(reals=vals, choices=dict(self.choices))
        return None

    def example(self):
        import os
        import random
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        for t in range(40):
            r = self.numeric(rng)
            if r is not None:
                return dict(reals=r[0], choices=dict(self.choices))
        return None

    def samples(self, k=4, seconds=40):
        """concrete inputs of an undecided path, to be run on the real build"""
        import random
        out = []
        t0 = time.time()
        for t in range(40):
            if len(out) >= k or time.time() - t0 > seconds:
                break
            rng = random.Random(1000 + t)
            try:
                if self.lin is not None:
                    r = self.numeric(rng)
                    if r is not None:
                        out.append(dict(reals=r[0], choices=dict(self.choices)))
                    continue
                s = self.solver
                s.push()
                try:
                    names = list(self.byname.items())
                    rng.shuffle(names)
                    for n, i in names[:60]:
                        s.push()
                        s.add(self.z3vars[i] == z3.Q(rng.randint(-48, 48), 64))
                        if s.check() != z3.sat:
                            s.pop()
                    if s.check() == z3.sat:
                        m = s.model()
                        out.append(dict(reals={n: _val(m.eval(self.z3vars[i], model_completion=True)) for n, i in self.byname.items()}, choices=dict(self.choices)))
                finally:
                    s.pop(s.num_scopes())
            except Exception:
                break
        return out

    def reachable(self):
        if self.lin is not None and self.example() is not None:
            return True
        return self.check() != z3.unsat

    def _values(self, model, extra=None):
        if model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            model = self.solver.model() if r == z3.sat else None
        vals = {}
        for n, i in self.byname.items():
            if model is None:
                vals[n] = 0.0
                continue
            q = model.eval(self.z3vars[i], model_completion=True)
            vals[n] = _val(q)
        return dict(reals=vals, choices=dict(self.choices))


def coerce_p(a):
    q = sreal.coerce(a)
    if q is None or q is NotImplemented:
        raise TypeError("not a real: %r" % (a,))
    return q


def _isnan(a):
    return isinstance(a, (float, np.floating)) and a != a


def _val(q):
    if z3.is_rational_value(q):
        return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
    if z3.is_algebraic_value(q):
        a = q.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


def _floorval(q):
    if z3.is_rational_value(q):
        return math.floor(Fraction(q.numerator_as_long(), q.denominator_as_long()))
    if z3.is_algebraic_value(q):
        a = q.approx(40)
        return math.floor(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Inconclusive("floor of non-value")


class Counterexample:
    def __init__(self, msg, values, decisions):
        self.msg = msg
        self.values = values
        self.decisions = decisions


def explore(scenario, stats, max_paths=200000, timeout_ms=60000, deadline=None, on_path=None, setup=None, max_cex=1):
    """Run scenario(cx) on every feasible path.  -> list of Counterexamples (at most max_cex)"""
    work = [[]]
    out = []
    while work:
        prefix = work.pop()
        if deadline is not None and time.time() > deadline:
            raise Budget("time budget exhausted after %d paths" % stats.paths)
        if stats.paths >= max_paths:
            raise Budget("path budget exhausted")
        if setup is not None:
            setup()
        cx = SymCtx(prefix, stats, timeout_ms, deadline)
        sreal.set_ctx(cx)
        bad = None
        try:
            try:
                scenario(cx)
            except Violation as v:
                cx.fail(v.msg)
            except (Infeasible, Inconclusive, Budget, NotImplementedError):
                raise
            except Exception as e:
                from .ir import IRError
                if isinstance(e, IRError):
                    raise
                # an exception escaping the code under test on a valid input
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                cx.exc = "".join(traceback.format_exception(e))
                cx.fail("exception escapes: %s: %s (at %s:%d)" % (type(e).__name__, e, tb[-1].filename.split("/")[-1], tb[-1].lineno))
            finally:
                cx.undo()
            bad = cx.discharge()
            stats.paths += 1
            if bad is None and on_path is not None:
                on_path(cx)
        except Infeasible:
            stats.infeasible += 1
            bad = None
        except Exception as e:
            e.maybe = cx.samples()
            raise
        finally:
            sreal.set_ctx(None)
        work.extend(cx.pending)
        if bad is not None:
            c = Counterexample(bad[0], bad[1], cx.decisions)
            c.exc = getattr(cx, "exc", None)
            out.append(c)
            if len(out) >= max_cex:
                return out
    return out
