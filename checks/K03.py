"""Field gathering."""
from fractions import Fraction
import itertools
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin
from .K01 import GEO

BOUNDS = ("any particle position in the patch and up to half a cell beyond (whole patch in 2D 4x3/3x5; whole 2x2x2 or single cells of a 3x3x3 patch in 3D), any uniform and linear field content for each of the six components, "
          "any field content for the weights (2D); two (dx, dy, dz) choices; patch origin not at zero; staged gathering and the gathering inside the fused kernel; live/dead patterns over 3 slots; two patches of the same list")
OUTSIDE = "rounding; positions more than half a cell outside the patch"
ASSUMPTIONS = ["real arithmetic", "three guard cells (the default)"]
PYFUNCS = ["lambdapic.core.interpolation.field_interpolation:FieldInterpolation2D/3D.__call__"]
E6 = ("ex", "ey", "ez", "bx", "by", "bz")
STAG = {"ex": (1, 0, 0), "ey": (0, 1, 0), "ez": (0, 0, 1), "bx": (0, 1, 1), "by": (1, 0, 1), "bz": (1, 1, 0)}


def pos(cx, n, cells, tag="", fix=(), inner=False):
    out = []
    for a in range(len(n)):
        if a in fix:
            out.append(cx.num(Fraction(cells[a]) + Fraction((3, -2, 1)[a], 8)))
            continue
        if inner:
            out.append(cx.real(tag + "xyz"[a], cells[a] + Fraction(1, 8), cells[a] + Fraction(3, 8)))
            continue
        lo, hi = (Fraction(-1), Fraction(n[a])) if cells is None or cells[a] is None else (Fraction(cells[a]) - Fraction(1, 2), Fraction(cells[a]) + Fraction(1, 2))
        out.append(cx.real(tag + "xyz"[a], lo, hi))
    return out


def gather(cx, sim, fused):
    if fused:
        sim.pusher[0](cx.num(Fraction(1, 4 * kin.LIGHT)), unified=True)
    else:
        sim.interpolator(0)


def linear(cx, n, geo, cells=None, fused=False, npatch=None, ng=3):
    """linear fields of the global position; the particle sits in the last patch"""
    dim = len(n)
    d, _ = GEO[geo]
    d = d[:dim]
    npatch = npatch or (1,) * dim
    sim = kin.setup(cx, n, d, [kin.species(cx, q=cx.num(0), m=cx.num(1))], [1], ng=ng, npatch=npatch)
    plist = list(sim.patches)
    want = {}
    for p in plist:
        pi = C.pidx(p, dim)
        s = pos(cx, n, cells, "p%d_" % p.index)
        kin.setp(cx, p.particles[0], **{"xyz"[a]: [(s[a] + pi[a] * n[a]) * cx.num(d[a])] for a in range(dim)})
        kin.zero_fields(cx, type("S", (), {"patches": [p]}))
        for at in E6:
            a = cx.zeros(getattr(p.fields, at).shape)
            k0 = cx.real("%s_p%d_0" % (at, p.index))
            ks = [cx.real("%s_p%d_%s" % (at, p.index, "xyz"[b])) for b in range(dim)]
            for st, off in C.offsets(n, ng):
                v = k0
                for b in range(dim):
                    v = v + ks[b] * (Fraction(off[b]) + Fraction(STAG[at][b], 2) if cx.symbolic else off[b] + STAG[at][b] / 2)
                a[st] = v
            setattr(p.fields, at, a)
            v = k0
            for b in range(dim):
                v = v + ks[b] * s[b]
            want[p.index, at] = v
    kin.relist(sim)
    gather(cx, sim, fused)
    for p in plist:
        q = p.particles[0]
        for at in E6:
            cx.eq(getattr(q, at + "_part")[0], want[p.index, at], "%s at the particle of patch %d" % (at, p.index))


def weights(cx, n, geo, at, cells=None, fused=False, ng=3, fix=()):
    """any field content: the value is a convex combination of grid values within 1.5 cells"""
    dim = len(n)
    d, _ = GEO[geo]
    d = d[:dim]
    s = pos(cx, n, cells, fix=fix)
    # value = sum_c w_c f_c is linear in the field: probe it with every unit field
    tot = cx.num(0)
    full = tuple(m + 2 * ng for m in n)
    sim = kin.setup(cx, n, d, [kin.species(cx, q=cx.num(0), m=cx.num(1))], [1], ng=ng)
    p = sim.patches[0]
    kin.setp(cx, p.particles[0], **{"xyz"[a]: [s[a] * cx.num(d[a])] for a in range(dim)})
    kin.zero_fields(cx, sim)
    f = cx.zeros(full)
    for st in np.ndindex(*full):
        f[st] = cx.real("f[%s]" % C.gname(st))
    setattr(p.fields, at, f)
    kin.relist(sim)
    gather(cx, sim, fused)
    v = getattr(p.particles[0], at + "_part")[0]
    for o in E6:
        if o != at:
            cx.eq(getattr(p.particles[0], o + "_part")[0], 0, "%s picks up %s" % (o, at))
    if cx.symbolic:
        # read the weights off the (linear) result
        names = {cx.byname["f[%s]" % C.gname(st)]: (st, off) for st, off in C.offsets(n, ng)}
        w = {}
        from sympic.sreal import R
        for m, c in v.p.items():
            fs = [i for i in m if i in names]
            cx.ok(len(fs) == 1, "not linear in the field")
            rest = tuple(i for i in m if i not in names)
            w.setdefault(fs[0], {})[rest] = c
        t = cx.num(0)
        for i, pl in w.items():
            st, off = names[i]
            for b in range(dim):
                dist = s[b] - (Fraction(off[b]) + Fraction(STAG[at][b], 2))
                cx.ok((dist <= Fraction(3, 2)) & (dist >= Fraction(-3, 2)), "cell %s is further than 1.5 cells" % (off,))
            cx.ok(R(pl) >= 0, "negative weight for cell %s" % (off,))
            t = t + R(pl)
        cx.eq(t, 1, "weights do not add up to one")
    else:
        lo, hi = np.inf, -np.inf
        for st, off in C.offsets(n, ng):
            if all(abs(s[b] - off[b] - STAG[at][b] / 2) <= 1.5 + 1e-9 for b in range(dim)):
                lo, hi = min(lo, f[st]), max(hi, f[st])
        cx.ok(lo - 1e-9 <= v <= hi + 1e-9, "%s = %r outside the range %r..%r of the cells around it" % (at, float(v), lo, hi))


def dead(cx, n, geo, kinds, fused=False, ng=3):
    dim = len(n)
    d, _ = GEO[geo]
    d = d[:dim]
    sim = kin.setup(cx, n, d, [kin.species(cx, q=cx.num(0), m=cx.num(1))], [len(kinds)], ng=ng)
    p = sim.patches[0]
    q = p.particles[0]
    fl = [c == "d" or (c == "?" and cx.bool("dead%d" % k)) for k, c in enumerate(kinds)]
    s = [pos(cx, n, (k % n[0], (2 * k) % n[1], 0)[:dim], "p%d" % k, inner=True) for k in range(len(kinds))]
    old = {at: [cx.real("%s_old%d" % (at, k)) for k in range(len(kinds))] for at in E6}
    kin.setp(cx, q, is_dead=fl, **{"xyz"[a]: [s[k][a] * cx.num(d[a]) for k in range(len(kinds))] for a in range(dim)}, **{at + "_part": old[at] for at in E6})
    kin.zero_fields(cx, sim)
    for at in E6:
        a = cx.zeros(getattr(p.fields, at).shape)
        for st, off in C.offsets(n, ng):
            a[st] = cx.real(at)
        setattr(p.fields, at, a)
    kin.relist(sim)
    gather(cx, sim, fused)
    for k in range(len(kinds)):
        for at in E6:
            cx.eq(getattr(q, at + "_part")[k], old[at][k] if fl[k] else cx.real(at), "%s of slot %d (%s)" % (at, k, "dead" if fl[k] else "live"))
        for a in range(dim):
            cx.eq(getattr(q, "xyz"[a])[k], s[k][a] * cx.num(d[a]), "position changed")


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(fn, n, geo, w=False, **kw):
        out.append(Scn(C.nm(fn.__name__, n, geo, *["%s=%s" % (k, "x".join(map(str, v)) if isinstance(v, tuple) else v) for k, v in sorted(kw.items()) if v not in (None, False)]), fn, dict(n=n, geo=geo, **kw), witness=w, budget=700))
    for fused in (False, True):
        add(linear, (4, 3), 0, w=True, fused=fused)
        add(linear, (3, 5), 1, fused=fused)
        add(linear, (2, 2), 1, fused=fused, npatch=(2, 1), cells=(1, 0))
        add(linear, (3, 3, 3), 0, w=True, fused=fused, cells=(None, 1, 0))
        add(linear, (3, 3, 3), 1, fused=fused, cells=(2, None, 1))
        add(linear, (3, 3, 3), 1, fused=fused, cells=(0, 2, None))
        add(dead, (3, 3), 0, fused=fused, kinds="?l?")
        add(dead, (2, 3, 2), 1, fused=fused, kinds="l??")
    for at in E6:
        add(weights, (4, 3), 1, at=at, cells=(0, 2))
        add(weights, (4, 3), 0, at=at, cells=(-1, 1), fused=True)
        for fix in ((0, 1), (1, 2), (0, 2)):
            add(weights, (2, 2, 2), 1, at=at, cells=(0, 1, 1), fused=(len(at + str(fix)) + ord(at[1]) + fix[0]) % 2 == 0, fix=fix)
    if full:
        for fused in (False, True):
            add(linear, (3, 3, 3), 1, fused=fused)
            add(linear, (2, 2, 2), 0, fused=fused, npatch=(1, 2, 1), cells=(1, 0, None))
            for at in E6:
                add(weights, (4, 4), 1, at=at, fused=fused)
                for fix in ((0,), (1,), (2,)):
                    add(weights, (2, 2, 2), 0, at=at, cells=(1, 0, -1), fused=fused, fix=fix)
    return out
