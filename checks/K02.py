"""Total charge and current carried by the deposition."""
from fractions import Fraction
import itertools
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin
from .K01 import GEO, particle, deposit

BOUNDS = ("any position in the patch and half a cell beyond, any displacement below one cell, any weight and transverse momentum (2D 3x4/5x3 all cells, 3D 3x3x3 patch: centre, corner or mixed cells); "
          "two (dx, dy, dz, dt) choices; up to 4 particles with free live/dead flags, dead slots with undefined (NaN) content; two species depositing into the same arrays; staged and fused field-free step")
OUTSIDE = "displacements of a cell or more; rounding"
ASSUMPTIONS = ["real arithmetic", "three guard cells (the default)"]
PYFUNCS = ["lambdapic.core.current.deposition:CurrentDeposition2D/3D.__call__/reset", "lambdapic.core.pusher.pusher:BorisPusher.__call__"]


def total(cx, a):
    t = cx.num(0)
    for v in np.asarray(a).flat:
        t = t + v
    return t


def moments(cx, n, ng, a, stag):
    """(sum, first moment per axis in cells from the patch origin)"""
    dim = len(n)
    full = tuple(m + 2 * ng for m in n)
    t = cx.num(0)
    m = [cx.num(0)] * dim
    for st in np.ndindex(*full):
        v = a[st]
        t = t + v
        for b in range(dim):
            off = st[b] if st[b] < n[b] + ng else st[b] - full[b]
            m[b] = m[b] + v * cx.num(off + (0.5 if b == stag else 0))
    return t, m


def run(cx, n, geo, cells=None, fused=False, ng=3):
    dim = len(n)
    d, cdt = GEO[geo]
    d = d[:dim]
    q = particle(cx, n, d, cdt, cells)
    if fused:
        for a in range(dim):
            ax = "xyz"[a]
            q[ax] = q[ax + "_old"]
    sim, rho, J = deposit(cx, n, d, cdt, [q], fused, ng)
    c = kin.LIGHT
    vol = Fraction(1)
    for v in d:
        vol *= Fraction(v)
    P = sim.patches[0].particles[0]
    ig = P.inv_gamma[0]
    x = [getattr(P, "xyz"[a])[0] for a in range(dim)]
    u = [P.ux[0], P.uy[0], P.uz[0]]
    qw = q["w"] * cx.num(1 / vol)
    t, m = moments(cx, n, ng, rho, None)
    cx.eq(t, qw, "total charge")
    for b in range(dim):
        adv = (x[b] + u[b] * ig * cx.num(Fraction(cdt) / 2)) * cx.num(1 / Fraction(d[b]))
        cx.eq(m[b], qw * adv, "charge centre along %s" % "xyz"[b])
    for a in range(3):
        t, m = moments(cx, n, ng, J[a], a)
        k = cx.num(Fraction(1, c))
        cx.eq(t * k, qw * u[a] * ig, "total current along %s" % "xyz"[a])
        for b in range(dim):
            cx.eq(m[b] * k, qw * u[a] * ig * x[b] * cx.num(1 / Fraction(d[b])), "centre of j%s along %s" % ("xyz"[a], "xyz"[b]))


def conc(k, dim, d, cdt):
    """a fixed particle"""
    c = {"w": Fraction(k + 2, 4), "inv_gamma": Fraction(1, 2 + k)}
    o = {kk: v for kk, v in c.items()}
    pos = [(0.25, 2.75, 1.0), (1.5, -0.5, 2.25), (2.5, 1.25, 0.0), (-0.25, 0.5, 1.75)][k % 4]
    dv = [(0.75, -0.5, 0.125), (-0.875, 0.25, 0.5), (0.0, 0.625, -0.75), (0.5, 0.5, 0.5)][k % 4]
    for a in range(3):
        o["u" + "xyz"[a]] = Fraction(dv[a]) * Fraction((d + (1.0,))[a]) / Fraction(cdt) / c["inv_gamma"]
        if a < dim:
            o["xyz"[a]] = Fraction(pos[a]) * Fraction(d[a])
    return o


def add_up(cx, n, geo, kinds, fused=False, ng=3):
    """several particles with free dead flags and weights: arrays are the sum of the single ones"""
    dim = len(n)
    d, cdt = GEO[geo]
    d = d[:dim]
    parts = []
    for k, c in enumerate(kinds):
        o = {kk: cx.num(v) for kk, v in conc(k, dim, d, cdt).items()}
        o["w"] = cx.real("w%d" % k)
        if fused:       # momenta with a rational Lorentz factor
            for a in range(3):
                o["u" + "xyz"[a]] = cx.num([Fraction(3, 4), 0, 0][(a + k) % 3])
            o["inv_gamma"] = cx.num(Fraction(4, 5))
        o["dead"] = c == "d" or (c == "?" and cx.bool("dead%d" % k))
        if c == "n":
            o["dead"] = True
            for kk in list(o):
                if kk != "dead":
                    o[kk] = float("nan")
        parts.append(o)
    _, rho, J = deposit(cx, n, d, cdt, parts, fused, ng)
    sums = [np.array(a) for a in _arrays(deposit(cx, n, d, cdt, [dict(parts[0], dead=True)] if kinds[0] != "n" else parts[:1], fused, ng))]
    for a in sums:
        for v in a.flat:
            cx.eq(v, 0, "a dead particle deposits")
    for o in parts:
        if not o["dead"]:
            for s, a in zip(sums, _arrays(deposit(cx, n, d, cdt, [o], fused, ng))):
                s[...] = s + a
    for nm, s, a in zip(("rho", "jx", "jy", "jz"), sums, [rho] + J):
        k = cx.num(1 if nm == "rho" else Fraction(1, kin.LIGHT))
        for st in np.ndindex(*s.shape):
            cx.eq(a[st] * k, s[st] * k, "%s%s is not the sum over live particles" % (nm, list(st)))


def _arrays(r):
    return [r[1]] + r[2]


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(n, geo, cells=None, w=False, **kw):
        out.append(Scn(C.nm("tot", n, geo, "all" if cells is None else cells, "-".join(sorted(k for k in kw if kw[k]))), run, dict(n=n, geo=geo, cells=cells, **kw), witness=w, budget=700))

    def sup(n, geo, kinds, **kw):
        out.append(Scn(C.nm("add", n, geo, kinds, "-".join(sorted(k for k in kw if kw[k]))), add_up, dict(n=n, geo=geo, kinds=kinds, **kw), budget=700))
    add((3, 4), 0, w=True)
    add((5, 3), 1)
    add((3, 4), 1, fused=True)
    add((3, 3, 3), 1, cells=(0, 1, 2))
    for fused in (False, True):
        sup((4, 3), 0, "?n??", fused=fused)
        sup((3, 3), 1, "l??", fused=fused)
        sup((3, 3, 3), 0, "?nl?", fused=fused)
        sup((3, 4, 3), 1, "l?", fused=fused)
    if full:
        for c in itertools.product((-1, 1, 2), repeat=3):
            add((3, 3, 3), 0, cells=c)
        add((3, 3, 3), 0, cells=(1, 1, 1), fused=True)
        sup((4, 3), 0, "??n???", fused=False)
        sup((4, 3), 0, "??n???", fused=True)
    return out
