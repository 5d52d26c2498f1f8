"""Fused particle step against the staged pipeline."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin

BOUNDS = ("2D patches of 3x3 to 4x4 and 3D patches of 3x3x2 cells, one patch or two; per slot one cell-sized (or several-cell, in the edge scenarios) box of free start positions; (a) constant fields and momenta, free positions and weights, full step with deposition, also with start positions in the outermost "
          "cells; (b) free field values at every grid point, free momenta and Lorentz factor, free positions, weight zero; (c) up to 4 slots with free dead flags, NaN positions and 258 slots (two strips of the fused kernel); (d, thorough) everything free but a field uniform in space, 2D; c*dt a fixed fraction of a cell; positive and negative charge, and no charge")
OUTSIDE = "rounding; more than one cell of motion per step; c*dt other than the listed values; fields free and deposition non-zero at the same time (composition of a, b and d)"
ASSUMPTIONS = ["real arithmetic", "a free momentum satisfies |u/gamma| <= 1 on every axis"]
PYFUNCS = ["lambdapic.core.pusher.pusher:BorisPusher.__call__/push_position", "lambdapic.core.pusher.cpu:boris_push_patches/push_position_patches_2d/push_position_patches_3d",
           "lambdapic.core.interpolation.field_interpolation:FieldInterpolation", "lambdapic.core.current.deposition:CurrentDeposition"]
U = ("ux", "uy", "uz")
E6 = ("ex", "ey", "ez", "bx", "by", "bz")
CU = [("3/8", "-1/2", "1/4", "3/4"), ("-3/5", "4/5", "1/3", "2/3"), ("1/8", "1/4", "-3/4", "5/7"), ("-2", "-3/2", "1", "1/3")]
CF = {"ex": "3/4", "ey": "-5/4", "ez": "1/2", "bx": "3/8", "by": "-1", "bz": "5/8"}


def build(cx, n, d, sp, cells, fl, fmode, umode, wmode, npatch=None, ng=3, nan=()):
    dim = len(n)
    slots = len(cells)
    sim = kin.setup(cx, n, d, [sp], [slots], npatch=npatch, ng=ng)
    sc = {"e": cx.num(kin.LIGHT ** 2), "b": cx.num(kin.LIGHT)}
    for p in sim.patches:
        q = p.particles[0]
        vals = {a: [] for a in "xyz"[:dim] + ""}
        vals.update({a: [] for a in U + ("w", "inv_gamma")})
        for k in range(slots):
            nm = "_%d_%d" % (p.index, k)
            um = umode if umode != "mix" else ("free" if k == 0 and p.index == 0 else "const")
            if um == "free":
                ig = cx.real("ig" + nm, 0, 1, lo_open=True)
                for b in range(3):
                    u = cx.real(U[b] + nm)
                    vals[U[b]].append(u)
                    cx.assume(u * ig <= 1)
                    cx.assume(u * ig >= -1)
            else:
                c = CU[(k + p.index) % len(CU)]
                ig = cx.num(Fraction(c[3]))
                for b in range(3):
                    vals[U[b]].append(cx.num(Fraction(c[b])))
            vals["inv_gamma"].append(ig)
            vals["w"].append(cx.real("w" + nm) if wmode == "free" and k < 4 else cx.num(Fraction(k + 1, 4) if wmode else 0))
            for b in range(dim):
                x0 = getattr(p, "xyz"[b] + "0")
                c = cells[k][b]
                if isinstance(c, str):
                    s = cx.num(Fraction(c))
                else:
                    s = cx.real("s%s%s" % ("xyz"[b], nm), *([Fraction(i) for i in c] if isinstance(c, tuple) else (c, c + 1)))
                vals["xyz"[b]].append(s * cx.num(Fraction(d[b])) + cx.num(x0))
        for k, b in nan:
            vals["xyz"[b]][k] = float("nan")
        vals["is_dead"] = fl[p.index]
        kin.setp(cx, q, **vals)
        kin.zero_fields(cx, sim=_one(p))
        for at in E6:
            a = cx.zeros(getattr(p.fields, at).shape)
            for st, off in C.offsets(n, ng):
                if fmode == "zero":
                    v = cx.num(0)
                elif fmode == "const":
                    v = cx.num(Fraction(CF[at]))
                elif fmode == "grid":       # constants that differ from point to point
                    v = cx.num(Fraction(CF[at]) + Fraction((7 * sum((b + 1) * (b + 2) * s for b, s in enumerate(off)) + E6.index(at)) % 11, 8))
                elif fmode == "uniform":
                    v = cx.real(at)
                else:
                    v = cx.real("%s[%d,%s]" % (at, p.index, C.gname(st)))
                a[st] = v * sc[at[0]]
            setattr(p.fields, at, a)
    kin.relist(sim)
    return sim


class _one:
    def __init__(self, p):
        self.patches = [p]


def staged(sim, dt, half):
    sim.pusher[0].push_position(half)
    sim.interpolator(0)
    sim.pusher[0](dt)
    sim.pusher[0].push_position(half)
    sim.current_depositor(0, dt)


def compare(cx, A, B, dim, ng, n, fl, nan):
    nans = {k for k, b in nan}
    for pa, pb in zip(A.patches, B.patches):
        qa, qb = pa.particles[0], pb.particles[0]
        cx.ok(qa.npart == qb.npart, "slot count differs")
        for k in range(qa.npart):
            dead = fl[pa.index][k]
            cx.ok(bool(qa.is_dead[k]) == bool(qb.is_dead[k]) == bool(dead), "dead flag of slot %d of patch %d changed" % (k, pa.index))
            if dead or k in nans:
                continue
            for at in tuple("xyz"[:dim]) + U + ("inv_gamma", "w") + tuple(e + "_part" for e in E6):
                cx.eq(getattr(qa, at)[k], getattr(qb, at)[k], "%s of slot %d of patch %d" % (at, k, pa.index))
        for at in tuple(C.CURRENTS) + E6:
            fa, fb = getattr(pa.fields, at), getattr(pb.fields, at)
            for st, off in C.offsets(n, ng):
                cx.eq(fa[st], fb[st], "%s of patch %d cell (%s)" % (at, pa.index, C.gname(off)))


def step(cx, n, d, cells, kinds, cdt, fmode="const", umode="const", wmode="free", q=1, npatch=None, let=40, nan=()):
    dim = len(n)
    cx.nonlinear_mode(let)
    qm = cx.real("charge", 0, lo_open=True) * q if isinstance(q, int) and q else cx.num(Fraction(q))
    m = cx.num(1)
    dt = cx.num(Fraction(cdt)) * cx.num(Fraction(1, kin.LIGHT))
    fl = {i: [c == "d" or (c == "?" and cx.bool("dead%d_%d" % (i, k))) for k, c in enumerate(kinds)] for i in range(int(np.prod(npatch or 1)))}
    A, B = [build(cx, n, d, kin.species(cx, q=qm, m=m), cells, fl, fmode, umode, wmode, npatch, nan=nan) for i in range(2)]
    A.pusher[0](dt, unified=True)
    staged(B, dt, dt * Fraction(1, 2) if cx.symbolic else dt / 2)
    compare(cx, A, B, dim, 3, n, fl, nan)


def scenarios(tier):
    out = []
    full = tier == "thorough"

    def add(name, w=False, n=(3, 3), d=(1.0, 0.5), cdt="1/8", **kw):
        out.append(Scn(name, step, dict(n=n, d=d, cdt=cdt, **kw), witness=w))
    D3 = dict(n=(3, 3, 2), d=(1.0, 0.5, 2.0))
    # (a) deposition
    add("deposit-2d", w=True, cells=[(1, 1)], kinds="l", q="1/2")
    add("deposit-2d-neg", cells=[(("5/4", "3/2"), ("3/2", "7/4"))], kinds="l", q="-3/2", fmode="grid")
    add("deposit-2d-edge-lo", n=(3, 4), cells=[(("-1/2", "0"), ("-1/2", "-1/4"))], kinds="l", q="1/2", cdt="1/4", fmode="grid")
    add("deposit-2d-edge-hi", n=(3, 4), cells=[(("9/4", "5/2"), ("3", "7/2"))], kinds="l", q="1/2", cdt="3/8", fmode="grid")
    for j, b in enumerate((("5/4", "11/8"), ("13/8", "7/4")) + ((("-1/2", "-1/4"), ("1/8", "1/4"), ("7/4", "2"), ("9/8", "5/4")) if full else ())):
        add("deposit-3d-%d" % j, w=not j, fmode="zero", cells=[(b,) * 3], kinds="l", q="1/2" if j % 2 else "-1/2", **D3)
    add("deposit-3d-edge", fmode="zero", cells=[(("-1/2", "-1/4"), ("2", "9/4"), ("5/4", "11/8"))], kinds="l", q="1/2", **D3)
    # (b) gathering and momentum
    add("gather-2d", cells=[(1, 1) if full else (("5/4", "7/4"), ("3/2", "7/4"))], kinds="l", fmode="free", umode="free", wmode=0, q="1/2")
    add("gather-2d-edge", let=20, n=(3, 4), cells=[(("-1/2", "0"), ("3", "7/2"))], kinds="l", fmode="free", umode="const", wmode=0, q="-1/2")
    add("gather-3d-free", let=20, cells=[(("5/4", "11/8"),) * 3], kinds="l", fmode="free", umode="free", wmode=0, q="1/2", **D3)
    for j, b in enumerate(((("5/4", "11/8"),) * 3, (("13/8", "7/4"), ("1/8", "1/4"), ("-1/4", "-1/8")), (("9/4", "5/2"), ("5/4", "3/2"), ("3/2", "13/8")))):
        add("gather-3d-%d" % j, let=20, cells=[b], kinds="l", fmode="free", umode="const", wmode=0, q="1/2" if j % 2 else "-1/2", **D3)
    # (c) flags, NaN, strips, patches
    P2 = ["1/4", "5/4"], ["7/4", "17/8"], ["3/2", "3/8"], ["1/2", "2"]
    P3 = [a + ["9/8"] for a in P2]
    for dim, P, kw in ((2, P2, {}), (3, P3, D3)):
        add("flags-%dd" % dim, cells=P, kinds="????" if dim == 2 else "?l?d", fmode="grid", q="1/2", **kw)
        add("flags-nocharge-%dd" % dim, cells=P, kinds="l?dl", fmode="grid", q="0", **kw)
        for b in range(dim):
            add("nan-%dd-%s" % (dim, "xyz"[b]), cells=P, kinds="l?l?", fmode="grid", q="1/2", nan=[(2, b)], **kw)
        add("patches-%dd" % dim, cells=P[:2], kinds="l?", fmode="grid", q="-1/2", npatch=(2, 1) if dim == 2 else (1, 1, 2), **kw)
        add("patches2-%dd" % dim, cells=P[:1], kinds="?", fmode="grid", q="1/2", npatch=(1, 2, 1)[:dim], **kw)
    big = [P2[k % 4] for k in range(258)]
    add("strips-2d", cells=big, kinds="?" + "l" * 255 + "l?", fmode="zero", wmode=1, q="1/2", let=0)
    add("strips-3d", cells=[P3[k % 4] for k in range(258)], kinds="l" * 256 + "l?", fmode="zero", wmode=1, q="1/2", let=0, **D3)
    if full:
        for q in (1, -1):
            add("general-2d-uniform-%s" % q, cells=[(1, 1)], kinds="l", fmode="uniform", umode="free", q=q)
        add("deposit-3d-cell", w=True, cells=[(("5/4", "3/2"),) * 3], kinds="l", q="1/2", **D3)
        add("gather-3d-cell", let=20, cells=[(1, 1, 1)], kinds="l", fmode="free", umode="const", wmode=0, q="1/2", **D3)
    return out
