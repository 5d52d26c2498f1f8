"""The momentum push."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin

BOUNDS = ("one live particle between a free-flag slot and a dead slot; any momentum, any electric and magnetic field at the particle, any charge-to-mass ratio and time step; staged kernel, and the fused kernel in 2D and 3D with the field given by any uniform field; "
          "photon Lorentz factor update over any momentum")
OUTSIDE = "rounding; field values are taken after gathering (K03)"
ASSUMPTIONS = ["real arithmetic"]
PYFUNCS = ["lambdapic.core.pusher.boris:boris_inline/boris", "lambdapic.core.pusher.cpu:boris_push_patches/photon_push_patches", "lambdapic.core.pusher.pusher:BorisPusher.__call__", "lambdapic.core.pusher.photon:update_photon_gamma"]
U = ("ux", "uy", "uz")


def run(cx, dim, fused, which=None, clean=False):
    """which: which of E/B are present ("e", "b", "eb", "")"""
    n = (3,) * dim
    d = (1.0, 0.5, 2.0)[:dim]
    qs = cx.real("charge")
    m = cx.real("mass", 0, lo_open=True)
    cx.nonlinear_mode(120)
    # dt scaled so that c*dt is of the order of a cell; the ratio q dt / m c is free anyway
    cdt = cx.num(Fraction(1, 1024))
    dt = cdt * cx.num(Fraction(1, kin.LIGHT))
    sim = kin.setup(cx, n, d, [kin.species(cx, q=qs, m=m)], [3])
    p = sim.patches[0]
    q = p.particles[0]
    fl = [False] * 3 if clean else [cx.bool("dead0"), False, True]
    u0 = [[cx.real("%s%d" % (a, k)) if k == 1 else cx.num(Fraction(k + 1, 4) * (1 if a != "uy" else -1)) for k in range(3)] for a in U]
    # scaled so that inputs of order one give a kick of order one
    E = [cx.real("e" + a) * cx.num(1024 * kin.LIGHT ** 2) if "e" in which else cx.num(0) for a in "xyz"]
    B = [cx.real("b" + a) * cx.num(1024 * kin.LIGHT) if "b" in which else cx.num(0) for a in "xyz"]
    ig0 = [cx.num(Fraction(1, 2 + k)) for k in range(3)]
    vals = dict(zip(U, u0), inv_gamma=ig0, is_dead=fl)
    for a in range(dim):
        vals["xyz"[a]] = [cx.num(Fraction(5, 4) * Fraction(d[a])) for k in range(3)]
    fields = dict(zip(("ex", "ey", "ez", "bx", "by", "bz"), E + B))
    if fused:
        kin.setp(cx, q, **vals)
        kin.zero_fields(cx, sim)
        for at, v in fields.items():
            a = cx.zeros(getattr(p.fields, at).shape)
            a[...] = v
            setattr(p.fields, at, a)
        # keep the half push inside the cell: exact position is irrelevant for a uniform field
        for k in range(3):
            for a in range(dim):
                if cx.symbolic:
                    cx.assume(u0[a][k] <= 64)
                    cx.assume(u0[a][k] >= -64)
                else:
                    cx.assume(abs(u0[a][k]) <= 64)
    else:
        kin.setp(cx, q, **vals, **{at + "_part": [v] * 3 for at, v in fields.items()})
    kin.relist(sim)
    if fused:
        sim.pusher[0](dt, unified=True)
    else:
        sim.pusher[0](dt)
    for k in range(3):
        u1 = [getattr(q, a)[k] for a in U]
        ig = q.inv_gamma[k]
        if fl[k]:
            for a in range(3):
                cx.eq(u1[a], u0[a][k], "dead slot %d: %s changed" % (k, U[a]))
            cx.eq(ig, ig0[k], "dead slot %d: inv_gamma changed" % k)
            continue
        h = qs * dt / (m * 2)
        ef = h * cx.num(Fraction(1, kin.LIGHT))
        um = [u0[a][k] + ef * E[a] for a in range(3)]
        up = [u1[a] - ef * E[a] for a in range(3)]
        nm2 = um[0] * um[0] + um[1] * um[1] + um[2] * um[2]
        np2 = up[0] * up[0] + up[1] * up[1] + up[2] * up[2]
        cx.eq(np2, nm2, "slot %d: the magnetic part changes |u|" % k)
        # implicit form of the rotation: u+ - u- = (u+ + u-) x T,  T = h B / gamma-
        gm = cx.sqrt(nm2 + 1)
        s = [up[a] + um[a] for a in range(3)]
        for a in range(3):
            b, c = (a + 1) % 3, (a + 2) % 3
            cx.eq((up[a] - um[a]) * gm, h * (s[b] * B[c] - s[c] * B[b]), "slot %d: %s is not the Boris rotation" % (k, U[a]))
        g2 = u1[0] * u1[0] + u1[1] * u1[1] + u1[2] * u1[2] + 1
        cx.eq(ig * ig * g2, 1, "slot %d: inv_gamma^2 (1+u^2) != 1" % k)
        cx.ok(ig > 0, "slot %d: inv_gamma not positive" % k)


def photon(cx, dim):
    from lambdapic.core.pusher.cpu import photon_push_patches
    u = [np.array([cx.real("%s%d" % (a, k)) for k in range(2)]) for a in U]
    n0 = u[0][0] * u[0][0] + u[1][0] * u[1][0] + u[2][0] * u[2][0]
    cx.assume(n0 > 0)
    ig = cx.asarray([cx.real("ig0"), cx.real("ig1")])
    old = ig.copy()
    uo = [a.copy() for a in u]
    photon_push_patches([u[0]], [u[1]], [u[2]], [ig], [np.array([False, True])], 1)
    cx.eq(ig[1], old[1], "dead photon touched")
    cx.eq(ig[0] * ig[0] * n0, 1, "photon inv_gamma^2 u^2 != 1")
    cx.ok(ig[0] > 0, "photon inv_gamma not positive")
    for a in range(3):
        for k in range(2):
            cx.eq(u[a][k], uo[a][k], "photon momentum changed")


def scenarios(tier):
    full = tier == "thorough"
    out = []
    for w in ("", "e", "b", "eb"):
        for dim, fused in ((2, False), (3, False), (2, True), (3, True)):
            out.append(Scn("boris-%dd-%s-%s" % (dim, "fused" if fused else "staged", w or "none"), run, dict(dim=dim, fused=fused, which=w), budget=600, witness=w == "eb"))
    for dim in (2, 3):
        out.append(Scn("boris-%dd-fused-clean" % dim, run, dict(dim=dim, fused=True, which="eb", clean=True), budget=600))
    out.append(Scn("photon-gamma", photon, dict(dim=2)))
    return out
