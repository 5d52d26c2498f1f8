"""Field solver: Yee curl, div B, Gauss."""
from fractions import Fraction
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D and 3D periodic domains of one patch or two to six patches with 2 to 5 cells per axis; every field and current value symbolic, cell sizes symbolic (or concrete, unequal), time step symbolic; one electric and one magnetic update; "
          "divergences in every interior cell after the guard exchange")
OUTSIDE = "rounding; patches with absorbing layers (M03)"
ASSUMPTIONS = ["real arithmetic", "positive cell sizes"]
PYFUNCS = ["lambdapic.core.maxwell.solver.solver:MaxwellSolver2D/MaxwellSolver3D.update_efield/update_bfield", "lambdapic.core.maxwell.cpu:update_efield_2d/3d, update_bfield_2d/3d"]
E3, B3, J3 = ("ex", "ey", "ez"), ("bx", "by", "bz"), ("jx", "jy", "jz")
LIGHT = 299792458


def consts(cx):
    from scipy.constants import epsilon_0
    return cx.num(LIGHT) * cx.num(LIGHT), cx.num(epsilon_0)


def set_spacing(sim, d):
    """cell sizes replaced by the given values everywhere they are kept"""
    for a, v in zip("xyz", d):
        for o in [sim] + list(sim.patches) + [p.fields for p in sim.patches]:
            if hasattr(o, "d" + a):
                try:
                    setattr(o, "d" + a, v)
                except AttributeError:
                    pass


def fill(cx, sim, n, npatch, ng, c2, eps):
    """one global grid of symbols; guards hold the periodic neighbours"""
    dim = len(n)
    sc = dict([(a, cx.num(1)) for a in E3] + [(a, cx.num(1) / c2 if cx.symbolic else 1 / c2) for a in B3] + [(a, eps) for a in J3])
    for p in sim.patches:
        for at in E3 + B3 + J3:
            a = cx.zeros(getattr(p.fields, at).shape)
            for st, off in C.offsets(n, ng):
                a[st] = cx.real("%s[%s]" % (at, C.gname(C.glob(C.pidx(p, dim), off, n, npatch, "p" * dim)))) * sc[at]
            setattr(p.fields, at, a)
    return sc


def snapshot(sim, attrs):
    return {(p.index, at): getattr(p.fields, at).copy() for p in sim.patches for at in attrs}


def sh(st, b, k):
    t = list(st)
    t[b] += k
    return tuple(t)


def curl(f, names, st, d, step, dim):
    """components of the centred curl at storage index st; step -1: magnetic field seen from electric points, +1: the reverse"""
    def der(name, b):
        if b >= dim:
            return 0
        a = f[name]
        hi, lo = (sh(st, b, 1), st) if step > 0 else (st, sh(st, b, -1))
        return (a[hi] - a[lo]) / d[b]
    x, y, z = names
    return [der(z, 1) - der(y, 2), der(x, 2) - der(z, 0), der(y, 0) - der(x, 1)]


def div(f, names, st, d, step, dim):
    t = 0
    for b in range(dim):
        a = f[names[b]]
        hi, lo = (sh(st, b, 1), st) if step > 0 else (st, sh(st, b, -1))
        t = t + (a[hi] - a[lo]) / d[b]
    return t


def run(cx, n, npatch, d, ng, which):
    dim = len(n)
    if d == "free":
        d0 = (1.0, 0.5, 2.0)[:dim]
        d = [cx.real("d" + a, Fraction(1, 8), 8) for a in "xyz"[:dim]]
    else:
        d0 = d
        d = [cx.num(Fraction(v)) for v in d]
    sim = C.local_sim(cx, n, npatch, d0, "p" * dim, ng)
    set_spacing(sim, d)
    dt = cx.real("dt", Fraction(1, 16), 4)
    c2, eps = consts(cx)
    fill(cx, sim, n, npatch, ng, c2, eps)
    sim._init_maxwell_solver()
    old = snapshot(sim, E3 + B3 + J3)
    if which == "e":
        sim.maxwell.update_efield(dt)
    else:
        sim.maxwell.update_bfield(dt)
    for p in sim.patches:
        f = {at: old[p.index, at] for at in E3 + B3 + J3}
        for st, off in C.offsets(n, ng):
            if C.is_guard(off, n):
                continue
            w = "patch %d cell (%s)" % (p.index, C.gname(off))
            if which == "e":
                cu = curl(f, B3, st, d, -1, dim)
                want = [f[E3[a]][st] + dt * c2 * cu[a] - dt / eps * f[J3[a]][st] for a in range(3)] + [f[b][st] for b in B3]
            else:
                cu = curl(f, E3, st, d, 1, dim)
                want = [f[e][st] for e in E3] + [f[B3[a]][st] - dt * cu[a] for a in range(3)]
            for at, v in zip(E3 + B3, want):
                if which == "b" and at[0] == "b":
                    cx.eq(getattr(p.fields, at)[st] * c2, v * c2, "%s after the %s update, %s" % (at, which, w))
                else:
                    cx.eq(getattr(p.fields, at)[st], v, "%s after the %s update, %s" % (at, which, w))
            for at in J3:
                cx.eq(getattr(p.fields, at)[st], f[at][st], "%s changed, %s" % (at, w))
    sim.patches.sync_guard_fields(list(E3 if which == "e" else B3))
    for p in sim.patches:
        f0 = {at: old[p.index, at] for at in E3 + B3 + J3}
        f1 = {at: getattr(p.fields, at) for at in E3 + B3}
        for st, off in C.offsets(n, ng):
            if C.is_guard(off, n):
                continue
            w = "patch %d cell (%s)" % (p.index, C.gname(off))
            if which == "b":
                cx.eq(div(f1, B3, st, d, 1, dim) * c2, div(f0, B3, st, d, 1, dim) * c2, "div B changed, " + w)
            else:
                cx.eq(div(f1, E3, st, d, -1, dim) - div(f0, E3, st, d, -1, dim), -dt / eps * div(f0, J3, st, d, -1, dim), "div E, " + w)


def scenarios(tier):
    out = []
    full = tier == "thorough"

    def add(n, npatch, d, ng=2, w=False):
        for which in "eb":
            out.append(Scn(C.nm(which, n, npatch, d, ng), run, dict(n=n, npatch=npatch, d=d, ng=ng, which=which), witness=w))
    add((3, 4), (1, 1), "free", w=True)
    add((3, 2), (2, 3), "free", ng=1)
    add((5, 3), (1, 2), (0.5, 2.0), ng=3)
    add((2, 3, 4), (1, 1, 1), "free", w=True)
    add((2, 3, 2), (2, 1, 1), "free", ng=1)
    add((2, 2, 3), (1, 2, 2), (1.0, 0.5, 4.0), ng=2)
    if full:
        add((7, 6), (2, 2), "free", ng=3)
        add((3, 8), (3, 1), "free", ng=1)
        add((4, 3, 5), (1, 1, 1), "free", ng=3)
        add((3, 3, 3), (2, 2, 2), (1.0, 0.5, 4.0), ng=2)
        add((2, 4, 3), (1, 2, 3), "free", ng=2)
    return out
