"""Discrete continuity of the deposited charge and current."""
from fractions import Fraction
import itertools
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin

BOUNDS = ("one particle, or two particles with the second one fixed; any position in the patch and, for the mid-step position, up to half a cell beyond each edge; any displacement below one cell along each axis; "
          "any weight, charge sign and transverse momentum; two (dx, dy, dz, dt) choices; 2D patches of 3x4 and 5x3 cells with 3 guard cells over all positions; 3D 3x3x3 patch, particle in the first, middle or last cell of each axis and half a cell beyond; "
          "staged deposition, fused kernel in field-free and q=0 form, and two consecutive steps")
OUTSIDE = "displacements of a cell or more per step (excluded by the CFL condition); rounding"
ASSUMPTIONS = ["real arithmetic", "three guard cells (the default)"]
PYFUNCS = ["lambdapic.core.current.deposition:CurrentDeposition2D/3D.__call__/reset", "lambdapic.core.pusher.pusher:BorisPusher.__call__"]

GEO = [((1.0, 0.5, 2.0), Fraction(1, 4)), ((0.25, 3.0, 0.75), Fraction(1, 8))]


def deposit(cx, n, d, cdt, parts, fused=False, ng=3):
    """run the deposition on one patch -> (rho, jx, jy, jz) arrays"""
    dim = len(n)
    sim = kin.setup(cx, n, d, [kin.species(cx, q=cx.num(1), m=cx.num(1))], [len(parts)], ng=ng)
    p = sim.patches[0]
    dt = cx.num(Fraction(cdt) / kin.LIGHT)
    ks = [k for k in ("x", "y", "z", "ux", "uy", "uz", "inv_gamma", "w")]
    kin.setp(cx, p.particles[0], **{k: [q[k] for q in parts] for k in ks if all(k in q for q in parts)}, is_dead=[q.get("dead", False) for q in parts])
    kin.zero_fields(cx, sim)
    kin.relist(sim)
    sim.current_depositor.reset()
    if fused:
        sim.pusher[0](dt, unified=True)
    else:
        sim.current_depositor(0, dt)
    f = p.fields
    return sim, f.rho, [f.jx, f.jy, f.jz]


def check(cx, n, ng, d, cdt, rho0, rho1, J, tag):
    """(rho1 - rho0)/dt + div J == 0, divided by c to stay of order one"""
    dim = len(n)
    full = tuple(m + 2 * ng for m in n)
    k = cx.num(1 / Fraction(cdt))
    invd = [cx.num(1 / (Fraction(v) * kin.LIGHT)) for v in d]
    for st in np.ndindex(*full):
        div = (rho1[st] - rho0[st]) * k
        for a in range(dim):
            b = list(st)
            b[a] -= 1      # storage wraps like the guard layout: cell -1 is the last slot
            div = div + (J[a][st] - J[a][tuple(b)]) * invd[a]
        off = tuple(s if s < n[a] + ng else s - full[a] for a, s in enumerate(st))
        cx.eq(div, 0, "%s: d(rho)/dt + div J at cell %s" % (tag, off))


def particle(cx, n, d, cdt, cells, tag=""):
    """mid-step position and displacement.  cells: per axis None (anywhere) or a cell index"""
    dim = len(n)
    q = {}
    for a in range(dim):
        ax = "xyz"[a]
        lo, hi = (Fraction(-1), Fraction(n[a])) if cells is None else (Fraction(cells[a]) - Fraction(1, 2), Fraction(cells[a]) + Fraction(1, 2))
        s = cx.real(tag + ax, lo, hi, hi_open=True)       # in cells
        v = cx.real(tag + "disp_" + ax, -1, 1, lo_open=True, hi_open=True)
        q[ax] = s * cx.num(d[a])
        # u * inv_gamma * c * dt = disp * d
        q["u" + ax] = v * cx.num(Fraction(d[a]) / Fraction(cdt) * Fraction(4, 3))
        q["inv_gamma"] = cx.num(Fraction(3, 4))
        q[ax + "_old"] = (s - v * cx.num(0.5)) * cx.num(d[a])
    for a in range(dim, 3):
        q["u" + "xyz"[a]] = cx.real(tag + "u" + "xyz"[a])
    q["w"] = cx.real(tag + "w")
    return q


def run(cx, n, geo, cells=None, fused=False, two=False, ng=3):
    dim = len(n)
    d, cdt = GEO[geo]
    d = d[:dim]
    q = particle(cx, n, d, cdt, cells)
    if fused:
        # field-free fused step: starts a whole step earlier, ends at the same place
        q0 = dict(q)
        for a in range(dim):
            ax = "xyz"[a]
            q0[ax] = q[ax] - (q[ax] - q[ax + "_old"]) * cx.num(2)
        q = q0
    parts = [q]
    still = [dict(q, **{ax: q[ax + "_old"] for ax in "xyz"[:dim]}, ux=cx.num(0), uy=cx.num(0), uz=cx.num(0))]
    if two:
        o = {"x": cx.num(d[0] * 1.25), "y": cx.num(d[1] * 0.75), "z": cx.num((d[2] if dim == 3 else 1) * 1.5), "w": cx.real("w2"), "inv_gamma": cx.num(0.5)}
        dv = [0, 0, 0] if fused else [0.75, -0.5, 0.25]
        for a in range(3):
            o["u" + "xyz"[a]] = cx.num(Fraction(dv[a]) * Fraction((d + (1.0,))[a]) / cdt * 2)
        so = dict(o, ux=cx.num(0), uy=cx.num(0), uz=cx.num(0))
        for a in range(dim):
            so["xyz"[a]] = o["xyz"[a]] - cx.num(dv[a] * 0.5 * d[a])
        dead = dict(o, dead=True)
        parts = [o, dead, q]
        still = [so, dead] + still
    s0, rho0, _ = deposit(cx, n, d, cdt, still, False, ng)
    s1, rho1, J = deposit(cx, n, d, cdt, parts, fused, ng)
    check(cx, n, ng, d, cdt, rho0, rho1, J, "fused" if fused else "staged")


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(n, geo, cells=None, w=False, **kw):
        out.append(Scn(C.nm(n, geo, "all" if cells is None else cells, "-".join(sorted(k for k in kw if kw[k]))), run, dict(n=n, geo=geo, cells=cells, **kw), witness=w, budget=700))
    add((3, 4), 0, w=True)
    add((5, 3), 1)
    add((3, 4), 0, fused=True)
    add((3, 3), 1, cells=(1, 0), two=True)
    add((3, 3), 1, cells=(2, 1), two=True, fused=True)
    add((3, 3, 3), 0, cells=(1, 1, 1), w=True)
    add((3, 3, 3), 1, cells=(-1, 0, 2))
    if full:
        for c in itertools.product((-1, 0, 2), repeat=3):
            if c != (-1, 0, 2):
                add((3, 3, 3), 1, cells=c)
        add((3, 3, 3), 0, cells=(1, 1, 1), fused=True)
        add((3, 3, 3), 1, cells=(2, 1, 0), fused=True)
    return out
