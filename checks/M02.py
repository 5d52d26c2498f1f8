"""Field evolution under the simulation loop does not depend on the decomposition."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import M01

BOUNDS = ("2D domains of 4x4 to 6x6 cells in 1 to 9 patches and 3D domains of 4x3x4 to 6x4x4 cells in 1 to 8 patches, periodic; domains with absorbing layers on both sides of one or both axes, in 2 against 3 or 4 patches along that axis; all E and B values symbolic; one or two full steps of Simulation.run without particles, "
          "and one half step with symbolic currents; one process (ranks: G03)")
OUTSIDE = "rounding (layer coefficients are taken as the doubles the code computes); more than two steps (a step is a fixed linear map of the fields, so its agreement is inductive for periodic domains)"
ASSUMPTIONS = ["real arithmetic"]
PYFUNCS = ["lambdapic.simulation.simulation:Simulation.run (field part)/maxwell_stage", "lambdapic.core.maxwell.solver.solver:MaxwellSolver2D/3D", "lambdapic.core.maxwell.cpu:*", "lambdapic.core.boundary.cpml:*", "lambdapic.core.patch.patch:Patches.sync_guard_fields"]
E3, B3, J3 = M01.E3, M01.B3, M01.J3


def evolve(cx, N, npatch, d, bc, ng, cpml, steps):
    dim = len(N)
    n = tuple(a // b for a, b in zip(N, npatch))
    out = {}

    def body(sim, comm, rank):
        c2, eps = M01.consts(cx)
        sc = dict([(a, cx.num(1)) for a in E3] + [(a, cx.num(1) / c2) for a in B3] + [(a, eps) for a in J3])
        for p in sim.patches:
            for at in E3 + B3 + J3 + ("rho",):
                a = cx.zeros(getattr(p.fields, at).shape)
                if at in E3 + B3 or (at in J3 and steps == "half"):
                    for st, off in C.offsets(n, ng):
                        g = C.glob(C.pidx(p, dim), off, n, npatch, bc)
                        if g is not None:
                            a[st] = cx.real("%s[%s]" % (at, C.gname(g))) * sc[at]
                setattr(p.fields, at, a)
            for pml in p.pml_boundary:
                for k, v in list(vars(pml).items()):
                    if k.startswith("psi_"):
                        setattr(pml, k, cx.zeros(v.shape))
        sim.dt = cx.num(Fraction(1, 4)) / cx.num(M01.LIGHT)
        sim.update_patches()
        if steps == "half":
            sim.maxwell_stage()
        else:
            sim.run(nsteps=steps)
        for p in sim.patches:
            for at in E3 + B3:
                for st, off in C.offsets(n, ng):
                    if not C.is_guard(off, n):
                        out[at, C.glob(C.pidx(p, dim), off, n, npatch, bc)] = getattr(p.fields, at)[st]
    C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng, cpml=cpml, species=lambda: []), [0] * int(np.prod(npatch)), body)
    return out


def run(cx, N, parts, d, bc, ng, steps, cpml=1):
    ref = evolve(cx, N, parts[0], d, bc, ng, cpml, steps)
    c2 = M01.consts(cx)[0]
    cx.ok(len(ref) == 6 * int(np.prod(N)), "every global cell is owned once")
    for npatch in parts[1:]:
        o = evolve(cx, N, npatch, d, bc, ng, cpml, steps)
        cx.ok(set(o) == set(ref), "same set of global cells")
        for k in ref:
            s = c2 if k[0][0] == "b" else 1
            cx.eq(o[k] * s, ref[k] * s, "%s at global cell (%s): %s patches against %s" % (k[0], C.gname(k[1]), C.nm(npatch), C.nm(parts[0])))


def scenarios(tier):
    out = []
    full = tier == "thorough"

    def add(N, parts, bc, ng=2, steps=1, d=None, w=False, **kw):
        dim = len(N)
        d = d or (1.0, 0.5, 2.0)[:dim]
        out.append(Scn(C.nm(N, "-".join(C.nm(p) for p in parts), bc, ng, steps, *["%s=%s" % x for x in kw.items()]), run, dict(N=N, parts=parts, d=d, bc=bc, ng=ng, steps=steps, **kw), witness=w))
    add((4, 6), [(1, 1), (2, 1), (1, 2), (2, 3)], "pp", w=True)
    add((6, 6), [(1, 1), (3, 3)], "pp", ng=1)
    add((6, 4), [(1, 1), (3, 2)], "pp", ng=2, steps=2)
    add((4, 6), [(1, 1), (2, 2), (1, 3)], "pp", steps="half")
    add((4, 3, 4), [(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 1, 2)], "ppp", w=True)
    add((4, 6, 4), [(1, 1, 1), (2, 3, 2)], "ppp", ng=1, steps="half")
    add((4, 4, 4), [(1, 1, 1), (2, 2, 2)], "ppp", ng=2)
    # absorbing layers
    add((12, 3), [(2, 1), (3, 1), (4, 1)], "mp", ng=2, cpml=2)
    add((6, 12), [(1, 2), (2, 3)], "pm", ng=1, cpml=2, w=True)
    add((12, 12), [(2, 2), (3, 3)], "mm", ng=2, cpml=3)
    add((8, 2, 8), [(2, 1, 2), (2, 1, 4)], "mpm", ng=1, cpml=1)
    add((3, 12, 3), [(1, 2, 1), (1, 3, 1)], "pmp", ng=1, cpml=2)
    if full:
        add((12, 8), [(1, 1), (4, 2), (2, 4), (6, 4)], "pp", ng=1, steps=3)
        add((6, 6, 6), [(1, 1, 1), (3, 2, 1), (3, 3, 3)], "ppp", ng=2, steps=2)
        add((24, 4), [(2, 1), (3, 2), (4, 1)], "mp", ng=2, cpml=5, steps=3)
        add((8, 8, 8), [(2, 2, 2), (4, 2, 4)], "mmm", ng=1, cpml=1)
    return out
