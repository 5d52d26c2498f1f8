"""The position push."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin

BOUNDS = ("every simulated axis of 2D and 3D domains of one or two patches; electron, proton and photon species; up to 3 slots per patch with free positions, momenta, Lorentz factors and time step, every live/dead pattern; "
          "one push, two half pushes, and the positions after a full step of the simulation loop with zero fields")
OUTSIDE = "rounding"
ASSUMPTIONS = ["real arithmetic"]
PYFUNCS = ["lambdapic.core.pusher.pusher:PusherBase.push_position/generate_particle_lists/update_particle_lists", "lambdapic.core.pusher.cpu:push_position_2d/push_position_3d/push_position_patches_2d/push_position_patches_3d",
           "lambdapic.simulation.simulation:Simulation._init_pushers"]
U = ("ux", "uy", "uz")


def push(cx, dim, kinds, npart, npatch=None, halves=1):
    n = (3,) * dim
    d = (1.0, 0.5, 2.0)[:dim]
    cx.nonlinear_mode(0)
    dt = cx.real("cdt") * cx.num(Fraction(1, kin.LIGHT))
    sim = kin.setup(cx, n, d, [kin.species(cx, k) for k in kinds], npart, npatch=npatch)
    old = {}
    for p in sim.patches:
        for s, q in enumerate(p.particles):
            nm = "p%ds%d" % (p.index, s)
            vals = {a: [cx.real("%s_%s%d" % (a, nm, k)) for k in range(q.npart)] for a in "xyz"[:dim]}
            vals.update({a: [cx.real("%s_%s%d" % (a, nm, k)) for k in range(q.npart)] for a in U + ("inv_gamma",)})
            vals["is_dead"] = [cx.bool("dead_%s%d" % (nm, k)) for k in range(q.npart)]
            kin.setp(cx, q, **vals)
            old[p.index, s] = vals
    kin.relist(sim)
    for s in range(len(kinds)):
        for h in range(halves):
            sim.pusher[s].push_position(dt * Fraction(1, halves) if cx.symbolic else dt / halves)
    for p in sim.patches:
        for s, q in enumerate(p.particles):
            v = old[p.index, s]
            for k in range(q.npart):
                w = "%s slot %d of patch %d" % ("dead" if v["is_dead"][k] else "live", k, p.index)
                for b, a in enumerate("xyz"[:dim]):
                    dx = 0 if v["is_dead"][k] else cx.real("cdt") * v[U[b]][k] * v["inv_gamma"][k]
                    cx.eq(getattr(q, a)[k], v[a][k] + dx, "%s: %s %s" % (kinds[s], a, w))
                for a in U + ("inv_gamma",):
                    cx.eq(getattr(q, a)[k], v[a][k], "%s: %s changed in %s" % (kinds[s], a, w))
                cx.ok(bool(q.is_dead[k]) == bool(v["is_dead"][k]), "dead flag changed")


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(dim, kinds, npart, w=False, **kw):
        out.append(Scn(C.nm(push.__name__, "%dd" % dim, kinds, npart, *["%s=%s" % kv for kv in kw.items()]), push, dict(dim=dim, kinds=kinds, npart=npart, **kw), witness=w))
    for dim in (2, 3):
        for k in ("electron", "photon", "proton"):
            add(dim, [k], [3], w=k == "photon")
        add(dim, ["electron"], [2], npatch=(2, 1, 1)[:dim])
        add(dim, ["photon"], [2], npatch=(1, 2, 1)[:dim])
        add(dim, ["photon", "electron"], [2, 1])
        add(dim, ["photon"], [2], halves=2)
        if full:
            add(dim, ["photon"], [5])
            add(dim, ["electron", "photon", "proton"], [2, 2, 2], npatch=(1, 1, 1)[:dim])
            add(dim, ["photon"], [3], npatch=(2, 2, 1)[:dim], halves=2)
    return out
