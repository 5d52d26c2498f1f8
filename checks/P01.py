"""Particle exchange inside one process."""
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import ptools as PT

BOUNDS = ("2D patch grids 1x1..3x2 (thorough 3x3), 3D up to 2x2x2 (thorough 3x2x2); 4 cells per axis, absorbing layers one cell thick; up to 3 particles with free positions per run "
          "(anywhere in their patch or up to one cell outside, edges included) next to fixed residents and dead slots, free dead flags in some runs; all attributes symbolic; 1..2 species")
OUTSIDE = "more moving particles per patch, displacements above one cell per step (excluded by the time step limit), floating-point rounding of patch edges"
ASSUMPTIONS = ["cell sizes are powers of two, so patch edges are exact", "a particle moves at most one cell per step"]
PYFUNCS = ["lambdapic.core.patch.patch:Patches.sync_particles", "lambdapic.core.particles:ParticlesBase.extend/initialize", "lambdapic.core.patch.patch:Patch.xmin/xmax/...",
           "lambdapic.simulation.simulation:Simulation._set_global_domain_bounds"]


def run(cx, n, npatch, bc, specs, kinds, twice=False):
    from lambdapic.core.species import Electron, Photon, Positron
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]
    cpml = 1
    sim = C.local_sim(cx, n, npatch, d, bc, 2, cpml=cpml)
    geo = (n, npatch, d, bc, cpml)
    sim._init_pml()
    ps = sim.patches
    for kind in kinds:
        s = {"e": lambda: Electron(), "q": lambda: Electron(radiation="photons")}[kind]()
        if kind == "q":
            s.set_photon(Photon())
        ps.add_species(s)
    pl = C.plist_of(npatch)
    before = [{} for _ in kinds]
    for p in ps:
        for s in range(len(kinds)):
            before[s][p.index] = PT.build(cx, p.particles[s], p.index, C.pidx(p, dim), geo, specs[s], s)
    counts = ps.sync_particles()
    tot = 0
    after = []
    for s in range(len(kinds)):
        after.append({p.index: PT.snapshot(p.particles[s]) for p in ps})
        tot += PT.verify(cx, before[s], after[s], pl, geo, "species %d: " % s if len(kinds) > 1 else "")
        for p in ps:
            cx.ok(p.particles[s].extended or p.particles[s].npart == len(PT.slots(p.index, specs[s])), "storage grew without the extended flag")
    cx.ok(int(np.sum(counts)) >= tot, "live count report %s below the live particles %d" % (counts, tot))
    if twice:
        held = [{i: {k: (v.copy() if hasattr(v, "copy") else v) for k, v in a.items()} for i, a in x.items()} for x in after]
        for x in held:
            for a in x.values():
                a["vals"] = {k: np.array(v, dtype=object if cx.symbolic else float).copy() for k, v in a["vals"].items()}
        ps.sync_particles()
        for s in range(len(kinds)):
            PT.verify(cx, held[s], {p.index: PT.snapshot(p.particles[s]) for p in ps}, pl, geo, "second exchange: ")


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(npatch, bc, *specs, kinds="e", w=False, twice=False):
        n = (4, 3, 4)[:len(npatch)] if not full else (4, 3, 4)[:len(npatch)]
        n = tuple(max(m, 3) for m in n)
        for a in range(len(npatch)):
            if bc[a] == "m" and npatch[a] < 2:
                return
        nmx = "_".join("".join("%d%s" % kv for kv in sorted(s.items())) for s in specs)
        out.append(Scn(C.nm(npatch, bc, nmx, kinds), run, dict(n=n, npatch=npatch, bc=bc, specs=list(specs), kinds=kinds, twice=twice), witness=w))
    # one free particle in every patch position
    for npatch in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]:
        for bc in ["pp", "mm", "pm", "mp"]:
            for i in range(int(np.prod(npatch))):
                add(npatch, bc, {i: "lmd"}, w=i == 0 and npatch == (2, 2))
    # full storage, growth needed, several movers meeting in the same patch
    add((2, 2), "pp", {0: "m", 3: "m", 1: "l", 2: "l"}, w=True)
    add((2, 2), "mm", {0: "m", 3: "m", 1: "ll", 2: "d"})
    add((3, 1), "pp", {0: "mm", 2: "m", 1: "l"})
    add((1, 1), "pp", {0: "mm"})
    add((2, 2), "pm", {0: "?m", 1: "d?", 2: "dd", 3: ""})
    add((2, 1), "pp", {0: "mdm", 1: "lllll"})
    add((2, 2), "pp", {0: "m", 1: ""}, {3: "m", 0: "dd"}, kinds="eq")
    add((2, 2), "pp", {1: "md", 0: ""}, twice=True)
    for npatch in [(1, 1, 1), (2, 2, 2)]:
        for bc in ["ppp", "mmm", "pmp", "mpm"]:
            for i in range(int(np.prod(npatch))):
                if full or bc in ("ppp", "mmm") or i in (0, 5):
                    add(npatch, bc, {i: "lmd"}, w=i == 0 and bc == "ppp")
    for npatch in [(2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 2, 1)]:
        add(npatch, "ppp", {0: "lmd"})
        add(npatch, "mpp", {1: "m"})
        add(npatch, "ppm", {0: "m"})
    add((2, 2, 1), "pmp", {0: "m", 3: "m"})
    add((1, 2, 2), "ppp", {0: "m", 1: ""}, {3: "m", 0: "dd"}, kinds="eq")
    if full:
        for bc in ["pp", "mm", "pm", "mp"]:
            for i in range(9):
                add((3, 3), bc, {i: "mdm"})
            add((2, 2), bc, {0: "mm", 3: "md", 1: "l"})
            add((3, 2), bc, {0: "m", 4: "m", 2: "m"})
        for bc in ["ppp", "mmm", "pmp", "mpm", "ppm", "mpp", "mmp", "pmm"]:
            for i in range(8):
                add((2, 2, 2), bc, {i: "mdl"})
            add((2, 2, 2), bc, {0: "m", 7: "m"})
        add((3, 2, 2), "ppp", {0: "m", 6: "m"})
    return out
