"""Particle exchange with patches spread over MPI ranks."""
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import ptools as PT

BOUNDS = ("2D patch grids up to 3x2, 3D up to 2x2x2, 2..3 ranks (thorough 4), several ownership patterns; 3..4 cells per axis, absorbing layers one cell thick; up to 2 particles with free positions per run "
          "next to residents and dead slots; all attributes symbolic; 1..3 species whose exchanges are in flight together")
OUTSIDE = "more moving particles, larger grids and rank counts, displacements above one cell per step, floating-point rounding of patch edges"
ASSUMPTIONS = ["cell sizes are powers of two, so patch edges are exact", "a particle moves at most one cell per step", "the communicator behaves as MPI-3 specifies"]
PYFUNCS = ["lambdapic.core.mpi.mpi_manager:MPIManager2D/3D.sync_particles_start/wait", "lambdapic.core.patch.patch:Patches.sync_particles", "lambdapic.core.particles:ParticlesBase.extend",
           "lambdapic.simulation.simulation:Simulation.initialize"]


def run(cx, n, npatch, bc, specs, kinds, rankmap):
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]
    cpml = 1
    geo = (n, npatch, d, bc, cpml)

    def species():
        from lambdapic.core.species import Electron, Photon, Proton
        out, extra = [], []
        for k in kinds:
            s = {"e": lambda: Electron(), "p": lambda: Proton(), "q": lambda: Electron(radiation="photons")}[k]()
            if k == "q":
                extra.append(Photon())
                s.set_photon(extra[-1])
            out.append(s)
        return out + extra

    def body(sim, comm, rank):
        ps = sim.patches
        before = [{} for _ in kinds]
        for p in ps:
            for s in range(len(kinds)):
                q = p.particles[s]
                q._npart_created = 0
                before[s][p.index] = PT.build(cx, q, p.index, C.pidx(p, dim), geo, specs[s], s)
        hs = [sim.mpi.sync_particles_start(s) for s in range(len(sim.species))]
        for h in hs:
            sim.mpi.sync_particles_wait(h)
        ps.sync_particles()
        return before, [{p.index: PT.snapshot(p.particles[s]) for p in ps} for s in range(len(kinds))]
    res = C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=2, cpml=cpml, species=species), rankmap, body)
    pl = C.plist_of(npatch)
    for s in range(len(kinds)):
        before = C.merge([r[0][s] for r in res])
        after = C.merge([r[1][s] for r in res])
        cx.ok(sorted(before) == [i for i, _ in pl], "every patch owned exactly once")
        PT.verify(cx, before, after, pl, geo, "species %d: " % s if len(kinds) > 1 else "")


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(npatch, bc, m, *specs, kinds="e", w=False):
        for a in range(len(npatch)):
            if bc[a] == "m" and npatch[a] < 2:
                return
        nmx = "_".join("".join("%d%s" % kv for kv in sorted(s.items())) for s in specs)
        out.append(Scn(C.nm(npatch, bc, "".join(map(str, m)), nmx, kinds), run,
                       dict(n=(4, 3, 4)[:len(npatch)], npatch=npatch, bc=bc, specs=list(specs), kinds=kinds, rankmap=m), witness=w, nranks=max(m) + 1))
    for k, m in enumerate(C.rankmaps((2, 2), 2)):
        for i in range(4):
            add((2, 2), ["pp", "pm", "mp", "mm"][(i + k) % 4], m, {i: "lmd"}, w=i == k == 0)
            add((2, 2), "pp", m, {i: "m"})
    for k, m in enumerate(C.rankmaps((3, 2), 3)):
        for i in range(6):
            add((3, 2), ["pp", "pm", "mp", "mm"][(i + k) % 4], m, {i: "lmd"}, w=i == 0 and k == 1)
    add((3, 3), "pp", [0, 1, 2, 1, 0, 2, 2, 1, 0], {4: "m"})
    add((3, 3), "pp", [0, 0, 0, 0, 1, 0, 0, 0, 0], {4: "md"})
    add((2, 2), "pp", [0, 1, 1, 0], {0: "m", 3: "m", 1: "l", 2: "l"}, w=True)
    add((3, 1), "pp", [0, 1, 2], {0: "m", 2: "m", 1: "l"})
    add((3, 1), "pp", [0, 1, 0], {0: "m", 1: "dm", 2: ""})
    add((2, 2), "mm", [0, 0, 1, 1], {0: "?m", 1: "d?", 2: "dd", 3: "l"})
    add((2, 2), "pp", [0, 1, 1, 0], {0: "m", 1: ""}, {3: "m", 0: "dd"}, {1: "l"}, kinds="eqp")
    add((2, 2), "pm", [0, 0, 1, 1], {0: "", 1: "", 2: "", 3: ""}, {3: "m", 0: ""}, kinds="ep")
    m3 = [[0, 1, 1, 0, 1, 0, 0, 1], [0, 0, 0, 0, 1, 1, 1, 1], [0, 1, 2, 0, 1, 2, 0, 1]]
    for k, m in enumerate(m3):
        for i in range(8):
            if full or (i + k) % 3 == 0 or k == 0:
                add((2, 2, 2), ["ppp", "mmm", "pmp", "mpm"][(i + k) % 4] if k else "ppp", m, {i: "lm"}, w=i == 0 and k == 0)
    add((2, 1, 1), "ppp", [0, 1], {0: "lmd"})
    add((1, 2, 1), "ppp", [1, 0], {0: "lmd"})
    add((1, 1, 2), "ppp", [0, 1], {0: "lmd"})
    add((3, 2, 1), "mpp", [0, 1, 2, 1, 2, 0], {1: "m"})
    add((2, 2, 1), "pmp", [0, 1, 1, 0], {0: "m", 3: "m"})
    if full:
        for k, m in enumerate(C.rankmaps((3, 3), 4) + C.rankmaps((4, 2), 3)):
            g = (3, 3) if len(m) == 9 else (4, 2)
            for bc in ["pp", "mm", "pm", "mp"]:
                for i in range(len(m)):
                    add(g, bc, m, {i: "md"})
        for bc in ["pp", "mm"]:
            add((2, 2), bc, [0, 1, 1, 0], {0: "mm", 3: "md", 1: "l"})
            add((3, 2), bc, [0, 1, 2, 2, 0, 1], {0: "m", 4: "m", 2: "m"})
        for bc in ["ppp", "mmm", "pmp", "mpm", "ppm", "mpp", "mmp", "pmm"]:
            for i in range(8):
                add((2, 2, 2), bc, [0, 1, 2, 3, 1, 0, 3, 2], {i: "md"})
        add((3, 2, 2), "ppp", [0, 1, 2, 1, 2, 0, 0, 2, 1, 2, 1, 0], {0: "m", 6: "m"})
    return out
