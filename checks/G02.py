"""Current reduction inside one process."""
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D: patch grids 1x1..3x3, 3..4 cells per patch per axis, 1..3 guard cells, periodic/open per axis; "
          "3D: 1x1x1..3x2x2, 2..3 cells, 1..2 guard cells; every cell of jx, jy, jz, rho (guards included) a symbolic real; reduction applied once and twice")
OUTSIDE = "larger patch grids and patch sizes"
ASSUMPTIONS = ["sums over the reals (floating-point association ignored)", "guard width not larger than the patch"]
PYFUNCS = ["lambdapic.core.patch.patch:Patches.sync_currents", "lambdapic.core.patch.patch:Patches.init_neighbor_ipatch_2d/3d"]


def run(cx, n, npatch, bc, ng, twice):
    d = (0.5, 0.25, 2.0)[:len(n)]
    sim = C.local_sim(cx, n, npatch, d, bc, ng)
    C.fill_current_case(cx, sim.patches, n, npatch, bc, ng)
    sim.patches.sync_currents()
    if twice:
        sim.patches.sync_currents()
    get = {p.index: p for p in sim.patches}
    C.check_current_case(cx, lambda i, at: getattr(get[i].fields, at), C.plist_of(npatch), n, npatch, bc, ng)


def scenarios(tier):
    out = []

    def add(n, npatch, bc, ng, twice=False, w=False):
        out.append(Scn(C.nm(n, npatch, "".join(bc), ng, "twice" if twice else "once"), run, dict(n=n, npatch=npatch, bc=bc, ng=ng, twice=twice), witness=w))
    full = tier == "thorough"
    for npatch in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3)]:
        for bc in ["pp", "mm", "pm", "mp"]:
            add((4, 3), npatch, bc, 2, twice=npatch in ((2, 2), (3, 2), (1, 1)), w=npatch == (3, 2))
    for ng in (1, 3):
        add((3, 4), (2, 3), "pp", ng)
        add((4, 3), (3, 2), "pm", ng)
        add((3, 3), (2, 2), "pp", ng, True)
    for npatch in [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 2)]:
        for bc in (["ppp", "mmm", "pmm", "mpm", "mmp", "ppm"] if full else ["ppp", "mpm", "pmp"]):
            add((3, 2, 4), npatch, bc, 2, w=npatch == (2, 2, 2) and bc == "ppp")
    add((2, 3, 2), (2, 3, 2), "ppp", 1)
    add((3, 2, 2), (3, 2, 2), "mpp", 2)
    add((3, 3, 3), (2, 1, 2), "ppp", 3)
    add((2, 2, 2), (2, 2, 2), "ppp", 2, True)
    if full:
        for n in [(3, 3), (5, 4), (8, 3)]:
            for npatch in [(4, 3), (3, 4), (5, 2)]:
                for bc in ["pp", "mm", "pm", "mp"]:
                    for ng in (1, 2, 3):
                        add(n, npatch, bc, ng)
        for npatch in [(3, 3, 3), (2, 3, 4), (4, 2, 3)]:
            for bc in ["ppp", "mmm", "mpp"]:
                for ng in (1, 2):
                    add((3, 2, 3), npatch, bc, ng)
    return out
