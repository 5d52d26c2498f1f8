"""Guard exchange inside one process."""
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D: patch grids 1x1..3x3, 3..4 cells per patch per axis, 1..3 guard cells, every periodic/open combination per side pair; "
          "3D: 1x1x1..3x2x2, 2..3 cells, 1..2 guard cells; all field values symbolic reals, one field attribute per run plus one run with all six")
OUTSIDE = "larger patch grids and patch sizes; patch order other than the one create_patches uses (covered with rank maps in G03)"
ASSUMPTIONS = ["field values are reals (the exchange only copies)", "guard width not larger than the patch"]
PYFUNCS = ["lambdapic.core.patch.patch:Patches.sync_guard_fields", "lambdapic.core.patch.patch:Patches.init_rect_neighbor_index_2d/3d",
           "lambdapic.core.patch.patch:Patches.init_neighbor_ipatch_2d/3d", "lambdapic.simulation.simulation:create_patches"]


def run(cx, n, npatch, bc, ng, attrs):
    d = (0.5, 0.25, 2.0)[:len(n)]
    sim = C.local_sim(cx, n, npatch, d, bc, ng)
    C.fill_guard_case(cx, sim.patches, n, npatch, bc, ng, attrs)
    sim.patches.sync_guard_fields(attrs)
    get = {p.index: p for p in sim.patches}
    C.check_guard_case(cx, lambda i, at: getattr(get[i].fields, at), C.plist_of(npatch), n, npatch, bc, ng, attrs)


def scenarios(tier):
    out = []

    def add(n, npatch, bc, ng, attrs=("ey",), w=False):
        out.append(Scn(C.nm(n, npatch, "".join(bc), ng, "".join(attrs)), run, dict(n=n, npatch=npatch, bc=bc, ng=ng, attrs=list(attrs)), witness=w))
    full = tier == "thorough"
    for npatch in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3)]:
        for bc in ["pp", "mm", "pm", "mp"]:
            add((4, 3), npatch, bc, 2, w=npatch == (3, 2))
    for ng in (1, 3):
        add((3, 4), (2, 3), "pp", ng)
        add((4, 3), (3, 2), "pm", ng)
    add((3, 4), (2, 2), "pp", 3, ("ex", "ey", "ez", "bx", "by", "bz"), w=True)
    add((3, 4), (2, 3), "pm", 2, ("bz", "jx", "rho"))
    for npatch in [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 2), (3, 2, 2)]:
        for bc in (["ppp", "mmm", "pmm", "mpm", "mmp", "ppm"] if full or npatch in ((2, 2, 2), (3, 2, 2)) else ["ppp", "mpm"]):
            add((3, 2, 4), npatch, bc, 2, w=npatch == (3, 2, 2) and bc == "ppp")
    add((2, 3, 2), (2, 3, 2), "ppp", 1, ("ez",))
    add((3, 3, 4), (2, 2, 3), "mpp", 3, ("bx",))
    add((2, 2, 2), (2, 2, 2), "ppp", 2, ("ex", "ey", "ez", "bx", "by", "bz"))
    if full:
        for n in [(3, 3), (5, 4), (8, 3)]:
            for npatch in [(4, 3), (3, 4), (5, 2)]:
                for bc in ["pp", "mm", "pm", "mp"]:
                    for ng in (1, 2, 3):
                        add(n, npatch, bc, ng)
        for npatch in [(3, 3, 3), (2, 3, 4), (4, 2, 3)]:
            for bc in ["ppp", "mmm", "pmm", "mpp", "mmp"]:
                for ng in (1, 2, 3):
                    add((3, 4, 3), npatch, bc, ng)
    return out
