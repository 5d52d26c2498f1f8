"""Guard exchange with patches spread over MPI ranks."""
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D: patch grids up to 3x3 (thorough 4x3), 2..4 ranks; 3D: up to 2x2x2 (thorough 3x2x2), 2..3 ranks; 3 cells per axis, 1..3 guard cells; "
          "five ownership patterns per rank count plus, on 2x2 (thorough 3x2, 2x3), every assignment to 2 ranks as symbolic choices; all field values symbolic; one message-delivery order per run, "
          "receive buffers are poisoned until the matching wait")
OUTSIDE = "larger grids and rank counts; MPI library faults"
ASSUMPTIONS = ["the communicator behaves as MPI-3 specifies (virtual communicator; replays use the installed MPI library)"]
PYFUNCS = ["lambdapic.core.mpi.mpi_manager:MPIManager2D/3D.sync_guard_fields_start/wait", "lambdapic.core.patch.patch:Patches.sync_guard_fields",
           "lambdapic.simulation.simulation:Simulation.initialize"]
ATTRS = ["ey", "bz"]


def run(cx, n, npatch, bc, ng, rankmap, order):
    d = (0.5, 0.25, 2.0)[:len(n)]
    if rankmap is None:
        rankmap = [cx.choice("owner%d" % i, 2) for i in range(len(C.plist_of(npatch)))]
        if len(set(rankmap)) < 2:
            cx.ok(True, "single owner (decided by G01)")
            return

    def body(sim, comm, rank):
        ps = sim.patches
        C.fill_guard_case(cx, ps, n, npatch, bc, ng, ATTRS)
        if order == "overlap":
            h = sim.mpi.sync_guard_fields_start(ATTRS)
            ps.sync_guard_fields(ATTRS)
            sim.mpi.sync_guard_fields_wait(h)
        else:
            ps.sync_guard_fields(ATTRS)
            sim.mpi.sync_guard_fields(ATTRS)
        return {p.index: {a: getattr(p.fields, a) for a in ATTRS} for p in ps}
    res = C.merge(C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng), rankmap, body))
    pl = C.plist_of(npatch)
    cx.ok(sorted(res) == [i for i, _ in pl], "every patch owned exactly once")
    C.check_guard_case(cx, lambda i, at: res[i][at], pl, n, npatch, bc, ng, ATTRS)


def cases(tier):
    full = tier == "thorough"
    out = []

    def add(n, npatch, bc, ng, m, order="overlap", w=False):
        out.append((n, npatch, bc, ng, m, order, w))
    for npatch in [(3, 2), (2, 3), (3, 3)] + ([(4, 3)] if full else []):
        for nr in (2, 3) + ((4,) if full else ()):
            for k, m in enumerate(C.rankmaps(npatch, nr)):
                for bc in (["pp", "mm", "pm", "mp"] if full else [["pp", "pm", "mp", "mm", "pp"][k % 5]]):
                    add((3, 4), npatch, bc, 2, m, w=k == 1 and npatch == (3, 3) and nr == 3)
    add((3, 4), (3, 2), "pp", 3, [0, 1, 2, 2, 1, 0], "after")
    add((4, 3), (2, 1), "pp", 1, [0, 1])
    add((4, 3), (1, 2), "pp", 2, [1, 0])
    for npatch in [(2, 2, 2), (2, 1, 2), (1, 2, 2)] + ([(3, 2, 2), (2, 3, 2)] if full else []):
        for nr in (2, 3):
            for k, m in enumerate(C.rankmaps(npatch, nr)):
                if not full and npatch != (2, 2, 2) and k > 1:
                    continue
                for bc in (["ppp", "mmm", "pmm", "mpp"] if full else [["ppp", "mpp", "ppm", "pmp", "mmm"][k % 5]]):
                    add((3, 2, 3) if k % 2 else (2, 3, 4), npatch, bc, 2, m, w=k == 1 and npatch == (2, 2, 2))
    add((3, 2, 2), (3, 1, 1), "ppp", 1, [0, 1, 0])
    add((3, 3, 3), (2, 1, 2), "ppp", 3, [0, 1, 1, 0], "after")
    return out


def scenarios(tier):
    out = [Scn(C.nm(n, np_, bc, ng, "r" + "".join(map(str, m)), o), run, dict(n=n, npatch=np_, bc=bc, ng=ng, rankmap=m, order=o), nranks=max(m) + 1, witness=w)
            for n, np_, bc, ng, m, o, w in cases(tier)]
    for npatch, bc in [((2, 2), "pp")] + ([((3, 2), "pm"), ((2, 3), "pp")] if tier == "thorough" else []):
        out.append(Scn(C.nm("anyowner", npatch, bc), run, dict(n=(3, 4), npatch=npatch, bc=bc, ng=2, rankmap=None, order="overlap"), nranks=2))
    return out
