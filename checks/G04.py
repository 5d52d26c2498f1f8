"""Current reduction with patches spread over MPI ranks."""
from sympic.harness import Scn
from . import common as C
from . import G03

BOUNDS = G03.BOUNDS.replace("field values symbolic", "deposits (interior and guard cells of jx, jy, jz, rho) symbolic")
OUTSIDE = G03.OUTSIDE
ASSUMPTIONS = ["sums over the reals (association ignored)", "the communicator behaves as MPI-3 specifies (virtual communicator; replays use the installed MPI library)"]
PYFUNCS = ["lambdapic.core.mpi.mpi_manager:MPIManager2D/3D.sync_currents_start/wait", "lambdapic.core.patch.patch:Patches.sync_currents",
           "lambdapic.simulation.simulation:Simulation.sync_currents_start/wait", "lambdapic.simulation.simulation:Simulation.initialize"]


def run(cx, n, npatch, bc, ng, rankmap, order):
    d = (0.5, 0.25, 2.0)[:len(n)]
    if rankmap is None:
        rankmap = [cx.choice("owner%d" % i, 2) for i in range(len(C.plist_of(npatch)))]
        if len(set(rankmap)) < 2:
            cx.ok(True, "single owner (decided by G02)")
            return

    def body(sim, comm, rank):
        ps = sim.patches
        C.fill_current_case(cx, ps, n, npatch, bc, ng)
        sim.current_synced = False
        if order == "overlap":
            sim.sync_currents_start()
            sim.sync_currents_start()
            sim.sync_currents_wait()
        else:
            sim.sync_currents()
            sim.sync_currents()
        return {p.index: {a: getattr(p.fields, a) for a in C.CURRENTS} for p in ps}
    res = C.merge(C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng), rankmap, body))
    pl = C.plist_of(npatch)
    cx.ok(sorted(res) == [i for i, _ in pl], "every patch owned exactly once")
    exp = C.current_expect(cx, pl, n, npatch, bc, ng)
    for index, pi in pl:
        for at in C.CURRENTS:
            a = res[index][at]
            for st, off in C.offsets(n, ng):
                if not C.is_guard(off, n):
                    g = C.glob(pi, off, n, npatch, bc)
                    cx.eq(a[st], exp[(at, g)], "interior sum: %s patch %d cell (%s)" % (at, index, C.gname(off)))


def scenarios(tier):
    out = [Scn(C.nm(n, np_, bc, ng, "r" + "".join(map(str, m)), o), run, dict(n=n, npatch=np_, bc=bc, ng=ng, rankmap=m, order=o), nranks=max(m) + 1, witness=w)
           for n, np_, bc, ng, m, o, w in G03.cases(tier)]
    for npatch, bc in [((2, 2), "pp")] + ([((3, 2), "pm"), ((2, 3), "pp")] if tier == "thorough" else []):
        out.append(Scn(C.nm("anyowner", npatch, bc), run, dict(n=(3, 4), npatch=npatch, bc=bc, ng=2, rankmap=None, order="overlap"), nranks=2, witness=False))
    return out
