"""Particle identity."""
import itertools
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import ptools as PT

BOUNDS = ("2D 2x1, 2x2 and 1x2 patch grids on 1..2 ranks, 3D 1x2x1; electron, positron and photon species coupled by radiation and pair production; 1..2 free-moving particles and up to 2 free event flags per species; "
          "histories of up to 7 operations drawn from exchange, radiation, pair production, growth, pruning and rebalancing; plus the ids handed out by loading a plasma on 1..3 ranks, and one growth near the 2^32 limit")
OUTSIDE = "longer histories, more than 16383 ranks, 2^18 patches per rank or 2^32 creations per patch (refused by an assertion)"
ASSUMPTIONS = ["a particle moves at most one cell per exchange"]
PYFUNCS = ["lambdapic.core.particles:ParticlesBase.__init__/initialize/extend/prune/_generate_ids/renew_ids", "lambdapic.core.patch.patch:Patches.add_species/sync_particles",
           "lambdapic.core.qed.radiation:NonlinearComptonLCFA.create_particles/reaction", "lambdapic.core.qed.pair_production:NonlinearPairProductionLCFA.create_particles/reaction",
           "lambdapic.core.mpi.mpi_manager:MPIManager.sync_particles", "lambdapic.core.mpi.load_balancer:LoadBalancer"]


def qed_species():
    from lambdapic.core.species import Electron, Photon, Positron
    e, p, g = Electron(radiation="photons"), Positron(radiation="photons"), Photon()
    e.set_photon(g)
    p.set_photon(g)
    g.set_bw_pair(electron=e, positron=p)
    return [e, p, g]


def live(ps, s):
    out = []
    for p in ps:
        q = p.particles[s]
        for k, i in enumerate(PT.bits(q._id)):
            if not q.is_dead[k]:
                out.append(int(i))
    return out


def check(cx, name, ranks):
    """ranks: list of per-species id lists of every rank"""
    for s in range(len(ranks[0])):
        ids = [i for r in ranks for i in r[s]]
        dup = sorted({hex(i) for i in ids if ids.count(i) > 1})
        cx.ok(not dup, "%s: live particles of species %d share ids %s" % (name, s, dup))


def run(cx, n, npatch, bc, rankmap, specs, ops):
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]
    geo = (n, npatch, d, bc, 1)

    def body(sim, comm, rank):
        ps = sim.patches
        log = []
        nspec = 3
        for p in ps:
            for s in range(nspec):
                PT.build(cx, p.particles[s], p.index, C.pidx(p, dim), geo, specs[s], s, fixed=())
        for p in ps:
            for q in p.particles:
                q.extended = True
        sim.update_lists()
        log.append(("start", [live(ps, s) for s in range(nspec)]))
        for io, op in enumerate(ops):
            kept = [[{int(i): (p.index, k) for k, i in enumerate(PT.bits(p.particles[s]._id)) if not p.particles[s].is_dead[k]} for s in range(nspec)] for p in ps]
            same = True
            if op == "sync":
                hs = [sim.mpi.sync_particles_start(s) for s in range(nspec)]
                for h in hs:
                    sim.mpi.sync_particles_wait(h)
                ps.sync_particles()
                same = False
            elif op in ("rad", "pair"):
                mods = [sim.radiation[0], sim.radiation[1]] if op == "rad" else [sim.pairproduction[2]]
                for m in mods:
                    for p in ps:
                        q = p.particles[m.ispec]
                        for k in range(q.npart):
                            q.event[k] = (not q.is_dead[k]) and k < 2 and cx.bool("ev%d_s%d_p%d_%d" % (io, m.ispec, p.index, k))
                            if not q.is_dead[k]:
                                q.delta[k] = cx.num(0.25 + 0.125 * k)
                    m._update_particle_lists()
                    m.create_particles()
                    if op == "pair":
                        m.reaction()
            elif op == "grow":
                for p in ps:
                    for q in p.particles:
                        q.extend(2)
            elif op == "prune":
                for p in ps:
                    for q in p.particles:
                        q.prune()
                same = False
            elif op == "balance":
                comm.Barrier()
                sim.load_balancer.update_weights()
                sim.load_balancer()
                sim.update_patches()
                ps = sim.patches
                same = False
            sim.update_lists()
            log.append(("%d:%s" % (io, op), [live(ps, s) for s in range(nspec)]))
            if same:
                for p, kp in zip(ps, kept):
                    for s in range(nspec):
                        b = PT.bits(p.particles[s]._id)
                        for i, (_, k) in kp[s].items():
                            if not p.particles[s].is_dead[k]:
                                cx.ok(int(b[k]) == i, "%s: the id of a live particle changed" % op)
        return log
    res = C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=2, cpml=1, species=qed_species), rankmap, body)
    for k in range(len(res[0])):
        check(cx, res[0][k][0], [r[k][1] for r in res])


def run_init(cx, npatch, n, rankmap, ppc):
    from lambdapic.core.species import Electron, Proton
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]

    def species():
        f = (lambda x, y: 1.0) if dim == 2 else (lambda x, y, z: 1.0)
        return [Electron(density=f, ppc=ppc), Proton(density=f, ppc=ppc)]

    def body(sim, comm, rank):
        ps = sim.patches
        a = [live(ps, s) for s in range(2)]
        for p in ps:
            for s in range(2):
                k = p.particles[s].npart
                p.particles[s].extend(3)
                p.particles[s].is_dead[k:] = False
        return a, [live(ps, s) for s in range(2)]
    res = C.dist(cx, dict(n=n, npatch=npatch, d=d, bc="p" * dim, ng=2, species=species), rankmap, body)
    for s in range(2):
        cx.ok(sum(len(r[0][s]) for r in res) == int(np.prod(n)) * int(np.prod(npatch)) * ppc, "loaded particle count")
    check(cx, "loading", [r[0] for r in res])
    check(cx, "loading and growth", [r[1] for r in res])
    cx.ok(cx.real("reach") * 0 == 0, "reached")


def run_container(cx, n0, nops, kinds):
    """one container: any history of growth, pruning, deaths and departures"""
    import lambdapic.core.particles as LP
    q = getattr(LP, kinds)(ipatch=5, rank=3)
    q.initialize(n0)
    away = []
    for k in range(nops):
        op = cx.choice("op%d" % k, ["grow1", "grow3", "prune0", "prune1", "die", "leave"])
        if op[:4] == "grow":
            m, mine = q.npart, PT.bits(q._id).tolist()
            q.extend(int(op[4:]))
            cx.ok(bool(q.is_dead[m:].all()), "grown slots must start dead")
            cx.ok(PT.bits(q._id).tolist()[:m] == mine, "growth changed an id")
            q.is_dead[m:] = False
        elif op[:5] == "prune":
            mine = sorted(i for i, x in zip(PT.bits(q._id).tolist(), q.is_dead) if not x)
            q.prune(0.0 if op == "prune0" else 1.0)
            cx.ok(sorted(i for i, x in zip(PT.bits(q._id).tolist(), q.is_dead) if not x) == mine, "pruning changed the ids of the live particles")
        else:
            sl = [i for i in range(q.npart) if not q.is_dead[i]]
            if not sl:
                continue
            w = cx.choice("where%d" % k, ["first", "last", "all", "odd"])
            sl = {"first": sl[:1], "last": sl[-1:], "all": sl, "odd": sl[1::2]}[w]
            for i in sl:
                if op == "leave":
                    away.append(int(PT.bits(q._id)[i]))
                q.is_dead[i] = True
        ids = [i for i, x in zip(PT.bits(q._id).tolist(), q.is_dead) if not x] + away
        cx.ok(len(set(ids)) == len(ids), "two live particles share an id after operation %d (%s)" % (k, op))


def run_limits(cx):
    """bit layout: distinct (rank, patch, counter) triples give distinct ids"""
    from lambdapic.core.particles import ParticlesBase
    rk = [0, 1, 2, 8191, 16383]
    ipl = [0, 1, 2 ** 17, 2 ** 18 - 1]
    seen = {}
    a = cx.choice("rank_a", rk)
    b = cx.choice("rank_b", rk)
    ia = cx.choice("ipatch_a", ipl)
    ib = cx.choice("ipatch_b", ipl)
    ka = cx.choice("count_a", [0, 1, 2 ** 31, 2 ** 32 - 2])
    kb = cx.choice("count_b", [0, 1, 2 ** 31, 2 ** 32 - 2])
    pa, pb = ParticlesBase(ipatch=ia, rank=a), ParticlesBase(ipatch=ib, rank=b)
    xa, xb = pa._generate_ids(ka, 2).view(np.uint64), pb._generate_ids(kb, 2).view(np.uint64)
    cx.ok(xa[0] != xa[1], "consecutive ids equal")
    same = (a, ia) == (b, ib)
    for u in range(2):
        for v in range(2):
            eq = same and ka + u == kb + v
            cx.ok(bool(xa[u] == xb[v]) == eq, "id layout: rank %d/%d patch %d/%d counter %d/%d" % (a, b, ia, ib, ka + u, kb + v))


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(npatch, bc, m, specs, ops, w=False):
        nmx = "_".join("".join("%d%s" % kv for kv in sorted(s.items())) for s in specs)
        out.append(Scn(C.nm(npatch, bc, "".join(map(str, m)), nmx, ".".join(ops)), run,
                       dict(n=(4, 3, 4)[:len(npatch)], npatch=npatch, bc=bc, rankmap=m, specs=specs, ops=ops), witness=w, nranks=max(m) + 1))
    E = {0: "", 1: "", 2: "", 3: ""}
    pho = {**E, 0: "m"}
    add((2, 1), "pp", [0, 0], [{0: "l", 1: "l"}, E, {0: "m", 1: "l"}], ["sync", "rad"], True)
    add((2, 1), "pp", [0, 1], [{0: "l", 1: "l"}, E, {0: "m", 1: "l"}], ["sync", "rad", "sync"], True)
    add((2, 1), "pp", [0, 0], [{0: "m", 1: "l"}, {0: "d", 1: "m"}, {0: "l", 1: "l"}], ["sync", "pair"], False)
    add((2, 1), "pp", [0, 1], [{0: "m", 1: ""}, {0: "d", 1: "l"}, {0: "l", 1: "l"}], ["sync", "pair", "grow", "rad"])
    add((1, 2), "pm", [0, 0], [{0: "l", 1: "l"}, E, {0: "m", 1: "m"}], ["sync", "rad", "prune", "rad"])
    add((2, 1), "pp", [0, 0], [{0: "l", 1: ""}, E, {0: "m", 1: ""}], ["sync", "rad", "pair", "sync", "grow", "prune", "rad"])
    add((2, 2), "mm", [0, 1, 1, 0], [{0: "l", 3: "l", 1: "", 2: ""}, E, {0: "m", 3: "d", 1: "", 2: ""}], ["sync", "rad", "sync"])
    add((1, 2, 1), "ppp", [0, 1], [{0: "l", 1: "l"}, E, {0: "m", 1: ""}], ["sync", "rad", "pair"])
    for npatch, n, m in [((2, 2), (3, 2), [0, 0, 0, 0]), ((2, 2), (3, 2), [0, 1, 1, 0]), ((3, 1), (2, 3), [2, 0, 1]), ((1, 2, 2), (2, 3, 2), [0, 1, 0, 1])]:
        out.append(Scn(C.nm("load", npatch, "".join(map(str, m))), run_init, dict(npatch=npatch, n=n, rankmap=m, ppc=2), nranks=max(m) + 1))
    out.append(Scn("layout", run_limits, {}))
    for kd in ("ParticlesBase", "QEDParticles", "SpinQEDParticles"):
        out.append(Scn("container-" + kd, run_container, dict(n0=3, nops=5 if full and kd == "ParticlesBase" else 4 if kd == "ParticlesBase" else 3, kinds=kd), budget=400))
    if full:
        add((2, 2), "pp", [0, 1, 1, 0], [{0: "l", 3: "l", 1: "l", 2: "l"}, E, {0: "m", 3: "m", 1: "d", 2: ""}], ["sync", "rad", "pair", "sync"])
        add((2, 1), "pp", [0, 1], [{0: "m", 1: "m"}, {0: "m", 1: "d"}, {0: "l", 1: "l"}], ["sync", "pair", "sync", "rad", "prune", "grow", "rad"])
    return out
