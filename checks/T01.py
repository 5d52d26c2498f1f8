"""Neighbour tables."""
import numpy as np
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D patch grids up to 4x3, 3D up to 3x2x2 (thorough 3x3x2); every boundary combination per axis and (thorough and small grids) every ownership of up to 2 ranks as "
          "symbolic choices; larger grids with a spread of ownership patterns over 2..4 ranks; tables rebuilt through initialisation, through the load balancer and directly from maps over a subset of patches in arbitrary order")
OUTSIDE = "larger grids; boundaries that are periodic on one side only"
ASSUMPTIONS = ["an axis with absorbing layers on both sides has at least two patches (asserted by add_pml_boundary)", "a periodic axis is periodic on both sides"]
PYFUNCS = ["lambdapic.core.patch.patch:Patches.init_rect_neighbor_index_2d/3d", "lambdapic.core.patch.patch:Patches.init_neighbor_rank_2d/3d",
           "lambdapic.core.patch.patch:Patches.init_neighbor_ipatch_2d/3d", "lambdapic.simulation.simulation:Simulation(3D).create_patches", "lambdapic.simulation.simulation:Simulation.initialize",
           "lambdapic.core.mpi.load_balancer:LoadBalancer.__call__"]


def direction(name):
    """offset of a boundary from its name"""
    o = [0, 0, 0]
    i = 0
    while i < len(name):
        a = "XYZ".index(name[i])
        o[a] = -1 if name[i + 1:i + 4] == "MIN" else 1
        i += 4
    return tuple(o)


def verify(cx, tabs, npatch, bc, ranks, indices, index_of=None):
    """tabs: index -> (pidx, neighbor_index, neighbor_rank, neighbor_ipatch, owner); indices: rank -> ordered local indices"""
    from lambdapic.core.patch.patch import Boundary2D, Boundary3D
    dim = len(npatch)
    Bd = Boundary2D if dim == 2 else Boundary3D
    index_of = index_of or {pi: i for i, pi in C.plist_of(npatch)}
    cx.ok(len(Bd) == 3 ** dim - 1 and len({direction(b.name)[:dim] for b in Bd}) == 3 ** dim - 1, "one boundary per direction")
    byname = {direction(b.name)[:dim]: int(b) for b in Bd}
    for index, (pi, ni, nr, nl, owner) in tabs.items():
        cx.ok(owner == ranks[index], "patch %d owned by rank %s, expected %s" % (index, owner, ranks[index]))
        for b in Bd:
            o = direction(b.name)[:dim]
            q = []
            for a in range(dim):
                v = pi[a] + o[a]
                if not 0 <= v < npatch[a]:
                    v = v % npatch[a] if bc[a] == "p" else None
                q.append(v)
            want = index_of[tuple(q)] if None not in q else -1
            lab = "patch %d %s" % (index, b.name)
            cx.ok(int(ni[b]) == want, "neighbour index of %s is %d, expected %d" % (lab, ni[b], want))
            if want >= 0:
                wr = ranks[want]
                cx.ok(int(nr[b]) == (wr if wr != owner else -1), "neighbour rank of %s is %d, expected %d" % (lab, nr[b], wr if wr != owner else -1))
                wl = indices[owner].index(want) if want in indices[owner] else -1
                cx.ok(int(nl[b]) == wl, "neighbour slot of %s is %d, expected %d" % (lab, nl[b], wl))
                back = byname[tuple(-x for x in o)]
                if want in tabs:
                    cx.ok(int(tabs[want][1][back]) == index, "not mutual: %s" % lab)
            else:
                cx.ok(int(nr[b]) == -1 and int(nl[b]) == -1, "rank or slot recorded for a missing neighbour: %s" % lab)


def table(p, dim):
    return (C.pidx(p, dim), np.array(p.neighbor_index), np.array(p.neighbor_rank), np.array(p.neighbor_ipatch), p.rank)


def choose_bc(cx, dim, bc, npatch=None):
    return bc if bc is not None else "".join(cx.choice("bc%d" % a, ["p", "m"] if npatch is None or npatch[a] > 1 else ["p"]) for a in range(dim))


def run(cx, npatch, bc, rankmap, nranks, rebalance=None):
    dim = len(npatch)
    bc = choose_bc(cx, dim, bc, npatch)
    pl = C.plist_of(npatch)
    if rankmap is None:
        rankmap = [cx.choice("owner%d" % i, nranks) for i in range(len(pl))]
    if len(set(rankmap)) < nranks:
        cx.ok(True, "ownership leaves a rank empty (not a valid start)")
        return
    n, d = (4, 3, 4)[:dim], (0.5, 0.25, 2.0)[:dim]
    ng = 1

    def body(sim, comm, rank):
        xs = {p.index: (p.x0, p.y0) + ((p.z0,) if dim == 3 else ()) for p in sim.patches}
        if rebalance is not None:
            sim.load_balancer.threshold = 1e9
            sim.load_balancer.update_weights()
            sim.load_balancer()
        return ({p.index: table(p, dim) for p in sim.patches}, list(sim.patches.indices), xs, rank, [p.index for p in sim.patches])
    cfg = dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng)
    final = rankmap
    if rebalance is not None:
        from lambdapic.core.patch import metis
        final = rebalance

        def compute_rank(patches, nrank, weights, rank_prev=None):
            r = list(rebalance)
            return r, [r.count(i) for i in range(nrank)]
        cx.patch(metis, "compute_rank", compute_rank)
    res = C.dist(cx, cfg, rankmap, body)
    tabs = {}
    indices = {}
    for t, idx, xs, rank, order in res:
        tabs.update(t)
        indices[rank] = idx
        cx.ok(idx == order, "patch order and index list of rank %d differ" % rank)
        for i, x in xs.items():
            pi = dict(pl)[i]
            for a in range(dim):
                cx.ok(x[a] == pi[a] * n[a] * d[a], "origin of patch %d axis %d: %r" % (i, a, x[a]))
    cx.ok(sorted(tabs) == [i for i, _ in pl], "patches owned exactly once: %s" % sorted(tabs))
    if sorted(tabs) == [i for i, _ in pl]:
        verify(cx, tabs, npatch, bc, final, indices)


def run_subset(cx, npatch, bc, nranks):
    """tables rebuilt on one rank from maps of the whole grid (moving window), local patches in a permuted order"""
    from lambdapic.core.patch.patch import Patches, Patch2D, Patch3D
    dim = len(npatch)
    bc = choose_bc(cx, dim, bc)
    pl = C.plist_of(npatch)
    P = len(pl)
    shift = cx.choice("shift", min(P, 4))
    index_of = {pi: (i + shift) % P for i, pi in pl}         # indices need not follow the grid order
    owner = {i: cx.choice("owner%d" % i, nranks) for i in range(P)} if P <= 4 else {i: (i * 2 + i // 3) % nranks for i in range(P)}
    me = 0
    local = [(index_of[pi], pi) for i, pi in pl if owner[index_of[pi]] == me]
    if cx.bool("reverse"):
        local = local[::-1]
    ps = Patches(dim)
    for i, pi in local:
        if dim == 2:
            ps.append(Patch2D(me, i, pi[0], pi[1], 0.0, 0.0, 4, 3, 0.5, 0.25))
        else:
            ps.append(Patch3D(me, i, pi[0], pi[1], pi[2], 0.0, 0.0, 0.0, 4, 3, 4, 0.5, 0.25, 2.0))
    bcd = C.bc_dict(bc, dim)
    if dim == 2:
        ps.init_rect_neighbor_index_2d(npatch[0], npatch[1], boundary_conditions=bcd, patch_index_map=dict(index_of))
        ps.init_neighbor_ipatch_2d()
        ps.init_neighbor_rank_2d(dict(owner))
    else:
        ps.init_rect_neighbor_index_3d(npatch[0], npatch[1], npatch[2], boundary_conditions=bcd, patch_index_map=dict(index_of))
        ps.init_neighbor_ipatch_3d()
        ps.init_neighbor_rank_3d(dict(owner))
    tabs = {p.index: table(p, dim) for p in ps}
    cx.ok(len(tabs) == len(local), "all local patches")
    verify(cx, tabs, npatch, bc, owner, {me: list(ps.indices)}, index_of)


def scenarios(tier):
    out = []
    full = tier == "thorough"

    def add(npatch, bc, m, nr, w=False, reb=None):
        out.append(Scn(C.nm(npatch, bc or "anybc", "r" + ("any%d" % nr if m is None else "".join(map(str, m))), "to" + "".join(map(str, reb)) if reb else "init"), run,
                       dict(npatch=npatch, bc=bc, rankmap=m, nranks=nr, rebalance=reb), nranks=nr, witness=w))
    for npatch in [(1, 1), (2, 1), (3, 1), (1, 4), (3, 3), (4, 3), (1, 1, 1), (2, 1, 3), (2, 2, 2), (3, 2, 2)]:
        add(npatch, None, [0] * int(np.prod(npatch)), 1, w=npatch in ((4, 3), (3, 2, 2)))
    add((2, 2), None, None, 2)
    add((1, 2, 2), "ppm", None, 2)
    if full:
        add((3, 2), None, None, 2)
        add((2, 2), None, None, 3)
        add((2, 2, 2), "ppp", None, 2)
        add((2, 2, 2), "mpm", None, 2)
        add((2, 1, 2), "mpp", None, 3)
    for npatch in [(3, 3), (4, 3), (2, 2, 2), (3, 2, 2)] + ([(4, 4), (3, 3, 2)] if full else []):
        dim = len(npatch)
        for nr in (2, 3, 4):
            ms = C.rankmaps(npatch, nr)
            for k, m in enumerate(ms):
                if full or k % 2 == nr % 2:
                    add(npatch, (["pp", "pm", "mm", "mp"] if dim == 2 else ["ppp", "pmp", "mpp", "ppm"])[k % 4], m, nr, w=k == 1 and nr == 3)
                    add(npatch, (["pp", "mp", "pm"] if dim == 2 else ["ppp", "mpp", "pmm"])[k % 3], m, nr, reb=ms[(k + 1) % len(ms)], w=nr == 2 and k == 2)
    for npatch in [(2, 2), (3, 3), (2, 2, 1), (2, 2, 2), (3, 2, 2)]:
        out.append(Scn(C.nm("maps", npatch), run_subset, dict(npatch=npatch, bc=None, nranks=2), witness=npatch == (3, 3)))
    out.append(Scn(C.nm("maps3", (3, 2, 2)), run_subset, dict(npatch=(3, 2, 2), bc=None, nranks=3), witness=True))
    return out
