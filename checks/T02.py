"""Repartitioning."""
import numpy as np
from sympic.harness import Scn
from . import common as C

BOUNDS = ("relabelling: overlap matrices 2x2 and 3x3 (thorough 4x4) with arbitrary symbolic non-negative entries; compute_rank: 4 patches (thorough 5), 2-3 ranks, every previous and "
          "every proposed partition as symbolic choices of the partitioner stub; migration: 2x2 and 3x2 patches (2D), 2x2x1 (3D) on 2-3 ranks, every proposed partition or a spread of them, symbolic fields and "
          "particles, one or two successive rebalances, absorbing and periodic edges")
OUTSIDE = "the partition METIS itself chooses (stubbed by an arbitrary one without empty parts); larger grids; load weights"
ASSUMPTIONS = ["pymetis.part_graph returns an arbitrary partition", "dill/pickle copy objects faithfully"]
PYFUNCS = ["lambdapic.core.patch.metis:compute_rank", "lambdapic.core.patch.metis:arg_sort_rows_by_diagonal_max", "lambdapic.core.mpi.load_balancer:LoadBalancer.__call__/_gather_loads/_compute_distribution/_exchange/_finalize",
           "lambdapic.core.patch.patch:Patch.copy_skeleton"]


def run_perm(cx, n):
    from lambdapic.core.patch.metis import arg_sort_rows_by_diagonal_max
    m = cx.array("nsame", (n, n), lo=0)
    r = arg_sort_rows_by_diagonal_max(m)
    cx.ok(sorted(int(v) for v in r) == list(range(n)), "relabelling is not a permutation: %s" % [int(v) for v in r])


class FakePatches(list):
    pass


def run_rank(cx, P, nr):
    import pymetis
    from lambdapic.core.patch.metis import compute_rank
    from lambdapic.core.patch.patch import Patches, Patch2D
    part = [cx.choice("part%d" % i, nr) for i in range(P)]
    first = cx.bool("initial")
    prev = None if first else np.array([cx.choice("prev%d" % i, nr) for i in range(P)])
    ps = Patches(2)
    for i in range(P):
        ps.append(Patch2D(0, i, i, 0, 0.0, 0.0, 4, 3, 0.5, 0.25))
    ps.init_rect_neighbor_index_2d(P, 1, boundary_conditions=C.bc_dict("pp", 2))
    cx.patch(pymetis, "part_graph", lambda n, **k: (0, list(part)))
    ranks, cnt = compute_rank(ps, nr, np.ones(P, dtype=np.int64), prev)
    ranks = [int(r) for r in ranks]
    cx.ok(len(ranks) == P and all(0 <= r < nr for r in ranks), "every patch gets a rank: %s" % ranks)
    for i in range(P):
        for j in range(i):
            cx.ok((ranks[i] == ranks[j]) == (part[i] == part[j]), "relabelling merges or splits parts: %s -> %s" % (part, ranks))
    cx.ok([int(c) for c in cnt] == [ranks.count(r) for r in range(nr)], "counts per rank %s for %s" % (cnt, ranks))
    if set(part) == set(range(nr)):
        cx.ok(set(ranks) == set(range(nr)), "a rank ends up without patches")


PATTRS = ["x", "y", "w", "ux", "_id"]


def run_move(cx, npatch, bc, rankmap, parts, nranks):
    """full rebalance; parts: list of successive partitions (None = symbolic)"""
    import pymetis
    dim = len(npatch)
    pl = C.plist_of(npatch)
    P = len(pl)
    proposals = []
    for k, m in enumerate(parts):
        m = [cx.choice("part%d_%d" % (k, i), nranks) for i in range(P)] if m is None else m
        proposals.append(m)
        if set(m) != set(range(nranks)):
            cx.ok(True, "partition with an empty part")
            return
    it = {}

    def part_graph(n, **k):
        it["n"] = it.get("n", -1) + 1
        return 0, list(proposals[it["n"]])
    cx.patch(pymetis, "part_graph", part_graph)
    n, d, ng = (4, 3, 3)[:dim], (0.5, 0.25, 2.0)[:dim], 1
    FA = ["ex", "bz", "rho"]

    def content(index):
        npart = 1 + index % 3
        out = {}
        shape = tuple(m + 2 * ng for m in n)
        for at in FA:
            out[at] = cx.array("%s_%d" % (at, index), shape)
        for s in range(2):
            for at in PATTRS:
                if at == "_id":
                    out["s%d_%s" % (s, at)] = np.array([1000.0 * (s + 1) + 10 * index + k for k in range(npart)])
                else:
                    out["s%d_%s" % (s, at)] = cx.array("s%d_%s_%d" % (s, at, index), (npart,))
            out["s%d_dead" % s] = np.array([(k + index + s) % 3 == 1 for k in range(npart)])
        return out

    def body(sim, comm, rank):
        for p in sim.patches:
            c = content(p.index)
            for at in FA:
                setattr(p.fields, at, c[at].copy())
            for s in range(2):
                q = p.particles[s]
                q.initialize(len(c["s%d_dead" % s]))
                for at in PATTRS:
                    setattr(q, at, c["s%d_%s" % (s, at)].copy())
                q.is_dead = c["s%d_dead" % s].copy()
                q._npart_created = 100 + p.index
            for k, pml in enumerate(p.pml_boundary):
                pml.tagvalue = 10 * p.index + k
        nmoves = 0
        for _ in proposals:
            sim.load_balancer.update_weights()
            sim.load_balancer()
            sim.load_balancer.threshold = 0.1
        out = {}
        for p in sim.patches:
            r = {at: getattr(p.fields, at) for at in FA}
            for s in range(2):
                q = p.particles[s]
                for at in PATTRS:
                    r["s%d_%s" % (s, at)] = getattr(q, at)
                r["s%d_dead" % s] = q.is_dead
                r["s%d_meta" % s] = (q.npart, q._npart_created, list(q.attrs))
            r["pml"] = [(type(b).__name__, b.tagvalue, b.fields is p.fields) for b in p.pml_boundary]
            r["place"] = (C.pidx(p, dim), p.x0, p.y0)
            r["tab"] = (np.array(p.neighbor_index), np.array(p.neighbor_rank), np.array(p.neighbor_ipatch))
            out[p.index] = r
        ranks_of = {p.index: p.rank for p in sim.patches}
        return out, list(sim.patches.indices), sim.patches.npatches, ranks_of

    def species():
        from lambdapic.core.species import Electron, Proton
        return [Electron(), Proton()]
    res = C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng, species=species), rankmap, body)
    owner = {}
    for r, (out, indices, np_, ranks_of) in enumerate(res):
        cx.ok(sorted(out) == sorted(indices) and len(indices) == np_, "index list of rank %d does not match its patches" % r)
        for i in out:
            cx.ok(i not in owner, "patch %d owned twice" % i)
            owner[i] = r
            cx.ok(ranks_of[i] == r, "patch %d records owner %s on rank %d" % (i, ranks_of[i], r))
    cx.ok(sorted(owner) == list(range(P)), "a patch was lost: %s" % sorted(owner))
    m = proposals[-1]
    for i in range(P):
        for j in range(i):
            if i in owner and j in owner:
                cx.ok((owner[i] == owner[j]) == (m[i] == m[j]), "ownership is not the proposed partition")
    from . import T01
    if sorted(owner) == list(range(P)):
        tabs = {i: (out[i]["place"][0],) + out[i]["tab"] + (r,) for r, (out, _, _, _) in enumerate(res) for i in out}
        T01.verify(cx, tabs, npatch, bc, owner, {r: x[1] for r, x in enumerate(res)})
    for out, _, _, _ in res:
        for i, r in out.items():
            c = content(i)
            for k, v in c.items():
                if k.endswith("dead") or k.endswith("_id"):
                    cx.ok(len(r[k]) == len(v) and all(a == b for a, b in zip(r[k], v)), "%s of patch %d changed" % (k, i))
                else:
                    cx.eq_arrays(r[k], v, "%s of patch %d changed" % (k, i))
            pi = dict(pl)[i]
            cx.ok(r["place"] == (pi, pi[0] * n[0] * d[0], pi[1] * n[1] * d[1]), "position of patch %d changed: %s" % (i, r["place"]))
            for s in range(2):
                cx.ok(r["s%d_meta" % s][:2] == (len(c["s%d_dead" % s]), 100 + i), "particle counters of patch %d changed" % i)
            want = []
            for a in range(dim):
                if bc[a] == "m":
                    if pi[a] == 0:
                        want.append("PML%smin" % "XYZ"[a])
                    if pi[a] == npatch[a] - 1:
                        want.append("PML%smax" % "XYZ"[a])
            cx.ok([b[0] for b in r["pml"]] == want and [b[1] for b in r["pml"]] == [10 * i + k for k in range(len(want))], "absorbing layers of patch %d changed: %s" % (i, r["pml"]))
            cx.ok(all(b[2] for b in r["pml"]), "absorbing layer of patch %d works on other fields" % i)


def scenarios(tier):
    full = tier == "thorough"
    out = []
    for n in (1, 2, 3) + ((4,) if full else ()):
        out.append(Scn("perm-%d" % n, run_perm, dict(n=n)))
    for P, nr in [(4, 2), (3, 3)] + ([(5, 2), (4, 3)] if full else []):
        out.append(Scn("rank-%d-%d" % (P, nr), run_rank, dict(P=P, nr=nr)))

    def mv(npatch, bc, m, parts, w=False):
        nr = max(m) + 1
        out.append(Scn(C.nm("move", npatch, bc, "".join(map(str, m)), *["any" if p is None else "".join(map(str, p)) for p in parts]), run_move,
                       dict(npatch=npatch, bc=bc, rankmap=m, parts=parts, nranks=nr), nranks=nr, witness=w))
    mv((2, 2), "pp", [0, 0, 1, 1], [None])
    mv((2, 2), "mm", [0, 1, 0, 1], [None])
    mv((3, 2), "pm", [0, 0, 1, 1, 2, 2], [[0, 1, 1, 2, 2, 0]], True)
    mv((3, 2), "mp", [0, 0, 1, 1, 2, 2], [[0, 1, 2, 1, 0, 2], [2, 2, 1, 0, 0, 1]], True)
    mv((3, 2), "mm", [0, 1, 2, 1, 0, 2], [[1, 0, 0, 0, 1, 2], [0, 0, 0, 0, 1, 2]])
    mv((2, 2, 1), "mmp", [0, 0, 1, 1], [[1, 0, 0, 1]], True)
    mv((1, 2, 2), "ppp", [0, 1, 2, 0], [[1, 2, 0, 0], [0, 1, 1, 2]])
    mv((2, 1, 2), "mpp", [0, 1, 1, 0], [[1, 0, 1, 0]])
    if full:
        mv((2, 2), "pm", [0, 0, 1, 1], [None, None])
        mv((2, 2), "pp", [0, 1, 2, 1], [None])
        mv((3, 2), "pp", [0, 0, 0, 1, 1, 1], [None])
        mv((2, 2, 1), "ppp", [0, 1, 1, 0], [None])
    return out
