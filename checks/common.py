"""Builders shared by the checks.  Everything is created through lambdapic's
own constructors; only the numeric contents are made symbolic."""
import itertools
import numpy as np
from fractions import Fraction

SIDES = ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax")
FATTRS = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]
CURRENTS = ["jx", "jy", "jz", "rho"]
NOSLEEP = {"LAMBDAPIC_CHECK_UPDATE": "0"}
import os
os.environ["LAMBDAPIC_CHECK_UPDATE"] = "0"


def bc_dict(bc, dim):
    """bc: per-axis 'p'/'m' or per-axis pair -> lambdapic dictionary"""
    out = {}
    for a in range(dim):
        b = bc[a]
        lo, hi = (b, b) if len(b) == 1 else (b[0], b[1])
        out[SIDES[2 * a]] = "periodic" if lo == "p" else "pml"
        out[SIDES[2 * a + 1]] = "periodic" if hi == "p" else "pml"
    return out


def periodic(bc, a):
    return bc[a] == "p"


def make_sim(n, npatch, d, bc, ng, cpml=1, comm=None, **kw):
    """Simulation object (not initialised).  n: cells per patch."""
    from lambdapic.simulation import simulation as S
    S.configure_logger = lambda *a, **k: None
    Simulation, Simulation3D = S.Simulation, S.Simulation3D
    _quiet()
    dim = len(n)
    args = dict(nx=n[0] * npatch[0], ny=n[1] * npatch[1], dx=d[0], dy=d[1], npatch_x=npatch[0], npatch_y=npatch[1],
                n_guard=ng, boundary_conditions=bc_dict(bc, dim), cpml_thickness=cpml, comm=comm, random_seed=kw.pop("random_seed", 1))
    args.update(kw)
    if dim == 3:
        args.update(nz=n[2] * npatch[2], dz=d[2], npatch_z=npatch[2])
        s = Simulation3D(**args)
    else:
        s = Simulation(**args)
    _quiet()
    return s


def _quiet():
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass


def init_sim(cx, sim, rankmap=None):
    """run the real initialize() with the partition given by rankmap"""
    from lambdapic.simulation import simulation as S
    from lambdapic.core import species as SP
    if rankmap is not None:
        n = max(rankmap) + 1

        def compute_rank(patches, size, load, *a, **k):
            r = list(rankmap)
            return r, [r.count(i) for i in range(size)]
        cx.patch(S, "compute_rank", compute_rank)
    _quiet()
    had = list(SP._ALL_SPECIES)
    cx_species_clear(SP)
    sim.initialize()
    return sim


def cx_species_clear(SP):
    try:
        SP._ALL_SPECIES.clear()
    except Exception:
        pass


def local_sim(cx, n, npatch, d, bc, ng, fields=True, **kw):
    """single-process simulation with patches, neighbour tables and fields"""
    sim = make_sim(n, npatch, d, bc, ng, **kw)
    dim = len(n)
    patches = sim.create_patches()
    sim.patches = patches
    for p in patches:
        p.rank = 0
    if dim == 2:
        patches.init_neighbor_ipatch_2d()
        patches.init_neighbor_rank_2d()
    else:
        patches.init_neighbor_ipatch_3d()
        patches.init_neighbor_rank_3d()
    sim._set_global_domain_bounds()
    if fields:
        sim._init_fields()
    return sim


def pidx(p, dim):
    return (p.ipatch_x, p.ipatch_y) if dim == 2 else (p.ipatch_x, p.ipatch_y, p.ipatch_z)


def cell_of(i, n):
    """array index -> cell offset relative to the patch's first cell"""
    return i


def offsets(n, ng):
    """all (storage index tuple, cell offset tuple) of a patch array with guards"""
    ax = []
    for m in n:
        ax.append([(i, i) for i in range(m + ng)] + [(m + ng + k, k - ng) for k in range(ng)])
    for t in itertools.product(*ax):
        yield tuple(a for a, _ in t), tuple(b for _, b in t)


def glob(pi, off, n, npatch, bc):
    """global (wrapped) cell of a patch-relative cell, or None when it lies
    outside a non-periodic edge"""
    g = []
    for a in range(len(n)):
        v = pi[a] * n[a] + off[a]
        N = n[a] * npatch[a]
        if not 0 <= v < N:
            b = bc[a]
            lo, hi = (b, b) if len(b) == 1 else (b[0], b[1])
            if (v < 0 and lo != "p") or (v >= N and hi != "p"):
                return None
            v %= N
        g.append(v)
    return tuple(g)


def is_guard(off, n):
    return any(o < 0 or o >= m for o, m in zip(off, n))


def gname(g):
    return ",".join(map(str, g))


def fill_guard_case(cx, patches, n, npatch, bc, ng, attrs):
    """interior = global grid symbol, guards = stale symbols. Returns nothing."""
    dim = len(n)
    for p in patches:
        pi = pidx(p, dim)
        for at in attrs:
            a = cx.zeros(getattr(p.fields, at).shape)
            for st, off in offsets(n, ng):
                if is_guard(off, n):
                    a[st] = cx.real("stale_%s_p%d[%s]" % (at, p.index, gname(off)))
                else:
                    a[st] = cx.real("%s[%s]" % (at, gname(glob(pi, off, n, npatch, bc))))
            setattr(p.fields, at, a)


def check_guard_case(cx, get, plist, n, npatch, bc, ng, attrs):
    """plist: list of (index, pidx); get(index, attr) -> array"""
    for index, pi in plist:
        for at in attrs:
            a = get(index, at)
            for st, off in offsets(n, ng):
                g = glob(pi, off, n, npatch, bc)
                if is_guard(off, n) and g is None:
                    want = cx.real("stale_%s_p%d[%s]" % (at, index, gname(off)))
                    what = "guard outside the domain changed"
                else:
                    want = cx.real("%s[%s]" % (at, gname(g)))
                    what = "guard cell != neighbour cell" if is_guard(off, n) else "interior cell changed"
                cx.eq(a[st], want, "%s: %s patch %d cell (%s)" % (what, at, index, gname(off)))


def fill_current_case(cx, patches, n, npatch, bc, ng, attrs=CURRENTS):
    for p in patches:
        for at in attrs:
            a = cx.zeros(getattr(p.fields, at).shape)
            for st, off in offsets(n, ng):
                a[st] = cx.real("d_%s_p%d[%s]" % (at, p.index, gname(off)))
            setattr(p.fields, at, a)


def current_expect(cx, plist, n, npatch, bc, ng, attrs=CURRENTS):
    """(attr, global cell) -> sum of all contributions"""
    exp = {}
    for index, pi in plist:
        for st, off in offsets(n, ng):
            g = glob(pi, off, n, npatch, bc)
            if g is None:
                continue
            for at in attrs:
                v = cx.real("d_%s_p%d[%s]" % (at, index, gname(off)))
                k = (at, g)
                exp[k] = exp[k] + v if k in exp else v
    return exp


def check_current_case(cx, get, plist, n, npatch, bc, ng, attrs=CURRENTS):
    exp = current_expect(cx, plist, n, npatch, bc, ng, attrs)
    for index, pi in plist:
        for at in attrs:
            a = get(index, at)
            for st, off in offsets(n, ng):
                g = glob(pi, off, n, npatch, bc)
                if not is_guard(off, n):
                    cx.eq(a[st], exp[(at, g)], "interior sum: %s patch %d cell (%s)" % (at, index, gname(off)))
                elif g is not None:
                    cx.eq(a[st], 0, "guard facing a neighbour not cleared: %s patch %d cell (%s)" % (at, index, gname(off)))


def plist_of(npatch):
    """(index, pidx) in create_patches order"""
    dim = len(npatch)
    out = []
    if dim == 2:
        for j in range(npatch[1]):
            for i in range(npatch[0]):
                out.append((i + j * npatch[0], (i, j)))
    else:
        for k in range(npatch[2]):
            for j in range(npatch[1]):
                for i in range(npatch[0]):
                    out.append((i + j * npatch[0] + k * npatch[0] * npatch[1], (i, j, k)))
    return out


def nm(*a):
    return "-".join("x".join(map(str, x)) if isinstance(x, (tuple, list)) else str(x) for x in a)


# ---------------------------------------------------------------- several ranks
def dist(cx, cfg, rankmap, body):
    """Run the real initialize() on every rank with the given ownership and then
    body(sim, comm, rank); returns the list of per-rank results."""
    from lambdapic.simulation import simulation as S
    from lambdapic.core import species as SP
    S.configure_logger = lambda *a, **k: None
    SP._ALL_SPECIES.clear()

    def compute_rank(patches, size, load, *a, **k):
        r = list(rankmap)
        return r, [r.count(i) for i in range(size)]
    cx.patch(S, "compute_rank", compute_rank)

    def main(comm):
        c = dict(cfg)
        c0 = {"pre": c.pop("pre", None)}
        sp = c.pop("species", None)
        sim = make_sim(comm=comm, **c)
        pre = c0.pop("pre", None)
        if sp is not None:
            sim.add_species(sp())
        if pre is not None:
            pre(sim)
        sim.initialize()
        return body(sim, comm, comm.Get_rank())
    return cx.run_ranks(max(rankmap) + 1, main)


def merge(results):
    out = {}
    for r in results:
        out.update(r)
    return out


def rankmaps(npatch, nranks):
    """a spread of ownership patterns: blocks, stripes, checkerboard, scattered, one patch apart"""
    P = int(np.prod(npatch))
    pl = plist_of(npatch)
    maps = []
    maps.append([min(i * nranks // P, nranks - 1) for i in range(P)])
    maps.append([i % nranks for i in range(P)])
    maps.append([sum(pi) % nranks for _, pi in pl])
    maps.append([0 if i else nranks - 1 for i in range(P)] if nranks == 2 else [(i * i + 1) % nranks for i in range(P)])
    maps.append([(3 * i + i // 2) % nranks for i in range(P)])
    out = []
    for m in maps:
        if set(m) == set(range(nranks)) and m not in out:
            out.append(m)
    return out
