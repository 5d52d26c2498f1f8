"""Sorting of particles into buckets."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin
from . import ptools as PT

BOUNDS = ("patches of 2..4 cells per axis, one patch or two patches at different places; up to 4 slots with free positions (inside, or up to a cell outside the patch), free attributes and free dead flags, further slots with concrete positions; "
          "bucket per cell, the simulation's bucket per column, and mirrored numbering; up to three sorts in a row with new positions, growth or pruning between them")
OUTSIDE = "more slots with free positions; rounding of bucket edges"
ASSUMPTIONS = ["real arithmetic"]
PYFUNCS = ["lambdapic.core.sort.particle_sort:ParticleSort2D/ParticleSort3D", "lambdapic.simulation.simulation:Simulation/Simulation3D._init_sorter"]


def place(cx, q, p, geo, kinds, tag, drift):
    n, npatch, d = geo
    dim = len(n)
    pi = C.pidx(p, dim)
    k = len(kinds)
    dead = np.zeros(k, dtype=bool)
    for at in q.attrs:
        if at == "_id":
            continue
        a = cx.zeros((k,))
        for i, c in enumerate(kinds):
            ax = "xyz".find(at) if len(at) == 1 else -1
            nm = "%s_p%d_%s[%d]" % (tag, p.index, at, i)
            if 0 <= ax < dim:
                lo = (pi[ax] * n[ax] - 0.5) * d[ax]
                hi = lo + n[ax] * d[ax]
                if c in "ld":
                    # concrete, spread over the cells
                    a[i] = cx.num(lo + ((3 * i + 5 * ax + 1) % (4 * n[ax])) / 4 * d[ax])
                elif c in "mx":
                    a[i] = cx.real(nm, lo - d[ax], hi + d[ax])
                else:
                    a[i] = cx.real(nm, lo, hi)
            elif at == "w":
                a[i] = cx.num(i + 1)
            elif at == "ux":
                a[i] = cx.num(drift * (i + 1))
            else:
                a[i] = cx.real(nm)
        old = getattr(q, at)
        if tag != "r0" and old.dtype == a.dtype:
            old[:] = a      # in place, as the pushers do
        else:
            setattr(q, at, a)
    for i, c in enumerate(kinds):
        dead[i] = c in "dx" or (c in "?m" and cx.bool("%s_p%d_dead[%d]" % (tag, p.index, i)))
    if tag != "r0":
        q.is_dead[:] = dead
    else:
        q.is_dead = dead


def check(cx, tag, p, before, q, bounds, nb, bsize, geo, rev):
    n, npatch, d = geo
    dim = len(n)
    after = PT.snapshot(q)
    name = "%spatch %d: " % (tag, p.index)
    cx.ok(after["npart"] == before["npart"], name + "slot count changed")
    ib, ia = [int(i) for i in PT.bits(before["id"])], [int(i) for i in PT.bits(after["id"])]
    cx.ok(sorted(ib) == sorted(ia), name + "ids lost or duplicated")
    if sorted(ib) != sorted(ia):
        return
    for k, i in enumerate(ia):
        o = ib.index(i)
        cx.ok(bool(after["dead"][k]) == bool(before["dead"][o]), name + "dead flag of particle %d not carried along" % o)
        for at in before["vals"]:
            cx.eq(after["vals"][at][k], before["vals"][at][o], name + "%s of particle %d not carried along" % (at, o))
    mn, mx = [[int(v) for v in np.asarray(b).ravel()] for b in bounds]
    cx.ok(len(mn) == len(mx) == int(np.prod(nb)), name + "bucket table shape")
    cx.ok(mn[0] == 0 and mx[-1] == after["npart"], name + "bucket ranges do not cover the slots: %s %s" % (mn, mx))
    for b in range(len(mn)):
        cx.ok(mn[b] <= mx[b] and (b == 0 or mn[b] == mx[b - 1]), name + "bucket ranges are not consecutive: %s %s" % (mn, mx))
    pi = C.pidx(p, dim)
    lo = [(pi[a] * n[a] - 0.5) * d[a] for a in range(dim)]
    for k in range(after["npart"]):
        if after["dead"][k]:
            continue
        pos = [after["vals"]["xyz"[a]][k] for a in range(dim)]
        if any(pos[a] < lo[a] or pos[a] >= lo[a] + n[a] * d[a] for a in range(dim)):
            continue
        hit = [b for b in range(len(mn)) if mn[b] <= k < mx[b]]
        cx.ok(len(hit) == 1, name + "slot %d lies in %d bucket ranges" % (k, len(hit)))
        if len(hit) != 1:
            continue
        ci = list(np.unravel_index(hit[0], nb))
        if rev:
            ci[0] = nb[0] - 1 - ci[0]
        for a in range(dim):
            e = lo[a] + int(ci[a]) * bsize[a]
            cx.le(e, pos[a], name + "live particle in slot %d lies below its bucket along %s" % (k, "xyz"[a]))
            cx.le(pos[a], e + bsize[a], name + "live particle in slot %d lies above its bucket along %s" % (k, "xyz"[a]))


def run(cx, n, npatch, kinds, mode, drift=0, rounds=1, between=None, second=None):
    from lambdapic.core.sort import particle_sort as PS
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]
    geo = (n, npatch, d)
    sp = kin.species(cx)
    sim = kin.setup(cx, n, d, [sp], [len(kinds)], npatch=npatch)
    for p in sim.patches:
        if p.index and second:
            p.particles[0].initialize(len(second))
            p.particles[0].extended = True
    sim.update_lists()
    for p in sim.patches:
        place(cx, p.particles[0], p, geo, kinds if p.index == 0 else (second or kinds), "r0", drift)
    if mode == "sim":
        s = sim.sorter[0]
    else:
        cls = PS.ParticleSort2D if dim == 2 else PS.ParticleSort3D
        kw = {}
        if mode == "rev":
            kw = dict(ny_buckets=1, dy_buckets=n[1] * d[1], reverse_x=True)
            if dim == 3:
                kw.update(nz_buckets=1, dz_buckets=n[2] * d[2])
        s = cls(sim.patches, sp, **kw)
    for r in range(rounds):
        if r:
            for p in sim.patches:
                q = p.particles[0]
                ks = kinds if p.index == 0 else (second or kinds)
                if between == "grow":
                    q.extend(2)
                    place(cx, q, p, geo, (ks + "ld" * 4)[:q.npart], "r%d" % r, drift)
                elif between == "prune":
                    q.prune(extra_buff=0.0)
                    place(cx, q, p, geo, ks[:q.npart], "r%d" % r, drift)
                else:
                    place(cx, q, p, geo, ks, "r%d" % r, -drift)
            if between == "lists":
                for p in sim.patches:
                    s.update_particle_lists(p.index)
        before = {p.index: PT.snapshot(p.particles[0]) for p in sim.patches}
        before = {i: dict(b, vals={at: v.copy() for at, v in b["vals"].items()}) for i, b in before.items()}
        s()
        if mode == "cells":
            nb, bs, rev = n, d, False
        else:
            nb = (n[0],) + (1,) * (dim - 1)
            bs = (d[0],) + tuple(n[a] * npatch[a] * d[a] if mode == "sim" else n[a] * d[a] for a in range(1, dim))
            rev = bool(s.reverse_x)
            if mode == "rev":
                cx.ok(rev, "numbering direction as asked for")
        for i, p in enumerate(sim.patches):
            check(cx, "sort %d, " % (r + 1) if rounds > 1 else "", p, before[p.index], p.particles[0], (s.bucket_bound_min_list[i], s.bucket_bound_max_list[i]), nb, bs, geo, rev)


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(mode, n, kinds, npatch=None, w=False, **kw):
        npatch = npatch or (1,) * len(n)
        out.append(Scn(C.nm(mode, n, npatch, kinds, *["%s=%s" % x for x in kw.items()]), run, dict(n=n, npatch=npatch, kinds=kinds, mode=mode, **kw), witness=w))
    for n in ((3, 2), (2, 2, 2)):
        dim = len(n)
        n3 = n if dim == 3 else (4, 3)
        add("cells", n, "?ll", w=True)
        add("cells", n, "??d")
        add("cells", n, "dm?" if dim == 2 else "dml")
        add("cells", n3, "m")
        add("cells", n3, "lddmlldlldx")
        add("cells", n, "d?", npatch=(1, 2, 1)[:dim], second="?l")
        add("cells", n, "?l", rounds=2)
        add("cells", n, "?d", rounds=2, between="grow")
        add("cells", n, "?lld", rounds=2, between="prune")
        add("cells", n, "?ld", rounds=2, between="lists")
        for drift in (1, -1):
            add("sim", n, "??l" if dim == 2 else "?dl", drift=drift, w=drift < 0)
            add("sim", n, "m?d", drift=drift, npatch=(2, 1, 1)[:dim], second="l")
            add("sim", n3, "d??" if full else "dm?", drift=drift)
            add("sim", n, "?l", npatch=(1, 1, 2)[-dim:] if dim == 3 else (1, 2), second="l", drift=drift, rounds=2)
        add("sim", n, "?d", drift=-1, rounds=2, between="grow")
        add("rev", n, "??l" if dim == 2 else "?ld", w=True)
        add("rev", n, "dm?")
        add("rev", n, "?d", rounds=3 if dim == 2 else 2, between="prune")
        add("rev", n3, "lddmlldlldx")
    if full:
        add("cells", (3, 2), "????")
        add("cells", (2, 2, 2), "???")
        add("cells", (3, 3), "mm?d")
        add("sim", (4, 3), "?????", drift=-1)
        add("sim", (3, 2, 2), "????", drift=1)
        add("rev", (4, 2), "????d")
        add("rev", (3, 2, 2), "???d")
        add("cells", (3, 2), "?d?", rounds=3, between="grow")
    return out
