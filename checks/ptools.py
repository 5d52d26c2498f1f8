"""Shared set-up and oracle of the particle exchange checks."""
import numpy as np
from . import common as C

XYZ = "xyz"


def bounds(pi, n, npatch, d, bc, cpml):
    """cell range of a patch on each axis, from the layout alone"""
    out = []
    for a in range(len(n)):
        lo = (pi[a] * n[a] - 0.5) * d[a]
        hi = (pi[a] * n[a] + n[a] - 0.5) * d[a]
        b = bc[a]
        if b[0] != "p" and pi[a] == 0:
            lo += cpml * d[a]
        if b[-1] != "p" and pi[a] == npatch[a] - 1:
            hi -= cpml * d[a]
        out.append((lo, hi))
    return out


def domain(n, npatch, d, bc, cpml):
    first = bounds((0,) * len(n), n, npatch, d, bc, cpml)
    last = bounds(tuple(m - 1 for m in npatch), n, npatch, d, bc, cpml)
    return [(first[a][0], last[a][1]) for a in range(len(n))]


def slots(index, spec):
    """spec: dict patch index -> string of slot states:
    m live, may be up to a cell outside; l live, inside; d dead; ? live or dead"""
    return spec.get(index, "ld")


def build(cx, q, index, pi, geo, spec, ispec=0, reach=1.0, fixed=None):
    """give a real ParticlesBase the symbolic content"""
    n, npatch, d, bc, cpml = geo
    s = slots(index, spec)
    q.initialize(len(s))
    bnd = bounds(pi, n, npatch, d, bc, cpml)
    dead = np.zeros(len(s), dtype=bool)
    vals = {}
    for at in q.attrs:
        if at == "_id":
            continue
        a = cx.zeros((len(s),))
        for k, c in enumerate(s):
            nmv = "s%d_p%d_%s[%d]" % (ispec, index, at, k)
            ax = XYZ.find(at) if len(at) == 1 else -1
            if 0 <= ax < len(n) and c != "d":
                e = reach * d[ax] if c in "m?" else 0
                a[k] = cx.real(nmv, bnd[ax][0] - e, bnd[ax][1] + e)
            elif fixed is not None and at not in fixed:
                a[k] = cx.num((k + 1 + len(at)) / 8)
            else:
                a[k] = cx.real(nmv)
        setattr(q, at, a)
        vals[at] = a.copy()
    for k, c in enumerate(s):
        dead[k] = c == "d" or (c == "?" and cx.bool("s%d_p%d_dead[%d]" % (ispec, index, k)))
    q.is_dead = dead.copy()
    return dict(vals=vals, dead=dead, id=np.array(q._id).copy(), attrs=list(q.attrs))


def snapshot(q):
    return dict(npart=q.npart, dead=np.array(q.is_dead), id=np.array(q._id), attrs=list(q.attrs),
                vals={at: getattr(q, at) for at in q.attrs if at != "_id"})


def bits(a):
    return np.ascontiguousarray(np.array([float(x) for x in a], dtype=np.float64)).view(np.uint64)


def verify(cx, before, after, pls, geo, tag=""):
    """before/after: patch index -> content; pls: (index, pidx) of every patch"""
    n, npatch, d, bc, cpml = geo
    dim = len(n)
    dom = domain(n, npatch, d, bc, cpml)
    L = [dom[a][1] - dom[a][0] for a in range(dim)]
    where = {}
    for index, pi in pls:
        r = after[index]
        for at, v in r["vals"].items():
            cx.ok(len(v) == r["npart"], "%spatch %d: %s has %d slots, npart=%d" % (tag, index, at, len(v), r["npart"]))
        cx.ok(len(r["dead"]) == r["npart"] == len(r["id"]), "%spatch %d: slot arrays disagree in length" % (tag, index))
        for k, i in enumerate(bits(r["id"])):
            if not r["dead"][k]:
                where.setdefault(int(i), []).append((index, k))
    nlive = 0
    for index, pi in pls:
        b = before[index]
        for k, i in enumerate(bits(b["id"])):
            if b["dead"][k]:
                continue
            pos = [b["vals"][XYZ[a]][k] for a in range(dim)]
            gone = False
            for a in range(dim):
                if bc[a] != "p" and (pos[a] < dom[a][0] or pos[a] > dom[a][1]):
                    # an axis open at one end only counts as open at that end
                    gone = True
            got = where.pop(int(i), [])
            name = "%sparticle %d of patch %d" % (tag, k, index)
            if gone:
                cx.ok(not got, "%s left through an absorbing edge and is still alive" % name)
                continue
            nlive += 1
            cx.ok(len(got) == 1, "%s exists %d times after the exchange" % (name, len(got)))
            if len(got) != 1:
                continue
            gi, gk = got[0]
            r = after[gi]
            gb = bounds(dict(pls)[gi], n, npatch, d, bc, cpml)
            for at in b["vals"]:
                old, new = b["vals"][at][k], r["vals"][at][gk]
                ax = XYZ.find(at) if len(at) == 1 else -1
                if not 0 <= ax < dim:
                    cx.eq(new, old, "%s: %s changed" % (name, at))
                    continue
                shift = 0
                if bc[ax] == "p":
                    if old < dom[ax][0]:
                        shift = L[ax]
                    elif old > dom[ax][1]:
                        shift = -L[ax]
                cx.eq(new, old + shift, "%s: %s is not the old position up to the periodic shift" % (name, at))
                cx.le(gb[ax][0], new, "%s: ended in a patch that starts above its %s" % (name, at))
                cx.le(new, gb[ax][1], "%s: ended in a patch that ends below its %s" % (name, at))
            if gi == index and all(not (pos[a] < bounds(pi, n, npatch, d, bc, cpml)[a][0] or pos[a] > bounds(pi, n, npatch, d, bc, cpml)[a][1]) for a in range(dim)):
                cx.ok(gk == k, "%s did not move but changed slot" % name)
    cx.ok(not where, "%slive particles appeared from nowhere: %s" % (tag, where))
    return nlive
