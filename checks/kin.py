"""One-patch (or few-patch) set-ups for the particle kernels."""
from fractions import Fraction
import numpy as np
from . import common as C

LIGHT = 299792458


def species(cx, kind="electron", q=None, m=None, **kw):
    from lambdapic.core import species as SP
    s = {"electron": SP.Electron, "positron": SP.Positron, "proton": SP.Proton, "photon": SP.Photon}[kind](**kw)
    if q is not None:
        s.q = q
    if m is not None:
        s.m = m
    return s


def setup(cx, n, d, sp, npart, ng=3, npatch=None, bc=None, rankmap=None, **kw):
    """initialised simulation; every patch holds npart[ispec] zeroed particles of each species"""
    dim = len(n)
    npatch = npatch or (1,) * dim
    bc = bc or "p" * dim
    box = {}

    def body(sim, comm, rank):
        box["sim"] = sim
        for p in sim.patches:
            for q, k in zip(p.particles, npart):
                q.initialize(k)
                q.extended = True
        sim.update_lists()
        return None
    C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng, cpml=1, species=lambda: sp, **kw), rankmap or [0] * int(np.prod(npatch)), body)
    return box["sim"]


def setp(cx, q, **vals):
    """store per-slot values in a particle container (attributes not given keep exact zeros / ones)"""
    k = q.npart
    for at in q.attrs:
        if at == "_id":
            continue
        a = cx.zeros((k,))
        v = vals.get(at)
        for i in range(k):
            if v is not None:
                a[i] = v[i]
            elif at == "inv_gamma":
                a[i] = cx.num(1)
        setattr(q, at, a)
    if "is_dead" in vals:
        q.is_dead = np.array(vals["is_dead"], dtype=bool)


def relist(sim):
    for p in sim.patches:
        for q in p.particles:
            q.extended = True
    sim.update_lists()


def zero_fields(cx, sim, attrs=C.FATTRS):
    for p in sim.patches:
        for at in attrs:
            setattr(p.fields, at, cx.zeros(getattr(p.fields, at).shape))
