"""Screening length used by the collisions."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import kin
from .C01 import Shuffler

BOUNDS = ("2D patches of 2x2 and 3D of 2x2x2 cells, 1..2 patches; up to 3 particles per cell and species with free weights, momenta and live flags; 1..3 species in either order, with and without photons; "
          "up to three evaluations with unchanged and with changed particles, and after the lists were rebuilt")
OUTSIDE = "more particles per cell; rounding"
ASSUMPTIONS = ["real arithmetic; x**(n/k) is the n-th power of the k-th root"]
PYFUNCS = ["lambdapic.core.collision.collision:Collision.calculate_debye_length/generate_field_lists/generate_particle_lists/update_particle_lists", "lambdapic.core.collision.cpu:debye_length_patches/debye_length_cell/constrain_debye_length_patches"]


class Gen(Shuffler):
    def spawn(self, n):
        return [Gen(self.cx, self.tag + "_%d" % i) for i in range(n)]


def make(cx, n, npatch, kinds, npart):
    """simulation with a collision module over the charged species; kinds e.g. 'ep', 'pe', 'ega'"""
    from lambdapic.simulation import simulation as S
    d = (0.5, 0.25, 2.0)[:len(n)]
    sp = []
    for i, k in enumerate(kinds):
        s = kin.species(cx, {"e": "electron", "p": "proton", "g": "photon"}[k], name="%s%d" % (k, i))
        sp.append(s)

    def init_rng(self):
        self.rand_gen = Gen(cx)
    cx.patch(S.Simulation, "_init_random_generator", init_rng)

    def pre(sim):
        sim.add_collision([[s for s in sp if s.charge] * 2])
    sim = kin.setup(cx, n, d, sp, npart, npatch=npatch, pre=pre)
    c2 = Fraction(kin.LIGHT) ** 2
    for i, s in enumerate(sp):
        # charge and mass in units that keep the numbers near one
        s.q = cx.num({"e": -1, "p": 1, "g": 0}[kinds[i]]) * cx.num(Fraction(1, 2 ** 21))
        s.m = cx.num({"e": 1, "p": 4, "g": 0}[kinds[i]] / (c2 if cx.symbolic else float(c2)))
    sim.collision.generate_particle_lists()
    arrays(cx, sim)
    return sim


def arrays(cx, sim):
    k = sim.collision
    for l in (k.debye_length_inv_square_list, k.total_density_list):
        for i in range(len(l)):
            l[i] = cx.zeros(l[i].shape)


def scale(cx, tag, ip, k):
    """free density scale; one per patch and species kind in group `cx.free_kinds`"""
    key = "w_%s_p%d%s" % (tag, ip, k if k in cx.free_kinds else "")
    if key not in cx.scales:
        cx.scales[key] = cx.real(key, Fraction(1, 64), 64)
    return cx.scales[key]


def place(cx, sim, kinds, spots, tag, hot):
    """spots: per species list of (patch, cell, flag); values free"""
    dim = sim.dimension
    for s, k in enumerate(kinds):
        key = kinds[:s + 1].count(k)
        for p in sim.patches:
            q = p.particles[s]
            mine = spots[k, key][p.index]
            v = dict(x=[], y=[], z=[], w=[], ux=[], uy=[], uz=[], is_dead=[])
            for j, (cell, flag) in enumerate(mine):
                nm = "%s_%s%d_p%d_%d" % (tag, k, key, p.index, j)
                for a in range(3):
                    lo = ((p.x0, p.y0, getattr(p, "z0", 0))[a] + cell[a] * (sim.dx, sim.dy, getattr(sim, "dz", 1))[a]) if a < dim else 0
                    v["xyz"[a]].append(cx.num(lo))
                v["w"].append(scale(cx, tag, p.index, k) * (1 + s) * (16, 9, 5)[j])
                for i, a in enumerate("xyz"):
                    # rational speeds about a common drift
                    u = cx.num(Fraction((2, -1, 2)[(i + s) % 3], 3) * (Fraction(3, 4), Fraction(-4, 3), Fraction(0))[j] + Fraction((1, -2, 3)[i], 4))
                    v["u" + a].append(cx.real(nm + "_u" + a, -4, 4) if hot and (a == "x" or hot == 2) and s + j == 0 else u)
                v["is_dead"].append(flag == "d" or (flag == "?" and cx.bool(nm + "_dead")))
            kin.setp(cx, q, **v)
            q.extended = True
    sim.update_lists()
    for s in sim.sorter:
        s()


def result(cx, sim):
    sim.collision.calculate_debye_length()
    out = {}
    for p, a in zip(sim.patches, sim.collision.debye_length_inv_square_list):
        for c in np.ndindex(*a.shape):
            out[p.index, c] = a[c]
    return out


def expected(cx, sim, kinds):
    """inverse square length and interparticle bound from the particles themselves"""
    from scipy.constants import epsilon_0, c as cl, pi
    vol = cx.num(Fraction(sim.dx)) * cx.num(Fraction(sim.dy)) * (cx.num(Fraction(sim.dz)) if sim.dimension == 3 else 1)
    out = {}
    n = (sim.patches[0].nx, sim.patches[0].ny, getattr(sim.patches[0], "nz", 1))[:sim.dimension]
    for p in sim.patches:
        for cell in np.ndindex(*n):
            inv, dens, cold = 0, 0, False
            for s, k in enumerate(kinds):
                if k == "g":
                    continue
                q = p.particles[s]
                sp = sim.species[s]
                idx = []
                for j in range(q.npart):
                    ci = tuple(int(round((float([q.x, q.y, q.z][a][j]) - (p.x0, p.y0, getattr(p, "z0", 0))[a]) / (sim.dx, sim.dy, getattr(sim, "dz", 1))[a])) for a in range(sim.dimension))
                    if ci == cell and not q.is_dead[j]:
                        idx.append(j)
                if not idx:
                    continue
                W = 0
                for j in idx:
                    W = W + q.w[j]
                mean = [sum((q.w[j] * u[j] for j in idx), cx.num(0)) / W for u in (q.ux, q.uy, q.uz)]
                T = cx.num(0)
                for j in idx:
                    u2 = sum(((u[j] - m) ** 2 for u, m in zip((q.ux, q.uy, q.uz), mean)), cx.num(0))
                    T = T + q.w[j] * u2 / cx.sqrt(1 + u2) / 3
                kT = T / W * sp.m * cl ** 2
                n_ = W / vol
                dens = dens + n_
                if kT > 0:
                    inv = inv + n_ * sp.q ** 2 / (epsilon_0 * kT)
                else:
                    cold = True
            out[p.index, cell] = (inv, dens, cold)
    return out


def same(cx, a, b):
    return not cx.reduce((a - b).p)


def compare(cx, got, want, tag, either=False):
    from scipy.constants import pi
    for k, (inv, dens, cold) in want.items():
        w = "%spatch %d cell (%s): " % (tag, k[0], C.gname(k[1]))
        g = got[k]
        if isinstance(dens, int) and dens == 0:
            cx.ok(not g > 0, w + "screening length without particles")
            continue
        r = (4 * pi * dens / 3) ** (2 / 3)
        if either and cx.symbolic and (same(cx, g, inv) or same(cx, g, r)):
            continue      # identical as polynomials; which of the two is settled in the other scenarios
        if cold or inv > r:
            cx.eq(g, r, w + "screening length is not the interparticle distance")
        else:
            cx.eq(g, inv, w + "screening length differs from that of the particles in the cell")


def spots_of(sim_n, npatch, kinds, rich, flags):
    """deterministic placement keyed by species, independent of their order"""
    out = {}
    for s, k in enumerate(kinds):
        key = kinds[:s + 1].count(k)
        for i in range(int(np.prod(npatch))):
            l = []
            for j in range(rich[k]):
                cell = tuple(0 if j < 2 else (j + a) % sim_n[a] for a in range(len(sim_n)))
                l.append((cell, flags[(j + i) % len(flags)]))
            out.setdefault((k, key), {})[i] = l
    return out


def run(cx, n, npatch, orders, rich, flags, hist, hot=0, free=""):
    cx.nonlinear_mode(12)
    cx.scales, cx.free_kinds = {}, free
    ref = None
    for kinds in orders:
        sim = make(cx, n, npatch, kinds, [rich[k] for k in kinds])
        sp = spots_of(n, npatch, kinds, rich, flags)
        place(cx, sim, kinds, sp, "a", hot)
        want = expected(cx, sim, kinds)
        for step, h in enumerate("r" + hist):
            t = "species %s evaluation %d: " % (kinds, step + 1)
            if h == "n":      # new particle content
                place(cx, sim, kinds, sp, "b%d" % step, hot)
                want = expected(cx, sim, kinds)
            elif h == "l":    # lists rebuilt
                sim.update_patches()
                arrays(cx, sim)
                for q in sim.sorter:
                    q()
            elif h == "k":    # every particle gone
                for p in sim.patches:
                    for q in p.particles:
                        q.is_dead[:] = True
                for s in sim.sorter:
                    s()
                want = expected(cx, sim, kinds)
            compare(cx, result(cx, sim), want, t, bool(hot))


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(name, n, npatch, orders, rich, flags, hist="r", w=False, **kw):
        out.append(Scn(name, run, dict(n=n, npatch=npatch, orders=orders, rich=dict(zip("epg", rich)), flags=flags, hist=hist, **kw), witness=w))
    for dim in (2, 3):
        n = (2, 2, 2)[:dim]
        one = (1,) * dim
        add("one-%dd" % dim, n, one, ["e"], (2, 0, 0), "l", "r", w=True)
        add("flags-%dd" % dim, n, one, ["e"], (3, 0, 0), "?", "")
        add("order-%dd" % dim, n, one, ["ep", "pe"], (2, 2, 0), "l", "r")
        add("photons-%dd" % dim, n, one, ["eg", "ge"], (2, 2, 2), "l", "r")
        add("photons-only-cell-%dd" % dim, n, one, ["gep"], (1, 1, 3), "l", "")
        add("history-%dd" % dim, n, one, ["e"], (2, 0, 0), "l", "nr")
        add("gone-%dd" % dim, n, one, ["ep"], (1, 2, 0), "l", "kn")
        add("lists-%dd" % dim, n, one, ["e"], (2, 0, 0), "l", "lr")
        add("patches-%dd" % dim, n, (2, 1, 1)[:dim], ["pe"], (2, 1, 0), "ld", "n")
        add("hot-%dd" % dim, n, one, ["e"], (2, 0, 0), "l", "", hot=1)
        if full:
            add("three-%dd" % dim, n, one, ["epg", "gpe", "pge"], (2, 2, 1), "l", "")
            add("hot2-%dd" % dim, n, one, ["e"], (2, 0, 0), "l", "", hot=2)
    return out
