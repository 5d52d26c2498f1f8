"""Loading macro-particles from a density profile."""
from fractions import Fraction
import itertools
import numpy as np
from sympic.harness import Scn
from . import common as C

BOUNDS = ("2D patches of 2x2..3x2 and 3D patches of 2x2x2 cells, 1..4 patches on 1..2 ranks; density value free in up to 6 cells (0 or above the threshold elsewhere), particles per cell a free real in [1,4) in up to two cells and 1..3 elsewhere, "
          "threshold free; every draw of the generator free within its range; several species, constant and absent profiles")
OUTSIDE = "particles per cell below one where the density exceeds the threshold; more free cells; the compiled (numba) form of the same source; quality of the generator"
ASSUMPTIONS = ["the generator's uniform(lo, hi, n) yields n values in [lo, hi)", "real arithmetic"]
PYFUNCS = ["lambdapic.core.patch.cpu:get_num_macro_particles_2d/3d, fill_particles_2d/3d", "lambdapic.core.patch.patch:Patches.calculate_npart/add_species/fill_particles",
           "lambdapic.core.species:Species.compile_jit", "lambdapic.simulation.simulation:Simulation/Simulation3D.initialize"]


class Rng:
    """stands for numpy.random.Generator; every draw is a free value"""
    def __init__(self, cx, tag):
        self.cx, self.tag, self.k, self.kids = cx, tag, 0, 0

    def spawn(self, n):
        self.kids += n
        return [Rng(self.cx, "%s.%d" % (self.tag, self.kids - n + i)) for i in range(n)]

    def uniform(self, lo=0.0, hi=1.0, size=None):
        if size is None:
            return self.draw(lo, hi)
        a = self.cx.zeros((size,))
        for i in range(size):
            a[i] = self.draw(lo, hi)
        return a

    def draw(self, lo, hi):
        self.k += 1
        return self.cx.real("u%s.%d" % (self.tag, self.k), 0, 1, hi_open=True) * (hi - lo) + lo

    def random(self, size=None):
        return self.uniform(0, 1, size)


def run(cx, n, npatch, cells, rankmap, nspec=1, const=None, thr="free"):
    """cells: global cell -> 'f' free density, 'g' free density and particle count, '0'/'1'/'2'/'3' concrete"""
    from lambdapic.core import species as SP
    from lambdapic.core.patch import patch as PP
    from lambdapic.simulation import simulation as S
    dim = len(n)
    d = (0.5, 0.25, 2.0)[:dim]
    dmin = cx.real("threshold", 0, 8) if thr == "free" else cx.num(thr)

    def cellid(pos):
        return tuple(int(round(float(v) / dd)) for v, dd in zip(pos, d))

    def profiles(s):
        def dens(*pos):
            g = cellid(pos)
            c = cells.get(g, "0")
            if c in "fg":
                return cx.real("dens%d[%s]" % (s, C.gname(g)), 0, 16)
            return cx.num(0 if c == "0" else 16 + int(c))

        def ppc(*pos):
            g = cellid(pos)
            c = cells.get(g, "0")
            if c == "g":
                return cx.real("ppc%d[%s]" % (s, C.gname(g)), 1, 4, hi_open=True)
            return 1 + (sum(g) + s) % 3 if c == "f" else max(int(c), 1)
        return dens, ppc
    if dim == 2:
        wrap = lambda f: (lambda x, y: f(x, y))
    else:
        wrap = lambda f: (lambda x, y, z: f(x, y, z))
    prof = [profiles(s) for s in range(nspec)]

    def species():
        out = []
        for s in range(nspec):
            if const is not None:
                sp = SP.Electron(name="s%d" % s, density=wrap(lambda *p: cx.num(const[0])), ppc=const[1]) if s == 0 else SP.Proton(name="none")
            else:
                sp = SP.Electron(name="s%d" % s, density=wrap(prof[s][0]), ppc=wrap(prof[s][1]))
            sp.density_min = dmin
            out.append(sp)
        return out
    add = PP.Patches.add_species

    def add_species(self, *a, **k):
        r = add(self, *a, **k)
        if cx.symbolic:
            for p in self.patches:
                q = p.particles[-1]
                for at in q.attrs:
                    if at != "_id":
                        v = getattr(q, at)
                        o = cx.zeros(v.shape)
                        for i in range(v.size):
                            if v[i] == v[i]:
                                o[i] = cx.num(float(v[i]))
                        setattr(q, at, o)
        return r
    cx.patch(PP.Patches, "add_species", add_species)

    def init_rng(self):
        self.rand_gen = Rng(cx, "r%d" % self.mpi.rank)
    cx.patch(S.Simulation, "_init_random_generator", init_rng)

    def body(sim, comm, rank):
        return {(p.index, s): {at: getattr(p.particles[s], at) for at in ("x", "y", "z", "w", "is_dead")} for p in sim.patches for s in range(nspec)}
    res = C.merge(C.dist(cx, dict(n=n, npatch=npatch, d=d, bc="p" * dim, ng=2, species=species), rankmap, body))
    pl = C.plist_of(npatch)
    vol = 1
    for v in d:
        vol = vol * cx.num(Fraction(v))
    cx.ok(sorted(res) == sorted((i, s) for i, _ in pl for s in range(nspec)), "every patch loaded once")
    for index, pi in pl:
        for s in range(nspec):
            r = res[index, s]
            left = list(range(len(r["x"])))
            w = "species %d patch %d " % (s, index)
            total = 0
            for c in itertools.product(*[range(m) for m in n]):
                g = tuple(pi[a] * n[a] + c[a] for a in range(dim))
                pos = [g[a] * d[a] for a in range(dim)]
                if const is not None:
                    de, k = (const if s == 0 else (0, 1))
                else:
                    de, k = prof[s][0](*pos), prof[s][1](*pos)
                want = int(k) if de > dmin else 0
                total += want
                mine = []
                for j in left:
                    inside = True
                    for a in range(dim):
                        v = r["xyz"[a]][j]
                        if v < pos[a] - d[a] / 2 or v >= pos[a] + d[a] / 2:
                            inside = False
                            break
                    if inside:
                        mine.append(j)
                left = [j for j in left if j not in mine]
                cx.ok(len(mine) == want, "%scell (%s): %d particles, %d asked for" % (w, C.gname(g), len(mine), want))
                if want and len(mine) == want:
                    t = 0
                    for j in mine:
                        t = t + r["w"][j]
                        cx.ok(not r["is_dead"][j], "%scell (%s): dead particle" % (w, C.gname(g)))
                    cx.eq(t, de * vol, "%scell (%s): weights do not sum to density times volume" % (w, C.gname(g)))
            cx.ok(len(r["x"]) == total, "%s%d slots for %d particles" % (w, len(r["x"]), total))
            cx.ok(not left, "%sparticles outside every cell" % w)


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(name, n, npatch, cells, rankmap=None, w=False, **kw):
        rankmap = rankmap or [0] * int(np.prod(npatch))
        out.append(Scn(name, run, dict(n=n, npatch=npatch, cells=cells, rankmap=rankmap, **kw), nranks=max(rankmap) + 1, witness=w))
    allf = lambda *N: {g: "f" for g in itertools.product(*[range(m) for m in N])}
    add("free-2d", (2, 3), (1, 1), allf(2, 3), w=True)
    add("count-2d", (3, 2), (1, 1), {(0, 0): "g", (1, 1): "1", (2, 0): "g", (2, 1): "3"})
    add("patches-2d", (2, 2), (2, 2), {(0, 0): "f", (3, 3): "g", (1, 2): "f", (2, 1): "f", (2, 2): "2"})
    add("ranks-2d", (2, 2), (3, 1), {(0, 0): "2", (3, 0): "g", (5, 1): "f", (1, 1): "f"}, rankmap=[1, 0, 1])
    add("species-2d", (2, 2), (1, 2), {(0, 0): "f", (1, 1): "f", (1, 3): "f"}, nspec=2)
    add("const-2d", (2, 2), (2, 1), {}, nspec=2, const=(4.0, 3), thr=1)
    add("const-low-2d", (2, 2), (1, 1), {}, nspec=1, const=(4.0, 2), thr=4)
    add("const-frac-2d", (3, 2), (1, 1), {}, nspec=1, const=(4, 3), thr="free")
    f3 = {(0, 0, 0): "f", (1, 1, 1): "f", (0, 1, 0): "f", (1, 0, 1): "f"}
    add("free-3d", (2, 2, 2), (1, 1, 1), f3, w=True)
    add("count-3d", (2, 2, 2), (1, 1, 1), {(1, 0, 0): "g", (0, 0, 1): "g", (1, 1, 0): "2"})
    add("uneven-3d", (2, 3, 4), (1, 1, 1), {(1, 2, 3): "g", (0, 0, 3): "1", (0, 2, 0): "f", (1, 1, 2): "3"})
    add("patches-3d", (2, 2, 2), (1, 2, 2), {(0, 0, 0): "f", (1, 3, 3): "g", (1, 0, 2): "f"})
    add("ranks-3d", (2, 2, 2), (2, 1, 1), {(0, 0, 0): "f", (3, 1, 1): "g"}, rankmap=[1, 0])
    add("const-3d", (2, 2, 2), (1, 1, 1), {}, nspec=2, const=(2.5, 2), thr=1)
    if full:
        add("free-2d-9", (3, 3), (1, 1), allf(3, 3))
        add("free-3d-8", (2, 2, 2), (1, 1, 1), allf(2, 2, 2))
        add("count-2d-3", (2, 2), (1, 1), {(0, 0): "g", (0, 1): "g", (1, 0): "g", (1, 1): "f"})
    return out
