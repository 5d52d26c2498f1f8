"""Collision pairing."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn

BOUNDS = ("bucket ranges of 0..5 slots (like species) and 0..4 x 0..4 slots (unlike species, at most 6 together; thorough 7; also 5 live particles against 2 and 3 slots) at any start; every live/dead pattern and every order the shuffle can produce; "
          "several cells per patch; the iterator classes, the generator functions and the per-cell drivers")
OUTSIDE = "longer buckets; the compiled (numba) form of the same source"
ASSUMPTIONS = ["the generator's shuffle may produce any permutation"]
PYFUNCS = ["lambdapic.core.collision.utils:IntraPairingIterator/InterPairingIterator", "lambdapic.core.collision.cpu:self_pairing/pairing, intra_collision_cell/inter_collision_cell, intra_collision_patches/inter_collision_patches"]


class Shuffler:
    """generator whose shuffle yields an arbitrary permutation"""
    def __init__(self, cx, tag=""):
        self.cx, self.k, self.tag = cx, 0, tag

    def shuffle(self, a):
        self.k += 1
        for i in range(len(a) - 1, 0, -1):
            j = self.cx.choice("shuffle%s%d_%d" % (self.tag, self.k, i), i + 1)
            a[i], a[j] = a[j], a[i]

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return 0.5 * (lo + hi)


def flags(cx, name, total, lo, hi):
    """free flags in [lo, hi); outside alternating, to expose leakage"""
    return np.array([cx.bool("%s%d" % (name, k)) if lo <= k < hi else k % 2 == 0 for k in range(total)], dtype=bool)


def walk(it):
    out = []
    while it.has_next():
        out.append(it.next())
        if len(out) > 50:
            break
    return out


def verify_intra(cx, pairs, dead, lo, hi, tag):
    live = [k for k in range(lo, hi) if not dead[k]]
    N = len(live)
    if N < 2:
        cx.ok(not pairs, tag + "%d live particles paired" % N)
        return
    npairs = (N + 1) // 2
    cx.ok(len(pairs) == npairs, tag + "%d pairs for %d particles" % (len(pairs), N))
    seen = {k: [] for k in live}
    for i, (ip, a, b, w, dt) in enumerate(pairs):
        a, b = int(a), int(b)
        cx.ok(a in seen and b in seen, tag + "pair (%d,%d) contains a dead or foreign slot" % (a, b))
        cx.ok(a != b, tag + "particle %d paired with itself" % a)
        if a not in seen or b not in seen:
            return
        seen[a].append(w)
        seen[b].append(w)
        cx.ok(int(ip) == i, tag + "pair number")
        cx.eq(dt, 2 * npairs - 1, tag + "time step correction")
    for k in live:
        cx.ok(len(seen[k]) >= 1, tag + "live particle %d left out" % k)
    twice = [k for k in live if len(seen[k]) == 2]
    cx.ok(all(len(seen[k]) <= 2 for k in live) and len(twice) == N % 2, tag + "particles used twice: %s of %d" % (twice, N))
    for k in twice:
        cx.eq(sum(seen[k]), 1, tag + "weights of the split particle %d" % k)
    tot = 0
    for p in pairs:
        tot = tot + 2 * p[3] * p[4]
    cx.eq(tot, N * (N - 1), tag + "summed pair weights times step correction")


def verify_inter(cx, pairs, d1, r1, d2, r2, tag):
    l1 = [k for k in range(*r1) if not d1[k]]
    l2 = [k for k in range(*r2) if not d2[k]]
    if not l1 or not l2:
        cx.ok(not pairs, tag + "paired although one side is empty")
        return
    n = max(len(l1), len(l2))
    cx.ok(len(pairs) == n, tag + "%d pairs for %d and %d particles" % (len(pairs), len(l1), len(l2)))
    s1, s2 = {k: [] for k in l1}, {k: [] for k in l2}
    for i, (ip, a, b, w, dt) in enumerate(pairs):
        a, b = int(a), int(b)
        cx.ok(a in s1 and b in s2, tag + "pair (%d,%d) contains a dead or foreign slot" % (a, b))
        if a not in s1 or b not in s2:
            return
        s1[a].append(w)
        s2[b].append(w)
        cx.ok(int(ip) == i, tag + "pair number")
        cx.eq(dt, n, tag + "time step correction")
    big, small = (s1, s2) if len(l1) >= len(l2) else (s2, s1)
    for k, v in big.items():
        cx.ok(len(v) == 1, tag + "particle %d of the larger side used %d times" % (k, len(v)))
    for k, v in small.items():
        cx.ok(len(v) in (len(big) // len(small), -(-len(big) // len(small))), tag + "particle %d of the smaller side used %d times" % (k, len(v)))
        cx.eq(sum(v), 1, tag + "weights of particle %d do not sum to one" % k)
    if len(l1) == len(l2):
        for k, v in s1.items():
            cx.eq(sum(v), 1, tag + "weights of particle %d do not sum to one" % k)


def intra(cx, n, start, via):
    from lambdapic.core.collision import cpu, utils
    total = start + n + 2
    d = flags(cx, "dead", total, start, start + n)
    g = Shuffler(cx)
    if via == "iterator":
        pairs = walk(utils.IntraPairingIterator(d, start, start + n, g))
    else:
        pairs = list(cpu.self_pairing(d, start, start + n, g))
    verify_intra(cx, pairs, d, start, start + n, "")


def inter(cx, n1, s1, n2, s2, via, live=""):
    from lambdapic.core.collision import cpu, utils
    d1 = flags(cx, "deadA", s1 + n1 + 2, s1, s1 + n1 if live != "A" else s1)
    d2 = flags(cx, "deadB", s2 + n2 + 1, s2, s2 + n2 if live != "B" else s2)
    if live == "A":
        d1[s1:s1 + n1] = False
    if live == "B":
        d2[s2:s2 + n2] = False
    g = Shuffler(cx)
    a = (d1, s1, s1 + n1, d2, s2, s2 + n2, g)
    pairs = walk(utils.InterPairingIterator(*a)) if via == "iterator" else list(cpu.pairing(*a))
    verify_inter(cx, pairs, d1, (s1, s1 + n1), d2, (s2, s2 + n2), "")


def driver(cx, bounds1, bounds2, npatch):
    """the per-patch drivers, with the scattering itself replaced by a recorder"""
    from lambdapic.core.collision import cpu, utils
    rec = []

    def kernel(part1, ip1, part2, ip2, lnLambda, inv_d2, dt_corr, w_corr, cell_vol, dt, gen):
        rec.append((part1, int(ip1), part2, int(ip2), w_corr, dt_corr, inv_d2, lnLambda, cell_vol, dt, gen))
    cx.patch(cpu, "collision_kernel", kernel)
    nc = len(bounds1) - 1

    def part(name, b, ip):
        n = b[-1]
        dead = np.array([cx.bool("%s%d_%d" % (name, ip, k)) for k in range(n)], dtype=bool) if ip == 0 else np.arange(n) % 3 == 2
        z = np.zeros(n)
        return utils.ParticleData(z, z, z, z, z, z, z, np.ones(n), dead, 1.0, -1.0)
    A = [part("A", bounds1, i) for i in range(npatch)]
    mn = lambda b: [np.array(b[:-1], dtype=np.int64).reshape(-1, 1) for _ in range(npatch)]
    mx = lambda b: [np.array(b[1:], dtype=np.int64).reshape(-1, 1) for _ in range(npatch)]
    D = [np.array([[cx.real("invd2_%d_%d" % (i, c), 0)] for c in range(nc)], dtype=object if cx.symbolic else float) for i in range(npatch)]
    gens = [Shuffler(cx, "p%d_" % i) if i == 0 else _Still() for i in range(npatch)]
    vol, dt, lnl = cx.real("vol", 0, lo_open=True), cx.real("dt", 0, lo_open=True), cx.real("lnL")
    if bounds2 is None:
        cpu.intra_collision_patches(A, mn(bounds1), mx(bounds1), lnl, D, vol, dt, gens)
        B = A
    else:
        B = [part("B", bounds2, i) for i in range(npatch)]
        cpu.inter_collision_patches(A, mn(bounds1), mx(bounds1), B, mn(bounds2), mx(bounds2), npatch, lnl, D, vol, dt, gens)
    got = {}
    for r in rec:
        ia = [i for i in range(npatch) if r[0] is A[i]]
        ib = [i for i in range(npatch) if r[2] is B[i]]
        cx.ok(len(ia) == 1 and ia == ib, "pair from different patches or species")
        i = ia[0]
        ca = [c for c in range(nc) if bounds1[c] <= r[1] < bounds1[c + 1]]
        b2 = bounds1 if bounds2 is None else bounds2
        cb = [c for c in range(nc) if b2[c] <= r[3] < b2[c + 1]]
        cx.ok(len(ca) == 1 and ca == cb, "pair (%d,%d) joins different cells" % (r[1], r[3]))
        if ca != cb or not ca:
            return
        cx.ok(r[10] is gens[i], "generator of another patch")
        cx.eq(r[6], D[i][ca[0], 0], "screening length of another cell")
        cx.eq(r[7], lnl, "Coulomb logarithm")
        cx.eq(r[8], vol, "cell volume")
        cx.eq(r[9], dt, "time step")
        l = got.setdefault((i, ca[0]), [])
        l.append((len(l), r[1], r[3], r[4], r[5]))
    for i in range(npatch):
        for c in range(nc):
            t = "patch %d cell %d: " % (i, c)
            if bounds2 is None:
                verify_intra(cx, got.get((i, c), []), A[i].is_dead, bounds1[c], bounds1[c + 1], t)
            else:
                verify_inter(cx, got.get((i, c), []), A[i].is_dead, (bounds1[c], bounds1[c + 1]), B[i].is_dead, (bounds2[c], bounds2[c + 1]), t)


class _Still:
    def shuffle(self, a):
        pass

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return 0.5 * (lo + hi)


def scenarios(tier):
    full = tier == "thorough"
    out = []
    for via in ("iterator", "function"):
        for n in range(0, 6 + full):
            out.append(Scn("intra-%s-%d" % (via, n), intra, dict(n=n, start=(0, 3, 1, 2, 4, 0, 1)[n], via=via), witness=n == 4, jit=False))
        for n1 in range(0, 5):
            for n2 in range(0, 5):
                if n1 + n2 <= (7 if full else 6):
                    out.append(Scn("inter-%s-%d-%d" % (via, n1, n2), inter, dict(n1=n1, s1=(n1 + n2) % 3, n2=n2, s2=n1 % 2 * 2, via=via), witness=n1 == 3 and n2 == 2))
    for via in ("iterator", "function"):
        for k in (2, 3):
            out.append(Scn("inter-%s-5-%d" % (via, k), inter, dict(n1=5, s1=1, n2=k, s2=0, via=via, live="A")))
            out.append(Scn("inter-%s-%d-5" % (via, k), inter, dict(n1=k, s1=2, n2=5, s2=1, via=via, live="B")))
    out.append(Scn("cells-intra", driver, dict(bounds1=[0, 3, 3, 6], bounds2=None, npatch=2)))
    out.append(Scn("cells-intra-1", driver, dict(bounds1=[0, 1, 5], bounds2=None, npatch=1)))
    out.append(Scn("cells-inter", driver, dict(bounds1=[0, 2, 2, 3], bounds2=[0, 1, 3, 5], npatch=2)))
    out.append(Scn("cells-inter-1", driver, dict(bounds1=[0, 0, 3], bounds2=[0, 2, 4], npatch=1)))
    return out
