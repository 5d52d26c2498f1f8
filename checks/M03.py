"""Absorbing layers."""
from fractions import Fraction
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import M01

BOUNDS = ("2D and 3D domains with absorbing layers on any set of sides (faces, edges and corners), layer thickness 1 to 4, 1 to 3 patches per axis; all E, B and J values and all layer memories symbolic, layer coefficients set to fixed rationals that differ from cell to cell (same list for every side), time step fixed; one electric and one magnetic update against "
          "the convolutional-layer update written once for a generic axis and mirrored; the coefficient profiles themselves: thickness 1 to 8, every side, with free strengths, compared with each other; no damping outside the layer")
OUTSIDE = "rounding; unequal cell sizes for the equality of the profiles of different axes (the code grades every axis with dx); the outermost magnetic half-cell of an upper side, which has no mirror image on the lower side and is updated as in vacuum"
ASSUMPTIONS = ["real arithmetic", "exp is evaluated as the double nearest to its rational argument's image"]
PYFUNCS = ["lambdapic.core.boundary.cpml:PML*/update_efield_cpml_2d/3d/update_bfield_cpml_2d/3d/update_psi_*", "lambdapic.core.maxwell.solver.solver:MaxwellSolver.generate_field_lists/generate_kappa_lists/update_efield/update_bfield",
           "lambdapic.simulation.simulation:Simulation._init_pml/Simulation3D._init_pml"]
E3, B3, J3 = M01.E3, M01.B3, M01.J3
#           kappa  sigma  a
COEF = [("9/2", "5/2", "1/8"), ("3", "2", "1/4"), ("5/2", "3/2", "3/8"), ("3/2", "1/2", "1/2"), ("5/4", "1/4", "5/8")]
COEFB = [("4", "9/4", "3/16"), ("11/4", "7/4", "5/16"), ("9/4", "5/4", "7/16"), ("11/8", "3/8", "9/16"), ("9/8", "1/8", "11/16")]


def coefs(cx, pml, a, side, m, th):
    """overwrite the coefficients: k-th layer cell counted from the domain edge"""
    for k, v in list(vars(pml).items()):
        if k.startswith("psi_"):
            setattr(pml, k, cx.zeros(v.shape))
    for f, tab in (("e", COEF), ("b", COEFB)):
        for j, nm in enumerate(("kappa", "sigma", "a")):
            at = "%s_%s%s" % (nm, f, "xyz"[a])
            arr = getattr(pml, at)
            new = cx.zeros(arr.shape)
            for i in range(m):
                k = layer_index(f, side, i, m, th)
                new[i] = cx.num(Fraction(tab[k][j])) if k is not None else cx.num(1 if nm == "kappa" else 0)
            setattr(pml, at, new)


def layer_index(f, side, i, m, th):
    """distance (in layer cells) of node i from the domain edge, None outside the layer"""
    k = i if side == 0 else (m - 1 - i if f == "e" else m - 2 - i)
    return k if 0 <= k < th else None


def run(cx, n, npatch, bc, d, ng, th, which):
    dim = len(n)
    dt = cx.num(Fraction(1, 4))
    d = d[:dim]
    out = {}

    def body(sim, comm, rank):
        c2, eps = M01.consts(cx)
        sc = dict([(a, cx.num(1)) for a in E3] + [(a, cx.num(1) / c2) for a in B3] + [(a, eps) for a in J3])
        lay = {}
        for p in sim.patches:
            pi = C.pidx(p, dim)
            for at in E3 + B3 + J3:
                a = cx.zeros(getattr(p.fields, at).shape)
                for st, off in C.offsets(n, ng):
                    a[st] = cx.real("%s_p%d[%s]" % (at, p.index, C.gname(off))) * sc[at]
                setattr(p.fields, at, a)
            got = {}
            for pml in p.pml_boundary:
                nm = type(pml).__name__            # PMLXmin ...
                a, side = "XYZ".index(nm[3]), 0 if nm.endswith("min") else 1
                got[a, side] = pml
                coefs(cx, pml, a, side, n[a], th)
                for k in [k for k in vars(pml) if k.startswith("psi_")]:
                    arr = getattr(pml, k)
                    for idx in np.ndindex(*n):
                        arr[idx] = cx.real("%s_p%d_%d[%s]" % (k, p.index, side, C.gname(idx))) * (sc["bx"] if k[4] == "e" else cx.num(1))
            for a in range(dim):
                for side in (0, 1):
                    b = bc[a] if len(bc[a]) == 1 else bc[a][side]
                    want = b != "p" and pi[a] == (0 if side == 0 else npatch[a] - 1)
                    cx.ok(((a, side) in got) == want, "patch %d: layer on %s" % (p.index, C.SIDES[2 * a + side]))
            lay[p.index] = got
        sim._init_maxwell_solver()
        old = M01.snapshot(sim, E3 + B3 + J3)
        psi = {(i, s, k): getattr(m, k).copy() for i, g in lay.items() for s, m in g.items() for k in vars(m) if k.startswith("psi_")}
        (sim.maxwell.update_efield if which == "e" else sim.maxwell.update_bfield)(dt)
        for p in sim.patches:
            check(cx, p, n, d, ng, th, which, dt, c2, eps, {at: old[p.index, at] for at in E3 + B3 + J3}, lay[p.index], {(s, k): v for (i, s, k), v in psi.items() if i == p.index})
    C.dist(cx, dict(n=n, npatch=npatch, d=d, bc=bc, ng=ng, cpml=th, species=lambda: []), [0] * int(np.prod(npatch)), body)


def check(cx, p, n, d, ng, th, which, dt, c2, eps, f, lay, psi):
    dim = len(n)
    step = -1 if which == "e" else 1
    src = B3 if which == "e" else E3
    dst = E3 if which == "e" else B3
    tab = COEF if which == "e" else COEFB
    for st, off in C.offsets(n, ng):
        if C.is_guard(off, n):
            continue
        w = "%s update, patch %d cell (%s)" % (which, p.index, C.gname(off))

        def der(comp, b):
            """effective derivative along axis b of source component comp at this node, and the layer memory it leaves"""
            if b >= dim:
                return 0
            a = f[src[comp]]
            hi, lo = (M01.sh(st, b, 1), st) if step > 0 else (st, M01.sh(st, b, -1))
            g = (a[hi] - a[lo]) / cx.num(Fraction(d[b]))
            for side in (0, 1):
                k = layer_index(which, side, off[b], n[b], th) if (b, side) in lay else None
                if k is None:
                    continue
                ka, si, aa = (Fraction(v) for v in tab[k])
                arg = -(si / ka + aa) * Fraction(1, 4)
                bb = cx.num(float(np.exp(float(arg))))
                cc = (bb - 1) * cx.num(si / (ka * (si + ka * aa)))
                nm = "psi_%s_%s" % (dst[3 - b - comp], "xyz"[b])
                s1 = bb * psi[(b, side), nm][st] + cc * g
                cx.eq(getattr(lay[b, side], nm)[st] * (c2 if which == "e" else 1), s1 * (c2 if which == "e" else 1), "layer memory %s, %s" % (nm, w))
                return g / cx.num(ka) + s1
            return g
        cu = [der(2, 1) - der(1, 2), der(0, 2) - der(2, 0), der(1, 0) - der(0, 1)]
        for a in range(3):
            if which == "e":
                cx.eq(getattr(p.fields, E3[a])[st], f[E3[a]][st] + dt * c2 * cu[a] - dt / eps * f[J3[a]][st], "%s, %s" % (E3[a], w))
                cx.eq(getattr(p.fields, B3[a])[st] * c2, f[B3[a]][st] * c2, "%s changed, %s" % (B3[a], w))
            else:
                cx.eq(getattr(p.fields, B3[a])[st], f[B3[a]][st] - dt * cu[a], "%s, %s" % (B3[a], w))
                cx.eq(getattr(p.fields, E3[a])[st], f[E3[a]][st], "%s changed, %s" % (E3[a], w))
    # memory outside the layers stays as it was
    for (s, k), v in psi.items():
        a, side = s
        kind = k[4]
        for idx in np.ndindex(*n):
            if kind == which and layer_index(which, side, idx[a], n[a], th) is not None:
                continue
            cx.eq(getattr(lay[s], k)[idx] * (c2 if kind == "e" else 1), v[idx] * (c2 if kind == "e" else 1), "layer memory %s outside its layer, patch %d cell (%s)" % (k, p.index, C.gname(idx)))


def profile(cx, dim, th, m):
    """coefficients of freshly built layers with symbolic strengths"""
    from lambdapic.core.boundary import cpml as M
    from lambdapic.core.fields import Fields2D, Fields3D
    km = cx.real("kappa_max", 1, 64)
    am = cx.real("a_max", 0, 1)
    sm = cx.real("sigma_max", 0, 8)
    F = Fields2D(m, m, 0.5, 0.5, 0.0, 0.0, 1) if dim == 2 else Fields3D(m, m, m, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 1)

    class NP:
        def __getattr__(self, k):
            return getattr(np, k)

        @staticmethod
        def ones(s):
            a = cx.zeros((s,) if isinstance(s, int) else s)
            for i in np.ndindex(*a.shape):
                a[i] = cx.num(1)
            return a

        @staticmethod
        def zeros(s):
            return cx.zeros((s,) if isinstance(s, int) else s)
    cx.sym_patch(M, "np", NP())
    ref = {}
    for a in range(dim):
        for side in (0, 1):
            pml = getattr(M, "PML%s%s" % ("XYZ"[a], ("min", "max")[side]))(F, thickness=th, kappa_max=km, a_max=am, sigma_max=sm)
            for b in range(dim):
                for f in "eb":
                    V = [getattr(pml, "%s_%s%s" % (v, f, "xyz"[b])) for v in ("kappa", "sigma", "a")]
                    for v, arr in zip(("kappa", "sigma", "a"), V):
                        cx.ok(len(arr) == m, "profile length")
                        scale = {"kappa": 64, "sigma": 10 ** 11, "a": 1}[v]
                        for i in range(m):
                            k = layer_index(f, side, i, m, th) if b == a else None
                            w = "%s: %s profile of %s at node %d" % (v, f, C.SIDES[2 * a + side], i)
                            if k is None:
                                if v == "kappa":
                                    cx.eq(arr[i], 1, "outside the layer, " + w)
                                continue
                            cx.ok(arr[i] >= (1 if v == "kappa" else 0), "sign, " + w)
                            r = ref.setdefault((f, v, k), arr[i])
                            near(cx, arr[i], r, scale, "sides or axes differ, " + w)


def near(cx, a, b, scale, msg):
    """equal up to the rounding of the constants of the profile"""
    if cx.symbolic:
        tol = Fraction(scale) / 10 ** 9
        cx.ok((a - b <= tol) & (b - a <= tol), msg)
    else:
        cx.ok(abs(float(a) - float(b)) <= scale * 1e-8, msg)


def scenarios(tier):
    out = []
    full = tier == "thorough"

    def add(n, npatch, bc, th, ng=2, d=(1.0, 0.5, 2.0), w=False):
        for which in "eb":
            out.append(Scn(C.nm(which, n, npatch, "_".join(bc), th, ng), run, dict(n=n, npatch=npatch, bc=bc, d=d, ng=ng, th=th, which=which), witness=w))
    for bc in (("m", "p"), ("p", "m"), ("m", "m")):
        add((4, 5), (2, 2), bc, 2, w=bc == ("m", "m"))
    add((3, 4), (3, 3), ("m", "m"), 1, ng=1)
    add((5, 5), (2, 3), ("m", "m"), 4)
    for bc in (("m", "p", "p"), ("p", "m", "p"), ("p", "p", "m")):
        add((3, 4, 3), tuple(2 if b == "m" else 1 for b in bc), bc, 2, ng=1, w=bc[2] == "m")
    add((3, 3, 3), (2, 2, 2), ("m", "m", "m"), 1, ng=1)
    add((4, 3, 4), (2, 1, 3), ("m", "p", "m"), 2, ng=1)
    for dim in (2, 3):
        for th in ((1, 3, 6) if not full else (1, 2, 3, 4, 6, 8)):
            out.append(Scn(C.nm("profile", dim, th), profile, dict(dim=dim, th=th, m=th + 2), witness=th == 3))
    if full:
        add((8, 7), (3, 2), ("m", "m"), 5, ng=3)
        add((5, 5, 5), (2, 2, 2), ("m", "m", "m"), 4, ng=2)
        add((4, 5, 6), (1, 2, 2), ("p", "m", "m"), 3, ng=1)
    return out
