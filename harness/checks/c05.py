"""The prism kernels are antiderivatives of 1/r and its derivatives."""
import numpy as np

import bulk
import gen
import loader
import ref_prism as rp
from core import EPS, LD

QUICK = 7
RULE = ("a case draws boxes (generic, touching coordinate planes, axes or the origin, far, thin, nearly "
        "in line with an edge), sums each of the nine kernels over the eight corners through the public "
        "function of the compiled and of the pure NumPy package, and compares with the integral in 80 bit "
        "arithmetic (itself checked against Gauss-Legendre quadrature in the run); distinct = (kernel, "
        "package, kind of box)")
ASSUMPTIONS = ["no promise on the value where the integral itself is singular or discontinuous "
               "(origin on a face or edge for the second and third derivatives); finiteness is still required",
               "judged to 500 ulp of the sum of the moduli of all terms, plus the loss of log(y + r) next to "
               "the extension of an edge"]
_cfg = {}
KINDS = ("generic", "plane", "axis", "corner", "inside", "far", "thin", "near-edge", "integer")


def setup(tier, seed):
    import geoana.kernels
    _cfg["compiled"] = geoana.kernels
    _cfg["numpy"] = loader.Config(None)["kernels"]


def box(rng, kind):
    s = gen.logu(rng, 1e-3, 1e3)
    size = s * gen.logu(rng, 0.05, 2, 3)
    lo = s * gen.signed(rng, 0.05, 5, 3)
    if kind == "far":
        lo = s * gen.signed(rng, 5, 60, 3)
    elif kind == "thin":
        size[rng.integers(3)] *= 10.0 ** rng.uniform(-6, -2)
    elif kind == "inside":
        lo = -size * rng.uniform(0.02, 0.98, 3)
    elif kind == "integer":
        lo = np.round(rng.uniform(-3, 3, 3))
        size = np.round(rng.uniform(1, 4, 3))
    hi = lo + size
    if kind in ("plane", "axis", "corner", "near-edge"):
        k = {"plane": 1, "axis": 2, "near-edge": 2, "corner": 3}[kind]
        for ax in rng.permutation(3)[:k]:
            tiny = 0.0 if kind != "near-edge" else gen.signed(rng, *((1e-12, 1e-3) if rng.random() < 0.6 else (1e-120, 1e-12))) * s
            if rng.random() < 0.5:
                lo[ax], hi[ax] = tiny, tiny + size[ax]
            else:
                lo[ax], hi[ax] = tiny - size[ax], tiny
    return lo, hi


def promise(name, lo, hi):
    """False where the integral is singular or has a jump."""
    zero = (lo == 0) | (hi == 0)
    within = (lo <= 0) & (hi >= 0)
    if name in ("prism_f", "prism_fz"):
        return True
    if name == "prism_fzz":
        return not (zero[2] and within[0] and within[1])
    if name == "prism_fzx":
        return not (zero[0] and zero[2] and within[1])
    if name == "prism_fzy":
        return not (zero[1] and zero[2] and within[0])
    return not (zero.any() and within.all())


def kernels(c):
    kind = KINDS[c.idx % len(KINDS)]
    B = [box(c.rng, kind) for _ in range(6)]
    lo = np.array([b[0] for b in B])
    hi = np.array([b[1] for b in B])
    c.note(kind=kind, lo=lo, hi=hi)
    ok6 = np.ones(6, bool)
    for name in rp.NAMES:
        want, mag, alw = rp.definite(name, lo.astype(LD), hi.astype(LD))
        tol = rp.tol(mag, alw)
        good = np.array([promise(name, *b) for b in B])
        for pkg, mod in _cfg.items():
            f = getattr(mod, name)
            tot = 0.0
            arr = c.rng.random() < 0.7
            finite = True
            for i in (0, 1):
                for j in (0, 1):
                    for k in (0, 1):
                        x, y, z = (hi if i else lo)[:, 0], (hi if j else lo)[:, 1], (hi if k else lo)[:, 2]
                        if arr:
                            v = c.call(name, f, x, y, z)
                        else:
                            v = np.array([c.call(name, f, np.array(a), np.array(b), np.array(d))
                                          for a, b, d in zip(x, y, z)])
                        if not c.check(np.shape(v) == (6,), name + ":shape", "shape %s" % (np.shape(v),)):
                            return
                        finite &= bool(np.isfinite(v).all())
                        tot = tot + (-1 if (i + j + k) % 2 == 0 else 1) * np.asarray(v).astype(LD)
            c.check(finite, name + ":finite", "%s (%s) is not finite" % (name, pkg))
            c.close("%s (%s)" % (name, pkg), tot, np.where(good, want, np.nan), tol)
            c.ev("box:" + kind)
            c.ev("promised", int(good.sum()))
            c.sig(name, pkg, kind, arr)


def large(c):
    """Offsets in many copies, as other shapes."""
    name = rp.NAMES[c.idx % 9]
    X = gen.signed(c.rng, 1e-3, 1e3, (6, 3))
    X[0, c.rng.integers(3)] = 0
    c.note(kernel=name, X=X)
    for pkg, mod in _cfg.items():
        bulk.rows(c, "%s (%s)" % (name, pkg), getattr(mod, name), [X[:, i].copy() for i in range(3)], 6)
    c.ev("large")
    c.sig(name, "large")


def quadrature(c):
    """The reference, and through it the kernels, against plain quadrature."""
    s = gen.logu(c.rng, 1e-2, 1e2)
    size = s * c.rng.uniform(0.2, 1, 3)
    d = gen.unit(c.rng) * s * c.rng.uniform(2.2, 6)
    lo = d - size / 2
    hi = d + size / 2
    i0, i1, i2, i3 = rp.quadrature(lo, hi)
    c.note(lo=lo, hi=hi)
    V = float(np.prod(size))
    R = float(np.linalg.norm(d))
    from itertools import product

    def total(mod, name, ax):
        f = getattr(mod, name)
        t = 0.0
        m = 0.0
        for ijk in product((0, 1), repeat=3):
            cs = [np.array([(hi if ijk[q] else lo)[ax[q]]]) for q in range(3)]
            v = float(np.asarray(c.call(name, f, *cs)).ravel()[0])
            t += (-1 if sum(ijk) % 2 == 0 else 1) * v
            m += abs(v)
        return t, m

    for pkg, mod in _cfg.items():
        def cmp(name, ax, want, order):
            t, m = total(mod, name, ax)
            c.close("%s (%s) integral" % (name, pkg), t, want, 2000 * EPS * (m + R * R * (1 + abs(np.log(R))) * (order == 0))
                    + 1e-9 * V / R ** (order + 1))
        cmp("prism_f", (0, 1, 2), -i0, 0)
        for i in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            cmp("prism_fz", (a, b, i), i1[i], 1)
            cmp("prism_fzz", (a, b, i), -i2[i, i], 2)
            cmp("prism_fzx", (a, b, i), -i2[i, a], 2)
            cmp("prism_fzy", (a, b, i), -i2[i, b], 2)
            cmp("prism_fzzz", (a, b, i), i3[i, i, i], 3)
            cmp("prism_fxxy", (a, b, i), i3[a, a, b], 3)
            cmp("prism_fxxz", (a, b, i), i3[a, a, i], 3)
            cmp("prism_fxyz", (a, b, i), i3[0, 1, 2], 3)
    c.ev("quadrature boxes")
    c.sig(*(np.sign(d).astype(int)))


TARGETS = [("large", large, 12, 900), ("kernels", kernels, 900, 60000), ("quadrature", quadrature, 60, 3000)]
REQUIRE = {"box:" + k: 100 for k in KINDS}
