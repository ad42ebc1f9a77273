"""Magnetised rectangular prism."""
import numpy as np

import bulk
import gen
import loader
import prismcommon as pc
import ref_prism as rp
from core import EPS, LD
from ref_basic import PI, inv_r, ld, mu_0, norm

QUICK = 7
RULE = ("a case draws a prism, a magnetisation (any direction, also along axes and zero) and points in every "
        "relation to the prism, and compares potential, H, B and the gradient of H of the compiled and the pure "
        "NumPy package with 80 bit corner sums; further cases use quadrature, div B = 0 / curl H = 0 identities "
        "and the dipole limit; distinct = (package, kind of points, call style)")
ASSUMPTIONS = ["H, B and the gradient of H on the boundary of the prism are not promised",
               "judged to 500 ulp of the sum of the moduli of the corner terms"]
_cfg = {}


def setup(tier, seed):
    import geoana.em.static
    _cfg["compiled"] = geoana.em.static
    _cfg["numpy"] = loader.Config(None)["em.static"]


def magnetization(rng):
    k = rng.integers(6)
    if k == 0:
        return None
    if k < 3:
        v = np.zeros(3)
        v[rng.integers(3)] = gen.swide(rng, 1e-3, 1e3)
        return v
    return gen.direction(rng) * gen.wide(rng, 1e-3, 1e3)


def expected(P, lo, hi, M):
    a, b = pc.offsets(P, lo, hi)
    M = ld(M)
    n = len(P)
    k = 1 / (4 * PI)
    s = np.zeros(n, LD)
    st = np.zeros(n, LD)
    for i in range(3):
        x = [(i + 1) % 3, (i + 2) % 3, i]
        v, m, al = rp.definite("prism_fz", a[:, x], b[:, x])
        s += -k * v * M[i]
        st += k * rp.tol(m, al) * abs(M[i])
    t, tt = rp.tensor2(a, b)
    H, Ht = -k * t @ M, k * tt @ np.abs(M)
    t3, t3t = rp.tensor3(a, b)
    g, gt = -k * t3 @ M, k * t3t @ np.abs(M)
    edge, inside = pc.relation(P, lo, hi)
    B = LD(mu_0) * (H + np.where(inside[:, None], M, LD(0)))
    Bt = LD(mu_0) * (Ht + 10 * EPS * norm(M[None]))
    for q in (H, B, g):
        q[edge] = np.nan
    return {"scalar_potential": (s, st), "magnetic_field": (H, Ht), "magnetic_flux_density": (B, Bt),
            "magnetic_field_gradient": (g, gt)}


TAIL = {"scalar_potential": (), "magnetic_field": (3,), "magnetic_flux_density": (3,),
        "magnetic_field_gradient": (3, 3)}


def prism(c):
    lo, hi = pc.prism(c.rng)
    M = magnetization(c.rng)
    kind = pc.KINDS[c.idx % len(pc.KINDS)]
    P = np.array([pc.point(c.rng, lo, hi, kind if i % 2 == 0 else pc.KINDS[c.rng.integers(len(pc.KINDS))])
                  for i in range(12)])
    c.note(kind=kind, lo=lo, hi=hi, M=M, P=P)
    ex = expected(P, lo, hi, [0, 0, 1] if M is None else M)
    edge, inside = pc.relation(P, lo, hi)
    for pkg, mod in _cfg.items():
        src = c.call("MagneticPrism", mod.MagneticPrism, lo, hi, M)
        if M is not None:
            c.close("moment", src.moment, np.prod((hi - lo).astype(LD)) * ld(M),
                    20 * EPS * np.prod(hi - lo) * np.linalg.norm(M))
        for name in c.rng.permutation(list(TAIL)):
            w, t = ex[name]
            got, n = gen.ask(c, name, getattr(src, name), P, tail=TAIL[name])
            c.close("%s (%s)" % (name, pkg), got, w[:n], t[:n])
            if name == "magnetic_field_gradient":
                c.close("divergence (%s)" % pkg, np.trace(got, axis1=-2, axis2=-1),
                        np.where(edge, np.nan, 0.0)[:n], np.trace(t, axis1=-2, axis2=-1)[:n])
        c.ev("points:" + kind)
        c.ev("inside", int(inside[:n].sum()))
        c.sig(pkg, kind, c.info["style"])


def quadrature(c):
    lo, hi = pc.prism(c.rng)
    M = gen.direction(c.rng) * gen.wide(c.rng, 1e-2, 1e2)
    L = np.linalg.norm(hi - lo)
    P = gen.points(c.rng, 4, (lo + hi) / 2, 1.2 * L, 4 * L)
    c.note(lo=lo, hi=hi, M=M, P=P)
    ex = expected(P, lo, hi, M)
    q = [rp.quadrature(lo - p, hi - p) for p in P]
    V = np.prod(hi - lo)
    d = np.linalg.norm(P - (lo + hi) / 2, axis=1)
    k = 1 / (4 * np.pi)
    want = {"scalar_potential": -k * np.array([x[1] @ M for x in q]),
            "magnetic_field": k * np.array([x[2] @ M for x in q]),
            "magnetic_flux_density": mu_0 * k * np.array([x[2] @ M for x in q]),
            "magnetic_field_gradient": -k * np.array([x[3] @ M for x in q])}
    for pkg, mod in _cfg.items():
        src = mod.MagneticPrism(lo, hi, M)
        for name, w in want.items():
            o = len(TAIL[name])
            acc = 1e-7 * np.linalg.norm(M) * V / d ** (o + 2) * (mu_0 if "flux" in name else 1)
            got, n = gen.ask(c, name, getattr(src, name), P, tail=TAIL[name])
            c.close("%s = integral (%s)" % (name, pkg), got, w[:n],
                    ex[name][1][:n] + acc.reshape((4,) + (1,) * o)[:n])
        c.ev("quadrature")
        c.sig(pkg, c.info["style"])


def dipole_limit(c):
    lo, hi = pc.prism(c.rng)
    M = gen.direction(c.rng) * gen.wide(c.rng, 1e-2, 1e2)
    mod = _cfg["compiled"]
    L = np.linalg.norm(hi - lo)
    mid = (lo + hi) / 2
    F = gen.points(c.rng, 4, mid, 20 * L, 50 * L)
    src = mod.MagneticPrism(lo, hi, M)
    ex = expected(F, lo, hi, M)
    r, u, g, t = inv_r(F, mid)
    m = ld(M) * np.prod((hi - lo).astype(LD))
    k = 1 / (4 * PI)
    mm = norm(m[None])[0]
    c.note(lo=lo, hi=hi, M=M, P=F)
    for name, w, p in (("scalar_potential", -k * g @ m, 2), ("magnetic_field", k * t @ m, 3),
                       ("magnetic_flux_density", LD(mu_0) * k * t @ m, 3)):
        got = c.call(name, getattr(src, name), F)
        sc = 20 * k * mm / r ** p * (L / r) ** 2 * (LD(mu_0) if "flux" in name else 1)
        c.close("dipole limit: " + name, got, w, ex[name][1] + sc.reshape((4,) + (1,) * (w.ndim - 1)))
    dip = mod.MagneticDipoleWholeSpace(location=mid, orientation=M, moment=float(mm))
    w = c.call("dipole", dip.magnetic_field, F)
    got = c.call("magnetic_field", src.magnetic_field, F)
    c.close("prism and dipole agree", got, w, ex["magnetic_field"][1] + (20 * k * mm / r ** 3 * (L / r) ** 2)[:, None])
    c.ev("dipole limit")
    c.sig("dipole", int(np.argmax(np.abs(M))))


TARGETS = [("bulk", bulk.target("static.MagneticPrism"), 9, 756), ("prism", prism, 800, 40000), ("quadrature", quadrature, 60, 3000), ("dipole", dipole_limit, 100, 4000)]
REQUIRE = dict({"points:" + k: 60 for k in pc.KINDS}, inside=200)
REQUIRE["many points"] = 20
