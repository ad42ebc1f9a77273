"""Gravity of a rectangular prism."""
import numpy as np

import bulk
import gen
import loader
import prismcommon as pc
import ref_prism as rp
from core import EPS, LD
from ref_basic import G, PI, inv_r

QUICK = 7
RULE = ("a case draws a prism and points in every relation to it (inside, outside, far, in the plane of a "
        "face, on or next to the extension of an edge, on faces, edges and corners) and compares potential, "
        "field and gradient of the compiled and the pure NumPy package with 80 bit corner sums; further "
        "cases use quadrature, splitting into sub-prisms, and the point mass limit; distinct = (package, "
        "kind of points, call style)")
ASSUMPTIONS = ["the tidal tensor on the boundary of the prism is not promised",
               "judged to 500 ulp of the sum of the moduli of the corner terms (cancellation of the closed form "
               "far away is part of the method)"]
_cfg = {}


def setup(tier, seed):
    import geoana.gravity
    _cfg["compiled"] = geoana.gravity
    _cfg["numpy"] = loader.Config(None)["gravity"]


def expected(P, lo, hi, rho):
    a, b = pc.offsets(P, lo, hi)
    k = LD(G) * LD(rho)
    n = len(P)
    v, m, al = rp.definite("prism_f", a, b)
    u = (-k * v, abs(k) * rp.tol(m, al))
    g = np.empty((n, 3), LD)
    gt = np.empty((n, 3), LD)
    for i in range(3):
        x = [(i + 1) % 3, (i + 2) % 3, i]
        v, m, al = rp.definite("prism_fz", a[:, x], b[:, x])
        g[:, i], gt[:, i] = -k * v, abs(k) * rp.tol(m, al)
    t, tt = rp.tensor2(a, b)
    t, tt = -k * t, abs(k) * tt
    edge, _ = pc.relation(P, lo, hi)
    t[edge] = np.nan
    return u, (g, gt), (t, tt)


def prism(c):
    lo, hi = pc.prism(c.rng)
    rho = gen.swide(c.rng, 1e-2, 1e4)
    kind = pc.KINDS[c.idx % len(pc.KINDS)]
    P = np.array([pc.point(c.rng, lo, hi, kind if i % 2 == 0 else pc.KINDS[c.rng.integers(len(pc.KINDS))])
                  for i in range(12)])
    c.note(kind=kind, lo=lo, hi=hi, rho=rho, P=P)
    (u, ut), (g, gt), (t, tt) = expected(P, lo, hi, rho)
    for pkg, mod in _cfg.items():
        src = c.call("Prism", mod.Prism, lo, hi, rho)
        if c.rng.random() < 0.3:
            src = c.call("Prism", mod.Prism, min_location=[-1, -1, -1], max_location=[1, 1, 1])
            src.max_location, src.min_location, src.rho = hi, lo, rho
        vol = np.prod((hi - lo).astype(LD))
        c.close("volume", src.volume, vol, 20 * EPS * vol)
        c.close("mass", src.mass, vol * LD(rho), 20 * EPS * vol * abs(rho))
        c.close("center", src.location, (lo.astype(LD) + hi) / 2, 20 * EPS * (np.abs(lo) + np.abs(hi)))
        got, n = gen.ask(c, "potential", src.gravitational_potential, P, tail=())
        c.close("prism potential (%s)" % pkg, got, u[:n], ut[:n])
        got, n = gen.ask(c, "field", src.gravitational_field, P)
        c.close("prism field (%s)" % pkg, got, g[:n], gt[:n])
        got, n = gen.ask(c, "gradient", src.gravitational_gradient, P, tail=(3, 3))
        c.close("prism gradient (%s)" % pkg, got, t[:n], tt[:n])
        # Poisson's equation
        edge, inside = pc.relation(P, lo, hi)
        tr = np.trace(got, axis1=-2, axis2=-1)
        want = np.where(edge, np.nan, np.where(inside, -4 * PI * LD(G) * LD(rho), LD(0)))
        c.close("trace of the gradient (%s)" % pkg, tr, want[:n], np.trace(tt, axis1=-2, axis2=-1)[:n]
                + 50 * EPS * abs(G * rho))
        c.ev("points:" + kind)
        c.ev("inside", int(inside[:n].sum()))
        c.sig(pkg, kind, c.info["style"])


def quadrature(c):
    lo, hi = pc.prism(c.rng)
    rho = gen.swide(c.rng, 1e-2, 1e4)
    L = np.linalg.norm(hi - lo)
    P = gen.points(c.rng, 4, (lo + hi) / 2, 1.2 * L, 4 * L)
    c.note(lo=lo, hi=hi, rho=rho, P=P)
    (u, ut), (g, gt), (t, tt) = expected(P, lo, hi, rho)
    q = [rp.quadrature(lo - p, hi - p) for p in P]
    k = G * rho
    V = np.prod(hi - lo)
    d = np.linalg.norm(P - (lo + hi) / 2, axis=1)
    i0 = np.array([x[0] for x in q]) * k
    i1 = -np.array([x[1] for x in q]) * k
    i2 = np.array([x[2] for x in q]) * k
    acc = 1e-8 * abs(k) * V / d
    for pkg, mod in _cfg.items():
        src = mod.Prism(lo, hi, rho)
        got, n = gen.ask(c, "potential", src.gravitational_potential, P, tail=())
        c.close("potential = integral (%s)" % pkg, got, i0[:n], (ut + acc)[:n])
        got, n = gen.ask(c, "field", src.gravitational_field, P)
        c.close("field = integral (%s)" % pkg, got, i1[:n], (gt + (acc / d)[:, None])[:n])
        got, n = gen.ask(c, "gradient", src.gravitational_gradient, P, tail=(3, 3))
        c.close("gradient = integral (%s)" % pkg, got, i2[:n], (tt + (acc / d ** 2)[:, None, None])[:n])
        c.ev("quadrature")
        c.sig(pkg, c.info["style"])


def split(c):
    """A prism is the sum of the prisms it is cut into; far away a point mass."""
    lo, hi = pc.prism(c.rng)
    rho = gen.swide(c.rng, 1e-2, 1e4)
    mod = _cfg["compiled"]
    ax = c.rng.integers(3)
    cut = lo[ax] + (hi[ax] - lo[ax]) * c.rng.uniform(0.1, 0.9)
    m1, m2 = hi.copy(), lo.copy()
    m1[ax] = m2[ax] = cut
    P = np.array([pc.point(c.rng, lo, hi, k) for k in ("generic", "inside", "near", "far", "near-edge-line", "inside")])
    P = P[P[:, ax] != cut]
    c.note(lo=lo, hi=hi, cut=cut, axis=int(ax), rho=rho, P=P)
    whole = mod.Prism(lo, hi, rho)
    parts = [mod.Prism(lo, m1, rho), mod.Prism(m2, hi, rho)]
    ex = [expected(P, lo, hi, rho), expected(P, lo, m1, rho), expected(P, m2, hi, rho)]
    for i, name in enumerate(("gravitational_potential", "gravitational_field", "gravitational_gradient")):
        w = c.call(name, getattr(whole, name), P)
        s = sum(c.call(name, getattr(p, name), P) for p in parts)
        tol = sum(e[i][1] for e in ex)
        edge = np.zeros(len(P), bool)
        for a, b in ((lo, hi), (lo, m1), (m2, hi)):
            edge |= pc.relation(P, a, b)[0]
        s = np.array(s)
        s[edge] = np.nan
        c.close("sum of parts: " + name, w, s, tol)
    L = np.linalg.norm(hi - lo)
    mid = (lo + hi) / 2
    F = gen.points(c.rng, 4, mid, 20 * L, 60 * L)
    r, u, g, t = inv_r(F, mid)
    k = LD(G) * LD(rho) * np.prod((hi - lo).astype(LD))
    exf = expected(F, lo, hi, rho)
    for i, (name, ref) in enumerate((("gravitational_potential", k * u), ("gravitational_field", -k * g),
                                     ("gravitational_gradient", k * t))):
        w = c.call(name, getattr(whole, name), F)
        sh = (4,) + (1,) * i
        c.close("point mass limit: " + name, w, ref, exf[i][1] + np.abs(10 * k / r ** (i + 1) * (L / r) ** 2).reshape(sh))
    c.ev("splits")
    c.sig("split", int(ax), rho > 0)


TARGETS = [("bulk", bulk.target("gravity.Prism"), 9, 756), ("prism", prism, 800, 40000), ("quadrature", quadrature, 60, 3000), ("split", split, 150, 6000)]
REQUIRE = dict({"points:" + k: 60 for k in pc.KINDS}, inside=200)
REQUIRE["many points"] = 20
