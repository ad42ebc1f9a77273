"""Static magnetic dipole, magnetic pole and circular current loop."""
import numpy as np

import bulk
import gen
from core import EPS, LD
from ref_basic import (PI, cyl_to_cart, dipole_AB, ld, loop_AB, loop_geometry, loop_near, loop_scale, mu_0,
                       norm, vec_to_cyl)

BUILD = None
C = 1000
QUICK = 15
RULE = ("a case draws a source with every parameter away from its default (location, orientation as letter or "
        "vector, moment / current, radius, permeability), points at distances over several decades (on the "
        "axis, next to it, in the plane of the loop, next to the wire, far away) in Cartesian or cylindrical "
        "coordinates, and compares A, B and H with an 80 bit evaluation of Biot-Savart's law; distinct = "
        "(source, coordinates, region, call style, orientation)")
ASSUMPTIONS = ["points on the wire or at the dipole are excluded",
               "on the polar axis of cylindrical coordinates the direction of the components is ambiguous and "
               "not promised"]


def build(c, cls, **kw):
    """Construct, or construct with defaults and assign."""
    mode = c.rng.integers(3)
    if mode:
        return c.call(cls.__name__, cls, **kw)
    s = c.call(cls.__name__, cls)
    for k in c.rng.permutation(list(kw)):
        c.call(cls.__name__ + "." + k, setattr, s, k, kw[k])
    return s


def place(c, loc, lo, hi, cyl, n=10, P=None):
    """(arguments, exact Cartesian points, relative coordinate slack)."""
    if P is None:
        P = gen.points(c.rng, n, loc, lo, hi)
    if not cyl:
        return P, ld(P), None
    Q = np.stack([np.hypot(P[:, 0], P[:, 1]), np.arctan2(P[:, 1], P[:, 0])
                  + 2 * np.pi * c.rng.integers(-1, 2, len(P)), P[:, 2]], -1)
    Q[Q[:, 0] == 0, 0] = 1e-3 * lo
    return Q, cyl_to_cart(Q), Q[:, 1]


def ask(c, key, fn, Q, cyl, want, tol, phi):
    if cyl:
        want = vec_to_cyl(phi, want)
        kw = {"coordinates": ["cylindrical", "Cylindrical", "CYLINDRICAL"][c.rng.integers(3)]}
    else:
        kw = {"coordinates": "cartesian"} if c.rng.random() < 0.3 else {}
    got, n = gen.ask(c, key, fn, Q, **kw)
    c.close(key + (" (cylindrical)" if cyl else ""), got, want[:n], tol[:n, None])


def dipole(c):
    from geoana.em import static
    pole = c.idx % 3 == 2
    cls = static.MagneticPoleWholeSpace if pole else static.MagneticDipoleWholeSpace
    loc = gen.location(c.rng)
    oarg, o = gen.orientation(c.rng)
    m = gen.swide(c.rng, 1e-3, 1e5)
    mu = mu_0 * gen.logu(c.rng, 0.5, 100)
    L = gen.wide(c.rng, 1e-2, 1e3, 1e5)
    cyl = bool(c.rng.random() < 0.4)
    Q, P, phi = place(c, loc, L * 0.1, L * 30, cyl)
    c.note(cls=cls.__name__, location=loc, orientation=oarg, moment=m, mu=mu, Q=Q, cylindrical=cyl)
    s = build(c, cls, location=loc, orientation=oarg, moment=m, mu=mu)
    d = P - ld(loc)
    A, B, r = dipole_AB(d, o, m, mu)
    k = abs(LD(mu) * LD(m)) / (4 * PI)
    slack = C * EPS * (1 + norm(P) / r * (3 if cyl else 0))
    if pole:
        B = LD(mu) * LD(m) / (4 * PI) * d / r[:, None] ** 3
        tB = slack * k / r ** 2
    else:
        ask(c, "dipole A", s.vector_potential, Q, cyl, A, slack * k / r ** 2, phi)
        tB = slack * 3 * k / r ** 3
    name = "pole" if pole else "dipole"
    ask(c, name + " B", s.magnetic_flux_density, Q, cyl, B, tB, phi)
    ask(c, name + " H", s.magnetic_field, Q, cyl, B / LD(mu), tB / LD(mu), phi)
    c.ev(name)
    c.sig(name, cyl, c.info["style"], str(oarg) if isinstance(oarg, str) else "vector")


REGIONS = ("generic", "axis", "near-axis", "plane", "near-wire", "far", "close-center")


def loop(c):
    from geoana.em import static
    region = REGIONS[c.idx % len(REGIONS)]
    loc = gen.location(c.rng, 10)
    oarg, o = gen.orientation(c.rng)
    if region == "generic" and c.rng.random() < 0.3:       # almost antiparallel to z
        oarg = np.array([gen.signed(c.rng, 1e-9, 1e-2), gen.signed(c.rng, 1e-9, 1e-2), -1.0])
        o = ld(oarg)
        o = o / norm(o[None])[0]
    a = gen.wide(c.rng, 1e-2, 1e2, 1e5)
    cur = gen.swide(c.rng, 1e-3, 1e3)
    mu = mu_0 * gen.logu(c.rng, 0.5, 100)
    n = 8
    of = o.astype(float)
    e = np.cross(of, gen.unit(c.rng, n))
    e /= np.linalg.norm(e, axis=1, keepdims=True)
    if region in ("generic", "far", "close-center"):
        lo, hi = {"generic": (0.05, 5), "far": (5, 300), "close-center": (1e-4, 0.3)}[region]
        P = gen.points(c.rng, n, loc, lo * a, hi * a)
    elif region == "axis":
        P = loc + np.outer(gen.signed(c.rng, 1e-2, 30, n) * a, of)
        P[0] = loc
    elif region == "near-axis":
        P = loc + np.outer(gen.signed(c.rng, 1e-2, 10, n) * a, of) + e * (gen.logu(c.rng, 1e-8, 3e-2, n) * a)[:, None]
    elif region == "plane":
        P = loc + e * (gen.logu(c.rng, 1e-3, 30, n) * a)[:, None]
    else:
        th = c.rng.uniform(0, 2 * np.pi, n)
        dl = gen.logu(c.rng, 1e-5, 0.2, n) * a
        P = loc + e * (a + dl * np.cos(th))[:, None] + np.outer(dl * np.sin(th), of)
    cyl = bool(c.rng.random() < 0.3)
    Q, P, phi = place(c, loc, a, a, cyl, P=P)
    c.note(region=region, location=loc, orientation=oarg, a=a, current=cur, mu=mu, Q=Q, cylindrical=cyl)
    s = build(c, static.CircularLoopWholeSpace, location=loc, orientation=oarg, radius=a, current=cur, mu=mu)
    d = P - ld(loc)
    z, perp, rho, delta = loop_geometry(d, o, a)
    A, B = loop_AB(d, o, a, cur, mu, 1500)
    near = delta < 0.05 * a
    if near.any():
        An, Bn = loop_near(d[near], o, a, cur, mu)
        A[near], B[near] = An, Bn
    bad = delta < 3e-6 * a
    A[bad] = B[bad] = np.nan
    tA, tB, sA, sB = loop_scale(d, o, a, cur, mu)
    R = norm(d) + LD(a)
    slack = 100 * EPS * (1 + R / delta + (norm(P) + norm(ld(loc)[None])) / delta * (1 if cyl else 0))
    # next to the wire K(k) is formed from 1 - k^2 = (delta / 2a)^2, rounded
    tolA = slack * tA * (1 + 0.3 * R / delta) + 3e-11 * sA
    tolB = slack * tB + 3e-11 * sB
    ask(c, "loop A", s.vector_potential, Q, cyl, A, tolA, phi)
    ask(c, "loop B", s.magnetic_flux_density, Q, cyl, B, tolB, phi)
    ask(c, "loop H", s.magnetic_field, Q, cyl, B / LD(mu), tolB / LD(mu), phi)
    c.ev("loop:" + region)
    c.sig("loop", region, cyl, c.info["style"])


def limits(c):
    """On the axis the textbook formula; far away the dipole of the same moment."""
    from geoana.em import static
    a = gen.wide(c.rng, 1e-2, 1e2, 1e5)
    cur = gen.swide(c.rng, 1e-3, 1e3)
    mu = mu_0 * gen.logu(c.rng, 0.5, 100)
    oarg, o = gen.orientation(c.rng)
    loc = gen.location(c.rng, 10 * min(1.0, a), far=False)
    z = gen.signed(c.rng, 1e-2, 30, 8) * a
    P = loc + np.outer(z, o.astype(float))
    c.note(a=a, current=cur, mu=mu, orientation=oarg, location=loc, z=z)
    s = static.CircularLoopWholeSpace(location=loc, orientation=oarg, radius=a, current=cur, mu=mu)
    B = c.call("B", s.magnetic_flux_density, P)
    want = (mu * cur * a ** 2 / (2 * (a ** 2 + z ** 2) ** 1.5))[:, None] * o.astype(float)
    # cancellation of the closed form on the axis grows like (z/a)^2
    c.close("field on the axis", B, want, (1e-9 * (1 + (z / a) ** 2)[:, None] * np.abs(want).max(1)[:, None]))
    F = gen.points(c.rng, 6, loc, 100 * a, 300 * a)
    m = cur * np.pi * a ** 2
    dip = static.MagneticDipoleWholeSpace(location=loc, orientation=oarg, moment=m, mu=mu)
    for nm in ("vector_potential", "magnetic_flux_density", "magnetic_field"):
        x, y = c.call(nm, getattr(s, nm), F), c.call(nm, getattr(dip, nm), F)
        r = np.linalg.norm(F - loc, axis=1)
        p = 2 if nm == "vector_potential" else 3
        k = abs(m) / (4 * np.pi) / r ** p * (1 if nm == "magnetic_field" else mu)
        c.close("dipole limit of the loop: " + nm, x, y, (k * (20 * (a / r) ** 2 + 1e-13 * (r / a) ** 4))[:, None])
    c.ev("limits")
    c.sig("limits", str(oarg) if isinstance(oarg, str) else "vector", cur > 0)


TARGETS = [("bulk", bulk.target("static.MagneticDipoleWholeSpace", "static.MagneticPoleWholeSpace", "static.CircularLoopWholeSpace"), 13, 2340), ("dipole", dipole, 600, 40000), ("loop", loop, 420, 20000), ("limits", limits, 60, 3000)]
REQUIRE = dict({"loop:" + r: 30 for r in REGIONS}, dipole=100, pole=50)
REQUIRE["many points"] = 20
