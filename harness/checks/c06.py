"""Gravity of a point mass and of a homogeneous sphere."""
import numpy as np

import bulk
import gen
from core import EPS, LD
from ref_basic import G, PI, inv_r, ld, norm

BUILD = None
TOL = 2000 * EPS
QUICK = 15
RULE = ("a case draws a source (all of mass, density, radius, location), points at log-uniform "
        "distances (inside, at and outside the sphere, on axes and coordinate planes) and a way of "
        "handing them over, and compares every returned value with the closed form in 80 bit arithmetic; "
        "distinct = (class, call style, region of the points, sign of the source)")
ASSUMPTIONS = ["the tidal tensor exactly on the surface of the sphere is not promised",
               "values are judged to 2000 ulp of the largest term"]


def point_mass(c):
    from geoana import gravity
    m = gen.swide(c.rng, 1e-2, 1e15)
    loc = gen.location(c.rng)
    L = gen.wide(c.rng, 1e-2, 1e4, 1e5)
    P = gen.points(c.rng, 12, loc, L * 1e-2, L * 1e2)
    c.note(mass=m, location=loc, P=P)
    src = c.call("PointMass", gravity.PointMass, mass=m, location=loc)
    if c.rng.random() < 0.3:
        src = c.call("PointMass", gravity.PointMass)
        src.mass, src.location = m, list(loc)
    r, u, g, t = inv_r(P, loc)
    k = LD(G) * LD(m)
    got, n = gen.ask(c, "potential", src.gravitational_potential, P, tail=())
    c.close("point mass potential", got, (k * u)[:n], TOL * np.abs(k * u)[:n])
    got, n = gen.ask(c, "field", src.gravitational_field, P)
    c.close("point mass field", got, (-k * g)[:n], (TOL * abs(k) / r ** 2)[:n, None])
    got, n = gen.ask(c, "gradient", src.gravitational_gradient, P, tail=(3, 3))
    c.close("point mass gradient", got, (k * t)[:n], (TOL * 3 * abs(k) / r ** 3)[:n, None, None])
    c.sig("point", c.info["style"], m > 0, bool((loc == 0).all()))


def sphere(c):
    from geoana import gravity
    R = gen.logu(c.rng, 1e-2, 1e4) if c.rng.random() < 0.7 else gen.logu(c.rng, 1e-7, 1e8)
    rho = gen.swide(c.rng, 1e-3, 1e4)
    loc = gen.location(c.rng, 3 * R)
    P = gen.points(c.rng, 16, loc, R * 1e-2, R * 1e2)
    # a few close to the surface, from both sides, and the centre
    P[:4] = loc + gen.direction(c.rng, 4) * R * (1 + gen.signed(c.rng, 1e-9, 0.3, 4))[:, None]
    P[4] = loc
    # integers put points exactly on the surface
    P = P[c.rng.permutation(16)]
    src = c.call("Sphere", gravity.Sphere, radius=R, rho=rho, location=loc)
    how = c.rng.integers(4)
    if how == 1:            # set through the mass
        m = float(LD(rho) * 4 * PI * LD(R) ** 3 / 3)
        src = c.call("Sphere", gravity.Sphere, radius=R, rho=1.0, location=loc)
        src.mass = m
        c.close("density from the mass", src.rho, LD(m) * 3 / (4 * PI * LD(R) ** 3), TOL * abs(rho))
        rho = src.rho
    elif how == 2:
        src = c.call("Sphere", gravity.Sphere, radius=1.0, rho=-1.0)
        src.radius, src.rho, src.location = R, rho, loc
    c.close("mass of the sphere", src.mass, 4 * PI * LD(R) ** 3 * LD(rho) / 3, TOL * abs(rho) * R ** 3 * 4)
    c.note(R=R, rho=rho, location=loc, P=P)
    d = ld(P) - ld(loc)
    r = norm(d)
    k = LD(G) * 4 * PI * LD(R) ** 3 * LD(rho) / 3
    inside = r <= LD(R)
    safe = np.where(inside, LD(R), r)
    u = np.where(inside, LD(G) * 2 / 3 * PI * LD(rho) * (3 * LD(R) ** 2 - r ** 2), k / safe)
    g = np.where(inside[:, None], -LD(G) * 4 / 3 * PI * LD(rho) * d, -k * d / safe[:, None] ** 3)
    e = d / safe[:, None]
    t = np.where(inside[:, None, None], -LD(G) * 4 / 3 * PI * LD(rho) * np.eye(3, dtype=LD),
                 k * (3 * e[:, :, None] * e[:, None, :] - np.eye(3, dtype=LD)) / safe[:, None, None] ** 3)
    edge = np.abs(r - LD(R)) < 1e-11 * (R + np.abs(loc).max())
    t[edge] = np.nan
    slack = TOL * (1 + np.abs(loc).max() / R)
    got, n = gen.ask(c, "potential", src.gravitational_potential, P, tail=())
    c.close("sphere potential", got, u[:n], (slack * abs(k) / R * np.ones(16))[:n] * np.minimum(1.5, np.float64(R / safe))[:n])
    got, n = gen.ask(c, "field", src.gravitational_field, P)
    c.close("sphere field", got, g[:n], slack * np.float64(abs(k) / safe ** 2)[:n, None])
    got, n = gen.ask(c, "gradient", src.gravitational_gradient, P, tail=(3, 3))
    c.close("sphere gradient", got, t[:n], slack * 3 * np.float64(abs(k) / safe ** 3)[:n, None, None])
    c.ev("inside", int(inside.sum()))
    c.ev("outside", int((~inside).sum()))
    c.sig("sphere", c.info["style"], how, bool(inside[:n].any()), bool((~inside[:n]).any()), rho > 0)


def surface(c):
    """Points that lie exactly on the surface: potential and field are continuous."""
    from geoana import gravity
    a, b, h = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1)][c.rng.integers(4)]
    s = 2.0 ** c.rng.integers(-4, 10)
    v = np.array([a, b, 0.0]) * gen.sgn(c.rng, 3)
    v = c.rng.permutation(v) * s
    R = h * s
    rho = gen.swide(c.rng, 1e-2, 1e4)
    loc = np.round(c.rng.uniform(-100, 100, 3))
    src = c.call("Sphere", gravity.Sphere, R, rho, loc)
    P = (loc + v)[None]
    c.note(R=R, rho=rho, location=loc, P=P)
    u = LD(G) * 4 / 3 * PI * LD(rho) * LD(R) ** 2
    got, n = gen.ask(c, "potential", src.gravitational_potential, P, tail=())
    c.close("potential on the surface", got, np.array([u]), TOL * abs(u))
    # the gradient jumps: nan or either side is right, nothing else is
    got, n = gen.ask(c, "gradient", src.gravitational_gradient, P, tail=(3, 3))
    gin = -LD(G) * 4 / 3 * PI * LD(rho) * np.eye(3, dtype=LD)
    e = ld(v) / LD(R)
    gout = LD(G) * 4 / 3 * PI * LD(rho) * (3 * e[:, None] * e[None, :] - np.eye(3, dtype=LD))
    off = [float(np.abs(got[0].astype(LD) - w).max()) for w in (gin, gout)]
    c.check(np.isnan(got).all() or min(off) <= TOL * float(abs(u)) / R ** 2 * 10, "gradient on the surface",
            "neither the inner nor the outer limit", got=got, inner=gin, outer=gout)
    got, n = gen.ask(c, "field", src.gravitational_field, P)
    c.close("field on the surface", got, (-LD(G) * 4 / 3 * PI * LD(rho) * ld(v))[None], TOL * abs(u) / R)
    c.ev("exactly on the surface")
    c.sig("surface", a, c.info["style"], rho > 0)


def history(c):
    """Any order of assignments: density, radius and mass stay consistent, and the fields with them."""
    from geoana import gravity
    R, rho = gen.logu(c.rng, 1e-1, 1e3), gen.swide(c.rng, 1e-1, 1e4)
    loc = gen.location(c.rng)
    s = c.call("Sphere", gravity.Sphere, R, rho, loc)
    ops = []
    for _ in range(c.rng.integers(1, 7)):
        op = ("radius", "rho", "mass", "location", "evaluate")[c.rng.integers(5)]
        ops.append(op)
        if op == "radius":
            R = s.radius = gen.logu(c.rng, 1e-2, 1e3)
        elif op == "rho":
            rho = s.rho = gen.swide(c.rng, 1e-2, 1e4)
        elif op == "mass":
            m = gen.swide(c.rng, 1e-2, 1e9)
            s.mass = m
            c.close("mass as assigned", s.mass, m, TOL * abs(m))
            rho = float(LD(m) * 3 / (4 * PI * LD(R) ** 3))
        elif op == "location":
            loc = gen.location(c.rng)
            s.location = loc
        else:
            c.call("field", s.gravitational_field, loc + gen.points(c.rng, 3, np.zeros(3), R * 0.1, R * 10))
    c.note(operations=ops, R=R, rho=rho, location=loc)
    m = 4 * PI * LD(R) ** 3 * LD(rho) / 3
    c.close("radius after a history", s.radius, R, 0)
    c.close("density after a history", s.rho, rho, TOL * abs(rho))
    c.close("mass after a history", s.mass, m, TOL * abs(m))
    e = gen.direction(c.rng, 6)
    slack = TOL * (1 + np.abs(loc).max() / R)
    k = LD(G) * m
    for f in (0.3, 2.0):
        P = loc + e * R * f
        d = ld(P) - ld(loc)
        r = norm(d)
        if f < 1:
            u, g = LD(G) * 2 / 3 * PI * LD(rho) * (3 * LD(R) ** 2 - r ** 2), -LD(G) * 4 / 3 * PI * LD(rho) * d
            t = -LD(G) * 4 / 3 * PI * LD(rho) * np.broadcast_to(np.eye(3, dtype=LD), (6, 3, 3))
        else:
            u, g = k / r, -k * d / r[:, None] ** 3
            t = k * (3 * d[:, :, None] * d[:, None, :] / r[:, None, None] ** 2 - np.eye(3, dtype=LD)) \
                / r[:, None, None] ** 3
        side = "inside" if f < 1 else "outside"
        c.close("potential %s after a history" % side, c.call("potential", s.gravitational_potential, P), u,
                slack * 2 * abs(k) / R)
        c.close("field %s after a history" % side, c.call("field", s.gravitational_field, P), g,
                slack * 2 * abs(k) / R ** 2)
        c.close("gradient %s after a history" % side, c.call("gradient", s.gravitational_gradient, P), t,
                slack * 4 * abs(k) / R ** 3)
    c.ev("histories")
    c.sig("history", tuple(ops))


TARGETS = [("bulk", bulk.target("gravity.PointMass", "gravity.Sphere"), 9, 1620), ("history", history, 60, 6000), ("point", point_mass, 300, 20000), ("sphere", sphere, 400, 20000), ("surface", surface, 60, 3000)]
REQUIRE = {"histories": 50, "inside": 100, "outside": 100, "exactly on the surface": 10}
REQUIRE["many points"] = 20
