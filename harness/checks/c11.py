"""Direct current electrodes in a half-space."""
import numpy as np

import bulk
import gen
from core import EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
TOL = 1000 * EPS
QUICK = 15
RULE = ("a case draws one electrode or a pair, on or below the surface, and receivers on, just below and far "
        "below the surface, with or without a second receiver electrode, and compares V, E and J with the image "
        "solution in 80 bit arithmetic; no current crosses the surface; receivers and electrodes in the air are "
        "refused; distinct = (source, second receiver, depths, call style, how it was set up)")
ASSUMPTIONS = ["receivers at the electrode are excluded"]


def image(P, loc, cur, rho):
    k = LD(cur) * LD(rho) / (4 * PI)
    V = E = 0
    t1 = t2 = 0
    for s in (1, -1):
        q = ld(loc).copy()
        q[2] *= s
        d = ld(P) - q
        r = norm(d)
        V = V + k / r
        E = E + k * d / r[:, None] ** 3
        t1 = t1 + abs(k) / r
        t2 = t2 + abs(k) / r ** 2
    return V, E, TOL * t1, TOL * t2[:, None]


def below(rng, L, surface=0.4):
    p = gen.location(rng, L)
    p[2] = 0.0 if rng.random() < surface else -abs(p[2]) - L * gen.logu(rng, 1e-3, 1)
    return p


def receivers(rng, loc, L, n=10):
    P = gen.points(rng, n, loc, 0.05 * L, 20 * L)
    P[:, 2] = -np.abs(P[:, 2])
    k = rng.random(n)
    P[k < 0.3, 2] = 0.0
    P[k > 0.97, 2] = -0.0
    P[(k > 0.3) & (k < 0.4), 2] = -1e-9 * L
    same = (np.linalg.norm(P - loc, axis=1) < 1e-3 * L)
    P[same, 0] += L
    return P


def point(c):
    from geoana.em import static
    L = gen.logu(c.rng, 1e-1, 1e3) if c.rng.random() < 0.8 else gen.logu(c.rng, 1e-6, 1e6)
    loc = below(c.rng, L)
    P = receivers(c.rng, loc, L)
    cur = gen.swide(c.rng, 1e-3, 1e3)
    rho = gen.wide(c.rng, 1e-3, 1e5)
    c.note(location=loc, rho=rho, current=cur, P=P)
    how = c.rng.integers(3)
    if how:
        s = c.call("PointCurrentHalfSpace", static.PointCurrentHalfSpace, rho, current=cur, location=loc)
    else:
        s = c.call("PointCurrentHalfSpace", static.PointCurrentHalfSpace, 3.0)
        for k, v in c.rng.permutation(np.array([("rho", rho), ("current", cur), ("location", loc)], dtype=object)):
            setattr(s, k, v)
    V, E, tV, tE = image(P, loc, cur, rho)
    got, n = gen.ask(c, "potential", s.potential, P, tail=())
    c.close("half-space potential", got, V[:n], tV[:n])
    got, n = gen.ask(c, "electric_field", s.electric_field, P)
    c.close("half-space E", got, E[:n], tE[:n])
    got, n = gen.ask(c, "current_density", s.current_density, P)
    c.close("half-space J", got, E[:n] / LD(rho), tE[:n] / LD(rho))
    top = P[:n, 2] == 0
    if top.any():
        c.ev("on the surface", int(top.sum()))
        c.close("no current through the surface", got[top, 2], np.zeros(top.sum()), tE[:n][top, 0] / LD(rho))
    c.sig("point", bool(loc[2] == 0), bool(top.any()), int(how), c.info["style"])


def dipole(c):
    from geoana.em import static
    L = gen.logu(c.rng, 1e-1, 1e3) if c.rng.random() < 0.8 else gen.logu(c.rng, 1e-6, 1e6)
    a, b = below(c.rng, L), below(c.rng, L)
    b[0] += 2 * L
    if c.rng.random() < 0.5:
        a, b = b, a
    P, N = receivers(c.rng, a, L), receivers(c.rng, b, L)
    special = c.rng.integers(6)
    if special == 0:                # a receiver electrode, or all of them, at the origin of coordinates
        (N if c.rng.random() < 0.7 else P)[c.rng.integers(10)] = 0.0
    elif special == 1:
        (N if c.rng.random() < 0.7 else P)[:] = 0.0
    elif special == 2:              # receivers in the same place
        N[:5] = P[:5]
    for Q in (P, N):
        for e in (a, b):
            hit = np.linalg.norm(Q - e, axis=1) < 1e-2 * L
            Q[hit, 1] += 3 * L
    cur = gen.swide(c.rng, 1e-3, 1e3)
    rho = gen.wide(c.rng, 1e-3, 1e5)
    c.note(a=a, b=b, rho=rho, current=cur, P=P, N=N)
    how = c.rng.integers(3)
    if how:
        s = c.call("DipoleHalfSpace", static.DipoleHalfSpace, rho, a, b, current=cur)
    else:
        s = c.call("DipoleHalfSpace", static.DipoleHalfSpace, 2.0)
        for k, v in c.rng.permutation(np.array([("rho", rho), ("current", cur), ("location_a", a), ("location_b", b)],
                                               dtype=object)):
            setattr(s, k, v)

    def both(Q):
        x, y = image(Q, a, cur, rho), image(Q, b, cur, rho)
        return x[0] - y[0], x[1] - y[1], x[2] + y[2], x[3] + y[3]
    V, E, tV, tE = both(P)
    two = bool(c.rng.random() < 0.6)
    style = ("n3", "single", "grid", "fortran", "strided", "tuple", "list")[c.rng.integers(7)]
    kw = {}
    if two:
        v, e, tv, te = both(N)
        V, E, tV, tE = V - v, E - e, tV + tv, tE + te
        kw["xyz_n"] = gen.styled(N, style)[0]
        if c.rng.random() < 0.3:    # one electrode for all receivers, on either side
            one = N[3].copy()
            v1, e1, tv1, te1 = both(N[3:4])
            V1, E1, tV1, tE1 = both(P)
            for sg, a1, a2 in ((1, P, one), (-1, one, P)):
                got = c.call("potential", s.potential, a1.copy(), xyz_n=a2.copy())
                c.close("dipole potential, common electrode", got, sg * (V1 - v1), tV1 + tv1)
                got = c.call("electric_field", s.electric_field, a1.copy(), xyz_n=a2.copy())
                c.close("dipole E, common electrode", got, sg * (E1 - e1), tE1 + te1)
            c.ev("common electrode")
    got, n = gen.ask(c, "potential", s.potential, P, tail=(), style=style, **kw)
    c.close("dipole potential", got, V[:n], tV[:n])
    got, n = gen.ask(c, "electric_field", s.electric_field, P, style=style, **kw)
    c.close("dipole E", got, E[:n], tE[:n])
    got, n = gen.ask(c, "current_density", s.current_density, P, style=style, **kw)
    c.close("dipole J", got, E[:n] / LD(rho), tE[:n] / LD(rho))
    c.ev("receivers:%d" % special)
    c.ev("two receivers" if two else "one receiver")
    c.sig("dipole", two, bool(a[2] == 0), bool(b[2] == 0), style, int(how), int(special))


def air(c):
    """Anything above the surface is refused, and changes nothing."""
    from geoana.em import static
    L = gen.logu(c.rng, 1e-1, 1e3) if c.rng.random() < 0.8 else gen.logu(c.rng, 1e-6, 1e6)
    loc = below(c.rng, L)
    P = receivers(c.rng, loc, L)
    k = c.rng.integers(len(P))
    P[k, 2] = L * gen.logu(c.rng, 1e-12, 1)
    ok = receivers(c.rng, loc, L)
    up = loc.copy()
    up[2] = L * gen.logu(c.rng, 1e-12, 1)
    c.note(location=loc, P=P, up=up)
    s = static.PointCurrentHalfSpace(2.0, location=loc)
    b = loc + np.array([3 * L, L, 0])
    d = static.DipoleHalfSpace(2.0, loc, b)
    before = c.call("potential", s.potential, ok), c.call("potential", d.potential, ok + [0, 5 * L, 0])

    def refused(what, fn, *a, **kw):
        c.ev("refusals asked")
        try:
            fn(*a, **kw)
        except Exception:
            return c.check(True, what, "")
        c.check(False, what, what + " was accepted")
    for name in ("potential", "electric_field", "current_density"):
        refused("receiver in the air: " + name, getattr(s, name), P)
        refused("receiver in the air: dipole " + name, getattr(d, name), P)
        refused("second receiver in the air: dipole " + name, getattr(d, name), ok, P)
    refused("electrode in the air", setattr, s, "location", up)
    refused("electrode in the air", setattr, d, "location_a", up)
    refused("electrode in the air", setattr, d, "location_b", up)
    refused("electrode in the air", static.PointCurrentHalfSpace, 1.0, location=up)
    refused("electrode in the air", static.DipoleHalfSpace, 1.0, up, loc)
    refused("electrode in the air", static.DipoleHalfSpace, 1.0, loc, up)
    after = c.call("potential", s.potential, ok), c.call("potential", d.potential, ok + [0, 5 * L, 0])
    for x, y in zip(before, after):
        c.close("potential after refused assignments", y, x, 0)
    c.sig("air", bool(loc[2] == 0))


TARGETS = [("bulk", bulk.target("static.PointCurrentHalfSpace", "static.DipoleHalfSpace"), 9, 1620), ("point", point, 800, 40000), ("dipole", dipole, 800, 40000), ("air", air, 100, 4000)]
REQUIRE = {"on the surface": 100, "two receivers": 100, "one receiver": 100, "common electrode": 50, "refusals asked": 500}
REQUIRE["many points"] = 20
