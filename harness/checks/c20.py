"""Coordinate transforms of points and vectors."""
import numpy as np

import bulk
import gen
from core import CLD, EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 60
QUICK = 15
RULE = ("a case draws points (on and next to the axis, at the origin, in coordinate planes, far away, angles outside "
        "the principal range) and real or complex vectors in several array forms, and compares each transform, and "
        "its deprecated alias, with an 80 bit transform by local basis vectors; round trips, lengths and dot products "
        "are checked on returned values; distinct = (function, dimensions, vector kind, array form)")
ASSUMPTIONS = ["coordinates whose squares overflow or underflow are excluded"]
FORMS = ("n", "single", "grid", "list", "fortran", "strided", "int", "readonly", "deep")


def cart_points(rng, n, dim):
    P = gen.direction(rng, n) * gen.logu(rng, 1e-20, 1e20, n)[:, None] if rng.random() < 0.3 else \
        gen.direction(rng, n) * gen.logu(rng, 1e-3, 1e5, n)[:, None]
    if rng.random() < 0.5:
        P[0] = 0
    if rng.random() < 0.5:
        P[1, :2] = 0
    if rng.random() < 0.3:
        P[2, 0] = 0
    if rng.random() < 0.4:      # next to the axis, or to a coordinate plane
        P[3, :2] *= 10.0 ** -rng.uniform(1, 17)
        P[4, rng.integers(3)] *= 10.0 ** -rng.uniform(1, 17)
        P[5, 2] *= 10.0 ** -rng.uniform(1, 17)
    return P[:, :dim]


def curv_points(rng, n, kind, dim):
    r = gen.logu(rng, 1e-6, 1e6, n)
    phi = rng.uniform(-np.pi, np.pi, n)
    phi[rng.random(n) < 0.2] = [0.0, np.pi, -np.pi, np.pi / 2, 5 * np.pi][rng.integers(5)]
    if rng.random() < 0.3:
        phi = phi + 2 * np.pi * rng.integers(-2, 3, n)
    if rng.random() < 0.3:
        r[0] = 0
    if kind == "cyl":
        z = gen.signed(rng, 1e-6, 1e6, n)
        z[1] = 0
        return np.stack([r, phi, z], -1)[:, :dim]
    th = rng.uniform(0, np.pi, n)
    th[rng.random(n) < 0.2] = [0.0, np.pi, np.pi / 2][rng.integers(3)]
    return np.stack([r, phi, th], -1)


def form(rng, kind, P):
    """(argument, shape of locations) from rows P."""
    n, d = P.shape
    if kind == "single":
        return P[0].copy(), ()
    if kind == "grid":
        return P.reshape(2, n // 2, d).copy(), (2, n // 2)
    if kind == "deep":
        return P.reshape(1, 2, 1, n // 2, d).copy(), (1, 2, 1, n // 2)
    if kind == "list":
        return P.tolist(), (n,)
    if kind == "fortran":
        return np.asfortranarray(P), (n,)
    if kind == "strided":
        return np.repeat(np.repeat(P, 2, 0), 2, 1)[::2, ::2], (n,)
    if kind == "readonly":
        Q = P.copy()
        Q.flags.writeable = False
        return Q, (n,)
    return P.copy(), (n,)


def bases_cyl(phi):
    s, k = np.sin(phi), np.cos(phi)
    o, z = np.ones_like(s), np.zeros_like(s)
    return np.stack([np.stack([k, s, z], -1), np.stack([-s, k, z], -1), np.stack([z, z, o], -1)], -2)


def bases_sph(phi, th):
    sp, cp, st, ct = np.sin(phi), np.cos(phi), np.sin(th), np.cos(th)
    z = np.zeros_like(sp)
    # order of components: radial, azimuth, inclination
    return np.stack([np.stack([st * cp, st * sp, ct], -1), np.stack([-sp, cp, z], -1),
                     np.stack([ct * cp, ct * sp, -st], -1)], -2)


def transform(c):
    from geoana import spatial as S
    rng = c.rng
    which = c.idx % 4
    name = ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical")[which]
    alias = rng.random() < 0.2
    fn = getattr(S, name.replace("_to_", "_2_") if alias else name)
    dim = 2 if which < 2 and rng.random() < 0.25 else 3
    n = 8
    fk = FORMS[rng.integers(len(FORMS))]
    vk = ["none", "real", "complex"][rng.integers(3)]
    P = cart_points(rng, n, dim) if which in (1, 3) else curv_points(rng, n, "cyl" if which == 0 else "sph", dim)
    if fk == "int":
        P = np.round(np.clip(P, -1e9, 1e9) if which in (1, 3) else np.clip(P, -50, 50)) + 0.0     # an integer has no negative zero
    arg, sh = form(rng, fk, P)
    if fk == "int":
        arg = arg.astype(int)
    m = int(np.prod(sh)) if sh else 1
    Q = ld(P[:m])
    c.note(function=name, alias=alias, form=fk, dim=dim, vec=vk, P=P)
    if vk == "none":
        got = c.call(name, fn, arg) if rng.random() < 0.5 else c.call(name, fn, arg, vec=None)
        if not c.check(np.shape(got) == tuple(sh) + (dim,), name + ":shape", "shape %s" % (np.shape(got),)):
            return
        got = np.reshape(got, (m, dim))
        if which == 0:
            want = np.stack([Q[:, 0] * np.cos(Q[:, 1]), Q[:, 0] * np.sin(Q[:, 1])] + [Q[:, k] for k in range(2, dim)], -1)
            tol = C * EPS * np.abs(Q[:, :1]) * (1 + np.abs(Q[:, 1:2])) * np.ones(dim)
            if dim == 3:
                tol[:, 2] = 0
        elif which == 1:
            want = np.stack([np.hypot(Q[:, 0], Q[:, 1]), np.arctan2(Q[:, 1], Q[:, 0])] + [Q[:, k] for k in range(2, dim)], -1)
            tol = np.stack([C * EPS * want[:, 0], np.full(m, C * EPS, LD)] + [np.zeros(m, LD)] * (dim == 3), -1)
        elif which == 2:
            want = Q[:, :1] * bases_sph(Q[:, 1], Q[:, 2])[:, 0]
            tol = C * EPS * np.abs(Q[:, :1]) * (1 + np.abs(Q[:, 1:2])) * np.ones(3)
        else:
            rho = np.hypot(Q[:, 0], Q[:, 1])
            want = np.stack([norm(Q), np.arctan2(Q[:, 1], Q[:, 0]), np.arctan2(rho, Q[:, 2])], -1)
            tol = np.stack([C * EPS * want[:, 0], np.full(m, C * EPS, LD), np.full(m, C * EPS, LD)], -1)
        c.close(name, got, want, tol)
        # and back
        back = getattr(S, "_to_".join(reversed(name.split("_to_"))))
        if which in (1, 3):
            c.close(name + " and back", c.call("back", back, got), Q, C * EPS * norm(Q)[:, None] * np.ones(dim))
            c.ev("round trips")
    else:
        V = rng.normal(size=(n, dim)) * gen.logu(rng, 1e-6, 1e6, (n, 1))
        V[rng.random(n) < 0.2] = 0
        if rng.random() < 0.4:
            V[:, rng.integers(dim)] = 0      # a single component, or a pair
        if vk == "complex":
            V = V + 1j * rng.normal(size=(n, dim)) * np.abs(V).max(1, keepdims=True)
        if fk == "int" and vk == "real":
            V = np.round(V) + 0.0
        varg, _ = form(rng, fk, V)
        if fk == "int" and vk == "real":
            varg = varg.astype(int)
            c.ev("integer vectors")
        got = c.call(name, fn, arg, varg)
        if not c.check(np.shape(got) == tuple(sh) + (dim,), name + " vec:shape", "shape %s" % (np.shape(got),)):
            return
        got = np.reshape(got, (m, dim))
        W = np.zeros((m, 3), CLD)
        W[:, :dim] = V[:m]
        Q3 = np.concatenate([Q, np.zeros((m, 3 - dim), LD)], 1)
        if which == 0:
            B = bases_cyl(Q3[:, 1])
        elif which == 1:
            B = bases_cyl(np.arctan2(Q3[:, 1], Q3[:, 0]))
        elif which == 2:
            B = bases_sph(Q3[:, 1], Q3[:, 2])
        else:
            B = bases_sph(np.arctan2(Q3[:, 1], Q3[:, 0]), np.arctan2(np.hypot(Q3[:, 0], Q3[:, 1]), Q3[:, 2]))
        if which in (0, 2):
            want = np.einsum("nij,ni->nj", B, W)        # components times basis vectors
        else:
            want = np.einsum("nij,nj->ni", B, W)
        ang = 1 + (np.abs(Q3[:, 1:2]) if which in (0, 2) else 0)
        want = want[:, :dim]
        tol = C * EPS * np.sqrt((np.abs(W) ** 2).sum(1))[:, None].astype(LD) * ang * np.ones(dim)
        if vk == "real":
            want = want.real
            c.check(not np.iscomplexobj(got), name + " vec dtype", "complex result for a real vector")
        c.close(name + " vec", got, want, tol)
        c.ev("vectors", m)
    if c.idx % 120 < 4:
        bulk.rows(c, name, fn, [P] if vk == "none" else [P, V], n)
    c.ev("alias" if alias else name)
    c.sig(name, dim, vk, fk, alias)


TARGETS = [("transform", transform, 6000, 200000)]
REQUIRE = {"large requests": 100, "round trips": 200, "vectors": 2000, "alias": 100, "integer vectors": 100, "cylindrical_to_cartesian": 300,
           "cartesian_to_cylindrical": 300, "spherical_to_cartesian": 300, "cartesian_to_spherical": 300}
