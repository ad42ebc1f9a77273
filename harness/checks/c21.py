"""Rotations between normals."""
import numpy as np

import bulk
import gen
from core import EPS, LD
from ref_basic import ld, norm

BUILD = None
QUICK = 15
RULE = ("a case draws a pair of vectors (independent, equal, opposite, or within 1e-1 .. 1e-17 of parallel or "
        "anti-parallel, along axes, any length and container) and checks on the returned matrix: orthogonality, "
        "determinant, image of the first normal, that it is the shortest rotation (trace and fixed axis), agreement "
        "of the matrix and rotation-object forms, the inverse pair, and point rotation about an origin against the "
        "80 bit formula; distinct = (pair kind, decade, axis, form)")
ASSUMPTIONS = ["for exactly anti-parallel vectors any half-turn is a shortest rotation"]


def pair(rng):
    a = gen.direction(rng)
    kind = ["free", "equal", "opposite", "near", "near-opposite", "axes"][rng.integers(6)]
    e = 0.0
    if kind == "free":
        b = gen.direction(rng)
    elif kind == "equal":
        b = a.copy()
    elif kind == "opposite":
        b = -a
    elif kind == "axes":
        a, b = np.zeros(3), np.zeros(3)
        a[rng.integers(3)] = gen.sgn(rng)
        b[rng.integers(3)] = gen.sgn(rng)
    else:
        e = 10.0 ** -rng.integers(1, 18)
        p = np.cross(a, gen.unit(rng))
        b = a + e * p / np.linalg.norm(p)
        if kind == "near-opposite":
            b = -b
    b = b * gen.wide(rng, 1e-3, 1e3, 1e40) if rng.random() < 0.5 else b
    a = a * gen.wide(rng, 1e-3, 1e3, 1e40) if rng.random() < 0.5 else a
    return a, b, kind, e


def give(rng, v):
    return [v.copy(), v.tolist(), tuple(v.tolist()), v[None].copy(), v[:, None].copy()][rng.integers(5)]


def rotation(c):
    from geoana import spatial as S
    rng = c.rng
    a, b, kind, e = pair(rng)
    c.note(a=a, b=b, kind=kind)
    ga, gb = give(rng, a), give(rng, b)
    R = c.call("rotation", S.rotation_matrix_from_normals, ga, gb)
    if not c.check(np.shape(R) == (3, 3), "shape", "shape %s" % (np.shape(R),)):
        return
    R = ld(R)
    u, v = ld(a) / norm(ld(a)[None])[0], ld(b) / norm(ld(b)[None])[0]
    c.close("orthogonal", R @ R.T, np.eye(3, dtype=LD), 2e-14)
    det = (R[0] * np.cross(R[1], R[2])).sum()
    c.close("determinant", det, LD(1), 2e-14)
    c.close("carries the first normal to the second", R @ u, v, 5e-12)
    # shortest: rotation angle = angle between the normals, axis perpendicular to both
    cos = (u * v).sum()
    c.close("shortest angle", np.trace(R), 1 + 2 * cos, 1e-13)
    n = np.cross(u, v)
    ln = norm(n[None])[0]
    if ln > 1e-9:
        n = n / ln
        c.close("axis is fixed", R @ n, n, 1e-13 + 1e-15 / ln)
    O = c.call("rotation object", S.rotation_matrix_from_normals, ga, gb, as_matrix=False)
    c.close("object form", c.call("as_matrix", O.as_matrix), R, 1e-14)
    w = gen.unit(rng, 3)
    c.close("object applied", c.call("apply", O.apply, w), ld(w) @ R.T, 1e-14)
    Rb = ld(c.call("inverse", S.rotation_matrix_from_normals, gb, ga))
    if kind != "opposite" and (u + v).any() and norm((u + v)[None])[0] > 1e-12:
        c.close("pair swapped is the inverse", Rb, R.T, 1e-13 + 4e-16 / norm((u + v)[None])[0])
    # points
    P = gen.points(rng, 6, np.zeros(3), 1e-2, 1e3)
    x0 = gen.location(rng)
    arg = [P.copy(), np.asfortranarray(P), np.repeat(P, 2, 0)[::2], P[:1].copy()][rng.integers(4)]
    dflt = rng.random() < 0.3
    if dflt:
        got = c.call("points", S.rotate_points_from_normals, arg, ga, gb)
        x0 = np.zeros(3)
    else:
        got = c.call("points", S.rotate_points_from_normals, arg, ga, gb, x0)
    want = (ld(arg) - ld(x0)) @ R.T + ld(x0)
    c.close("points", got, want, 1e-13 * (np.abs(P).max() + np.abs(x0).max()))
    if c.idx % 100 == 0:
        bulk.rows(c, "points", lambda q: S.rotate_points_from_normals(q, ga, gb, x0), [P], len(P))
    c.ev(kind)
    c.sig(kind, e, np.ndim(ga), np.ndim(gb), dflt)


TARGETS = [("rotation", rotation, 4000, 150000)]
REQUIRE = {k: 200 for k in ("free", "equal", "opposite", "near", "near-opposite", "axes")}
