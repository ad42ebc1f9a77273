"""Prisms, and points in all their relations to a prism."""
import numpy as np

import gen
from core import EPS, LD

KINDS = ("generic", "inside", "near", "far", "face-plane", "edge-line", "near-edge-line", "on-face",
         "on-edge", "center", "corner", "next-to-face")


def prism(rng):
    s = gen.logu(rng, 1e-2, 1e3) if rng.random() < 0.8 else gen.logu(rng, 1e-7, 1e6)
    size = s * gen.logu(rng, 0.1, 1, 3)
    if rng.random() < 0.3:
        size = np.maximum(1, np.round(size)) if s > 1 else size
        lo = np.round(rng.uniform(-3, 3, 3) * s)
    else:
        lo = rng.uniform(-3, 3, 3) * s
    if rng.random() < 0.2:
        size = np.full(3, size[0])
    if rng.random() < 0.15:         # like map coordinates
        lo = lo + np.round(rng.uniform(-1, 1, 3) * [3e3 * s, 3e4 * s, s])
    hi = lo + size
    return lo, hi


def point(rng, lo, hi, kind):
    size = hi - lo
    mid = (lo + hi) / 2
    L = size.max()
    inside = lo + size * rng.uniform(0.02, 0.98, 3)
    if kind == "inside":
        return inside
    if kind == "center":
        return mid
    if kind == "near":
        return mid + rng.uniform(-0.8, 0.8, 3) * size
    if kind == "far":
        return mid + gen.direction(rng) * L * gen.logu(rng, 3, 60)
    if kind == "corner":
        return np.where(rng.random(3) < 0.5, lo, hi)
    p = mid + rng.uniform(-3, 3, 3) * L
    side = np.where(rng.random(3) < 0.5, lo, hi)
    ax = rng.permutation(3)
    if kind == "face-plane":                   # in the plane of a face, outside of it
        p[ax[0]] = side[ax[0]]
        p[ax[1]] = mid[ax[1]] + gen.sgn(rng) * size[ax[1]] * rng.uniform(0.6, 3)
    elif kind in ("edge-line", "near-edge-line"):    # on the extension of an edge
        p[ax[0]], p[ax[1]] = side[ax[0]], side[ax[1]]
        p[ax[2]] = mid[ax[2]] + gen.sgn(rng) * size[ax[2]] * rng.uniform(0.6, 3)
        if kind == "near-edge-line":
            p[ax[0]] += gen.signed(rng, 1e-10, 1e-3) * L
            p[ax[1]] += gen.signed(rng, 1e-10, 1e-3) * L
    elif kind == "on-face":
        p = inside
        p[ax[0]] = side[ax[0]]
    elif kind == "next-to-face":               # hardly inside or outside of a face
        p = inside
        i = ax[0]
        out = side[i] + gen.signed(rng, 1e-13, 1e-3) * L
        while out == side[i]:
            out = side[i] + gen.signed(rng, 1e-13, 1e-3) * L
        p[i] = out
    elif kind == "on-edge":
        p = inside
        p[ax[0]], p[ax[1]] = side[ax[0]], side[ax[1]]
    return p


def relation(P, lo, hi):
    """(on the boundary, strictly inside) of points."""
    within = ((P >= lo) & (P <= hi)).all(-1)
    strict = ((P > lo) & (P < hi)).all(-1)
    return within & ~strict, strict


def offsets(P, lo, hi):
    P = P.astype(LD)
    return lo.astype(LD) - P, hi.astype(LD) - P
