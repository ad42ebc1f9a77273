"""Generators: parameters, observation points and the ways to hand them over."""
import numpy as np

from core import LD


# ---- scalars --------------------------------------------------------------
def logu(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def sgn(rng, size=None):
    return rng.choice([-1.0, 1.0], size=size)


def signed(rng, lo, hi, size=None):
    return sgn(rng, size) * logu(rng, lo, hi, size)


def wide(rng, lo, hi, by=1e12, p=0.15):
    """logu, now and then far beyond the usual range."""
    return logu(rng, lo / by, hi * by) if rng.random() < p else logu(rng, lo, hi)


def swide(rng, lo, hi, by=1e12, p=0.15):
    return float(sgn(rng)) * wide(rng, lo, hi, by, p)


# ---- vectors --------------------------------------------------------------
def unit(rng, n=None):
    v = rng.normal(size=(3,) if n is None else (n, 3))
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def direction(rng, n=None):
    """Unit vectors; a share of them on axes, in coordinate planes, or nearly so."""
    if n is None:
        return direction(rng, 1)[0]
    v = unit(rng, n)
    kind = rng.integers(0, 6, size=n)
    for i in range(n):
        if kind[i] == 0:
            v[i] = 0.0
            v[i, rng.integers(3)] = sgn(rng)
        elif kind[i] == 1:
            v[i, rng.integers(3)] = 0.0
            v[i] /= np.linalg.norm(v[i])
        elif kind[i] == 2 and rng.random() < 0.3:
            j = rng.integers(3)
            v[i] *= 1e-7
            v[i, j] = sgn(rng)
            v[i] /= np.linalg.norm(v[i])
    return v


def location(rng, scale=100.0, far=True):
    k = rng.integers(4)
    if k == 0:
        return np.zeros(3)
    if k == 1:
        return np.round(rng.uniform(-scale, scale, 3))
    if k == 2 and far and rng.random() < 0.5:       # like map coordinates
        return rng.uniform(-1, 1, 3) * [3e3 * scale, 5e4 * scale, scale]
    return rng.uniform(-scale, scale, 3)


def orientation(rng):
    """(argument for a constructor, the unit vector it stands for in long double)."""
    k = rng.integers(8)
    if k < 3:
        s = "XYZ"[k]
        v = np.zeros(3, LD)
        v[k] = 1
        return (s if rng.random() < 0.5 else s.lower()), v
    if k == 3:                                # all but along an axis
        d = signed(rng, 1e-13, 1e-3, 3) * (rng.random(3) < 0.6)
        d[rng.integers(3)] = sgn(rng)
    else:
        d = direction(rng) * logu(rng, 1e-3, 1e3)
    form = rng.integers(3)
    arg = d if form == 0 else list(d) if form == 1 else tuple(d)
    d = d.astype(LD)
    return arg, d / np.sqrt((d * d).sum())


def points(rng, n, center, lo, hi, planes=True):
    """Points at log-uniform distances lo..hi of center, partly on axes and planes."""
    d = direction(rng, n) if planes else unit(rng, n)
    return np.asarray(center, float) + d * logu(rng, lo, hi, n)[:, None]


# ---- call styles ----------------------------------------------------------
def grid_shape(n):
    for a in (4, 3, 2, 5):
        if n % a == 0:
            return (a, n // a)
    return (n, 1)


def styled(P, style):
    """(argument to hand over, shape of locations)."""
    P = np.ascontiguousarray(P, dtype=float)
    n, d = P.shape
    if style == "single":
        return P[0].copy(), ()
    if style == "single-list":
        return [float(v) for v in P[0]], ()
    if style == "n3":
        return P.copy(), (n,)
    if style == "fortran":
        return np.asfortranarray(P), (n,)
    if style == "strided":
        big = np.full((2 * n, 2 * d), np.nan)
        big[::2, ::2] = P
        return big[::2, ::2], (n,)
    if style == "reversed":
        return np.ascontiguousarray(P[::-1])[::-1], (n,)
    if style == "readonly":
        Q = P.copy()
        Q.flags.writeable = False
        return Q, (n,)
    if style == "bigendian":
        return P.astype(">f8"), (n,)
    if style == "list":
        return P.tolist(), (n,)
    if style == "tuple":
        return tuple(P[:, i].copy() for i in range(d)), (n,)
    if style == "grid":
        sh = grid_shape(n)
        return P.reshape(sh + (d,)).copy(), sh
    if style == "gridT":
        sh = grid_shape(n)
        # a non-contiguous grid: built transposed
        return np.ascontiguousarray(P.reshape(sh + (d,)).transpose(1, 0, 2)).transpose(1, 0, 2), sh
    if style == "grid4":
        sh = (1,) + grid_shape(n)
        return P.reshape(sh + (d,)).copy(), sh
    if style == "tuple-grid":
        sh = grid_shape(n)
        return tuple(P[:, i].reshape(sh).copy() for i in range(d)), sh
    if style == "one":
        return P[:1].copy(), (1,)
    raise KeyError(style)


COMMON = ("n3", "n3", "single", "grid", "fortran", "strided", "readonly", "reversed", "one")
ALL = ("single", "single-list", "n3", "fortran", "strided", "reversed", "readonly",
       "bigendian", "list", "tuple", "grid", "gridT", "grid4", "tuple-grid", "one")


def ask(c, key, fn, P, lead=(), tail=(3,), styles=COMMON, style=None, **kw):
    """Call fn(xyz) in some style; canonical result lead + (m,) + tail, and m.

    The shape of the result is part of what is promised.
    """
    style = style or styles[c.rng.integers(len(styles))]
    arg, loc = styled(P, style)
    c.ev("style:" + style)
    out = c.call(key, fn, arg, **kw)
    want = tuple(lead) + tuple(loc) + tuple(tail)
    got = np.shape(out)
    if not c.check(got == want, key + ":shape",
                   "%s of %s points: shape %s, expected %s" % (key, style, got, want), style=style):
        from core import CallRaised
        raise CallRaised(key)
    m = int(np.prod(loc)) if loc else 1
    out = np.asarray(out)
    c.note(style=style)
    return out.reshape(tuple(lead) + (m,) + tuple(tail)), m
