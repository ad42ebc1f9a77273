"""Shared pieces of the frequency and time domain checks."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import gen
from core import CLD, EPS, LD
from ref_basic import PI, ld, norm

TINY = 1e-290


def construct(c, cls, first, kw, allow_assign=True):
    """Build the object from keywords, or build another one and assign everything.

    `first` are constructor values that cannot be left out.
    """
    how = c.rng.integers(3) if allow_assign else 1
    c.note(built="assigned" if how == 0 else "constructed")
    if how:
        return c.call(cls.__name__, cls, **first, **kw)
    other = {k: (np.asarray(v, float) * 3.0 + 1.0 if np.ndim(v) == 0 else [1.0, 7.0, 11.0])
             if not isinstance(v, (bool, str)) else v for k, v in first.items()}
    s = c.call(cls.__name__, cls, **other)
    every = {**kw, **first}
    for k in c.rng.permutation(sorted(every)):
        c.call("%s.%s" % (cls.__name__, k), setattr, s, k, every[k])
    return s


def medium(rng):
    sigma = gen.wide(rng, 1e-6, 1e2, 1e6)
    mu = mu_0 * (1.0 if rng.random() < 0.3 else gen.wide(rng, 1.0, 50.0, 1e3, 0.1))
    eps = epsilon_0 * (1.0 if rng.random() < 0.3 else gen.logu(rng, 1.0, 81.0))
    return sigma, mu, eps


def freq_like(rng, lo, hi, spread=30.0, zero=0.1):
    """(argument, 1-d values, lead shape of the results)."""
    f0 = gen.wide(rng, lo, hi, 1e5, 0.1)
    k = rng.integers(4)
    if k == 0:
        v = np.array([f0])
        arg, lead = float(f0), ()
    else:
        n = int(rng.integers(1, 5))
        v = f0 * gen.logu(rng, 1.0 / spread, spread, n)
        v = v[rng.permutation(n)]
        if n > 1 and rng.random() < 0.15:
            v[1] = v[0]
        lead = (n,)
        if zero and rng.random() < zero:
            v[rng.integers(n)] = 0.0
        arg = v.copy() if k == 1 else v.tolist() if k == 2 else tuple(v.tolist())
    return arg, v, lead


def wavenumber(f, sigma, mu, eps, quasi):
    w = 2 * PI * ld(f)
    z = np.zeros(w.shape, CLD)
    z.real = 0 if quasi else w * w * LD(mu) * LD(eps)
    z.imag = -w * LD(mu) * LD(sigma)
    # principal square root, without cancellation
    a, b = z.real, z.imag
    h = np.hypot(a, b)
    re = np.sqrt((h + a) / 2)
    im = np.where(re > 0, b / np.where(re > 0, 2 * re, 1), 0)
    return re + CLD(1j) * im, w


def dipole_pattern(d, o, k):
    """exp(-ikr)/(4 pi r^3) [ (o.r^)(3 + 3ikr - k2r2) r^ - (1 + ikr - k2r2) o ], its error
    scale, and (1+ikr) exp(-ikr)/(4 pi r^2) o x r^; k has shape (nf,1)."""
    r = norm(d)[None, :]
    e = d / norm(d)[:, None]
    kr = k * r
    ikr = CLD(1j) * kr
    ex = np.exp(-ikr) / (4 * PI * r ** 3)
    dot = (e @ o)[None, :, None]
    near = (ex * (3 + 3 * ikr - kr ** 2))[..., None] * dot * e[None]
    far = -(ex * (1 + ikr - kr ** 2))[..., None] * o
    size = np.abs(ex) * (1 + np.abs(kr)) ** 2 * 4
    H = (ex * r * (1 + ikr))[..., None] * np.cross(o, e)[None]
    hsize = np.abs(ex) * r * (1 + np.abs(kr)) * 2
    A = (np.exp(-ikr) / (4 * PI * r))[..., None] * o
    asize = np.abs(np.exp(-ikr)) / (4 * PI * r)
    return near + far, size, H, hsize, A, asize, np.abs(kr)
