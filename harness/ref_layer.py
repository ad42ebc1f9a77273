"""Plane-layer TE reflection coefficient and its derivatives, in 80 bit dual arithmetic.

The same program also runs with random relative noise after every operation, which
gives the rounding error that any straightforward evaluation is entitled to
(stochastic arithmetic): see `with_error`.
"""
import numpy as np

from core import CLD, EPS, LD
from ref_basic import PI, mu_0

DELTA = 1e-12


class Noise:
    def __init__(self, rng=None):
        self.rng = rng

    def __call__(self, z):
        if self.rng is None:
            return z
        sh = np.shape(z)
        e = self.rng.uniform(-1, 1, sh) + 1j * self.rng.uniform(-1, 1, sh)
        return z * (1 + CLD(DELTA) * e)


class Dual:
    """value (..., ) and derivatives (npar, ...)."""
    def __init__(self, v, d, nz):
        self.v, self.d, self.nz = v, d, nz

    def _w(self, o):
        return o if isinstance(o, Dual) else Dual(o, 0, self.nz)

    def _mk(self, v, d):
        return Dual(self.nz(v), self.nz(d) if np.ndim(d) else d, self.nz)

    def __add__(self, o):
        o = self._w(o)
        return self._mk(self.v + o.v, self.d + o.d)

    def __sub__(self, o):
        o = self._w(o)
        return self._mk(self.v - o.v, self.d - o.d)

    def __mul__(self, o):
        o = self._w(o)
        return self._mk(self.v * o.v, self.nz(self.d * o.v) + self.nz(self.v * o.d))

    def __truediv__(self, o):
        o = self._w(o)
        q = self.v / o.v
        return self._mk(q, (self.nz(self.d) - self.nz(q * o.d)) / o.v)

    def sqrt(self):
        s = csqrt(self.v)
        return self._mk(s, self.d / (2 * s))

    def tanh(self):
        t = self.nz(ctanh(self.v))
        # 1 - t^2 from the rounded t: the error a plain evaluation makes
        return Dual(t, self.nz(self.d * (1 - t * t)), self.nz)


def csqrt(z):
    z = np.asarray(z, CLD)
    s = np.sqrt(z)
    return np.where(s.real < 0, -s, s)


def ctanh(z):
    """tanh for Re z >= 0, safe for large arguments."""
    e = np.exp(-2 * z)
    small = np.abs(z) < 0.1
    with np.errstate(all="ignore"):
        big = (1 - e) / (1 + e)
        sm = np.sinh(np.where(small, z, 0)) / np.cosh(np.where(small, z, 0))
    return np.where(small, sm, big)


def reflection(f, lam, sigma, mu, thick, grad=False, rng=None):
    """rTE (nf, nlam); with grad also d/dsigma (nl,nf,nlam), d/dh (nl-1,...), d/dmu."""
    nz = Noise(rng)
    f, lam, thick = (np.asarray(a, LD) for a in (f, lam, thick))
    sigma, mu = np.asarray(sigma, CLD), np.asarray(mu, CLD)
    nl, nf = sigma.shape
    npar = 3 * nl - 1 if grad else 0
    sh = (nf, len(lam))
    iw = (CLD(1j) * 2 * PI * f)[:, None]

    def var(v, i):
        d = 0
        if grad:
            d = np.zeros((npar,) + sh, CLD)
            d[i] = 1
        return Dual(np.broadcast_to(np.asarray(v, CLD), sh), d, nz)

    def Yu(j):
        s, m = var(sigma[j][:, None], j), var(mu[j][:, None], 2 * nl - 1 + j)
        u = (s * m * iw + lam[None, :] ** 2).sqrt()
        return u / m, u                      # admittance times i omega

    Yh, _ = Yu(nl - 1)
    for j in range(nl - 2, -1, -1):
        Y, u = Yu(j)
        t = (u * var(thick[j], nl + j)).tanh()
        Yh = Y * (Yh + Y * t) / (Y + Yh * t)
    Y0 = Dual(np.broadcast_to((lam[None, :] / LD(mu_0)).astype(CLD), sh), 0, nz)
    R = (Y0 - Yh) / (Y0 + Yh)
    if not grad:
        return R.v
    return R.v, R.d[:nl], R.d[nl:2 * nl - 1], R.d[2 * nl - 1:]


def with_error(seed, f, lam, sigma, mu, thick, grad=False, n=4, factor=100):
    """(exact values, tolerances)."""
    ref = reflection(f, lam, sigma, mu, thick, grad)
    ref = ref if grad else (ref,)
    dev = [np.zeros(a.shape, LD) for a in ref]
    for i in range(n):
        p = reflection(f, lam, sigma, mu, thick, grad, np.random.default_rng([seed, i, 77]))
        for k, a in enumerate(p if grad else (p,)):
            dev[k] = np.maximum(dev[k], np.abs(a - ref[k]))
    tol = [factor * EPS * (d / DELTA + np.abs(a)) for d, a in zip(dev, ref)]
    return ref, tol


def fast(f, lam, sigma, mu, thick):
    """Forward coefficient in double precision, written with up-going/down-going ratios.

    A different form of the recursion, without cancellation for a uniform earth.
    """
    f, lam, thick = (np.asarray(a, float) for a in (f, lam, thick))
    sigma, mu = np.asarray(sigma, complex), np.asarray(mu, complex)
    nl = len(sigma)
    iw = (2j * np.pi * f)[:, None]
    l2 = (lam * lam)[None]
    k2 = [iw * (mu[j] * sigma[j])[:, None] for j in range(nl)]
    u = [np.sqrt(l2 + k) for k in k2]

    def step(ka, ua, ma, kb, ub, mb):
        """Fresnel coefficient (ua/ma - ub/mb)/(ua/ma + ub/mb)."""
        a, b = ua * mb, ub * ma
        # a^2 - b^2 with the equal parts taken out
        diff = ka * mb ** 2 - kb * ma ** 2 + l2 * (mb - ma) * (mb + ma)
        return diff / (a + b) ** 2

    R = np.zeros((len(f), len(lam)), complex)
    for j in range(nl - 1, 0, -1):
        F = step(k2[j - 1], u[j - 1], mu[j - 1][:, None], k2[j], u[j], mu[j][:, None])
        R = (F + R) / (1 + F * R)
        R = R * np.exp(-2 * u[j - 1] * thick[j - 1])
    F = step(0 * iw, np.broadcast_to(lam[None], u[0].shape), mu_0 + 0 * iw, k2[0], u[0], mu[0][:, None])
    return (F + R) / (1 + F * R)
