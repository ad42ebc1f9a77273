"""Sommerfeld integrals int_0^inf F(lambda) J_n(lambda r) d lambda, r > 0.

Gauss-Legendre between the zeros of the Bessel function and Wynn's epsilon
algorithm on the partial sums; the first interval is split logarithmically.
"""
import numpy as np
from scipy.special import jn_zeros, jv

NZ = 90
XG, WG = np.polynomial.legendre.leggauss(20)


def _nodes():
    out = {}
    for n in (0, 1):
        z = np.concatenate([[0.0], jn_zeros(n, NZ)])
        first = np.concatenate([[0.0], z[1] * np.logspace(-7, 0, 29)])
        a = np.concatenate([first[:-1], z[1:-1]])
        b = np.concatenate([first[1:], z[2:]])
        x = (0.5 * (b - a))[:, None] * XG + (0.5 * (a + b))[:, None]
        w = (0.5 * (b - a))[:, None] * WG
        out[n] = x, w * jv(n, x), len(first) - 1
    return out


NODES = _nodes()


def wynn(s):
    """Limit of a sequence along axis 0, and the change of the last steps."""
    e0 = np.zeros((len(s) + 1,) + s.shape[1:], complex)
    e1 = s.astype(complex)
    best, last = s[-1].astype(complex), np.abs(s[-1] - s[-2])
    for k in range(1, len(s)):
        with np.errstate(all="ignore"):
            d = e1[1:] - e1[:-1]
            new = e0[1:-1] + 1 / np.where(d == 0, np.nan, d)
        e0, e1 = e1, new
        if k % 2 == 0 and len(e1) >= 2:
            ch = np.abs(e1[-1] - e1[-2])
            ok = np.isfinite(e1[-1]) & (ch < last)
            best = np.where(ok, e1[-1], best)
            last = np.where(ok, ch, last)
    return best, last


def nodes(n, r):
    return NODES[n][0] / r


def transform(n, r, F):
    """F: values (..., ninterval, ngauss) at nodes(n, r); returns (integral, error estimate)."""
    x, w, nf = NODES[n]
    part = (F * w).sum(-1) / r
    part = np.moveaxis(part, -1, 0)
    s = np.cumsum(part, 0)[nf - 1:]
    return wynn(s)
