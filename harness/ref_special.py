"""erf and scaled modified Bessel functions in 80 bit arithmetic."""
import numpy as np

from core import LD
from ref_basic import PI

SQPI = np.sqrt(PI)


def erf(x):
    x = np.asarray(x, LD)
    a = np.abs(x)
    s = np.where(a < 4, a, 0)
    t = np.ones_like(s)
    tot = np.ones_like(s)
    for n in range(1, 140):
        t = t * 2 * s * s / (2 * n + 1)
        tot = tot + t
    small = 2 * s / SQPI * np.exp(-s * s) * tot
    b = np.where(a >= 4, np.minimum(a, 100), 4)
    cf = b
    for n in range(80, 0, -1):
        cf = b + LD(n) / 2 / cf
    big = 1 - np.exp(-b * b) / (SQPI * cf)
    return np.sign(x) * np.where(a < 4, small, big)


def ive(n, x):
    """exp(-x) I_n(x), x >= 0."""
    x = np.asarray(x, LD)
    s = np.where(x < 60, x, 0)
    h = s / 2
    t = np.ones_like(s)
    for k in range(1, n + 1):
        t = t * h / k
    tot = t
    for k in range(1, 260):
        t = t * h * h / (k * (k + n))
        tot = tot + t
    small = np.exp(-s) * tot
    b = np.where(x >= 60, x, 60)
    t = np.ones_like(b)
    asy = t
    for k in range(1, 40):
        t = -t * (4 * n * n - (2 * k - 1) ** 2) / (k * 8 * b)
        asy = asy + t
    big = asy / np.sqrt(2 * PI * b)
    return np.where(x < 60, small, big)
