"""Reference models in extended precision: point and sphere sources, prisms, wires."""
import numpy as np
from scipy.constants import G, mu_0

from core import EPS, LD

PI = LD("3.14159265358979323846264338327950288")


def ld(x):
    return np.asarray(x, dtype=LD)


def norm(v):
    return np.sqrt((v * v).sum(-1))


def cross(a, b):
    return np.cross(a, b)


# ---- potentials of point sources -----------------------------------------
def inv_r(P, loc):
    """1/r, r/r^3 and (3 rr - I)/r^5 ... of points, in long double."""
    d = ld(P) - ld(loc)
    r = norm(d)
    e = d / r[:, None]
    g = e / r[:, None] ** 2
    t = (3 * e[:, :, None] * e[:, None, :] - np.eye(3, dtype=LD)) / r[:, None, None] ** 3
    return r, 1 / r, g, t


# ---- magnetic dipole, pole, circular loop ---------------------------------
def cyl_to_cart(Q):
    Q = ld(Q)
    return np.stack([Q[:, 0] * np.cos(Q[:, 1]), Q[:, 0] * np.sin(Q[:, 1]), Q[:, 2]], -1)


def vec_to_cyl(phi, V):
    s, k = np.sin(ld(phi)), np.cos(ld(phi))
    return np.stack([k * V[:, 0] + s * V[:, 1], -s * V[:, 0] + k * V[:, 1], V[:, 2]], -1)


def dipole_AB(d, o, m, mu):
    """A and B of a magnetic dipole at offsets d (long double)."""
    r = norm(d)[:, None]
    k = LD(mu) * LD(m) / (4 * PI)
    A = k * np.cross(o, d) / r ** 3
    B = k * (3 * (d @ o)[:, None] * d / r ** 2 - o) / r ** 3
    return A, B, r[:, 0]


def loop_geometry(d, o, a):
    z = d @ o
    perp = d - z[:, None] * o
    rho = norm(perp)
    delta = np.sqrt((rho - LD(a)) ** 2 + z * z)
    return z, perp, rho, delta


def loop_AB(d, o, a, current, mu, n=4096):
    """A and B of a circular loop by the trapezoidal rule on Biot-Savart's
    integral (spectrally accurate away from the wire)."""
    a = LD(a)
    z, perp, rho, delta = loop_geometry(d, o, a)
    t = 2 * PI * np.arange(n).astype(LD) / n
    safe = np.where(rho > 0, rho, LD(1))
    e = perp / safe[:, None]
    alt = np.cross(o, np.where(np.abs(o) == np.abs(o).min(), LD(1), LD(0)))
    alt = alt / norm(alt[None])[0]
    e = np.where((rho > 0)[:, None], e, alt)
    e = e - (e @ o)[:, None] * o
    e = e / norm(e)[:, None]
    f = np.cross(o, e)
    ct, st = np.cos(t), np.sin(t)
    k = LD(mu) * LD(current) / (4 * PI) * 2 * PI / n * a
    A = np.empty_like(d)
    B = np.empty_like(d)
    for i in range(len(d)):
        # by symmetry: dl = a(-sin, cos), point (rho, 0, z)
        R = np.sqrt(rho[i] ** 2 + a * a - 2 * a * rho[i] * ct + z[i] ** 2)
        Af = k * (ct / R).sum()
        Br = k * (z[i] * ct / R ** 3).sum()
        Bz = k * ((a - rho[i] * ct) / R ** 3).sum()
        A[i] = Af * f[i]
        B[i] = Br * e[i] + Bz * o
    return A, B


def agm_KE(mc):
    """Complete elliptic integrals K and E from the complementary parameter."""
    a, b = np.ones_like(mc), np.sqrt(mc)
    s = (1 - mc) / 2
    p = LD(1)
    for _ in range(12):
        cc = (a - b) / 2
        a, b = (a + b) / 2, np.sqrt(a * b)
        p = p * 2
        s = s + p * cc * cc / 2
    K = PI / (2 * a)
    return K, K * (1 - s)


def loop_near(d, o, a, current, mu):
    """The closed form with elliptic integrals, for points close to the wire."""
    a = LD(a)
    z, perp, rho, delta = loop_geometry(d, o, a)
    al2 = (a - rho) ** 2 + z * z
    be2 = (a + rho) ** 2 + z * z
    be = np.sqrt(be2)
    K, E = agm_KE(al2 / be2)
    C = LD(mu) * LD(current) / PI
    e = perp / rho[:, None]
    f = np.cross(o, e)
    A = C / (2 * rho * be) * ((a * a + rho ** 2 + z * z) * K - be2 * E)
    Br = C * z / (2 * al2 * be * rho) * ((a * a + rho ** 2 + z * z) * E - al2 * K)
    Bz = C / (2 * al2 * be) * ((a * a - rho ** 2 - z * z) * E + al2 * K)
    return A[:, None] * f, Br[:, None] * e + Bz[:, None] * o


def loop_scale(d, o, a, current, mu):
    """Size of the terms that the closed form adds up: for A and for B."""
    a = LD(a)
    z, perp, rho, delta = loop_geometry(d, o, a)
    al2 = delta ** 2
    be2 = (a + rho) ** 2 + z * z
    be = np.sqrt(be2)
    K, E = agm_KE(al2 / be2)
    C = abs(LD(mu) * LD(current)) / PI
    s = a * a + rho ** 2 + z * z
    big = rho ** 2 / (a * a + z * z) >= 0.9e-6
    rs = np.where(big, rho, np.sqrt(a * a + z * z))
    tA = C / (2 * rs * be) * (s * K + be2 * E + be2)
    tB = C / (2 * al2 * be) * (s * E + al2 * K + be2) * (1 + np.abs(z) / rs)
    # the series next to the axis
    q = np.sqrt(a * a + z * z)
    small = ~(rho ** 2 / (a * a + z * z) >= 1.1e-6)
    sA = np.where(small, PI * C * rho * a * a / q ** 3, LD(0))
    sB = np.where(small, 3 * PI * C * a * a * np.abs(z) * rho / q ** 5, LD(0))
    return tA, tB, sA, sB


# ---- wires ----------------------------------------------------------------
def segment(P, p0, p1):
    """Unit current segment: A/(mu/4pi), B/(mu/4pi), distance, length, radius."""
    P, p0, p1 = ld(P), ld(p0), ld(p1)
    r0v, r1v = P - p0, P - p1
    r0, r1 = norm(r0v), norm(r1v)
    lv = p1 - p0
    l = norm(lv[None])[0]
    cr = np.cross(lv, r0v)
    rho = norm(cr) / l
    x0 = r0v @ lv / l
    x1 = x0 - l
    den = r0 * r1 + (r0v * r1v).sum(-1)
    # between the ends r0 r1 + r0.r1 cancels: (r0 r1)^2 - (r0.r1)^2 = (rho l)^2
    dot = (r0v * r1v).sum(-1)
    den = np.where(dot < 0, (rho * l) ** 2 / (r0 * r1 - dot), den)
    A = (lv / l)[None] * np.log1p(l * (r0 + r1 + l) / den)[:, None]
    B = cr * ((r0 + r1) / (r0 * r1 * den))[:, None]
    delta = np.where(x0 < 0, r0, np.where(x1 > 0, r1, rho))
    return A, B, delta, l, np.maximum(r0, r1)
