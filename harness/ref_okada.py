"""Surface displacement of a rectangular dislocation, by integrating Okada's (1985) point source.

Geometry in the model's convention: strike clockwise from north, the plane dips to
the right of strike, and `center` is the point of the surface above which the plane,
continued upwards, comes out.
"""
import numpy as np

GL = {}


def gauss(n):
    if n not in GL:
        GL[n] = np.polynomial.legendre.leggauss(n)
    return GL[n]


def nodes(a, b, panels, n=12):
    x, w = gauss(n)
    e = np.linspace(a, b, panels + 1)
    h = np.diff(e)[:, None] / 2
    m = (e[:-1] + e[1:])[:, None] / 2
    return (m + h * x).ravel(), (h * w).ravel()


def point(x, y, d, sd, cd, g):
    """(3, ...) displacement per unit area of unit strike slip and of unit dip slip."""
    R2 = x * x + y * y + d * d
    R = np.sqrt(R2)
    Rd = R + d
    p = y * cd + d * sd
    q = y * sd - d * cd
    R3, R5 = R2 * R, R2 * R2 * R
    A = 1 / (R * Rd * Rd)
    B = (3 * R + d) / (R3 * Rd ** 3)
    D = (2 * R + d) / (R3 * Rd * Rd)
    I1 = g * y * (A - x * x * B)
    I2 = g * x * (A - y * y * B)
    I3 = g * x / R3 - I2
    I4 = -g * x * y * D
    I5 = g * (1 / (R * Rd) - x * x * D)
    k = -1 / (2 * np.pi)
    ss = k * np.array([3 * x * x * q / R5 + I1 * sd, 3 * x * y * q / R5 + I2 * sd, 3 * x * d * q / R5 + I4 * sd])
    ds = k * np.array([3 * x * p * q / R5 - I3 * sd * cd, 3 * y * p * q / R5 - I1 * sd * cd, 3 * d * p * q / R5 - I5 * sd * cd])
    return ss, ds


def frame(strike):
    s = np.deg2rad(strike)
    e1 = -np.array([np.sin(s), np.cos(s)])          # against strike
    e2 = np.array([np.cos(s), -np.sin(s)])          # to the right of strike
    return e1, e2


def displacement(P, center, top, bottom, strike, dip, rake, slip, length, lam, mu):
    """P: (n,2) points; returns (n,3) displacements and an error estimate (n,)."""
    P = np.atleast_2d(np.asarray(P, float))
    e1, e2 = frame(strike)
    d = P - np.asarray(center, float)
    X, Y = d @ e1, d @ e2
    a = np.deg2rad(dip)
    sd, cd = -np.sin(a), np.cos(a)
    w1, w2 = top / np.sin(a), bottom / np.sin(a)
    g = mu / (lam + mu)
    U1, U2 = -slip * np.cos(np.deg2rad(rake)), -slip * np.sin(np.deg2rad(rake))
    out, err = np.zeros((len(P), 3)), np.zeros(len(P))
    for i in range(len(P)):
        # distance from the rectangle, to choose the panels
        wy = np.clip(Y[i] * cd, w1, w2)
        xx = np.clip(X[i], -length / 2, length / 2)
        dist = np.sqrt((X[i] - xx) ** 2 + (Y[i] - wy * cd) ** 2 + (wy * sd) ** 2)
        res = []
        for f in (1.0, 1.5):
            n1 = int(min(60, np.ceil(f * (length / dist + 1e-9)) + 0)) or 1
            n2 = int(min(60, np.ceil(f * ((w2 - w1) / dist + 1e-9)) + 0)) or 1
            xi, wx = nodes(-length / 2, length / 2, max(n1, 1))
            et, we = nodes(w1, w2, max(n2, 1))
            ss, ds = point(X[i] - xi[:, None], Y[i] - et * cd, (-et * sd)[None, :], sd, cd, g)
            W = wx[:, None] * we
            res.append(U1 * (ss * W).sum((1, 2)) + U2 * (ds * W).sum((1, 2)))
        u = res[1]
        err[i] = np.abs(res[0] - res[1]).max()
        out[i, :2] = u[0] * e1 + u[1] * e2
        out[i, 2] = u[2]
    return out, err
