"""Transient vertical magnetic dipole on a half-space."""
import numpy as np
from scipy.constants import mu_0

import emcommon as em
import bulk
import gen
import ref_special as sp
from core import EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 300
QUICK = 7
RULE = ("a case draws a dipole (moment, medium, location), one or several times and surface receivers from 1e-2 to "
        "30 diffusion lengths in several array forms with two or three columns, and compares field, flux density "
        "and time derivatives of the class, of the plain functions and of the textbook formulas with 80 bit "
        "evaluations; a second target differentiates the returned fields in time; distinct = (interface, "
        "quantity, diffusion decade, times, call style)")
ASSUMPTIONS = ["time zero and a receiver at the source are excluded",
               "the textbook formulas overflow for more than 30 diffusion lengths and keep the book's signs"]


def draw(c, lo, hi):
    rng = c.rng
    sigma, mu, eps = em.medium(rng)
    targ, t, lead = em.freq_like(rng, 1e-8, 1e2, spread=4, zero=0)
    m = gen.swide(rng, 1e-2, 1e5)
    th = np.sqrt(mu * sigma / (4 * t))
    scale = gen.logu(rng, lo, hi) / th.max()
    loc = gen.location(rng, 1.0) * scale
    n = 6
    ang = rng.uniform(0, 2 * np.pi, n)
    ang[0] = rng.integers(4) * np.pi / 2
    P = loc[:2] + np.stack([np.cos(ang), np.sin(ang)], -1) * (scale * gen.logu(rng, 0.2, 1, n))[:, None]
    P[0] = loc[:2]
    P[0, rng.integers(2)] += gen.sgn(rng) * scale
    c.note(time=targ, sigma=sigma, mu=mu, moment=m, location=loc, P=P)
    return sigma, mu, eps, targ, t, lead, m, loc, P


def exact(P, loc, t, sigma, mu, m):
    d = ld(P) - ld(loc[:2])
    r = norm(d)
    T = ld(t)[:, None]
    x = np.sqrt(LD(mu) * LD(sigma) / (4 * T)) * r[None]
    er, ex = sp.erf(x), np.exp(-x * x)
    q = x * x / 2
    I0, I1, I2 = sp.ive(0, q), sp.ive(1, q), sp.ive(2, q)
    k = LD(m) / (4 * PI * r ** 3)[None]
    hz = k * ((9 / (2 * x * x) - 1) * er - (9 / x + 4 * x) / sp.SQPI * ex)
    hr = k * 2 * x * x * (I1 - I2)
    dz = k / T * (9 / (2 * x * x) * er - (4 * x ** 3 + 6 * x + 9 / x) / sp.SQPI * ex)
    dr = -k / T * 2 * x * x * ((1 + x * x) * I0 - (2 + x * x + 4 / (x * x)) * I1)
    f = C * EPS * np.abs(k)
    tz = f * (10 / x + 2) + f * x ** 3 * ex
    tr = f * 2 * x * x * I0 * 3
    tdz = f / T * (20 / x * np.minimum(1, 1 / x) + (10 / x + 6 * x + 4 * x ** 3) * ex * (1 + x * x))
    tdr = f / T * 2 * x * x * (1 + x * x) * I0 * 3
    e = d / r[:, None]
    pack = lambda rad, z: np.stack([rad * e[None, :, 0], rad * e[None, :, 1], z], -1)
    return (pack(hr, hz), np.stack([tr, tr, tz], -1), pack(dr, dz), np.stack([tdr, tdr, tdz], -1),
            (hr, hz, dr, dz), (tr, tz, tdr, tdz), r, x)


def two_or_three(c, P):
    if c.rng.random() < 0.5:
        return P
    return np.c_[P, c.rng.uniform(-1, 1, len(P)) if c.rng.random() < 0.5 else np.zeros(len(P))]


def field(c):
    from geoana.em.tdem import VerticalMagneticDipoleHalfSpace
    from geoana.em.tdem import reference as rf
    from geoana.em.tdem import simple_functions as sf
    sigma, mu, eps, targ, t, lead, m, loc, P = draw(c, 1e-2, 60.0)
    H, tH, D, tD, rad, trad, r, x = exact(P, loc, t, sigma, mu, m)
    M = LD(mu)
    want = {"magnetic_field": (H, tH), "magnetic_flux_density": (M * H, M * tH),
            "magnetic_field_time_derivative": (D, tD), "magnetic_flux_time_derivative": (M * D, M * tD)}
    s = em.construct(c, VerticalMagneticDipoleHalfSpace, {"time": targ},
                     dict(sigma=sigma, mu=mu, epsilon=eps, moment=m, location=loc))
    for name, (w, tol) in want.items():
        styles = [st for st in gen.COMMON]
        got, n = gen.ask(c, name, getattr(s, name), two_or_three(c, P), lead=lead, styles=styles)
        c.close("class " + name, got.reshape(len(t), n, 3), w[:, :n], tol[:, :n] + em.TINY)
        c.sig("class", name, round(float(np.log10(np.median(x)))), len(lead), c.info["style"])
    # plain functions: offsets from the dipole, optional arguments
    H, tH, D, tD, rad, trad, r, x = exact(P - loc[:2], np.zeros(3), t, sigma, mu, m)
    want = {"magnetic_field_vertical_magnetic_dipole": (H, tH), "magnetic_flux_vertical_magnetic_dipole": (M * H, M * tH),
            "magnetic_field_time_deriv_magnetic_dipole": (D, tD), "magnetic_flux_time_deriv_magnetic_dipole": (M * D, M * tD)}
    for name, (w, tol) in want.items():
        fn = getattr(sf, name)
        tt = np.asarray(targ) if np.ndim(targ) else targ
        if c.rng.random() < 0.5:
            call = lambda xy: fn(tt, xy, sigma, mu, m)
        else:
            call = lambda xy: fn(tt, xy, sigma=sigma, mu=mu, moment=m)
        got, n = gen.ask(c, name, call, two_or_three(c, P - loc[:2]), lead=lead)
        c.close("function " + name, got.reshape(len(t), n, 3), w[:, :n], tol[:, :n] + em.TINY)
        c.sig("function", name, round(float(np.log10(np.median(x)))), len(lead))
    # the textbook formulas
    if x.max() < 25:
        i = int(c.rng.integers(len(t)))
        th = np.sqrt(mu * sigma / (4 * t[i]))
        rho = r.astype(float)
        hr, hz, dr, dz = (v[i] for v in rad)
        b = [4 * v[i] for v in trad]
        c.close("4.69a", c.call("4.69a", rf.hz_from_vert_4_69a, m, th, rho), hz, b[1])
        c.close("4.70", c.call("4.70", rf.dhz_from_vert_4_70, m, th, rho, sigma, mu), -dz, b[3])
        c.close("4.72", c.call("4.72", rf.hp_from_vert_4_72, m, th, rho), -hr, b[0])
        c.close("4.74", c.call("4.74", rf.dhp_from_vert_4_74, m, th, rho, t[i]), -dr, b[2])
        c.ev("textbook", 4)
    c.ev("early" if np.median(x) > 1 else "late")


def derivative(c):
    from geoana.em.tdem import VerticalMagneticDipoleHalfSpace
    sigma, mu, eps, targ, t, lead, m, loc, P = draw(c, 0.3, 5.0)
    t0 = float(t[0])
    h = 1e-3
    s = em.construct(c, VerticalMagneticDipoleHalfSpace, {"time": t0 * (1 + h * np.arange(-3, 4))},
                     dict(sigma=sigma, mu=mu, moment=m, location=loc))
    H = c.call("H", s.magnetic_field, P)
    B = c.call("B", s.magnetic_flux_density, P)
    dH = c.call("dH", s.magnetic_field_time_derivative, P)[3]
    dB = c.call("dB", s.magnetic_flux_time_derivative, P)[3]
    co = np.array([-1, 9, -45, 0, 45, -9, 1]) / (60 * h * t0)
    r = np.hypot(*(P - loc[:2]).T)
    sc = abs(m) / (4 * np.pi * r ** 3)
    c.close("dH/dt is the derivative", dH, np.einsum("t,tpk->pk", co, H), (1e-7 * sc / t0)[:, None])
    c.close("dB/dt is the derivative", dB, np.einsum("t,tpk->pk", co, B), (1e-7 * mu * sc / t0)[:, None])
    c.ev("derivatives")
    c.sig("derivative", round(float(np.log10(t0))))


TARGETS = [("bulk", bulk.target("tdem.VerticalMagneticDipoleHalfSpace"), 9, 756), ("field", field, 1500, 40000), ("derivative", derivative, 300, 10000)]
REQUIRE = {"early": 100, "late": 100, "derivatives": 100, "textbook": 400}
REQUIRE["many points"] = 20
