"""Plane waves, harmonic and transient."""
import numpy as np

import emcommon as em
import bulk
import gen
from core import CLD, EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 300
QUICK = 15
RULE = ("a case draws a wave (amplitude of either sign, polarisation as letter or horizontal vector, medium, "
        "frequencies or times) and points above and below the origin over many skin depths, compares E, J, H "
        "and B with an 80 bit evaluation, and checks orthogonality and decay on the returned values; "
        "distinct = (domain, regime, polarisation, call style, number of frequencies or times)")
ASSUMPTIONS = ["frequency zero and time zero are excluded (no such wave)"]
Z = np.array([0, 0, -1], dtype=LD)


def polarisation(rng):
    k = rng.integers(5)
    if k < 2:
        o = np.zeros(3, LD)
        o[k] = 1
        s = "XY"[k]
        return (s if rng.random() < 0.5 else s.lower()), o
    a = rng.uniform(0, 2 * np.pi)
    v = np.array([np.cos(a), np.sin(a), 0.0]) * gen.logu(rng, 1e-3, 1e3)
    if rng.random() < 0.2:
        v[rng.integers(2)] = 0.0
    o = ld(v) / norm(ld(v)[None])[0]
    return (v if k == 2 else v.tolist() if k == 3 else tuple(v.tolist())), o


def run(c, s, P, lead, nl, Q, tag):
    for name, (want, tol) in Q.items():
        got, n = gen.ask(c, tag + " " + name, getattr(s, name), P, lead=lead)
        got = got.reshape((nl, n, 3))
        c.close(tag + " " + name, got, want[:, :n], tol[:, :n, None] + em.TINY)
        c.sig(tag, name, nl, c.info.get("style"))


def harmonic(c):
    from geoana.em import fdem
    rng = c.rng
    sigma, mu, eps = em.medium(rng)
    quasi = bool(rng.random() < 0.4)
    farg, f, lead = em.freq_like(rng, 1e-2, 1e8, zero=0)
    k, w = em.wavenumber(f, sigma, mu, eps, quasi)
    amp = gen.swide(rng, 1e-3, 1e3)
    oarg, o = polarisation(rng)
    kw = dict(sigma=sigma, mu=mu, epsilon=eps, quasistatic=quasi, amplitude=amp, orientation=oarg)
    s = em.construct(c, fdem.HarmonicPlaneWave, {"frequency": farg}, kw)
    scale = gen.logu(rng, 1e-3, 20.0) / float(np.abs(k).max())
    P = gen.points(rng, 8, np.zeros(3), 0.05 * scale, 3 * scale)
    P[:, 2] = np.where(rng.random(8) < 0.8, -np.abs(P[:, 2]), np.abs(P[:, 2]))
    if rng.random() < 0.3:
        P[0, 2] = 0.0
    c.note(kw=kw, frequency=farg, P=P)
    z = ld(P[:, 2])[None, :]
    kz = k[:, None] * z
    ph = LD(amp) * np.exp(CLD(1j) * kz)
    sz = np.abs(ph) * (1 + np.abs(kz)) * C * EPS
    E = ph[..., None] * o
    b = -k / w
    B = (b[:, None] * ph)[..., None] * np.cross(o, Z)
    bs = np.abs(b)[:, None] * sz
    Q = {"electric_field": (E, sz), "current_density": (LD(sigma) * E, LD(sigma) * sz),
         "magnetic_flux_density": (B, bs), "magnetic_field": (B / LD(mu), bs / LD(mu))}
    run(c, s, P, lead, len(f), Q, "harmonic")
    c.ev("harmonic:" + ("quasistatic" if quasi else "full"))


def transient(c):
    from geoana.em import tdem
    rng = c.rng
    sigma, mu, eps = em.medium(rng)
    targ, t, lead = em.freq_like(rng, 1e-9, 1e2, zero=0)
    amp = gen.swide(rng, 1e-3, 1e3)
    oarg, o = polarisation(rng)
    kw = dict(sigma=sigma, mu=mu, epsilon=eps, amplitude=amp, orientation=oarg)
    s = em.construct(c, tdem.TransientPlaneWave, {"time": targ}, kw)
    scale = gen.logu(rng, 1e-3, 8.0) * np.sqrt(4 * t.min() / (mu * sigma))
    P = gen.points(rng, 8, np.zeros(3), 0.05 * scale, 2 * scale)
    P[:, 2] = np.where(rng.random(8) < 0.8, -np.abs(P[:, 2]), np.abs(P[:, 2]))
    if rng.random() < 0.3:
        P[0, 2] = 0.0
    c.note(kw=kw, time=targ, P=P)
    z = ld(P[:, 2])[None, :]
    T = ld(t)[:, None]
    ms = LD(mu) * LD(sigma)
    u = ms * z * z / (4 * T)
    ex = LD(amp) * np.exp(-u)
    e = -np.sqrt(ms) * z / (2 * np.sqrt(PI) * T ** LD(1.5)) * ex
    b = -np.sqrt(ms / (PI * T)) * ex
    fac = C * EPS * (1 + u)
    E, B = e[..., None] * o, b[..., None] * np.cross(o, Z)
    es, bs = fac * np.abs(e), fac * np.abs(b)
    Q = {"electric_field": (E, es), "current_density": (LD(sigma) * E, LD(sigma) * es),
         "magnetic_flux_density": (B, bs), "magnetic_field": (B / LD(mu), bs / LD(mu))}
    run(c, s, P, lead, len(t), Q, "transient")
    c.ev("transient")


TARGETS = [("bulk", bulk.target("fdem.HarmonicPlaneWave", "tdem.TransientPlaneWave"), 9, 1620), ("harmonic", harmonic, 1500, 40000), ("transient", transient, 1500, 40000)]
REQUIRE = {"harmonic:quasistatic": 200, "harmonic:full": 200, "transient": 400}
REQUIRE["many points"] = 20
