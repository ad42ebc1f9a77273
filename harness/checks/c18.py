"""Transient electric dipole in a whole space."""
import numpy as np

import emcommon as em
import bulk
import gen
import ref_special as sp
from core import EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 300
QUICK = 15
RULE = ("a case draws a dipole with every parameter off its default, one or several times and points from 1e-3 to "
        "30 diffusion lengths, and compares A, E, J, H, B, dH/dt and dB/dt with 80 bit evaluations of the step-off "
        "solution; a second target differentiates what the library returned in space and time (Maxwell's "
        "equations); distinct = (quantity, diffusion decade, times, call style, orientation)")
ASSUMPTIONS = ["time zero and the position of the dipole are excluded",
               "at late time the closed forms cancel: the tolerance is the rounding error of the terms"]


def draw(c, lo=1e-3, hi=30.0):
    rng = c.rng
    sigma, mu, eps = em.medium(rng)
    targ, t, lead = em.freq_like(rng, 1e-8, 1e2, spread=5, zero=0)
    oarg, o = gen.orientation(rng)
    cur, L = gen.swide(rng, 1e-2, 1e3), gen.logu(rng, 1e-2, 1e3)
    th = np.sqrt(mu * sigma / (4 * t))
    scale = gen.logu(rng, lo, hi) / th.max()
    loc = gen.location(rng, 1.0) * scale
    kw = dict(sigma=sigma, mu=mu, epsilon=eps, location=loc, orientation=oarg, current=cur, length=L)
    c.note(time=targ, **kw)
    return kw, targ, t, lead, o, LD(cur) * LD(L), loc, scale, sigma, mu


def dipole(c):
    from geoana.em.tdem import ElectricDipoleWholeSpace
    kw, targ, t, lead, o, m, loc, scale, sigma, mu = draw(c)
    s = em.construct(c, ElectricDipoleWholeSpace, {"time": targ}, kw)
    P = gen.points(c.rng, 8, loc, 0.2 * scale, scale)
    c.note(P=P)
    d = ld(P) - ld(loc)
    r = norm(d)
    e = d / r[:, None]
    T = ld(t)[:, None]
    x = np.sqrt(LD(mu) * LD(sigma) / (4 * T)) * r[None]
    er, ex = sp.erf(x), np.exp(-x * x)
    g = x / sp.SQPI * ex
    a = m / (4 * PI * r)[None]
    A = (a * er)[..., None] * o
    front = m / (4 * PI * LD(sigma) * r ** 3)[None]
    sym, ori = 3 * er - (4 * x * x + 6) * g, er - (4 * x * x + 2) * g
    dot = (e @ o)[None, :, None]
    E = front[..., None] * (sym[..., None] * dot * e[None] - ori[..., None] * o)
    eh = np.cross(o, e)[None]
    H = (m / (4 * PI * r ** 2) * (er - 2 * g))[..., None] * eh
    dH = (m / (4 * PI * r ** 2) * (-2 * x ** 3 / (sp.SQPI * T) * ex))[..., None] * eh
    f = C * EPS
    sz = np.minimum(1, x)
    ta = f * np.abs(a) * sz
    # relative error of exp(-x^2) is x^2 eps
    te = f * np.abs(front) * 4 * (sz + (x + x ** 5) * ex)
    thh = f * np.abs(m) / (4 * PI * r ** 2) * 2 * (sz + (x + x ** 3) * ex)
    td = f * np.abs(m) / (4 * PI * r ** 2) * 2 * x ** 3 * (1 + x * x) / T * ex
    Q = {"vector_potential": (A, ta), "electric_field": (E, te), "current_density": (LD(sigma) * E, LD(sigma) * te),
         "magnetic_field": (H, thh), "magnetic_flux_density": (LD(mu) * H, LD(mu) * thh),
         "magnetic_field_time_deriv": (dH, td), "magnetic_flux_density_time_deriv": (LD(mu) * dH, LD(mu) * td)}
    for name, (want, tol) in Q.items():
        got, n = gen.ask(c, name, getattr(s, name), P, lead=lead)
        c.close(name, got.reshape(len(t), n, 3), want[:, :n], tol[:, :n, None] + em.TINY)
        c.sig(name, round(float(np.log10(np.median(x)))), len(lead), c.info["style"])
    c.ev("early" if np.median(x) > 1 else "late")


def maxwell(c):
    """Differences of returned values: Faraday, Ampere, divergence, time derivatives."""
    from geoana.em.tdem import ElectricDipoleWholeSpace
    kw, targ, t, lead, o, m, loc, scale, sigma, mu = draw(c, 0.3, 4.0)
    t0 = float(t[0])
    kw["location"] = np.zeros(3)
    x0 = gen.unit(c.rng)
    r = gen.logu(c.rng, 0.3, 3.0) / np.sqrt(mu * sigma / (4 * t0))
    x0 = x0 * r
    h, ht = 2e-3 * r, 1e-3
    times = t0 * (1 + ht * np.arange(-3, 4))
    s = em.construct(c, ElectricDipoleWholeSpace, {"time": times}, kw)
    co = np.array([-1, 9, -45, 0, 45, -9, 1]) / 60
    pts = x0 + h * np.arange(-3, 4)[None, :, None] * np.eye(3)[:, None, :]

    def get(fn):
        v = np.asarray(c.call("field", fn, pts.reshape(-1, 3))).reshape(7, 3, 7, 3)
        return np.einsum("j,ijk->ik", co / h, v[3]), v[3, 0, 3], np.einsum("t,tk->k", co / (ht * t0), v[:, 0, 3])

    curl = lambda g: np.array([g[1, 2] - g[2, 1], g[2, 0] - g[0, 2], g[0, 1] - g[1, 0]])
    gE, E, _ = get(s.electric_field)
    gH, H, tH = get(s.magnetic_field)
    gB, B, tB = get(s.magnetic_flux_density)
    gA, A, _ = get(s.vector_potential)
    J = get(s.current_density)[1]
    dH, dB = get(s.magnetic_field_time_deriv)[1], get(s.magnetic_flux_density_time_deriv)[1]
    m = abs(float(m))
    Hs = m / (4 * np.pi * r * r) * 3
    Es = m / (4 * np.pi * sigma * r ** 3) * 20
    tol = 1e-8
    c.close("div B", np.trace(gB), 0.0, tol * mu * Hs / r)
    c.close("div E", np.trace(gE), 0.0, tol * Es / r)
    c.close("curl H = J", curl(gH), J, tol * (Hs / r + sigma * Es))
    c.close("curl E = -dB/dt", curl(gE), -dB, tol * (Es / r + mu * Hs / t0))
    c.close("curl A = H", curl(gA), H, tol * Hs * 3)
    c.close("dH/dt is the derivative of H", dH, tH, tol * Hs / t0)
    c.close("dB/dt is the derivative of B", dB, tB, tol * mu * Hs / t0)
    c.ev("maxwell")
    c.sig("maxwell", round(float(np.log10(r)), 0))


TARGETS = [("bulk", bulk.target("tdem.ElectricDipoleWholeSpace"), 4, 720), ("dipole", dipole, 1500, 40000), ("maxwell", maxwell, 500, 15000)]
REQUIRE = {"early": 100, "late": 100, "maxwell": 200}
REQUIRE["many points"] = 20
