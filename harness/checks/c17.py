"""Scalar EM functions and the field at the centre of a loop on a half-space."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import bulk
import emcommon as em
import gen
import ref_hankel
import ref_layer
import ref_special as sp
from core import CLD, EPS, LD
from ref_basic import PI, ld

BUILD = None
C = 100
QUICK = 15
RULE = ("a case draws arguments over many decades as scalars or as arrays that broadcast, with and without the "
        "optional arguments, by position or keyword, and compares every scalar function of the frequency and time "
        "domain, and the central-loop formulas, with 80 bit evaluations of their definitions; properties of objects are "
        "compared with the functions; the loop formulas are also compared with numerical integrals over the "
        "reflection coefficient; distinct = (function, argument shapes, regime)")
ASSUMPTIONS = ["frequency and time zero only where the formula has a value"]


def arg(c, lo, hi, shape):
    if c.rng.random() < 0.1:
        lo, hi = lo / 1e4, hi * 1e4
    v = gen.logu(c.rng, lo, hi, shape) if shape else float(gen.logu(c.rng, lo, hi))
    if hi > 10 and c.rng.random() < 0.15:       # whole numbers, as integers
        v = np.maximum(1, np.round(np.minimum(v, 1e9))).astype(int) if shape else max(1, int(min(v, 1e9)))
        c.ev("integers")
    return v


def shapes(c):
    """Broadcastable shapes of (frequency or time, property)."""
    return [((), ()), ((5,), ()), ((), (4,)), ((5,), (5,)), ((3, 1), (4,)), ((1,), (4,)), ((2, 3), (2, 3)),
            ((0,), ()), ((20011,), ()), ((300, 1), (41,))][c.rng.integers(7) if c.rng.random() < 0.95 else 7 + c.rng.integers(3)]


def rel(c, key, got, want, f=C):
    want = np.asarray(want)
    c.close(key, got, want, f * EPS * np.abs(want))
    c.sig(key, np.shape(want))


def opt(c, **kw):
    """Leave some optional arguments out: (kwargs to pass)."""
    return kw


def fdem_scalars(c):
    from geoana.em import fdem
    s1, s2 = shapes(c)
    rng = c.rng
    f, sig = arg(c, 1e-3, 1e10, s1), arg(c, 1e-8, 1e3, s2)
    have_mu, have_eps = rng.random() < 0.7, rng.random() < 0.7
    mu = mu_0 * float(gen.logu(rng, 1, 100)) if have_mu else mu_0
    eps = epsilon_0 * float(gen.logu(rng, 1, 80)) if have_eps else epsilon_0
    kw = {**({"mu": mu} if have_mu else {}), **({"epsilon": eps} if have_eps else {})}
    q = [None, True, False][rng.integers(3)]
    if q is not None:
        kw["quasistatic"] = q
    c.note(f=f, sigma=sig, **kw)
    L = lambda x: ld(x)
    w = 2 * PI * L(f)
    rel(c, "omega", c.call("omega", fdem.omega, f), w)
    # wave number and complex conductivity: the full regime is the default
    full = not (q is True)
    z = (w * w * LD(mu) * LD(eps) if full else 0 * w) - CLD(1j) * w * LD(mu) * L(sig)
    rel(c, "wavenumber", c.call("wavenumber", fdem.wavenumber, f, sig, **kw), ref_layer.csqrt(z))
    kh = {k: v for k, v in kw.items() if k != "mu"}
    got = c.call("sigma_hat", fdem.sigma_hat, f, sig, **kh)
    if full:
        rel(c, "sigma_hat", got, L(sig) + CLD(1j) * w * LD(eps))
    else:
        rel(c, "sigma_hat", np.broadcast_to(got, np.broadcast(f, sig).shape), L(sig) + 0 * w)
    # skin depth: quasi-static is the default
    got = c.call("skin_depth", fdem.skin_depth, f, sig, **kw)
    if q is None or q:
        rel(c, "skin_depth", got, np.sqrt(2 / (w * L(sig) * LD(mu))))
    else:
        judge_skin(c, got, w, L(sig), LD(mu), LD(eps))
    # objects
    fs = np.ravel(f)[:4] if np.ndim(f) else f
    s0 = float(np.ravel(sig)[0])
    b = c.call("BaseFDEM", fdem.BaseFDEM, fs, sigma=s0, mu=mu, epsilon=eps, quasistatic=bool(q))
    w = 2 * PI * ld(fs)
    rel(c, "object omega", b.omega, w)
    z = (w * w * LD(mu) * LD(eps) if not q else 0 * w) - CLD(1j) * w * LD(mu) * LD(s0)
    rel(c, "object wavenumber", c.call("k", lambda: b.wavenumber), ref_layer.csqrt(z))
    sh = c.call("sigma_hat", lambda: b.sigma_hat)
    rel(c, "object sigma_hat", np.broadcast_to(sh, np.shape(fs)) if q else sh,
        LD(s0) + 0 * w if q else LD(s0) + CLD(1j) * w * LD(eps))
    if q:
        rel(c, "object skin_depth", c.call("d", lambda: b.skin_depth), np.sqrt(2 / (w * LD(s0) * LD(mu))))
    else:
        judge_skin(c, c.call("d", lambda: b.skin_depth), w, LD(s0), LD(mu), LD(eps))
    c.ev("fdem scalars")


def judge_skin(c, got, w, sig, mu, eps):
    """Full regime: 1 / (omega sqrt(mu eps/2 (sqrt(1 + (sigma/(omega eps))^2) - 1)))."""
    x = (sig / (w * eps)) ** 2
    root = x / (np.sqrt(1 + x) + 1)                      # sqrt(1+x) - 1 without cancellation
    inner = np.sqrt(mu * eps / 2 * root)
    want, bad = 1 / (w * inner), inner / w
    err = C * EPS * (1 + np.sqrt(1 + x) / root)          # cancellation in the plain formula
    c.evals += 1
    got = np.asarray(got)
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= err * want
        isbad = np.abs(got - bad) <= err * bad
    if got.shape == want.shape and not ok.all() and (ok | isbad | (err > 0.1)).all():
        c.finding("skin-depth-inverted")
        c.ev("finding-seen")
        return
    c.close("skin_depth (full)", got, want, err * want)


def tdem_scalars(c):
    from geoana.em import tdem
    s1, s2 = shapes(c)
    rng = c.rng
    t, sig = arg(c, 1e-9, 1e3, s1), arg(c, 1e-8, 1e3, s2)
    zz = arg(c, 1e-2, 1e5, s1)
    if rng.random() < 0.5:
        zz = -zz
    have = rng.random() < 0.7
    mu = mu_0 * float(gen.logu(rng, 1, 100)) if have else mu_0
    kw = {"mu": mu} if have else {}
    c.note(t=t, sigma=sig, z=zz, **kw)
    T, S, Z, M = ld(t), ld(sig), ld(zz), LD(mu)
    from geoana.em.tdem.base import diffusion_distance, peak_time, theta
    rel(c, "diffusion_distance", c.call("dd", diffusion_distance, t, sig, **kw), np.sqrt(2 * T / (M * S)))
    rel(c, "peak_time", c.call("pt", peak_time, zz, sig, **kw), M * S * Z * Z / 6)
    rel(c, "theta", c.call("theta", theta, t, sig, **kw), np.sqrt(M * S / (4 * T)))
    ts = np.ravel(t)[:4] if np.ndim(t) else t
    s0 = float(np.ravel(sig)[0])
    b = c.call("BaseTDEM", tdem.BaseTDEM, time=ts, sigma=s0, mu=mu)
    T, S = ld(ts), LD(s0)
    rel(c, "object diffusion_distance", c.call("dd", lambda: b.diffusion_distance), np.sqrt(2 * T / (M * S)))
    rel(c, "object peak_time", c.call("pt", b.peak_time, zz), M * S * Z * Z / 6)
    rel(c, "object theta", c.call("theta", lambda: b.theta), np.sqrt(M * S / (4 * T)))
    c.ev("tdem scalars")


def loop_args(c, extra):
    rng = c.rng
    full = dict(sigma=float(gen.wide(rng, 1e-4, 1e1, 1e6, 0.1)), mu=mu_0 * float(gen.logu(rng, 1, 50)),
                radius=float(gen.wide(rng, 1e-1, 1e3, 1e6, 0.1)), current=float(gen.swide(rng, 1e-2, 1e2)),
                turns=int(rng.integers(1, 50)))
    dflt = dict(sigma=1.0, mu=mu_0, radius=1.0, current=1.0, turns=1)
    kw = {}
    for k in list(full):
        if rng.random() < 0.15 and k not in extra:
            full[k] = dflt[k]
        else:
            kw[k] = full[k]
    return full, kw


def fdem_loop(c):
    from geoana.em.fdem import simple_functions as m
    rng = c.rng
    flux = c.idx % 2 == 1
    full, kw = loop_args(c, ("sigma",) if flux else ())
    a = full["radius"]
    ka = gen.logu(rng, 1e-2, 100, 4)
    f = ka ** 2 / (2 * np.pi * full["mu"] * full["sigma"] * a * a)
    farg = f if rng.random() < 0.7 else float(f[0])
    f = np.atleast_1d(farg)
    sec = [None, True, False][rng.integers(3)]
    if sec is not None:
        kw["secondary"] = sec
    fn = m.vertical_magnetic_flux_horizontal_loop if flux else m.vertical_magnetic_field_horizontal_loop
    c.note(f=farg, flux=flux, **kw)
    if flux and rng.random() < 0.5:
        k2 = dict(kw)
        got = c.call(fn.__name__, fn, farg, k2.pop("sigma"), **k2)
    else:
        got = c.call(fn.__name__, fn, farg, **kw)
    A, I = LD(a), LD(full["current"])
    k = ref_layer.csqrt(CLD(-1j) * 2 * PI * ld(f) * LD(full["mu"]) * LD(full["sigma"]))
    z = k * A
    e = np.exp(-CLD(1j) * z)
    want = -I / (z * z * A) * (3 - (3 + 3 * CLD(1j) * z - z * z) * e)
    if sec is None or sec:
        want = want - I / (2 * A)
    g = LD(full["turns"]) * (LD(full["mu"]) if flux else 1)
    az = np.abs(z)
    tol = C * EPS * abs(I) / A * (6 / az ** 2 + 1 + az * np.abs(e) + az) * abs(g)
    key = "fdem loop " + ("flux" if flux else "field")
    c.close(key, got, (want * g).reshape(np.shape(farg)), tol.reshape(np.shape(farg)))
    # independently: the loop as a sum of horizontal current elements over a mu_0 earth
    if full["mu"] == mu_0 or c.idx % 5 == 0:
        full2 = dict(kw, mu=mu_0)
        f2 = f * full["mu"] / mu_0
        got = c.call(fn.__name__, fn, f2, **full2)
        lam = ref_hankel.nodes(1, a)
        R = ref_layer.fast(f2, lam.ravel(), np.full((1, len(f2)), full["sigma"]), np.full((1, len(f2)), mu_0), [])
        H, err = ref_hankel.transform(1, a, (R * lam.ravel()).reshape((len(f2),) + lam.shape))
        H = H * full["current"] * a / 2          # secondary: I a / 2 int R lambda J1(lambda a) d lambda
        if sec is False:
            H = H + full["current"] / (2 * a)
        sc = abs(full["current"]) / a * full["turns"] * (mu_0 if flux else 1)
        c.close(key + " vs integral", got, H * full["turns"] * (mu_0 if flux else 1), 1e-8 * sc)
        c.ev("loop integrals", len(f2))
    if c.idx % 40 < 2:
        bulk.rows(c, key, lambda q: fn(q, **kw), [f], len(f))
    c.ev("fdem loop")
    c.sig("fdem loop", flux, sec, np.shape(farg), tuple(sorted(kw)))


LOOPS = ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop",
         "vertical_magnetic_flux_time_deriv_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop")


def tdem_loop(c):
    from geoana.em.tdem import simple_functions as m
    rng = c.rng
    full, kw = loop_args(c, ())
    a = full["radius"]
    ta = gen.logu(rng, 1e-2, 30, 4)
    t = full["mu"] * full["sigma"] * a * a / (4 * ta * ta)
    targ = t if rng.random() < 0.7 else float(t[0])
    t = np.atleast_1d(targ)
    c.note(t=targ, **kw)
    A, I, S, M, N = (LD(full[k]) for k in ("radius", "current", "sigma", "mu", "turns"))
    ta = np.sqrt(M * S / (4 * ld(t))) * A
    e = np.exp(-ta * ta)
    er = sp.erf(ta)
    hz = I * N / (2 * A) * (3 / (sp.SQPI * ta) * e + (1 - 3 / (2 * ta * ta)) * er)
    db = -I * N / (S * A ** 3) * (3 * er - 2 * ta / sp.SQPI * (3 + 2 * ta * ta) * e)
    th = C * EPS * abs(I) * N / (2 * A) * (6 / ta ** 2 + 2)
    td = C * EPS * abs(I) * N / (S * A ** 3) * (3 * np.minimum(ta, 1) * 4 + (1 + ta ** 5) * e)
    sh = np.shape(targ)
    for name, want, tol in (("vertical_magnetic_field_horizontal_loop", hz, th),
                            ("vertical_magnetic_flux_horizontal_loop", M * hz, M * th),
                            ("vertical_magnetic_flux_time_deriv_horizontal_loop", db, td),
                            ("vertical_magnetic_field_time_deriv_horizontal_loop", db / M, td / M)):
        got = c.call(name, getattr(m, name), targ, **kw)
        c.close("tdem " + name, got, want.reshape(sh), tol.reshape(sh))
        c.sig(name, sh, tuple(sorted(kw)))
    # the time derivative is the derivative of the field
    x = float(t[0])
    if float(ta[0]) > 0.3:
        h = 1e-3
        v = [c.call("b", m.vertical_magnetic_flux_horizontal_loop, x * (1 + i * h), **kw) for i in (-3, -2, -1, 1, 2, 3)]
        d = (np.array(v) @ np.array([-1, 9, -45, 45, -9, 1])) / (60 * h * x)
        g = c.call("db", m.vertical_magnetic_flux_time_deriv_horizontal_loop, x, **kw)
        sc = float(M * abs(I) * N / A) / x
        c.close("derivative of the flux", g, d, 1e-9 * sc)
        c.ev("derivatives")
    if c.idx % 40 == 0:
        for name in LOOPS:
            bulk.rows(c, "tdem " + name, lambda q: getattr(m, name)(q, **kw), [t], len(t))
    c.ev("tdem loop")


TARGETS = [("fdem_scalars", fdem_scalars, 1200, 40000), ("tdem_scalars", tdem_scalars, 800, 30000),
           ("fdem_loop", fdem_loop, 1000, 30000), ("tdem_loop", tdem_loop, 1000, 30000)]
REQUIRE = {"fdem scalars": 300, "tdem scalars": 300, "fdem loop": 200, "tdem loop": 200, "loop integrals": 50, "derivatives": 50}
