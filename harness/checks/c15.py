"""Harmonic magnetic dipole on the surface of a half-space."""
import numpy as np
from scipy.constants import epsilon_0, mu_0
from scipy.special import ive, kve

import emcommon as em
import bulk
import gen
import ref_hankel
import ref_layer
from core import CLD, EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 200
QUICK = 4
RULE = ("a case draws a dipole on the surface (position, any orientation, moment), conductivity, permittivity, "
        "regime, frequencies and surface receivers with induction numbers |k| r from 1e-2 to 1e5, and compares the "
        "secondary or total field with 80 bit evaluations of the half-space solution; a second target compares "
        "with direct numerical Sommerfeld integrals of the reflection coefficient, which share no formula with "
        "the code; distinct = (orientation kind, field, induction decade, frequencies, point shape)")
ASSUMPTIONS = ["frequency zero and a receiver at the source are excluded",
               "low induction numbers are judged with the cancellation error of the closed form"]


def draw(c, lo, hi, lossy=False):
    rng = c.rng
    sigma = gen.wide(rng, 1e-5, 1e1, 1e5, 0.1)
    eps = epsilon_0 * gen.logu(rng, 1, 80)
    quasi = bool(rng.random() < 0.5)
    farg, f, lead = em.freq_like(rng, 1.0, 1e6, spread=5, zero=0)
    oarg, o = gen.orientation(rng)
    m = gen.swide(rng, 1e-2, 1e3)
    w = 2 * np.pi * f
    if lossy and w.max() * eps > sigma:     # keep the branch point off the path of integration
        quasi = True
    sh = sigma + (0j if quasi else 1j * w * eps) + 0 * w
    k = np.sqrt(-1j * w * mu_0 * sh)
    kr = gen.logu(rng, lo, hi)
    r0 = kr / np.abs(k).max()
    loc = np.zeros(3)
    if rng.random() < 0.6:
        loc[:2] = rng.uniform(-1, 1, 2) * r0
    ang = rng.uniform(0, 2 * np.pi, 6)
    ang[0] = rng.integers(4) * np.pi / 2
    rr = r0 * gen.logu(rng, 0.3, 1.0, 6)
    P = loc[:2] + np.stack([np.cos(ang), np.sin(ang)], -1) * rr[:, None]
    P[0] = loc[:2]
    P[0, rng.integers(2)] += gen.sgn(rng) * rr[0]        # exactly along an axis
    kw = dict(sigma=sigma, epsilon=eps, quasistatic=quasi, location=loc, orientation=oarg, moment=m)
    c.note(frequency=farg, P=P, **kw)
    return kw, farg, f, lead, o, m, sh, k, loc, P, quasi


def build(c, farg, kw):
    from geoana.em.fdem import MagneticDipoleHalfSpace
    return em.construct(c, MagneticDipoleHalfSpace, {"frequency": farg}, kw)


def ask(c, s, P, lead, nf, field):
    rng = c.rng
    style = ["n2", "n3", "grid", "single", "strided", "readonly"][rng.integers(6)]
    A = P
    if style == "n3":
        A = np.c_[P, np.zeros(len(P))]
    arg, loc = A.copy(), (len(P),)
    if style == "grid":
        arg, loc = A.reshape(2, 3, 2), (2, 3)
    elif style == "single":
        arg, loc = A[0].copy(), ()
    elif style == "strided":
        arg = np.repeat(A, 2, 0)[::2]
    elif style == "readonly":
        arg.flags.writeable = False
    c.note(style=style, field=field)
    out = c.call("magnetic_field", s.magnetic_field, arg, **({} if field == "secondary" and rng.random() < .5 else {"field": field}))
    full = tuple(lead) + loc + (3,)
    want = tuple(n for n in full if n != 1)
    n = int(np.prod(loc)) if loc else 1
    if not c.check(np.shape(out) == want, "shape", "shape %s, expected %s" % (np.shape(out), want)):
        return None, n
    return np.reshape(out, (nf, n, 3)), n


def primary(d, o):
    d3 = np.concatenate([d, np.zeros((len(d), 1), LD)], 1)
    r = norm(d3)[:, None]
    return 3 * (d3 @ o)[:, None] * d3 / r ** 5 - o / r ** 3


def exact_radial(f, sh, r):
    """Per (frequency, distance), times r^3: Hz of a unit vertical dipole, the vertical/radial
    coupling z^2 (I1K1 - I2K2), and the two horizontal functions; 80 bit."""
    q = CLD(-1j) * 2 * PI * ld(f) * LD(mu_0) * np.asarray(sh, CLD)
    k = np.sqrt(q)
    z = k[:, None] * ld(r)[None]
    i = CLD(1j)
    e = np.exp(-i * z)
    hz = 2 / z ** 2 * (9 - (9 + 9 * i * z - 4 * z ** 2 - i * z ** 3) * e)
    phi = 2 / z ** 2 * (3 + z ** 2 - (3 + 3 * i * z - z ** 2) * e)
    dphi = 2 / z ** 2 * (-2 * z ** 2 - 12 + (-i * z ** 3 - 5 * z ** 2 + 12 * i * z + 12) * e)
    a = i * z / 2

    def series(nu):
        s = np.ones(a.shape, CLD)
        t = np.ones(a.shape, CLD)
        for n in range(1, 25):
            t = -t * LD(2 * n - 1) / (2 * n) * (4 * nu * nu - (2 * n - 1) ** 2) / (4 * a * a)
            s = s + np.where(np.abs(a) > 40, t, 0)
        return s / (2 * a)
    ad = a.astype(complex)
    with np.errstate(all="ignore"):
        d = ive(1, ad) * kve(1, ad) - ive(2, ad) * kve(2, ad)
        d = d * np.exp(-1j * ad.imag)
        use = (np.abs(ad) > 40) & (ad.real > 30)
        d = np.where(use, series(1) - series(2), d)
    return np.stack([hz, z ** 2 * d, phi, dphi])


def closed(c):
    decade = c.idx % 4
    lo, hi = [(1e-2, 1.0), (0.3, 10.0), (3.0, 300.0), (100.0, 1e5)][decade]
    kw, farg, f, lead, o, m, sh, k, loc, P, quasi = draw(c, lo, hi)
    s = build(c, farg, kw)
    field = ["secondary", "total"][c.rng.integers(2)]
    got, n = ask(c, s, P, lead, len(f), field)
    if got is None:
        return
    P = P[:n]
    d = ld(P) - ld(loc[:2])
    r = norm(d)
    rh = d / r[:, None]
    hz, ik, phi, dphi = exact_radial(f, sh, r)           # all times r^3
    r3 = r ** 3
    oh = o[:2]
    md = rh @ oh
    W = np.zeros((len(f), n, 3), CLD)
    W[..., 2] = (o[2] * hz - md * ik) / r3
    # horizontal: -(oh - rh(oh.rh)) phi/r^3... written with the radial and tangential parts
    tang = oh[None] - md[:, None] * rh
    W[..., :2] = (o[2] * ik / r3)[..., None] * rh - (phi / r3)[..., None] * tang - ((dphi * md) / r3)[..., None] * rh
    if field == "secondary":
        W = W - primary(d, o)[None]
    W = W * LD(m) / (4 * PI)
    kr = np.abs(k)[:, None] * r.astype(float)
    size = 18 / kr ** 2 + 5 + np.minimum(kr, 1e300) * 2 + kr ** 3 * np.exp(np.clip(np.imag(k)[:, None] * r.astype(float), -700, 0))
    tol = C * EPS * size / r3.astype(float) * abs(m) / (4 * np.pi)
    c.close("closed form " + field, got, W, tol[..., None] + em.TINY)
    c.ev("decade%d" % decade)
    c.sig(field, decade, quasi, len(lead), c.info["style"], np.count_nonzero(o))


def sommerfeld(c):
    kw, farg, f, lead, o, m, sh, k, loc, P, quasi = draw(c, 1e-2, 40.0, lossy=True)
    s = build(c, farg, kw)
    field = ["secondary", "total"][c.rng.integers(2)]
    got, n = ask(c, s, P, lead, len(f), field)
    if got is None:
        return
    d = ld(P[:n]) - ld(loc[:2])
    r = norm(d).astype(float)
    W = np.zeros((len(f), n, 3), complex)
    o_ = o.astype(float)
    for j in range(n):
        I = {}
        for q, p in ((0, 2), (1, 2), (1, 1)):
            la = ref_hankel.nodes(q, r[j])
            R = ref_layer.fast(f, la.ravel(), sh[None], np.full((1, len(f)), mu_0), [])
            I[q, p], err = ref_hankel.transform(q, r[j], (R * la.ravel() ** p).reshape((len(f),) + la.shape))
        W[:, j] = assemble(I, (d[j] / norm(d[j:j + 1])[0]).astype(float), r[j], o_)
    if field == "total":
        W = W + primary(d, o)[None].astype(complex)
    W *= m / (4 * np.pi)
    c.close("Sommerfeld integral " + field, got, W, (3e-8 * abs(m) / (4 * np.pi) / r ** 3)[None, :, None])
    c.ev("integrals", len(f) * n)
    c.sig("sommerfeld", field, quasi, round(float(np.log10(np.abs(k).max() * r.max()))))


def assemble(I, rh, r, o):
    W = np.zeros((len(I[0, 2]), 3), complex)
    md = o[:2] @ rh
    W[:, 2] = o[2] * I[0, 2] - md * I[1, 2]
    W[:, :2] = (o[2] * I[1, 2])[:, None] * rh + (I[1, 1] / r)[:, None] * o[:2] \
        + md * rh * (I[0, 2] - 2 * I[1, 1] / r)[:, None]
    return W


TARGETS = [("bulk", bulk.target("fdem.MagneticDipoleHalfSpace"), 16, 768), ("closed", closed, 4000, 100000), ("sommerfeld", sommerfeld, 800, 30000)]
REQUIRE = {"decade%d" % i: 50 for i in range(4)}
REQUIRE["integrals"] = 200
REQUIRE["many points"] = 20
