"""Harmonic electric and magnetic dipoles in a whole space."""
import numpy as np

import emcommon as em
import bulk
import gen
from core import CLD, EPS, LD
from ref_basic import PI, ld, norm

BUILD = None
C = 300
QUICK = 15
RULE = ("a case draws a dipole with every parameter off its default (location, orientation as letter or vector, "
        "moment or current times length, conductivity, permeability, permittivity), one or several frequencies "
        "(zero and repeated ones included), the quasi-static or the full regime, and points at distances from "
        "1e-3 to 100 wavelengths; every quantity is compared with an 80 bit evaluation of the solution of "
        "Maxwell's equations; a second target takes numerical curls and divergences of what the library "
        "returned; distinct = (dipole, regime, quantity, induction regime, call style)")
ASSUMPTIONS = ["the position of the dipole itself is excluded"]


def draw(c, which):
    rng = c.rng
    sigma, mu, eps = em.medium(rng)
    quasi = bool(rng.random() < 0.4)
    farg, f, lead = em.freq_like(rng, 1e-1, 1e8)
    oarg, o = gen.orientation(rng)
    k, w = em.wavenumber(f, sigma, mu, eps, quasi)
    kmax = float(np.abs(k).max())
    scale = min(max(gen.logu(rng, 1e-3, 30.0) / max(kmax, 1e-12), 1e-3), 1e6)
    loc = gen.location(rng, min(scale, 1e3))
    kw = dict(sigma=sigma, mu=mu, epsilon=eps, quasistatic=quasi, location=loc, orientation=oarg)
    if which == "E":
        cur, L = gen.swide(rng, 1e-2, 1e3), gen.logu(rng, 1e-2, 1e3)
        kw.update(current=cur, length=L)
        m = LD(cur) * LD(L)
    else:
        m = gen.swide(rng, 1e-2, 1e4)
        kw["moment"] = m
        m = LD(m)
    if rng.random() < 0.2:
        kw.pop("quasistatic")
        quasi = False
        k, w = em.wavenumber(f, sigma, mu, eps, quasi)
    c.note(which=which, frequency=farg, **{a: b for a, b in kw.items()})
    return kw, farg, f, lead, o, k, w, m, loc, scale, sigma, mu, eps, quasi


def dipole(c):
    from geoana.em import fdem
    which = "EM"[c.idx % 2]
    cls = fdem.ElectricDipoleWholeSpace if which == "E" else fdem.MagneticDipoleWholeSpace
    kw, farg, f, lead, o, k, w, m, loc, scale, sigma, mu, eps, quasi = draw(c, which)
    s = em.construct(c, cls, {"frequency": farg}, kw)
    P = gen.points(c.rng, 8, loc, scale * 0.05, scale * 3)
    c.note(P=P)
    d = ld(P) - ld(loc)
    pat, psz, rot, rsz, A, asz, kr = em.dipole_pattern(d, o, k[:, None])
    fac = EPS * C * (1 + kr) + 0 * kr
    # difference vectors are rounded once; exp(-ikr) amplifies by |kr|
    iw = (CLD(1j) * w * LD(mu))[:, None, None]
    if which == "E":
        sh = LD(sigma) + (0 if quasi else CLD(1j) * w * LD(eps))
        sh = np.broadcast_to(sh, w.shape)[:, None, None]
        Q = {"vector_potential": (m * A, abs(m) * asz),
             "electric_field": (m * pat / sh, abs(m) * psz / np.abs(sh[..., 0])),
             "magnetic_field": (m * rot, abs(m) * rsz)}
        sloppy = m * pat / LD(sigma)
        ssz = abs(m) * psz / LD(sigma)
    else:
        Q = {"vector_potential": (iw * m * A, np.abs(iw[..., 0] * m) * asz),
             "electric_field": (-iw * m * rot, np.abs(iw[..., 0] * m) * rsz),
             "magnetic_field": (m * pat, abs(m) * psz)}
        sloppy = ssz = None
    Q["current_density"] = tuple(LD(sigma) * x for x in Q["electric_field"])
    Q["magnetic_flux_density"] = tuple(LD(mu) * x for x in Q["magnetic_field"])
    for name, (want, size) in Q.items():
        got, n = gen.ask(c, name, getattr(s, name), P, lead=lead, styles=gen.COMMON)
        got = got.reshape((len(f), n, 3))
        tol = (fac * size)[:, :n, None] + em.TINY
        want = want[:, :n]
        key = which + " dipole " + name
        # the listed defect: sigma in place of the complex conductivity
        if sloppy is not None and name in ("electric_field", "current_density") and not quasi:
            bad = sloppy[:, :n] * (1 if name == "electric_field" else LD(sigma))
            btol = tol + (fac * ssz)[:, :n, None] * (1 if name == "electric_field" else LD(sigma))
            ex = np.abs(got.astype(CLD) - want) <= tol
            isbad = np.abs(got.astype(CLD) - bad) <= btol
            if not ex.all() and (ex | isbad).all():
                c.finding("sigma-for-sigma-hat")
                c.ev("finding-seen")
                c.evals += 1
                c.sig(which, name, "finding")
                continue
        c.close(key, got, want, tol)
        c.ev(which + ":" + ("quasistatic" if quasi else "full"))
        c.sig(which, name, quasi, round(float(np.log10(np.median(kr) + 1e-9))), len(lead), c.info.get("style"))
    if (f == 0).any():
        c.ev("zero frequency")


def maxwell(c):
    """Faraday, Ampere and the divergence conditions on what was returned, numerically."""
    from geoana.em import fdem
    which = "EM"[c.idx % 2]
    cls = fdem.ElectricDipoleWholeSpace if which == "E" else fdem.MagneticDipoleWholeSpace
    kw, farg, f, lead, o, k, w, m, loc, scale, sigma, mu, eps, quasi = draw(c, which)
    f = np.array([gen.logu(c.rng, 1e-1, 1e7)])
    k, w = em.wavenumber(f, sigma, mu, eps, quasi)
    r = min(gen.logu(c.rng, 1e-2, 5.0) / float(abs(k[0])), 1e5)
    kw["location"] = np.zeros(3)
    s = em.construct(c, cls, {"frequency": float(f[0])}, kw)
    x0 = gen.unit(c.rng) * r
    c.note(x0=x0, f=f)
    h = r * 2e-3
    # sixth order central differences
    co = np.array([-1 / 60, 3 / 20, -3 / 4, 0, 3 / 4, -3 / 20, 1 / 60]) / h
    pts = x0 + h * np.arange(-3, 4)[None, :, None] * np.eye(3)[:, None, :]

    def grad(fn):
        v = np.asarray(c.call("field", fn, pts.reshape(-1, 3))).reshape(3, 7, 3)
        return np.einsum("j,ijk->ik", co, v), v[0, 3]       # [i, k] = d_i F_k

    gE, E = grad(s.electric_field)
    gH, H = grad(s.magnetic_field)
    gB, B = grad(s.magnetic_flux_density)
    gA, A = grad(s.vector_potential)
    curl = lambda g: np.array([g[1, 2] - g[2, 1], g[2, 0] - g[0, 2], g[0, 1] - g[1, 0]])
    w, k = float(w[0]), complex(k[0])
    sh = sigma + (0 if quasi else 1j * w * eps)
    tol = 1e-9
    # magnitudes of a full dipole, so that directions in which a part vanishes keep a scale
    q = abs(k) * r
    ex = abs(np.exp(-1j * k * r)) / (4 * np.pi) * abs(float(m))
    big, small = ex / r ** 3 * (1 + q) ** 2 * 4, ex / r ** 2 * (1 + q) * 2
    Hs, Es = (small, big / sigma) if which == "E" else (big, small * w * mu)
    q1 = (1 + q) / r
    c.close(which + " div B", np.trace(gB), 0.0, tol * mu * Hs * q1)
    c.close(which + " div E", np.trace(gE), 0.0, tol * Es * q1)
    got = curl(gH)
    t1 = tol * (Hs * q1 + abs(sh) * Es)
    t2 = 8 * tol * (Es * q1 + w * mu * Hs * max(1.0, abs(sh) / sigma))
    if which == "E" and not quasi and not (np.abs(got - sh * E) <= t1).all() and (np.abs(got - sigma * E) <= t1).all():
        # the listed defect: sigma in place of the complex conductivity
        c.finding("sigma-for-sigma-hat")
        E, gE = E * (sigma / sh), gE * (sigma / sh)
    c.close(which + " curl H = (sigma + i w eps) E", got, sh * E, t1)
    c.close(which + " curl E = - i w mu H", curl(gE), -1j * w * mu * H, t2)
    if which == "E":
        c.close("E dipole curl A = H", curl(gA), H, tol * (ex / r * q1 + Hs))
    else:
        c.close("M dipole curl F = -E", curl(gA), -E, tol * (w * mu * ex / r * q1 + Es))
    c.ev("maxwell")
    c.sig("maxwell", which, quasi, round(float(np.log10(q))))


TARGETS = [("bulk", bulk.target("fdem.ElectricDipoleWholeSpace", "fdem.MagneticDipoleWholeSpace"), 9, 1620), ("dipole", dipole, 2500, 60000), ("maxwell", maxwell, 600, 20000)]
REQUIRE = {"E:quasistatic": 300, "E:full": 300, "M:quasistatic": 300, "M:full": 300, "maxwell": 200, "zero frequency": 20}
REQUIRE["many points"] = 20
