"""Harmonic magnetic dipole over a layered earth."""
import libdlf
import numpy as np
from scipy.constants import epsilon_0, mu_0

import emcommon as em
import bulk
import gen
import ref_hankel
import ref_layer
from checks.c15 import assemble
from core import CallRaised

BUILD = "plain"
QUICK = 8
RULE = ("a case draws a layered model (1 to 6 layers, properties per layer or per layer and frequency), "
        "frequencies, a dipole at or above the surface with any orientation, and receivers at or above the "
        "surface, and compares secondary or total field with numerical Sommerfeld integrals (Gauss-Legendre between "
        "Bessel zeros, Wynn's epsilon) of an independently written reflection recursion; further targets cut a "
        "layer in two, swap source and receiver (reciprocity) and read back the derived properties; distinct = "
        "(layers, frequencies, property forms, field, height ratio, orientation kind)")
ASSUMPTIONS = ["receivers straight above the source (zero horizontal offset) and frequency zero are excluded",
               "the tolerance is 5e-9 (5e-4 for source and receiver at the surface) of the image field plus three times "
               "the error that the published 101 point digital filter makes on the case, measured with the "
               "reference kernel"]


def model(c, nl=None):
    rng = c.rng
    nl = nl or int(rng.choice([1, 2, 2, 3, 4, 6]))
    farg, f, _ = em.freq_like(rng, 1.0, 3e5, spread=10, zero=0)
    nf = len(f)
    w = 2 * np.pi * f
    sig = gen.logu(rng, 1e-4, 1e1, nl)
    if rng.random() < 0.1:      # sea water to metal, or hardly conducting at all
        sig = sig * gen.logu(rng, 1e-4, 1e5)
    quasi = bool(rng.random() < 0.4)
    mode = rng.integers(4)
    if mode == 0:
        sig = np.full(nl, sig[0])
        sarg = float(sig[0])
        if rng.random() < 0.3:
            sarg = sarg * (1 + 1j * rng.uniform(0, 0.5))
        S = np.full((nl, nf), sarg) + 0j
    elif mode == 1 or nf == 0:
        sarg = [sig.copy(), sig.tolist(), tuple(sig.tolist()), sig + 0j, sig * (1 + 1j * rng.uniform(0, 0.5, nl))][rng.integers(5)]
        S = np.tile(np.array(sarg)[:, None], (1, nf)) + 0j
    else:
        S = sig[:, None] * gen.logu(rng, 0.5, 2, (nl, nf)) * (1 + 1j * rng.uniform(0, 0.5, (nl, nf)))
        sarg = S.copy() if mode == 2 else np.asfortranarray(S)
    mr = gen.logu(rng, 1, 20, nl)
    mmode = rng.integers(4)
    if mmode == 0:
        M, marg = np.full((nl, nf), mu_0 + 0j), mu_0
    elif mmode == 1:
        M, marg = np.full((nl, nf), mr[0] * mu_0 + 0j), float(mr[0] * mu_0)
    elif mmode == 2:
        marg = mr * mu_0 if rng.random() < 0.6 else mr * mu_0 * (1 + 1j * rng.uniform(0, 0.2, nl))
        M = np.tile(marg[:, None], (1, nf)) + 0j
    else:
        M = (mr[:, None] * gen.logu(rng, 1, 2, (nl, nf))) * mu_0 * (1 + 1j * rng.uniform(0, 0.2, (nl, nf)))
        marg = M.copy()
    # permittivity: kept below the conduction current, so that no branch point is near the path
    er = np.maximum(1.0, np.minimum(gen.logu(rng, 1, 80, nl), 0.3 * S.real.min(1) / (w.max() * epsilon_0)))
    emode = rng.integers(3)
    if emode == 0:
        er[:] = er.min()
        earg = float(er[0] * epsilon_0)
        Ep = np.tile((er * epsilon_0)[:, None], (1, nf))
    elif emode == 1:
        earg = er * epsilon_0
        Ep = np.tile((er * epsilon_0)[:, None], (1, nf))
    else:
        Ep = epsilon_0 * (1 + (er - 1)[:, None] * rng.uniform(0, 1, (nl, nf)))
        earg = Ep.copy()
    if (w.max() * er.max() * epsilon_0 > 0.5 * S.real.min()):
        quasi = True
    k = np.sqrt(w[0] * mu_0 * abs(S[:, 0]))
    h = gen.logu(rng, 1e-2, 3, nl - 1) / k[:-1] if nl > 1 else np.zeros(0)
    if nl == 1:
        harg = [None, np.zeros(0), []][rng.integers(3)]
    else:
        harg = [h.copy(), h.tolist(), tuple(h.tolist())][rng.integers(3)]
        if nl == 2 and rng.random() < 0.3:
            harg = float(h[0])
    Sh = S if quasi else S + 1j * w[None] * Ep
    rho = float(np.clip(gen.logu(rng, 1e-2, 10), 1e-2, 20) / k.max())
    c.note(f=farg, sigma=sarg, mu=marg, epsilon=earg, thickness=harg, quasistatic=quasi)
    return dict(farg=farg, f=f, nf=nf, nl=nl, S=S, Sh=Sh, M=M, Ep=Ep, h=h, quasi=quasi, rho=rho,
                kw=dict(sigma=sarg, mu=marg, epsilon=earg, quasistatic=quasi), harg=harg, forms=(int(mode), int(mmode), int(emode)))


def source(c, md, rho, q=None):
    rng = c.rng
    oarg, o = gen.orientation(rng)
    m = gen.swide(rng, 1e-2, 1e3)
    q = gen.logu(rng, 3e-3, 10) if q is None else q
    if rng.random() < 0.1:
        q = 0.0
    tot = q * rho
    hs = tot * [0.0, rng.uniform(0, 1), 1.0][rng.integers(3)]
    loc = np.array([*(rng.uniform(-2, 2, 2) * rho * rng.integers(2)), hs])
    ang = rng.uniform(0, 2 * np.pi, 3)
    ang[0] = rng.integers(4) * np.pi / 2
    rr = rho * gen.logu(rng, 0.7, 1.4, 3)
    P = np.c_[loc[:2] + np.stack([np.cos(ang), np.sin(ang)], -1) * rr[:, None], np.full(3, tot - hs)]
    P[:, 2] *= rng.uniform(0.8, 1.2, 3)
    c.note(location=loc, orientation=oarg, moment=m, P=P)
    return oarg, o.astype(float), m, loc, P


def build(c, md, oarg, m, loc):
    from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as M
    kw = dict(md["kw"], orientation=oarg, moment=m, location=loc)
    s = c.call("construct", M, frequency=md["farg"], thickness=md["harg"], **kw)
    return s


def ask(c, s, P, nf, field):
    rng = c.rng
    n = len(P)
    arg = [P.copy(), np.asfortranarray(P), np.repeat(P, 2, 0)[::2]][rng.integers(3)]
    out = c.call("magnetic_field", s.magnetic_field, arg, **({} if field == "secondary" and rng.random() < .5 else {"field": field}))
    want = tuple(a for a in (nf, n, 3) if a != 1)
    if not c.check(np.shape(out) == want, "shape", "shape %s, expected %s" % (np.shape(out), want)):
        raise CallRaised("shape")
    return np.reshape(out, (nf, n, 3))


def reference(md, o, m, loc, P):
    W = np.zeros((md["nf"], len(P), 3), complex)
    err = np.zeros((md["nf"], len(P)))
    for j, p in enumerate(P):
        d = p[:2] - loc[:2]
        r = np.hypot(*d)
        I = {}
        for q, pw in ((0, 2), (1, 2), (1, 1)):
            la = ref_hankel.nodes(q, r)
            R = ref_layer.fast(md["f"], la.ravel(), md["Sh"], md["M"], md["h"])
            I[q, pw], e = ref_hankel.transform(q, r, (R * np.exp(-la.ravel() * (p[2] + loc[2])) * la.ravel() ** pw)
                                               .reshape((md["nf"],) + la.shape))
            err[:, j] += e * r ** (3 if pw == 2 else 2)
        W[:, j] = assemble(I, d / r, r, o)
        # what the published filter makes of the same kernel: its error is allowed for
        base, j0, j1 = libdlf.hankel.key_101_2009()
        la = base / r
        K = ref_layer.fast(md["f"], la, md["Sh"], md["M"], md["h"]) * np.exp(-la * (p[2] + loc[2]))
        D = {(0, 2): (K * la ** 2) @ j0 / r, (1, 2): (K * la ** 2) @ j1 / r, (1, 1): (K * la) @ j1 / r}
        err[:, j] = 3 * np.abs(assemble(D, d / r, r, o) - W[:, j]).max(1) / (4 * np.pi) + err[:, j] / r ** 3
    return W * m / (4 * np.pi), err


def free(o, m, loc, P):
    d = P - loc
    r = np.linalg.norm(d, axis=1)[:, None]
    return m / (4 * np.pi) * (3 * (d @ o)[:, None] * d / r ** 5 - o / r ** 3)


def tolerance(m, loc, P):
    r = np.hypot(*(P - loc)[:, :2].T)
    q = (P[:, 2] + loc[2]) / r
    t = np.where(q > 0.1, 5e-9, np.where(q > 0.01, 1e-6, 5e-4))
    return t / r ** 3 * abs(m) / (4 * np.pi)


def field(c):
    md = model(c)
    oarg, o, m, loc, P = source(c, md, md["rho"])
    s = build(c, md, oarg, m, loc)
    which = ["secondary", "total"][c.rng.integers(2)]
    n = int(c.rng.integers(1, 4))
    P = P[:n]
    got = ask(c, s, P, md["nf"], which)
    W, err = reference(md, o, m, loc, P)
    tol = tolerance(m, loc, P)[None, :] + err * abs(m)
    extra = 0
    if which == "total":
        pr = free(o, m, loc, P)
        W = W + pr[None]
        extra = 1e-13 * np.abs(pr).max(1)[None, :] * 10
    c.close(which + " field", got, W, (tol + extra)[..., None])
    c.ev("integrals", md["nf"] * n * 3)
    c.ev("layers:%d" % md["nl"])
    c.sig(md["nl"], md["nf"] > 1, md["forms"], which, md["quasi"])


def exact_parts(c):
    """total - secondary is the free dipole; cutting a layer or repeating it changes nothing."""
    md = model(c, nl=int(c.rng.choice([2, 3, 4])))
    oarg, o, m, loc, P = source(c, md, md["rho"])
    s = build(c, md, oarg, m, loc)
    sec = ask(c, s, P, md["nf"], "secondary")
    tot = ask(c, s, P, md["nf"], "total")
    pr = free(o, m, loc, P)
    size = np.abs(pr).max(1) + np.abs(sec).max((0, 2))
    c.close("total - secondary = free dipole", tot - sec, np.broadcast_to(pr, tot.shape) + 0j,
            (1e-13 * size)[None, :, None] * (1 + np.abs(loc).max() / md["rho"]))
    j = int(c.rng.integers(md["nl"]))
    h = md["h"]
    if j < md["nl"] - 1:
        a = c.rng.uniform(0.1, 0.9) * h[j]
        h2 = np.concatenate([h[:j], [a, h[j] - a], h[j + 1:]])
    else:
        h2 = np.append(h, gen.logu(c.rng, 0.1, 2) * h[-1])
    rep = np.where(np.arange(md["nl"]) == j, 2, 1)
    md2 = dict(md, h=h2, harg=h2, kw=dict(sigma=np.repeat(md["S"], rep, 0), mu=np.repeat(md["M"], rep, 0),
                                           epsilon=np.repeat(md["Ep"], rep, 0), quasistatic=md["quasi"]))
    s2 = build(c, md2, oarg, m, loc)
    sec2 = ask(c, s2, P, md["nf"], "secondary")
    r = np.hypot(*(P - loc)[:, :2].T)
    c.close("cut layer", sec2, sec, (1e-10 * abs(m) / r ** 3)[None, :, None])
    c.ev("cuts")
    # one frequency alone, one receiver alone
    i = int(c.rng.integers(md["nf"]))
    md3 = dict(md, farg=float(md["f"][i]), kw=dict(sigma=md["S"][:, i:i + 1], mu=md["M"][:, i:i + 1],
                                                   epsilon=md["Ep"][:, i:i + 1], quasistatic=md["quasi"]))
    s3 = build(c, md3, oarg, m, loc)
    one = ask(c, s3, P[1:2], 1, "secondary")
    c.close("one frequency, one receiver", one[0, 0], sec[i, 1], 1e-11 * abs(m) / r[1] ** 3)
    c.ev("alone")
    c.sig("parts", md["nl"], j, md["forms"])


def reciprocity(c):
    """n.H(m) at P = m.H(n) at the source."""
    md = model(c)
    oarg, o, m, loc, P = source(c, md, md["rho"], q=gen.logu(c.rng, 0.1, 5))
    s = build(c, md, oarg, 1.0, loc)
    p = P[0]
    n = gen.direction(c.rng)
    s2 = build(c, md, n, 1.0, p)
    a = ask(c, s, p[None], md["nf"], "secondary")[:, 0] @ n
    b = ask(c, s2, loc[None], md["nf"], "secondary")[:, 0] @ o
    t = tolerance(1.0, loc, p[None])[0]
    c.close("reciprocity", a, b, 4 * t)
    c.ev("reciprocal pairs")
    c.sig("recip", md["nl"], md["forms"])


def props(c):
    """What is read back is what the model is made of."""
    md = model(c)
    oarg, o, m, loc, P = source(c, md, md["rho"])
    s = build(c, md, oarg, m, loc)
    nl, nf = md["nl"], md["nf"]
    full = lambda a: np.tile(a[:, None], (1, nf)) if np.ndim(a) == 1 else a
    c.close("frequency", s.frequency, md["f"], 0)
    c.close("thickness", s.thickness, md["h"], 0)
    c.close("sigma", full(s.sigma), md["S"], 1e-15 * abs(md["S"]))
    c.close("mu", full(s.mu), md["M"], 1e-15 * abs(md["M"]))
    c.close("epsilon", full(s.epsilon), md["Ep"] + 0j, 1e-15 * abs(md["Ep"]))
    try:
        got = s.sigma_hat
    except Exception as e:
        got = e
    w = 2 * np.pi * md["f"]
    want = (md["S"] if md["quasi"] else md["S"] + 1j * w[None] * md["Ep"]).T     # (n_freq, n_layer)
    ok = isinstance(got, np.ndarray) and got.shape == want.shape and np.allclose(got, want, rtol=1e-13, atol=0)
    okT = isinstance(got, np.ndarray) and got.shape == want.T.shape and np.allclose(got, want.T, rtol=1e-13, atol=0)
    if ok or okT:
        c.evals += 1
        c.ev("sigma_hat exact")
    else:
        # the listed defect: frequency[:, None] against (n_layer, n_freq)
        try:
            bad = (md["S"] + 1j * w[:, None] * md["Ep"]).T
            same = isinstance(got, np.ndarray) and got.shape == bad.shape and np.allclose(got, bad, rtol=1e-13, atol=0)
        except ValueError:
            same = isinstance(got, ValueError)
        if same:
            c.finding("layered-sigma-hat")
            c.ev("sigma_hat finding")
        else:
            c.check(False, "sigma_hat", "sigma_hat is neither the complex conductivity nor the listed defect: %r" % (got,))
    c.sig("props", nl, nf)


TARGETS = [("bulk", bulk.target("fdem.MagneticDipoleLayeredHalfSpace"), 8, 768), ("field", field, 900, 30000), ("exact_parts", exact_parts, 500, 20000),
           ("reciprocity", reciprocity, 300, 15000), ("props", props, 300, 6000)]
REQUIRE = {"integrals": 1500, "layers:1": 50, "layers:6": 50, "cuts": 200, "reciprocal pairs": 100, "alone": 100,
           "sigma_hat exact": 20}
REQUIRE["many points"] = 20
