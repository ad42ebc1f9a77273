"""Sensitivities of the TE reflection coefficient."""
import numpy as np

import build
import gen
import loader
import ref_layer
from checks import c03
from core import EPS, LD

BUILD = "plain"
QUICK = 6
RULE = ("as C03, but every derivative (conductivity, thickness and permeability of every layer, at every frequency "
        "and wavenumber) of the compiled and the NumPy kernel is compared with forward-mode differentiation of an "
        "independent 80 bit recursion; the tolerance is the rounding error measured by running that program with "
        "random noise; distinct = (implementation, layers, frequencies, model kind)")
ASSUMPTIONS = ["frequency zero is excluded", "zero wavenumber is excluded (the derivative vanishes identically)"]
NAMES = ("d rTE / d sigma", "d rTE / d thickness", "d rTE / d mu")


def setup(tier, seed):
    c03.setup(tier, seed)


def deep(c):
    """Hundreds of layers, all of which matter."""
    gradient(c, int(c.rng.choice([140, 260, 520])) + int(c.rng.integers(3)))


def gradient(c, nl=None):
    f, lam, sigma, mu, h, kind = c03.model(c.rng, nl=nl, deep=0)
    if nl:
        f, lam, sigma, mu = f[:1], lam[:2], sigma[:, :1], mu[:, :1]
    lam = np.where(lam == 0, 1e-3, lam)
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h)
    ref, tol = ref_layer.with_error(c.idx, f, lam, sigma, mu, h, grad=True)
    if not all(np.isfinite(a).all() for a in ref):
        c.ev("reference overflow")
        return
    arrs = [c03.layout(c.rng, a) for a in (f, lam, sigma, mu, h)]
    for name, (_, grad) in c03.IMPL.items():
        got = c.call(name + " rTE_gradient", grad, *arrs)
        if not c.check(isinstance(got, tuple) and len(got) == 3, name, "three arrays expected"):
            continue
        for q, g, r, t in zip(NAMES, got, ref[1:], tol[1:]):
            c.close(name + " " + q, g, r, t + 1e-280)
            c.ev(q, int(np.size(g)))
        c.sig(name, len(h), len(f), kind)
        c.ev("layers:%d" % (len(h) + 1) if len(h) < 100 else "over a hundred layers")


def large(c):
    """Many frequencies, wavenumbers or layers at once."""
    rng = c.rng
    f, lam, sigma, mu, h, kind = c03.model(rng, wild=False)
    lam = np.where(lam == 0, 1e-3, lam)
    nf, nw = [(1, 5000), (300, 3), (64, 300), (2000, 1), (33, 1025), (1, 40000)][rng.integers(6)]
    i, j = rng.integers(len(f), size=nf + int(rng.integers(3))), rng.integers(len(lam), size=nw + int(rng.integers(3)))
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h, shape=(nf, nw))
    _, tols = ref_layer.with_error(c.idx, f, lam, sigma, mu, h, grad=True)
    for name, fns in c03.IMPL.items():
        small = fns[1](f, lam, sigma, mu, h)
        big = c.call(name, fns[1], f[i], lam[j], sigma[:, i], mu[:, i], h)
        for a, b, t in zip(small, big, tols[1:]):
            want, t = a[..., i, :][..., j], t[..., i, :][..., j]
            if c.check(b.shape == want.shape, name + ":shape", "shape %s" % (b.shape,)):
                c.check(bool((np.abs(b - want) <= 2 * t + 1e-11 * np.abs(want) + 1e-280).all()), name + " large",
                        "values change with the size of the request")
    c.ev("large")
    c.sig("large", nf, nw, len(h))


TARGETS = [("deep", deep, 2, 120), ("large", large, 12, 600), ("gradient", gradient, 1500, 50000)]
REQUIRE = {NAMES[0]: 5000, NAMES[1]: 5000, NAMES[2]: 5000, "layers:1": 100, "layers:8": 50, "over a hundred layers": 5}
