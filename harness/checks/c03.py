"""Forward TE reflection coefficients against the plane-layer recursion."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import build
import gen
import loader
import ref_layer
from core import CLD, EPS, LD

BUILD = "plain"
QUICK = 5
RULE = ("a case draws a layered model (1 to 8 layers, now and then hundreds, thicknesses from millimetres to kilometres, real or complex "
        "frequency dependent conductivity over ten decades, permeability up to 100 times vacuum, layouts of the "
        "arrays), frequencies 1e-8 to 1e11 Hz and wavenumbers from 0 to 1e3, and compares the compiled and the "
        "NumPy kernel with an 80 bit recursion; the tolerance is the rounding error measured by running the "
        "recursion with random noise; distinct = (implementation, layers, frequencies, model kind, layout)")
ASSUMPTIONS = ["frequency zero is excluded"]
IMPL = {}


def setup(tier, seed):
    so = build.build("plain")
    for name, cfg in (("compiled", loader.Config(so)), ("numpy", loader.Config(None))):
        m = cfg["kernels"]
        IMPL[name] = m.rTE_forward, m.rTE_gradient
    loader.use(so)


def model(rng, wild=True, nl=None, deep=0.01):
    nl = nl or int(rng.choice([1, 1, 2, 2, 3, 4, 5, 8])) + (int(rng.choice([9, 25, 60])) if rng.random() < 0.02 else 0)
    many = nl >= 100
    if wild and nl < 9 and rng.random() < deep:
        many = True
        nl = int(rng.choice([140, 300, 700, 1100]) + rng.integers(3))
    nf = int(rng.choice([1, 1, 2, 3, 5]))
    nlam = int(rng.choice([1, 2, 3, 7]))
    f = gen.logu(rng, *((1e-8, 1e11) if rng.random() < 0.25 else (1e-3, 1e8)), nf) if wild else gen.logu(rng, 1.0, 1e5, nf)
    f = f[rng.permutation(nf)]
    sigma = gen.logu(rng, 1e-8, 1e2, (nl, 1)) * np.ones((1, nf)) + 0j
    kind = rng.integers(4)
    if kind == 1:
        sigma = sigma + 2j * np.pi * f * epsilon_0 * gen.logu(rng, 1, 80, (nl, 1))
    elif kind == 2:
        sigma = sigma * gen.logu(rng, 0.2, 5, (nl, nf)) + 1j * gen.logu(rng, 1e-10, 1e-3, (nl, nf))
    mu = mu_0 * np.ones((nl, nf), complex)
    mk = rng.integers(4)
    if mk == 1:
        mu = mu * gen.logu(rng, 1, 100, (nl, 1))
    elif mk == 2:
        mu = mu * (gen.logu(rng, 1, 100, (nl, nf)) + 1j * rng.uniform(0, 0.5, (nl, nf)))
    # wavenumbers around the skin depth of some layer, and anywhere
    k = np.sqrt(2 * np.pi * f[0] * mu_0 * abs(sigma[rng.integers(nl), 0]))
    lam = k * gen.logu(rng, 1e-3, 1e3, nlam) if rng.random() < 0.7 else gen.logu(rng, 1e-6, 1e3, nlam)
    if wild and rng.random() < 0.05:
        lam[rng.integers(nlam)] = 0.0
    if rng.random() < 0.7:      # layers that matter: a fraction of the skin depth or of 1/lambda
        h = gen.logu(rng, 1e-2, 5, nl - 1) / max(float(np.median(lam)), k)
    else:
        h = gen.logu(rng, 1e-3, 1e4, nl - 1)
    if many:
        h = h * (4 / nl)
    if wild and nl > 1 and rng.random() < 0.05:
        h[rng.integers(nl - 1)] = 0.0
    return f, lam, sigma, mu, h, (int(kind), int(mk))


def layout(rng, a):
    k = rng.integers(5)
    if k == 0 or a.size == 0:
        return a.copy()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.repeat(a, 2, axis=-1)[..., ::2]
        return b
    if k == 3:
        b = a[::-1].copy()[::-1]
        return b
    b = a.copy()
    b.flags.writeable = False
    return b


def forward(c):
    f, lam, sigma, mu, h, kind = model(c.rng)
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h)
    if np.all(sigma.imag == 0) and c.rng.random() < 0.2 and np.all(mu.imag == 0):
        arrs = [layout(c.rng, a) for a in (f, lam, sigma.real.copy(), mu.real.copy(), h)]
    else:
        arrs = [layout(c.rng, a) for a in (f, lam, sigma, mu, h)]
    (ref,), (tol,) = ref_layer.with_error(c.idx, f, lam, sigma, mu, h)
    if not np.isfinite(ref).all():
        c.ev("reference overflow")
        return
    for name, (fwd, _) in IMPL.items():
        got = c.call(name + " rTE_forward", fwd, *arrs)
        c.close(name + " rTE", got, ref, tol)
        # passive earth: |rTE| <= 1 for real lambda holds for real conductivity
        if np.all(sigma.imag == 0) and np.all(mu.imag == 0):
            c.check(bool((np.abs(got) <= 1 + 1e-9).all()), name + " passivity", "|rTE| > 1 for a passive earth")
        c.sig(name, len(h), len(f), kind)
        c.ev("layers:%d" % (len(h) + 1) if len(h) < 100 else "over a hundred layers")
    if len(f) > 1 or len(lam) > 1:
        i, j = c.rng.integers(len(f)), c.rng.integers(len(lam))
        one = c.call("rTE_forward", IMPL["compiled"][0], f[i:i + 1], lam[j:j + 1], sigma[:, i:i + 1], mu[:, i:i + 1], h)
        c.close("one pair alone", one, ref[i:i + 1, j:j + 1], tol[i:i + 1, j:j + 1])
        c.ev("alone")


def splitting(c):
    """A layer cut into pieces of the same material changes nothing."""
    f, lam, sigma, mu, h, kind = model(c.rng, wild=False, nl=int(c.rng.integers(2, 5)))
    j = int(c.rng.integers(len(h)))
    a = c.rng.uniform(0.05, 0.95)
    h2 = np.concatenate([h[:j], [a * h[j], h[j] - a * h[j]], h[j + 1:]])
    s2, m2 = np.repeat(sigma, np.where(np.arange(len(sigma)) == j, 2, 1), 0), np.repeat(mu, np.where(np.arange(len(sigma)) == j, 2, 1), 0)
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h, cut=j)
    (_,), (t1,) = ref_layer.with_error(c.idx, f, lam, sigma, mu, h)
    (_,), (t2,) = ref_layer.with_error(c.idx, f, lam, s2, m2, h2)
    for name, (fwd, _) in IMPL.items():
        r1 = c.call(name, fwd, f, lam, sigma, mu, h)
        r2 = c.call(name, fwd, f, lam, s2, m2, h2)
        c.close(name + " split layer", r2, r1, t1 + t2)
    c.ev("splits")
    c.sig("split", len(h), j)


def large(c):
    """Many frequencies, wavenumbers or layers at once."""
    rng = c.rng
    f, lam, sigma, mu, h, kind = model(rng, wild=False)
    lam = np.where(lam == 0, 1e-3, lam)
    nf, nw = [(1, 5000), (300, 3), (64, 300), (2000, 1), (33, 1025), (1, 70000), (5, 34000)][rng.integers(7)]
    i, j = rng.integers(len(f), size=nf + int(rng.integers(3))), rng.integers(len(lam), size=nw + int(rng.integers(3)))
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h, shape=(nf, nw))
    _, tols = ref_layer.with_error(c.idx, f, lam, sigma, mu, h)
    for name, fns in IMPL.items():
        small = fns[0](f, lam, sigma, mu, h)
        big = c.call(name, fns[0], f[i], lam[j], sigma[:, i], mu[:, i], h)
        for a, b, t in zip([small], [big], tols):
            want, t = a[..., i, :][..., j], t[..., i, :][..., j]
            if c.check(b.shape == want.shape, name + ":shape", "shape %s" % (b.shape,)):
                c.check(bool((np.abs(b - want) <= 2 * t + 1e-11 * np.abs(want) + 1e-280).all()), name + " large",
                        "values change with the size of the request")
    c.ev("large")
    c.sig("large", nf, nw, len(h))


TARGETS = [("large", large, 20, 1000), ("forward", forward, 1500, 60000), ("splitting", splitting, 300, 10000)]
REQUIRE = {"splits": 100, "alone": 300, "layers:1": 100, "layers:8": 50, "over a hundred layers": 5}
