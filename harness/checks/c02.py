"""Compiled, pure NumPy and numba-jitted kernels side by side."""
import numpy as np

import build
import bulk
import gen
import loader
import prismcommon as pc
import ref_layer
import ref_prism as rp
from checks import c03, c07, c08, c16
from core import EPS, LD

BUILD = "plain"
QUICK = 6
RULE = ("a case makes the same request of the package with its extension modules, of the package without them, and "
        "(prism kernels) of a numba no-python function that calls the kernel; shapes, dtypes and values have to agree, "
        "kernel by kernel and for the fields of prisms and layered earths built on them; distinct = (kernel or "
        "quantity, kind of input, array form)")
ASSUMPTIONS = ["the NumPy fallback takes arrays of one shape only, so scalars and broadcasting are not compared",
               "frequency zero, zero wavenumbers for gradients, and coordinates whose squares overflow are excluded",
               "a fault common to all implementations is left to C03, C04 and C05"]
CFG, JIT = {}, {}


def setup(tier, seed):
    so = build.build("plain")
    CFG["compiled"], CFG["numpy"] = loader.Config(so), loader.Config(None)
    loader.use(so)
    import geoana.kernels as K
    c03.IMPL.update({n: (g["kernels"].rTE_forward, g["kernels"].rTE_gradient) for n, g in CFG.items()})
    try:
        import numba
    except ImportError:
        numba = None
    if numba:
        for name in rp.NAMES:
            fn = getattr(K, name)
            src = ("def loop(x, y, z):\n    out = np.empty(x.size)\n    for i in range(x.size):\n"
                   "        out[i] = fn(x[i], y[i], z[i])\n    return out\n")
            ns = {"np": np, "fn": fn}
            exec(src, ns)
            JIT[name] = numba.njit(ns["loop"])
            try:
                JIT[name](np.ones(2), np.ones(2), np.ones(2))
            except Exception as e:          # judged in the run
                JIT[name] = e


KINDS = ("generic", "axis", "plane", "zero", "near-axis", "wide", "integer", "negative-axis")


def nodes(rng, kind, n):
    x = gen.signed(rng, 1e-3, 1e3, (n, 3))
    if kind == "axis" or kind == "negative-axis":
        a = rng.integers(3, size=n)
        s = np.abs(x[np.arange(n), a])
        x[:] = 0
        x[np.arange(n), a] = -s if kind == "negative-axis" else s
    elif kind == "plane":
        x[np.arange(n), rng.integers(3, size=n)] = rng.choice([0.0, -0.0])
    elif kind == "zero":
        x[::2] = 0
    elif kind == "near-axis":
        a = rng.integers(3, size=n)
        s = x[np.arange(n), a]
        x *= gen.logu(rng, 1e-14, 1e-3, (n, 1))
        x[np.arange(n), a] = s
    elif kind == "wide":
        x = gen.signed(rng, 1e-30, 1e30, (n, 3))
    elif kind == "integer":
        x = np.round(rng.uniform(-3, 3, (n, 3)))
    return x


def kernel(c):
    rng = c.rng
    name = rp.NAMES[c.idx % 9]
    kind = KINDS[(c.idx // 9) % len(KINDS)]
    sh = [(), (1,), (12,), (3, 4), (2, 3, 2), (0,)][rng.integers(6)]
    n = int(np.prod(sh)) if sh else 1
    X = nodes(rng, kind, max(n, 1))[:n]
    lay = ["c", "f", "strided", "reversed", "readonly"][rng.integers(5)]
    args = []
    for k in range(3):
        a = X[:, k].reshape(sh)
        if lay == "f" and sh:
            a = np.asfortranarray(a)
        elif lay == "strided" and sh:
            a = np.repeat(a, 2, -1)[..., ::2]
        elif lay == "reversed" and sh:
            a = a[::-1].copy()[::-1]
        else:
            a = a.copy() if sh else np.array(a)
        if lay == "readonly":
            a.flags.writeable = False
        args.append(a)
    c.note(kernel=name, kind=kind, shape=sh, layout=lay, nodes=X)
    got = {k: np.asarray(c.call("%s (%s)" % (name, k), getattr(g["kernels"], name), *args))
           for k, g in CFG.items()}
    v, m, al = rp.corner(name, *[X[:, k].astype(LD) for k in range(3)])
    tol = (100 * EPS * m + 4 * al).reshape(sh)
    for k, g in got.items():
        c.check(g.shape == sh and g.dtype == np.float64, name + ":form", "%s: shape %s dtype %s" % (k, g.shape, g.dtype))
    c.close(name, got["numpy"], got["compiled"], tol)
    c.check(bool(np.isfinite(got["compiled"]).all() == np.isfinite(got["numpy"]).all()), name + ":finite", "finiteness differs")
    if name in JIT:
        j = JIT[name]
        if c.check(not isinstance(j, Exception), name + ":numba", "not callable in no-python mode: %s" % (j,)):
            w = c.call(name + " (numba)", j, *[np.ascontiguousarray(X[:, k]) for k in range(3)])
            c.close(name + " (numba)", w.reshape(sh), got["compiled"], 8 * EPS * np.abs(got["compiled"]))
            c.ev("numba")
    if c.idx % 360 < 9 and n:
        ok = np.isfinite(got["compiled"].reshape(n))
        for k, g in CFG.items():
            bulk.rows(c, "%s (%s)" % (name, k), lambda x, y, z: getattr(g["kernels"], name)(x, y, z), [X[ok, i].copy() for i in range(3)], int(ok.sum()))
    c.ev("kernel:" + kind)
    c.sig(name, kind, sh, lay)


def reflection(c):
    rng = c.rng
    f, lam, sigma, mu, h, kind = c03.model(rng, deep=0)
    real = bool(np.all(sigma.imag == 0) and np.all(mu.imag == 0) and rng.random() < 0.4)
    if real:
        sigma, mu = sigma.real.copy(), mu.real.copy()
    grad = c.idx % 2 == 1
    if grad:
        lam = np.where(lam == 0, 1e-3, lam)
    ref, tol = ref_layer.with_error(c.idx, f, lam, sigma + 0j, mu + 0j, h, grad=grad)
    if not all(np.isfinite(a).all() for a in ref):
        c.ev("reference overflow")
        return
    arrs = [c03.layout(rng, a) for a in (f, lam, sigma, mu, h)]
    c.note(f=f, lam=lam, sigma=sigma, mu=mu, h=h, gradient=grad)
    got = {k: c.call(k, (g["kernels"].rTE_gradient if grad else g["kernels"].rTE_forward), *arrs) for k, g in CFG.items()}
    a, b = (v if grad else (v,) for v in (got["compiled"], got["numpy"]))
    names = ("sigma", "thickness", "mu") if grad else ("rTE",)
    if not c.check(len(a) == len(b) == len(names), "outputs", "different number of outputs"):
        return
    tols = tol[1:] if grad else tol
    for q, x, y, t in zip(names, a, b, tols):
        c.check(np.asarray(x).dtype == np.asarray(y).dtype == np.complex128, q + ":dtype", "%s %s" % (x.dtype, y.dtype))
        c.close("rTE " + q, y, x, 2 * t + 1e-280)
    c.ev("gradient" if grad else "forward")
    c.sig(grad, len(h), len(f), kind, real)


def fields(c):
    """What is computed with the kernels does not depend on them either."""
    rng = c.rng
    if c.idx % 3 < 2:
        lo, hi = pc.prism(rng)
        P = np.array([pc.point(rng, lo, hi, pc.KINDS[rng.integers(len(pc.KINDS))]) for _ in range(8)])
        edge, _ = pc.relation(P, lo, hi)
        c.note(lo=lo, hi=hi, P=P)
        if c.idx % 3 == 0:
            rho = gen.signed(rng, 1e-2, 1e4)
            ex = dict(zip(("gravitational_potential", "gravitational_field", "gravitational_gradient"), c07.expected(P, lo, hi, rho)))
            src = {k: c.call("Prism", g["gravity"].Prism, lo, hi, rho) for k, g in CFG.items()}
        else:
            M = gen.direction(rng) * gen.logu(rng, 1e-2, 1e2)
            ex = c08.expected(P, lo, hi, M)
            src = {k: c.call("Prism", g["em.static"].MagneticPrism, lo, hi, M) for k, g in CFG.items()}
        for name, (_, t) in ex.items():
            got = {k: np.array(c.call(name, getattr(s, name), P)) for k, s in src.items()}
            got["compiled"][edge] = np.nan if name not in ("gravitational_potential", "gravitational_field", "scalar_potential") else got["compiled"][edge]
            c.close(name, got["numpy"], got["compiled"], t)
            c.ev("prism fields")
            c.sig(name)
    else:
        md = c16.model(c)
        oarg, o, m, loc, P = c16.source(c, md, md["rho"])
        got = {}
        for k, g in CFG.items():
            s = c.call("construct", g["em.fdem"].MagneticDipoleLayeredHalfSpace, frequency=md["farg"], thickness=md["harg"],
                       orientation=oarg, moment=m, location=loc, **md["kw"])
            got[k] = np.reshape(c.call("magnetic_field", s.magnetic_field, P), (md["nf"], 3, 3))
        r = np.hypot(*(P - loc)[:, :2].T)
        c.close("layered field", got["numpy"], got["compiled"], (1e-10 * abs(m) / r ** 3)[None, :, None])
        c.ev("layered fields")
        c.sig("layered", md["nl"], md["forms"])


def names(c):
    a, b = ({n for n in dir(g["kernels"]) if n.startswith(("prism_", "rTE_"))} for g in CFG.values())
    c.check(a == b and len(a) == 11, "names", "public kernels differ: %s" % sorted(a ^ b))
    ext = CFG["compiled"]["kernels"].rTE_forward
    c.check(ext is not getattr(CFG["numpy"]["kernels"], "rTE_forward"), "harness", "both configurations are the same")
    c.sig("names")


TARGETS = [("kernel", kernel, 3000, 120000), ("reflection", reflection, 1200, 40000), ("fields", fields, 450, 15000),
           ("names", names, 1, 1)]
REQUIRE = {"numba": 500, "forward": 200, "gradient": 200, "prism fields": 200, "layered fields": 50,
           **{"kernel:" + k: 100 for k in KINDS}}
