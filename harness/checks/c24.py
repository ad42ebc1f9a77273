"""Every location on its own, whatever array it comes in."""
import numpy as np

import bulk
import gen
import loader
import quake
import registry as R
from core import CallRaised

QUICK = 4
RULE = ("a case builds an object of one public class, evaluates one of its methods on a set of points that mixes "
        "ordinary with special ones (source location, axes, boundary, far away), and repeats the request with the "
        "points alone, permuted, subset, repeated, in many more copies, in other shapes, layouts, dtypes and "
        "containers, and with other frequencies or times at its side; distinct = (class, method, options, variation)")
ASSUMPTIONS = ["values at special points (on axes, boundaries, singular points) only to 5 %",
               "values are compared to 1e-8 of the size of the vector at the point: differences in the last digits "
               "between vectorised and scalar arithmetic are not held against the library",
               "the harmonic half-space dipole takes arrays only, the layered one (n, 3) arrays only, as documented"]
VARIANTS = ("alone", "permuted", "subset", "repeated", "many", "style", "style", "dtype", "with special", "lead", "empty", "object int", "few", "few")
NOTUPLE = [s for s in gen.ALL if not s.startswith("tuple")]
ARRAYS = [s for s in NOTUPLE if "list" not in s]


def specials(rng, e, st, ctx):
    L = ctx["L"]
    out = []
    for k in ("location", "location_a", "min_location", "max_location"):
        if k in st:
            v = np.array(st[k], float)
            out += [v, v + [0, 0, -L], v + [L, 0, 0], v + [0, -L, 0], v + 1e-9 * L]
    if "nodes" in st:
        n = st["nodes"]
        out += [n[0], (n[0] + n[1]) / 2, 2 * n[1] - n[0]]
    if "radius" in st and "location" in st:
        out += [np.array(st["location"]) + [0, 0, -st["radius"]], np.array(st["location"]) + [0.3 * st["radius"], 0, 0]]
        if "orientation" in st:
            out += [np.array(st["location"]) + np.asarray(st["orientation"]) * L]
    out += [np.array([0.0, 0.0, 0.0]), np.array([1e6 * L, 0, -1e6 * L])]
    out = np.array(out)
    if e.points == "below":
        out[:, 2] = -np.abs(out[:, 2])
    elif e.points == "above":
        out[:, 2] = np.abs(out[:, 2])
        if "location" in st:        # not straight above the source
            out = out[np.hypot(*(out[:, :2] - st["location"][:2]).T) > 1e-3 * L]
    elif e.points == "plane":
        out[:, 2] = 0
    return out[rng.permutation(len(out))[:3]]


def canon(c, e, m, st, out, loc, key):
    """list of (leads, points, comps) arrays"""
    want = R.shape_of(e, m, st, loc)
    lead = e.lead(st) if m.lead else ()
    nl = int(np.prod(lead)) if lead else 1
    n = int(np.prod(loc)) if loc else 1
    res = []
    for a in R.leaves(out):
        if not c.check(a.shape == want, key + ":shape", "shape %s, expected %s" % (a.shape, want)):
            raise CallRaised(key)
        res.append(a.reshape(nl, n, int(np.prod(m.tail)) if m.tail else 1))
    return res


def same(c, key, got, want, rel=1e-8, floor=0.0, **kw):
    c.check(len(got) == len(want), key + ":parts", "different number of results")
    for g, w in zip(got, want):
        w = np.asarray(w)
        with np.errstate(all="ignore"):
            nan = np.isnan(g) & np.isnan(w)
            eq = (g == w) | nan
            scale = np.abs(np.where(np.isfinite(w), w, 0)).max(-1, keepdims=True) if w.shape[-1] else np.zeros(w.shape[:-1] + (1,))
            ok = eq | (np.abs(g - w) <= rel * scale + floor + 1e-300)
        if g.shape != w.shape:
            c.check(False, key + ":shape", "%s and %s" % (g.shape, w.shape))
        elif not c.check(bool(ok.all()), key, "value depends on the array it is computed in: %s" % key,
                         at=np.argwhere(~ok)[:3].tolist(), got=g[~ok][:4], want=w[~ok][:4], **kw):
            return


def method(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    o = c.call(e.key, e.make, st)
    meths = [m for m in e.methods if m.name not in R.HELPNAMES or rng.random() < 0.2]
    m = meths[rng.integers(len(meths))]
    kw = m.options[rng.integers(len(m.options))]
    X = e.locations(rng, ctx, 8)
    two = e.points == "plane" and m.name not in R.HELPNAMES and rng.random() < 0.5
    if str(kw.get("coordinates", "")).lower() == "cylindrical":
        X[:, 0] = np.abs(X[:, 0])
    fn = getattr(o, m.name)
    conv = (lambda A: np.ascontiguousarray(A[..., :2])) if two else (lambda A: A)
    c.note(entry=e.key, method=m.name, options=kw, state={k: v for k, v in st.items()}, points=X)
    extra = {}

    def ev(A, loc=None, arg=None, key=e.key + "." + m.name, st=st, fn=fn, **k2):
        a = conv(A) if arg is None else arg
        out = c.call(key, fn, a, **{**kw, **k2})
        return canon(c, e, m, st, out, loc if loc is not None else (len(A),), key)

    base = ev(X)
    for a in base:
        c.check(bool(np.isfinite(a).all()), e.key + "." + m.name + ":finite", "not finite at ordinary points")
    v = VARIANTS[rng.integers(len(VARIANTS))] if not m.second or rng.random() < 0.6 else "second"
    key = "%s.%s %s" % (e.key, m.name, v)
    i = int(rng.integers(8))
    if v == "alone":
        for i in range(8):
            same(c, key, ev(X[i:i + 1]), [a[:, i:i + 1] for a in base])
        if e.styles != "n3":
            same(c, key, ev(X[i], loc=()), [a[:, i:i + 1] for a in base])
    elif v == "permuted":
        p = rng.permutation(8)
        same(c, key, ev(X[p]), [a[:, p] for a in base])
    elif v == "subset":
        p = np.sort(rng.permutation(8)[:int(rng.integers(1, 8))])
        same(c, key, ev(X[p]), [a[:, p] for a in base])
    elif v == "repeated":
        p = rng.integers(8, size=11)
        same(c, key, ev(X[p]), [a[:, p] for a in base])
    elif v == "many":
        lead = max(1, int(np.prod(e.lead(st))) if e.lead(st) else 1)
        p = rng.integers(8, size=300 if e.styles == "n3" else bulk.count(rng, 140000 // lead) if rng.random() < 0.3 else 2500)
        same(c, key, ev(X[p]), [a[:, p] for a in base])
    elif v == "style":
        styles = ("n3", "fortran", "strided", "reversed", "readonly", "one") if e.styles == "n3" and m.name not in R.HELPNAMES \
            else ARRAYS if e.styles == "array" and m.name not in R.HELPNAMES \
            else NOTUPLE if m.name in R.HELPNAMES else gen.ALL
        s = styles[rng.integers(len(styles))]
        arg, loc = gen.styled(conv(X), s)
        n = int(np.prod(loc)) if loc else 1
        key += " " + s
        same(c, key, ev(X, loc=loc, arg=arg), [a[:, :n] for a in base])
    elif v == "few":            # as many points as there are coordinates, components, frequencies, ...
        k = int(rng.choice([1, 2, 3, 3, 3, 4]))
        p = rng.permutation(8)[:k]
        if e.styles == "all" and m.name not in R.HELPNAMES and rng.random() < 0.4:
            sh = [(3, 3), (1, 3), (3, 1), (2, 3), (3, 2), (1, 1), (3, 1, 3), (3, 3, 3)][rng.integers(8)]
            p = rng.integers(8, size=int(np.prod(sh)))
            key += " %s" % (sh,)
            A = conv(X)[p].reshape(sh + (-1,))
            if rng.random() < 0.4:
                A = tuple(A[..., j].copy() for j in range(A.shape[-1]))
            same(c, key, ev(X, loc=sh, arg=A), [a[:, p] for a in base])
        else:
            styles = ("n3", "fortran", "strided", "reversed", "readonly", "one") if e.styles == "n3" and m.name not in R.HELPNAMES \
                else ARRAYS if e.styles == "array" and m.name not in R.HELPNAMES \
                else NOTUPLE if m.name in R.HELPNAMES else gen.ALL + ("list", "list", "tuple")
            s = styles[rng.integers(len(styles))]
            arg, loc = gen.styled(conv(X)[p], s)
            n = int(np.prod(loc)) if loc else 1
            key += " %d %s" % (k, s)
            same(c, key, ev(X, loc=loc, arg=arg), [a[:, p[:n]] for a in base])
    elif v == "dtype":
        if e.styles != "all":
            return
        dt = [np.float32, np.float16, np.longdouble][rng.integers(3)] if m.name not in R.HELPNAMES else np.longdouble
        Y = X if dt is not np.float16 else X / ctx["L"]
        arg = conv(Y).astype(dt)
        Z = np.array(X)
        Z[:, :arg.shape[1]] = arg.astype(float)
        same(c, key + " " + np.dtype(dt).name, [a.astype(complex) if a.dtype.kind == "c" else a.astype(float) for a in ev(X, arg=arg)], ev(Z))
    elif v == "object int":
        Y = np.round(X) + 0.0
        Y[:, 2] = np.where(e.points == "plane", 0, Y[:, 2])
        dt = [int, np.int32, np.int64][rng.integers(3)]
        same(c, key, ev(Y, arg=conv(Y).astype(dt)), ev(Y))
    elif v == "with special":
        S = specials(rng, e, st, ctx)
        Y = np.concatenate([X, S])
        p = rng.permutation(len(Y))
        if str(kw.get("coordinates", "")).lower() == "cylindrical":
            Y[:, 0] = np.abs(Y[:, 0])
        got = ev(Y[p])
        back = np.argsort(p)
        same(c, key, [a[:, back][:, :8] for a in got], base)
        for j in range(len(S) if "nodes" not in st else 0):     # points on a wire are singular
            same(c, key + " itself", [a[:, back][:, 8 + j:9 + j] for a in got], ev(Y[8 + j:9 + j]), rel=0.05,
                 floor=1e-6 * max(float(np.abs(a).max()) for a in base))
        c.ev("special points", len(S))
    elif v == "lead":
        k = "frequency" if "frequency" in st else "time" if "time" in st else None
        if k is None or np.ndim(st[k]) == 0 or not m.lead:
            p = rng.permutation(8)
            same(c, key, ev(X[p]), [a[:, p] for a in base])
        else:
            n = len(st[k])
            q = rng.integers(n, size=int(rng.integers(1, 5)))
            st2 = dict(st)
            st2[k] = st[k][q]
            if e.cls == "MagneticDipoleLayeredHalfSpace":
                for w in ("sigma", "mu", "epsilon"):
                    if np.ndim(st[w]) == 2:
                        st2[w] = st[w][:, q]
            o2 = c.call(e.key, e.make, st2)
            same(c, key, ev(X, st=st2, fn=getattr(o2, m.name)), [a[q] for a in base])
            j = int(rng.integers(n))
            st3 = dict(st)
            st3[k] = float(st[k][j])
            if e.cls == "MagneticDipoleLayeredHalfSpace":
                for w in ("sigma", "mu", "epsilon"):
                    if np.ndim(st[w]) == 2:
                        st3[w] = st[w][:, j:j + 1]
            o3 = c.call(e.key, e.make, st3)
            same(c, key + " scalar", ev(X, st=st3, fn=getattr(o3, m.name)), [a[j:j + 1] for a in base])
            c.ev("frequencies or times")
    elif v == "empty":
        if e.styles == "n3":
            return
        same(c, key, ev(X[:0]), [a[:, :0] for a in base])
    elif v == "second":
        Y = e.locations(rng, ctx, 8)
        diff = ev(X, xyz_n=Y)
        p = rng.permutation(8)
        same(c, key, ev(X[p], xyz_n=Y[p]), [a[:, p] for a in diff])
        g = gen.styled(Y, "gridT")[0]
        a, loc = gen.styled(X, "grid")
        same(c, key + " grid", ev(X, loc=loc, arg=a, xyz_n=g), diff)
        one = ev(X[i], loc=(), xyz_n=Y[i])
        same(c, key + " alone", one, [a[:, i:i + 1] for a in diff])
    c.ev(e.key)
    c.ev("variation:" + v)
    c.sig(e.key, m.name, str(kw), v)


# ---- plain functions -------------------------------------------------------
def functions(c):
    import geoana.em.fdem as fd
    import geoana.em.tdem as td
    from geoana import spatial as S
    rng = c.rng
    n = 6
    s, mu = gen.logu(rng, 1e-3, 1), 4e-7 * np.pi * gen.logu(rng, 1, 5)
    f, t = gen.logu(rng, 1, 1e5, n), gen.logu(rng, 1e-6, 1e-2, n)
    a = gen.logu(rng, 1, 100)
    z = gen.signed(rng, 1, 100, n)
    X = rng.normal(size=(n, 3)) * 10
    cyl = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), X[:, 2]]
    sph = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), rng.uniform(0, 3, n)]
    V = rng.normal(size=(n, 3))
    per = {
        "omega": (lambda q: fd.omega(q), f), "wavenumber": (lambda q: fd.wavenumber(q, s, mu), f),
        "skin_depth": (lambda q: fd.skin_depth(q, s, mu), f), "sigma_hat": (lambda q: fd.sigma_hat(q, s), f),
        "fd loop H": (lambda q: fd.vertical_magnetic_field_horizontal_loop(q, sigma=s, mu=mu, radius=a), f),
        "fd loop B": (lambda q: fd.vertical_magnetic_flux_horizontal_loop(q, s, mu=mu, radius=a, secondary=False), f),
        "td loop H": (lambda q: td.vertical_magnetic_field_horizontal_loop(q, sigma=s, mu=mu, radius=a), t),
        "td loop B": (lambda q: td.vertical_magnetic_flux_horizontal_loop(q, sigma=s, mu=mu, radius=a), t),
        "td loop dH": (lambda q: td.vertical_magnetic_field_time_deriv_horizontal_loop(q, sigma=s, mu=mu, radius=a), t),
        "td loop dB": (lambda q: td.vertical_magnetic_flux_time_deriv_horizontal_loop(q, sigma=s, mu=mu, radius=a), t),
        "theta": (lambda q: td.theta(q, s, mu), t), "diffusion_distance": (lambda q: td.diffusion_distance(q, s, mu), t),
        "peak_time": (lambda q: td.peak_time(q, s, mu), z),
        "distance": (lambda q: S.distance(q, X[0]), X), "vector_magnitude": (lambda q: S.vector_magnitude(q), V),
        "vector_dot": (lambda q: S.vector_dot(q, V[1]), V), "repeat_scalar": (lambda q: S.repeat_scalar(q), z),
        "rotate": (lambda q: S.rotate_points_from_normals(q, V[0] / np.linalg.norm(V[0]), V[1] / np.linalg.norm(V[1])), X),
        "cylindrical_to_cartesian": (lambda q: S.cylindrical_to_cartesian(q), cyl),
        "cartesian_to_cylindrical": (lambda q: S.cartesian_to_cylindrical(q), X),
        "spherical_to_cartesian": (lambda q: S.spherical_to_cartesian(q), sph),
        "cartesian_to_spherical": (lambda q: S.cartesian_to_spherical(q), X),
    }
    name = sorted(per)[c.idx % len(per)]
    fn, q = per[name]
    c.note(function=name)
    full = np.asarray(c.call(name, fn, q))
    if not c.check(full.shape[:1] == (n,), name + ":shape", "shape %s" % (full.shape,)):
        return
    cmp = lambda g, w, k: same(c, "%s %s" % (name, k), [np.asarray(g).reshape(1, len(w), -1)], [w.reshape(1, len(w), -1)])
    p = rng.permutation(n)
    cmp(c.call(name, fn, q[p]), full[p], "permuted")
    i = int(rng.integers(n))
    one = np.asarray(c.call(name, fn, q[i:i + 1]))
    c.check(one.shape == full[i:i + 1].shape, name + ":shape", "one value: shape %s" % (one.shape,))
    cmp(one, full[i:i + 1], "alone")
    big = np.repeat(q, 2, 0)[::2]
    cmp(c.call(name, fn, big), full, "strided")
    ro = q.copy()
    ro.flags.writeable = False
    cmp(c.call(name, fn, np.asfortranarray(ro)), full, "fortran")
    k = rng.integers(n, size=bulk.count(rng, 140000) if rng.random() < 0.3 else 500)
    cmp(c.call(name, fn, q[k]), full[k], "many")
    c.ev("function")
    c.sig(name)


PRISM = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz")


def kernels(c):
    """Each offset of a prism kernel, each frequency and wavenumber of a reflection coefficient on its own."""
    import geoana.kernels as K
    rng = c.rng
    pkg = ""
    if c.idx // (len(PRISM) + 2) % 3 == 2:
        K, pkg = loader.fallback()["kernels"], " (numpy)"
    which = c.idx % (len(PRISM) + 2)
    if which < len(PRISM):
        name = PRISM[which]
        fn = getattr(K, name)
        name += pkg
        n = 12
        X = rng.normal(size=(n, 3)) * gen.logu(rng, 1e-2, 1e3)
        X[rng.random((n, 3)) < 0.15] = 0.0
        X[np.all(X == 0, 1)] = 1.0
        c.note(function=name, X=X)
        full = np.asarray(c.call(name, fn, *X.T))
        ok = np.isfinite(full)
        one = np.array([np.asarray(c.call(name, fn, *X[i])).reshape(()) for i in range(n)])
        same(c, name + " alone", [one[None, ok]], [full[None, ok]])
        c.check(np.array_equal(np.isfinite(one), ok), name + " alone", "finite alone and not among others, or the reverse")
        p = rng.integers(n, size=bulk.count(rng, 140000) if rng.random() < 0.2 else int(rng.integers(1, 40)))
        same(c, name + " picked", [np.asarray(c.call(name, fn, *X[p].T))[None][:, ok[p]]], [full[p][None][:, ok[p]]])
        g = X.reshape(3, 4, 3)
        got = np.asarray(c.call(name, fn, *[np.asfortranarray(g[..., i]) for i in range(3)]))
        if c.check(got.shape == (3, 4), name + ":shape", "shape %s" % (got.shape,)):
            same(c, name + " grid", [got.ravel()[None, ok]], [full[None, ok]])
    else:
        name = ("rTE_forward", "rTE_gradient")[which - len(PRISM)]
        fn = getattr(K, name)
        name += pkg
        nf, nw, nl = (int(v) for v in rng.integers(1, 6, 3))
        f, lam = gen.logu(rng, 1, 1e5, nf), gen.logu(rng, 1e-4, 10, nw)
        sg = gen.logu(rng, 1e-3, 1, (nl, nf)) * (1 + 0.1j)
        mu = 4e-7 * np.pi * gen.logu(rng, 1, 3, (nl, nf)) + 0j
        h = gen.logu(rng, 1, 30, nl - 1)
        c.note(function=name, shape=(nf, nw, nl))
        full = [np.asarray(a) for a in R.leaves(c.call(name, fn, f, lam, sg, mu, h))]
        i, j = rng.integers(nf, size=int(rng.integers(1, 4))), rng.integers(nw, size=int(rng.integers(1, 4)))
        part = [np.asarray(a) for a in R.leaves(c.call(name, fn, f[i], lam[j], sg[:, i], mu[:, i], h))]
        for k, (a, b) in enumerate(zip(full, part)):
            want = a[..., i, :][..., j]
            if c.check(b.shape == want.shape, name + ":shape", "shape %s, expected %s" % (b.shape, want.shape)):
                same(c, "%s %d" % (name, k), [b.reshape(1, 1, -1)], [want.reshape(1, 1, -1)])
    c.ev("kernels")
    c.sig("kernel", name)


def earthquake(c):
    """Each point of a fault's grid and of a list of sites on its own."""
    from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar
    rng = c.rng
    if c.idx % 2:
        st = quake.image(rng)
        o = c.call("EarthquakeInterferogram", EarthquakeInterferogram, **st)
        P = quake.sites(rng, st, 6)
        full = np.array(c.call("get_LOS_vector", o.get_LOS_vector, [np.array(p) for p in P]))
        if not c.check(full.shape == (3, 6), "get_LOS_vector:shape", "shape %s" % (full.shape,)):
            return
        p = rng.integers(6, size=int(rng.integers(2, 9)))
        got = np.array(c.call("get_LOS_vector", o.get_LOS_vector, [np.array(P[i]) for i in p]))
        c.check(quake.near(got, full[:, p], 1e-9), "get_LOS_vector", "lines of sight depend on the other sites")
        i = int(rng.integers(6))
        got = np.array(c.call("get_LOS_vector", o.get_LOS_vector, [tuple(P[i])]))
        c.check(quake.near(got.reshape(3), full[:, i], 1e-9), "get_LOS_vector alone", "a line of sight depends on the other sites")
    else:
        st = quake.fault(rng)
        n0, n1 = (int(v) for v in st["shape"])
        o = c.call("Oksar", Oksar, **st)
        full = np.array(c.call("displacement", lambda: o.displacement_vector))
        grid = np.array(o.simulation_grid)
        if not c.check(full.shape == (n0 * n1, 3), "Oksar:shape", "shape %s" % (full.shape,)):
            return
        # a grid of two by two points whose first corner is a point of the larger one
        i = int(rng.integers(n0 * n1))
        o2 = c.call("Oksar", Oksar, **dict(st, O=grid[i], U=rng.uniform(100, 900, 2), V=rng.uniform(100, 900, 2) * [-1, 1], shape=(2, 2)))
        got = np.array(c.call("displacement", lambda: o2.displacement_vector))
        c.check(quake.near(got[0] / np.abs(full).max(), full[i] / np.abs(full).max(), 1e-9) or np.allclose(got[0], full[i], rtol=0, atol=1e-9 * np.abs(full).max()),
                "Oksar", "a displacement depends on the other points: %s and %s" % (got[0], full[i]))
        big = c.call("Oksar", Oksar, **dict(st, shape=(2 * n0 - 1, 2 * n1 - 1)))
        b = np.array(c.call("displacement", lambda: big.displacement_vector)).reshape(2 * n1 - 1, 2 * n0 - 1, 3)[::2, ::2]
        c.check(np.allclose(b, full.reshape(n1, n0, 3), rtol=0, atol=1e-9 * np.abs(full).max()), "Oksar refined", "displacements change when the grid is refined")
    c.ev("earthquake")
    c.sig("earthquake", c.idx % 2)


TARGETS = [("kernels", kernels, 550, 20000), ("earthquake", earthquake, 300, 6000), ("method", method, 30000, 1000000), ("functions", functions, 1100, 30000)]
REQUIRE = {**{e.key: 40 for e in R.ENTRIES}, "special points": 200, "frequencies or times": 40, "function": 100, "kernels": 300, "earthquake": 150}
