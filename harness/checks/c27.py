"""Linearity, symmetry and reciprocity relations between real executions."""
import numpy as np

import gen
import registry as R
from core import CallRaised

BUILD = "plain"
QUICK = 7
RULE = ("a case evaluates a class twice or more on transformed problems (scaled strength, sum and reversal of directions, common "
        "shift, common rotation, exchange of source and receiver) and compares the results; distinct = (class, method, "
        "transformation, option)")
ASSUMPTIONS = ["rotations are proper; prisms are rotated by quarter turns", "tolerance 1e-8 of the field at the point plus 1e-10 of the largest one"]

STRENGTH = {"gravity.PointMass": ("mass",), "gravity.Sphere": ("rho", "mass"), "gravity.Prism": ("rho",), "static.MagneticPrism": ("magnetization",),
            "static.ElectrostaticSphere": ("primary_field",), "static.MagnetostaticSphere": ("primary_field",)}
VECTOR = {"static.MagneticPrism": "magnetization", "static.ElectrostaticSphere": "primary_field", "static.MagnetostaticSphere": "primary_field"}
NOSUPER = ("MagneticPoleWholeSpace", "CircularLoopWholeSpace")
HALF = ("PointCurrentHalfSpace", "DipoleHalfSpace", "MagneticDipoleHalfSpace", "MagneticDipoleLayeredHalfSpace", "HarmonicPlaneWave",
        "TransientPlaneWave", "VerticalMagneticDipoleHalfSpace")
PRISM = ("Prism", "MagneticPrism")
PLACES = ("location", "location_a", "location_b", "nodes", "min_location", "max_location")


def strengths(e):
    if e.key in STRENGTH:
        return STRENGTH[e.key]
    return tuple(k for k in ("current", "moment", "length", "amplitude") if k in e.params)


def build(c, e, st, late=False):
    o = c.call(e.key, e.make, st)
    for k in e.params:
        if not e.params[k].in_init:
            setattr(o, k, st[k])
    return o


def ask(c, e, o, m, X, kw):
    r = c.call("%s.%s" % (e.key, m.name), getattr(o, m.name), X.copy(), **kw)
    return [np.asarray(a) for a in R.leaves(r)]


def match(c, key, got, want, tail, tol=1e-8):
    """Compare lists of arrays with a tolerance relative to the field at the point."""
    for g, w in zip(got, want):
        s = np.abs(w)
        if tail:
            s = s.max(axis=tuple(range(s.ndim - len(tail), s.ndim)), keepdims=True)
        fin = np.abs(w[np.isfinite(w)])
        c.close(key, g, w, tol * s + 1e-2 * tol * (fin.max() if fin.size else 0.0) + 1e-300)


def case(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    if e.cls == "MagneticDipoleLayeredHalfSpace":
        st["quasistatic"] = True
    ms = [m for m in e.methods if m.name not in R.HELPNAMES]
    m = ms[(c.idx // len(R.ENTRIES)) % len(ms)]
    opts = [k for k in m.options if k.get("coordinates", "cartesian").lower() == "cartesian"]
    kw = opts[rng.integers(len(opts))]
    X = e.locations(rng, ctx, 6)
    if e.points in ("plane", "above") and "location" in st:     # closer, their formulas lose digits by cancellation
        d = X[:, :2] - st["location"][:2]
        r = np.linalg.norm(d, axis=-1, keepdims=True)
        X[:, :2] = st["location"][:2] + d * np.maximum(1.0, 0.4 * ctx["L"] / r)
    for a, b in (("mu_sphere", "mu_background"), ("sigma_sphere", "sigma_background")):
        if a in st and abs(st[a] / st[b] - 1) < 0.01:           # likewise total minus primary
            st[a] *= 1.05
    c.note(entry=e.key, method=m.name, options=kw, state=st)
    return rng, e, ctx, st, m, kw, X


def linear(c):
    rng, e, ctx, st, m, kw, X = case(c)
    names = strengths(e)
    name = names[rng.integers(len(names))]
    o = build(c, e, st)
    base = ask(c, e, o, m, X, kw)
    key = "%s.%s:%s" % (e.key, m.name, name)
    k = float(rng.choice([gen.logu(rng, 1e-6, 1e6), -gen.logu(rng, 1e-6, 1e6), 2.0, -1.0, 0.0, gen.signed(rng, 1e-40, 1e-6), gen.signed(rng, 1e6, 1e40)]))
    if name == "length":
        k = float(gen.logu(rng, 1e-3, 1e3))
    v = getattr(o, name)
    if rng.random() < 0.5 or name == "mass":
        setattr(o, name, k * v)
    else:
        o = build(c, e, dict(st, **{name: k * np.asarray(st[name])}))
    c.note(factor=k, strength=name)
    match(c, key, ask(c, e, o, m, X, kw), [k * b for b in base], m.tail)
    c.ev("scaled strengths")
    c.sig("linear", e.key, m.name, name, str(kw), k < 0, k == 0)


def superpose(c):
    rng, e, ctx, st, m, kw, X = case(c)
    key = "%s.%s:sum" % (e.key, m.name)
    if e.key in VECTOR:
        name = VECTOR[e.key]
        a, b = gen.direction(rng) * gen.logu(rng, 0.1, 10), gen.direction(rng) * gen.logu(rng, 0.1, 10)
        parts = [(1.0, a), (1.0, b)]
        whole = a + b
    elif "orientation" in e.params and e.cls not in NOSUPER:
        name = "orientation"
        whole = np.asarray(st["orientation"], float)
        whole = whole / np.linalg.norm(whole)
        if e.params[name].kind == "orient_xy":
            parts = [(whole[0], "X"), (whole[1], "y")]
        elif rng.random() < 0.6:
            parts = [(whole[0], "x"), (whole[1], "Y"), (whole[2], [0.0, 0.0, 1.0])]
        else:
            Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            parts = [(float(Q[:, i] @ whole), Q[:, i]) for i in range(3)]
    elif "current" in e.params or "moment" in e.params or e.cls in ("Prism", "PointMass"):
        # one source is the sum of two: cut a wire or a prism in two, put b on top of c
        return cut(c, rng, e, ctx, st, m, kw, X)
    else:
        return
    total, size = None, None
    for w, v in parts:
        r = [w * q for q in ask(c, e, build(c, e, dict(st, **{name: v})), m, X, kw)]
        total = r if total is None else [x + y for x, y in zip(total, r)]
        size = [np.abs(q) for q in r] if size is None else [x + np.abs(y) for x, y in zip(size, r)]
    got = ask(c, e, build(c, e, dict(st, **{name: whole})), m, X, kw)
    for g, w, s in zip(got, total, size):
        if m.tail:
            s = s.max(axis=tuple(range(s.ndim - len(m.tail), s.ndim)), keepdims=True)
        c.close(key, g, w, 1e-8 * s + 1e-10 * s.max() + 1e-300)
    c.ev("superpositions")
    c.sig("sum", e.key, m.name, str(kw), len(parts))


def cut(c, rng, e, ctx, st, m, kw, X):
    key = "%s.%s:cut" % (e.key, m.name)
    if e.cls == "LineCurrentWholeSpace":
        n = np.asarray(st["nodes"])
        i = int(rng.integers(len(n)))
        if i == 0 or i == len(n) - 1:       # cut a segment
            i = 0
            p = n[0] + rng.uniform(0.2, 0.8) * (n[1] - n[0])
            a, b = np.array([n[0], p]), np.vstack([p, n[1:]])
        else:
            a, b = n[:i + 1], n[i:]
        states = [dict(st, nodes=a), dict(st, nodes=b)]
    elif e.cls in PRISM:
        ax = int(rng.integers(3))
        lo, hi = np.array(st["min_location"]), np.array(st["max_location"])
        t = lo[ax] + rng.uniform(0.2, 0.8) * (hi[ax] - lo[ax])
        h2, l2 = hi.copy(), lo.copy()
        h2[ax] = l2[ax] = t
        states = [dict(st, max_location=h2), dict(st, min_location=l2)]
    elif e.cls == "DipoleHalfSpace":
        p = R.below(rng, ctx)
        states = [dict(st, location_b=p), dict(st, location_a=p)]
    else:
        return
    got = ask(c, e, build(c, e, st), m, X, kw)
    parts = [ask(c, e, build(c, e, s), m, X, kw) for s in states]
    for g, a, b in zip(got, *parts):
        s = np.abs(a) + np.abs(b)
        if m.tail:
            s = s.max(axis=tuple(range(s.ndim - len(m.tail), s.ndim)), keepdims=True)
        c.close(key, g, a + b, 1e-7 * s + 1e-9 * s.max() + 1e-300)
    c.ev("cut sources")
    c.sig("cut", e.key, m.name)


def reverse(c):
    rng, e, ctx, st, m, kw, X = case(c)
    key = "%s.%s:reversed" % (e.key, m.name)
    sign = -1.0
    if "nodes" in e.params:
        other = dict(st, nodes=np.asarray(st["nodes"])[::-1])
    elif e.cls == "DipoleHalfSpace":
        other = dict(st, location_a=st["location_b"], location_b=st["location_a"])
    elif e.cls == "MagneticPoleWholeSpace":
        other, sign = dict(st, orientation=-np.asarray(st["orientation"])), 1.0
    elif "orientation" in e.params:
        other = dict(st, orientation=-np.asarray(st["orientation"]))
    elif e.key in VECTOR:
        other = dict(st, **{VECTOR[e.key]: -np.asarray(st[VECTOR[e.key]])})
    else:
        return
    a = ask(c, e, build(c, e, st), m, X, kw)
    b = ask(c, e, build(c, e, other), m, X, kw)
    match(c, key, b, [sign * q for q in a], m.tail, tol=1e-7 if "nodes" in e.params else 1e-8)
    c.ev("reversed sources")
    c.sig("reverse", e.key, m.name, str(kw))


def moved(e, st, f):
    out = dict(st)
    for k in PLACES:
        if k in out:
            out[k] = f(np.asarray(out[k], float))
    return out


def shift(c):
    rng, e, ctx, st, m, kw, X = case(c)
    d = rng.uniform(-3, 3, 3) * ctx["L"] * float(rng.choice([1.0, 1.0, 30.0]))
    far = rng.random() < 0.3
    if far:                                 # by very much, in coordinates for which that is exact
        L2 = 2.0 ** np.floor(np.log2(ctx["L"]))
        grid = lambda p: np.round(p / (L2 * 2.0 ** -24)) * (L2 * 2.0 ** -24)
        st, X = moved(e, st, grid), grid(X)
        d = L2 * rng.integers(-2 ** 20, 2 ** 20, 3)
        c.ev("far shifts")
    if e.cls in HALF:
        d[2] = 0.0
    a = ask(c, e, build(c, e, st), m, X, kw)
    o = build(c, e, moved(e, st, lambda p: p + d))
    b = ask(c, e, o, m, X + d, kw)
    c.note(shift=d)
    match(c, "%s.%s:shifted" % (e.key, m.name), b, a, m.tail, tol=1e-6 if e.cls in PRISM + ("LineCurrentWholeSpace",) else 1e-7)
    c.ev("shifts")
    c.sig("shift", e.key, m.name, str(kw), far)


def rotation(rng, e):
    if e.cls in HALF:
        t = rng.uniform(0, 2 * np.pi)
        return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.0]])
    if e.cls in PRISM:
        P = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], 3)[:, None]
        return P if np.linalg.det(P) > 0 else -P
    Q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    Q = Q * np.sign(np.diag(r))
    return Q if np.linalg.det(Q) > 0 else -Q


def rotate(c):
    rng, e, ctx, st, m, kw, X = case(c)
    Q = rotation(rng, e)
    a = ask(c, e, build(c, e, st), m, X, kw)
    new = moved(e, st, lambda p: p @ Q.T)
    if e.cls in PRISM:
        lo, hi = new["min_location"], new["max_location"]
        new["min_location"], new["max_location"] = np.minimum(lo, hi), np.maximum(lo, hi)
    for k in ("orientation", "magnetization", "primary_field"):
        if k in new:
            new[k] = Q @ np.asarray(st[k], float)
    if e.params.get("orientation") is not None and e.params["orientation"].kind == "orient_xy":
        new["orientation"] = np.r_[new["orientation"][:2], 0.0]
    b = ask(c, e, build(c, e, new), m, X @ Q.T, kw)
    want = []
    for q in a:
        if m.tail == (3,):
            q = q @ Q.T
        elif m.tail == (3, 3):
            q = Q @ q @ Q.T
        want.append(q)
    c.note(rotation=Q)
    match(c, "%s.%s:rotated" % (e.key, m.name), b, want, m.tail, tol=1e-6 if e.cls in PRISM + ("LineCurrentWholeSpace",) else 1e-7)
    c.ev("rotations")
    c.sig("rotate", e.key, m.name, str(kw))


RECIP = [("static.MagneticDipoleWholeSpace", "magnetic_field", "free"), ("fdem.MagneticDipoleWholeSpace", "magnetic_field", "free"),
         ("fdem.ElectricDipoleWholeSpace", "electric_field", "free"), ("tdem.ElectricDipoleWholeSpace", "electric_field", "free"),
         ("fdem.MagneticDipoleHalfSpace", "magnetic_field", "plane"), ("fdem.MagneticDipoleLayeredHalfSpace", "magnetic_field", "above"),
         ("static.PointCurrentHalfSpace", "potential", "below"), ("static.DipoleHalfSpace", "potential", "below"),
         ("static.PointCurrentWholeSpace", "potential", "free")]


def exchange(c):
    """Source and receiver change places."""
    rng = c.rng
    name, meth, where = RECIP[c.idx % len(RECIP)]
    e = R.BY[name]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    if e.cls == "MagneticDipoleLayeredHalfSpace":
        st["quasistatic"] = True
    c.note(entry=name, state=st)
    X = e.locations(rng, ctx, 2)
    key = "%s.%s:exchanged" % (name, meth)
    if meth == "potential" and "location_a" in e.params:
        a, b = np.asarray(st["location_a"]), np.asarray(st["location_b"])
        p = c.call(key, build(c, e, st).potential, X[0], X[1])
        q = c.call(key, build(c, e, dict(st, location_a=X[0], location_b=X[1])).potential, a, b)
        s = st["rho"] * abs(st["current"]) / np.min([np.linalg.norm(u - v) for u in X for v in (a, b)])
        c.close(key, np.squeeze(p), np.squeeze(q), 1e-9 * s)
    elif meth == "potential":
        a = np.asarray(st["location"])
        p = c.call(key, build(c, e, st).potential, X[0])
        q = c.call(key, build(c, e, dict(st, location=X[0])).potential, a)
        c.close(key, np.squeeze(p), np.squeeze(q), 1e-9 * abs(np.squeeze(p)))
    else:
        a = np.asarray(st["location"], float)
        u, v = gen.unit(rng), np.asarray(st["orientation"], float)
        kw = {}
        if where in ("plane", "above"):
            kw["field"] = str(rng.choice(["secondary", "total"]))
        at = lambda p: np.asarray(p, float).reshape(1, 3)
        p = np.asarray(c.call(key, getattr(build(c, e, st), meth), at(X[0]), **kw))
        q = np.asarray(c.call(key, getattr(build(c, e, dict(st, location=X[0], orientation=u)), meth), at(a), **kw))
        g, w = p @ u, q @ v
        s = np.maximum(np.linalg.norm(p, axis=-1), np.linalg.norm(q, axis=-1))
        c.close(key, g, w, 1e-7 * s)
    c.ev("exchanges")
    c.sig("exchange", name)


TARGETS = [("linear", linear, 4200, 120000), ("superpose", superpose, 4200, 120000), ("reverse", reverse, 2100, 60000),
           ("shift", shift, 4200, 120000), ("rotate", rotate, 4200, 120000), ("exchange", exchange, 1800, 60000)]
REQUIRE = {"scaled strengths": 1000, "superpositions": 500, "cut sources": 100, "reversed sources": 500, "shifts": 1000, "far shifts": 300, "rotations": 1000,
           "exchanges": 500}
