"""Oksar displacements against the integral of Okada's point source."""
import numpy as np

import gen
import ref_okada as K
from core import CallRaised

BUILD = None
QUICK = 3
RULE = ("a case is one fault and observation grid; the displacement at every grid point is compared with a quadrature of the "
        "point-source solution, the grid with origin + s U + t V, and other runs with transformed or regrouped problems; "
        "distinct = (target, dip class, surface-breaking or not, rake class, kind of points)")
ASSUMPTIONS = ["points of the fault's edges on the surface are excluded (the model is singular there), and dip 0",
               "the model snaps coordinates below 1e-6 of the largest distance to zero; where that applies the tolerance corresponds to a shift of the point by as much",
               "close to dip 90 the closed form loses eps/cos(dip)^2 of its digits"]
NAMES = ("O", "U", "V", "center", "depth_top", "depth_bottom", "strike", "dip", "rake", "slip", "length", "beta", "mu", "shape")


def fault(rng):
    S = float(gen.logu(rng, 10, 1e5))
    dip = float(rng.choice([rng.uniform(3, 90), rng.uniform(3, 90), 90.0, 45.0, 30.0, rng.uniform(85, 90)]))
    top = float(rng.choice([0.0, 0.0, rng.uniform(0.01, 1) * S, 0.3 * S]))
    return dict(center=rng.uniform(-3, 3, 2) * S * float(rng.choice([1, 1, 100])), depth_top=top, depth_bottom=top + float(gen.logu(rng, 0.05, 2)) * S,
                strike=float(rng.choice([rng.uniform(0, 360), 0.0, 90.0, 180.0, 270.0, 360.0])), dip=dip,
                rake=float(rng.choice([rng.uniform(-180, 180), 0.0, 90.0, -90.0, 180.0, -180.0, 45.0])),
                slip=float(gen.wide(rng, 1e-3, 20, 1e9, 0.1)), length=float(gen.logu(rng, 0.05, 3)) * S,
                beta=float(gen.wide(rng, 1e9, 1e12, 1e3, 0.1)), mu=float(gen.wide(rng, 1e9, 1e12, 1e3, 0.1))), S


def ref(F, P):
    return K.displacement(P, F["center"], F["depth_top"], F["depth_bottom"], F["strike"], F["dip"], F["rake"], F["slip"], F["length"],
                          F["beta"], F["mu"])


def local(F, P):
    e1, e2 = K.frame(F["strike"])
    d = np.atleast_2d(P) - F["center"]
    return d @ e1, d @ e2


def place(F, X, Y):
    e1, e2 = K.frame(F["strike"])
    return F["center"] + np.multiply.outer(np.asarray(X, float), e1) + np.multiply.outer(np.asarray(Y, float), e2)


def clear(F, P):
    """Distance of points from the rectangle relative to its size."""
    X, Y = local(F, P)
    a = np.deg2rad(F["dip"])
    w1, w2 = F["depth_top"] / np.sin(a), F["depth_bottom"] / np.sin(a)
    w = np.clip(Y * np.cos(a), w1, w2)
    x = np.clip(X, -F["length"] / 2, F["length"] / 2)
    dist = np.sqrt((X - x) ** 2 + (Y - w * np.cos(a)) ** 2 + (w * np.sin(a)) ** 2)
    return dist / max(F["length"], w2 - w1)


def tolerance(F, P, r, err):
    a = np.deg2rad(F["dip"])
    cd = abs(np.cos(a))
    X, Y = local(F, P)
    sl = F["slip"]
    size = np.linalg.norm(r, axis=-1)
    t = 1e-9 * size + 1e-11 * sl + 10 * err
    if cd >= 1e-6:
        t = t + 1e-14 * sl / cd ** 2
    else:
        t = t + 3e-6 * sl
    w1, w2 = F["depth_top"] / np.sin(a), F["depth_bottom"] / np.sin(a)
    p, q = Y * np.cos(a), -Y * np.sin(a)
    # digits lost by r + xi and r + eta next to the extension of an edge
    big = np.zeros(len(X))
    far = np.zeros(len(X))
    snap = np.zeros(len(X), bool)
    for e in (p - w1, p - w2):
        for x in (X + F["length"] / 2, X - F["length"] / 2):
            far = np.maximum(far, np.max(np.abs(np.c_[x, e, q]), -1))
            R = np.sqrt(x * x + e * e + q * q)
            with np.errstate(all="ignore"):
                l1 = np.where(x < 0, 2 * R * R / (e * e + q * q), 1)
                l2 = np.where(e < 0, 2 * R * R / (x * x + q * q), 1)
            big = np.maximum(big, np.nan_to_num(np.maximum(l1, l2), nan=1.0, posinf=1.0))
    t = t + 1e-14 * sl * big + (3e-15 * sl * big / cd ** 2 if cd >= 1e-6 else 0)
    for v in (X + F["length"] / 2, X - F["length"] / 2, p - w1, p - w2, q):
        snap |= (np.abs(v) < 2e-6 * far) | (np.abs(v) < 2e-6)
    near = clear(F, P) * max(F["length"], w2 - w1)
    return np.where(snap, t + 1e-5 * sl * np.maximum(1, far / near), t), snap


def kind(F):
    return ("vertical" if F["dip"] == 90 else "steep" if F["dip"] > 80 else "flat" if F["dip"] < 15 else "dipping",
            "breaking" if F["depth_top"] == 0 else "buried", int(F["rake"] % 90 == 0))


def make(c, F, **grid):
    from geoana.earthquake.oksar import Oksar
    every = {**F, **grid}
    rng = c.rng
    if rng.random() < 0.6:
        return c.call("Oksar", Oksar, **every)
    other, S = fault(rng)
    o = c.call("Oksar", Oksar, O=[1, 2], U=[3, 0], V=[0, 4], shape=(2, 3), **other)
    o.depth_top = 0.0
    for k in ["depth_bottom"] + [str(x) for x in rng.permutation([k for k in every if k != "depth_bottom"])]:
        c.call("Oksar." + k, setattr, o, k, every[k])
    return o


def grid_for(rng, F, S, n=None):
    shape = tuple(int(x) for x in (rng.integers(1, 6, 2) if n is None else n))
    k = rng.integers(4)
    s = S * float(gen.logu(rng, 0.5, 8))
    if k == 0:
        U, V = np.array([s, 0.0]), np.array([0.0, s * rng.uniform(0.3, 2)])
    elif k == 1:
        U, V = np.array([s, 0.0]), np.array([0.0, -s])
    else:
        U, V = gen.unit(rng)[:2] * s, rng.normal(size=2) * s
    O = F["center"] - (U + V) * rng.uniform(0, 1) + rng.uniform(-0.5, 0.5, 2) * S
    return dict(O=O, U=U, V=V, shape=shape)


def points(g):
    n0, n1 = g["shape"]
    s = np.linspace(0, 1, n0) if n0 > 1 else np.zeros(1)
    t = np.linspace(0, 1, n1) if n1 > 1 else np.zeros(1)
    return np.array([g["O"] + si * g["U"] + ti * g["V"] for ti in t for si in s])


def judged(c, key, F, o, P):
    got = c.call("Oksar.displacement_vector", lambda: o.displacement_vector)
    r, err = ref(F, P)
    tol, snap = tolerance(F, P, r, err)
    r = np.where((clear(F, P) < 0.02)[:, None], np.nan, r)
    c.close(key, got, r, tol[:, None] * np.ones(3))
    c.ev("points", len(P))
    c.ev("snapped points", int(snap.sum()))
    return got


def grids(c):
    rng = c.rng
    F, S = fault(rng)
    g = grid_for(rng, F, S)
    P = points(g)
    if clear(F, P).min() < 0.003:        # on the trace, or too close for the quadrature
        return
    form = rng.integers(3)
    gg = dict(g, O=list(g["O"]) if form == 0 else g["O"], U=tuple(g["U"]) if form == 1 else g["U"], shape=list(g["shape"]) if form == 0 else np.array(g["shape"]) if form == 1 else g["shape"])
    o = make(c, F, **gg)
    c.note(fault=F, grid=g)
    sg = c.call("simulation_grid", lambda: o.simulation_grid)
    c.close("simulation_grid", sg, P, 1e-13 * (np.abs(P).max() + np.abs(g["U"]).max() + np.abs(g["V"]).max()) * np.ones(P.shape))
    judged(c, "displacement", F, o, P)
    for k in NAMES:
        want = {**F, **g}[k]
        c.check(np.array_equal(np.asarray(getattr(o, k), float), np.asarray(want, float)), "Oksar." + k, "reads back as %s, given %s" % (getattr(o, k), want))
    c.ev("grids")
    c.sig("grid", kind(F), len(P) == 1)


def large(c):
    """Grids of realistic size: all of the grid, and the displacement at some of its points."""
    rng = c.rng
    F, S = fault(rng)
    k = int(rng.integers(4))
    n = [tuple(int(x) for x in rng.integers(30, 70, 2)), (int(rng.integers(100, 400)), int(rng.integers(1, 4))), (int(rng.integers(1, 4)), int(rng.integers(100, 400))),
         tuple(int(x) for x in rng.integers(8, 40, 2))][k]
    g = grid_for(rng, F, S, n)
    P = points(g)
    o = make(c, F, **g)
    c.note(fault=F, grid=g)
    sg = c.call("simulation_grid", lambda: o.simulation_grid)
    c.close("simulation_grid", sg, P, 1e-13 * (np.abs(P).max() + np.abs(g["U"]).max() + np.abs(g["V"]).max()) * np.ones(P.shape))
    d = clear(F, P)
    if d.min() < 1e-5:          # a point on the trace may be refused
        return
    got = np.asarray(c.call("Oksar.displacement_vector", lambda: o.displacement_vector))
    if not c.check(got.shape == (len(P), 3), "displacement:shape", "shape %s" % (got.shape,)):
        return
    i = rng.permutation(np.flatnonzero(d > 0.02))[:5]
    if len(i):
        r, err = ref(F, P[i])
        tol, snap = tolerance(F, P[i], r, err)
        c.close("displacement", got[i], r, tol[:, None] * np.ones(3))
        c.ev("points of large grids", len(i))
    c.sig("large", kind(F), k)


def special(c):
    """Points in line with edges, above edges, on the trace's continuation, dips close to vertical."""
    rng = c.rng
    F, S = fault(rng)
    k = c.idx % 6
    L = F["length"]
    name = ["beyond the ends", "above an edge", "on the trace line", "near-vertical", "central line", "far"][k]
    if k == 0:
        X, Y = np.array([L / 2, -L / 2, L / 2, -L / 2]), rng.uniform(0.2, 2, 4) * S * rng.choice([-1, 1], 4)
    elif k == 1:
        a = np.deg2rad(F["dip"])
        X = rng.uniform(-1, 1, 4) * L
        Y = np.array([F["depth_top"], F["depth_bottom"], F["depth_top"], F["depth_bottom"]]) / np.tan(a)
    elif k == 2:
        if F["depth_top"] == 0:
            X = np.array([1, -1, 1, -1]) * L * rng.uniform(0.6, 3, 4)
        else:
            X = np.array([0.0, 0.3, -0.7, 1.2]) * L
        Y = np.zeros(4)
    elif k == 3:
        F["dip"] = float(90 - gen.logu(rng, 1e-9, 3))
        X, Y = rng.uniform(-2, 2, 4) * S, rng.uniform(0.2, 2, 4) * S * rng.choice([-1, 1], 4)
    elif k == 4 and rng.random() < 0.5:      # next to the lines through edges, at the limits of what counts as zero
        name = "band"
        d = S * gen.logu(rng, 1e-8, 1e-4, 4) * rng.choice([-1, 1], 4)
        if rng.random() < 0.5 and F["depth_top"] > 0:
            X, Y = rng.uniform(-2, 2, 4) * L, d
        else:
            X, Y = L / 2 * rng.choice([-1, 1], 4) + d, rng.uniform(0.2, 2, 4) * S * rng.choice([-1, 1], 4)
    elif k == 4:
        X, Y = np.zeros(4), rng.uniform(0.2, 2, 4) * S * rng.choice([-1, 1], 4)
    else:
        X, Y = gen.signed(rng, 10, 50, 4) * S, gen.signed(rng, 10, 50, 4) * S
    c.note(fault=F, kind=name)
    for x, y in zip(X, Y):
        P = place(F, [x], [y])
        if clear(F, P)[0] < 0.02:
            continue
        o = make(c, F, O=P[0], U=[1.0, 0.0], V=[0.0, 1.0], shape=(1, 1))
        judged(c, "special:" + name, F, o, P)
        c.ev("special points")
        c.sig("special", name, kind(F))


def independent(c):
    """The same point on its own, in another grid, in another order."""
    rng = c.rng
    F, S = fault(rng)
    g = grid_for(rng, F, S, n=rng.integers(2, 12, 2))
    P = points(g)
    if clear(F, P).min() < 1e-4:
        return
    o = make(c, F, **g)
    got = c.call("displacement_vector", lambda: o.displacement_vector)
    c.note(fault=F, grid=g)
    again = c.call("displacement_vector", lambda: o.displacement_vector)
    c.check(np.shape(got) == np.shape(again) and np.allclose(got, again, rtol=1e-12, atol=1e-12 * F["slip"]), "repeat", "asking again gives another displacement")
    tol = 1e-11 * F["slip"]
    cd = abs(np.cos(np.deg2rad(F["dip"])))
    if cd > 1e-6:
        tol += 1e-14 * F["slip"] / cd ** 2
    for i in rng.permutation(len(P))[:3]:
        far = float(rng.choice([1.0, 1e4]))      # one companion far away
        one = make(c, F, O=P[i], U=[far * S, 0.0], V=[0.0, far * S], shape=[(1, 1), (2, 1), (1, 3)][rng.integers(3)])
        Q = points(dict(O=P[i], U=np.array([far * S, 0.0]), V=np.array([0.0, far * S]), shape=tuple(one.shape)))
        if clear(F, Q).min() < 1e-4:
            continue
        r, err = np.zeros((1, 3)), np.zeros(1)
        t, snap = tolerance(F, P[i:i + 1], r, err)
        u = c.call("displacement_vector", lambda: one.displacement_vector)
        # grid coordinates differ by a rounding of the origin
        slack = 1e-13 * (np.abs(P).max() + np.abs(g["U"]).max() + np.abs(g["V"]).max()) / (clear(F, P[i:i + 1])[0] * F["length"] + 1e-12) * F["slip"]
        c.close("alone", u[0], got[i], t[0] + tol + slack + (1e-5 * F["slip"] if snap[0] else 0))
        c.ev("single points")
    # transposed grid
    h = dict(O=g["O"], U=g["V"], V=g["U"], shape=g["shape"][::-1])
    tr = c.call("displacement_vector", lambda: make(c, F, **h).displacement_vector)
    n0, n1 = g["shape"]
    slack = 1e-12 * (np.abs(P).max() + np.abs(g["U"]).max() + np.abs(g["V"]).max()) / (clear(F, P).min() * F["length"] + 1e-12) * F["slip"]
    t, snap = tolerance(F, P, np.zeros((len(P), 3)), np.zeros(len(P)))
    c.close("transposed", tr.reshape(n0, n1, 3).transpose(1, 0, 2).reshape(-1, 3), got, (t + slack + tol)[:, None] * np.ones(3))
    c.ev("regrouped grids")
    c.sig("independent", kind(F), n0, n1)


def symmetry(c):
    """Slip, position and strike."""
    rng = c.rng
    F, S = fault(rng)
    F["center"] = rng.uniform(-2, 2, 2) * S
    g = grid_for(rng, F, S)
    P = points(g)
    if clear(F, P).min() < 0.01:
        return
    c.note(fault=F, grid=g)
    base = c.call("displacement_vector", lambda: make(c, F, **g).displacement_vector)
    r, err = np.zeros((len(P), 3)), np.zeros(len(P))
    t, snap = tolerance(F, P, base, err)
    tol = (10 * t + 1e-9 * np.linalg.norm(base, axis=-1) + 1e-11 * F["slip"])[:, None] * np.ones(3)
    f = float(gen.logu(rng, 1e-3, 1e3))
    c.close("slip", c.call("slip", lambda: make(c, dict(F, slip=F["slip"] * f), **g).displacement_vector), base * f, tol * f)
    z = c.call("slip zero", lambda: make(c, dict(F, slip=0.0), **g).displacement_vector)
    c.close("no slip", z, np.zeros((len(P), 3)), 0.0)
    d = rng.uniform(-5, 5, 2) * S
    c.close("moved", c.call("moved", lambda: make(c, dict(F, center=F["center"] + d), **dict(g, O=g["O"] + d)).displacement_vector), base, tol)
    s2 = float(rng.uniform(0, 360))
    a = np.deg2rad(s2 - F["strike"])
    Q = np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])     # clockwise
    h = dict(g, O=F["center"] + Q @ (g["O"] - F["center"]), U=Q @ g["U"], V=Q @ g["V"])
    turned = c.call("turned", lambda: make(c, dict(F, strike=s2), **h).displacement_vector)
    c.close("turned", turned, np.c_[base[:, :2] @ Q.T, base[:, 2]], tol)
    k = float(gen.logu(rng, 1e-2, 1e2))
    c.close("moduli", c.call("moduli", lambda: make(c, dict(F, beta=F["beta"] * k, mu=F["mu"] * k), **g).displacement_vector), base, tol)
    lin = [c.call("rake", lambda v=v: make(c, dict(F, rake=v), **g).displacement_vector) for v in (0.0, 90.0)]
    rk = np.deg2rad(F["rake"])
    c.close("rake", base, np.cos(rk) * lin[0] + np.sin(rk) * lin[1], tol)
    # two halves of a fault
    m = F["depth_top"] + rng.uniform(0.2, 0.8) * (F["depth_bottom"] - F["depth_top"])
    parts = [make(c, dict(F, depth_bottom=m), **g), make(c, dict(F, depth_top=m), **g)]
    c.close("halves", c.call("halves", lambda: sum(p.displacement_vector for p in parts)), base, 2 * tol + 1e-10 * F["slip"])
    c.ev("transformed problems", 7)
    c.sig("symmetry", kind(F))


def jump(c):
    """Across the trace of a fault that breaks the surface the displacement jumps by the slip."""
    rng = c.rng
    F, S = fault(rng)
    F["depth_top"] = 0.0
    F["depth_bottom"] = F["length"] = S
    F["center"] = np.zeros(2)
    F["dip"] = float(rng.uniform(20, 90))
    x = rng.uniform(-0.3, 0.3) * S
    h = 1e-4 * S
    up = place(F, [x, x], [h, -h])
    u = [c.call("displacement_vector", lambda p=p: make(c, F, O=p, U=[1.0, 0.0], V=[0.0, 1.0], shape=(1, 1)).displacement_vector)[0] for p in up]
    j = np.asarray(u[0]) - np.asarray(u[1])
    e1, e2 = K.frame(F["strike"])
    a, r = np.deg2rad(F["dip"]), np.deg2rad(F["rake"])
    along = np.r_[-e1, 0.0]                          # strike
    down = np.r_[np.cos(a) * e2, -np.sin(a)]
    want = F["slip"] * (np.cos(r) * along - np.sin(r) * down)     # rake 90 lifts the hanging wall
    c.note(fault=F)
    c.close("jump", j, want, 3e-3 * F["slip"])
    c.ev("jumps")
    c.sig("jump", kind(F))


def plots(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = c.rng
    F, S = fault(rng)
    n0, n1 = (int(v) for v in rng.integers(2, 9, 2))
    s, t = S * rng.uniform(1, 3), S * rng.uniform(1, 3)
    g = dict(O=F["center"] + rng.uniform(-1, 0, 2) * S, U=np.array([s, 0.0]), V=np.array([0.0, t]), shape=(n0, n1))
    if clear(F, points(g)).min() < 1e-3:
        return
    o = make(c, F, **g)
    try:
        fig, ax = plt.subplots()
        own = rng.random() < 0.7
        out = c.call("plot_displacement", o.plot_displacement, ax=ax) if own else c.call("plot_displacement", o.plot_displacement)
        mesh = out[0]
        c.check((mesh.axes is ax) == own, "axes", "plotted in other axes")
        u = o.displacement_vector[:, 2].reshape(n1, n0)
        a = np.ma.filled(np.ma.asarray(mesh.get_array()), np.nan).reshape(n1, n0)
        c.close("plotted", a, u, 1e-12 * np.abs(u).max())
        co = np.asarray(mesh.get_coordinates())
        c.close("plotted x", co[..., 0], np.broadcast_to(g["O"][0] + s * np.arange(n0 + 1) / n0, (n1 + 1, n0 + 1)), 1e-9 * (abs(g["O"][0]) + s))
        c.close("plotted y", co[..., 1], np.broadcast_to((g["O"][1] + t * np.arange(n1 + 1) / n1)[:, None], (n1 + 1, n0 + 1)), 1e-9 * (abs(g["O"][1]) + t))
        c.close("limits", np.array(mesh.get_clim()), np.array([u.min(), u.max()]), 1e-12 * np.abs(u).max())
        c.ev("plots")
        c.sig("plot", n0 == n1, kind(F))
    finally:
        plt.close("all")


TARGETS = [("grids", grids, 1500, 60000), ("special", special, 900, 30000), ("independent", independent, 400, 15000),
           ("symmetry", symmetry, 500, 20000), ("jump", jump, 300, 10000), ("large", large, 60, 3000), ("plots", plots, 40, 500)]
REQUIRE = {"grids": 300, "points": 2000, "special points": 500, "single points": 200, "regrouped grids": 100, "transformed problems": 500,
           "jumps": 100, "plots": 10, "points of large grids": 100}
