"""Line currents and point currents in a whole space."""
import numpy as np

import bulk
import gen
import loader
from core import EPS, LD
from ref_basic import PI, ld, mu_0, norm, segment

C = 300
QUICK = 15
RULE = ("a case draws a wire (single electrode, segment, open polyline, closed loop, with repeated nodes, nearly closed, with map coordinates, ends sharing coordinates, "
        "axis-parallel or oblique segments, long and short), medium and current, and points (generic, in line "
        "with a segment, next to the wire, in planes through it), and compares A, B, H, V, E and J with 80 bit "
        "sums over segments, for the compiled and the pure NumPy package; distinct = (wire, package, kind of "
        "points, call style)")
ASSUMPTIONS = ["points on the wire and on the electrodes are excluded"]
_cfg = {}


def setup(tier, seed):
    import geoana.em.static
    _cfg["compiled"] = geoana.em.static
    _cfg["numpy"] = loader.Config(None)["em.static"]


WIRES = ("electrode", "segment", "open", "loop", "repeated", "straight", "square", "nearly-closed", "far-away", "aligned-ends")
PTS = ("generic", "collinear", "near", "plane", "far")


def wire(rng, kind):
    L = gen.logu(rng, 1e-1, 1e3) if rng.random() < 0.8 else gen.logu(rng, 1e-12, 1e7)
    loc = gen.location(rng, 50 if L > 0.05 else 50 * L)
    if kind == "far-away":                    # short wire with map coordinates
        L = gen.logu(rng, 1e-2, 1e1)
        loc = np.round(rng.uniform(1e5, 6e6, 3))
        return loc + np.array([[0, 0, 0], [1, 0, 0], [1, 2, -1.0]])[:rng.integers(2, 4), rng.permutation(3)] * L, L
    if kind == "electrode":
        return loc[None] if rng.random() < 0.5 else loc, L
    if kind == "segment":
        return np.array([loc, loc + gen.direction(rng) * L]), L
    if kind == "straight":                    # several collinear pieces
        t = np.sort(rng.uniform(0, 1, 4))
        return loc + np.outer(t, gen.direction(rng) * L), L
    if kind == "square":
        a = L / 2
        q = np.array([[-a, -a, 0], [a, -a, 0], [a, a, 0], [-a, a, 0], [-a, -a, 0.0]])
        q = q[:, rng.permutation(3)]
        return loc + q, L
    n = rng.integers(3, 7)
    w = loc + np.cumsum(gen.direction(rng, n) * (L * gen.logu(rng, 0.2, 1, n))[:, None], axis=0)
    if kind == "loop":
        w = np.vstack([w, w[:1]])
    if kind == "nearly-closed":               # the ends are close, but apart
        w = np.vstack([w, w[:1] + gen.direction(rng) * L * gen.logu(rng, 1e-9, 1e-2)])
    if kind == "aligned-ends":                # the ends share one or two coordinates
        i = rng.permutation(3)[:rng.integers(1, 3)]
        w[-1, i] = w[0, i]
    if kind == "repeated":
        i = rng.integers(n)
        w = np.insert(w, i, w[i], axis=0)
    return w, L


def pts(rng, W, L, kind, n=8):
    W = np.atleast_2d(W)
    k = len(W)
    P = np.empty((n, 3))
    for i in range(n):
        j = rng.integers(max(1, k - 1))
        a = W[j]
        b = W[j + 1] if k > 1 else W[j] + np.array([L, 0, 0])
        t = b - a
        if not t.any():
            t = np.array([L, 0, 0])
        e = np.cross(t, gen.unit(rng))
        e /= np.linalg.norm(e)
        if kind == "collinear":
            u = rng.choice([-1, 1]) * gen.logu(rng, 1e-2, 10)
            P[i] = a + (u if u < 0 else 1 + u) * t
        elif kind == "near":
            P[i] = a + rng.uniform(-0.2, 1.2) * t + e * L * gen.logu(rng, 1e-5, 1e-1)
        elif kind == "plane":
            P[i] = a + gen.direction(rng) * L * gen.logu(rng, 0.1, 3)
            P[i, rng.integers(3)] = a[rng.integers(3)] if rng.random() < 0.1 else P[i, 0]
        elif kind == "far":
            P[i] = a + gen.direction(rng) * L * gen.logu(rng, 5, 100)
        else:
            P[i] = a + gen.direction(rng) * L * gen.logu(rng, 0.05, 5)
    return P


def expected(P, W, cur, mu, sigma):
    W = np.atleast_2d(W)
    P = ld(P)
    A = np.zeros_like(P)
    B = np.zeros_like(P)
    tA = np.zeros(len(P), LD)
    tB = np.zeros(len(P), LD)
    closest = np.full(len(P), np.inf, LD)
    k = LD(mu) * LD(cur) / (4 * PI)
    for p0, p1 in zip(W[:-1], W[1:]):
        if (p0 == p1).all():
            continue
        a, b, delta, l, R = segment(P, p0, p1)
        A += k * a
        B += k * b
        loss = 1 + R / delta
        tA += abs(k) * EPS * C * (np.abs(np.log(R)) + np.abs(np.log(R / delta)) + loss)
        tB += abs(k) * EPS * C * loss * np.minimum(2 / delta, l / delta ** 2)
        closest = np.minimum(closest, delta)
    q = LD(cur) / (4 * PI * LD(sigma))
    rA = P - ld(W[-1])
    nA = norm(rA)
    if len(W) == 1:
        V, E = q / nA, q * rA / nA[:, None] ** 3
        tV, tE = abs(q) / nA, abs(q) / nA ** 2
        closest = nA
    elif (W[0] == W[-1]).all():
        V, E = np.zeros(len(P)), np.zeros((len(P), 3))
        tV = tE = np.zeros(len(P), LD)
    else:
        rB = P - ld(W[0])
        nB = norm(rB)
        V = q * (1 / nA - 1 / nB)
        E = q * (rA / nA[:, None] ** 3 - rB / nB[:, None] ** 3)
        tV, tE = abs(q) * (1 / nA + 1 / nB), abs(q) * (1 / nA ** 2 + 1 / nB ** 2)
    f = C * EPS
    H = B / LD(mu)
    return {"vector_potential": (A, tA[:, None]), "magnetic_flux_density": (B, tB[:, None]),
            "magnetic_field": (H, tB[:, None] / LD(mu)), "scalar_potential": (V, f * tV),
            "electric_field": (E, f * tE[:, None]),
            "current_density": (E * LD(sigma), f * tE[:, None] * LD(sigma))}, closest


def line(c):
    wk = WIRES[c.idx % len(WIRES)]
    pk = PTS[(c.idx // len(WIRES)) % len(PTS)]
    W, L = wire(c.rng, wk)
    P = pts(c.rng, W, L, pk)
    cur = gen.swide(c.rng, 1e-3, 1e3)
    mu = mu_0 * gen.logu(c.rng, 0.5, 100)
    sigma = gen.wide(c.rng, 1e-6, 1e3)
    ex, closest = expected(P, W, cur, mu, sigma)
    keep = closest > 1e-6 * L
    if not keep.any():
        return
    P = P[keep]
    ex = {k: (w[keep], t[keep]) for k, (w, t) in ex.items()}
    c.note(wire=wk, points=pk, nodes=W, current=cur, mu=mu, sigma=sigma, P=P)
    for pkg, mod in _cfg.items():
        if c.rng.random() < 0.7:
            s = c.call("LineCurrent", mod.LineCurrentWholeSpace, W, current=cur, mu=mu, sigma=sigma)
        else:
            s = c.call("LineCurrent", mod.LineCurrentWholeSpace, [[0, 0, 0], [1, 0, 0]])
            s.mu, s.current, s.nodes, s.sigma = mu, cur, np.atleast_2d(W).tolist(), sigma
        for name, (w, t) in ex.items():
            got, n = gen.ask(c, name, getattr(s, name), P, tail=() if w.ndim == 1 else (3,))
            c.close("line %s (%s)" % (name, pkg), got, w[:n], np.broadcast_to(t, w.shape)[:n])
        c.sig(wk, pk, pkg, c.info["style"])
    c.ev("wire:" + wk)
    c.ev("points:" + pk)


def point(c):
    mod = _cfg["compiled"]
    loc = gen.location(c.rng)
    L = gen.wide(c.rng, 1e-2, 1e3, 1e5)
    P = gen.points(c.rng, 8, loc, 0.05 * L, 20 * L)
    cur = gen.swide(c.rng, 1e-3, 1e3)
    rho = gen.wide(c.rng, 1e-3, 1e5)
    c.note(location=loc, rho=rho, current=cur, P=P)
    s = c.call("PointCurrent", mod.PointCurrentWholeSpace, rho, current=cur, location=loc)
    if c.rng.random() < 0.4:
        s = c.call("PointCurrent", mod.PointCurrentWholeSpace, 1.0)
        s.location, s.current, s.rho = list(loc), cur, rho
    d = ld(P) - ld(loc)
    r = norm(d)
    k = LD(cur) * LD(rho) / (4 * PI)
    f = C * EPS
    for name, w, t in (("potential", k / r, f * abs(k) / r), ("scalar_potential", k / r, f * abs(k) / r),
                       ("electric_field", k * d / r[:, None] ** 3, f * (abs(k) / r ** 2)[:, None]),
                       ("current_density", LD(cur) / (4 * PI) * d / r[:, None] ** 3,
                        f * (LD(abs(cur)) / r ** 2)[:, None])):
        got, n = gen.ask(c, name, getattr(s, name), P, tail=() if w.ndim == 1 else (3,))
        c.close("point " + name, got, w[:n], t[:n])
    for name in ("vector_potential", "magnetic_field", "magnetic_flux_density"):
        got, n = gen.ask(c, name, getattr(s, name), P)
        c.close("point " + name, got, np.zeros_like(got), 0)
    c.ev("point currents")
    c.sig("point", c.info["style"], cur > 0)


TARGETS = [("bulk", bulk.target("static.LineCurrentWholeSpace", "static.PointCurrentWholeSpace"), 9, 1620), ("line", line, 700, 40000), ("point", point, 200, 10000)]
REQUIRE = dict({"wire:" + w: 40 for w in WIRES}, **{"points:" + p: 60 for p in PTS})
REQUIRE["many points"] = 20
