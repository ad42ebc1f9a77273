"""Conductive and permeable spheres in a uniform field."""
import numpy as np
from scipy.constants import epsilon_0

import bulk
import gen
from core import EPS, LD
from ref_basic import ld, norm

BUILD = None
TOL = 1000 * EPS
QUICK = 15
RULE = ("a case draws a sphere (radius, contrast over twelve decades in both directions, location, primary field "
        "in any direction) and points inside, outside and next to the surface, and compares potential, field, "
        "flux / current density and charge density, as total, primary, secondary and all of them, with the exact "
        "solution in 80 bit arithmetic; interface conditions are checked on pairs of points; distinct = (sphere, "
        "field asked for, contrast, region, call style)")
ASSUMPTIONS = ["points within rounding of the surface are not promised for quantities that jump there"]
FIELDS = ("total", "primary", "secondary", "all")


def make(c, kind):
    from geoana.em import static
    R = gen.logu(c.rng, 1e-2, 1e4) if c.rng.random() < 0.8 else gen.logu(c.rng, 1e-7, 1e8)
    p0 = gen.wide(c.rng, 1e-6, 1e3)
    p1 = p0 * gen.logu(c.rng, 1e-6, 1e6)
    if c.rng.random() < 0.1:
        p1 = p0
    loc = gen.location(c.rng, 2 * R)
    F = gen.direction(c.rng) * gen.wide(c.rng, 1e-3, 1e3)
    if kind == "electro":
        cls, a, b = static.ElectrostaticSphere, "sigma_sphere", "sigma_background"
    else:
        cls, a, b = static.MagnetostaticSphere, "mu_sphere", "mu_background"
    how = c.rng.integers(4)
    if how == 0:
        s = c.call("sphere", cls, 1.0, 1.0, 2.0)
        for k, v in c.rng.permutation(np.array([("radius", R), (a, p1), (b, p0), ("primary_field", F),
                                                ("location", loc)], dtype=object)):
            setattr(s, k, v)
    elif how == 1:
        F = np.array([1.0, 0, 0])
        loc = np.zeros(3)
        s = c.call("sphere", cls, R, p1, p0)
    else:
        s = c.call("sphere", cls, **{"radius": R, a: p1, b: p0, "primary_field": list(F), "location": loc})
    c.note(kind=kind, R=R, inner=p1, outer=p0, location=loc, primary=F)
    return s, R, p1, p0, loc, F


def solution(P, R, p1, p0, loc, F):
    d = ld(P) - ld(loc)
    r = norm(d)
    R, p1, p0, F = LD(R), LD(p1), LD(p0), ld(F)
    k = (p1 - p0) / (p1 + 2 * p0)
    ins = r <= R
    safe = np.where(ins, R, r)
    dF = d @ F
    q = 3 * p0 / (p1 + 2 * p0)
    V = np.where(ins, -q * dF, -dF * (1 - k * (R / safe) ** 3))
    E = np.where(ins[:, None], q * F, F * (1 - k * (R / safe) ** 3)[:, None]
                 + 3 * k * (dF * R ** 3 / safe ** 5)[:, None] * d)
    p = np.where(ins, p1, p0)
    J = p[:, None] * E
    fn = norm(F[None])[0]
    return dict(d=d, r=r, inside=ins, V=V, Vp=-dF, E=E, Ep=np.broadcast_to(F, E.shape), J=J,
                Jp=np.broadcast_to(p0 * F, E.shape), tV=TOL * fn * (np.maximum(r, R) * 4),
                tE=np.broadcast_to(TOL * 8 * fn, E.shape), tJ=TOL * 8 * fn * np.maximum(p[:, None], p0) * np.ones((1, 3)), k=k)


def compare(c, name, fn, P, tot, pri, tol, tail):
    f = FIELDS[c.rng.integers(4)]
    kw = {} if f == "all" and c.rng.random() < 0.5 else {"field": f}
    style = gen.COMMON[c.rng.integers(len(gen.COMMON))]
    arg, locsh = gen.styled(P, style)
    c.note(field=f, style=style)
    out = c.call(name, fn, arg, **kw)
    if f == "all":
        if not c.check(isinstance(out, (tuple, list)) and len(out) == 3, name, "expected three arrays"):
            return
        parts = dict(zip(FIELDS[:3], out))
    else:
        parts = {f: out}
    n = int(np.prod(locsh)) if locsh else 1
    want = {"total": tot, "primary": pri, "secondary": tot - pri}
    for k, v in parts.items():
        if c.check(np.shape(v) == tuple(locsh) + tail, name + ":shape", "%s %s: shape %s" % (name, k, np.shape(v))):
            c.close("%s %s" % (name, k), np.reshape(v, (n,) + tail), want[k][:n], tol[:n])
    c.sig(name, f, style)


def sphere(c):
    kind = ("electro", "magneto")[c.idx % 2]
    s, R, p1, p0, loc, F = make(c, kind)
    P = gen.points(c.rng, 14, loc, 1e-2 * R, 50 * R)
    P[:5] = loc + gen.direction(c.rng, 5) * R * (1 + gen.signed(c.rng, 1e-8, 0.5, 5))[:, None]
    P[5] = loc
    P = P[c.rng.permutation(14)]
    c.note(P=P)
    q = solution(P, R, p1, p0, loc, F)
    edge = np.abs(q["r"] - LD(R)) < 1e-12 * (R + np.abs(loc).max())
    E, J = q["E"].copy(), q["J"].copy()
    E[edge] = J[edge] = np.nan
    slack = 1 + np.abs(loc).max() / R
    c.ev("inside", int(q["inside"].sum()))
    c.ev("outside", int((~q["inside"]).sum()))
    compare(c, kind + " potential", s.potential, P, q["V"], q["Vp"], q["tV"] * slack, ())
    fld, flx = ("electric_field", "current_density") if kind == "electro" else ("magnetic_field", "magnetic_flux_density")
    compare(c, kind + " " + fld, getattr(s, fld), P, E, q["Ep"], q["tE"] * slack, (3,))
    compare(c, kind + " " + flx, getattr(s, flx), P, J, q["Jp"], q["tJ"] * slack, (3,))
    if kind == "electro":
        S = loc + gen.direction(c.rng, 8) * R * (1 + gen.signed(c.rng, 1e-4, 0.4, 8))[:, None]
        dr = None if c.rng.random() < 0.5 else R * gen.logu(c.rng, 1e-3, 0.9) if c.rng.random() < 0.9 else 0.0
        w = solution(S, R, p1, p0, loc, F)
        h = LD(0.05 * R if dr is None else dr) / 2
        off = np.abs(w["r"] - LD(R))
        want = np.where(off < h, LD(epsilon_0) * 3 * (w["d"] @ ld(F)) * w["k"] / w["r"], LD(0))
        want = np.where(np.abs(off - h) < 1e-9 * R * slack, np.nan, want)
        got, n = gen.ask(c, "charge_density", s.charge_density, S, tail=(), **({} if dr is None else {"dr": dr}))
        c.close("charge density", got, want[:n], TOL * epsilon_0 * 3 * np.linalg.norm(F) * slack)
        c.ev("shell", int((off < h).sum()))


def interface(c):
    """Across the surface: tangential field, normal flux and potential are continuous,
    and the jump of the normal field is the charge density."""
    kind = ("electro", "magneto")[c.idx % 2]
    s, R, p1, p0, loc, F = make(c, kind)
    n = gen.unit(c.rng, 8)
    e = 1e-9
    slack = 1 + np.abs(loc).max() / R
    a, b = loc + n * R * (1 - e), loc + n * R * (1 + e)
    fld, flx = ("electric_field", "current_density") if kind == "electro" else ("magnetic_field", "magnetic_flux_density")
    Ea, Eb = (c.call(fld, getattr(s, fld), x, field="total") for x in (a, b))
    Ja, Jb = (c.call(flx, getattr(s, flx), x, field="total") for x in (a, b))
    Va, Vb = (c.call("potential", s.potential, x, field="total") for x in (a, b))
    f = np.linalg.norm(F)
    tan = Eb - Ea - ((Eb - Ea) * n).sum(1)[:, None] * n
    c.close("tangential field is continuous", tan, np.zeros_like(tan), 1e-7 * f * slack)
    c.close("normal flux is continuous", (Jb * n).sum(1), (Ja * n).sum(1), 1e-7 * f * slack * max(p0, p1) * min(1, 9 * p0 / p1 + 1))
    c.close("potential is continuous", Vb, Va, 1e-7 * f * R * slack)
    if kind == "electro":
        q = c.call("charge_density", s.charge_density, b)
        c.close("charge = jump of the normal field", q, epsilon_0 * ((Eb - Ea) * n).sum(1), 1e-7 * epsilon_0 * f * slack)
    c.ev("interfaces", 8)
    c.sig("interface", kind, p1 > p0)


def surface(c):
    """Points exactly on the surface: the potential is continuous, and field and flux
    belong to the same side."""
    from geoana.em import static
    kind = ("electro", "magneto")[c.idx % 2]
    a, b, h = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1)][c.rng.integers(4)]
    sc = 2.0 ** c.rng.integers(-4, 10)
    v = np.array([[a, b, 0.0]] * 4) * gen.sgn(c.rng, (4, 3)) * sc
    v = c.rng.permuted(v, axis=1)
    R = h * sc
    p0 = gen.wide(c.rng, 1e-3, 1e3)
    p1 = p0 * gen.logu(c.rng, 1e-4, 1e4)
    F = gen.direction(c.rng) * gen.wide(c.rng, 1e-3, 1e3)
    loc = np.round(c.rng.uniform(-100, 100, 3))
    cls = static.ElectrostaticSphere if kind == "electro" else static.MagnetostaticSphere
    s = c.call("sphere", cls, R, p1, p0, primary_field=F, location=loc)
    P = loc + v
    c.note(kind=kind, R=R, inner=p1, outer=p0, location=loc, primary=F, P=P)
    q = solution(P, R, p1, p0, loc, F)
    k, Fl = q["k"], ld(F)
    n = ld(v) / LD(R)
    Eo = Fl * (1 - k) + 3 * k * (n @ Fl)[:, None] * n
    Ei = np.broadcast_to(3 * LD(p0) / (LD(p1) + 2 * LD(p0)) * Fl, Eo.shape)
    fld, flx = ("electric_field", "current_density") if kind == "electro" else ("magnetic_field", "magnetic_flux_density")
    V = c.call("potential", s.potential, P, field="total")
    c.close("potential on the surface", V, q["V"], q["tV"])
    E = c.call(fld, getattr(s, fld), P, field="total")
    J = c.call(flx, getattr(s, flx), P, field="total")
    fn = norm(Fl[None])[0]
    if not c.check(np.shape(E) == (4, 3) and np.shape(J) == (4, 3), "surface:shape", "shape"):
        return
    for i in range(4):
        ok = False
        for e, p in ((Ei[i], p1), (Eo[i], p0)):
            near = np.abs(E[i] - e).max() <= TOL * 8 * fn
            ok |= bool(near and np.abs(J[i] - LD(p) * e).max() <= TOL * 8 * fn * p)
        c.check(ok, "%s: field and flux on the surface" % kind, "belong to no single side",
                point=P[i], field=E[i], flux=J[i], inner=Ei[i], outer=Eo[i])
    for name, fn_ in (("potential", s.potential), (fld, getattr(s, fld)), (flx, getattr(s, flx))):
        t, p, sec = c.call(name, fn_, P, field="all")
        c.close("on the surface %s: total = primary + secondary" % name, t, np.asarray(p) + np.asarray(sec),
                TOL * (np.abs(p) + np.abs(t) + 1e-300))
    c.ev("exactly on the surface", 4)
    c.sig("surface", kind, a, p1 > p0)


TARGETS = [("bulk", bulk.target("static.ElectrostaticSphere", "static.MagnetostaticSphere"), 9, 1620), ("surface", surface, 60, 4000), ("sphere", sphere, 800, 40000), ("interface", interface, 200, 10000)]
REQUIRE = {"exactly on the surface": 100, "inside": 300, "outside": 300, "shell": 100, "interfaces": 100}
REQUIRE["many points"] = 20
