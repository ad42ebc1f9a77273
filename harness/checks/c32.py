"""Options that are left out take their documented defaults; position, keyword and old names mean the same."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import gen
import quake
import registry as R

BUILD = "plain"
QUICK = 3
RULE = ("a case leaves a random subset of the optional arguments out of a construction or call, and compares everything readable and every "
        "result with an execution that spells out the documented defaults; further executions pass the same arguments by position, by "
        "keyword in another order, and under the older names; distinct = (callable, omitted set, form)")
ASSUMPTIONS = ["the defaults and the order of arguments are those of the documentation at the pinned commit",
               "names of the required arguments are used by position only, except for those of constructors"]

ZERO = np.zeros(3)
EM = dict(sigma=1.0, mu=mu_0, epsilon=epsilon_0)
DIP = dict(location=ZERO, orientation="X")
MAG = dict(DIP, moment=1.0)
EL = dict(DIP, length=1.0, current=1.0)
SPHERE = dict(primary_field=np.array([1.0, 0.0, 0.0]), location=ZERO)
WAVE = dict(EM, amplitude=1.0, orientation="X")
DEFAULTS = {
    "gravity.PointMass": dict(mass=1.0, location=ZERO),
    "gravity.Sphere": dict(location=ZERO),
    "gravity.Prism": dict(rho=1.0),
    "static.MagneticPrism": dict(magnetization=np.array([0.0, 0.0, 1.0])),
    "static.MagneticDipoleWholeSpace": dict(EM, **MAG),
    "static.MagneticPoleWholeSpace": dict(EM, **MAG),
    "static.CircularLoopWholeSpace": dict(EM, **DIP, radius=np.sqrt(1 / np.pi), current=1.0),
    "static.LineCurrentWholeSpace": dict(EM, current=1.0),
    "static.PointCurrentWholeSpace": dict(current=1.0, location=ZERO),
    "static.PointCurrentHalfSpace": dict(current=1.0, location=ZERO),
    "static.DipoleHalfSpace": dict(location_a=np.array([-1.0, 0.0, 0.0]), location_b=np.array([1.0, 0.0, 0.0]), current=1.0),
    "static.ElectrostaticSphere": SPHERE,
    "static.MagnetostaticSphere": SPHERE,
    "fdem.ElectricDipoleWholeSpace": dict(EM, **EL, quasistatic=False),
    "fdem.MagneticDipoleWholeSpace": dict(EM, **MAG, quasistatic=False),
    "fdem.HarmonicPlaneWave": dict(WAVE, quasistatic=False),
    "fdem.MagneticDipoleHalfSpace": dict(EM, **MAG, quasistatic=False),
    "fdem.MagneticDipoleLayeredHalfSpace": dict(EM, **MAG, quasistatic=False),
    "tdem.ElectricDipoleWholeSpace": dict(EM, **EL),
    "tdem.TransientPlaneWave": WAVE,
    "tdem.VerticalMagneticDipoleHalfSpace": dict(EM, location=ZERO, moment=1.0),
}
ORDER = {
    "gravity.PointMass": ("mass", "location"), "gravity.Sphere": ("radius", "rho", "location"),
    "gravity.Prism": ("min_location", "max_location", "rho"),
    "static.MagneticPrism": ("min_location", "max_location", "magnetization"),
    "static.MagneticDipoleWholeSpace": ("sigma", "mu", "epsilon"), "static.MagneticPoleWholeSpace": ("sigma", "mu", "epsilon"),
    "static.CircularLoopWholeSpace": ("radius", "current"), "static.LineCurrentWholeSpace": ("nodes", "current"),
    "static.PointCurrentWholeSpace": ("rho", "current", "location"), "static.PointCurrentHalfSpace": ("rho", "current", "location"),
    "static.DipoleHalfSpace": ("rho", "location_a", "location_b", "current"),
    "static.ElectrostaticSphere": ("radius", "sigma_sphere", "sigma_background", "primary_field", "location"),
    "static.MagnetostaticSphere": ("radius", "mu_sphere", "mu_background", "primary_field", "location"),
    "fdem.ElectricDipoleWholeSpace": ("frequency", "quasistatic"), "fdem.MagneticDipoleWholeSpace": ("frequency", "quasistatic"),
    "fdem.HarmonicPlaneWave": ("amplitude", "orientation"), "fdem.MagneticDipoleHalfSpace": ("frequency",),
    "fdem.MagneticDipoleLayeredHalfSpace": ("frequency", "thickness"), "tdem.ElectricDipoleWholeSpace": ("time",),
    "tdem.TransientPlaneWave": ("amplitude", "orientation"), "tdem.VerticalMagneticDipoleHalfSpace": ("time",),
}


def near(x, y, rtol=1e-12):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y):
        return True
    if x.dtype.kind not in "biufc" or y.dtype.kind not in "biufc":
        return False
    fin = np.abs(y[np.isfinite(y)])
    return bool(np.allclose(x, y, rtol=rtol, atol=rtol * (fin.max() if fin.size else 0), equal_nan=True))


def reading(e, k, v, ctx):
    """What a parameter that was given as v reads like."""
    if k == "orientation" and isinstance(v, str):
        return np.eye(3)["XYZ".index(v.upper())]
    if e.cls == "MagneticDipoleLayeredHalfSpace":
        if k == "frequency":
            return np.atleast_1d(v)
        if k in ("sigma", "mu", "epsilon") and np.ndim(v) == 0:
            return None
    return v


def outcome(o, m, X, kw, pos=()):
    try:
        return [np.array(a) for a in R.leaves(getattr(o, m.name)(X.copy(), *pos, **kw))]
    except Exception as x:
        return "%s: %s" % (type(x).__name__, x)


def compare(c, key, got, want, what):
    if isinstance(want, str):
        c.check(isinstance(got, str), key, "%s gives a result, the spelled-out call raises %s" % (what, want))
        return
    ok = not isinstance(got, str) and len(got) == len(want) and all(near(x, y) for x, y in zip(got, want))
    c.check(ok, key, "%s gives %s, the spelled-out call %s" % (what, str(got)[:150], str(want)[:150]))
    c.ev("results compared")


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def classes(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = {k: v for k, v in e.state(rng, ctx).items() if e.params[k].in_init}
    D = DEFAULTS[e.key]
    opt = [k for k in st if k in D]
    p = rng.choice([0.2, 0.5, 0.8, 1.0])
    omit = [k for k in opt if rng.random() < p]
    if not omit:
        omit = [opt[rng.integers(len(opt))]] if opt else []
    full = dict(st, **{k: (v if isinstance(v, str) else np.array(v) if np.ndim(v) else v) for k, v in D.items() if k in omit})
    given = {k: v for k, v in st.items() if k not in omit}
    if e.key.startswith("fdem.MagneticDipoleLayered") and not full["quasistatic"]:
        if "quasistatic" in omit and rng.random() < 0.7:
            pass                    # the field refuses this; readings are compared all the same
    c.note(entry=e.key, omitted=omit, given={k: str(v)[:80] for k, v in given.items()})
    key = "%s defaults" % e.key
    names = ORDER[e.key]
    n = 0
    while n < len(names) and names[n] in given:
        n += 1
    n = int(rng.integers(n + 1))
    a = c.call(key, e.type(), *[given[k] for k in names[:n]], **shuffled(rng, {k: v for k, v in given.items() if k not in names[:n]}))
    b = c.call(key, e.type(), **full)
    for k in full:
        w = reading(e, k, full[k], ctx)
        g = getattr(a, k)
        if w is None:
            w = getattr(b, k)
        if isinstance(w, bool):
            c.check(g is w or g == w, "%s.%s" % (e.key, k), "reads %s, expected %s (%s)" % (g, w, "omitted" if k in omit else "given"))
        else:
            c.check(near(g, w), "%s.%s" % (e.key, k), "reads %s, expected %s (%s)" % (g, w, "omitted" if k in omit else "given"))
        if e.cls == "MagneticDipoleLayeredHalfSpace" and k in omit and k in ("sigma", "mu", "epsilon"):
            c.check(np.allclose(g, D[k], rtol=1e-12, atol=0), "%s.%s" % (e.key, k), "reads %s, documented default %s" % (g, D[k]))
    X = e.locations(rng, ctx, 3)
    for m in e.methods:
        if rng.random() < 0.6:
            compare(c, "%s.%s" % (e.key, m.name), outcome(a, m, X, {}), outcome(b, m, X, {}), "without %s" % (omit,))
    # what one object does to its arrays leaves the defaults alone
    for k in omit:
        v = getattr(a, k)
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and rng.random() < 0.5:
            v += 1.5
            f = c.call(key, e.type(), **given)
            c.check(near(getattr(f, k), getattr(b, k)), "%s.%s:shared" % (e.key, k), "the default follows an earlier object's array")
            c.ev("defaults after a change in place")
    c.ev(e.key)
    c.ev("by position", n)
    c.sig(e.key, tuple(sorted(omit)), n)


def unknown(c):
    """Misspelt and missing arguments are refused."""
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = {k: v for k, v in e.state(rng, ctx).items() if e.params[k].in_init}
    req = [k for k in st if e.params[k].required]
    kind = rng.integers(3)
    args = {k: v for k, v in st.items() if k in req or rng.random() < 0.6}
    if kind == 0:
        k = str(rng.choice(["loc", "freq", "conductivity", "xyz", "foo", "Sigma", "momnt", "I", "_location", "orientations"]))
        args[k] = 1.0
        what = "the unknown argument %s" % k
    elif kind == 1 and req:
        k = req[rng.integers(len(req))]
        args.pop(k)
        what = "no %s" % k
    else:
        k = list(args)[rng.integers(len(args))] if args else "sigma"
        v = args.pop(k, 1.0)
        args[k + "s"] = v
        what = "the misspelt argument %ss" % k
    c.note(entry=e.key, what=what)
    try:
        c.ev("calls")
        e.type()(**shuffled(rng, args))
    except TypeError:
        c.check(True, e.key, "")
        c.ev("arguments refused")
    except Exception as x:
        c.check(False, e.key + ":arguments", "%s raises %s" % (what, type(x).__name__))
    else:
        c.check(False, e.key + ":arguments", "accepted %s" % what)
    c.sig("unknown", e.key, what)


def options(c):
    rng = c.rng
    E = [e for e in R.ENTRIES if any(m.options != ({},) or m.second or m.name == "charge_density" for m in e.methods)]
    e = E[c.idx % len(E)]
    ctx = R.context(rng)
    o = c.call(e.key, e.make, e.state(rng, ctx))
    X = e.locations(rng, ctx, int(rng.integers(1, 5)))
    for m in e.methods:
        key = "%s.%s" % (e.key, m.name)
        if m.name == "charge_density":
            name, default, other = "dr", 0.05 * o.radius, 0.3 * o.radius
        elif m.second:
            name, default, other = "xyz_n", None, e.locations(rng, ctx, len(X))
        elif m.options[-1].get("coordinates"):
            name, default, other = "coordinates", "cartesian", "cylindrical"
        elif e.cls in ("ElectrostaticSphere", "MagnetostaticSphere"):
            name, default, other = "field", "all", "secondary"
        elif m.options != ({},):
            name, default, other = "field", "secondary", "total"
        else:
            continue
        if name == "xyz_n" and len(X):
            compare(c, key, outcome(o, m, X, {}), outcome(o, m, X, {name: None}), "without xyz_n")
        else:
            compare(c, key, outcome(o, m, X, {}), outcome(o, m, X, {name: default}), "without %s" % name)
        compare(c, key, outcome(o, m, X, {}, (default,)), outcome(o, m, X, {name: default}), "%s by position" % name)
        compare(c, key, outcome(o, m, X, {}, (other,)), outcome(o, m, X, {name: other}), "%s by position" % name)
        c.sig(key, name)
        c.ev("options")


def functions_table():
    from geoana import spatial, utils
    from geoana.em import fdem, tdem
    f = lambda r: gen.logu(r, 1, 1e5, int(r.integers(1, 5)))
    t = lambda r: gen.logu(r, 1e-6, 1e-2, int(r.integers(1, 5)))
    s = lambda r: float(gen.logu(r, 1e-3, 10))
    m = lambda r: float(mu_0 * gen.logu(r, 1, 10))
    ep = lambda r: float(epsilon_0 * gen.logu(r, 1, 20))
    b = lambda r: bool(r.integers(2))
    a = lambda r: float(gen.logu(r, 1, 50))
    i = lambda r: float(gen.signed(r, 0.1, 10))
    n = lambda r: int(r.integers(1, 10))
    xy = lambda r: r.uniform(5, 50, (int(r.integers(1, 5)), 2)) * r.choice([-1, 1], 2)
    P = lambda r: r.uniform(-5, 5, (int(r.integers(1, 6)), 3))
    v = lambda r: r.uniform(-5, 5, 3)
    u = lambda r: gen.unit(r)
    EMF = [("sigma", 1.0, s), ("mu", mu_0, m)]
    LOOP = [("radius", 1.0, a), ("current", 1.0, i), ("turns", 1, n)]
    T = []
    T.append(("fdem.sigma_hat", fdem.sigma_hat, [f, s], [("epsilon", epsilon_0, ep), ("quasistatic", False, b)]))
    T.append(("fdem.wavenumber", fdem.wavenumber, [f, s], [("mu", mu_0, m), ("epsilon", epsilon_0, ep), ("quasistatic", False, b)]))
    T.append(("fdem.skin_depth", fdem.skin_depth, [f, s], [("mu", mu_0, m), ("epsilon", epsilon_0, ep), ("quasistatic", True, b)]))
    T.append(("fdem.loop field", fdem.vertical_magnetic_field_horizontal_loop, [f], EMF + LOOP + [("secondary", True, b)]))
    T.append(("fdem.loop flux", fdem.vertical_magnetic_flux_horizontal_loop, [f, s], EMF[1:] + LOOP + [("secondary", True, b)]))
    T.append(("tdem.diffusion_distance", tdem.diffusion_distance, [t, s], EMF[1:]))
    T.append(("tdem.peak_time", tdem.peak_time, [lambda r: gen.logu(r, 1, 100), s], EMF[1:]))
    T.append(("tdem.theta", tdem.theta, [t, s], EMF[1:]))
    for k in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop",
              "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop"):
        T.append(("tdem." + k, getattr(tdem, k), [t], EMF + LOOP))
    for k in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole",
              "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"):
        T.append(("tdem." + k, getattr(tdem, k), [t, xy], EMF + [("moment", 1.0, i)]))
    T.append(("spatial.distance", spatial.distance, [P], [("origin", ZERO, v)]))
    T.append(("spatial.vector_distance", spatial.vector_distance, [P], [("origin", ZERO, v)]))
    T.append(("spatial.repeat_scalar", spatial.repeat_scalar, [lambda r: r.uniform(-1, 1, 4)], [("dim", 3, n)]))
    T.append(("spatial.rotate_points_from_normals", spatial.rotate_points_from_normals, [P, u, u], [("x0", ZERO, v)]))
    T.append(("spatial.rotation_matrix_from_normals", spatial.rotation_matrix_from_normals, [u, u],
              [("tol", 1e-20, lambda r: float(r.choice([1e-20, 1e-6]))), ("as_matrix", True, b)]))
    A = lambda r: r.uniform(-1, 1, r.integers(1, 4, int(r.integers(1, 4))))
    T.append(("spatial.mkvc", spatial.mkvc, [A], [("n_dims", 1, lambda r: int(r.integers(1, 4)))]))
    T.append(("utils.mkvc", utils.mkvc, [A], [("n_dims", 1, lambda r: int(r.integers(1, 4)))]))
    T.append(("utils.check_xyz_dim", utils.check_xyz_dim, [P], [("dim", 3, lambda r: 3), ("dtype", float, lambda r: [float, complex][r.integers(2)])]))
    for k in ("cartesian_to_cylindrical", "cartesian_to_spherical", "cylindrical_to_cartesian", "spherical_to_cartesian"):
        T.append(("spatial." + k, getattr(spatial, k), [P], [("vec", None, None)]))
    return T


def plain(out):
    if callable(getattr(out, "as_matrix", None)):
        out = out.as_matrix()
    return [np.array(a) for a in R.leaves(out)]


def functions(c):
    rng = c.rng
    T = functions_table()
    name, fn, req, opt = T[c.idx % len(T)]
    R0 = [d(rng) for d in req]
    vals = {}
    for k, default, draw in opt:
        vals[k] = draw(rng) if draw else rng.uniform(-1, 1, np.shape(R0[0]))
    p = rng.choice([0.3, 0.7, 1.0])
    omit = [k for k, _, _ in opt if rng.random() < p] or [opt[rng.integers(len(opt))][0]]
    full = {k: (d if k in omit else vals[k]) for k, d, _ in opt}
    c.note(function=name, omitted=omit, required=R0, options={k: str(v)[:80] for k, v in full.items()})
    fresh = lambda: [np.array(x) if isinstance(x, np.ndarray) else x for x in R0]

    def run(what, *a, **k):
        return plain(c.call(name, fn, *a, **k))
    want = run("spelled out", *fresh(), **{k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in full.items()})
    compare(c, name, run("omitted", *fresh(), **shuffled(rng, {k: v for k, v in full.items() if k not in omit})), want, "without %s" % (omit,))
    compare(c, name + " by position", run("position", *fresh(), *[full[k] for k, _, _ in opt]), want, "everything by position")
    n = int(rng.integers(len(opt) + 1))
    names = [k for k, _, _ in opt]
    compare(c, name + " by position", run("mixed", *fresh(), *[full[k] for k in names[:n]], **shuffled(rng, {k: full[k] for k in names[n:]})), want,
            "%d options by position" % n)
    c.ev("functions")
    c.sig(name, tuple(omit), n)


def aliases(c):
    rng = c.rng
    from geoana import spatial, utils
    from geoana.em import static
    pairs = [("cartesian_2_cylindrical", "cartesian_to_cylindrical"), ("cylindrical_2_cartesian", "cylindrical_to_cartesian"),
             ("cartesian_2_spherical", "cartesian_to_spherical"), ("spherical_2_cartesian", "spherical_to_cartesian")]
    k = c.idx % 6
    if k < 4:
        P = rng.uniform(-5, 5, (int(rng.integers(1, 6)), 3))
        V = rng.uniform(-5, 5, P.shape) if rng.random() < 0.6 else None
        c.note(pair=pairs[k], P=P, V=V)
        f, g = (getattr(spatial, x) for x in pairs[k])
        a, b = (plain(c.call(n, h, P.copy(), None if V is None else V.copy())) for n, h in zip(pairs[k], (f, g)))
        compare(c, pairs[k][0], a, b, "the older name")
    elif k == 4:
        e = R.BY["static.LineCurrentWholeSpace"]
        ctx = R.context(rng)
        st = e.state(rng, ctx)
        a, b = c.call("LineCurrentFreeSpace", e.make, st, static.LineCurrentFreeSpace), c.call(e.key, e.make, st)
        X = e.locations(rng, ctx, 3)
        for m in e.methods:
            compare(c, "LineCurrentFreeSpace." + m.name, outcome(a, m, X, {}), outcome(b, m, X, {}), "the older name")
    else:
        A = rng.uniform(-1, 1, rng.integers(1, 4, int(rng.integers(1, 4))))
        n = int(rng.integers(1, 4))
        c.note(A=A, n=n)
        compare(c, "spatial.mkvc", plain(c.call("spatial.mkvc", spatial.mkvc, A, n)), plain(c.call("utils.mkvc", utils.mkvc, A, n)), "the older place")
    c.ev("older names")
    c.sig("alias", k)


OKSAR = dict(depth_bottom=1e4, strike=0.0, dip=45.0, rake=90.0, slip=0.5, length=1e4, beta=3e10, mu=3e10, shape=(300, 300))


def fault(c):
    rng = c.rng
    from geoana.earthquake.oksar import Oksar
    L = 2e4
    req = [rng.uniform(-1, 0, 2) * L, np.array([L, 0.0]) + rng.uniform(-100, 100, 2), np.array([0.0, L]) + rng.uniform(-100, 100, 2),
           rng.uniform(-0.3, 0.3, 2) * L, float(rng.choice([rng.uniform(100, 5e3), rng.uniform(100, 9e3)]))]
    val = dict(depth_bottom=req[4] + float(rng.uniform(1e3, 1e4)), strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(5, 85)),
               rake=float(rng.uniform(-180, 180)), slip=float(rng.uniform(0.1, 3)), length=float(rng.uniform(1e3, 2e4)),
               beta=float(gen.logu(rng, 1e10, 1e11)), mu=float(gen.logu(rng, 1e10, 1e11)), shape=(int(rng.integers(2, 6)), int(rng.integers(2, 6))))
    p = rng.choice([0.3, 0.7, 1.0])
    omit = [k for k in OKSAR if rng.random() < p]
    if rng.random() < 0.9:
        omit = [k for k in omit if k != "shape"]
    full = {k: OKSAR[k] if k in omit else val[k] for k in OKSAR}
    c.note(omitted=omit, required=req, options=full)
    a = c.call("Oksar", Oksar, *req, **shuffled(rng, {k: v for k, v in full.items() if k not in omit}))
    b = c.call("Oksar", Oksar, *req, **full)
    d = c.call("Oksar", Oksar, *req, *full.values())
    e = c.call("Oksar", Oksar, **shuffled(rng, dict(full, **dict(zip(("O", "U", "V", "center", "depth_top"), req)))))
    for what, o in (("omitted", a), ("by position", d), ("by keyword", e)):
        for k in full:
            c.check(near(getattr(o, k), full[k]), "Oksar.%s" % k, "%s: reads %s, expected %s" % (what, getattr(o, k), full[k]))
        for k, v in zip(("O", "U", "V", "center", "depth_top"), req):
            c.check(near(getattr(o, k), v), "Oksar.%s" % k, "%s: reads %s, expected %s" % (what, getattr(o, k), v))
    if "shape" not in omit or rng.random() < 0.2:
        want = [np.array(x) for x in R.leaves(c.call("displacement", lambda: b.displacement_vector))]
        for what, o in (("omitting %s" % omit, a), ("by position", d), ("by keyword", e)):
            compare(c, "Oksar.displacement_vector", [np.array(x) for x in R.leaves(c.call("displacement", lambda: o.displacement_vector))], want, what)
    c.ev("faults")
    c.sig("fault", tuple(omit))


IMAGE = dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000.0, local_rigidity=3e10)
IMAGE_ORDER = ("data", "title", "location", "location_UTM_zone", "shape", "pixel_size", "ref", "ref_incidence", "satellite_azimuth",
               "satellite_altitude", "processed_by", "scaling", "satellite_fringe_interval", "local_earth_radius", "local_rigidity")


def image(c):
    rng = c.rng
    from geoana.earthquake.oksar import EarthquakeInterferogram
    st = quake.image(rng)
    omit = [k for k in IMAGE if rng.random() < rng.choice([0.3, 0.7, 1.0])]
    full = dict(st, **{k: IMAGE[k] for k in omit})
    given = {k: v for k, v in st.items() if k not in omit}
    c.note(omitted=omit)
    a = c.call("EarthquakeInterferogram", EarthquakeInterferogram, **shuffled(rng, given))
    b = c.call("EarthquakeInterferogram", EarthquakeInterferogram, *[full[k] for k in IMAGE_ORDER], **{k: v for k, v in full.items() if k not in IMAGE_ORDER})
    P = quake.sites(rng, st)
    for what, o in (("omitted", a), ("by position", b)):
        for k, v in full.items():
            g = getattr(o, k)
            ok = g == v if isinstance(v, str) or hasattr(v, "year") else near(g, v)
            c.check(ok, "EarthquakeInterferogram.%s" % k, "%s: reads %s, expected %s" % (what, g, v))
    compare(c, "get_LOS_vector", quake.results(c, a, P), quake.results(c, b, P), "without %s" % omit)
    c.ev("interferograms")
    c.sig("image", tuple(omit))


PLOT = dict(vec=False, nx=100, ny=100, mask=None, level=False, figname=None, ncontour=10, dataloc=False, contourOpts={}, levelOpts={},
            streamplotOpts={}, scale="linear", clim=None, method="linear", shade=False, shade_ncontour=100, shade_azimuth=-45.0,
            shade_angle_altitude=45.0, shadeOpts={})


def plots(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.plotting_utils import plot2Ddata
    rng = c.rng
    n = 30
    xyz = rng.uniform(-1, 1, (n, 3)) * 10
    val = dict(nx=int(rng.integers(5, 20)), ny=int(rng.integers(5, 20)), ncontour=int(rng.integers(3, 20)), level=True, dataloc=True, method="nearest",
               shade=True, shade_ncontour=50, shade_azimuth=30.0, shade_angle_altitude=20.0, scale="log", vec=True)
    given = {k: v for k, v in val.items() if rng.random() < 0.3}
    if "nx" not in given and rng.random() < 0.7:
        given.update(nx=val["nx"], ny=val["ny"])
    data = rng.normal(size=(n, 2)) if given.get("vec") else np.exp(rng.normal(size=n))
    c.note(given=given)

    def shown(r, ax):
        out = [np.array(r[0].get_clim(), float), np.array(r[0].levels, float), np.array(len(r)), np.array(len(ax.collections)), np.array(len(ax.lines)),
               np.array(len(ax.patches))]
        for col in ax.collections:
            A = col.get_array()
            if A is not None:
                out.append(np.array(np.ma.filled(np.ma.asarray(A, float), np.nan)))
            for p in col.get_paths()[:40]:
                out.append(np.array(p.vertices, float))
        return out
    res = []
    try:
        full = {k: (dict(v) if isinstance(v, dict) else v) for k, v in PLOT.items()}
        full.update(given)
        for kw in (given, full):
            fig, ax = plt.subplots()
            res.append(shown(c.call("plot2Ddata", plot2Ddata, xyz.copy(), data.copy(), ax=ax, **shuffled(rng, kw)), ax))
    finally:
        plt.close("all")
    compare(c, "plot2Ddata", res[0], res[1], "giving only %s" % sorted(given))
    c.ev("plots")
    c.sig("plot", tuple(sorted(given)))


def maps(c):
    """The plots of a fault and of an interferogram."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar
    rng = c.rng
    g = quake.image(rng)
    e = c.call("EarthquakeInterferogram", EarthquakeInterferogram, **g)
    which = c.idx % 3
    if which == 2:
        f = quake.fault(rng)
        n = np.asarray(g["ref"], float)
        f["O"], f["center"] = n, n + np.asarray(f["center"]) - np.asarray(f["O"])
        o = c.call("Oksar", Oksar, **f)
        fn, full, first = o.plot_displacement, dict(eq=None, wrap=True, mask_opacity=0.2), ("eq", "ax", "wrap", "mask_opacity")
        val = dict(eq=e, wrap=False, mask_opacity=0.7)
    else:
        fn, full, first = ((e.plot_interferogram, dict(wrap=True), ("wrap", "ax")), (e.plot_mask, dict(opacity=0.2), ("ax", "opacity")))[which]
        val = dict(wrap=False) if which == 0 else dict(opacity=0.9)
    given = {k: v for k, v in val.items() if rng.random() < (0.8 if k == "eq" else 0.3)}
    c.note(function=fn.__name__, given=sorted(given))

    def shown(r):
        out = []
        for m in r if isinstance(r, tuple) else (r,):
            out += [np.array(np.ma.filled(np.ma.asarray(m.get_array(), float), np.nan)), np.array(m.get_cmap()([0.0, 0.3, 0.9])), np.array(m.axes.get_xlim())]
            if which != 1:
                out.append(np.array(m.get_clim(), float))
        return out
    res = []
    try:
        full.update(given)
        for kw in (given, full, None):
            fig, ax = plt.subplots()
            if kw is None:
                r = c.call(fn.__name__, fn, *[ax if k == "ax" else full[k] for k in first])
                c.ev("by position")
            else:
                r = c.call(fn.__name__, fn, **shuffled(rng, dict(kw, ax=ax)))
            res.append(shown(r))
    finally:
        plt.close("all")
    compare(c, fn.__name__, res[0], res[1], "giving only %s" % sorted(given))
    compare(c, fn.__name__ + " by position", res[2], res[1], "positions")
    c.ev("maps")
    c.sig("map", which, tuple(sorted(given)))


TARGETS = [("maps", maps, 45, 900), ("image", image, 300, 6000), ("plots", plots, 40, 1000), ("classes", classes, 4200, 200000), ("unknown", unknown, 2100, 60000), ("options", options, 900, 30000),
           ("functions", functions, 2800, 120000), ("aliases", aliases, 600, 20000), ("fault", fault, 400, 10000)]
REQUIRE = {**{k: 50 for k in DEFAULTS}, "arguments refused": 1000, "options": 500, "functions": 1000, "older names": 100, "faults": 100, "interferograms": 100, "plots": 20, "maps": 40,
           "results compared": 5000, "by position": 500, "defaults after a change in place": 200}
