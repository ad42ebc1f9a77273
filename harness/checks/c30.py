"""Interferograms: metadata histories, line-of-sight geometry and plots."""
import datetime as dt

import numpy as np

import gen
from core import CallRaised

BUILD = None
QUICK = 4
RULE = ("a case is one interferogram with its history of assignments; every attribute is read back after every assignment, the "
        "line-of-sight vectors are compared with the geometry of a satellite above a sphere, and plots with the data they show; "
        "distinct = (target, attribute and form, zone class, number and form of the points, wrapped or not)")
ASSUMPTIONS = ["the conversion from UTM to latitude and longitude is that of the package utm, which geoana uses as well",
               "points beyond the satellite's horizon are excluded",
               "attributes that were never given are not read"]

STR = ("title", "processed_by", "description", "event_country", "event_name", "copyright", "data_source", "satellite_name", "event_gcmt_id")
NUM = ("ref_incidence", "satellite_azimuth", "satellite_altitude", "scaling", "satellite_fringe_interval", "local_earth_radius", "local_rigidity")
PAIR = ("location", "ref", "pixel_size")
DATE = ("date1", "date2", "processed_date", "event_date")
REQUIRED = ("data", "title", "location", "location_UTM_zone", "shape", "pixel_size", "ref", "ref_incidence", "satellite_azimuth", "satellite_altitude", "processed_by")
DEFAULTS = dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000.0, local_rigidity=3e10)
OPTIONAL = tuple(DEFAULTS) + tuple(k for k in STR if k not in REQUIRED) + DATE
ALL = REQUIRED + OPTIONAL


def value(rng, k, n=None):
    """A (given form, value to be read back, name of the form)."""
    if k in STR:
        f = rng.integers(3)
        s = "".join(rng.choice(list("abc xyz-/é°\n07"), int(rng.integers(0, 30))))
        return [(s, s, "str"), (str(s), s, "str"), (42, "42", "int")][f]
    if k in NUM:
        v = float(gen.logu(rng, 1e-3, 1e11)) * float(rng.choice([1, 1, -1]))
        f = rng.integers(6)
        if f == 0:
            return int(np.clip(v, -1e9, 1e9)), float(int(np.clip(v, -1e9, 1e9))), "int"
        return [None, (v, v, "float"), (np.float64(v), v, "np.float64"), (np.array(v), v, "0-d"), (repr(v), v, "text"),
                (np.float32(v), float(np.float32(v)), "float32")][f]
    if k in PAIR:
        v = gen.signed(rng, 1e-2, 1e7, 2)
        f = rng.integers(6)
        if f == 5:
            w = np.array([int(x) for x in v])
            return w, w.astype(float), "int array"
        return [(v, v, "array"), (list(v), v, "list"), (tuple(v), v, "tuple"), (v[None], v, "row"), (v[:, None], v, "column")][f]
    if k == "location_UTM_zone":
        z = int(rng.integers(1, 61)) * int(rng.choice([1, -1]))
        return [(z, z, "int"), (np.int64(z), z, "np.int64"), (float(z), z, "float"), (str(z), z, "text")][rng.integers(4)]
    if k == "shape":
        s = tuple(int(v) for v in rng.integers(1, 50, 2))
        return [(s, s, "tuple"), (list(s), s, "list"), (np.array(s), s, "array"), (np.array(s, float), s, "float array")][rng.integers(4)]
    if k == "data":
        n = int(rng.integers(1, 40)) if n is None else n
        v = rng.normal(size=n)
        v[rng.random(n) < 0.2] = 0
        f = rng.integers(4)
        return [(v, v, "array"), (list(v), v, "list"), (v.astype("float32"), v.astype("float32").astype(float), "float32"),
                (np.round(v * 9).astype(int), np.round(v * 9), "int array")][f]
    d = dt.datetime(int(rng.integers(1900, 2100)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    f = rng.integers(4)
    if f == 0:
        return d.strftime("%Y-%m-%d"), d, "YYYY-MM-DD"
    if f == 1:
        return d.strftime("%Y/%m/%d"), d, "YYYY/MM/DD"
    d = d.replace(hour=int(rng.integers(24)), minute=int(rng.integers(60)), second=int(rng.integers(60)))
    if f == 2:
        return d.strftime("%Y-%m-%dT%H:%M:%SZ"), d, "ISO"
    d = d.replace(microsecond=int(rng.integers(10 ** 6)))
    return d, d, "datetime"


BAD = dict(
    pair=[("text", TypeError), ([1, 2, 3], (ValueError, TypeError)), ([1.0], (ValueError, TypeError)), (1.0, (ValueError, TypeError)), (["a", "b"], TypeError),
          ([[1, 2], [3, 4]], (ValueError, TypeError)), (object(), TypeError)],
    num=[("text", TypeError), ([1, 2], TypeError), (None, TypeError), (object(), TypeError), (1j, TypeError)],
    zone=[("north", TypeError), (None, TypeError), ([1, 2], TypeError)],
    shape=[((1, 2, 3), ValueError), ((1,), ValueError), ("ab", TypeError), (3, TypeError), (None, TypeError)],
    data=[("text", TypeError), ([[1, 2], [3]], TypeError), (object(), TypeError)],
    date=[("2010-13-01", TypeError), ("yesterday", TypeError), (20100101, TypeError), (None, TypeError), ("2010-01-01 00:00:00", TypeError), ("2010-02-30", TypeError)])


def family(k):
    return "pair" if k in PAIR else "num" if k in NUM else "zone" if k == "location_UTM_zone" else k if k in ("shape", "data") else "date" if k in DATE else None


def same(k, got, want):
    if k in STR:
        return type(got) is str and got == want
    if k in DATE:
        return isinstance(got, dt.datetime) and got == want
    if k in NUM:
        return isinstance(got, float) and got == want
    if k == "location_UTM_zone":
        return isinstance(got, int) and got == want
    if k == "shape":
        return isinstance(got, tuple) and got == want and all(isinstance(v, int) for v in got)
    return isinstance(got, np.ndarray) and got.dtype == float and got.shape == np.shape(want) and np.array_equal(got, want)


def read(c, e, model, what):
    for k, want in model.items():
        got = c.call("read " + k, getattr, e, k)
        c.check(same(k, got, want), "%s of %s" % (what, k), "%s is %r, given %r" % (k, got, want))
    c.ev("attribute reads", len(model))


def build(c, given, positional=False):
    from geoana.earthquake.oksar import EarthquakeInterferogram
    if positional:
        rest = {k: v for k, v in given.items() if k not in REQUIRED}
        return c.call("EarthquakeInterferogram", EarthquakeInterferogram, *[given[k] for k in REQUIRED], **rest)
    items = list(given.items())
    return c.call("EarthquakeInterferogram", EarthquakeInterferogram, **dict(items[i] for i in c.rng.permutation(len(items))))


def history(c):
    rng = c.rng
    given, model = {}, dict(DEFAULTS)
    for k in ALL:
        if k in REQUIRED or rng.random() < 0.6:
            g, w, f = value(rng, k)
            given[k], model[k] = g, w
            c.sig("construct", k, f)
    e = build(c, given, rng.random() < 0.4)
    read(c, e, model, "construction")
    for step in range(12):
        k = ALL[int(rng.integers(len(ALL)))]
        if rng.random() < 0.25 and family(k):
            bad, exc = BAD[family(k)][int(rng.integers(len(BAD[family(k)])))]
            try:
                setattr(e, k, bad)
                c.fail("accepted %s" % k, "%s accepts %r" % (k, bad))
            except exc:
                c.check(True, "reject", "")
                c.ev("rejections")
                c.sig("reject", k, repr(bad)[:12])
            except Exception as x:
                c.fail("rejected %s" % k, "%s = %r raises %s: %s" % (k, bad, type(x).__name__, x))
        else:
            g, w, f = value(rng, k)
            c.call("assign " + k, setattr, e, k, g)
            model[k] = np.array(w) if isinstance(w, np.ndarray) else w
            if isinstance(g, np.ndarray) and g.ndim:
                keep = g.copy()
                g += 1          # what is kept does not follow the caller's array
                c.ev("caller's array changed")
                given[k] = keep
            c.ev("assignments")
            c.sig("assign", k, f)
        read(c, e, model, "assignment")
    try:
        build_kw = dict(given, not_an_attribute=1)
        from geoana.earthquake.oksar import EarthquakeInterferogram
        EarthquakeInterferogram(**build_kw)
        c.fail("unknown keyword", "an unknown keyword is accepted")
    except TypeError:
        c.ev("unknown keywords rejected")


def geometry(rng):
    zone = int(rng.integers(1, 61)) * int(rng.choice([1, -1]))
    az = float(rng.choice([rng.uniform(0, 360), rng.uniform(-180, 360), 0.0, 90.0, 180.0, 192.0, 270.0, 348.0]))
    alt = float(rng.choice([gen.logu(rng, 1e5, 4e7), 788792.0]))
    R = float(rng.choice([6371000.0, 6386232.0, rng.uniform(6.3e6, 6.4e6), rng.uniform(1e6, 7e7)]))
    inc = float(rng.choice([rng.uniform(0.0, 80), 23.0, rng.uniform(15, 50), 0.0, rng.uniform(-60, 0)]))
    ref = np.array([rng.uniform(1.6e5, 8.4e5), rng.uniform(1e4, 9.3e6) if zone > 0 else rng.uniform(1.1e6, 9.99e6)])
    return zone, az, alt, R, inc, ref


def expected(zone, az, alt, R, inc, ref, P):
    """Direction to the satellite from points on the sphere: spherical trigonometry with the pole of the track."""
    import utm
    def unit(p):
        lat, lon = np.deg2rad(utm.to_latlon(float(p[0]), float(p[1]), abs(zone), northern=zone > 0))
        return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]), lat, lon
    r0, lat, lon = unit(ref)
    east = np.array([-np.sin(lon), np.cos(lon), 0.0])
    north = np.cross(r0, east)
    a = np.deg2rad(az)
    right = np.cos(a) * east - np.sin(a) * north      # to the right of the flight
    k = R / (R + alt)
    i = np.deg2rad(inc)
    beta = i - np.arcsin(k * np.sin(i))               # angle at the centre between nadir and reference
    out = []
    for p in P:
        s = np.arcsin(np.clip(unit(p)[0] @ right, -1, 1))      # signed angle from the great circle
        b = beta + s
        # satellite at angle b to the left of the point in the plane across the track
        sat = np.array([-np.sin(b), np.cos(b)]) / k - np.array([0.0, 1.0])
        visible = sat[1] > 1e-3 * np.linalg.norm(sat)
        sat = sat / np.linalg.norm(sat)
        v = np.array([np.cos(a) * sat[0], -np.sin(a) * sat[0], sat[1]])
        out.append(v if visible else np.full(3, np.nan))
    return np.array(out).T


def los(c):
    rng = c.rng
    zone, az, alt, R, inc, ref = geometry(rng)
    spread = float(gen.logu(rng, 1, 5e5))
    n = int(rng.choice([1, 1, 2, 3, 7, 20]))
    P = ref + rng.normal(size=(n, 2)) * spread
    P[:, 0] = np.clip(P[:, 0], 1.1e5, 9.9e5)
    P[:, 1] = np.clip(P[:, 1], 10.0, 9.9e6)
    if rng.random() < 0.25:
        P[0] = ref
    g = dict(data=[0.0], title="t", location=ref, location_UTM_zone=zone, shape=(1, 1), pixel_size=[1, 1], ref=ref, ref_incidence=inc,
             satellite_azimuth=az, satellite_altitude=alt, processed_by="x", local_earth_radius=R)
    e = build(c, g)
    if rng.random() < 0.3:           # the same geometry reached by assignments
        g2 = dict(g, location_UTM_zone=11, ref=[5e5, 5e6], ref_incidence=1.0, satellite_azimuth=2.0, satellite_altitude=3e5, local_earth_radius=6e6)
        e = build(c, g2)
        c.call("LOS", e.get_LOS_vector, [np.array([5e5, 5e6])])
        for k in rng.permutation(["location_UTM_zone", "ref", "ref_incidence", "satellite_azimuth", "satellite_altitude", "local_earth_radius"]):
            setattr(e, str(k), g[str(k)])
    form = ["list of arrays", "list of tuples", "list of triples", "single"][int(rng.integers(4))]
    if form == "single":
        P, n = P[:1], 1
        arg = [P[0], tuple(P[0]), np.r_[P[0], 0.0]][int(rng.integers(3))]
    else:
        arg = [list(P), [tuple(p) for p in P], [np.r_[p, rng.normal()] for p in P]][["list of arrays", "list of tuples", "list of triples"].index(form)]
    c.note(zone=zone, azimuth=az, altitude=alt, radius=R, incidence=inc, ref=ref, points=P)
    keep = repr(arg)
    got = c.call("get_LOS_vector", e.get_LOS_vector, arg)
    c.check(repr(arg) == keep, "arguments", "get_LOS_vector changed its argument")
    want = expected(zone, az, alt, R, inc, ref, P)
    ok = np.isfinite(want[0])
    # arccos of nearly nothing, and the satellite's height above the ground
    tol = 1e-9 + 1e-10 * R / alt
    c.close("line of sight", got, want[:, 0] if n == 1 else want, tol)
    if ok.any():
        G = np.asarray(got).reshape(3, -1)[:, ok]
        c.close("unit length", np.sqrt((G ** 2).sum(0)), np.ones(G.shape[1]), 1e-13)
    if np.array_equal(P[0], ref):
        i = np.deg2rad(inc)
        a = np.deg2rad(az)
        c.close("reference incidence", np.asarray(got).reshape(3, -1)[:, 0], np.array([-np.cos(a) * np.sin(i), np.sin(a) * np.sin(i), np.cos(i)]), tol)
        c.ev("reference points")
    c.ev("lines of sight", int(ok.sum()))
    c.sig("los", form, n == 1, zone > 0, np.sign(inc), int(az % 360 // 45))


def shown(mesh):
    a = np.ma.asarray(mesh.get_array())
    return np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a)), mesh.get_coordinates()


def plots(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = c.rng
    nx, ny = (int(v) for v in rng.integers(1, 9, 2))
    d = rng.normal(size=nx * ny) * float(gen.logu(rng, 1e-3, 10))
    if rng.random() < 0.4:          # displacements that are small, but there
        d = np.where(rng.random(d.size) < 0.4, d * gen.logu(rng, 1e-14, 1e-3, d.size), d)
    d[rng.random(d.size) < 0.2] = 0.0
    if rng.random() < 0.3:
        d[rng.integers(d.size)] = np.nan
    if not np.any(np.nan_to_num(d)):
        d[0] = 0.5
    zone, az, alt, R, inc, ref = geometry(rng)
    sc, fr = float(rng.choice([1.0, -1.0, rng.uniform(0.1, 3)])), float(rng.choice([0.028333, gen.logu(rng, 1e-2, 1)]))
    g = dict(data=d if rng.random() < 0.7 else d.reshape((nx, ny), order="F"), title="t%d" % rng.integers(99), location=gen.signed(rng, 1, 1e6, 2), location_UTM_zone=zone, shape=(nx, ny),
             pixel_size=gen.logu(rng, 1, 1e3, 2), ref=ref, ref_incidence=inc, satellite_azimuth=az, satellite_altitude=alt, processed_by="x",
             scaling=sc, satellite_fringe_interval=fr)
    e = build(c, g)
    c.note(data=d, shape=(nx, ny), scaling=sc, fringe=fr)
    wrap = bool(rng.random() < 0.6)
    try:
        fig, ax = plt.subplots()
        own = rng.random() < 0.7
        for again in range(2):        # the second plot shows the same
            m = c.call("plot_interferogram", e.plot_interferogram, **({} if wrap and rng.random() < 0.5 else dict(wrap=wrap)), **(dict(ax=ax) if own else {}))
            a, co = shown(m)
            # pixel i across and j down is number i + nx j of the data
            want = np.full((ny, nx), np.nan)
            for j in range(ny):
                for i in range(nx):
                    v = d[i + nx * j]
                    if v != 0 and not np.isnan(v):
                        want[ny - 1 - j, i] = v * sc
            a = a.reshape(ny, nx)
            c.check(np.array_equal(np.isnan(a), np.isnan(want)), "no-data pixels", "%s pixels are masked, expected %s" % (np.isnan(a).sum(), np.isnan(want).sum()))
            ok = np.isfinite(want) & np.isfinite(a)
            if wrap:
                x = (a[ok] - want[ok]) / fr
                c.close("wrapped", x, np.round(x), 1e-9 * (1 + np.abs(want[ok]) / fr))
                c.check(np.all((a[ok] >= 0) & (a[ok] <= fr)), "fringe interval", "wrapped values leave [0, %g]" % fr)
                c.close("limits", np.array(m.get_clim()), np.array([0, fr]), 0)
            else:
                c.close("unwrapped", a[ok], want[ok], 1e-13 * np.abs(want[ok]))
                if np.nanmin(want) < np.nanmax(want):      # matplotlib widens an empty range
                    c.close("limits", np.array(m.get_clim()), np.array([np.nanmin(want), np.nanmax(want)]), 1e-13 * np.nanmax(np.abs(want)))
            L, p = e.location, e.pixel_size
            c.close("x of pixels", co[..., 0], np.broadcast_to(g["location"][0] + g["pixel_size"][0] * np.arange(nx + 1), (ny + 1, nx + 1)), 1e-9 * (abs(L[0]) + nx * p[0]))
            c.close("y of pixels", co[..., 1], np.broadcast_to((g["location"][1] - g["pixel_size"][1] * np.arange(ny, -1, -1))[:, None], (ny + 1, nx + 1)), 1e-9 * (abs(L[1]) + ny * p[1]))
            c.check((m.axes is ax) == own, "axes", "plotted in other axes")
            c.check(m.axes.get_title() == g["title"], "title", "title is %r" % m.axes.get_title())
            c.check(str(zone) in m.axes.get_xlabel(), "zone label", "label is %r" % m.axes.get_xlabel())
            c.check(same("data", e.data, np.asarray(g["data"], float)) or np.array_equal(e.data, g["data"], equal_nan=True), "data after plot", "plotting changed the data")
            if rng.random() < 0.3:
                op = float(rng.choice([0.2, rng.uniform(0, 1)]))
                q = c.call("plot_mask", e.plot_mask, ax=ax, **({} if op == 0.2 else dict(opacity=op)))
                c.check(q.axes is ax, "axes of the mask", "plotted in other axes")
                c.close("opacity of the mask", np.array(q.get_cmap()(0.5)), np.array([1, 1, 1, op]), 1e-9)
                b = np.ma.getmaskarray(np.ma.asarray(q.get_array())).reshape(ny, nx)
                c.check(np.all(b[np.isfinite(want)]), "plot_mask", "the mask covers pixels with data")
                c.check(np.array_equal(e.data, g["data"], equal_nan=True), "data after plot", "plotting changed the data")
            c.ev("plots")
        c.sig("plot", wrap, own, nx == ny, sc < 0)
    finally:
        plt.close("all")


def forward(c):
    """A modelled displacement in the geometry of an interferogram."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.earthquake.oksar import Oksar
    rng = c.rng
    zone, az, alt, R, inc, ref = geometry(rng)
    alt, R, inc = 788792.0, 6371000.0, float(rng.uniform(10, 50))
    ref[0] = rng.uniform(3e5, 7e5)
    fr = float(gen.logu(rng, 1e-3, 1))
    n0, n1 = (int(v) for v in rng.integers(2, 7, 2))
    e = build(c, dict(data=rng.normal(size=6), title="t", location=ref, location_UTM_zone=zone, shape=(2, 3), pixel_size=[10, 20], ref=ref, ref_incidence=inc,
                      satellite_azimuth=az, satellite_altitude=alt, processed_by="x", satellite_fringe_interval=fr))
    U, V = rng.uniform(1e3, 3e4, 2)
    o = c.call("Oksar", Oksar, O=ref - [U / 2, V / 2], U=[U, 0], V=[0, V], center=ref + rng.normal(size=2) * 1e3, depth_top=float(rng.uniform(500, 5e3)), depth_bottom=9e3,
               strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(20, 80)), rake=float(rng.uniform(-180, 180)), slip=float(rng.uniform(0.1, 5)), length=9e3, shape=(n0, n1))
    wrap = bool(rng.random() < 0.5)
    try:
        fig, ax = plt.subplots()
        out = c.call("plot_displacement", o.plot_displacement, e, ax=ax, wrap=wrap)
        a, co = shown(out[0])
        a = a.reshape(n1, n0)
        c.check(all(q.axes is ax for q in out), "axes", "plotted in other axes")
        c.close("x of displacements", co[..., 0], np.broadcast_to(o.O[0] + U * np.arange(n0 + 1) / n0, (n1 + 1, n0 + 1)), 1e-9 * (abs(o.O[0]) + U))
        c.close("y of displacements", co[..., 1], np.broadcast_to((o.O[1] + V * np.arange(n1 + 1) / n1)[:, None], (n1 + 1, n0 + 1)), 1e-9 * (abs(o.O[1]) + V))
        P = o.simulation_grid
        want = (o.displacement_vector * expected(zone, az, alt, R, inc, ref, P).T).sum(-1).reshape(n1, n0)
        scale = np.abs(o.displacement_vector).max()
        if wrap:
            x = (a - want) / fr
            c.close("modelled fringes", x, np.round(x), 1e-7 * (1 + scale / fr))
            c.check(np.all((a >= 0) & (a <= fr)), "fringe interval", "wrapped values leave [0, %g]" % fr)
            c.close("limits", np.array(out[0].get_clim()), np.array([0, fr]), 0)
        else:
            c.close("modelled displacement", a, want, 1e-7 * scale)
            c.close("limits", np.array(out[0].get_clim()), np.array([want.min(), want.max()]), 1e-7 * scale)
        c.ev("modelled plots")
        c.sig("forward", wrap, n0 == n1, zone > 0)
    finally:
        plt.close("all")


TARGETS = [("history", history, 1500, 40000), ("los", los, 3000, 100000), ("plots", plots, 120, 1500), ("forward", forward, 60, 800)]
REQUIRE = {"attribute reads": 5000, "assignments": 2000, "rejections": 500, "lines of sight": 3000, "reference points": 200, "plots": 60, "modelled plots": 20,
           "caller's array changed": 200}
