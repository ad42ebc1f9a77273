"""plot2Ddata: what reaches matplotlib, and what comes back, against the data."""
import os
import shutil
import tempfile

import numpy as np

import gen

BUILD = None
QUICK = 2
RULE = ("a case is one call of plot2Ddata with a generated data set and combination of options; every contour and stream plot that "
        "matplotlib receives, the artists in the axes, the returned objects and the arguments afterwards are checked; "
        "distinct = (combination of options)")
ASSUMPTIONS = ["matplotlib draws what its axes methods are given; scipy.interpolate is right on unstructured data (planes and nearest points are judged without it)",
               "data whose plotted range is empty, collinear points with linear interpolation, and logarithmic plots that reach zero are excluded: matplotlib or Qhull refuse them"]


class Recorder:
    """What the axes' methods receive and return while plot2Ddata runs."""
    NAMES = ("contourf", "contour", "streamplot", "plot", "quiver")

    def __enter__(self):
        from matplotlib.axes import Axes
        self.cls, self.calls, self.orig = Axes, [], {}
        for n in self.NAMES:
            f = self.orig[n] = Axes.__dict__[n]

            def g(ax, *a, _f=f, _n=n, **k):
                r = _f(ax, *a, **k)
                self.calls.append((_n, ax, a, k, r))
                return r
            setattr(Axes, n, g)
        return self

    def __exit__(self, *x):
        for n, f in self.orig.items():
            setattr(self.cls, n, f)

    def of(self, name):
        return [c for c in self.calls if c[0] == name]


def filled(a):
    a = np.ma.asarray(a)
    return np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a).astype(float))


def nearest(P, v, Q):
    """Value of the nearest point, NaN where two points are about equally near."""
    d = np.sqrt(((Q[:, None, :] - P[None]) ** 2).sum(-1))
    o = np.argsort(d, 1)
    r = np.asarray(v, float)[o[:, 0]]
    tie = d[np.arange(len(Q)), o[:, 1]] - d[np.arange(len(Q)), o[:, 0]] < 1e-9 * d.max()
    return np.where(tie & (np.asarray(v, float)[o[:, 1]] != r), np.nan, r), tie


def plot(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from scipy.interpolate import LinearNDInterpolator
    from scipy.spatial import ConvexHull
    from geoana.plotting_utils import plot2Ddata
    rng = c.rng
    n = int(rng.integers(12, 60))
    S = float(gen.logu(rng, 1e-2, 1e4))
    off = rng.normal(size=2) * S * float(rng.choice([0, 1, 5]))
    gridded = rng.random() < 0.3
    if gridded:
        k = int(rng.integers(4, 8))
        P = np.stack(np.meshgrid(np.linspace(-1, 1, k), np.linspace(-1, 1, k), indexing="ij"), -1).reshape(-1, 2) * S * rng.uniform(0.3, 1, 2) + off
        P = P[rng.permutation(len(P))]
    else:
        P = rng.uniform(-1, 1, (n, 2)) * S * rng.uniform(0.2, 1, 2) + off
    n = len(P)
    three = rng.random() < 0.5
    xyz = np.c_[P, rng.normal(size=n) * S] if three else P.copy()
    vec = bool(rng.random() < 0.35)
    log = bool(rng.random() < 0.3)
    near = bool(rng.random() < 0.4)
    amp = float(gen.wide(rng, 1e-8, 1e6, 1e9, 0.1))
    plane = (not near) and rng.random() < 0.5
    coef = rng.normal(size=(3, 2))

    def surface(i):
        if plane:
            v = coef[0, i] + ((P - off) / S) @ coef[1:, i]
        else:
            v = rng.normal(size=n)
        if log and not vec:
            v = v - v.min() + 0.1 if plane else np.exp(v)
        return v
    shift = 0.0
    if log and not vec and plane:
        raw = coef[0, 0] + ((P - off) / S) @ coef[1:, 0]
        shift = 0.1 - raw.min()
    data = np.c_[surface(0), surface(1)] * amp if vec else surface(0) * amp
    flip = log and not vec and rng.random() < 0.3
    if flip:
        data = -data
    hole = (not plane) and rng.random() < 0.15
    if hole:
        data[int(rng.integers(n))] = np.nan
    kw = {}
    nx, ny = int(rng.integers(8, 30)), int(rng.integers(8, 30))
    if rng.random() < 0.85:
        kw.update(nx=nx, ny=ny)
    else:
        nx = ny = 100
    if vec or rng.random() < 0.3:
        kw["vec"] = vec
    if near or rng.random() < 0.3:
        kw["method"] = "nearest" if near else "linear"
    if log or rng.random() < 0.3:
        kw["scale"] = "log" if log else "linear"
    nc = 10
    if rng.random() < 0.5:
        nc = kw["ncontour"] = int(rng.integers(2, 30))
    mask = None
    if rng.random() < 0.3:
        mask = rng.random(n) < rng.choice([0.4, 0.1, 0.9, 0.0])
        if rng.random() < 0.3:
            mask[:] = False
            mask[rng.integers(n)] = True
        kw["mask"] = mask
    if rng.random() < 0.4:
        kw["level"] = True
    if rng.random() < 0.3:
        kw["dataloc"] = True
    if rng.random() < 0.25 and mask is None and not plane:      # the shading of a plane has an empty range
        kw["shade"] = True
        if rng.random() < 0.6:
            kw["shade_azimuth"], kw["shade_angle_altitude"] = float(rng.uniform(-180, 180)), float(rng.uniform(0, 90))
    # the values that have to be shown
    x, y = np.linspace(P[:, 0].min(), P[:, 0].max(), nx), np.linspace(P[:, 1].min(), P[:, 1].max(), ny)
    X, Y = np.meshgrid(x, y)
    Q = np.c_[X.ravel(), Y.ravel()]
    eq = ConvexHull(P).equations
    edge = (Q @ eq[:, :2].T + eq[:, 2]).max(1)
    comps = [data[:, 0], data[:, 1]] if vec else [data]
    want, loose = [], np.zeros(len(Q), bool)
    for i, v in enumerate(comps):
        if near:
            w, tie = nearest(P, v, Q)
            loose |= tie
        else:
            w = LinearNDInterpolator(P, v)(Q)
            if plane:
                p = (coef[0, i] + ((Q - off) / S) @ coef[1:, i] + (shift if not vec else 0)) * amp * (-1 if flip else 1)
                inside = np.isfinite(w)
                scale = np.abs(v).max()
                if not np.all(np.abs(w[inside] - p[inside]) <= 1e-8 * scale):
                    c.ev("inconclusive:interpolator")
                    return
                w = np.where(inside, p, np.nan)
        want.append(w)
    Z = np.sqrt(want[0] ** 2 + want[1] ** 2) if vec else want[0]
    if log:
        Z = np.abs(Z)
    fin = Z[np.isfinite(Z)]
    if len(fin) < 10 or loose.sum() > 0.2 * len(Q):
        c.ev("skipped")
        return
    lo, hi = fin.min(), fin.max()
    if hi - lo < 1e-6 * abs(hi) or (log and lo < 1e-4 * hi):
        c.ev("skipped")
        return
    # limits
    opts = {}
    how = ["none", "clim", "clim reversed", "vmin", "vmax", "vmin vmax", "both"][int(rng.integers(7))]
    a, b = sorted(lo + (hi - lo) * rng.uniform(0.05, 0.95, 2))
    if rng.random() < 0.5:
        a, b = lo - 0.3 * (abs(lo) * 0.5 if log else hi - lo), hi + (hi - lo)
    if b - a < 1e-3 * (hi - lo):
        b = a + 0.5 * (hi - lo)
    if not log and rng.random() < 0.3:                 # limits that are exactly zero, or whole numbers
        if hi > 0 and (lo >= 0 or rng.random() < 0.5):
            a, b = (0 if rng.random() < 0.5 else 0.0), max(b, 0.3 * hi)
        else:
            a, b = min(a, 0.3 * lo), (0 if rng.random() < 0.5 else 0.0)
        c.ev("limits of zero")
    vmin, vmax = lo, hi
    if how.startswith("clim"):
        vmin, vmax = a, b
        v = [a, b] if how == "clim" else [b, a]
        kw["clim"] = [np.array(v), list(v), tuple(v)][int(rng.integers(3))]
    if "vmin" in how:
        vmin = opts["vmin"] = a
    if "vmax" in how:
        vmax = opts["vmax"] = b
    if how == "both":
        vmin, vmax = opts["vmin"], opts["vmax"] = a, b
        kw["clim"] = np.array([a, b])
    if not vmax - vmin > 1e-6 * (hi - lo) or (log and vmin <= 0):
        c.ev("skipped")
        return
    levels = np.linspace(vmin, vmax, nc + 1) if not log else vmin * (vmax / vmin) ** (np.arange(nc + 1) / nc)
    if rng.random() < 0.3:
        opts["cmap"] = "magma"
    if rng.random() < 0.15:
        levels = opts["levels"] = np.sort(np.r_[vmin, vmax, vmin + (vmax - vmin) * rng.uniform(0.1, 0.9)])
    if opts or rng.random() < 0.3:
        kw["contourOpts"] = opts
    lopts = {}
    if kw.get("level") and rng.random() < 0.6:
        lopts = kw["levelOpts"] = {"colors": "k", "linewidths": 2.0}
    if vec and rng.random() < 0.4:
        kw["streamplotOpts"] = {"color": "r", "density": 0.5}
    tmp = None
    own = rng.random() < 0.5
    try:
        other = plt.figure().add_subplot(111)
        if own:
            fig, ax = plt.subplots()
            kw["ax"] = ax
            if rng.random() < 0.5:
                plt.sca(other)
        if rng.random() < 0.12:
            tmp = tempfile.mkdtemp(prefix="vp-c31-")
            kw["figname"] = os.path.join(tmp, "f.png")
        names = sorted(k for k in kw if k not in ("ax", "nx", "ny"))
        c.note(options={k: v for k, v in kw.items() if k != "ax"}, n=n, how=how, plane=bool(plane))
        before = {k: repr(v) for k, v in kw.items() if k != "ax"}
        kx, kd = xyz.copy(), data.copy()
        ids = {k: id(v) for k, v in opts.items()}
        with Recorder() as rec:
            out = c.call("plot2Ddata", plot2Ddata, xyz, data, **kw)
        # arguments
        c.check(np.array_equal(xyz, kx) and np.array_equal(data, kd, equal_nan=True), "inputs", "plot2Ddata changed its data")
        for k, v in before.items():
            c.check(repr(kw[k]) == v, "argument " + k, "%s was %s, is %r" % (k, v[:80], kw[k]))
        c.check(all(id(opts.get(k)) == i for k, i in ids.items()), "argument contourOpts", "contourOpts holds other objects")
        # what came back
        level = bool(kw.get("level"))
        c.check(isinstance(out, tuple) and len(out) == (3 if level else 2), "returned", "returned %d objects" % len(out))
        cont, got_ax = out[0], out[1]
        c.check(got_ax is ax if own else got_ax not in (other,), "axes", "other axes are returned")
        c.check(cont.axes is got_ax, "axes of the contours", "the contours are in other axes")
        c.check(cont in list(got_ax.collections) or getattr(cont, "axes", None) is got_ax, "contours shown", "the contours are not in the axes")
        c.check(not other.collections and not other.lines and other.axison, "other axes", "other axes were drawn in or changed")
        cf = [r for r in rec.of("contourf") if r[4] is cont]
        c.check(len(cf) == 1, "filled contours", "the returned object was drawn by %d calls of contourf" % len(cf))
        tolz = 1e-9 * np.abs(fin).max()

        def judge(key, call, wantZ, tol):
            gx, gy, gz = call[2][:3]
            gx, gy = np.broadcast_arrays(np.asarray(gx, float), np.asarray(gy, float)) if np.ndim(gx) == 2 else np.meshgrid(gx, gy)
            c.close(key + " x", gx, X, 1e-12 * (S + abs(off[0])))
            c.close(key + " y", gy, Y, 1e-12 * (S + abs(off[1])))
            g = filled(gz).ravel()
            w = wantZ.copy()
            if mask is not None and key != "streams":
                m, tie = nearest(P, mask.astype(float), Q)
                skip = loose | tie
                c.check(np.all(np.isnan(g[(m == 1) & ~skip])), key + " mask", "masked places are shown")
                w = np.where(m == 1, np.nan, w)
                u = np.where(skip, False, np.isnan(w) != np.isnan(g))
            else:
                skip = loose
                u = np.where(skip, False, np.isnan(w) != np.isnan(g))
            if not near:        # the hull's edge may go either way
                u = u & (np.abs(edge) > 1e-7 * S)
            c.check(u.sum() == 0 if not hole else u.sum() <= 0.8 * (nx + ny), key + " extent", "%d grid points are shown or hidden unexpectedly" % u.sum())
            inner = ~skip & np.isfinite(w) & np.isfinite(g)
            c.close(key, g[inner], w[inner], tol)
            c.ev("plotted values", int(inner.sum()))
        judge("values", cf[0], Z, tolz)
        lt = 1e-9 * max(abs(vmin), abs(vmax))
        c.close("levels", np.asarray(cont.levels, float), levels, lt)
        c.close("limits", np.array([cont.norm.vmin, cont.norm.vmax], float), np.array([vmin, vmax]), lt)
        c.check(("Log" in type(cont.norm).__name__) == log, "scale", "the colours are scaled by %s" % type(cont.norm).__name__)
        if "cmap" in opts:
            c.check(cont.get_cmap().name == "magma", "cmap", "colour map is %s" % cont.get_cmap().name)
        if level:
            cs = out[2]
            cl = [r for r in rec.of("contour") if r[4] is cs]
            c.check(len(cl) == 1 and cs.axes is got_ax and not cs.filled, "level lines", "the level lines were not drawn in the axes")
            judge("lines", cl[0], Z, tolz)
            wl = np.linspace(vmin, vmax, nc + 1) if not log else vmin * (vmax / vmin) ** (np.arange(nc + 1) / nc)
            c.close("levels of lines", np.asarray(cs.levels, float), wl, lt)
            if lopts:
                c.check(np.all(np.asarray(cs.get_linewidths()) == 2.0), "levelOpts", "level options are ignored")
            c.ev("level lines")
        else:
            c.check(not rec.of("contour"), "level lines", "level lines without level")
        st = rec.of("streamplot")
        c.check(len(st) == int(vec), "streams", "%d stream plots" % len(st))
        if vec:
            c.check(st[0][1] is got_ax, "streams", "the stream plot is in other axes")
            for i in (0, 1):
                judge("streams", (None, None, (st[0][2][0], st[0][2][1], st[0][2][2 + i])), want[i], 1e-9 * np.nanmax(np.abs(data)))
            if "streamplotOpts" in kw:
                c.check(st[0][3].get("color") == "r" and st[0][3].get("density") == 0.5, "streamplotOpts", "stream options are ignored")
            c.ev("stream plots")
        if kw.get("shade"):
            sh = [r for r in rec.of("contourf") if r[4] is not cont]
            c.check(len(sh) == 1 and sh[0][1] is got_ax, "shading", "%d shadings" % len(sh))
            az, al = kw.get("shade_azimuth", -45.0), kw.get("shade_angle_altitude", 45.0)
            z = filled(cf[0][2][2]).reshape(ny, nx)
            gx, gy = np.gradient(z)
            A, al = np.deg2rad(270 - az), np.deg2rad(al)
            w = 255 * ((np.sin(al) + np.cos(al) * (gy * np.cos(A) - gx * np.sin(A))) / np.sqrt(1 + gx ** 2 + gy ** 2) + 1) / 2
            c.close("shading", np.where(np.isnan(w), np.nan, filled(sh[0][2][2])), w, 1e-9 * 255)
            c.ev("shadings")
        else:
            c.check(len(rec.of("contourf")) == 1, "shading", "more than one filled contour plot")
        pts = [ln for ln in got_ax.lines if len(ln.get_xdata()) == n]
        if kw.get("dataloc"):
            c.check(len(pts) == 1 and np.array_equal(np.asarray(pts[0].get_xdata(), float), xyz[:, 0]) and np.array_equal(np.asarray(pts[0].get_ydata(), float), xyz[:, 1]),
                    "dataloc", "the data locations are not shown")
            c.ev("data locations")
        else:
            c.check(not got_ax.lines, "dataloc", "lines without dataloc")
        c.check(got_ax.get_aspect() in ("equal", 1.0), "aspect", "aspect is %s" % got_ax.get_aspect())
        if tmp:
            f = kw["figname"]
            c.check(os.path.exists(f) and os.path.getsize(f) > 100 and not got_ax.axison, "figname", "the figure was not written")
            c.ev("figures written")
        c.ev("plots")
        c.sig(tuple(names), how, vec, log, near, own)
    finally:
        plt.close("all")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def conflict(c):
    """Limits that contradict each other are refused, ones that agree are not."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.plotting_utils import plot2Ddata
    rng = c.rng
    P = rng.uniform(-1, 1, (20, 2))
    d = rng.normal(size=(20, 2))
    vec = bool(rng.random() < 0.5)
    a, b = np.sort(rng.uniform(0.1, 3, 2))
    b += 0.1
    key, val = [("vmin", a + 0.05 * (b - a)), ("vmax", b * 1.2), ("vmin", a * 0.5), ("vmax", a)][int(rng.integers(4))]
    opts = {key: val}
    try:
        try:
            plot2Ddata(P, d if vec else d[:, 0], vec=vec, clim=[a, b], contourOpts=opts, nx=10, ny=10)
            c.fail("conflict", "clim %s and %s = %g are accepted" % ([a, b], key, val))
        except Exception:
            c.check(opts == {key: val}, "argument contourOpts", "a refused call changed contourOpts")
        c.ev("conflicts")
        c.sig("conflict", key, vec)
    finally:
        plt.close("all")


TARGETS = [("plot", plot, 600, 12000), ("conflict", conflict, 40, 400)]
REQUIRE = {"plots": 150, "plotted values": 20000, "level lines": 40, "stream plots": 20, "shadings": 15, "data locations": 20, "figures written": 8, "conflicts": 20, "limits of zero": 40}
