"""Nothing the caller owns is modified, and nothing of it is held on to."""
import numpy as np

import gen
import loader
import quake
import registry as R
from core import CallRaised

QUICK = 3
RULE = ("a case hands caller-owned arrays, lists and dictionaries (some read-only) to a constructor, the setters, a method or a function, "
        "compares them byte for byte before and after, overwrites them afterwards and asks again, overwrites returned "
        "arrays and asks again, and compares the object's readable parameters before and after evaluations; distinct = "
        "(class or function, what is handed over, form)")
ASSUMPTIONS = ["what a parameter getter returns may be the object's own array", "ndgrid of a single vector returns that vector",
               "private caches are not inspected"]


def snap(x):
    if isinstance(x, np.ndarray):
        return (x.tobytes(), x.shape, x.strides, str(x.dtype), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, dict):
        return sorted((k, snap(v)) for k, v in x.items())
    return (type(x).__name__, repr(x))


def scribble(rng, x):
    """Overwrite what can be overwritten."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 123.456 if x.dtype.kind == "f" else 99
        elif isinstance(x.base, np.ndarray) and x.base.flags.writeable and x.size:
            x.base[...] = 77.0
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], list):
                scribble(rng, x[i])
            else:
                x[i] = 55.5
        x.append(1)
    elif isinstance(x, dict):
        x.clear()


def own(rng, v):
    """A caller-owned version of a parameter value."""
    if isinstance(v, np.ndarray):
        k = rng.integers(6)
        if k == 0:
            return v.tolist() if v.dtype.kind != "c" else v.copy()
        if k == 1:
            b = v.copy()
            w = b[:]
            w.flags.writeable = False       # a read-only view of an array the caller can change
            return w
        if k == 2:
            return np.repeat(v, 2, 0)[::2]
        if k == 3:
            return np.asfortranarray(v.copy())
        return v.copy()
    return v


def read(c, e, o):
    out = {}
    for k in list(e.params) + list(e.derived):
        try:
            out[k] = snap(np.array(getattr(o, k)))
        except Exception as x:
            out[k] = type(x).__name__
    return out


def evaluate(c, e, o, X, plan):
    res = []
    for m, kw in plan:
        r = c.call("%s.%s" % (e.key, m.name), getattr(o, m.name), X.copy(), **kw)
        res.append([np.array(a) for a in R.leaves(r)])
    return res


def close(u, v):
    if u.shape != v.shape:
        return False
    if np.array_equal(u, v, equal_nan=True):
        return True
    fin = np.abs(u[np.isfinite(u)])
    return bool(np.allclose(u, v, rtol=1e-9, atol=1e-9 * (fin.max() if fin.size else 0), equal_nan=True))


def equal(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(close(u, v) for u, v in zip(x, y)) for x, y in zip(a, b))


def objects(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    if e.cls == "MagneticDipoleLayeredHalfSpace":
        st["quasistatic"] = True
    args = {k: own(rng, v) for k, v in st.items() if e.params[k].in_init}
    before = {k: snap(v) for k, v in args.items()}
    c.note(entry=e.key, state=st)
    cls = e.type()
    o = c.call(e.key, cls, **args)
    for k, v in args.items():
        c.check(snap(v) == before[k], "%s(%s)" % (e.key, k), "the constructor changed the caller's %s" % k)
    X = e.locations(rng, ctx, 6)
    plan = [(m, m.options[rng.integers(len(m.options))]) for m in e.methods]
    params = read(c, e, o)
    base = evaluate(c, e, o, X, plan)
    c.check(read(c, e, o) == params, e.key + ":parameters", "evaluating fields changed the parameters")
    for v in args.values():
        scribble(rng, v)
    c.check(read(c, e, o) == params, e.key + ":constructor alias", "the object follows later changes of constructor arguments")
    c.check(equal(evaluate(c, e, o, X, plan), base), e.key + ":constructor alias", "results follow later changes of constructor arguments")
    # setters
    for k in rng.permutation(sorted(e.params)):
        if rng.random() < 0.5:
            continue
        v = own(rng, e.params[k].draw(rng, ctx))
        s0 = snap(v)
        c.call("%s.%s" % (e.key, k), setattr, o, k, v)
        c.check(snap(v) == s0, "%s.%s" % (e.key, k), "the setter changed the caller's value")
        params = read(c, e, o)
        base = evaluate(c, e, o, X, plan)
        scribble(rng, v)
        c.check(read(c, e, o) == params, "%s.%s:alias" % (e.key, k), "the object follows later changes of the assigned value")
        c.check(equal(evaluate(c, e, o, X, plan), base), "%s.%s:alias" % (e.key, k), "results follow later changes of the assigned value")
        c.ev("setters")
    # evaluations
    for (m, kw), want in zip(plan, base):
        key = "%s.%s" % (e.key, m.name)
        k = rng.integers(5)
        A = X.copy()
        styles = ("n3", "fortran", "strided", "readonly", "reversed") if e.styles == "n3" else gen.COMMON
        arg, loc = gen.styled(A, styles[rng.integers(len(styles))])
        extra = {}
        if m.second and rng.random() < 0.5:
            extra["xyz_n"] = np.roll(arg, 1, 0).copy() if np.ndim(arg) > 1 else np.asarray(arg) * 1.5
        call = {**kw, **extra}
        s0, s1 = snap(arg), snap(call)
        r1 = c.call(key, getattr(o, m.name), arg, **call)
        c.check(snap(arg) == s0 and snap(call) == s1, key, "the call changed its arguments", options=call)
        copy1 = [np.array(a) for a in R.leaves(r1)]
        for a in R.leaves(r1):      # the caller may do what it likes with a result
            if a.flags.writeable:
                a[...] = -1e30
        c.check(snap(arg) == s0, key + ":result alias", "the result is the caller's own array")
        c.check(read(c, e, o) == params, key + ":result alias", "changing a result changed the object")
        r2 = c.call(key, getattr(o, m.name), arg, **call)
        copy2 = [np.array(a) for a in R.leaves(r2)]
        c.check(equal([copy1], [copy2]), key + ":result alias", "changing a result changed the next result")
        if isinstance(arg, np.ndarray) and arg.flags.writeable:
            arg[...] = 3.25 * ctx["L"]
            c.check(equal([[np.array(a) for a in R.leaves(r2)]], [copy2]), key + ":argument alias",
                    "changing the points afterwards changed the result")
        c.ev("evaluations")
        c.sig(e.key, m.name, str(sorted(kw.items())))
    for d in e.derived:         # computed values are results too
        try:
            a = getattr(o, d)
        except Exception:
            continue
        if isinstance(a, np.ndarray) and a.flags.writeable and a.ndim:
            keep = np.array(a)
            a[...] = -7.0
            c.check(np.array_equal(getattr(o, d), keep, equal_nan=True), "%s.%s:alias" % (e.key, d), "changing a derived value changed the object")
            c.ev("derived")
    c.ev(e.key)
    c.sig(e.key)


def separate(c):
    """Objects do not share their parameters, nor do calls share defaults."""
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    need = {k: v for k, v in st.items() if e.params[k].required}
    a = c.call(e.key, e.type(), **need)
    first = read(c, e, a)
    for k in e.params:
        v = getattr(a, k)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v += 1.0
    b = c.call(e.key, e.type(), **need)
    c.check(read(c, e, b) == first, e.key + ":shared", "a new object starts with another object's parameters")
    x = e.make(st)
    y = e.make(st)
    py = read(c, e, y)
    st2 = e.state(rng, ctx)
    for k in e.params:
        setattr(x, k, st2[k])
    c.check(read(c, e, y) == py, e.key + ":shared", "assigning to one object changed another")
    X = e.locations(rng, ctx, 4)
    plan = [(m, m.options[0]) for m in e.methods]
    r = evaluate(c, e, y, X, plan)
    evaluate(c, e, x, X * 1.1, plan)
    c.check(equal(evaluate(c, e, y, X, plan), r), e.key + ":shared", "evaluating one object changed another")
    c.ev("pairs of objects")
    c.sig("separate", e.key)


PRISM = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz")


def functions(c):
    import geoana.kernels as K
    from geoana import gravity, spatial as S, utils as U
    from geoana.em import fdem as fd, tdem as td
    rng = c.rng
    n = 5
    f, t = gen.logu(rng, 1, 1e5, n), gen.logu(rng, 1e-6, 1e-2, n)
    X, V, Y = (rng.normal(size=(n, 3)) for _ in range(3))
    cyl = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), X[:, 2]]
    sph = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), rng.uniform(0, 3, n)]
    nl = 3
    sg, mu, h = gen.logu(rng, 1e-3, 1, (nl, n)) + 0j, np.full((nl, n), 4e-7 * np.pi) + 0j, gen.logu(rng, 1, 30, nl - 1)
    u, v = (w / np.linalg.norm(w) for w in (V[0], V[1]))
    g = [np.linspace(0, 1, k) for k in (3, 4, 2)]
    N = loader.fallback()["kernels"]
    Z = np.where(rng.random((n, 3)) < 0.2, 0.0, X)
    Z[:, 0] = X[:, 0]
    calls = {
        "cylindrical_to_cartesian": (S.cylindrical_to_cartesian, (cyl, V)), "cartesian_to_cylindrical": (S.cartesian_to_cylindrical, (X, V)),
        "spherical_to_cartesian": (S.spherical_to_cartesian, (sph, V)), "cartesian_to_spherical": (S.cartesian_to_spherical, (X, V)),
        "cylindrical_to_cartesian points": (S.cylindrical_to_cartesian, (cyl,)), "cartesian_to_cylindrical points": (S.cartesian_to_cylindrical, (X,)),
        "spherical_to_cartesian points": (S.spherical_to_cartesian, (sph,)), "cartesian_to_spherical points": (S.cartesian_to_spherical, (X,)),
        "vector_magnitude": (S.vector_magnitude, (V,)), "vector_distance": (S.vector_distance, (X, V[0])), "distance": (S.distance, (X, V[0])),
        "vector_dot": (S.vector_dot, (X, V[0])), "repeat_scalar": (S.repeat_scalar, (f,)),
        "rotation_matrix_from_normals": (S.rotation_matrix_from_normals, (u, v)),
        "rotate_points_from_normals": (S.rotate_points_from_normals, (X, u, v, V[2])),
        "rTE_forward": (K.rTE_forward, (f, t * 1e4, sg, mu, h)), "rTE_gradient": (K.rTE_gradient, (f, t * 1e4, sg, mu, h)),
        "rTE_forward (numpy)": (N.rTE_forward, (f, t * 1e4, sg, mu, h)), "rTE_gradient (numpy)": (N.rTE_gradient, (f, t * 1e4, sg, mu, h)),
        **{k: (getattr(K, k), (X[:, 0], X[:, 1], X[:, 2])) for k in PRISM},
        **{k + " (numpy)": (getattr(N, k), (Z[:, 0], Z[:, 1], Z[:, 2])) for k in PRISM},
        "mkvc": (U.mkvc, (X,)), "ndgrid": (U.ndgrid, (g,)), "ndgrid args": (U.ndgrid, tuple(g)), "ndgrid matrix": (lambda a: U.ndgrid(a, vector=False), (g,)),
        "omega": (fd.omega, (f,)), "wavenumber": (fd.wavenumber, (f, sg[0].real)), "skin_depth": (fd.skin_depth, (f, sg[0].real)),
        "sigma_hat": (fd.sigma_hat, (f, sg[0].real)), "theta": (td.theta, (t, sg[0].real)), "peak_time": (td.peak_time, (X[:, 0], 1.0)),
        "diffusion_distance": (td.diffusion_distance, (t, sg[0].real)),
        "fd loop": (fd.vertical_magnetic_field_horizontal_loop, (f,)), "fd loop flux": (fd.vertical_magnetic_flux_horizontal_loop, (f, 0.1)),
        "td loop": (td.vertical_magnetic_field_horizontal_loop, (t,)), "td loop flux": (td.vertical_magnetic_flux_horizontal_loop, (t,)),
        "td loop rate": (td.vertical_magnetic_field_time_deriv_horizontal_loop, (t,)),
        "td loop flux rate": (td.vertical_magnetic_flux_time_deriv_horizontal_loop, (t,)),
        "td dipole": (td.magnetic_field_vertical_magnetic_dipole, (t, X[:, :2])), "td dipole rate": (td.magnetic_field_time_deriv_magnetic_dipole, (t, X)),
        "td dipole flux": (td.magnetic_flux_vertical_magnetic_dipole, (t, X)), "td dipole flux rate": (td.magnetic_flux_time_deriv_magnetic_dipole, (t, X[:, :2])),
    }
    names = sorted(calls)
    name = names[c.idx % len(names)]
    fn, args = calls[name]
    args = [own_array(rng, a) for a in args]
    s0 = [snap(a) for a in args]
    c.note(function=name, args=args)
    r1 = c.call(name, fn, *args)
    c.check([snap(a) for a in args] == s0, name, "the function changed its arguments")
    k1 = [np.array(a) for a in R.leaves(r1)]
    for a in R.leaves(r1):
        if a.flags.writeable:
            a[...] = -1e30
    c.check([snap(a) for a in args] == s0, name + ":alias", "the result shares memory with the arguments")
    r2 = c.call(name, fn, *args)
    k2 = [np.array(a) for a in R.leaves(r2)]
    c.check(equal([k1], [k2]), name + ":repeat", "asking again gives another answer")
    for a in args:
        scribble(rng, a)
    c.check(equal([[np.array(a) for a in R.leaves(r2)]], [k2]), name + ":alias", "changing an argument afterwards changed the result")
    c.ev("functions")
    c.sig(name)


def looks(c):
    """Functions that may return their argument: they must still not write to it."""
    from geoana import utils as U
    rng = c.rng
    X = rng.normal(size=(int(rng.integers(1, 5)), 3))
    name = ["check_xyz_dim", "check_xyz_dim parts", "append_ndim", "mkvc 2", "ndgrid one", "distance origin", "vector_distance origin"][c.idx % 7]
    from geoana import spatial as S
    arg = [own_array(rng, X), [own_array(rng, X[:, i]) for i in range(3)], own_array(rng, X), own_array(rng, X), own_array(rng, X[:, 0])][min(c.idx % 7, 4)]
    o = own_array(rng, rng.normal(size=3))
    if c.idx % 7 >= 5:
        arg = own_array(rng, X)
    fn = [lambda: U.check_xyz_dim(arg), lambda: U.check_xyz_dim(tuple(arg)), lambda: U.append_ndim(arg, 2), lambda: U.mkvc(arg, 2), lambda: U.ndgrid(arg),
          lambda: S.distance(arg, o), lambda: S.vector_distance(arg, o)][c.idx % 7]
    s0 = snap(arg), snap(o)
    a = [np.array(x) for x in R.leaves(c.call(name, fn))]
    c.check((snap(arg), snap(o)) == s0, name, "the function changed its arguments")
    b = [np.array(x) for x in R.leaves(c.call(name, fn))]
    c.check(equal([a], [b]), name + ":repeat", "asking again gives another answer")
    c.ev("looks")
    c.sig(name)


def earthquake(c):
    """Faults and interferograms."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar
    rng = c.rng
    which = c.idx % 2
    cls, draw = ((Oksar, quake.fault), (EarthquakeInterferogram, quake.image))[which]
    st = draw(rng)
    P = quake.sites(rng, st) if which else None
    args = {k: own(rng, v) for k, v in st.items()}
    if which and rng.random() < 0.5:
        args["shape"] = list(args["shape"])
    before = {k: snap(v) for k, v in args.items()}
    c.note(cls=cls.__name__, state={k: str(v) for k, v in st.items()})
    o = c.call(cls.__name__, cls, **args)
    for k, v in args.items():
        c.check(snap(v) == before[k], "%s(%s)" % (cls.__name__, k), "the constructor changed the caller's %s" % k)
    params, base = quake.read(o, st), quake.results(c, o, P)
    for v in args.values():
        scribble(rng, v)
    c.check(quake.same_read(quake.read(o, st), params), cls.__name__ + ":constructor alias", "the object follows later changes of constructor arguments")
    c.check(quake.same_results(quake.results(c, o, P), base), cls.__name__ + ":constructor alias", "results follow later changes of constructor arguments")
    st2 = draw(rng)
    for k in rng.permutation(sorted(st))[:4]:
        k = str(k)
        if k in ("depth_top", "depth_bottom", "data", "shape") and which:
            st2[k] = st[k]
        if k == "depth_top":
            st2[k] = min(st2[k], 5000.0)
        v = own(rng, st2[k])
        s0 = snap(v)
        c.call("%s.%s" % (cls.__name__, k), setattr, o, k, v)
        c.check(snap(v) == s0, "%s.%s" % (cls.__name__, k), "the setter changed the caller's value")
        params, base = quake.read(o, st), quake.results(c, o, P)
        scribble(rng, v)
        c.check(quake.same_read(quake.read(o, st), params), "%s.%s:alias" % (cls.__name__, k), "the object follows later changes of the assigned value")
        c.check(quake.same_results(quake.results(c, o, P), base), "%s.%s:alias" % (cls.__name__, k), "results follow later changes of the assigned value")
        c.ev("earthquake setters")
    if which:
        arg = [own_array(rng, np.array(p)) for p in P]
        s0 = snap(arg)
        r = [c.call("get_LOS_vector", o.get_LOS_vector, arg)]
        c.check(snap(arg) == s0, "get_LOS_vector", "the call changed its arguments")
    else:
        r = [o.simulation_grid, o.displacement_vector]
    for a in r:
        if a.flags.writeable:
            a[...] = -1e30
    c.check(quake.same_read(quake.read(o, st), params), cls.__name__ + ":result alias", "changing a result changed the object")
    c.check(quake.same_results(quake.results(c, o, P), base), cls.__name__ + ":result alias", "changing a result changed the next result")
    if rng.random() < 0.1:
        try:
            fig, ax = plt.subplots()
            if which:
                c.call("plot_interferogram", o.plot_interferogram, wrap=bool(rng.integers(2)), ax=ax)
                c.call("plot_mask", o.plot_mask, ax=ax)
            else:
                c.call("plot_displacement", o.plot_displacement, ax=ax)
            c.check(quake.same_read(quake.read(o, st), params), cls.__name__ + ":plot", "plotting changed the parameters")
            c.ev("earthquake plots")
        finally:
            plt.close("all")
    c.ev("earthquake objects")
    c.sig(cls.__name__)


def plots(c):
    """The plotting helper: arguments and defaults stay as they are, whatever was plotted before."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from geoana.plotting_utils import plot2Ddata
    rng = c.rng
    n = 25
    xyz = own_array(rng, rng.uniform(-1, 1, (n, int(rng.integers(2, 4)))) * 10)
    vec = bool(rng.random() < 0.4)
    data = own_array(rng, rng.normal(size=(n, 2)) if vec else np.exp(rng.normal(size=n)))
    kw = dict(vec=vec, nx=12, ny=10)
    if rng.random() < 0.5:
        kw["contourOpts"] = [{}, {"cmap": "jet"}, {"alpha": 0.5, "extend": "both"}][rng.integers(3)]
    if rng.random() < 0.5:
        kw["level"] = True
        kw["levelOpts"] = [{}, {"colors": "w"}, {"linewidths": 0.5, "colors": "k"}][rng.integers(3)]
    if vec:
        kw["streamplotOpts"] = [{}, {"color": "w"}, {"density": 0.5}][rng.integers(3)]
    if rng.random() < 0.4:
        kw["mask"] = own_array(rng, rng.random(n) < 0.3)
    if rng.random() < 0.4:
        kw["clim"] = [float(np.quantile(data, 0.2)), float(np.quantile(data, 0.9))] if not vec else [0.1, 2.0]
    if rng.random() < 0.4 and "mask" not in kw:
        kw["shade"] = True
        kw["shadeOpts"] = [{}, {"alpha": 0.3}][rng.integers(2)]
    if rng.random() < 0.3:
        kw["scale"] = "log"
    if rng.random() < 0.3:
        kw["method"] = "nearest"
    if rng.random() < 0.3:
        kw["dataloc"] = True
    c.note(options={k: str(v)[:60] for k, v in kw.items()})
    D = rng.normal(size=n)

    def plain():
        fig, ax = plt.subplots()
        r = c.call("plot2Ddata", plot2Ddata, xyz, D, nx=8, ny=8, ax=ax)
        a = r[0]
        return [np.array(a.get_clim(), float), np.array(a.levels, float), np.array(a.get_alpha() if a.get_alpha() is not None else -1.0, float),
                np.array(a.to_rgba(np.linspace(-2, 2, 7)))]
    try:
        s0 = {k: snap(v) for k, v in kw.items()}, snap(xyz), snap(data)
        first = plain()
        fig, ax = plt.subplots()
        c.call("plot2Ddata", plot2Ddata, xyz, data, ax=ax, **kw)
        s1 = {k: snap(v) for k, v in kw.items()}, snap(xyz), snap(data)
        for k in kw:
            c.check(s0[0][k] == s1[0][k], "plot2Ddata(%s)" % k, "plotting changed the caller's %s" % k)
        c.check(s0[1:] == s1[1:], "plot2Ddata(data)", "plotting changed the caller's points or data")
        c.check(all(close(u, v) for u, v in zip(plain(), first)), "plot2Ddata:defaults", "a plot without options depends on the options of an earlier plot")
        c.ev("plots")
        c.sig("plot", *sorted(kw))
    finally:
        plt.close("all")


def own_array(rng, a):
    if isinstance(a, list):
        return [x.copy() for x in a]
    if isinstance(a, np.ndarray):
        k = rng.integers(4)
        if k == 0:
            return np.asfortranarray(a.copy())
        if k == 1:
            b = a.copy()
            b.flags.writeable = False
            return b
        return a.copy()
    return a


TARGETS = [("objects", objects, 6300, 200000), ("separate", separate, 1260, 40000), ("functions", functions, 2000, 60000), ("looks", looks, 500, 10000),
           ("earthquake", earthquake, 500, 10000), ("plots", plots, 60, 2000)]
REQUIRE = {**{e.key: 20 for e in R.ENTRIES}, "setters": 500, "evaluations": 1000, "pairs of objects": 100, "functions": 200, "derived": 50, "looks": 200, "earthquake objects": 300,
           "earthquake plots": 10, "plots": 30}
