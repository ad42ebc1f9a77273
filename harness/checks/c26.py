"""Values outside of a domain are refused at once and without effect."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import gen
import invalid
import registry as R
from core import CallRaised

BUILD = "plain"
QUICK = 7
RULE = ("a case offers one value to a parameter of a class, on construction or by assignment: outside the domain it must raise "
        "TypeError or ValueError and leave every readable parameter and result as before, inside (in every accepted form and on "
        "the domain's border) it must be accepted; distinct = (class, parameter, kind of value)")
ASSUMPTIONS = ["nan, and vectors given as columns to the setters that only look at the length, are not offered",
               "relations between parameters (corners of a prism, source on or above the surface) are checked on construction only",
               "unknown coordinate systems may raise any exception"]
LOOSE = {"freq"}


def read(e, o):
    out = {}
    for k in list(e.params) + list(e.derived):
        try:
            a = np.array(getattr(o, k))
            out[k] = (a.tobytes(), a.shape)
        except Exception as x:
            out[k] = type(x).__name__
    return out


def values(e, o, X, plan):
    r = []
    for m, kw in plan:
        try:
            r.append([np.array(a) for a in R.leaves(getattr(o, m.name)(X.copy(), **kw))])
        except Exception as x:
            r.append(type(x).__name__)
    return r


def near(x, y):
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y, equal_nan=True):
        return True
    fin = np.abs(x[np.isfinite(x)])
    return bool(np.allclose(x, y, rtol=1e-13, atol=1e-13 * (fin.max() if fin.size else 0), equal_nan=True))


def same(a, b):
    for u, v in zip(a, b):
        if isinstance(u, str) or isinstance(v, str):
            if not (isinstance(u, str) and isinstance(v, str)):
                return False
            continue
        if len(u) != len(v) or any(not near(x, y) for x, y in zip(u, v)):
            return False
    return True


def setup_case(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    if e.cls == "MagneticDipoleLayeredHalfSpace":
        st["quasistatic"] = True
    return rng, e, ctx, st


def assign(c):
    rng, e, ctx, st = setup_case(c)
    names = [k for k in e.params if e.params[k].kind != "flag"] + [a for a, b in e.couple]
    name = names[(c.idx // len(R.ENTRIES)) % len(names)]
    o = c.call(e.key, e.make, st)
    X = e.locations(rng, ctx, 3)
    plan = [(m, m.options[0]) for m in e.methods]
    if name in e.params:
        kind = e.params[name].kind
    else:
        kind = "number" if name == "mass" else "positive"
    if rng.random() < 0.5:
        values(e, o, X, plan)
    label, v = invalid.bad(rng, kind, dict(ctx, name=name))
    c.note(entry=e.key, parameter=name, kind=label, value=str(v)[:200])
    p0, r0 = read(e, o), values(e, o, X, plan)
    key = "%s.%s" % (e.key, name)
    try:
        setattr(o, name, v)
    except (TypeError, ValueError):
        c.ev("refused assignments")
    except Exception as x:
        c.check(False, key, "assigning %s (%s) raised %s instead of TypeError or ValueError" % (str(v)[:80], label, type(x).__name__))
    else:
        c.check(False, key, "accepted %s (%s); it now reads %s" % (str(v)[:80], label, str(getattr(o, name, None))[:80]))
        return
    c.check(read(e, o) == p0, key + ":changed", "a refused assignment of %s (%s) changed a parameter" % (str(v)[:80], label))
    c.check(same(values(e, o, X, plan), r0), key + ":changed", "a refused assignment of %s (%s) changed a result" % (str(v)[:80], label))
    c.sig(e.key, name, label)
    c.ev(e.key)


def construct(c):
    rng, e, ctx, st = setup_case(c)
    names = [k for k in e.params if e.params[k].kind != "flag" and e.params[k].in_init]
    name = names[(c.idx // len(R.ENTRIES)) % len(names)]
    label, v = invalid.bad(rng, e.params[name].kind, dict(ctx, name=name))
    defaults = ("location", "location_a", "location_b", "primary_field", "magnetization")
    if v is None and name in defaults:      # None asks for the default there
        return
    args = {k: w for k, w in st.items() if e.params[k].in_init and (e.params[k].required or rng.random() < 0.7)}
    args[name] = v
    if e.cls == "PointCurrentWholeSpace" and name == "location" and label in ("33", "23"):
        return
    c.note(entry=e.key, parameter=name, kind=label, value=str(v)[:200])
    key = "%s(%s)" % (e.key, name)
    try:
        o = e.type()(**args)
    except (TypeError, ValueError):
        c.check(True, key, "")
        c.ev("refused constructions")
    except Exception as x:
        c.check(False, key, "%s (%s) raised %s instead of TypeError or ValueError" % (str(v)[:80], label, type(x).__name__))
    else:
        c.check(False, key, "accepted %s (%s); it reads %s" % (str(v)[:80], label, str(getattr(o, name, None))[:80]))
    c.sig("construct", e.key, name, label)


def border(e, name, kind, rng, ctx):
    """Values on the inner side of the border of a domain."""
    tiny = float(gen.logu(rng, 1e-300, 1e-6))
    huge = float(gen.logu(rng, 1e6, 1e300))
    if e.key == "gravity.Sphere" and name == "radius":      # the volume is a finite number
        tiny, huge = max(tiny, 1e-90), min(huge, 1e90)
    if kind == "positive":
        return [tiny, huge, np.nextafter(0, 1)] if name != "rho" else [1e-200, 1e200]
    if kind == "nonneg":
        return [0, 0.0, -0.0, tiny, huge]
    if kind == "number":
        return [0, 0.0, -tiny, -huge, huge, -1]
    if kind in ("vec3", "vec3loose", "field"):
        return [[0, 0, 0], np.zeros(3), [tiny, -huge, 0], (1, 2, 3)]
    if kind == "vec3below":
        return [[0, 0, 0], [1, 2, -tiny], [1, 2, -huge], [0.0, 0.0, -0.0]]
    if kind == "orient":
        return ["x", "Y", "z", [0, 0, -1], [3, 4, 12], (1e-5, 0, 0), np.array([1, 1, 1])]
    if kind == "orient_xy":
        return ["x", "Y", "X", "y", [3, -4, 0], (1, 1, 0), np.array([0, 2, 0])]
    if kind == "freq":
        return [tiny, huge, 1, [1, 2], (1.0,), np.arange(1, 4), np.array(3.0), range(1, 4), np.float32(2), 0, 0.0, [0, 1.0]]
    if kind == "thickness":
        return [[0.0] * (ctx["nl"] - 1), [tiny] * (ctx["nl"] - 1)]
    if kind == "layers":
        return [tiny, [tiny] * ctx["nl"], np.ones((ctx["nl"], max(ctx["nf"], 1))), 1 + 0j, 1 + 2j]
    if kind == "layersmu":
        b = mu_0 if name == "mu" else epsilon_0
        return [b, [b] * ctx["nl"], np.full((ctx["nl"], max(ctx["nf"], 1)), b), b * (1 + 1j)]
    if kind == "nodes":
        return [[[0, 0, 0], [1, 1, 1]], [[0, 0, 0]], [1.0, 2.0, 3.0], np.ones((4, 3)), np.array([[0, 0, 0], [1, 1, 1], [0, 0, 0]])]
    return None


def accept(c):
    rng, e, ctx, st = setup_case(c)
    names = sorted(e.params)
    name = names[(c.idx // len(R.ENTRIES)) % len(names)]
    p = e.params[name]
    o = c.call(e.key, e.make, st)
    vals = border(e, name, p.kind, rng, ctx)
    if vals is None or rng.random() < 0.5:
        label, form, plain = invalid.good(rng, p, ctx)
        if p.kind == "flag":
            form = plain = bool(rng.integers(2))
    else:
        form = vals[rng.integers(len(vals))]
        label, plain = "border %s" % (str(form)[:12] if not isinstance(form, float) else "%.0e" % form), None
    c.note(entry=e.key, parameter=name, form=label, value=str(form)[:200])
    key = "%s.%s" % (e.key, name)
    how = rng.random() < 0.5 and p.in_init
    if how and label.startswith("border") and (name in ("min_location", "max_location", "location") or e.cls == "MagneticDipoleLayeredHalfSpace"):
        how = False
    if how:
        args = {k: w for k, w in st.items() if e.params[k].in_init}
        args[name] = form
        if e.key == "gravity.Sphere" and name == "radius" and float(form) ** 3 == 0.0:
            try:
                o = e.type()(**args)
            except ZeroDivisionError:
                c.finding("sphere-radius-zero")
                return
            except Exception as x:
                c.check(False, key, "radius zero raised %r" % (x,))
                return
        else:
            o = c.call("%s(%s)" % (e.key, name), e.type(), **args)
    else:
        c.call(key, setattr, o, name, form)
    g = getattr(o, name)
    c.check(g is not None, key, "reads back as None")
    if plain is None and not isinstance(form, str) and p.kind not in ("orient", "orient_xy", "layers", "layersmu", "thickness", "nodes"):
        plain = np.array(form if not isinstance(form, range) else list(form), dtype=float)
    if plain is not None:
        w = np.asarray(plain)
        if e.cls == "MagneticDipoleLayeredHalfSpace" and name == "frequency":
            w = np.atleast_1d(w)
        c.check(np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-12, atol=0), key, "reads back as %s, given %s (%s)" % (str(g)[:100], str(form)[:100], label))
    c.ev("accepted values")
    c.sig("accept", e.key, name, label, how)


def relations(c):
    """Relations between parameters that a constructor enforces."""
    rng = c.rng
    import geoana.gravity as gr
    from geoana.em import fdem, static, tdem
    L = float(gen.logu(rng, 0.1, 1000))
    k = c.idx % 5
    if k in (0, 1):
        cls, kw = (gr.Prism, {"rho": 1.0}) if k == 0 else (static.MagneticPrism, {"magnetization": [1.0, 2.0, 3.0]})
        a = rng.uniform(-1, 1, 3) * L
        b = a + rng.uniform(0.1, 1, 3) * L
        i = int(rng.integers(3))
        how = rng.integers(4)
        good = b.copy()
        if how == 0:
            b[i] = a[i]
        elif how == 1:
            b[i] = a[i] - gen.logu(rng, 1e-6, 1) * L
        elif how == 2:
            a, b = b, a
        else:
            b[i] = np.nextafter(a[i], -np.inf)
        args = dict(min_location=a, max_location=b, **kw)
        ok = dict(min_location=np.minimum(a, good) if how != 2 else b, max_location=good, **kw)
    elif k == 2:
        cls = fdem.MagneticDipoleHalfSpace
        z = gen.signed(rng, 1e-9, 100)
        args = dict(frequency=1.0, location=[1.0, 2.0, float(z)])
        ok = dict(frequency=1.0, location=[1.0, 2.0, 0.0])
    elif k == 3:
        cls = fdem.MagneticDipoleLayeredHalfSpace
        z = -gen.logu(rng, 1e-9, 100)
        args = dict(frequency=[1.0, 2.0], thickness=[L], location=[1.0, 2.0, float(z)])
        ok = dict(frequency=[1.0, 2.0], thickness=[L], location=[1.0, 2.0, float(rng.choice([0.0, -z]))])
    else:
        cls = [static.DipoleHalfSpace, static.PointCurrentHalfSpace][rng.integers(2)]
        z = float(gen.logu(rng, 1e-9, 100))
        bad, fine = [0.0, 1.0, z], [3.0, 4.0, -z * rng.integers(2)]
        if cls is static.DipoleHalfSpace:
            pair = [bad, fine]
            rng.shuffle(pair)
            args = dict(rho=1.0, location_a=pair[0], location_b=pair[1])
            ok = dict(rho=1.0, location_a=fine, location_b=[1.0, 1.0, 0.0])
        else:
            args, ok = dict(rho=1.0, location=bad), dict(rho=1.0, location=fine)
    c.note(cls=cls.__name__, args=args)
    try:
        cls(**args)
    except (TypeError, ValueError):
        c.check(True, cls.__name__, "")
    except Exception as x:
        c.check(False, cls.__name__, "raised %s" % type(x).__name__)
    else:
        c.check(False, cls.__name__ + ":relation", "accepted %s" % (args,))
    c.call(cls.__name__ + ":valid", cls, **ok)
    c.ev("relations")
    c.sig("relation", cls.__name__, k, str(c.idx % 7))


def methods(c):
    """Points and options that a method must refuse, and ones next to them that it must take."""
    rng, e, ctx, st = setup_case(c)
    o = c.call(e.key, e.make, st)
    m = e.methods[(c.idx // len(R.ENTRIES)) % len(e.methods)]
    key = "%s.%s" % (e.key, m.name)
    X = e.locations(rng, ctx, 5)
    p0 = read(e, o)

    def refused(what, *a, **kw):
        try:
            r = getattr(o, m.name)(*a, **kw)
        except Exception:
            c.check(True, key, "")
            c.ev("refused calls")
        else:
            c.check(False, key + ":" + what, "accepted %s" % what, result=R.leaves(r)[0])
        c.sig("method", key, what)

    if m.options and m.options[-1].get("coordinates"):
        refused("an unknown coordinate system", X.copy(), coordinates=str(rng.choice(["polar", "spherical", "cart", "", "cylindrical "])))
    i = int(rng.integers(5))
    if e.cls in ("PointCurrentHalfSpace", "DipoleHalfSpace"):
        Y = X.copy()
        Y[i, 2] = gen.logu(rng, 1e-9, 10) * ctx["L"]
        refused("a point above the surface", Y)
        if m.second:
            refused("a second point above the surface", X.copy(), Y)
            refused("a first point above the surface", Y, X.copy())
        Y[i, 2] = 0.0
        c.call(key, getattr(o, m.name), Y)
    if e.cls == "MagneticDipoleLayeredHalfSpace" and m.name == "magnetic_field":
        Y = X.copy()
        Y[i, 2] = -gen.logu(rng, 1e-9, 10) * ctx["L"]
        refused("a point below the surface", Y)
        Y[i, 2] = 0.0
        c.call(key, getattr(o, m.name), Y)
    if e.cls == "TransientPlaneWave":
        pass
    if e.styles == "all" and m.name not in R.HELPNAMES and e.points != "plane":
        refused("points with two coordinates", np.ones((4, 2)))
        refused("points with four coordinates", np.ones((2, 4)))
        refused("text as points", "abc")
    c.check(read(e, o) == p0, key + ":changed", "a refused call changed a parameter")
    c.ev("method cases")


FAULT = {"O": "pair", "U": "pair", "V": "pair", "center": "pair", "depth_top": (0.0, None), "depth_bottom": "bottom", "strike": (0.0, 360.0),
         "dip": (0.0, 90.0), "rake": (-180.0, 180.0), "slip": (0.0, None), "length": (0.0, None), "beta": "number", "mu": "number",
         "shape": "shape"}


def fault(c):
    """The parameters of a fault: values beyond the border are refused without effect, those on it taken."""
    rng = c.rng
    from geoana.earthquake.oksar import Oksar
    top = float(rng.uniform(100, 5000))
    st = dict(O=rng.uniform(-1e4, 0, 2), U=np.array([2e4, 10.0]), V=np.array([-10.0, 2e4]), center=rng.uniform(-3e3, 3e3, 2), depth_top=top,
              depth_bottom=top + float(rng.uniform(100, 1e4)), strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(5, 85)),
              rake=float(rng.uniform(-180, 180)), slip=float(rng.uniform(0.1, 3)), length=float(rng.uniform(1e3, 2e4)), beta=3e10, mu=3e10,
              shape=(int(rng.integers(2, 4)), int(rng.integers(2, 4))))
    name = list(FAULT)[c.idx % len(FAULT)]
    dom = FAULT[name]
    junk = [("text", "abc"), ("none", None), ("dict", {}), ("list", [1.0, 2.0]), ("complex", 1 + 1j), ("array", np.ones(3))]
    good = None
    if dom == "pair":
        bad = [("three", [1.0, 2.0, 3.0]), ("one", [1.0]), ("number", 2.0), ("text", "abc"), ("texts", ["a", "b"]), ("empty", []), ("22", np.eye(2)),
               ("ragged", [[1, 2], 3]), ("dict", {"a": 1}), ("none", None)]
        good = [[0, 0], (1.5, -2.5), np.array([3, 4]), np.array([[1.0, 2.0]])]
    elif dom == "shape":
        bad = [("three", (1, 2, 3)), ("one", [3]), ("text", "abc"), ("number", 3), ("empty", []), ("texts", ["a", "b"]), ("none", None)]
        good = [(2, 3), [4, 5], np.array([3, 2])]
    elif dom == "number":
        bad, good = junk, [1, 2.5e9, np.float64(7e10), np.array(3.0)]
    else:
        lo, hi = (top, None) if dom == "bottom" else dom
        step = float(gen.logu(rng, 1e-9, 1e3))
        bad = junk + [("below", lo - step)] * 3 + [("just below", float(np.nextafter(lo, -np.inf)))] * 2 + [("minus inf", -np.inf)]
        good = [lo, lo + float(gen.logu(rng, 1e-9, 10)), float(np.nextafter(lo, np.inf)), np.float64(lo + 1), np.array(lo + 2)]
        if hi is not None:
            bad += [("above", hi + step)] * 3 + [("just above", float(np.nextafter(hi, np.inf)))] * 2 + [("inf", np.inf)]
            good += [hi, hi - float(gen.logu(rng, 1e-9, 10)), float(np.nextafter(hi, -np.inf)), int(hi)]
        else:
            good += [float(gen.logu(rng, 1e4, 1e12)) + lo] if name != "depth_top" else [float(st["depth_bottom"])]
        if lo == 0.0:
            good.append(0)
    o = c.call("Oksar", Oksar, **st)
    snap = lambda: {k: np.array(getattr(o, k)) for k in FAULT}
    p0 = snap()
    r0 = np.array(c.call("Oksar", lambda: o.displacement_vector))
    label, v = bad[rng.integers(len(bad))]
    c.note(parameter=name, kind=label, value=str(v)[:100], state={k: str(x) for k, x in st.items()})
    key = "Oksar.%s" % name
    how = bool(rng.integers(2))
    try:
        if how:
            setattr(o, name, v)
        else:
            Oksar(**dict(st, **{name: v}))
    except (TypeError, ValueError):
        c.check(True, key, "")
        c.ev("fault values refused")
    except Exception as x:
        c.check(False, key, "%s (%s) raised %s instead of TypeError or ValueError" % (str(v)[:80], label, type(x).__name__))
    else:
        c.check(False, key, "accepted %s (%s)" % (str(v)[:80], label))
        return
    p1 = snap()
    c.check(all(p0[k].shape == p1[k].shape and np.array_equal(p0[k], p1[k]) for k in p0), key + ":changed", "a refused value (%s) changed a parameter" % label)
    c.check(near(np.array(c.call("Oksar", lambda: o.displacement_vector)), r0), key + ":changed", "a refused value (%s) changed the displacement" % label)
    g = good[rng.integers(len(good))]
    c.note(accepted=str(g))
    if how:
        c.call(key, setattr, o, name, g)
    else:
        o = c.call(key, Oksar, **dict(st, **{name: g}))
    w = np.array(g, dtype=float).reshape(2) if dom in ("pair", "shape") else float(g)
    c.check(np.shape(getattr(o, name)) == np.shape(w) and np.array_equal(np.asarray(getattr(o, name), dtype=float), w), key,
            "reads back as %s, given %s" % (getattr(o, name), g))
    c.sig("fault", name, label, how)


TARGETS = [("fault", fault, 560, 20000), ("assign", assign, 8400, 300000), ("construct", construct, 6300, 200000), ("accept", accept, 8400, 300000),
           ("relations", relations, 1000, 30000), ("methods", methods, 3150, 60000)]
REQUIRE = {**{e.key: 20 for e in R.ENTRIES}, "refused assignments": 2000, "refused constructions": 1000, "accepted values": 2000,
           "relations": 200, "fault values refused": 300, "refused calls": 500}
