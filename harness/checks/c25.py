"""Results are a function of the current parameters alone."""
import copy
import pickle

import numpy as np

import gen
import invalid
import quake
import registry as R
from core import CallRaised

BUILD = "plain"
QUICK = 4
RULE = ("a case is one random history of an object (valid and coupled assignments in every accepted form, rejected assignments, "
        "evaluations, failing evaluations, deep copies); a model keeps the last assigned values, and every read and result is "
        "compared with the model and with a newly built object; distinct = (class, operation, parameter, previous operation)")
ASSUMPTIONS = ["Sphere: assigning the mass sets the density at the current radius, a later radius keeps the density",
               "layered half-space: numbers of layers and frequencies change only together with the layer properties"]


def same(u, v, rtol=1e-9):
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape:
        return False
    if np.array_equal(u, v, equal_nan=u.dtype.kind in "fc"):
        return True
    fin = np.abs(u[np.isfinite(u)])
    return bool(np.allclose(u, v, rtol=rtol, atol=rtol * (fin.max() if fin.size else 0), equal_nan=True))


def expected(e, k, v):
    if e.cls == "MagneticDipoleLayeredHalfSpace" and k == "frequency":
        return np.atleast_1d(v)
    return v


def reads(c, e, o, model, key):
    for k, v in model.items():
        g = getattr(o, k)
        v = expected(e, k, v)
        ok = (g is v or g == v) if isinstance(v, bool) else same(g, v, 1e-12)
        c.check(ok, "%s.%s:%s" % (e.key, k, key), "reading %s gives %s, last assigned %s" % (k, g, v), history=c.info["history"][-8:])


def coupled(c, e, o, model):
    """Parameters that are two views of one thing."""
    if "sigma" in model and hasattr(type(o), "rho") and np.ndim(model["sigma"]) == 0:
        c.check(np.isclose(o.rho * model["sigma"], 1, rtol=1e-12), e.key + ".rho", "rho * sigma is %s" % (o.rho * model["sigma"]))
    if e.cls == "PointCurrentWholeSpace":
        c.check(np.isclose(o.sigma * model["rho"], 1, rtol=1e-12), e.key + ".sigma", "rho * sigma is %s" % (o.sigma * model["rho"]))
        c.check(same(np.ravel(o.nodes), model["location"]) and o.n_segments == 0, e.key + ".nodes", "nodes and location differ")
    if e.cls == "LineCurrentWholeSpace":
        c.check(o.n_segments == len(model["nodes"]) - 1, e.key + ".n_segments", "number of segments")
    if e.key == "gravity.Sphere":
        m = 4 / 3 * np.pi * model["radius"] ** 3 * model["rho"]
        c.check(np.isclose(o.mass, m, rtol=1e-12), e.key + ".mass", "mass %s for radius %s and density %s" % (o.mass, model["radius"], model["rho"]))
    if "min_location" in model:
        d = model["max_location"] - model["min_location"]
        c.check(np.isclose(o.volume, np.prod(d), rtol=1e-11), e.key + ".volume", "volume")
        c.check(same(o.location, (model["max_location"] + model["min_location"]) / 2), e.key + ".location", "centre")
        if "rho" in model:
            c.check(np.isclose(o.mass, np.prod(d) * model["rho"], rtol=1e-11), e.key + ".mass", "mass")
        else:
            c.check(same(o.moment, np.prod(d) * model["magnetization"]), e.key + ".moment", "moment")


def fresh(e, model):
    n = e.make(model)
    for k in e.params:
        if not e.params[k].in_init:
            setattr(n, k, model[k])
    return n


def results(c, e, o, X, m, kw, copy=True):
    try:
        r = getattr(o, m.name)(X.copy() if copy else X, **kw)
        return [np.array(a) for a in R.leaves(r)]
    except Exception as x:
        return type(x).__name__


def compare(c, e, o, model, X, plan):
    n = fresh(e, model)
    for m, kw in plan:
        a, b = results(c, e, o, X, m, kw), results(c, e, n, X, m, kw)
        if isinstance(b, str) or isinstance(a, str):
            ok = a == b if isinstance(a, str) and isinstance(b, str) else False
        else:
            ok = len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
        c.check(ok, "%s.%s" % (e.key, m.name), "the object differs from a new one with the same parameters", options=str(kw),
                got=a if isinstance(a, str) else a[0], want=b if isinstance(b, str) else b[0], history=c.info["history"][-8:])
        c.ev("compared results")
    for d in e.derived:
        try:
            b = getattr(n, d)
        except Exception:
            continue
        a = getattr(o, d)
        c.check(same(a, b, 1e-11), "%s.%s" % (e.key, d), "differs from that of a new object: %s, %s" % (a, b), history=c.info["history"][-8:])


def history(c):
    rng = c.rng
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    ctx = R.context(rng)
    layered = e.cls == "MagneticDipoleLayeredHalfSpace"
    model = e.state(rng, ctx)
    if layered:
        model["quasistatic"] = True
    log = []
    c.note(entry=e.key, history=log)
    o = c.call(e.key, e.make, model)
    for k in e.params:
        if not e.params[k].in_init:
            setattr(o, k, model[k])
    model = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in model.items()}
    X = e.locations(rng, ctx, 5)
    plan = [(m, kw) for m in e.methods for kw in [m.options[rng.integers(len(m.options))]]]
    prev = "new"
    buf = X.copy()
    for step in range(int(rng.integers(3, 25))):
        op = rng.choice(["set", "set", "set", "couple", "reject", "evaluate", "evaluate", "fail", "copy", "layers"])
        name = ""
        if op == "set":
            name = str(rng.choice(sorted(e.params)))
            p = e.params[name]
            if p.kind == "freq" and not layered:
                ctx = dict(ctx, nf=int(rng.integers(4)))
            if layered and p.kind == "flag":
                continue
            label, form, plain = invalid.good(rng, p, ctx)
            if name == "radius" and plain == 0 and e.key == "gravity.Sphere":
                continue        # the density that goes with a mass is then undefined
            log.append(("set", name, str(form)[:60]))
            c.call("%s.%s" % (e.key, name), setattr, o, name, form)
            model[name] = plain
        elif op == "couple":
            if e.key == "gravity.Sphere":
                v = float(gen.signed(rng, 1, 1e6))
                name = "mass"
                c.call(e.key + ".mass", setattr, o, "mass", v)
                model["rho"] = v / (4 / 3 * np.pi * model["radius"] ** 3)
            elif e.cls == "PointCurrentWholeSpace" and rng.random() < 0.5:
                name = "nodes"
                v = rng.uniform(-2, 2, 3) * ctx["L"]
                c.call(e.key + ".nodes", setattr, o, "nodes", v[None] if rng.random() < 0.5 else v)
                model["location"] = v
            elif e.couple:
                name, to = e.couple[0]
                v = float(gen.logu(rng, 0.1, 1000)) if name == "rho" else float(gen.logu(rng, 1e-3, 10))
                c.call("%s.%s" % (e.key, name), setattr, o, name, v)
                c.check(np.isclose(getattr(o, name), v, rtol=1e-12), "%s.%s" % (e.key, name), "reads back as %s, assigned %s" % (getattr(o, name), v))
                model[to] = 1 / v
            else:
                continue
            log.append(("set", name, str(v)[:60]))
            c.ev("coupled sets")
        elif op == "reject":
            name = str(rng.choice(sorted(e.params)))
            b = invalid.bad(rng, e.params[name].kind, dict(ctx, name=name))
            if b is None:
                continue
            log.append(("reject", name, str(b[1])[:60]))
            try:
                setattr(o, name, b[1])
            except Exception:
                c.ev("rejected sets")
            else:               # judged by C26; here the value has become the parameter
                return
        elif op == "evaluate":
            m, kw = plan[rng.integers(len(plan))]
            name = m.name
            log.append(("evaluate", name))
            Y = e.locations(rng, ctx, int(rng.choice([1, 2, 7])))
            k = rng.random()
            if k < 0.3:         # the caller's own array, filled anew for every call
                buf[...] = e.locations(rng, ctx, 5)
                r = fresh(e, model)
                a, b = results(c, e, o, buf, m, kw, copy=False), results(c, e, r, buf, m, kw)
                if not isinstance(a, str) and not isinstance(b, str):
                    c.check(len(a) == len(b) and all(same(u, v) for u, v in zip(a, b)), "%s.%s:same array" % (e.key, m.name),
                            "an array that was changed since the last call gives another result than a new one")
                    c.ev("refilled arrays")
            elif k < 0.6:
                results(c, e, o, Y, m, kw)
            else:
                compare(c, e, o, model, Y, [(m, kw)])
        elif op == "fail":
            m, kw = plan[rng.integers(len(plan))]
            bads = [np.ones((3, 2)), np.array(1.0), "points", None, np.array([["a", "b", "c"]])]
            if e.points == "below":
                bads += [np.array([[1.0, 1.0, 2.0]]) * ctx["L"]] * 3
            if e.points == "above":
                bads += [-np.array([[1.0, 1.0, 2.0]]) * ctx["L"]] * 3
            log.append(("failing evaluation", m.name))
            try:
                if m.options[-1].get("coordinates") and rng.random() < 0.4:
                    getattr(o, m.name)(X.copy(), coordinates="polar")
                else:
                    getattr(o, m.name)(bads[rng.integers(len(bads))], **kw)
            except Exception:
                c.ev("failed evaluations")
        elif op == "copy":
            log.append(("copy",))
            twin = o
            try:
                o = copy.deepcopy(o) if rng.random() < 0.5 else pickle.loads(pickle.dumps(o))
            except Exception:
                continue
            for k in list(e.params)[:2]:        # what happens to the original does not reach the copy
                try:
                    setattr(twin, k, e.params[k].draw(rng, ctx))
                except Exception:
                    pass
            c.ev("copies")
        else:
            if not layered:
                continue
            ctx = dict(ctx, nl=int(rng.integers(1, 5)), nf=int(rng.integers(1, 4)))
            first = ["frequency", "thickness"]
            then = ["sigma", "mu", "epsilon"]
            rng.shuffle(first)
            rng.shuffle(then)
            for k in first + then:
                label, form, plain = invalid.good(rng, e.params[k], ctx)
                c.call("%s.%s" % (e.key, k), setattr, o, k, form)
                model[k] = plain
            log.append(("relayer", ctx["nl"], ctx["nf"]))
            c.ev("relayered")
        c.sig(e.key, op, name, prev)
        prev = op
        c.ev("operations")
        reads(c, e, o, model, "after " + op)
        if op in ("set", "couple", "reject"):
            coupled(c, e, o, model)
    compare(c, e, o, model, X, plan)
    reads(c, e, o, model, "end")
    coupled(c, e, o, model)
    c.ev(e.key)


def earthquake(c):
    """Histories of faults and interferograms."""
    from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar
    rng = c.rng
    which = c.idx % 2
    cls, draw = ((Oksar, quake.fault), (EarthquakeInterferogram, quake.image))[which]
    model = draw(rng)
    P = quake.sites(rng, model) if which else None
    o = c.call(cls.__name__, cls, **model)
    c.info["history"] = []
    for step in range(12):
        k = rng.random()
        names = sorted(model)
        if k < 0.55:
            name = names[rng.integers(len(names))]
            v = draw(rng)[name]
            if name == "depth_bottom":
                v = max(v, model["depth_top"])
            if name == "depth_top":
                v = min(v, model["depth_bottom"])
            c.call("%s.%s" % (cls.__name__, name), setattr, o, name, v)
            model[name] = v
            op = name
        elif k < 0.7:
            name = names[rng.integers(len(names))]
            try:
                setattr(o, name, [[1.0, 2.0], [3.0]])
                if not isinstance(model[name], str):
                    c.check(False, "%s.%s" % (cls.__name__, name), "accepted a ragged list")
                model[name] = getattr(o, name)
            except (TypeError, ValueError):
                c.ev("rejected sets")
            op = "rejected " + name
        elif k < 0.8:
            o = pickle.loads(pickle.dumps(o)) if rng.random() < 0.5 else copy.deepcopy(o)
            op = "copy"
        else:
            quake.results(c, o, P)
            op = "evaluate"
        c.info["history"].append(op)
        for q, v in model.items():
            g = getattr(o, q)
            w = np.asarray(v) if not isinstance(v, (str,)) and not hasattr(v, "year") else v
            ok = (g == w) if isinstance(w, str) or hasattr(v, "year") else (np.shape(g) == np.shape(w) and np.array_equal(g, w))
            c.check(ok, "%s.%s" % (cls.__name__, q), "reading %s gives %s, last assigned %s" % (q, g, v), history=c.info["history"])
        if rng.random() < 0.5:
            f = c.call(cls.__name__, cls, **model)
            c.check(quake.same_results(quake.results(c, o, P), quake.results(c, f, P), 1e-9), cls.__name__ + ":history",
                    "results differ from those of a new object", history=c.info["history"])
            c.ev("compared earthquake results")
    c.ev("earthquake histories")
    c.sig("earthquake", which, tuple(c.info["history"][-2:]))


TARGETS = [("earthquake", earthquake, 400, 10000), ("history", history, 4200, 250000)]
REQUIRE = {"earthquake histories": 200, **{e.key: 20 for e in R.ENTRIES}, "coupled sets": 100, "rejected sets": 500, "failed evaluations": 200, "copies": 100, "refilled arrays": 100,
           "relayered": 20, "compared results": 2000}
