"""Faults and interferograms, for the checks that look at the whole interface."""
import datetime as dt

import numpy as np

import gen

FAULT = ("O", "U", "V", "center", "depth_top", "depth_bottom", "strike", "dip", "rake", "slip", "length", "beta", "mu", "shape")


def fault(rng):
    top = float(rng.uniform(200, 5000))
    return dict(O=rng.uniform(-1e4, 0, 2), U=np.array([rng.uniform(1e4, 3e4), rng.uniform(-100, 100)]),
                V=np.array([rng.uniform(-100, 100), rng.uniform(1e4, 3e4)]), center=rng.uniform(-3e3, 3e3, 2), depth_top=top,
                depth_bottom=float(rng.uniform(6e3, 2e4)), strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(5, 85)),
                rake=float(rng.uniform(-180, 180)), slip=float(rng.uniform(0.1, 3)), length=float(rng.uniform(1e3, 2e4)),
                beta=float(gen.logu(rng, 1e10, 1e11)), mu=float(gen.logu(rng, 1e10, 1e11)),
                shape=np.array([int(rng.integers(2, 6)), int(rng.integers(2, 6))]))


def image(rng):
    nx, ny = (int(v) for v in rng.integers(1, 6, 2))
    d = rng.normal(size=nx * ny)
    d[rng.random(d.size) < 0.2] = 0.0
    d[0] = 0.5
    zone = int(rng.integers(1, 61)) * int(rng.choice([1, -1]))
    ref = np.array([rng.uniform(3e5, 7e5), rng.uniform(1.1e6, 8e6)])
    day = lambda: dt.datetime(int(rng.integers(1990, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    return dict(data=d, title="t%d" % rng.integers(99), location=gen.signed(rng, 1, 1e6, 2), location_UTM_zone=zone, shape=(nx, ny),
                pixel_size=gen.logu(rng, 1, 1e3, 2), ref=ref, ref_incidence=float(rng.uniform(10, 50)),
                satellite_azimuth=float(rng.uniform(0, 360)), satellite_altitude=float(rng.uniform(5e5, 1e6)), processed_by="p%d" % rng.integers(9),
                scaling=float(rng.choice([1.0, -1.0, 2.0])), satellite_fringe_interval=float(gen.logu(rng, 1e-2, 1)),
                local_earth_radius=float(rng.uniform(6.3e6, 6.4e6)), local_rigidity=float(gen.logu(rng, 1e10, 1e11)),
                description="d%d" % rng.integers(9), date1=day(), event_date=day())


def sites(rng, st, n=5):
    return [st["ref"] + rng.normal(size=2) * 2e4 for _ in range(n)]


def read(o, names):
    return {k: getattr(o, k) if isinstance(getattr(o, k), (str, dt.datetime)) else np.array(getattr(o, k)) for k in names}


def same_read(a, b):
    return all((a[k] == b[k]) if isinstance(a[k], (str, dt.datetime)) else (np.shape(a[k]) == np.shape(b[k]) and np.array_equal(a[k], b[k], equal_nan=True))
               for k in a)


def near(x, y, rtol=1e-10):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y, equal_nan=True):
        return True
    fin = np.abs(y[np.isfinite(y)])
    return bool(np.allclose(x, y, rtol=rtol, atol=rtol * (fin.max() if fin.size else 0), equal_nan=True))


def results(c, o, P=None):
    """What can be computed from a fault or an interferogram."""
    if P is None:
        return [np.array(c.call("Oksar.simulation_grid", lambda: o.simulation_grid)), np.array(c.call("Oksar.displacement_vector", lambda: o.displacement_vector))]
    return [np.array(c.call("get_LOS_vector", o.get_LOS_vector, [np.array(p) for p in P]))]


def same_results(a, b, rtol=1e-10):
    return len(a) == len(b) and all(near(x, y, rtol) for x, y in zip(a, b))
