"""Every public class with its parameters, methods and admissible points.

A `ctx` fixes what belongs together in one case (length scale, numbers of
layers and frequencies), so that parameters of different draws can be mixed.
"""
import importlib

import numpy as np
from scipy.constants import epsilon_0, mu_0

import gen

ST, FD, TD, GR = "geoana.em.static", "geoana.em.fdem", "geoana.em.tdem", "geoana.gravity"


class P:
    """A settable parameter: how to draw a value, and the kind of its domain."""

    def __init__(self, kind, draw, in_init=True, required=False):
        self.kind, self.draw, self.in_init, self.required = kind, draw, in_init, required


class M:
    """A field method. tail: shape per location; options: keyword alternatives."""

    def __init__(self, name, tail, options=({},), lead=True, second=False, strength=1, spatial=True):
        self.name, self.tail, self.options, self.lead, self.second = name, tail, options, lead, second


class Entry:
    def __init__(self, module, cls, params, methods, derived=(), points="free", styles="all", squeeze=False,
                 couple=()):
        self.module, self.cls, self.params, self.methods = module, cls, params, methods
        self.derived, self.points, self.styles, self.squeeze, self.couple = derived, points, styles, squeeze, couple
        self.key = module.split(".")[-1] + "." + cls

    def type(self):
        return getattr(importlib.import_module(self.module), self.cls)

    def state(self, rng, ctx):
        return {k: p.draw(rng, ctx) for k, p in self.params.items()}

    def make(self, state, cls=None):
        return (cls or self.type())(**{k: v for k, v in state.items() if self.params[k].in_init})

    def lead(self, state):
        for k in ("frequency", "time"):
            if k in state:
                if self.cls == "MagneticDipoleLayeredHalfSpace":
                    return (np.size(state[k]),)
                return np.shape(state[k])
        return ()

    def locations(self, rng, ctx, n=8):
        L = ctx["L"]
        X = rng.uniform(-4, 4, (n, 3)) * L
        if self.points == "below":
            X[:, 2] = -np.abs(X[:, 2])
        elif self.points == "above":
            X[:, 2] = np.abs(X[:, 2])
        elif self.points == "plane":
            X[:, 2] = 0.0
        return X


def context(rng):
    return {"L": float(gen.logu(rng, 0.5, 500.0)), "nl": int(rng.choice([1, 2, 3])), "nf": int(rng.choice([0, 1, 2, 3])),
            "s": float(gen.logu(rng, 1e-3, 10.0))}


# ---- drawing ----------------------------------------------------------------
pos = lambda lo, hi: lambda rng, ctx: float(gen.logu(rng, lo, hi))
anyn = lambda rng, ctx: float(gen.swide(rng, 1e-2, 1e3, 1e9, 0.1))
sigma = lambda rng, ctx: float(ctx["s"] * gen.logu(rng, 0.3, 3))
mu = lambda rng, ctx: float(mu_0 * gen.logu(rng, 1, 10))
eps = lambda rng, ctx: float(epsilon_0 * gen.logu(rng, 1, 20))
length = lambda rng, ctx: float(ctx["L"] * gen.logu(rng, 0.3, 1.5))
vec = lambda rng, ctx: rng.uniform(-2, 2, 3) * ctx["L"]
unit = lambda rng, ctx: gen.unit(rng)
field = lambda rng, ctx: gen.direction(rng) * gen.logu(rng, 0.1, 10)


def below(rng, ctx):
    v = vec(rng, ctx)
    v[2] = 0.0 if rng.random() < 0.4 else -abs(v[2])
    return v


def surface(rng, ctx):
    v = vec(rng, ctx)
    v[2] = 0.0
    return v


def above(rng, ctx):
    v = vec(rng, ctx)
    v[2] = abs(v[2])
    return v


def planar(rng, ctx):
    a = rng.uniform(0, 2 * np.pi)
    return np.array([np.cos(a), np.sin(a), 0.0])


def skin(rng, ctx):
    """frequencies whose skin depth is about the length scale"""
    f = 2 / (2 * np.pi * mu_0 * ctx["s"] * ctx["L"] ** 2)
    if ctx["nf"] == 0:
        return float(f * gen.logu(rng, 0.1, 10))
    return f * gen.logu(rng, 0.1, 10, ctx["nf"])


def times(rng, ctx):
    t = mu_0 * ctx["s"] * ctx["L"] ** 2
    if ctx["nf"] == 0:
        return float(t * gen.logu(rng, 0.3, 10))
    return t * gen.logu(rng, 0.3, 10, ctx["nf"])


def nodes(rng, ctx):
    n = int(rng.integers(2, 6))
    return rng.uniform(-2, 2, (n, 3)) * ctx["L"]


def thick(rng, ctx):
    return ctx["L"] * gen.logu(rng, 0.1, 2, ctx["nl"] - 1)


def layers(base, lo, hi):
    def draw(rng, ctx):
        nl, nf = ctx["nl"], max(ctx["nf"], 1)
        b = base(ctx)
        k = rng.integers(2)
        if k == 0:
            return b * gen.logu(rng, lo, hi, nl) * (1 + 0.2j * rng.integers(2))
        return b * gen.logu(rng, lo, hi, (nl, nf)) * (1 + 0.2j)
    return draw


mins = lambda rng, ctx: -ctx["L"] * rng.uniform(0.3, 2, 3)
maxs = lambda rng, ctx: ctx["L"] * rng.uniform(0.3, 2, 3)
flag = lambda rng, ctx: bool(rng.integers(2))

EM = dict(sigma=P("positive", sigma), mu=P("positive", mu), epsilon=P("nonneg", eps))
LOC = dict(location=P("vec3", vec))
DIP = dict(location=P("vec3", vec), orientation=P("orient", unit))
MAG = dict(DIP, moment=P("number", anyn))
EL = dict(DIP, length=P("positive", pos(0.1, 10)), current=P("number", anyn))
FREQ = dict(frequency=P("freq", skin, required=True), quasistatic=P("flag", flag))
TIME = dict(time=P("freq", times, required=True))
HELP = [M("vector_distance", (3,), lead=False), M("distance", (), lead=False), M("dot_orientation", (), lead=False),
        M("cross_orientation", (3,), lead=False)]
CYL = ({}, {"coordinates": "cartesian"}, {"coordinates": "Cartesian"}, {"coordinates": "cylindrical"}, {"coordinates": "Cylindrical"})
FIELDS = ({"field": "total"}, {"field": "primary"}, {"field": "secondary"}, {"field": "all"}, {})
FDER = ("omega", "sigma_hat", "wavenumber", "skin_depth")
TDER = ("diffusion_distance", "theta")
PR = dict(min_location=P("vec3", mins, required=True), max_location=P("vec3", maxs, required=True))
SPH = dict(radius=P("nonneg", length, required=True), primary_field=P("vec3loose", field), location=P("vec3loose", vec))

ENTRIES = [
    Entry(GR, "PointMass", dict(LOC, mass=P("number", anyn)),
          [M("gravitational_potential", ()), M("gravitational_field", (3,)), M("gravitational_gradient", (3, 3))]),
    Entry(GR, "Sphere", dict(LOC, radius=P("nonneg", length, required=True), rho=P("number", anyn, required=True)),
          [M("gravitational_potential", ()), M("gravitational_field", (3,)), M("gravitational_gradient", (3, 3))],
          derived=("mass",), couple=(("mass", "rho"),)),
    Entry(GR, "Prism", dict(PR, rho=P("number", anyn)),
          [M("gravitational_potential", ()), M("gravitational_field", (3,)), M("gravitational_gradient", (3, 3))],
          derived=("mass", "volume", "location")),
    Entry(ST, "MagneticPrism", dict(PR, magnetization=P("vec3", field)),
          [M("scalar_potential", ()), M("magnetic_field", (3,)), M("magnetic_flux_density", (3,)),
           M("magnetic_field_gradient", (3, 3))], derived=("moment", "volume", "location")),
    Entry(ST, "MagneticDipoleWholeSpace", dict(EM, **MAG),
          [M("vector_potential", (3,), CYL), M("magnetic_flux_density", (3,), CYL), M("magnetic_field", (3,), CYL)] + HELP,
          derived=("rho",), couple=(("rho", "sigma"),)),
    Entry(ST, "MagneticPoleWholeSpace", dict(EM, **MAG),
          [M("magnetic_flux_density", (3,), CYL), M("magnetic_field", (3,), CYL)] + HELP, derived=("rho",), couple=(("rho", "sigma"),)),
    Entry(ST, "CircularLoopWholeSpace", dict(EM, **DIP, radius=P("positive", length), current=P("number", anyn)),
          [M("vector_potential", (3,), CYL), M("magnetic_flux_density", (3,), CYL), M("magnetic_field", (3,), CYL)] + HELP,
          derived=("rho",), couple=(("rho", "sigma"),)),
    Entry(ST, "LineCurrentWholeSpace", dict(EM, nodes=P("nodes", nodes, required=True), current=P("number", anyn)),
          [M("scalar_potential", ()), M("vector_potential", (3,)), M("electric_field", (3,)), M("current_density", (3,)),
           M("magnetic_field", (3,)), M("magnetic_flux_density", (3,))], derived=("n_segments", "rho"), couple=(("rho", "sigma"),)),
    Entry(ST, "PointCurrentWholeSpace", dict(rho=P("positive", lambda r, c: 1 / sigma(r, c), required=True),
                                             current=P("number", anyn), location=P("vec3loose", vec),
                                             mu=P("positive", mu, in_init=False)),
          [M("potential", ()), M("electric_field", (3,)), M("current_density", (3,)), M("vector_potential", (3,)),
           M("magnetic_field", (3,)), M("magnetic_flux_density", (3,))], derived=("sigma", "n_segments"), couple=(("sigma", "rho"),)),
    Entry(ST, "PointCurrentHalfSpace", dict(rho=P("positive", lambda r, c: 1 / sigma(r, c), required=True),
                                            current=P("number", anyn), location=P("vec3below", below)),
          [M("potential", ()), M("electric_field", (3,)), M("current_density", (3,))], points="below"),
    Entry(ST, "DipoleHalfSpace", dict(rho=P("positive", lambda r, c: 1 / sigma(r, c), required=True), current=P("number", anyn),
                                      location_a=P("vec3below", below), location_b=P("vec3below", below)),
          [M("potential", (), second=True), M("electric_field", (3,), second=True), M("current_density", (3,), second=True)],
          points="below"),
    Entry(ST, "ElectrostaticSphere", dict(SPH, sigma_sphere=P("positive", sigma, required=True),
                                          sigma_background=P("positive", sigma, required=True)),
          [M("potential", (), FIELDS), M("electric_field", (3,), FIELDS), M("current_density", (3,), FIELDS),
           M("charge_density", ())]),
    Entry(ST, "MagnetostaticSphere", dict(SPH, mu_sphere=P("positive", mu, required=True), mu_background=P("positive", mu, required=True)),
          [M("potential", (), FIELDS), M("magnetic_field", (3,), FIELDS), M("magnetic_flux_density", (3,), FIELDS)]),
    Entry(FD, "ElectricDipoleWholeSpace", dict(EM, **EL, **FREQ),
          [M("vector_potential", (3,)), M("electric_field", (3,)), M("current_density", (3,)), M("magnetic_field", (3,)),
           M("magnetic_flux_density", (3,))] + HELP, derived=FDER + ("rho",), couple=(("rho", "sigma"),)),
    Entry(FD, "MagneticDipoleWholeSpace", dict(EM, **MAG, **FREQ),
          [M("vector_potential", (3,)), M("electric_field", (3,)), M("current_density", (3,)), M("magnetic_field", (3,)),
           M("magnetic_flux_density", (3,))] + HELP, derived=FDER + ("rho",), couple=(("rho", "sigma"),)),
    Entry(FD, "HarmonicPlaneWave", dict(EM, **FREQ, amplitude=P("number", anyn), orientation=P("orient_xy", planar)),
          [M("electric_field", (3,)), M("current_density", (3,)), M("magnetic_field", (3,)), M("magnetic_flux_density", (3,))],
          derived=FDER + ("rho",), couple=(("rho", "sigma"),)),
    Entry(FD, "MagneticDipoleHalfSpace", dict(EM, **MAG, **FREQ, ) | dict(location=P("vec3", surface)),
          [M("magnetic_field", (3,), ({}, {"field": "secondary"}, {"field": "total"}))] + HELP, derived=FDER + ("rho",),
          points="plane", styles="array", squeeze=True, couple=(("rho", "sigma"),)),
    Entry(FD, "MagneticDipoleLayeredHalfSpace",
          dict(frequency=P("freq", skin, required=True), thickness=P("thickness", thick, required=True),
               sigma=P("layers", layers(lambda c: c["s"], 0.3, 3)), mu=P("layersmu", layers(lambda c: mu_0, 1, 10)),
               epsilon=P("layersmu", layers(lambda c: epsilon_0, 1, 10)), quasistatic=P("flag", lambda r, c: True), **MAG) |
          dict(location=P("vec3", above)),
          [M("magnetic_field", (3,), ({}, {"field": "secondary"}, {"field": "total"}))] + HELP, derived=("omega",),
          points="above", styles="n3", squeeze=True),
    Entry(TD, "ElectricDipoleWholeSpace", dict(EM, **EL, **TIME),
          [M("vector_potential", (3,)), M("electric_field", (3,)), M("current_density", (3,)), M("magnetic_field", (3,)),
           M("magnetic_field_time_deriv", (3,)), M("magnetic_flux_density", (3,)), M("magnetic_flux_density_time_deriv", (3,))] + HELP,
          derived=TDER + ("rho",), couple=(("rho", "sigma"),)),
    Entry(TD, "TransientPlaneWave", dict(EM, **TIME, amplitude=P("number", anyn), orientation=P("orient_xy", planar)),
          [M("electric_field", (3,)), M("current_density", (3,)), M("magnetic_field", (3,)), M("magnetic_flux_density", (3,))],
          derived=TDER + ("rho",), points="below", couple=(("rho", "sigma"),)),
    Entry(TD, "VerticalMagneticDipoleHalfSpace", dict(EM, **TIME, location=P("vec3", surface), moment=P("number", anyn)),
          [M("magnetic_field", (3,)), M("magnetic_flux_density", (3,)), M("magnetic_field_time_derivative", (3,)),
           M("magnetic_flux_time_derivative", (3,))] + HELP, derived=TDER + ("rho",), points="plane", couple=(("rho", "sigma"),)),
]
BY = {e.key: e for e in ENTRIES}
HELPNAMES = {m.name for m in HELP}


def leaves(out):
    """The arrays of a result, whatever it is made of."""
    if isinstance(out, (tuple, list)):
        r = []
        for o in out:
            r.extend(leaves(o))
        return r
    return [np.asarray(out)]


def shape_of(e, m, state, loc):
    lead = e.lead(state) if m.lead else ()
    full = tuple(lead) + tuple(loc) + tuple(m.tail)
    if e.squeeze and m.name not in HELPNAMES:
        full = tuple(k for k in full if k != 1)
    return full
