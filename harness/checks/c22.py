"""Array utilities against element-by-element definitions."""
import contextlib
import io
import itertools

import numpy as np

import bulk
import gen
from core import EPS, LD
from ref_basic import ld, norm

BUILD = None
QUICK = 15
RULE = ("a case draws arrays of random rank, shape (with length one and empty axes), type and memory layout, and "
        "compares each utility with a loop written from its definition; distinct = (function, rank, type, layout, "
        "options)")
ASSUMPTIONS = ["more than three target dimensions and more than three grid axes are not documented"]


def arr(rng, rank=None, dtype=None, empty=True):
    rank = int(rng.integers(1, 4)) if rank is None else rank
    sh = [int(x) for x in rng.choice([1, 2, 3, 4] + ([0] if empty and rng.random() < 0.1 else []), rank)]
    dt = dtype or [float, complex, int, np.float32, bool][rng.integers(5)]
    a = (rng.normal(size=sh) * 100).astype(float if dt is complex else dt)
    if dt is complex:
        a = a + 1j * rng.normal(size=sh)
    k = rng.integers(5)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        a = np.repeat(a, 2, -1)[..., ::2]
    elif k == 3:
        a = a.T
    elif k == 4:
        a = a[::-1]
    return a, int(k)


def fortran_order(a):
    """Elements with the first index running fastest, by explicit loops."""
    out = []
    for idx in itertools.product(*(range(n) for n in reversed(a.shape))):
        out.append(a[tuple(reversed(idx))])
    return out


def exact(c, key, got, want):
    g, w = np.asarray(got), np.asarray(want)
    c.check(g.shape == w.shape and g.dtype == w.dtype and bool(np.all((g == w) | ((g != g) & (w != w)))), key,
            "%s: got %r, expected %r" % (key, g, w))


def mkvc(c):
    from geoana.utils import mkvc
    a, k = arr(c.rng)
    nd = [None, 1, 2, 3][c.rng.integers(4)]
    m = a
    if a.ndim == 2 and c.rng.random() < 0.1:
        m = np.matrix(a)
    c.note(shape=a.shape, dtype=str(a.dtype), n_dims=nd)
    got = c.call("mkvc", mkvc, m, *(() if nd is None else (nd,)))
    want = np.array(fortran_order(a), dtype=a.dtype).reshape((-1,) + (1,) * ((nd or 1) - 1))
    exact(c, "mkvc", got, want)
    c.check(not np.shares_memory(got, a) or a.size == 0, "mkvc copies", "result shares memory with the argument")
    c.sig("mkvc", a.ndim, str(a.dtype), k, nd)
    for bad in ([1.0, 2.0], 3.0, "x"):
        try:
            mkvc(bad)
            c.check(False, "mkvc rejects", "%r accepted" % (bad,))
        except Exception:
            c.evals += 1
    c.ev("mkvc")


def ndgrid(c):
    from geoana.utils import ndgrid
    rng = c.rng
    n = int(rng.integers(1, 4))
    xs = [rng.normal(size=int(rng.integers(1, 6))) for _ in range(n)]
    if rng.random() < 0.3:
        xs = [np.repeat(x, 2)[::2] for x in xs]
    vec = [None, True, False][rng.integers(3)]
    aslist = rng.random() < 0.5
    kw = {} if vec is None else {"vector": vec}
    c.note(sizes=[len(x) for x in xs], vector=vec, aslist=aslist)
    got = c.call("ndgrid", ndgrid, *([list(xs)] if aslist else xs), **kw)
    if n == 1:
        exact(c, "ndgrid 1", got, xs[0])
    elif vec is False:
        if c.check(isinstance(got, (tuple, list)) and len(got) == n, "ndgrid", "one array per axis expected"):
            sh = tuple(len(x) for x in xs)
            for i in range(n):
                want = np.empty(sh)
                for idx in np.ndindex(*sh):
                    want[idx] = xs[i][idx[i]]
                exact(c, "ndgrid array %d of %d" % (i, n), got[i], want)
    else:
        rows = []
        for idx in itertools.product(*(range(len(x)) for x in reversed(xs))):
            idx = tuple(reversed(idx))
            rows.append([xs[i][idx[i]] for i in range(n)])
        exact(c, "ndgrid vector %d" % n, got, np.array(rows))
    c.ev("ndgrid:%d" % n)
    c.sig("ndgrid", n, vec, aslist)


def locations(c):
    from geoana.utils import append_ndim, check_xyz_dim
    rng = c.rng
    dim = int(rng.integers(2, 5))
    loc = [(), (5,), (2, 3), (1, 1, 4), (1,), (0,), (dim,), (dim, dim), (dim, 2), (2, dim), (dim, 1)][rng.integers(11)]
    A = rng.normal(size=loc + (dim,)) * 10
    dt = [None, float, complex, int][rng.integers(4)]
    want = A.astype(dt or float)
    form = rng.integers(5)
    arg = A
    if form == 0:
        arg = tuple(A[..., i].copy() for i in range(dim))
    elif form == 1:
        arg = A.tolist() if loc != (0,) else A
    elif form == 2:
        arg = np.asfortranarray(A)
    elif form == 3:
        A = np.round(A)
        want = A.astype(dt or float)
        arg = A.astype(int)
    kw = {} if dim == 3 and rng.random() < 0.5 else {"dim": dim}
    if dt:
        kw["dtype"] = dt
    c.note(loc=loc, dim=dim, form=int(form), dtype=str(dt))
    exact(c, "check_xyz_dim", c.call("check_xyz_dim", check_xyz_dim, arg, **kw), want)
    wrong = dim + 1 if rng.random() < 0.5 else dim - 1
    try:
        check_xyz_dim(arg, wrong)
        c.check(False, "check_xyz_dim rejects", "%d columns accepted as %d" % (dim, wrong))
    except ValueError:
        c.evals += 1
    a, k = arr(rng)
    n = int(rng.integers(0, 4))
    src = a if rng.random() < 0.7 else (3.5 if rng.random() < 0.5 else a.tolist())
    exact(c, "append_ndim", c.call("append_ndim", append_ndim, src, n),
          np.asarray(src).reshape(np.shape(src) + (1,) * n))
    c.ev("locations")
    c.sig("loc", dim, loc, int(form), str(dt), n)


def vectors(c):
    from geoana import spatial as S
    rng = c.rng
    n = int(rng.integers(1, 9))
    P = gen.direction(rng, n) * gen.logu(rng, 1e-5, 1e5, n)[:, None]
    if rng.random() < 0.3:
        P[0] = 0
    o = gen.location(rng)
    arg = [P.copy(), np.asfortranarray(P), np.repeat(P, 2, 0)[::2], P[::-1].copy()[::-1]][rng.integers(4)]
    oarg = [o, o.tolist(), tuple(o.tolist())][rng.integers(3)]
    c.note(P=P, o=o)
    d = ld(P) - ld(o)
    s = EPS * 8 * (np.abs(P).max(1) + np.abs(o).max())
    c.close("vector_distance", c.call("vd", S.vector_distance, arg, oarg), d, s[:, None])
    c.close("vector_distance default", c.call("vd", S.vector_distance, arg), ld(P), 0)
    c.close("distance", c.call("distance", S.distance, arg, oarg), norm(d), 4 * s)
    c.close("distance default", c.call("distance", S.distance, arg), norm(ld(P)), 16 * EPS * norm(ld(P)))
    c.close("vector_dot", c.call("dot", S.vector_dot, arg, oarg), ld(P) @ ld(o), 16 * EPS * (np.abs(ld(P)) @ np.abs(ld(o))))
    for f in (S.vector_distance, S.distance, S.vector_dot):
        for bad in (o[:2], np.r_[o, 1.0]):
            try:
                f(arg, bad)
                c.check(False, f.__name__ + " rejects", "a vector of %d components is accepted" % len(bad))
            except Exception:
                c.evals += 1
    sh = [(n, 3), (n, 2), (1, n, 3), (3,), (n, 5)][rng.integers(5)]
    v = rng.normal(size=sh) * gen.wide(rng, 1e-5, 1e5, 1e30)
    if rng.random() < 0.3:
        v = v + 1j * rng.normal(size=sh)
    w = np.sqrt((np.abs(v).astype(LD) ** 2).sum(-1))
    c.close("vector_magnitude", c.call("mag", S.vector_magnitude, v), w, 16 * EPS * w)
    x = rng.normal(size=n)
    dim = [None, 1, 2, 3, 4][rng.integers(5)]
    got = c.call("repeat_scalar", S.repeat_scalar, x, *(() if dim is None else (dim,)))
    exact(c, "repeat_scalar", got, np.array([[x[i]] * (dim or 3) for i in range(n)]))
    c.ev("vectors")
    c.sig("vec", n, sh, dim)


def large(c):
    """The same definitions, by array operations, for arrays of many elements."""
    from geoana import spatial as S
    from geoana import utils as U
    rng = c.rng
    n = bulk.count(rng)
    which = c.idx % 6
    c.note(which=which, n=n)
    if which == 0:
        sh = [(n,), (n // 7, 7), (3, n // 3), (n // 20, 4, 5)][rng.integers(4)]
        a = np.arange(int(np.prod(sh))).reshape(sh).astype([float, int, complex][rng.integers(3)])
        nd = int(rng.integers(1, 4))
        got = c.call("mkvc", U.mkvc, a, nd)
        want = np.arange(a.size).reshape(sh).transpose(*range(len(sh))[::-1]).reshape((-1,) + (1,) * (nd - 1))
        c.check(got.shape == want.shape and bool((got == want).all()), "mkvc large", "elements or shape differ for %s" % (sh,))
    elif which == 1:
        k = int(rng.integers(2, 4))
        sz = rng.permutation([int(n ** 0.5), 7, 5] if k == 3 else [n // 9, 9])
        xs = [rng.normal(size=int(q)) for q in sz]
        g = np.meshgrid(*xs, indexing="ij")
        if rng.random() < 0.5:
            got = c.call("ndgrid", U.ndgrid, *xs)
            want = np.stack([a.transpose(*range(k)[::-1]).ravel() for a in g], -1)
            c.check(got.shape == want.shape and bool((got == want).all()), "ndgrid large", "grid of %s differs" % (sz,))
        else:
            got = c.call("ndgrid", U.ndgrid, *xs, vector=False)
            c.check(all(a.shape == b.shape and bool((a == b).all()) for a, b in zip(got, g)), "ndgrid large", "grid of %s differs" % (sz,))
    elif which == 2:
        A = rng.normal(size=(n, 3))
        arg = [A, tuple(A.T.copy()), np.asfortranarray(A), A.tolist() if n < 20000 else A][rng.integers(4)]
        got = c.call("check_xyz_dim", U.check_xyz_dim, arg)
        c.check(got.shape == A.shape and bool((got == A).all()), "check_xyz_dim large", "locations differ")
        got = c.call("append_ndim", U.append_ndim, A, 2)
        c.check(got.shape == A.shape + (1, 1) and bool((got[..., 0, 0] == A).all()), "append_ndim large", "values differ")
    else:
        P, o = rng.normal(size=(5, 3)) * 100, rng.normal(size=3)
        for name, f in (("vector_distance", lambda q: S.vector_distance(q, o)), ("distance", lambda q: S.distance(q, o)),
                        ("vector_dot", lambda q: S.vector_dot(q, o)), ("vector_magnitude", S.vector_magnitude),
                        ("repeat_scalar", lambda q: S.repeat_scalar(q[:, 0]))):
            bulk.rows(c, name, f, [P], 5)
    c.ev("large")
    c.sig("large", which, int(np.log2(n)))


def sources(c):
    """Distances to, and products with the direction of, every dipole-like source."""
    import registry as R
    rng = c.rng
    es = [e for e in R.ENTRIES if any(m.name in R.HELPNAMES for m in e.methods)]
    e = es[c.idx % len(es)]
    ctx = R.context(rng)
    st = e.state(rng, ctx)
    o = c.call(e.key, e.make, st)
    loc = ld(np.asarray(st["location"], float))
    # a source that takes no orientation keeps the one its base class gives it
    v = np.asarray(st["orientation"] if "orientation" in st else o.orientation, float)
    P = rng.normal(size=(6, 3)) * ctx["L"] * 3
    if rng.random() < 0.3:
        P[0] = st["location"]
    sh = [(6,), (2, 3), (1, 3, 2), ()][rng.integers(4)]
    A = P[0] if sh == () else P.reshape(sh + (3,))
    P = P[:1] if sh == () else P
    c.note(entry=e.key, state=st, P=P)
    d = ld(P) - loc
    u = ld(v) / norm(ld(v)[None])[0]
    s = 16 * EPS * (np.abs(P).max() + np.abs(loc).max())
    for name, want, t, tail in (("vector_distance", d, s, (3,)), ("distance", norm(d), s, ()), ("dot_orientation", ld(P) @ u, s, ()),
                                ("cross_orientation", np.cross(ld(P), u), s, (3,))):
        got = c.call(name, getattr(o, name), A)
        if c.check(np.shape(got) == sh + tail, e.key + "." + name + ":shape", "shape %s" % (np.shape(got),)):
            c.close(e.key + "." + name, np.reshape(got, want.shape), want, t)
    c.ev("sources")
    c.sig("source", e.key, sh)


def soft(c):
    from geoana.utils import requires
    rng = c.rng
    mods = {k: [np, False, None, True, 0][rng.integers(5)] for k in "abc"[:rng.integers(0, 4)]}
    missing = [k for k, v in mods.items() if v is False]
    calls = []

    def target(*a, **k):
        calls.append((a, k))
        return ("value", a, k)
    g = c.call("requires", requires(mods), target)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = c.call("guarded", g, 1, x=2)
    c.note(mods={k: str(v) for k, v in mods.items()})
    if missing:
        c.check(not calls and out is None, "guard", "a function with missing dependencies ran")
        c.check(all(m in buf.getvalue() for m in missing), "guard message", "missing dependencies are not named")
    else:
        c.check(out == ("value", (1,), {"x": 2}) and len(calls) == 1, "guard", "a function with its dependencies was blocked")
    c.ev("guards")
    c.sig("soft", len(mods), len(missing))


TARGETS = [("large", large, 20, 1500), ("sources", sources, 160, 6000), ("mkvc", mkvc, 800, 20000), ("ndgrid", ndgrid, 800, 20000), ("locations", locations, 800, 20000),
           ("vectors", vectors, 800, 20000), ("soft", soft, 200, 2000)]
REQUIRE = {"mkvc": 100, "sources": 500, "ndgrid:1": 50, "ndgrid:2": 50, "ndgrid:3": 50, "locations": 100, "vectors": 100, "guards": 50}
