"""Values outside the documented domain of each kind of parameter."""
import numpy as np
from scipy.constants import epsilon_0, mu_0

import gen


def bad(rng, kind, ctx, loose=False):
    """A value (and a label) that the parameter must reject."""
    three = [("two", [1.0, 2.0]), ("four", [1.0, 2.0, 3.0, 4.0]), ("empty", []), ("number", 3.0), ("none", None), ("text", "abc"),
             ("texts", ["a", "b", "c"]), ("dict", {"x": 1}), ("ragged", [[1, 2], 3, 4])]
    square = [("22", np.zeros((2, 2))), ("33", np.eye(3)), ("23", np.ones((2, 3)))]
    num = [("text", "one"), ("none", None), ("list", [1.0, 2.0]), ("dict", {}), ("array", np.ones(3)), ("complex", 1 + 1j)]
    neg = [("negative", -gen.logu(rng, 1e-12, 1e3)), ("slightly negative", -gen.logu(rng, 1e-30, 1e-9)), ("minus inf", -np.inf), ("negative array", np.array(-1.0)), ("negative text", "-2.0")]
    zero = [("zero", 0), ("zero float", 0.0), ("minus zero", -0.0), ("numpy zero", np.float64(0))]
    if kind == "number":
        c = num
    elif kind == "positive":
        c = num + neg + zero
    elif kind == "nonneg":
        c = num + neg
    elif kind == "vec3":
        c = three + square
    elif kind == "vec3loose":
        c = [t for t in three]
    elif kind == "vec3below":
        z = gen.logu(rng, 1e-9, 1e3)
        c = three + [("above", [1.0, 2.0, z]), ("above array", np.array([0.0, 0.0, z])), ("above tuple", (0, 0, 1))]
    elif kind == "orient":
        c = [t for t in three if t[0] != "text"] + square + [("letter", "W"), ("word", "north"), ("blank", ""), ("xy", "XY"), ("space", " x")]
    elif kind == "orient_xy":
        c = [t for t in three if t[0] not in ("text", "ragged", "dict", "number", "none")] + [
            ("letter", "W"), ("Z", "Z"), ("z", "z"), ("vertical", [0.0, 0.0, 1.0]), ("dipping", np.array([1.0, 0.0, gen.signed(rng, 1e-12, 1)])),
            ("number", 3.0), ("none", None)]
    elif kind == "freq":
        f = gen.logu(rng, 1e-9, 1e4)
        c = [("text", "fast"), ("negative", -f), ("one negative", np.array([1.0, -f, 3.0])), ("last negative", [1.0, 2.0, -f]),
             ("2-D", np.ones((2, 2))), ("2-D row", [[1.0, 2.0]]), ("dict", {"f": 1}), ("texts", ["a", "b"])]
    elif kind == "thickness":
        c = [("text", "thick"), ("negative", -1.0), ("one negative", np.array([1.0, -gen.logu(rng, 1e-9, 1e3)])), ("2-D", np.ones((2, 2))),
             ("dict", {"h": 1}), ("texts", ["a"])]
    elif kind in ("layers", "layersmu"):
        nl, nf = ctx["nl"], max(ctx["nf"], 1)
        one = np.ones((nl, nf)) * (1.0 if kind == "layers" else 1.0)
        hole = np.ones(nl)
        hole[rng.integers(nl)] = -gen.logu(rng, 1e-9, 1)
        im = np.ones((nl, nf)) + 0.1j
        im[rng.integers(nl), rng.integers(nf)] = 1 - 1j * gen.logu(rng, 1e-15, 1)
        c = [("text", "abc"), ("none", None), ("too many", np.ones(nl + 1)), ("too few", np.ones(nl - 1) if nl > 1 else np.ones(nl + 2)), ("transposed+1", np.ones((nf + 1, nl))),
             ("3-D", np.ones((nl, nf, 1))), ("too many columns", np.ones((nl, nf + 1))), ("too many rows", np.ones((nl + 1, nf))),
             ("one negative", hole), ("one negative imaginary", im), ("negative imaginary", complex(1, -gen.logu(rng, 1e-15, 1))), ("negative", -1.0), ("dict", {"a": 1}), ("texts", ["a"] * nl)]
        c = [t for t in c if t[0] != "transposed+1" or (nf + 1, nl) != (nl, nf)]
        if kind == "layers":
            z = np.ones(nl)
            z[rng.integers(nl)] = 0.0
            c += [("zero", 0.0), ("one zero", z)]
        else:
            z = np.ones(nl)
            z[rng.integers(nl)] = 0.5 * (epsilon_0 if ctx.get("name") == "epsilon" else mu_0)
            c += [("one below vacuum", z), ("zero", 0.0), ("below vacuum", 0.5 * epsilon_0)]
    elif kind == "nodes":
        c = [("two", [1.0, 2.0]), ("n2", np.ones((4, 2))), ("n4", np.ones((2, 4))), ("3-D", np.ones((2, 3, 3))), ("text", "abc"), ("none", None),
             ("dict", {"a": 1}), ("number", 2.0), ("empty", []), ("texts", [["a", "b", "c"]]), ("ragged", [[1, 2, 3], [1, 2]])]
    else:
        return None
    return c[rng.integers(len(c))]


def good(rng, p, ctx):
    """A valid value, in one of the forms the setter accepts; returns (label, form, plain value)."""
    v = p.draw(rng, ctx)
    k = p.kind
    if k in ("number", "positive", "nonneg"):
        forms = [("float", float(v)), ("numpy", np.float64(v)), ("0-d", np.array(v))]
        if k == "number":
            forms += [("zero", 0.0), ("minus", -v)]
            n = int(rng.integers(-9, 9))
            forms += [("int", n)]
        if k == "positive":
            n = int(rng.integers(1, 9))
            forms += [("int", n), ("numpy int", np.int32(n))]
        if k == "nonneg" and rng.random() < 0.2:
            forms += [("zero", 0.0)]
        f = forms[rng.integers(len(forms))]
        return f[0], f[1], float(f[1])
    if k in ("vec3", "vec3loose", "vec3below", "orient", "orient_xy"):
        i = [int(t) for t in rng.integers(1, 9, 3)]
        if np.all(v < 0):           # corners of prisms stay on their side
            i = [-t for t in i]
        elif k == "vec3below":
            i[2] = -i[2]
        if k == "orient_xy" or v[2] == 0:
            i[2] = 0
        forms = [("array", v.copy()), ("list", v.tolist()), ("tuple", tuple(v.tolist())), ("ints", i), ("numpy ints", np.array(i)), ("strided", np.repeat(v, 2)[::2]),
                 ("float32", v.astype(np.float32)), ("numpy items", [np.float64(t) for t in v])]
        if k in ("vec3", "orient"):
            forms += [("row", v[None]), ("column", v[:, None])]
        if k in ("orient", "orient_xy"):
            forms += [("long", v * gen.logu(rng, 1e-3, 1e3))]
            ax = rng.integers(3 if k == "orient" else 2)
            forms += [("letter", "XYZxyz"[ax + 3 * rng.integers(2)])] * 3
        f = forms[rng.integers(len(forms))]
        if f[0] == "letter":
            return f[0], f[1], np.eye(3)["xyz".index(f[1].lower())]
        w = np.array(f[1], dtype=float).reshape(3)
        if k in ("orient", "orient_xy"):
            w = w / np.linalg.norm(w)
        return f[0], f[1], w
    if k == "freq":
        if np.ndim(v) == 0:
            forms = [("float", v), ("0-d", np.array(v)), ("int", int(np.ceil(v)))]
        else:
            forms = [("array", v), ("list", v.tolist()), ("tuple", tuple(v)), ("strided", np.repeat(v, 2)[::2])]
        f = forms[rng.integers(len(forms))]
        return f[0], f[1], np.array(f[1], dtype=float)
    if k == "thickness":
        if v.size == 0:
            f = [("none", None), ("empty", []), ("array", v)][rng.integers(3)]
            return f[0], f[1], np.zeros(0)
        forms = [("array", v), ("list", v.tolist()), ("tuple", tuple(v))]
        if v.size == 1:
            forms.append(("float", float(v[0])))
        f = forms[rng.integers(len(forms))]
        return f[0], f[1], v
    if k in ("layers", "layersmu"):
        forms = [("array", v), ("list", v.tolist())]
        s = float(np.real(v.flat[0]))
        forms += [("number", s), ("real", np.real(v).copy())]
        f = forms[rng.integers(len(forms))]
        if f[0] == "number":
            return f[0], f[1], np.full(ctx["nl"], s + 0j)
        return f[0], f[1], np.array(f[1], dtype=complex)
    if k == "nodes":
        forms = [("array", v), ("list", v.tolist()), ("tuples", [tuple(r) for r in v]), ("fortran", np.asfortranarray(v)),
                 ("ints", np.arange(12).reshape(4, 3) ** 2)]
        f = forms[rng.integers(len(forms))]
        return f[0], f[1], np.array(f[1], dtype=float)
    return "plain", v, v
