"""Extended precision corner sums for the prism integrals, with error bounds.

`corner(name, x, y, z)` is one antiderivative, written so that nothing cancels;
`definite(name, lo, hi)` the eight corner sum over boxes lo..hi (offsets of the
box from the point), with the sum of the moduli of its terms and an allowance
for the logarithms that lose accuracy next to the extension of an edge when they
are evaluated as log(y + r).
Signs as in the library: the corner sum of f is minus the integral of 1/r over the
box, that of fz the integral of d/dz 1/r, and so on.
"""
import numpy as np

from core import EPS, LD

NAMES = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy",
         "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz")


def _log(y, x, z, r):
    """log(y + r) without cancellation; its regular part where x = z = 0 > y."""
    s = x * x + z * z
    neg = y < 0
    den = np.where(neg, r - y, LD(1))
    v = np.where(neg, s / den, y + r)
    zero = v <= 0
    out = np.log(np.where(zero, LD(1), v))
    out = np.where(zero & neg, -np.log(np.where(zero & neg, 2 * np.abs(y), LD(1))), out)
    # what a double evaluation of log(y + r) may lose
    q = np.where(neg & ~zero, EPS * r / np.where(zero, LD(1), v), LD(0))
    loss = np.where(q < 0.1, 8 * q, 4 * (np.abs(out) + np.abs(np.log(np.where(r > 0, r, LD(1)))) + 45))
    loss = np.where(zero & neg, LD(0), loss)
    return out, loss


def _div(a, b):
    ok = b != 0
    return np.where(ok, a / np.where(ok, b, LD(1)), LD(0))


def _at(n, d):
    ok = d != 0
    return np.where(ok, np.arctan(n / np.where(ok, d, LD(1))), LD(0))


def corner(name, x, y, z):
    """value, sum of |terms|, allowance."""
    r = np.sqrt(x * x + y * y + z * z)
    none = np.zeros_like(r)
    if name == "prism_f":
        lz, ez = _log(z, x, y, r)
        lx, ex = _log(x, y, z, r)
        ly, ey = _log(y, x, z, r)
        t = [-x * y * lz, -y * z * lx, -z * x * ly,
             x * x / 2 * _at(y * z, x * r), y * y / 2 * _at(x * z, y * r), z * z / 2 * _at(x * y, z * r)]
        a = np.abs(x * y) * ez + np.abs(y * z) * ex + np.abs(z * x) * ey
        a = a + EPS * 8 * (np.abs(x * y) + np.abs(y * z) + np.abs(z * x))
    elif name == "prism_fz":
        lx, ex = _log(x, y, z, r)
        ly, ey = _log(y, x, z, r)
        t = [x * ly, y * lx, -z * _at(x * y, z * r)]
        a = np.abs(x) * ey + np.abs(y) * ex + EPS * 8 * (np.abs(x) + np.abs(y))
    elif name == "prism_fzz":
        t, a = [_at(x * y, z * r)], none
    elif name == "prism_fzx":
        t, a = [-_log(y, x, z, r)[0]], none + EPS * 8
    elif name == "prism_fzy":
        t, a = [-_log(x, y, z, r)[0]], none + EPS * 8
    elif name == "prism_fzzz":
        w = _div(x * y, r)
        t, a = [_div(w, x * x + z * z), _div(w, y * y + z * z)], none
    elif name == "prism_fxxy":
        t, a = [_div(-_div(x * z, r), x * x + y * y)], none
    elif name == "prism_fxxz":
        t, a = [_div(-_div(x * y, r), x * x + z * z)], none
    elif name == "prism_fxyz":
        t, a = [_div(np.ones_like(r), r)], none
    v = sum(t)
    return v, sum(np.abs(q) for q in t), a


def definite(name, lo, hi):
    """Corner sum over boxes (..., 3) lo..hi: value, tolerance scale, allowance."""
    val = mag = alw = LD(0)
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                x = (hi if i else lo)[..., 0]
                y = (hi if j else lo)[..., 1]
                z = (hi if k else lo)[..., 2]
                v, m, a = corner(name, x, y, z)
                s = -1 if (i + j + k) % 2 == 0 else 1
                val = val + s * v
                mag = mag + m
                alw = alw + a
    return val, mag, alw


def cycled(name, lo, hi, cycle):
    """The same with the axes renamed as many times as `cycle`: (x,y,z) <- (y,z,x)."""
    idx = [0, 1, 2]
    for _ in range(cycle):
        idx = idx[1:] + idx[:1]
    return definite(name, lo[..., idx], hi[..., idx])


def tol(mag, alw, C=500):
    return C * EPS * mag + 4 * alw


# third derivative by axis counts: which kernel, with which axes, gives d3/d..
def tensor2(lo, hi):
    """int d2/dxi dxj 1/r over the box, (..., 3, 3), and tolerances.

    d2/dz2 = fzz(x, y, z); d2/dzdx = fzx(x, y, z); others by renaming axes.
    """
    out = np.empty(lo.shape[:-1] + (3, 3), LD)
    t = np.empty_like(out)
    for i in range(3):
        a, b = (i + 1) % 3, (i + 2) % 3
        v, m, al = definite("prism_fzz", lo[..., [a, b, i]], hi[..., [a, b, i]])
        out[..., i, i], t[..., i, i] = v, tol(m, al)
        # d2/dxa dxb: the remaining axis i is the one in the logarithm
        v, m, al = definite("prism_fzx", lo[..., [a, i, b]], hi[..., [a, i, b]])
        out[..., a, b], t[..., a, b] = v, tol(m, al)
        out[..., b, a], t[..., b, a] = v, tol(m, al)
    return out, t


def tensor3(lo, hi):
    """int d3/dxi dxj dxk 1/r over the box."""
    out = np.empty(lo.shape[:-1] + (3, 3, 3), LD)
    t = np.empty_like(out)

    def put(ix, v, tt):
        import itertools
        for p in set(itertools.permutations(ix)):
            out[(...,) + p] = v
            t[(...,) + p] = tt

    for i in range(3):
        a, b = (i + 1) % 3, (i + 2) % 3
        v, m, al = definite("prism_fzzz", lo[..., [a, b, i]], hi[..., [a, b, i]])
        put((i, i, i), v, tol(m, al))
        for j, k in ((a, b), (b, a)):
            v, m, al = definite("prism_fxxy", lo[..., [i, j, k]], hi[..., [i, j, k]])
            put((i, i, j), v, tol(m, al))
    v, m, al = definite("prism_fxyz", lo, hi)
    put((0, 1, 2), v, tol(m, al))
    return out, t


# ---- independent values by quadrature ------------------------------------
def quadrature(lo, hi, n=20):
    """int over the box of 1/r and its derivatives with respect to the offset
    (Gauss-Legendre; only for boxes that stay clear of the origin).  The
    derivatives are those of 1/r in the integration variable."""
    g, w = np.polynomial.legendre.leggauss(n)
    xs = [(lo[i] + hi[i]) / 2 + (hi[i] - lo[i]) / 2 * g for i in range(3)]
    ws = [(hi[i] - lo[i]) / 2 * w for i in range(3)]
    X, Y, Z = np.meshgrid(*xs, indexing="ij")
    W = ws[0][:, None, None] * ws[1][None, :, None] * ws[2][None, None, :]
    d = np.stack([X, Y, Z], -1)
    r = np.sqrt((d * d).sum(-1))
    e = np.eye(3)
    i0 = (W / r).sum()
    i1 = -(W[..., None] * d / r[..., None] ** 3).sum((0, 1, 2))
    i2 = np.einsum("xyz,xyzi,xyzj->ij", 3 * W / r ** 5, d, d) - e * (W / r ** 3).sum()
    i3 = -15 * np.einsum("xyz,xyzi,xyzj,xyzk->ijk", W / r ** 7, d, d, d)
    q = 3 * np.einsum("xyz,xyzi->i", W / r ** 5, d)
    i3 = i3 + np.einsum("ij,k->ijk", e, q) + np.einsum("ik,j->ijk", e, q) + np.einsum("jk,i->ijk", e, q)
    return i0, i1, i2, i3
