"""Runs inside an instrumented process: hostile kernel calls, one log line before and after each.

argv: sodir seed first count log
"""
import ctypes
import json
import os
import sys
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy as np  # noqa: E402

import loader  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
PRISM = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy",
         "prism_fxxz", "prism_fxyz")
_lib = ctypes.CDLL(None)
try:
    _poison, _unpoison = _lib.__asan_poison_memory_region, _lib.__asan_unpoison_memory_region
    for _f in (_poison, _unpoison):
        _f.argtypes, _f.restype = [ctypes.c_void_p, ctypes.c_size_t], None
except AttributeError:
    _poison = None
PAD = 64


class Guarded:
    """An array whose neighbourhood is poisoned for instrumented code."""

    def __init__(self, a, order):
        a = np.asarray(a)
        self.raw = np.empty(a.nbytes + 2 * PAD + 64, np.uint8)
        base = self.raw.ctypes.data
        off = PAD + (-(base + PAD)) % 16
        self.view = np.ndarray(a.shape, a.dtype, self.raw, off, order=order)
        self.view[...] = a
        self.lo = (base + (-base) % 8, base + off - (base + (-base) % 8))
        end = base + off + a.nbytes
        self.hi = (end, self.raw.nbytes - off - a.nbytes)
        if _poison:
            _poison(*self.lo)
            _poison(*self.hi)

    def free(self):
        if _poison:
            _unpoison(*self.lo)
            _unpoison(*self.hi)


def values(rng, shape, kind):
    x = np.exp(rng.uniform(-12, 5, shape))
    if kind == "wild":
        pool = np.array([0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324, -5e-324, 1e308, -1e308, 1e-308, 1.0, -1.0])
        m = rng.random(shape) < 0.4
        x = np.where(m, pool[rng.integers(len(pool), size=shape)], x)
    elif kind == "signed":
        x = x * rng.choice([-1.0, 1.0], size=shape)
    return x


def dress(rng, a, keep, complex_=False):
    """The same values in another array form."""
    k = rng.integers(13)
    a = np.asarray(a)
    if k <= 3:
        g = Guarded(a, "F" if rng.random() < 0.7 else "C")
        keep.append(g)
        v = g.view
        if rng.random() < 0.3:
            v.flags.writeable = False
        return v, "guarded"
    if k == 4:
        return np.asfortranarray(a), "fortran"
    if k == 5 and a.ndim:
        b = np.repeat(a, 3, 0)[::3]
        return b, "strided"
    if k == 6 and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1], "reversed"
    if k == 7:
        return a.astype(a.dtype.newbyteorder(">")), "bigendian"
    if k == 8:
        raw = np.zeros(a.nbytes + 1, np.uint8)
        v = np.ndarray(a.shape, a.dtype, raw, 1, order="F")
        v[...] = a
        return v, "misaligned"
    if k == 9 and a.dtype.kind == "f":
        return a.astype(np.float32), "float32"
    if k == 10 and a.size:
        return a.tolist(), "list"
    if k == 11 and a.ndim:
        big = np.full(tuple(2 * s + 1 for s in a.shape), np.nan, a.dtype)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v, "interior"
    b = a.copy()
    b.flags.writeable = bool(rng.random() < 0.5)
    return b, "copy"


def spoil(rng, args):
    """One argument made ill-formed."""
    f, lam, sig, mu, h = args
    k = int(rng.integers(22))
    nl, nf = sig.shape
    if k == 0: h = np.append(h, 1.0)
    elif k == 1: h = h[:-1]
    elif k == 2: h = np.zeros(0)
    elif k == 3: mu = mu[:-1]
    elif k == 4: mu = mu[:, :-1]
    elif k == 5: mu = mu.T.copy()
    elif k == 6: mu = mu[:1]
    elif k == 7: mu = mu[:, :1]
    elif k == 8: sig = sig[:-1]
    elif k == 9: sig = sig[:, :1]
    elif k == 10: f = np.append(f, 2.0)
    elif k == 11: f = f[:-1]
    elif k == 12: lam = lam[:0]
    elif k == 13: f, sig, mu = f[:0], sig[:, :0], mu[:, :0]
    elif k == 14: f = f[:, None]
    elif k == 15: lam = lam[None, :]
    elif k == 16: sig = sig[None]
    elif k == 17: sig = sig[:, 0]
    elif k == 18: h = h[:, None]
    elif k == 19: lam = float(lam[0])
    elif k == 20: mu = None
    elif k == 21: mu = mu.ravel()
    return [f, lam, sig, mu, h], k


def churn(rng, like):
    """Leave recognisable rubbish in the allocator's free lists."""
    for s in like:
        for _ in range(3):
            x = np.empty(s, np.complex128)
            x.fill(rng.normal() * 1e3 + 1j * 7)


def digest(out):
    outs = out if isinstance(out, tuple) else (out,)
    d = 0
    for o in outs:
        o = np.asarray(o)
        o = np.where(np.isnan(o.real), 0, o.real) + 1j * np.where(np.isnan(o.imag), 0, o.imag) + \
            1e3 * (np.isnan(o.real) + 1j * np.isnan(o.imag)) if o.dtype.kind == "c" else np.where(np.isnan(o), 1e3, o)
        d = zlib.crc32(repr(o.shape).encode() + np.ascontiguousarray(o).tobytes(), d)
    return d


def snapshot(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype != object:
            out.append((a, a.tobytes(), a.shape, a.strides, a.flags.writeable))
    return out


def same(snap):
    return all(a.tobytes() == b and a.shape == s and a.strides == st and a.flags.writeable == w
               for a, b, s, st, w in snap)


def rte_case(rng, K, log):
    nl = int(rng.choice([1, 1, 2, 3, 5, 8, 17, 60]))
    nf = int(rng.choice([1, 1, 2, 3, 7, 30]))
    if rng.random() < 0.03:
        nl, nf = int(rng.choice([150, 300, 700, 1500, 5000])) + int(rng.integers(3)), 1
    nq = int(rng.choice([1, 2, 3, 16, 101, 400])) if nl * nf < 600 else 5
    kind = ["plain", "plain", "wild", "signed"][rng.integers(4)]
    f = values(rng, nf, kind) * 1e3
    lam = values(rng, nq, kind)
    sig = values(rng, (nl, nf), kind) + (1j * values(rng, (nl, nf), kind) if rng.random() < 0.5 else 0j)
    mu = 4e-7 * np.pi * (1 + values(rng, (nl, nf), kind)) + 0j
    h = values(rng, nl - 1, kind) * 100
    args = [f, lam, sig, mu, h]
    bad = None
    if rng.random() < 0.4:
        try:
            args, bad = spoil(rng, args)
        except IndexError:
            pass
    keep, forms, call = [], [], []
    for a in args:
        if isinstance(a, np.ndarray):
            a, nm = dress(rng, a, keep)
            forms.append(nm)
        call.append(a)
    name = ("rTE_forward", "rTE_gradient")[rng.integers(2)]
    log(begin=name, layers=nl, freqs=nf, filters=nq, kind=kind, bad=bad, forms=forms)
    churn(rng, [(nf, nq), (nl, nf, nq), (max(nl - 1, 0), nf, nq), (nl,)])
    snap = snapshot(call)
    res, err, d = None, None, None
    try:
        res = getattr(K, name)(*call)
    except Exception as e:
        err = type(e).__name__
    out = {"outcome": err or "returned", "inputs_kept": same(snap)}
    if err is None:
        d = digest(res)
        out["digest"] = d
        if bad is None:
            shapes = [np.shape(r) for r in res] if isinstance(res, tuple) else [np.shape(res)]
            want = [(nf, nq)] if name == "rTE_forward" else [(nl, nf, nq), (nl - 1, nf, nq), (nl, nf, nq)]
            out["shape_ok"] = shapes == want
            # the same request in plain arrays
            plain = [np.array(np.asarray(a), dtype=t) for a, t in zip(call, (float, float, complex, complex, float))]
            out["same_as_plain"] = digest(getattr(K, name)(*plain)) == d
    elif bad is None:
        out["refused_valid"] = True
    for g in keep:
        g.free()
    return name, kind, bad, forms, out


def prism_case(rng, K, log):
    name = PRISM[rng.integers(len(PRISM))]
    kind = ["plain", "wild", "signed"][rng.integers(3)]
    sh = [(), (1,), (7,), (0,), (3, 0, 2), (4, 5), (2, 3, 4), (9001,)][rng.integers(8)]
    shs = [sh, sh, sh]
    bad = None
    mode = rng.integers(10)
    if mode == 0 and sh:
        shs[rng.integers(3)] = ()
    elif mode == 1 and sh:
        shs[rng.integers(3)] = sh[-1:]
    elif mode == 2 and sh:
        shs[rng.integers(3)] = tuple(s + 1 for s in sh)
        bad = "shape"
    keep, forms, args = [], [], []
    for s in shs:
        a, nm = dress(rng, values(rng, s, kind), keep)
        forms.append(nm)
        args.append(a)
    kw = {}
    if mode == 3 and sh:
        g = Guarded(np.zeros(sh), "C")
        keep.append(g)
        kw["out"] = g.view
    elif mode == 4 and sh:
        kw["where"] = rng.random(sh) < 0.5
        g = Guarded(np.full(sh, 3.25), "C")
        keep.append(g)
        kw["out"] = g.view
    elif mode == 5 and sh and sh[0] > 2:
        # overlapping input and output
        buf = values(rng, sh[0] + 3, kind)
        if len(sh) == 1:
            args = [buf[:-3], buf[3:], buf[1:-2]]
            kw["out"] = buf[2:-1]
    elif mode == 6:
        args = args[:2]
        bad = "count"
    elif mode == 7:
        args[rng.integers(3)] = ["x", None, 1j, np.array(["a"]), np.zeros(3, complex)][rng.integers(5)]
        bad = "type"
    plain = None
    if bad is None:
        plain = [np.array(np.asarray(a), dtype=float) for a in args]
    log(begin=name, shape=list(sh), kind=kind, bad=bad, mode=int(mode), forms=forms)
    snap = snapshot(args) if mode != 5 else []
    err = None
    try:
        res = getattr(K, name)(*args, **kw)
    except Exception as e:
        err = type(e).__name__
    out = {"outcome": err or "returned", "inputs_kept": same(snap)}
    if err is None and bad is None:
        out["digest"] = digest(res)
        ref = getattr(K, name)(*plain)
        if mode == 4 and sh:
            ref = np.where(kw["where"], ref, 3.25)
        out["same_as_plain"] = digest(np.asarray(ref)) == digest(np.asarray(res))
        out["shape_ok"] = np.shape(res) == np.broadcast_shapes(*[np.shape(a) for a in plain])
    elif bad is None:
        out["refused_valid"] = True
    for g in keep:
        g.free()
    return name, kind, bad, forms, out


def main():
    sodir, seed, first, count, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    loader.use(sodir)
    import geoana.kernels as K
    ext = sys.modules.get("geoana.kernels._extensions.rTE")
    fh = open(path, "w")
    fh.write(json.dumps({"start": True, "so": getattr(ext, "__file__", None), "poison": bool(_poison)}) + "\n")
    for i in range(first, first + count):
        rng = np.random.default_rng([seed, 101, i])

        def log(**kw):
            fh.write(json.dumps({"i": i, **kw}) + "\n")
            fh.flush()
        fn = rte_case if rng.random() < 0.65 else prism_case
        name, kind, bad, forms, out = fn(rng, K, log)
        fh.write(json.dumps({"i": i, "end": name, "kind": kind, "bad": bad, "forms": forms, **out}) + "\n")
    fh.write(json.dumps({"done": count}) + "\n")
    fh.close()


main()
