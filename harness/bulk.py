"""Large requests: the same few points in very many copies, and many frequencies, times or nodes at once.

The results of a small request (which the other targets of a check compare with
the exact solution) must come back, whatever the number of values asked for.
"""
import numpy as np

import gen
import registry as R
from core import CallRaised

SIZES = (300, 1025, 4100, 10001, 33000, 70000, 140000, 270000)
LEADS = (5, 17, 65, 130, 300)


def fields(e):
    return [m for m in e.methods if m.name not in R.HELPNAMES]


def close(c, key, got, want, rel=1e-8, **kw):
    with np.errstate(all="ignore"):
        scale = np.abs(np.where(np.isfinite(want), want, 0))
        if want.ndim and want.shape[-1] <= 9:
            scale = scale.max(-1, keepdims=True)
        ok = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= rel * scale + 1e-300)
    return c.check(bool(ok.all()), key, "values change with the size of the request", bad=int((~ok).sum()), of=int(ok.size),
                   at=np.argwhere(~ok)[:2].tolist(), got=got[~ok][:3], want=want[~ok][:3], **kw)


def target(*keys):
    def bulk(c):
        rng = c.rng
        e = R.BY[keys[c.idx % len(keys)]]
        k = c.idx // len(keys)
        ms = fields(e)
        m = ms[k % len(ms)]
        ctx = R.context(rng)
        layered = e.cls == "MagneticDipoleLayeredHalfSpace"
        harmonic = "frequency" in e.params or "time" in e.params
        many = harmonic and rng.random() < 0.5
        if many:
            ctx["nf"] = int(rng.choice(LEADS[:3] if layered else LEADS)) + int(rng.integers(5))
            if layered:
                ctx["nl"] = int(rng.choice([1, 3, 12]))
        st = e.state(rng, ctx)
        kw = m.options[rng.integers(len(m.options))]
        X = e.locations(rng, ctx, 5)
        if str(kw.get("coordinates", "")).lower() == "cylindrical":
            X[:, 0] = np.abs(X[:, 0])
        key = "%s.%s many" % (e.key, m.name)
        comp = int(np.prod(m.tail)) if m.tail else 1
        lead = int(np.prod(e.lead(st))) if e.lead(st) else 1

        def run(st, A, loc):
            o = c.call(e.key, e.make, st)
            out = R.leaves(c.call(key, getattr(o, m.name), A, **kw))
            nl = int(np.prod(e.lead(st))) if e.lead(st) else 1
            n = int(np.prod(loc))
            for a in out:
                want = R.shape_of(e, m, st, loc)
                if not c.check(a.shape == want, key + ":shape", "shape %s, expected %s" % (a.shape, want)):
                    raise CallRaised(key)
            return [a.reshape(nl, n, comp) for a in out]

        if many:
            c.note(entry=e.key, method=m.name, options=kw, lead=lead)
            full = run(st, X, (5,))
            name = "frequency" if "frequency" in st else "time"
            for j in rng.integers(lead, size=3):
                one = dict(st)
                one[name] = st[name][j:j + 1]
                if layered:
                    for w in ("sigma", "mu", "epsilon"):
                        if np.ndim(st[w]) == 2:
                            one[w] = st[w][:, j:j + 1]
                for a, b in zip(full, run(one, X, (5,))):
                    close(c, key + " " + name, a[j:j + 1], b, value=st[name][j])
            c.ev("many frequencies or times")
            c.sig(e.key, m.name, "lead", int(np.log2(lead)))
            return
        if "nodes" in st and rng.random() < 0.4:        # a wire of many segments is the one of few
            q = int(rng.choice([20, 100, 400, 1500]))
            n = st["nodes"]
            t = np.linspace(0, 1, q + 1)[:-1, None]
            fine = np.concatenate([a + t * (b - a) for a, b in zip(n[:-1], n[1:])] + [n[-1:]])
            c.note(entry=e.key, method=m.name, nodes=len(fine))
            base = run(st, X, (5,))
            for a, b in zip(run(dict(st, nodes=fine), X, (5,)), base):
                close(c, key + " segments", a, b, rel=1e-6)
            c.ev("many segments")
            c.sig(e.key, m.name, "segments", q)
            return
        cap = 3000 if layered else 500000
        sizes = [s for s in SIZES if s * lead <= cap]
        size = int(sizes[rng.integers(len(sizes))]) + int(rng.integers(7))
        if e.styles == "n3" or e.styles == "array" or rng.random() < 0.5:
            loc = (size,)
        else:
            w = int(rng.choice([2, 3, 16, 50]))
            loc = (size // w, w)
        c.note(entry=e.key, method=m.name, options=kw, points=loc, lead=lead)
        base = run(st, X, (5,))
        p = rng.integers(5, size=int(np.prod(loc)))
        A = X[p].reshape(loc + (3,))
        if e.styles == "all" and rng.random() < 0.3:
            A = tuple(A[..., i].copy() for i in range(3))
        for a, b in zip(run(st, A, loc), base):
            close(c, key, a, b[:, p])
        c.ev("many points")
        c.sig(e.key, m.name, "points", int(np.log2(size)))
    return bulk


RULE = ("large requests (up to 270 000 points, 300 frequencies or times, several thousand wire segments) compared "
        "with small ones")


def count(rng, cap=300000):
    s = [k for k in SIZES if k <= cap]
    return int(s[rng.integers(len(s))]) + int(rng.integers(7))


def rows(c, key, fn, args, n, cap=300000, exact=False, **kw):
    """fn on few rows and on very many copies of them: args are arrays whose first axis are the n rows."""
    base = np.asarray(c.call(key, fn, *args, **kw))
    if not c.check(base.shape[:1] == (n,), key + ":shape", "shape %s for %d rows" % (base.shape, n)):
        return
    p = c.rng.integers(n, size=count(c.rng, cap))
    got = np.asarray(c.call(key, fn, *[a[p] for a in args], **kw))
    if c.check(got.shape == base[p].shape, key + ":shape", "shape %s, expected %s" % (got.shape, base[p].shape)):
        close(c, key + " many", got, base[p], rel=0.0 if exact else 1e-10)
    c.ev("large requests")
    c.sig(key, "large", int(np.log2(len(p))))
