"""Runs inside a process whose kernels are built with ThreadSanitizer: many threads, shared inputs.

argv: sodir seed rounds log
"""
import json
import os
import sys
import threading
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy as np  # noqa: E402

import loader  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
PRISM = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz")


def main():
    sodir, seed, rounds, log = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    loader.use(sodir)
    import geoana.kernels as K
    from geoana.kernels import potential_field_prism as pf, tranverse_electric_reflections as te
    out = open(log, "w")

    def put(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    put(start=True, so=sorted({getattr(sys.modules.get(m), "__file__", "") for m in sys.modules
                               if m.startswith("geoana.kernels._extensions.")}))
    rng = np.random.default_rng([seed, 28])
    sys.setswitchinterval(1e-5)
    for r in range(rounds):
        nf, nl, n = int(rng.integers(1, 6)), int(rng.integers(1, 7)), int(rng.integers(1, 400))
        jobs = []
        for _ in range(6):
            f, lam = np.exp(rng.uniform(0, 12, nf)), np.exp(rng.uniform(-9, 3, n))
            sg = np.exp(rng.uniform(-7, 2, (nl, nf))) * (1 + 0.1j)
            mu = 4e-7 * np.pi * np.exp(rng.uniform(0, 2, (nl, nf))) + 0j
            h = np.exp(rng.uniform(0, 5, nl - 1))
            if rng.random() < 0.5:
                sg, mu = np.asfortranarray(sg), np.asfortranarray(mu)
            p = rng.normal(size=(3, n)) * (rng.random((3, n)) < 0.9)
            jobs.append(("rTE_forward", K.rTE_forward, (f, lam, sg, mu, h)))
            jobs.append(("rTE_gradient", K.rTE_gradient, (f, lam, sg, mu, h)))
            for name in rng.choice(PRISM, 2, replace=False):
                jobs.append((str(name), getattr(K, str(name)), tuple(p)))
            jobs.append(("prism broadcast", K.prism_fz, (p[0][:, None][:40], p[1][None][:, :40], 1.5)))
        ref = [[np.array(a) for a in (x if isinstance(x, tuple) else (x,))] for x in (fn(*a) for _, fn, a in jobs)]
        nt = int(rng.integers(2, 9))
        bar = threading.Barrier(nt)
        bad, order, errs = [], [], []
        perms = [rng.permutation(len(jobs)) for _ in range(nt)]
        together = rng.random() < 0.5

        def work(k):
            bar.wait()
            for i in (perms[0] if together else perms[k]):
                name, fn, a = jobs[i]
                order.append((k, int(i)))
                try:
                    x = fn(*a)
                except Exception as e:
                    errs.append((name, repr(e)))
                    continue
                x = x if isinstance(x, tuple) else (x,)
                order.append((k, -int(i) - 1))
                if len(x) != len(ref[i]) or any(not np.array_equal(u, v, equal_nan=True) for u, v in zip(x, ref[i])):
                    bad.append(name)

        th = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        # how much did calls really overlap?
        live, overlap = set(), set()
        for k, i in order:
            if i >= 0:
                live.add((k, i))
                if len(live) > 1:
                    overlap.add(tuple(sorted({jobs[j][0] for _, j in live})))
            else:
                live.discard((k, -i - 1))
        put(round=r, threads=nt, calls=len(jobs) * nt, bad=sorted(set(bad)), errs=errs[:3], overlaps=sorted(overlap)[:40],
            names=sorted({j[0] for j in jobs}))
    put(done=True)


main()
