"""Threads see what a single thread sees."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

import build
import gen
import loader
import quake
import registry as R
from core import VERIF, CallRaised

BUILD = "plain"
RULE = ("an execution is one round of 2 to 8 threads that evaluate fields, kernels and transforms on shared and on own objects "
        "with shared input arrays; inside geoana's Python code a trace hook gives up the interpreter at random lines, and every "
        "result is compared with that of a single thread; kernels additionally run in processes whose extension modules are "
        "built from the current tree with ThreadSanitizer; distinct = (class, method) pairs seen inside a call at the same time, "
        "and sets of kernels in flight together")
ASSUMPTIONS = ["no thread assigns parameters of an object that another one evaluates", "ThreadSanitizer sees the extension modules, not NumPy or the interpreter"]
SODIR = {}
ROUNDS = 12
GEO = os.path.join(os.path.realpath(build.REPO), "geoana") + os.sep


def setup(tier, seed):
    SODIR["tsan"] = build.build("tsan")
    p = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()
    SODIR["lib"] = os.path.realpath(p)


def sanitized(c):
    tmp = tempfile.mkdtemp(prefix="c28-")
    try:
        env = dict(os.environ)
        env.update(LD_PRELOAD=SODIR["lib"], TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:log_path=%s/tsan" % tmp,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        log = os.path.join(tmp, "log")
        cmd = [sys.executable, os.path.join(VERIF, "harness", "workers", "tsan_calls.py"), SODIR["tsan"],
               str(c.seed * 100003 + c.idx), str(ROUNDS), log]
        for pre in ([], ["setarch", "-R"]):
            p = subprocess.run(pre + cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
            if not ("memory mapping" in p.stderr and not os.path.exists(log)):
                break
        recs = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        text = p.stderr
        for f in os.listdir(tmp):
            if f.startswith("tsan"):
                text += open(os.path.join(tmp, f), errors="replace").read()
        c.ev("sanitized processes")
        reports = re.findall(r"WARNING: ThreadSanitizer:.*?={18}", text, re.S)
        for rep in reports:
            # only what happens inside the modules under test counts
            top = [ln for ln in rep.splitlines() if re.match(r"\s+#[0-3] ", ln)]
            if any("rTE" in ln or "potential_field_prism" in ln for ln in top):
                c.fail("race", "ThreadSanitizer: " + rep.splitlines()[0], report=rep[:2500])
                return
        if not recs or "start" not in recs[0] or not recs[0]["so"]:
            if p.returncode < 0 and recs:
                c.fail("died", "process died with status %d" % p.returncode, stderr=p.stderr[-1500:])
                return
            raise OSError("instrumented process did not start (rc %s): %s" % (p.returncode, text[-1500:]))
        if "done" not in recs[-1]:
            if p.returncode < 0:
                c.fail("died", "process died with status %d during concurrent kernel calls" % p.returncode, stderr=p.stderr[-1500:])
                return
            raise OSError("driver stopped with status %d: %s" % (p.returncode, p.stderr[-1500:]))
        for r in recs:
            if "round" not in r:
                continue
            c.ev("sanitized calls", r["calls"])
            c.ev("overlaps", len(r["overlaps"]))
            for o in r["overlaps"]:
                c.sig("kernels", tuple(o))
            c.check(not r["bad"], "kernel:" + ",".join(r["bad"]), "concurrent calls of %s differ from single calls" % r["bad"])
            c.check(not r["errs"], "kernel:raised", "concurrent calls raised %s" % r["errs"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Yielder:
    """Trace hook: gives up the interpreter at random lines of geoana, and notes who is inside."""

    def __init__(self, seed, p):
        self.seed, self.p, self.n = seed, p, 0
        self.inside = {}
        self.pairs = set()

    def __call__(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(GEO):
            return None
        rnd = random.Random(self.seed + threading.get_ident() % 10007)
        p = self.p

        def local(frame, event, arg):
            if event == "line" and rnd.random() < p:
                self.n += 1
                time.sleep(0 if rnd.random() < 0.8 else 2e-5)
            return local
        return local


def threads(n, body, hook):
    errs = []
    bar = threading.Barrier(n)

    def run(k):
        bar.wait()
        sys.settrace(hook)
        try:
            body(k)
        except Exception as x:
            import traceback
            errs.append((k, repr(x), traceback.format_exc()[-1200:]))
        finally:
            sys.settrace(None)
    th = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        for t in th:
            t.start()
        for t in th:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    return errs, any(t.is_alive() for t in th)


def near(u, v):
    if u.shape != v.shape:
        return False
    if np.array_equal(u, v, equal_nan=True):
        return True
    fin = np.abs(v[np.isfinite(v)])
    return bool(np.allclose(u, v, rtol=1e-12, atol=1e-12 * (fin.max() if fin.size else 0), equal_nan=True))


def take(r):
    return [np.array(a) for a in R.leaves(r)]


def objects(c):
    rng = c.rng
    nt = int(rng.integers(2, 7))
    single = rng.random() < 0.6         # one class and the same calls on all threads, or a mixture
    first = R.ENTRIES[c.idx % len(R.ENTRIES)]
    jobs = []
    for j in range(1 if single else 4):
        e = first if j == 0 else R.ENTRIES[rng.integers(len(R.ENTRIES))]
        ctx = R.context(rng)
        st = e.state(rng, ctx)
        if e.cls == "MagneticDipoleLayeredHalfSpace":
            st["quasistatic"] = True
        shared = e.make(st)
        Xs = [e.locations(rng, ctx, int(rng.choice([1, 4, 4, 6]))) for _ in range(3)]
        ms = [e.methods[i] for i in rng.permutation(len(e.methods))[:4]]
        for m in ms:
            kw = m.options[rng.integers(len(m.options))]
            for X in Xs:
                jobs.append((e, shared, m, kw, X))
        # the same points on an object of its own with other parameters
        other = dict(e.state(rng, ctx), **({"quasistatic": True} if e.cls == "MagneticDipoleLayeredHalfSpace" else {}))
        own = e.make(other)
        for m in ms[:2]:
            kw = m.options[rng.integers(len(m.options))]
            jobs.append((e, own, m, kw, Xs[0]))
    c.note(classes=sorted({j[0].key for j in jobs}), threads=nt, jobs=len(jobs))
    ref = []
    for e, o, m, kw, X in jobs:
        ref.append(take(c.call("%s.%s" % (e.key, m.name), getattr(o, m.name), X, **kw)))
    keep = [X.copy() for *_, X in jobs]
    perms = [rng.permutation(len(jobs)) for _ in range(nt)]
    hook = Yielder(int(rng.integers(1 << 30)), float(rng.choice([0.05, 0.3, 0.8])))
    bad = []
    live, pairs = {}, set()

    def body(k):
        for i in perms[k]:
            e, o, m, kw, X = jobs[i]
            live[k] = (e.key, m.name)
            r = take(getattr(o, m.name)(X, **kw))
            now = sorted(set(list(live.values())))
            live.pop(k, None)
            if len(now) > 1:
                pairs.add(tuple(now[:2]))
            if len(r) != len(ref[i]) or any(not near(u, v) for u, v in zip(r, ref[i])):
                bad.append("%s.%s" % (e.key, m.name))

    errs, stuck = threads(nt, body, hook)
    c.ev("threads", nt)
    c.ev("thread calls", nt * len(jobs))
    c.ev("injected switches", hook.n)
    for p in pairs:
        c.sig(p)
    c.ev("overlapping pairs", len(pairs))
    c.check(not stuck, "stuck", "threads did not finish")
    c.check(not errs, "raised", "a thread raised %s" % (errs[:1],))
    c.check(not bad, "differs:" + (bad[0] if bad else ""), "results in threads differ from sequential ones: %s" % sorted(set(bad)))
    c.check(all(np.array_equal(a, b[4]) for a, b in zip(keep, jobs)), "inputs", "shared input arrays were changed")
    # afterwards the objects still give the same
    for i in rng.permutation(len(jobs))[:6]:
        e, o, m, kw, X = jobs[i]
        r = take(getattr(o, m.name)(X, **kw))
        c.check(all(near(u, v) for u, v in zip(r, ref[i])), "after:%s.%s" % (e.key, m.name), "the object changed")
    c.ev(first.key)


def private(c):
    """Each thread builds, changes and evaluates objects of its own."""
    rng = c.rng
    nt = int(rng.integers(2, 7))
    e = R.ENTRIES[c.idx % len(R.ENTRIES)]
    plans = []
    for k in range(nt):
        ctx = R.context(rng)
        states = [e.state(rng, ctx) for _ in range(3)]
        if e.cls == "MagneticDipoleLayeredHalfSpace":
            for s in states:
                s["quasistatic"] = True
        X = e.locations(rng, ctx, 4)
        steps = []
        for i in range(6):
            m = e.methods[rng.integers(len(e.methods))]
            p = str(rng.choice(sorted(e.params)))
            if p in ("quasistatic",):
                p = ""
            steps.append((m, m.options[rng.integers(len(m.options))], p, states[int(rng.integers(3))]))
        plans.append((states, X, steps))

    def play(k):
        states, X, steps = plans[k]
        o = e.make(states[0])
        out = []
        for m, kw, p, s in steps:
            out.append(take(getattr(o, m.name)(X, **kw)))
            if p:
                setattr(o, p, s[p])
        out.append(take(getattr(o, steps[0][0].name)(X, **steps[0][1])))
        return out

    c.note(entry=e.key, threads=nt)
    ref = [c.call(e.key, play, k) for k in range(nt)]
    hook = Yielder(int(rng.integers(1 << 30)), float(rng.choice([0.1, 0.5])))
    got = {}

    def body(k):
        got[k] = play(k)
    errs, stuck = threads(nt, body, hook)
    c.ev("injected switches", hook.n)
    c.ev("private histories", nt)
    c.check(not stuck and not errs, "private:raised", "a thread raised %s" % (errs[:1],))
    for k in got:
        ok = all(len(a) == len(b) and all(near(u, v) for u, v in zip(a, b)) for a, b in zip(got[k], ref[k]))
        c.check(ok, "private:" + e.key, "an object of one thread is affected by another thread")
    c.sig("private", e.key, nt)


def function_calls(rng, n, nl):
    """One set of arguments for every plain function; sets of one size differ in their values only."""
    import geoana.kernels as K
    from geoana import spatial as S, utils as U
    from geoana.em import fdem as fd, tdem as td
    pure = loader.fallback()
    N = pure["kernels"]
    low = rng.normal(size=3) - 2
    mass = pure["gravity"].Prism(low, low + gen.logu(rng, 0.3, 2, 3), rho=2.0)
    magnet = pure["em.static"].MagneticPrism(low, low + gen.logu(rng, 0.3, 2, 3), magnetization=rng.normal(size=3))
    from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar
    X, V = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    f, t = gen.logu(rng, 1, 1e5, n), gen.logu(rng, 1e-6, 1e-2, n)
    u, v = gen.unit(rng), gen.unit(rng)
    s = float(gen.logu(rng, 1e-2, 1))
    sg, mu, h = gen.logu(rng, 1e-3, 1, (nl, n)) + 0j, np.full((nl, n), 4e-7 * np.pi) + 0j, gen.logu(rng, 1, 30, nl - 1)
    cyl = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), X[:, 2]]
    sph = np.c_[np.abs(X[:, 0]), rng.uniform(-3, 3, n), rng.uniform(0, 3, n)]
    g = [np.linspace(0, rng.uniform(1, 2), k) for k in (3, 4, 2)]
    st = dict(quake.fault(rng), shape=(3, 2))
    fault = Oksar(**st)
    img = quake.image(rng)
    sat = EarthquakeInterferogram(**img)
    P = quake.sites(rng, img, 3)
    return [
        ("cylindrical_to_cartesian", S.cylindrical_to_cartesian, (cyl, V)), ("cartesian_to_cylindrical", S.cartesian_to_cylindrical, (X, V)),
        ("spherical_to_cartesian", S.spherical_to_cartesian, (sph, V)), ("cartesian_to_spherical", S.cartesian_to_spherical, (X, V)),
        ("cylindrical_to_cartesian points", S.cylindrical_to_cartesian, (cyl,)), ("cartesian_to_cylindrical points", S.cartesian_to_cylindrical, (X,)),
        ("spherical_to_cartesian points", S.spherical_to_cartesian, (sph,)), ("cartesian_to_spherical points", S.cartesian_to_spherical, (X,)),
        ("rotation_matrix", S.rotation_matrix_from_normals, (u, v)), ("rotate_points", S.rotate_points_from_normals, (X, u, v, V[0])),
        ("vector_dot", S.vector_dot, (X, u)), ("distance", S.distance, (X, u)), ("vector_distance", S.vector_distance, (X, u)),
        ("vector_magnitude", S.vector_magnitude, (X,)), ("repeat_scalar", S.repeat_scalar, (f,)),
        ("mkvc", U.mkvc, (X,)), ("ndgrid", U.ndgrid, (g,)), ("check_xyz_dim", U.check_xyz_dim, (X,)), ("append_ndim", U.append_ndim, (X, 2)),
        ("rTE_forward", K.rTE_forward, (f, t * 1e4, sg, mu, h)), ("rTE_gradient", K.rTE_gradient, (f, t * 1e4, sg, mu, h)),
        *[(k, getattr(K, k), tuple(X.T)) for k in ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy",
                                                   "prism_fxxz", "prism_fxyz")],
        ("rTE_forward (numpy)", N.rTE_forward, (f, t * 1e4, sg, mu, h)), ("rTE_gradient (numpy)", N.rTE_gradient, (f, t * 1e4, sg, mu, h)),
        *[(k + " (numpy)", getattr(N, k), tuple(X.T)) for k in ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy",
                                                                "prism_fxxz", "prism_fxyz")],
        *[(k + " (numpy)", getattr(mass, k), (X,)) for k in ("gravitational_potential", "gravitational_field", "gravitational_gradient")],
        *[(k + " (numpy)", getattr(magnet, k), (X,)) for k in ("scalar_potential", "magnetic_field", "magnetic_flux_density", "magnetic_field_gradient")],
        ("omega", fd.omega, (f,)), ("sigma_hat", fd.sigma_hat, (f, s)),
        ("wavenumber", fd.wavenumber, (f, s)), ("skin_depth", fd.skin_depth, (f, s)), ("theta", td.theta, (t, s)),
        ("peak_time", td.peak_time, (X[:, 0], s)), ("diffusion_distance", td.diffusion_distance, (t, s)),
        ("fd loop", fd.vertical_magnetic_field_horizontal_loop, (f, s)), ("td loop", td.vertical_magnetic_field_horizontal_loop, (t, s)),
        ("fd loop flux", fd.vertical_magnetic_flux_horizontal_loop, (f, s)), ("td loop flux", td.vertical_magnetic_flux_horizontal_loop, (t, s)),
        ("td loop rate", td.vertical_magnetic_field_time_deriv_horizontal_loop, (t, s)),
        ("td loop flux rate", td.vertical_magnetic_flux_time_deriv_horizontal_loop, (t, s)),
        ("td dipole", td.magnetic_field_vertical_magnetic_dipole, (t, X[:, :2], s)), ("td dipole flux", td.magnetic_flux_vertical_magnetic_dipole, (t, X[:, :2], s)),
        ("td dipole rate", td.magnetic_field_time_deriv_magnetic_dipole, (t, X, s)), ("td dipole flux rate", td.magnetic_flux_time_deriv_magnetic_dipole, (t, X, s)),
        ("Oksar", lambda: fault.displacement_vector, ()), ("Oksar grid", lambda: fault.simulation_grid, ()),
        ("new Oksar", lambda: Oksar(**st).displacement_vector, ()), ("get_LOS_vector", sat.get_LOS_vector, (P,)),
    ]


def functions(c):
    """Transforms, utilities, kernels, loops, faults: shared arguments, and others of the same size."""
    rng = c.rng
    n, nl = int(rng.integers(2, 30)), int(rng.integers(1, 5))
    calls = [x for _ in range(2) for x in function_calls(rng, n, nl)]
    if rng.random() < 0.5:          # few functions, often
        k = set(rng.choice(len(calls) // 2, 4, replace=False).tolist())
        calls = [x for i, x in enumerate(calls) if i % (len(calls) // 2) in k] * 5
    ref = [take(c.call(nm, fn, *a)) for nm, fn, a in calls]
    nt = int(rng.integers(2, 7))
    perms = [rng.permutation(len(calls)) for _ in range(nt)]
    same = rng.random() < 0.5
    hook = Yielder(int(rng.integers(1 << 30)), 0.5)
    bad, live, pairs = [], {}, set()

    def body(k):
        for i in (perms[0] if same else perms[k]):
            nm, fn, a = calls[i]
            live[k] = nm
            r = take(fn(*a))
            now = sorted(set(list(live.values())))
            live.pop(k, None)
            pairs.add(tuple(now[:2]))
            if len(r) != len(ref[i]) or any(not near(x, y) for x, y in zip(r, ref[i])):
                bad.append(nm)
    errs, stuck = threads(nt, body, hook)
    c.ev("injected switches", hook.n)
    c.ev("function calls", nt * len(calls))
    for p in pairs:
        c.sig("functions", p)
    c.check(not stuck and not errs, "functions:raised", "a thread raised %s" % (errs[:1],))
    c.check(not bad, "functions:" + (bad[0] if bad else ""), "results in threads differ: %s" % sorted(set(bad)))


def large(c):
    """Big arrays, so that the native code itself runs at the same time."""
    import geoana.kernels as K
    from geoana import gravity as G
    from geoana.em import fdem
    rng = c.rng
    n, nf, nl = 30000, 3, 6
    X = rng.normal(size=(n, 3)) * 3
    P = G.Prism([-1.0, -1.0, -1.0], [1.0, 1.0, 1.0], rho=3.0)
    lam, f = gen.logu(rng, 1e-4, 1e1, n), gen.logu(rng, 1, 1e5, nf)
    sg, mu = gen.logu(rng, 1e-3, 1, (nl, nf)) + 0j, np.full((nl, nf), 4e-7 * np.pi) + 0j
    h = gen.logu(rng, 1, 30, nl - 1)
    D = fdem.MagneticDipoleLayeredHalfSpace(frequency=f, thickness=h, sigma=sg, quasistatic=True)
    Y = np.c_[gen.logu(rng, 5, 500, (60, 2)), np.zeros(60)]
    calls = [("rTE_forward", lambda: K.rTE_forward(f, lam, sg, mu, h)), ("rTE_gradient", lambda: K.rTE_gradient(f, lam[:8000], sg, mu, h)),
             ("potential", lambda: P.gravitational_potential(X)), ("gradient", lambda: P.gravitational_gradient(X)),
             ("prism_fzx", lambda: K.prism_fzx(*X.T)), ("layered", lambda: D.magnetic_field(Y))]
    ref = [take(c.call(nm, fn)) for nm, fn in calls]
    nt = 6
    bad = []
    perms = [rng.permutation(len(calls)) for _ in range(nt)]

    def body(k):
        for _ in range(2):
            for i in perms[k]:
                r = take(calls[i][1]())
                if any(not near(x, y) for x, y in zip(r, ref[i])):
                    bad.append(calls[i][0])
    errs, stuck = threads(nt, body, None)
    c.ev("large calls", nt * 2 * len(calls))
    c.check(not stuck and not errs, "large:raised", "a thread raised %s" % (errs[:1],))
    c.check(not bad, "large:" + (bad[0] if bad else ""), "results in threads differ: %s" % sorted(set(bad)))
    c.sig("large", c.idx)


TARGETS = [("sanitized", sanitized, 4, 60), ("objects", objects, 420, 12000), ("private", private, 210, 6000), ("functions", functions, 160, 3000),
           ("large", large, 8, 150)]
REQUIRE = {**{e.key: 8 for e in R.ENTRIES}, "sanitized processes": 2, "sanitized calls": 1000, "overlaps": 20, "thread calls": 5000,
           "injected switches": 5000, "overlapping pairs": 200, "private histories": 300, "function calls": 1000, "large calls": 100}
