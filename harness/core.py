"""Case runner, monitors' bookkeeping, verdicts and evidence."""
import json
import concurrent.futures as cf
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from concurrent.futures.process import BrokenProcessPool

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EPS = np.finfo(float).eps
LD = np.longdouble
CLD = np.clongdouble


class Inconclusive(Exception):
    pass


class CallRaised(Exception):
    """The code under test raised on an input the property covers."""


def jsonable(v, depth=0):
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        if v.size > 24:
            return {"shape": list(v.shape), "dtype": str(v.dtype),
                    "head": [str(x) for x in v.ravel()[:12]]}
        return [str(x) if not isinstance(x, (int, float)) else x for x in v.ravel().tolist()] \
            if v.ndim else str(v)
    if isinstance(v, (list, tuple)):
        if depth > 4 or len(v) > 40:
            return str(v)[:400]
        return [jsonable(x, depth + 1) for x in v]
    if isinstance(v, (bool, int, str)) or v is None:
        return v if not isinstance(v, str) else v[:2000]
    if isinstance(v, (float, np.floating)):
        return float(v) if np.isfinite(v) else str(v)
    return str(v)[:400]


class Case:
    """One generated execution: its random stream and what the monitors saw."""

    def __init__(self, prop, target, idx, seed, tier):
        self.prop, self.target, self.idx, self.seed, self.tier = prop, target, idx, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(("%s/%s" % (prop, target)).encode()), idx])
        self.events = Counter()
        self.sigs = set()
        self.evals = 0
        self.violations = []
        self.known = Counter()
        self.worst = {}
        self.sample = None
        self.info = {}

    # ---- what was observed -------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *parts):
        """Signature of a non-trivial observation."""
        self.sigs.add(zlib.crc32(repr(parts).encode()))

    def note(self, **kw):
        self.info.update(kw)

    # ---- verdicts ----------------------------------------------------------
    def fail(self, key, msg, **data):
        if len(self.violations) < 5:
            self.violations.append({"key": key, "msg": msg, "target": self.target,
                                    "index": self.idx, "seed": self.seed,
                                    "tier": self.tier,
                                    "data": jsonable({**self.info, **data})})
        else:
            self.violations.append({"key": key, "msg": msg})

    def finding(self, key, **data):
        self.known[key] += 1

    def check(self, ok, key, msg, **data):
        self.evals += 1
        self.events["checks"] += 1
        if not ok:
            self.fail(key, msg, **data)
        return bool(ok)

    def call(self, key, fn, *a, **k):
        """Call the code under test where the property promises an answer."""
        self.ev("calls")
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except MemoryError:
            raise
        except Exception as e:
            self.fail(key + ":raised", "%s raised %s: %s" % (key, type(e).__name__, e),
                      trace=traceback.format_exc()[-1500:])
            raise CallRaised(key)

    def close(self, key, got, want, tol, **data):
        """|got - want| <= tol, elementwise, shapes equal, no stray nan/inf.

        NaN in `want` means: no promise there.
        """
        self.evals += 1
        self.events["comparisons"] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
        except Exception as e:
            self.fail(key, "result is not an array: %r" % (e,), **data)
            return False
        if g.dtype == object or g.dtype.kind not in "biufc":
            self.fail(key, "result has dtype %s" % g.dtype, **data)
            return False
        if g.shape != w.shape:
            self.fail(key + ":shape", "shape %s, expected %s" % (g.shape, w.shape), **data)
            return False
        if g.size == 0:
            return True
        with np.errstate(all="ignore"):
            skip = np.isnan(w)
            exact = (g == w)
            err = np.abs(g.astype(CLD) - w.astype(CLD)).astype(LD)
            tol = np.broadcast_to(np.asarray(tol, dtype=LD), w.shape)
            ok = exact | skip | (err <= tol)
            ratio = np.where(exact | skip, LD(0), err / np.where(tol > 0, tol, LD(1e-300)))
            fin = ratio[np.isfinite(ratio)]
            m = float(fin.max()) if fin.size else 0.0
        if m <= 1 and m > self.worst.get(key, (0,))[0]:
            self.worst[key] = (m,)
        self.events["values"] += int(g.size - skip.sum())
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            self.fail(key, "value at %s is %s, expected %s (tolerance %.3g, %d of %d values off)"
                      % (i, g[i], w[i], float(tol[i]), int((~ok).sum()), g.size), at=list(i), **data)
            return False
        return True


# --------------------------------------------------------------------------
_STATE = {}


def _run_chunk(tasks):
    out = []
    for prop, target, idx, seed, tier in tasks:
        c = Case(prop, target, idx, seed, tier)
        fn = _STATE["targets"][target]
        herr = None
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                fn(c)
        except CallRaised:
            pass
        except Inconclusive as e:
            c.ev("inconclusive:" + str(e))
        except (MemoryError, OSError, KeyboardInterrupt):
            herr = traceback.format_exc()
        except Exception as e:
            # The oracle itself could not digest what came back: on the
            # unchanged tree this never happens (see DESIGN.md).
            c.fail("oracle:%s" % type(e).__name__, "result could not be judged: %r" % (e,),
                   trace=traceback.format_exc()[-2500:])
        out.append((target, idx, c.evals, dict(c.events), sorted(c.sigs), c.violations,
                    dict(c.known), c.worst, c.info if idx < 2 else None, herr))
    return out


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        data = json.load(f)
    return {d["key"]: d["what"] for d in data["findings"] if d["property"] == prop}


def run_check(prop, mod, seed, tier, replay=None, jobs=None):
    """Run all targets of a check module; returns the process exit status."""
    t0 = time.time()
    targets = {}
    tasks = []
    for t in mod.TARGETS:
        name, fn, nq, nt = t
        targets[name] = fn
        n = nt if tier == "thorough" else min(nt, nq * getattr(mod, "QUICK", 1))
        for i in range(n):
            tasks.append((prop, name, i, seed, tier))
    if replay:
        r = json.load(open(replay))
        tasks = [(prop, v["target"], v["index"], v["seed"], v["tier"])
                 for v in r["violations"] if "target" in v]
    # interleave targets so that a budget stop hits all of them alike
    tasks.sort(key=lambda t: (t[2], t[1]))
    _STATE["targets"] = targets
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    jobs = max(1, min(jobs, len(tasks)))
    size = max(1, min(25, len(tasks) // (jobs * 6) + 1))
    chunks = [tasks[i:i + size] for i in range(0, len(tasks), size)]
    budget = 420 if tier == "quick" else 780
    events, sigs, known = Counter(), set(), Counter()
    violations, harness, worst, samples = [], [], {}, []
    per_target = Counter()
    evals = 0
    stopped = False

    def absorb(res):
        nonlocal evals
        for target, idx, ne, ev, sg, vio, kn, wo, info, herr in res:
            per_target[target] += 1
            evals += ne
            for k, v in ev.items():
                events[k] += v
            sigs.update((target, s) for s in sg)
            violations.extend(vio)
            for k, v in kn.items():
                known[k] += v
            for k, v in wo.items():
                worst[k] = max(worst.get(k, 0.0), v[0])
            if info and len(samples) < 12:
                samples.append({"target": target, "index": idx, **jsonable(info)})
            if herr:
                harness.append(herr)

    if getattr(mod, "SERIAL", False) or jobs == 1:
        for ch in chunks:
            absorb(_run_chunk(ch))
            if time.time() - t0 > budget:
                stopped = True
                break
    else:
        ctx = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(jobs, mp_context=ctx)
        todo = [ex.submit(_run_chunk, ch) for ch in chunks]
        procs = list(ex._processes.values())
        try:
            for f in cf.as_completed(todo, timeout=budget):
                absorb(f.result())
        except cf.TimeoutError:
            stopped = True
        except BrokenProcessPool:
            time.sleep(0.5)
            codes = [p.exitcode for p in procs]
            bad = [x for x in codes if x in (-4, -6, -7, -8, -11)]
            if bad:
                violations.append({"key": "process-died",
                                   "msg": "the interpreter died with signal %d while calling the library" % -bad[0]})
            else:
                harness.append("a worker process ended unexpectedly, exit codes %s" % codes)
        for f in todo:
            f.cancel()
        for p in procs:
            if p.is_alive():
                p.kill()
        ex.shutdown(wait=False, cancel_futures=True)

    listed = known_findings(prop)
    for k in known:
        if k not in listed:
            violations.append({"key": k, "msg": "defect %s is not a listed finding" % k})
    missing = [n for n in targets if per_target[n] == 0] if not replay else []
    if hasattr(mod, "REQUIRE") and not replay:
        for k, n in mod.REQUIRE.items():
            if events[k] < n:
                missing.append("%s: %d events, need %d" % (k, events[k], n))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(sum(per_target.values())),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:8] or [{"note": "no sample"}],
            "oracle_verdicts": int(evals),
            "cases_per_target": dict(per_target),
            "events": dict(events),
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in
                                           sorted(worst.items(), key=lambda kv: -kv[1])[:12]},
            "known_findings_observed": dict(known),
            "stopped_by_budget": stopped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s seed=%d cases=%d verdicts=%d distinct=%d events=%s wall=%.1fs" % (
        prop, tier, seed, sum(per_target.values()), evals, len(sigs),
        dict(events.most_common(6)), wall))
    if os.environ.get("VERIF_VERBOSE"):
        print("worst:", ev["coverage"]["worst_error_over_tolerance"])
        print("per target:", dict(per_target))
    for k, what in listed.items():
        if known.get(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        rp = os.path.join(edir, "replay-%s.json" % prop)
        full = [v for v in violations if "target" in v] or violations
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violations": full[:20]}, f, indent=1)
        cnt = Counter(v["key"] for v in violations)
        for k, n in cnt.most_common(12):
            v = next(x for x in full + violations if x["key"] == k)
            print("  violated: %s (x%d) %s" % (k, n, v["msg"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if harness:
        print("CHECK ERROR (harness):\n" + harness[0])
        return 2
    if missing:
        print("INCONCLUSIVE: monitors not reached: %s" % missing)
        return 3
    return 0
