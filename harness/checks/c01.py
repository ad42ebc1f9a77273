"""Sanitized builds of the compiled kernels under hostile calls."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import build
from core import VERIF

BUILD = None      # only the child processes load the instrumented build
RULE = ("an execution is one call of a compiled kernel inside a process whose extension modules were built from the "
        "current tree with AddressSanitizer and UndefinedBehaviorSanitizer; arguments vary in layout, alignment, byte "
        "order, dtype, emptiness, ill-matched shapes and non-finite values, and the bytes around exact-size arrays are "
        "poisoned; each batch runs twice with different fill patterns for fresh memory and the two logs are compared; "
        "distinct = (kernel, kind of values, kind of ill-formedness, array forms, outcome)")
ASSUMPTIONS = ["allocation failure is not injected", "accesses inside one allocation are seen through values only",
               "NumPy and the interpreter themselves are not instrumented"]
BATCH = 150
SODIR = {}
REPORT = re.compile(r"(ERROR: (?:Address|Leak|Memory)Sanitizer[^\n]*|runtime error:[^\n]*|AddressSanitizer:[^\n]*)")


def libs():
    out = []
    for n in ("libasan.so", "libubsan.so"):
        p = subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        out.append(os.path.realpath(p))
    return ":".join(out)


def setup(tier, seed):
    SODIR["asan"] = build.build("asan")
    SODIR["libs"] = libs()


def launch(tmp, seed, first, count, fill):
    log = os.path.join(tmp, "log-%d" % fill)
    env = dict(os.environ)
    env.update(LD_PRELOAD=SODIR["libs"], PYTHONMALLOC="malloc", MALLOC_CHECK_="0",
               ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=86:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=1:strict_string_checks=1:max_malloc_fill_size=1000000000:"
                            "malloc_fill_byte=%d:max_free_fill_size=1000000:free_fill_byte=%d" % (fill, 255 - fill),
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=87")
    p = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "workers", "asan_calls.py"), SODIR["asan"],
                        str(seed), str(first), str(count), log],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
    recs = []
    if os.path.exists(log):
        for line in open(log):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return p.returncode, p.stderr, recs


def history(c):
    tmp = tempfile.mkdtemp(prefix="c01-")
    try:
        first = c.idx * BATCH
        runs = [launch(tmp, c.seed, first, BATCH, fill) for fill in (0x3f, 0xff)]
        for rc, err, recs in runs:
            c.ev("processes")
            last = [r for r in recs if "begin" in r][-1:]
            m = REPORT.search(err)
            if m:
                c.fail("sanitizer:" + re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(1))[:80],
                       "sanitizer report during %s: %s" % (last and last[0].get("begin"), m.group(1)),
                       call=last, report=err[-3500:])
                return
            if not recs or "start" not in recs[0] or not recs[0]["so"] or not recs[0]["poison"]:
                raise OSError("instrumented process did not start (rc %s): %s" % (rc, err[-1500:]))
            if rc or "done" not in recs[-1]:
                if rc < 0 or rc in (86, 87):
                    c.fail("died", "process died with status %d during %s" % (rc, last), stderr=err[-2000:])
                    return
                raise OSError("driver stopped with status %d: %s" % (rc, err[-1500:]))
        a, b = ({r["i"]: r for r in recs if "end" in r} for _, _, recs in runs)
        for i, r in a.items():
            c.ev("calls")
            c.ev(r["end"] if r["end"].startswith("rTE") else "prism")
            c.ev("ill-formed" if r["bad"] is not None else "well-formed")
            c.ev(r["outcome"] if r["outcome"] != "returned" else "returned")
            for f in r["forms"]:
                c.ev("form:" + f)
            key = r["end"]
            c.check(r["inputs_kept"] and b[i]["inputs_kept"], key + ":input written", "an input was written to", call=r)
            c.check(not r.get("refused_valid"), key + ":refused", "well-formed call raised %s" % r["outcome"], call=r)
            c.check(r.get("shape_ok", True), key + ":shape", "wrong result shape", call=r)
            c.check(r.get("same_as_plain", True), key + ":layout", "result depends on the array form", call=r)
            c.check(r.get("digest") == b[i].get("digest") and r["outcome"] == b[i]["outcome"],
                    key + ":uninitialised", "result depends on what fresh memory contains", call=r)
            c.sig(r["end"], r["kind"], r["bad"], tuple(r["forms"][:2]), r["outcome"])
        c.note(example=next(iter(a.values())))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TARGETS = [("history", history, 24, 400)]
REQUIRE = {"processes": 2, "rTE_forward": 300, "rTE_gradient": 300, "prism": 300, "ill-formed": 300,
           "form:guarded": 500, "form:misaligned": 50, "returned": 500}
