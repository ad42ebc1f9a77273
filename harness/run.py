#!/usr/bin/env python3
"""Run one check: harness/run.py <property id> [--replay FILE]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    env = {k: v for k, v in os.environ.items()
           if k.startswith(("VERIF_", "GEOANA_", "CCACHE")) or k in ("TMPDIR", "TERM")}
    env.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8",
               PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", GEOANA_HARNESS="1")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    import importlib
    import time
    sys.path.insert(0, HERE)
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    import build
    import loader
    if prop == "--setup":
        import numpy, scipy, mpmath, matplotlib
        print("setup: numpy %s scipy %s mpmath %s matplotlib %s; nothing to build ahead"
              % (numpy.__version__, scipy.__version__, mpmath.__version__, matplotlib.__version__))
        return 0
    mod = importlib.import_module("checks." + prop.lower())
    t0 = time.time()
    need = getattr(mod, "BUILD", "plain")
    sodir = None
    try:
        if need:
            sodir = build.build(need)
    except build.BuildError as e:
        print("CHECK ERROR: native build failed\n%s" % e)
        return 2
    print("build (%s): %.1fs" % (need, time.time() - t0))
    sys.stdout.flush()
    loader.use(sodir)
    import core
    if hasattr(mod, "setup"):
        mod.setup(tier, seed)
    return core.run_check(prop, mod, seed, tier, replay)


if __name__ == "__main__":
    if os.environ.get("GEOANA_HARNESS") != "1":
        reexec()
    import traceback
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
