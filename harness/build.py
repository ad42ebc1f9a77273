"""Native builds of /repo's extension modules, from the current working tree.

Every build goes through the project's own meson files, in a directory that is
keyed by the content of the native sources, so that a changed tree is never
judged through a stale binary.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("GEOANA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("GEOANA_BUILD_CACHE", os.path.join(VERIF, ".cache"))

FLAVOURS = {
    "plain": [],
    "asan": ["-Db_sanitize=address,undefined", "-Db_lundef=false"],
    "tsan": ["-Db_sanitize=thread", "-Db_lundef=false"],
}
SUFFIX = ".cpython-%d%d-x86_64-linux-gnu.so" % sys.version_info[:2]


class BuildError(RuntimeError):
    pass


def env():
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e["PATH"] = ("/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:"
                 "/usr/bin:/sbin:/bin")
    e["SETUPTOOLS_SCM_PRETEND_VERSION"] = "1.0.0"
    return e


def source_key():
    h = hashlib.sha256()
    for top, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".")
                         and d not in ("docs", "tests", "examples", "tutorials", "__pycache__"))
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".c", ".cpp", ".cc", ".h", ".hpp")) \
                    or f in ("meson.build", "meson.options", "meson_options.txt"):
                p = os.path.join(top, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(flavour="plain"):
    """Directory with the freshly built extension modules; built if needed."""
    os.makedirs(CACHE, exist_ok=True)
    key = source_key()
    out = os.path.join(CACHE, "%s-%s" % (flavour, key))
    with open(os.path.join(CACHE, "lock-" + flavour), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        for old in os.listdir(CACHE):       # keep one build per flavour
            if old.startswith(flavour + "-"):
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        work = out + ".work"
        shutil.rmtree(work, ignore_errors=True)
        for cmd in (["meson", "setup", work, REPO, "-Dwith_extensions=true"] + FLAVOURS[flavour],
                    ["ninja", "-C", work]):
            p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode:
                raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        os.makedirs(out, exist_ok=True)
        n = 0
        for top, dirs, files in os.walk(work):
            for f in files:
                if f.endswith(".so"):
                    shutil.copy2(os.path.join(top, f), os.path.join(out, f))
                    n += 1
        shutil.rmtree(work, ignore_errors=True)
        if not n:
            raise BuildError("no extension module was built")
        open(os.path.join(out, "OK"), "w").close()
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(fl, build(fl))
