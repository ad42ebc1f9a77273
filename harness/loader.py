"""Import geoana straight from /repo's working tree.

`use(sodir)` arranges that ``import geoana`` reads the Python files of /repo and
takes the extension modules from `sodir` (freshly built), or, with sodir=None,
that the extension modules cannot be imported, which is the documented
pure-NumPy configuration.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from build import REPO, SUFFIX

PREFIX = "geoana.kernels._extensions."


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sodir):
        self.sodir = sodir

    def find_spec(self, name, path=None, target=None):
        if not name.startswith(PREFIX):
            return None
        leaf = name[len(PREFIX):]
        if self.sodir is None:
            raise ImportError("extension modules are not available in this configuration")
        p = os.path.join(self.sodir, leaf + SUFFIX)
        if not os.path.exists(p):
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


def _clean():
    sys.meta_path[:] = [f for f in sys.meta_path
                        if not isinstance(f, _Finder)
                        and "_geoana_editable_loader" not in type(f).__module__]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def forget():
    """Drop geoana from sys.modules; returns what was dropped."""
    old = {k: sys.modules.pop(k) for k in list(sys.modules)
           if k == "geoana" or k.startswith("geoana.")}
    return old


def use(sodir):
    _clean()
    forget()
    sys.meta_path.insert(0, _Finder(sodir))
    import geoana
    import geoana.kernels
    assert os.path.realpath(geoana.__file__).startswith(os.path.realpath(REPO) + os.sep), geoana.__file__
    return geoana


class Config:
    """A private copy of the package (compiled or pure), usable next to another."""

    def __init__(self, sodir):
        keep = forget()
        saved_meta = list(sys.meta_path)
        self.geoana = use(sodir)
        import importlib
        for m in ("geoana.gravity", "geoana.em.static", "geoana.em.fdem",
                  "geoana.em.tdem", "geoana.spatial", "geoana.utils",
                  "geoana.kernels", "geoana.shapes"):
            importlib.import_module(m)
        self.modules = {k: v for k, v in sys.modules.items()
                        if k == "geoana" or k.startswith("geoana.")}
        forget()
        sys.modules.update(keep)
        sys.meta_path[:] = saved_meta

    def __getitem__(self, name):
        return self.modules["geoana" + ("." + name if name else "")]


_pure = []


def fallback():
    """The package as it is without its extension modules, next to the one in use."""
    if not _pure:
        _pure.append(Config(None))
    return _pure[0]
