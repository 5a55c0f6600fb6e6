"""Loads the code under test from /repo, symbolically or concretely.

symbolic: modules of /repo (and the environment stubs) are compiled from their current
source and executed with symbolic-aware numpy/math/builtins.
concrete: the same files are imported normally with plain numpy (used for replay).
"""
from __future__ import annotations

import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, "envstubs")
OWN = ("nonlinear_avoidance", "vartools", "dynamic_obstacle_avoidance")
DUMMY = ("matplotlib", "pandas", "shapely", "sklearn", "mpl_toolkits", "bpy", "cvxopt", "pytest", "seaborn", "PIL")


class _DummyMeta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Dummy


class Dummy(metaclass=_DummyMeta):
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Dummy()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Dummy()

    def __iter__(self):
        return iter((Dummy(), Dummy()))

    def __getitem__(self, k):
        return Dummy()


class DummyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Dummy

    __path__ = []


class DummyFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in DUMMY:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return DummyModule(spec.name)

    def exec_module(self, module):
        pass


def _locate(name):
    root = STUBS if name.split(".")[0] in ("vartools", "dynamic_obstacle_avoidance") else REPO
    base = os.path.join(root, *name.split("."))
    if os.path.isdir(base):
        init = os.path.join(base, "__init__.py")
        return (init if os.path.exists(init) else None), True, base
    if os.path.exists(base + ".py"):
        return base + ".py", False, None
    return None


class SymFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, builtins_dict):
        self.b = builtins_dict
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] not in OWN:
            return None
        loc = _locate(name)
        if loc is None:
            return None
        file, is_pkg, base = loc
        spec = importlib.machinery.ModuleSpec(name, self, origin=file, is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [base]
        spec.loader_state = file
        return spec

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        return m

    def exec_module(self, module):
        file = module.__spec__.loader_state
        module.__dict__["__builtins__"] = self.b
        if file is None:
            return
        module.__file__ = file
        with open(file, "rb") as f:
            src = f.read()
        code = compile(src, file, "exec", dont_inherit=True)
        self.loaded[module.__name__] = file
        exec(code, module.__dict__)


def _sym_builtins():
    from . import npproxy as P
    from .symrot import ROT_MODULE

    b = dict(vars(builtins))
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            if root == "numpy":
                if name == "numpy" or not fromlist:
                    return P.NP
                if name == "numpy.linalg":
                    return P.LAP
                return real_import(name, globals, locals, fromlist, level)
            if root == "math":
                return P.MATH
            if name == "scipy.spatial.transform" and fromlist:
                return ROT_MODULE
            if root == "scipy":
                try:
                    return real_import(name, globals, locals, fromlist, level)
                except ImportError:
                    return DummyModule(name)
        return real_import(name, globals, locals, fromlist, level)

    b["__import__"] = imp
    b["isinstance"] = P.b_isinstance
    b["max"] = P.b_max
    b["min"] = P.b_min
    b["float"] = P.symfloat
    b["print"] = P.b_print
    b["breakpoint"] = P.b_breakpoint
    b["pow"] = P.b_pow
    return b


_finder = None


def install_symbolic():
    global _finder
    if _finder is None:
        _finder = SymFinder(_sym_builtins())
        sys.meta_path.insert(0, _finder)
        sys.meta_path.insert(1, DummyFinder())
        for n in [m for m in sys.modules if m.split(".")[0] in OWN]:
            del sys.modules[n]
    return _finder


def install_concrete():
    """Real numpy; only packages that are not installed are replaced."""
    sys.path.insert(0, STUBS)
    sys.path.insert(0, REPO)
    builtins.breakpoint = lambda *a, **k: (_ for _ in ()).throw(RuntimeError("breakpoint() reached"))

    class Missing(DummyFinder):
        def find_spec(self, name, path, target=None):
            if name.split(".")[0] in DUMMY and name.split(".")[0] not in ("sklearn", "shapely"):
                return super().find_spec(name, path, target)
            return None

    sys.meta_path.insert(0, Missing())
    sys.meta_path.append(DummyFinder())


def sources():
    return dict(_finder.loaded) if _finder else {}
