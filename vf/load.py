"""Import the repository under test, with a stand-in for the compiled core.

``hazma._core`` (Rust, pyo3) cannot be built offline; a stand-in package is put
in its place whose functions are boundary stubs.  Its Rust sources are checked
separately (see ``vf/rust.py``).
"""

from __future__ import annotations

import re
import os
import sys
import types

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class CoreModule(types.ModuleType):
    """Any attribute is a stub; harnesses replace the ones they need."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def stub(*a, **k):
            f = STUBS.get((self.__name__.split(".")[-1], n))
            if f is None:
                raise NotImplementedError(f"hazma._core stub {self.__name__}.{n}")
            return f(*a, **k)

        stub.__name__ = n
        stub.core = (self.__name__.split(".")[-1], n)
        setattr(self, n, stub)
        return stub


STUBS: dict = {}


def setup(repo="/repo"):
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(1, repo)
    import warnings
    warnings.simplefilter("ignore")
    pkg = types.ModuleType("hazma._core")
    pkg.__path__ = []
    sys.modules["hazma._core"] = pkg
    for sub in ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator", "boost"):
        m = CoreModule("hazma._core." + sub)
        setattr(pkg, sub, m)
        sys.modules["hazma._core." + sub] = m
    # compiled Cython modules are boundary stubs too, whether or not they are built
    for d, _, fs in os.walk(os.path.join(repo, "hazma")):
        for f in fs:
            if f.endswith(".pyx") and ".experimental" not in d:
                n = os.path.relpath(os.path.join(d, f[:-4]), repo).replace(os.sep, ".")
                sys.modules[n] = CoreModule(n)
    import hazma  # noqa: F401
    assert os.path.realpath(hazma.__path__[0]).startswith(os.path.realpath(repo)), hazma.__path__
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(hazma.__path__, "hazma.", onerror=lambda n: None):
        n = m.name
        if n.endswith("_test") or ".experimental" in n or n.startswith("hazma._core"):
            continue
        try:
            importlib.import_module(n)
        except Exception as e:  # noqa: BLE001
            IMPORT_ERRORS[n] = repr(e)
    return pkg


IMPORT_ERRORS: dict = {}


def core_names(repo="/repo"):
    return re
