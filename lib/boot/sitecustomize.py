"""Makes the extension modules of opensfm importable from the build folder.

Put this folder first on PYTHONPATH.  VERIF_EXT names the folder of the .so
files and VERIF_REPO the checkout.  Hypothesis comes from the tooling venv,
appended last so that it shadows nothing."""

import importlib.machinery
import os
import sys

_EXT = os.environ.get("VERIF_EXT", "/verif/.build/cmake/ext")
_REPO = os.environ.get("VERIF_REPO", "/repo")
_NAMES = {
    "pybundle", "pydense", "pyfeatures", "pygeo",
    "pygeometry", "pymap", "pyrobust", "pysfm",
}


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        pkg, _, name = fullname.rpartition(".")
        if pkg != "opensfm" or name not in _NAMES:
            return None
        so = os.path.join(_EXT, name + ".so")
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.machinery.ModuleSpec(fullname, loader, origin=so)


sys.meta_path.insert(0, _Finder)
sys.dont_write_bytecode = True
if _REPO not in sys.path:
    sys.path.insert(1, _REPO)
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)
