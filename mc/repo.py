"""Access to the code under test: the sqlparams package in /repo's working tree.

Only the public interface (sqlparams.SQLParams, its methods and properties) is used by the checks.
"""
import importlib
from importlib.machinery import ModuleSpec
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "sqlparams")


def _purge():
    for name in [n for n in sys.modules if n == "sqlparams" or n.startswith("sqlparams.")]:
        del sys.modules[name]


def load():
    """Import sqlparams from /repo (never from site-packages)."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    mod = importlib.import_module("sqlparams")
    if os.path.dirname(os.path.abspath(mod.__file__)) != os.path.abspath(PKG):
        raise RuntimeError("sqlparams imported from %s" % mod.__file__)
    return mod


_code = {}


class _CachedLoader:
    """Executes compiled-once module code, so that a pristine copy of the package costs little."""

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with open(self.path, "rb") as fh:
                code = compile(fh.read(), self.path, "exec", dont_inherit=True)
            _code[self.path] = code
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as fh:
            return fh.read()


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if name == "sqlparams":
            p = os.path.join(PKG, "__init__.py")
            spec = ModuleSpec(name, _CachedLoader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [PKG]
            spec.has_location = True
            return spec
        if name.startswith("sqlparams."):
            base = os.path.join(PKG, *name.split(".")[1:])
            for p, is_pkg in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
                if os.path.exists(p):
                    spec = ModuleSpec(name, _CachedLoader(p), origin=p, is_package=is_pkg)
                    if is_pkg:
                        spec.submodule_search_locations = [base]
                    spec.has_location = True
                    return spec
        return None


_finder = _Finder()


def fresh():
    """A pristine copy of the package: its modules are executed anew (a 'fresh process' for the package's own state)."""
    saved = {n: m for n, m in sys.modules.items() if n == "sqlparams" or n.startswith("sqlparams.")}
    _purge()
    sys.meta_path.insert(0, _finder)
    try:
        return importlib.import_module("sqlparams")
    finally:
        sys.meta_path.remove(_finder)
        _purge()
        sys.modules.update(saved)
