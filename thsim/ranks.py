"""Per-rank instances of torch_harmonics.distributed: module state is private to a rank and dies with it."""

import importlib
import importlib.abc
import importlib.machinery
import sys

PREFIX = "torch_harmonics.distributed"


class _Loader(importlib.machinery.SourceFileLoader):
    cache = {}

    def get_code(self, fullname):
        c = self.cache.get(self.path)
        if c is None:
            c = self.cache[self.path] = super().get_code(fullname)
        return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PREFIX and not fullname.startswith(PREFIX + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
            _seen.add(fullname)
        return spec


_finder = None


def install():
    global _finder
    if _finder is None:
        _finder = _Finder()
        sys.meta_path.insert(0, _finder)


_seen = set()


def _names():
    return [k for k in _seen if k in sys.modules]


class Namespace:
    """A freshly imported torch_harmonics.distributed subtree."""

    def __init__(self):
        install()
        import torch_harmonics

        if not _seen:
            for k in [k for k in sys.modules if k == PREFIX or k.startswith(PREFIX + ".")]:
                del sys.modules[k]
        for k in _names():
            del sys.modules[k]
        self.pkg = importlib.import_module(PREFIX)
        self.mods = {k: sys.modules[k] for k in _names()}
        self.parent = torch_harmonics

    def enter(self):
        sys.modules.update(self.mods)
        self.count = len(sys.modules)
        self.parent.distributed = self.pkg

    def leave(self):
        # lazily imported submodules stay with the rank
        if len(sys.modules) == self.count:
            return
        self.count = len(sys.modules)
        for k in _names():
            m = sys.modules[k]
            if self.mods.get(k) is not m:
                self.mods[k] = m

    def __getattr__(self, name):
        return getattr(self.pkg, name)
