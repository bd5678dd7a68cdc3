"""Import the current /repo sources under the shadow torch."""
import builtins
import os
import sys
import types
from .loops import instrument, ENV
from .slist import BUILTINS
from . import storch


class Loader:
    """A fresh, isolated package `torch_struct` loaded from the repository sources."""

    def __init__(self, repo):
        self.repo = repo
        self.shadow = storch.build()
        self.mods = {}
        self.files = []

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split("."))
        pkg = os.path.isdir(path)
        f = os.path.join(path, "__init__.py") if pkg else path + ".py"
        if not os.path.exists(f):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [path]
        self.mods[name] = m
        self.files.append(f)
        m.__dict__.update(ENV)
        m.__dict__.update(BUILTINS)
        b = dict(builtins.__dict__)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        src = open(f).read()
        exec(instrument(src, os.path.relpath(f, self.repo)), m.__dict__)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[:len(base) - level + 1]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        root = full.split(".")[0]
        if root == "torch_struct":
            m = self.module(full)
            if fromlist:
                if "*" not in fromlist:
                    for k in fromlist:
                        if not hasattr(m, k):
                            try:
                                self.module(full + "." + k)
                            except ImportError:
                                pass
                else:
                    # import * must not copy the injected builtins under other names: harmless
                    pass
                return m
            return self.module(root)
        if full in self.shadow:
            if fromlist:
                return self.shadow[full]
            return self.shadow[root]
        if root == "torch":
            raise ImportError("shadow torch has no module %s" % full)
        if root in ("genbmm", "pykeops"):
            raise ImportError(full)
        return __import__(name, globals, locals, fromlist, level)
