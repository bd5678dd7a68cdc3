"""Frame of the global heap: module globals, class attributes, default arguments and function attributes of the loaded package."""
import functools
import types
from .stensor import Tensor


def print_(x, depth, seen):
    """Fingerprint of a value: identity, and the content of what can be mutated in place."""
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return x
    if id(x) in seen or depth > 4:
        return ("ref", id(x))
    seen = seen | {id(x)}
    if isinstance(x, Tensor):
        return ("tensor", id(x), id(x.st), id(x.st.fn), repr(x.groups))
    if isinstance(x, dict):
        return ("dict", id(x), tuple((print_(k, depth + 1, seen), print_(v, depth + 1, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple, set, frozenset)):
        return (type(x).__name__, id(x), tuple(print_(v, depth + 1, seen) for v in (list.__iter__(x) if isinstance(x, list) else x)))
    if isinstance(x, types.FunctionType):
        cells = tuple(print_(c.cell_contents, depth + 1, seen) if _filled(c) else None for c in x.__closure__ or ())
        return ("function", id(x), print_(x.__defaults__, depth + 1, seen), print_(x.__kwdefaults__, depth + 1, seen),
                print_(x.__dict__, depth + 1, seen), cells)
    if isinstance(x, (staticmethod, classmethod)):
        return (type(x).__name__, id(x), print_(x.__func__, depth + 1, seen))
    if isinstance(x, functools._lru_cache_wrapper):
        return ("cache", id(x), repr(x.cache_info()))
    if isinstance(x, type):
        return ("class", id(x))
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and type(x).__module__.startswith("torch_struct"):
        return ("object", id(x), print_(d, depth + 1, seen))
    return ("ref", id(x))


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class Snapshot:
    def __init__(self, loader):
        self.keep = []
        self.at = {}
        for where, name, v in self.walk(loader):
            self.keep.append(v)
            self.at[where, name] = print_(v, 0, frozenset())

    @staticmethod
    def walk(loader):
        done = set()
        for mn, m in sorted(loader.mods.items()):
            for k, v in list(vars(m).items()):
                if k == "__builtins__" or k.startswith("vt__") or isinstance(v, types.ModuleType):
                    continue
                yield mn, k, v
                if isinstance(v, type) and v.__module__.startswith("torch_struct") and v not in done:
                    done.add(v)
                    for a, w in list(vars(v).items()):
                        if not (a.startswith("__") and a.endswith("__")) and not a.startswith("_abc_"):
                            yield "%s.%s" % (mn, k), a, w

    def changed(self, loader):
        """Names whose value or mutable content differs from the snapshot."""
        now = {}
        for where, name, v in self.walk(loader):
            if where in self.mods_of():
                now[where, name] = print_(v, 0, frozenset())
        out = []
        for k in self.at:
            if k not in now:
                out.append("%s.%s removed" % k)
            elif now[k] != self.at[k]:
                out.append("%s.%s written" % k)
        out += ["%s.%s added" % k for k in now if k not in self.at]
        return out

    def mods_of(self):
        return {w for w, _ in self.at}
