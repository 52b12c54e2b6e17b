"""What the package under test remembers between calls, and how to make it forget.

Everything mutable that can be reached from the modules of the package without an argument:
containers and attributes of modules, classes and functions, default values, closures, and the
caches of functools.  It is noted once, before any call, and can be put back to what it was.
"""

from __future__ import annotations

import sys
import types
from typing import Any

import numpy as np

PACKAGE = "surface_potential_analysis"
CONTAINERS = (dict, list, set)


def _ours(v: Any) -> bool:
    m = getattr(v, "__module__", None)
    return isinstance(m, str) and m.startswith(PACKAGE)


class Hidden:
    def __init__(self) -> None:
        self.seen: set[int] = set()
        self.keep: list[Any] = []  # so that no id is used twice
        self.contents: list[tuple[Any, Any]] = []
        self.names: list[tuple[Any, dict[str, Any]]] = []
        self.cells: list[tuple[Any, Any]] = []
        self.caches: list[Any] = []
        for name, mod in sorted(sys.modules.items()):
            if name.startswith(PACKAGE) and isinstance(mod, types.ModuleType):
                self.names.append((mod, dict(vars(mod))))
                for k, v in list(vars(mod).items()):
                    if not k.startswith("__"):
                        self.visit(v)

    def visit(self, v: Any, depth: int = 0) -> None:
        if id(v) in self.seen or depth > 6 or isinstance(v, types.ModuleType):
            return
        self.seen.add(id(v))
        self.keep.append(v)
        if isinstance(v, np.ndarray):
            if v.size < 10**6:
                self.contents.append((v, v.copy()))
        elif isinstance(v, CONTAINERS):
            self.contents.append((v, v.copy()))
            for x in list(v.values()) if isinstance(v, dict) else list(v):
                self.visit(x, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self.visit(x, depth + 1)
        elif callable(getattr(v, "cache_clear", None)) and not isinstance(v, type):
            self.caches.append(v)
            self.visit(getattr(v, "__wrapped__", None), depth + 1)
        elif isinstance(v, types.FunctionType):
            if not _ours(v) and not getattr(v, "__wrapped__", None):
                return
            self.contents.append((v.__dict__, dict(v.__dict__)))
            for x in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), *v.__dict__.values()):
                self.visit(x, depth + 1)
            for cell in v.__closure__ or ():
                try:
                    x = cell.cell_contents
                except ValueError:
                    continue
                self.cells.append((cell, x))
                self.visit(x, depth + 1)
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, depth + 1)
        elif isinstance(v, property):
            for f in (v.fget, v.fset):
                self.visit(f, depth + 1)
        elif isinstance(v, type):
            if _ours(v):
                plain = {k: x for k, x in vars(v).items() if not k.startswith(("__", "_abc"))}
                self.names.append((v, plain))
                for x in plain.values():
                    self.visit(x, depth + 1)
        elif _ours(type(v)) and isinstance(getattr(v, "__dict__", None), dict):
            self.contents.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self.visit(x, depth + 1)

    def forget(self) -> None:
        for owner, old in self.names:
            now = vars(owner)
            for k in [k for k in now if k not in old and not k.startswith(("__", "_abc"))]:
                if not isinstance(now[k], types.ModuleType):
                    delattr(owner, k)
            for k, v in old.items():
                if not k.startswith("__") and now.get(k, self) is not v:
                    setattr(owner, k, v)
        for cell, v in self.cells:
            if cell.cell_contents is not v:
                cell.cell_contents = v
        for c, old in self.contents:
            if isinstance(c, np.ndarray):
                if c.flags.writeable and not np.array_equal(c, old):
                    c[...] = old
            elif isinstance(c, dict):
                if len(c) != len(old) or any(c.get(k, self) is not x for k, x in old.items()):
                    c.clear()
                    c.update(old)
            elif isinstance(c, list):
                if len(c) != len(old) or any(x is not y for x, y in zip(c, old)):
                    c[:] = old
            elif c != old:
                c.clear()
                c.update(old)
        for f in self.caches:
            f.cache_clear()
