"""C26: an answer depends on the values it is given, not on how they are stored."""

from __future__ import annotations

import functools
import hashlib
import importlib
import json
import pkgutil
import re
import sys
import types
from typing import Any

import numpy as np

from mc import core, signatures
from mc.core import Cx, Property, quiet

PROP = Property(
    "C26",
    rule="The explorations of the other checks, on one in several of the roots of their quick tier (thorough: all), with every array a "
    "call can reach stored in another way: as a read-only view with gaps, in the other order of the axes, or with the "
    "simplest type that holds its values (integer, real), and with every number a number of numpy.  The answers are judged by the oracle of the other check.",
    assumptions=["complex values are only stored as real, and real ones as integers, where nothing is lost"],
)


PACKAGE = "surface_potential_analysis"

# -- other ways to store an array ----------------------------------------------------------


def spread(a: np.ndarray) -> np.ndarray:
    """A read-only view with gaps, of a larger array, with its axes in the opposite order."""
    if a.ndim == 0:
        out = a.copy()
    else:
        buf = np.full(tuple(2 * n + 1 for n in a.shape[::-1]), 7, dtype=a.dtype)
        out = buf[(slice(1, None, 2),) * a.ndim].T
        out[...] = a
    out.flags.writeable = False
    return out


def simplest(a: np.ndarray) -> np.ndarray:
    if a.dtype.kind == "c" and not np.any(a.imag):
        a = a.real.copy()
    if a.dtype.kind == "f" and np.all(np.isfinite(a)) and np.all(np.abs(a) < 2**31) and np.array_equal(a, np.rint(a)):
        a = a.astype(np.int64)
    return a


def simplest_real(a: np.ndarray) -> np.ndarray:
    return a.real.copy() if a.dtype.kind == "c" and not np.any(a.imag) else a


def same(x):
    return x


def whole(x):
    return int(x) if type(x) is float and x == np.rint(x) and abs(x) < 2**31 else x


def of_numpy(x):
    return {int: np.int64, float: np.float64}.get(type(x), same)(x)


# What becomes of arrays, and of single numbers.
WAYS = {"spread": (spread, same), "integer": (simplest, whole), "real": (simplest_real, same), "numpy": (same, of_numpy)}


class Boundary:
    """Stands between the checks and the package: arguments of the calls from outside are stored in another way."""

    def __init__(self) -> None:
        self.way = None
        self.depth = 0
        self.stored = 0
        self.wrappers: dict[int, Any] = {}
        self.keep: list[Any] = []

    def other(self, v, depth=0):
        if isinstance(v, np.ndarray):
            if v.dtype.kind in "iufc":
                out = self.way[0](v)
                self.stored += out is not v
                return out
            return v
        if type(v) in (int, float):
            out = self.way[1](v)
            self.stored += out is not v
            return out
        if type(v) is dict and depth < 5 and v and all(isinstance(k, str) for k in v):
            new = {k: self.other(x, depth + 1) for k, x in v.items()}
            return new if any(new[k] is not v[k] for k in v) else v
        if type(v) in (list, tuple) and depth < 5 and len(v) < 200:
            new = [self.other(x, depth + 1) for x in v]
            return type(v)(new) if any(x is not y for x, y in zip(new, v)) else v
        return v

    def wrap(self, f):
        if id(f) in self.wrappers:
            return self.wrappers[id(f)]

        @functools.wraps(f)
        def call(*args, **kwargs):
            if self.way is None or self.depth:
                return f(*args, **kwargs)
            args = tuple(self.other(a) for a in args)
            kwargs = {k: self.other(a) for k, a in kwargs.items()}
            self.depth += 1
            try:
                return f(*args, **kwargs)
            finally:
                self.depth -= 1

        self.wrappers[id(f)] = call
        self.keep.append(f)
        return call

    def install(self) -> None:
        classes: set[int] = set()
        for name in pkgutil.walk_packages(importlib.import_module(PACKAGE).__path__, PACKAGE + "."):
            try:
                importlib.import_module(name.name)
            except Exception:  # noqa: BLE001, S112
                continue
        modules = [m for n, m in sorted(sys.modules.items()) if n.startswith((PACKAGE, "mc.props.", "mc.ref", "mc.specs")) and m is not None]
        for mod in modules:
            for name, v in list(vars(mod).items()):
                if not str(getattr(v, "__module__", "")).startswith(PACKAGE):
                    continue
                if isinstance(v, types.FunctionType):
                    setattr(mod, name, self.wrap(v))
                elif isinstance(v, type) and id(v) not in classes and v.__module__.startswith(PACKAGE):
                    classes.add(id(v))
                    for k, x in list(vars(v).items()):
                        if isinstance(x, types.FunctionType) and k not in ("__hash__", "__eq__", "__init_subclass__", "__subclasshook__"):
                            setattr(v, k, self.wrap(x))


BOUNDARY = Boundary()


class Stored(Cx):
    """Explores a root of another check with the arrays of its calls stored in another way."""

    def __init__(self, cx: Cx) -> None:
        super().__init__(cx.family, cx.cfg)
        self.path = cx.path
        self.violations = cx.violations
        self.notes = cx.notes


def stored(fam: core.Family):
    def explore(cfg, cx: Cx) -> None:
        inner = Stored(cx)
        if not BOUNDARY.wrappers:
            BOUNDARY.install()
        BOUNDARY.way, BOUNDARY.depth, BOUNDARY.stored = WAYS[cfg["stored"]], 0, 0
        try:
            fam.explore(cfg["root"], inner)
        finally:
            BOUNDARY.way = None
            cx.note("arrays stored in another way", BOUNDARY.stored)
            cx.states |= inner.states
            cx.outcomes |= inner.outcomes
            cx.transitions += inner.transitions
            cx.traces += inner.traces

    return explore


def every(fam: core.Family, k: int, ways):
    def roots(tier):
        for i, way in enumerate(ways):
            cfgs = list(fam.roots("quick"))
            digest = [hashlib.md5((way + json.dumps(cfg)).encode()).digest() for cfg in cfgs]
            cut = sorted(digest)[: -(-len(cfgs) // k)]
            for cfg, d in zip(cfgs, digest):
                if tier != "quick" or not cut or d <= cut[-1]:
                    yield {"stored": way, "root": cfg}

    return roots


STRIDE: dict[tuple[str, str], int] = {("C02", "projections"): 30, ("C06", "paths"): 20}
LEFT_OUT = {("C18", "races"), ("C18", "crash"), ("C18", "values")}

for _pid in [f"C{i:02d}" for i in range(1, 24)]:
    _prop = importlib.import_module(f"mc.props.{_pid.lower()}").PROP
    for _name, _fam in _prop.families.items():
        if (_pid, _name) in LEFT_OUT:
            continue
        PROP.family(f"{_pid} {_name}", every(_fam, STRIDE.get((_pid, _name), 10), WAYS))(stored(_fam))


# Eigenvectors are only defined up to a phase and an order, and a phase of 1e34 (energies of one joule) up to rounding.
FREE = re.compile("eigen|decomposition|localiz|wannier|svd|noise_operators")


def signature_roots(tier: str):
    for cfg in signatures.roots(30, whole=True, random=False)(tier):
        if FREE.search(cfg["function"].split(":")[1]):
            continue
        for way in WAYS:
            yield {"stored": way, "root": cfg}


@PROP.family("signatures", signature_roots)
def made(cfg, cx: Cx) -> None:
    if not BOUNDARY.wrappers:
        BOUNDARY.install()
    for what, f, given in signatures.calls(cfg["root"], lambda _: None):
        BOUNDARY.way, BOUNDARY.depth, BOUNDARY.stored = None, 0, 0
        try:
            with quiet():
                want = f(**given)
        except Exception:  # noqa: BLE001, S112
            continue
        BOUNDARY.way = WAYS[cfg["stored"]]
        try:
            with cx.at(what):
                ok, got = cx.run(f.__name__, lambda f=f, given=given: f(**given))
        finally:
            BOUNDARY.way = None
        if ok:
            a, b = numbers(want), numbers(got)
            with cx.at(what):
                cx.holds(f.__name__, list(a) == list(b), f"the answer has {list(b)} instead of {list(a)}")
                for k in a:
                    if k in b and np.all(np.isfinite(a[k])):
                        cx.same(f"{f.__name__} {k}", b[k], a[k], 1e-8)
            cx.state(f.__name__, what, cfg["stored"])


def numbers(v, at: str = "", depth: int = 0) -> dict[str, Any]:
    """The arrays of an answer."""
    if isinstance(v, np.ndarray):
        return {at: v.astype(np.complex128) if v.dtype.kind in "iufc" else v}
    if isinstance(v, (int, float, complex, np.number)):
        return {at: np.complex128(v)}
    items = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, (list, tuple)) else []
    return {} if depth > 4 else {k2: x2 for k, x in items for k2, x2 in numbers(x, f"{at}[{k!r}]", depth + 1).items()}
