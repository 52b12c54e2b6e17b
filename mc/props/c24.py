"""C24: computing changes nothing that it was given, and can be done again."""

from __future__ import annotations

import hashlib
import importlib
import json
import types
from collections.abc import Iterator
from typing import Any

import numpy as np

from mc import core, signatures
from mc.hidden import Hidden
from mc.core import Cx, Property, describe, mismatch, quiet

PROP = Property(
    "C24",
    rule="Every call made by the other checks, on the roots of their quick tier (every root of small families, of the larger "
    "ones every k-th, in the thorough tier all): the arrays and objects a call can reach are compared before and after it, "
    "the call is made a second time, and the first answer is looked at again after the second; at the end of each root "
    "everything that the package remembers is put back as it was and all its calls are made again, the last first.",
    assumptions=["calls whose answer is random, or kept in files, are made only once", "figures are only drawn once"],
)

# Families whose calls depend on more than their arguments: files, programs, random numbers.
OUTSIDE = {"C16", "C18", "C19"}
# Families whose calls read files which are gone at the end of the root.
ON_DISK = {("C14", "files")}
WHERE = [f"C{i:02d}" for i in range(1, 24)]


# -- what a call can reach --------------------------------------------------------------


def inputs_of(fn) -> dict[str, Any]:
    """Name -> object, for everything in the closure of a call."""
    out: dict[str, Any] = {}

    def closure(f, prefix, depth):
        for name, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, types.FunctionType) and depth < 3 and v.__module__ and v.__module__.startswith("mc."):
                closure(v, f"{prefix}{name}.", depth + 1)
            else:
                out[prefix + name] = v
        for i, v in enumerate(f.__defaults__ or ()):
            out[f"{prefix}default {i}"] = v

    if isinstance(fn, types.FunctionType):
        closure(fn, "", 0)
    return out


class Opaque(Exception):
    """Not something to compare."""


# Bytes kept of the calls of one root.
MOST = 4 * 10**8


def weight(v) -> int:
    if isinstance(v, np.ndarray):
        return v.nbytes
    if isinstance(v, (dict, list)):
        return 100 + sum(weight(x) for x in (v.values() if isinstance(v, dict) else v))
    return 50


def ours(v) -> bool:
    return type(v).__module__.startswith("surface_potential_analysis")


def parts(v, name, seen, out, depth=0) -> None:
    """Every array, and the shape of every record, in an object."""
    if depth > 7 or id(v) in seen:
        return
    if isinstance(v, np.ndarray):
        seen.add(id(v))
        if v.dtype != object:
            out[name] = v.copy()
    elif isinstance(v, dict) and all(isinstance(k, str) for k in v):
        seen.add(id(v))
        if "basis" in v or "data" in v:
            out[name + " keys"] = tuple(sorted(v))
        for k, x in v.items():
            parts(x, f"{name}[{k!r}]", seen, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        seen.add(id(v))
        if depth < 3 and len(v) < 200:
            for i, x in enumerate(v):
                parts(x, f"{name}[{i}]", seen, out, depth + 1)
    elif ours(v) and not isinstance(v, type):
        seen.add(id(v))
        for k, x in getattr(v, "__dict__", {}).items():
            parts(x, f"{name}.{k}", seen, out, depth + 1)


def snapshot(objects) -> dict[str, Any]:
    out: dict[str, Any] = {}
    seen: set[int] = set()
    for name, v in objects.items():
        parts(v, name, seen, out)
    return out


def changed(before, after) -> str | None:
    for name, v in before.items():
        if name not in after:
            return f"{name} is gone"
        w = after[name]
        same = v == w if isinstance(v, tuple) else v.shape == w.shape and v.dtype == w.dtype and np.array_equal(v, w, equal_nan=v.dtype.kind in "fc")
        if not same:
            return f"{name}: was {describe(v, 150)} is {describe(w, 150)}"
    return None


def frozen(v, depth=0):
    """A copy of an answer which can be compared."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            raise Opaque
        return v.copy()
    if v is None or isinstance(v, (str, bool, int, float, complex, np.number, np.bool_)):
        return v
    if depth > 6:
        raise Opaque
    if isinstance(v, dict):
        return {str(k): frozen(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x, depth + 1) for x in v]
    if ours(v) and hasattr(v, "fundamental_n"):
        return [type(v).__name__, int(v.n), int(v.fundamental_n)]
    raise Opaque


def alike(a, b, tol=1e-9) -> str | None:
    """As core.mismatch, for numbers of any size."""
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return f"{describe(a, 150)} then {describe(b, 150)}"
        if a.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return None
        with np.errstate(all="ignore"):
            ok = np.isfinite(a) & np.isfinite(b)
            if np.array_equal(np.isfinite(a), np.isfinite(b)) and ok.any():
                if np.max(np.abs(a[ok] - b[ok])) <= tol * np.max(np.abs(a[ok])):
                    return None
        return f"{describe(a, 150)} then {describe(b, 150)}"
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return f"{describe(a, 150)} then {describe(b, 150)}"
        return next((f"[{k!r}] {m}" for k in a if (m := alike(a[k], b[k]))), None)
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return f"{describe(a, 150)} then {describe(b, 150)}"
        return next((f"[{i}] {m}" for i, (x, y) in enumerate(zip(a, b)) if (m := alike(x, y))), None)
    if isinstance(a, (float, complex, np.number)):
        return alike(np.array([a]), np.array([b]))
    return None if a == b else f"{a!r} then {b!r}"


def bound(fn, depth=0):
    """The same call, whatever becomes of the variables it was written with."""
    if not isinstance(fn, types.FunctionType) or depth > 3 or not fn.__module__ or not fn.__module__.startswith("mc."):
        return fn
    cells = []
    for cell in fn.__closure__ or ():
        try:
            cells.append(types.CellType(bound(cell.cell_contents, depth + 1)))
        except ValueError:
            return None
    out = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(cells) or None)
    out.__kwdefaults__ = fn.__kwdefaults__
    return out


HIDDEN: list[Hidden] = []


def forget() -> None:
    """Nothing has been computed yet."""
    if not HIDDEN:
        HIDDEN.append(Hidden())
    HIDDEN[0].forget()


class Watch(Cx):
    """Explores a root of another check, judging only what each call does to its surroundings."""

    def __init__(self, cx: Cx, twice: bool) -> None:
        super().__init__(cx.family, cx.cfg)
        self.mine, self.twice = cx, twice
        self.calls: list[Any] = []
        self.size = 0

    def again(self) -> None:
        """Every call of the root once more, the last first, after everything has been forgotten."""
        forget()
        mine = self.mine
        for what, path, fn, before, first in reversed(self.calls):
            if changed(before, snapshot(inputs_of(fn))):
                continue  # the check itself has put something else there
            mine.transitions += 1
            with mine.at(*path):
                try:
                    with quiet():
                        got = fn()
                except Exception as e:  # noqa: BLE001
                    mine.fail(what, f"after a different history: {type(e).__name__}: {str(e)[:200]}")
                    continue
                diff = alike(first, frozen(got))
                if diff:
                    mine.fail(what, f"another answer after a different history: {diff}")
        mine.trace()

    def note(self, name: str, n: int = 1) -> None:
        pass

    def fail(self, what: str, message: str) -> None:
        pass

    def run(self, what, fn):
        mine = self.mine
        given = inputs_of(fn)
        before = snapshot(given)
        mine.transitions += 1
        with mine.at(*self.path):
            try:
                with quiet():
                    got = fn()
            except Exception:  # noqa: BLE001
                return False, None
            diff = changed(before, snapshot(given))
            if diff:
                mine.fail(what, f"an input was changed: {diff}")
                return True, got
            if not self.twice or any(isinstance(v, Iterator) for v in given.values()):
                return True, got
            try:
                first = frozen(got)
            except Opaque:
                return True, got
            if self.size < MOST:
                self.size += sum(v.nbytes for v in before.values() if isinstance(v, np.ndarray)) + weight(first) + 2000
                self.calls.append((what, tuple(self.path), bound(fn), before, first))
            else:
                mine.note("calls too many to be remembered")
            mine.transitions += 1
            mine.outcomes.add(hash(what))
            try:
                with quiet():
                    again = fn()
            except Exception as e:  # noqa: BLE001
                mine.fail(what, f"the second time: {type(e).__name__}: {str(e)[:200]}")
                return True, got
            diff = changed(before, snapshot(given))
            if diff:
                mine.fail(what, f"an input was changed the second time: {diff}")
            diff = alike(first, frozen(again))
            if diff:
                mine.fail(what, f"another answer the second time: {diff}")
            diff = alike(first, frozen(got))
            if diff:
                mine.fail(what, f"the first answer changed: {diff}")
        return True, got

    def same(self, what, got, want, tol=1e-8):
        return mismatch(got, want, tol) is None

    def holds(self, what, cond, message=""):
        return bool(cond)

    def state(self, *key):
        new = super().state(*key)
        if new:
            self.mine.state(*key)
        return new

    def trace(self, n=1):
        self.mine.trace(n)


def watched(prop: Property, fam: core.Family):
    def explore(cfg, cx: Cx) -> None:
        watch = Watch(cx, prop.pid not in OUTSIDE)
        forget()
        try:
            fam.explore(cfg, watch)
        except core.StopRoot:
            raise
        except Exception:  # noqa: BLE001
            cx.note(f"{prop.pid} {fam.name}: not explored to the end")
        if (prop.pid, fam.name) not in ON_DISK:
            watch.again()

    return explore


def every(fam: core.Family, k: int):
    def roots(tier):
        cfgs = list(fam.roots("quick"))
        # Chosen by their text, so that the choice does not follow the order of the roots.
        digest = [hashlib.md5(json.dumps(cfg).encode()).digest() for cfg in cfgs]
        cut = sorted(digest)[: -(-len(cfgs) // k)]
        for cfg, d in zip(cfgs, digest):
            if tier != "quick" or not cut or d <= cut[-1]:
                yield cfg

    return roots


# One root in so many, in the quick tier.
STRIDE: dict[tuple[str, str], int] = {
    ("C01", "axis pairs"): 4,
    ("C01", "two axes"): 2,
    ("C01", "three axes"): 3,
    ("C02", "projections"): 40,
    ("C03", "two legs"): 3,
    ("C06", "paths"): 3,
    ("C07", "folding"): 2,
    ("C12", "starting guesses"): 2,
    ("C14", "continuous function and derivative"): 3,
    ("C20", "states"): 2,
    ("C02", "sequences"): 2,
    ("C08", "expression histories"): 6,
    ("C11", "decompression"): 6,
    ("C12", "projections"): 2,
    ("C17", "rates"): 2,
    ("C17", "scattering"): 4,
    ("C18", "calls"): 6,
    ("C19", "files"): 8,
    ("C19", "single bands"): 4,
    ("C21", "lines"): 6,
    ("C21", "maps"): 4,
    ("C21", "animations"): 5,
    ("C21", "potentials"): 4,
    ("C21", "states"): 4,
    ("C21", "overlaps"): 3,
    ("C22", "values"): 4,
    ("C22", "points"): 2,
    ("C23", "trajectories"): 16,
    ("C23", "bands"): 5,
}

# Histories of a store on a disk: what they are about is what is left behind.
LEFT_OUT = {("C18", "races"), ("C18", "crash")}

for _pid in WHERE:
    _prop = importlib.import_module(f"mc.props.{_pid.lower()}").PROP
    for _name, _fam in _prop.families.items():
        if (_pid, _name) in LEFT_OUT:
            continue
        PROP.family(f"{_pid} {_name}", every(_fam, STRIDE.get((_pid, _name), 1)))(watched(_prop, _fam))

PROP.family("signatures", signatures.roots(100, random=False))(watched(PROP, signatures.FAMILY))
