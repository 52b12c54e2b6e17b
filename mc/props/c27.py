"""C27: the unit in which something is given does not matter."""

from __future__ import annotations

import copy
import functools
import hashlib
import importlib
import json
import types
from typing import Any

import numpy as np

from mc import core, signatures
from mc.core import Cx, Property, describe, quiet
from mc.props import c24, c26

PROP = Property(
    "C27",
    rule="Every call the other checks make, on one in several of the roots of their quick tier (at least four of each family; thorough: all): made again with the values "
    "of one argument, or all lengths, or all times, multiplied by a factor.  Where five moderate factors (for values up to 2000, for lengths "
    "and times up to 32, either way) multiply the answer by one power of the factor, so must a factor of 1e-20 and one of 1e20 (for lengths "
    "and times 1e-10 and 1e10).",
    assumptions=["a dependence on the unit which is not a power for the moderate factors is not judged"],
)

# Answers which join terms of different origin, one of which may be lost in rounding for moderate factors.
SUMS = {
    "total_surface_hamiltonian",
    "get_potential_basis_config_eigenstates",
    "wrap_x_point_around_origin",
    "get_bragg_plane_distance",
    "get_displacements_x_stacked",
    "get_displacements_matrix_x_stacked",
    "get_gaussian_noise_operators_periodic",
    "get_temperature_corrected_gaussian_noise_operators",
    "calculate_equilibrium_initial_state_isf",
    "calculate_equilibrium_state_averaged_isf",
    "get_simplified_collapse_operators_from_a_matrix",
    "get_coherent_coordinates",
    "get_temperature_corrected_noise_operators",
    "get_temperature_corrected_diagonal_noise_operators",
    "get_temperature_corrected_effective_gaussian_noise_operators",
    "get_temperature_corrected_effective_lorentzian_noise_operators",
    "get_temperature_corrected_operators",
}

# The first calls of a function in one root which are looked at, for each kind of arguments; after them the next
# call beyond one and a half times as many.
OFTEN = 2


class Opaque(Exception):
    """Cannot be given in another unit."""


# -- arguments in another unit ----------------------------------------------------------------

LENGTHS = ("delta_x",)
TIMES = ("delta_t", "times")


def stretched(v: Any, names, factor: float, memo: dict[int, Any], depth: int = 0) -> Any:
    """The same bases, with all their lengths (or times) multiplied."""
    if id(v) in memo:
        return memo[id(v)]
    out = v
    if depth > 8:
        raise Opaque
    if type(v) in (list, tuple):
        new = [stretched(x, names, factor, memo, depth + 1) for x in v]
        if any(x is not y for x, y in zip(new, v)):
            out = type(v)(new)
    elif type(v) is dict:
        new = {k: stretched(x, names, factor, memo, depth + 1) for k, x in v.items()}
        if any(new[k] is not v[k] for k in v):
            out = new
    elif c24.ours(v) and not isinstance(v, type) and isinstance(getattr(v, "__dict__", None), dict):
        public = {}
        for n in names:
            try:
                public[n] = np.array(getattr(v, n), dtype=float)
            except Exception:  # noqa: BLE001, S112
                continue
        new = copy.copy(v)
        cached = [k for k in vars(v) if isinstance(getattr(type(v), k, None), functools.cached_property)]
        for k in cached:
            del new.__dict__[k]
        changed = False
        for k, x in vars(v).items():
            if k in cached:
                continue
            if isinstance(x, (np.ndarray, float)) and any(np.array_equal(x, p) for p in public.values()):
                y = x * factor
            else:
                y = stretched(x, names, factor, memo, depth + 1)
            if y is not x:
                new.__dict__[k] = y
                changed = True
        for n, p in public.items():
            if not np.array_equal(np.array(getattr(new, n)), p * factor):
                raise Opaque
        if changed:
            out = new
    memo[id(v)] = out
    memo.setdefault(-1, []).append(v)
    return out


def record(v) -> bool:
    return type(v) is dict and "basis" in v and isinstance(v.get("data"), np.ndarray)


def multiplied(v: Any, factor: float) -> Any:
    """The same objects with their values multiplied."""
    if record(v):
        out = dict(v)
        out["data"] = v["data"] * factor
        return out
    if type(v) in (list, tuple) and v and all(record(x) for x in v):
        return type(v)(multiplied(x, factor) for x in v)
    if isinstance(v, np.ndarray) and v.dtype.kind in "fc":
        return v * factor
    if type(v) is float:
        return v * factor
    return v


def strengthened(v: Any, factor: float) -> Any:
    """The same operators with other eigenvalues."""
    if record(v) and isinstance(v.get("eigenvalue"), np.ndarray):
        return {**v, "eigenvalue": v["eigenvalue"] * factor}
    if type(v) in (list, tuple) and v and all(record(x) for x in v):
        return type(v)(strengthened(x, factor) for x in v)
    return v


def ways(args, kwargs):
    """Name, extremes, and a function from a factor to arguments."""
    flat = [*args, *kwargs.values()]
    names = [*range(len(args)), *kwargs]

    def replaced(i, new):
        got = [*flat[:i], new, *flat[i + 1 :]]
        return got[: len(args)], dict(zip(kwargs, got[len(args) :]))

    for i, v in enumerate(flat):
        if multiplied(v, 2.0) is not v:
            yield f"values of argument {names[i]}", (-66, 66), lambda x, i=i, v=v: replaced(i, multiplied(v, x))
        if strengthened(v, 2.0) is not v:
            yield f"eigenvalues of argument {names[i]}", (-66, 66), lambda x, i=i, v=v: replaced(i, strengthened(v, x))
    for what, attrs in (("lengths", LENGTHS), ("times", TIMES)):
        try:
            if stretched(flat, attrs, 2.0, {}) is flat:
                continue
        except Opaque:
            continue

        def longer(x, attrs=attrs):
            got = stretched(flat, attrs, x, {})
            return got[: len(args)], dict(zip(kwargs, got[len(args) :]))

        yield what, (-33, 33), longer


# -- answers ------------------------------------------------------------------------------------


def leaves(v: Any, name: str = "answer", depth: int = 0):
    if depth > 5:
        return
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fc" and v.size:
            yield name, v
    elif isinstance(v, (float, complex, np.floating, np.complexfloating)):
        yield name, np.array([v])
    elif type(v) is dict:
        for k, x in v.items():
            if k != "basis":
                yield from leaves(x, f"{name}[{k!r}]", depth + 1)
    elif isinstance(v, (list, tuple)) and len(v) < 50:
        for i, x in enumerate(v):
            yield from leaves(x, f"{name}[{i}]", depth + 1)


def power(a: np.ndarray, b: np.ndarray, factor: float) -> float | None:
    """The power of the factor by which all of a must be multiplied to be b."""
    if a.shape != b.shape or not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return None
    top = np.max(np.abs(a))
    if top == 0:
        return None
    i = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    if abs(b[i]) == 0:
        return None
    r = np.log(abs(b[i]) / abs(a[i])) / np.log(factor)
    d = round(2 * r) / 2
    if abs(r - d) > 1e-9 or abs(d) > 6:
        return None
    return d if np.max(np.abs(b - a * factor**d)) <= 1e-10 * factor**d * top else None


class Judge(c26.Boundary):
    """Makes every call from outside again, in other units."""

    def __init__(self) -> None:
        super().__init__()
        self.cx: Cx | None = None
        self.what = ""
        self.seen: dict[Any, tuple[int, int, int]] = {}

    def wrap(self, f):
        if id(f) in self.wrappers:
            return self.wrappers[id(f)]
        judged = not f.__name__.startswith(("_", "plot", "animate", "save", "load", "get_figure")) and "util.plot" not in f.__module__ and f.__name__ not in SUMS

        @functools.wraps(f)
        def call(*args, **kwargs):
            if self.cx is None or self.depth:
                return f(*args, **kwargs)
            self.depth += 1
            try:
                got = f(*args, **kwargs)
                if judged:
                    self.judge(f, args, kwargs, got)
                return got
            finally:
                self.depth -= 1

        self.wrappers[id(f)] = call
        self.keep.append(f)
        return call

    def judge(self, f, args, kwargs, got) -> None:
        first = dict(leaves(got))
        if not first or any(callable(a) and not isinstance(a, type) for a in [*args, *kwargs.values()]):
            return
        cx = self.cx
        for name, extremes, given in ways(args, kwargs):
            key = (f.__module__, f.__name__, name)
            calls, judged, due = self.seen.get(key, (0, 0, 1))
            self.seen[key] = (calls + 1, judged, due)
            if calls + 1 < due:
                continue

            def at(x, given=given):
                try:
                    a, k = given(x)
                    with quiet():
                        return dict(leaves(f(*a, **k)))
                except Exception as e:  # noqa: BLE001
                    return f"raised {type(e).__name__}: {str(e)[:200]}"

            factors = (2.0, 0.5, 1.37, 2.0 ** (extremes[1] // 6), 2.0 ** (extremes[0] // 6))
            moderate = [at(x) for x in factors]
            if any(isinstance(m, str) or set(m) != set(first) for m in moderate):
                continue
            powers = {}
            for leaf, a in first.items():
                d = [power(a, m[leaf], x) for m, x in zip(moderate, factors)]
                if d[0] is not None and len(set(d)) == 1:
                    powers[leaf] = d[0]
            if not powers:
                continue
            self.seen[key] = (calls + 1, judged + 1, due if judged + 1 < OFTEN else calls + 1 + (calls + 2) // 2)
            cx.state(*key, sorted(powers.items()))
            for e in extremes:
                cx.transitions += 1
                far = at(2.0**e)
                with cx.at(f"{f.__module__.removeprefix(c26.PACKAGE + '.')}.{f.__name__}", name, f"2^{e}"):
                    if isinstance(far, str):
                        cx.fail(f.__name__, f"in another unit: {far}")
                        continue
                    for leaf, d in powers.items():
                        a = first[leaf]
                        b = far.get(leaf)
                        ok = b is not None and b.shape == a.shape
                        if ok:
                            with np.errstate(all="ignore"):
                                back = b * 2.0 ** (-e * d)
                            ok = bool(np.all(np.isfinite(back)) and np.max(np.abs(back - a)) <= 1e-8 * np.max(np.abs(a)))
                        if not ok:
                            cx.fail(f.__name__, f"{leaf} goes as the power {d} of the {name}, but at 2^{e} is {describe(b, 150)} for {describe(a, 150)}")
                        cx.outcomes.add(hash((key, leaf, d)))


JUDGE = Judge()


class Silent(Cx):
    """Explores a root of another check without judging it."""

    def note(self, name, n=1):
        pass

    def fail(self, what, message):
        pass

    def run(self, what, fn):
        try:
            with quiet():
                return True, fn()
        except core.StopRoot:
            raise
        except Exception:  # noqa: BLE001
            return False, None

    def same(self, what, got, want, tol=1e-8):
        return core.mismatch(got, want, tol) is None

    def holds(self, what, cond, message=""):
        return bool(cond)


def judged(fam: core.Family):
    def explore(cfg, cx: Cx) -> None:
        if not JUDGE.wrappers:
            JUDGE.install()
        JUDGE.cx, JUDGE.depth, JUDGE.seen = cx, 0, {}
        inner = Silent(cx.family, cx.cfg)
        try:
            fam.explore(cfg, inner)
        except core.StopRoot:
            raise
        except Exception:  # noqa: BLE001
            cx.note("not explored to the end")
        finally:
            JUDGE.cx = None
            cx.traces += inner.traces

    return explore


def every(fam: core.Family, k: int):
    def roots(tier):
        cfgs = list(fam.roots("quick"))
        digest = [hashlib.md5(json.dumps(cfg).encode()).digest() for cfg in cfgs]
        cut = sorted(digest)[: max(4, -(-len(cfgs) // k))]
        for cfg, d in zip(cfgs, digest):
            if tier != "quick" or not cut or d <= cut[-1]:
                yield cfg

    return roots


STRIDE: dict[tuple[str, str], int] = {}

for _pid in [f"C{i:02d}" for i in range(1, 24)]:
    if _pid in {"C18", "C19"}:
        continue
    _prop = importlib.import_module(f"mc.props.{_pid.lower()}").PROP
    for _name, _fam in _prop.families.items():
        if _name.startswith("localised"):  # random draws
            continue
        PROP.family(f"{_pid} {_name}", every(_fam, STRIDE.get((_pid, _name), 10)))(judged(_fam))

PROP.family("signatures", signatures.roots(12, random=False))(judged(signatures.FAMILY))
