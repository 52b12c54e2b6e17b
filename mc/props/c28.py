"""C28: what is returned fits together, and is given in the bases it is promised in."""

from __future__ import annotations

import ast
import contextlib
import functools
import importlib
import io
import types
from typing import Any

import numpy as np

from mc import core, signatures
from mc.core import Cx, Property
from mc.props import c26, c27
from mc.signatures import (
    CLASSES,
    CONTRACTS,
    INDICES,
    KINDS,
    NUMBERS,
    SHAPE,
    TUPLES,
    Wrong,
    a_variable,
    alike,
    head_of,
    is_basis,
    is_number,
    is_product,
    label,
    legs_of,
    none_or,
    parsed,
    repeated,
)

PROP = Property(
    "C28",
    rule="Every public function whose signature names bases, with arguments made from it and every assignment of different bases of one size "
    "to its variables (the first 400 → 4000); and the explorations of the other checks, on one in several of the roots of their quick tier (thorough: all): every record returned by "
    "a public function, called by the check or by the package itself, has the layout of its kind, in the bases its signature promises.",
    assumptions=["the signatures are those of mc/contracts.json; what a type does not say (Any, sizes) is not judged"],
)


class Reader:
    """Compares a value with a type, the variables of which stand for the bases they are first seen with."""

    def __init__(self, judging: bool) -> None:
        self.known: dict[str, Any] = {}
        self.judging = judging
        self.judged = 0

    def basis(self, node, v) -> None:
        if isinstance(node, str):  # a leg of a record whose type has no arguments
            if not is_basis(v):
                raise Wrong(f"a leg is {label(v)}")
            return
        name, args = head_of(node)
        if a_variable(node):
            if not is_basis(v):
                raise Wrong(f"{name} is {label(v)}, not a basis")
            if name not in self.known:
                if not self.judging:
                    self.known[name] = v
                return
            if self.known[name] is None:
                return
            if not self.judging:
                if not alike(self.known[name], v):
                    self.known[name] = None  # the variable stands for no basis in particular
                return
            self.judged += 1
            if not alike(self.known[name], v):
                raise Wrong(f"is given in {label(v)} instead of {label(self.known[name])}, its {name}")
        elif name in TUPLES:
            every = repeated(args)
            if every is not None and is_product(v):
                for x in v:
                    if not a_variable(every):
                        self.basis(every, x)
                return
            if any(isinstance(x, ast.Starred) or head_of(x)[0] in ("Unpack", "") for x in args) or name == "StackedBasisLike" or not args:
                if not is_basis(v):
                    raise Wrong(f"a basis is {label(v)}")
                return
            inner = legs_of(v)
            if len(inner) != len(args):
                raise Wrong(f"{label(v)} has {len(inner)} axes instead of {len(args)}")
            for a, x in zip(args, inner):
                self.basis(a, x)
        elif name.rstrip("123d") in CLASSES:
            name = name.rstrip("123d")
            cls = getattr(importlib.import_module(f"{c26.PACKAGE}.{CLASSES[name]}"), name, None)
            if isinstance(cls, type):
                self.judged += self.judging
                if not isinstance(v, cls):
                    raise Wrong(f"a basis is {label(v)} instead of {name}")

    def shape(self, args, v) -> None:
        name = args[0].id if args and isinstance(args[0], ast.Name) else ""
        if SHAPE.fullmatch(name) is None or not isinstance(v, (np.ndarray, int, np.integer)):
            return
        if not self.judging:
            if self.known.setdefault(name, np.shape(v)) != np.shape(v):
                self.known[name] = None
        elif self.known.get(name) is not None:
            self.judged += 1
            if np.shape(v) != self.known[name]:
                raise Wrong(f"is of shape {np.shape(v)} instead of {self.known[name]}")

    def array(self, args, v) -> None:
        self.shape(args, v)
        if not self.judging or len(args) != 2:
            return
        name, sizes = head_of(args[0])
        if name == "tuple" and sizes and not any(isinstance(a, ast.Starred) or head_of(a)[0] in ("Unpack", "") and not is_number(a) for a in sizes):
            self.judged += 1
            if v.ndim != len(sizes):
                raise Wrong(f"is an array of {v.ndim} axes instead of {len(sizes)}")
        name, of = head_of(args[1])
        if name == "dtype" and len(of) == 1 and head_of(of[0])[0] in NUMBERS:
            self.judged += 1
            if v.dtype.kind not in NUMBERS[head_of(of[0])[0]]:
                raise Wrong(f"is an array of {v.dtype} instead of {head_of(of[0])[0]}")

    def record(self, name, args, v) -> None:
        legs, layout, data, eigen = KINDS[name]
        if not isinstance(v, dict):
            raise Wrong(f"{type(v).__name__} in place of a record")
        missing = {"basis", "data", *(("eigenvalue",) if eigen is not None else ())} - set(v)
        if missing:
            raise Wrong(f"no {sorted(missing)} in a {name}")
        types_of = dict(zip(legs, args)) if len(args) == len(legs) else {}
        found: dict[str, list[Any]] = {}

        def walk(layout, b):
            if isinstance(layout, str):
                found.setdefault(layout, []).append(b)
                return
            inner = legs_of(b)
            if len(inner) != len(layout):
                raise Wrong(f"the basis {label(b)} of a {name} has {len(inner)} legs instead of {len(layout)}")
            for x, y in zip(layout, inner):
                walk(x, y)

        walk(layout, v["basis"])
        sizes = {leg: int(bs[0].n) for leg, bs in found.items() if is_basis(bs[0])}
        if len(sizes) == len(found) and self.judging:
            self.judged += 1
            want = int(np.prod([sizes[leg] for leg in data]))
            if np.size(v["data"]) != want:
                raise Wrong(f"{np.size(v['data'])} values in a {name} of {want} in {label(v['basis'])}")
            if eigen is not None:
                count = int(np.prod([sizes[leg] for leg in eigen]))
                if np.size(v["eigenvalue"]) != count:
                    raise Wrong(f"{np.size(v['eigenvalue'])} eigenvalues in a {name} of {count}")
        for leg, bs in found.items():
            for b in bs:
                self.basis(types_of.get(leg, "leg"), b)
                if self.judging and len(bs) > 1 and not alike(bs[0], b):
                    raise Wrong(f"the legs of a {name} are {label(bs[0])} and {label(b)}")

    def read(self, node, v) -> None:
        name, args = head_of(node)
        if name in KINDS:
            self.record(name, args, v)
        elif a_variable(node):
            if is_basis(v):
                self.basis(node, v)
        elif name in TUPLES or name.rstrip("123d") in CLASSES:
            self.basis(node, v)
        elif name == "tuple" and isinstance(v, tuple) and args:
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                args = [args[0]] * len(v)
            if any(isinstance(a, ast.Starred) or head_of(a)[0] == "Unpack" for a in args):
                return
            if len(args) != len(v):
                raise Wrong(f"{len(v)} answers instead of {len(args)}")
            for a, x in zip(args, v):
                self.read(a, x)
        elif name in ("list", "Iterable", "Sequence") and isinstance(v, (list, tuple)) and args:
            for x in v[:50]:
                self.read(args[0], x)
        elif name == "ndarray" and isinstance(v, np.ndarray):
            self.array(args, v)
        elif name in INDICES and isinstance(v, tuple):
            for x in v:
                self.shape(args[:1], x)
        elif self.judging and name in NUMBERS:
            self.judged += 1
            if np.ndim(v) != 0 or np.asarray(v).dtype.kind not in NUMBERS[name]:
                raise Wrong(f"{type(v).__name__} instead of a {name}")
        elif name == "AxisKernel" and isinstance(v, tuple):
            for x in v:
                self.record("IsotropicNoiseKernel", [], x)


def chosen(entry, given: dict[str, Any]):
    """The signature these arguments belong to, and the bases its variables stand for."""
    for sig in entry["overloads"] or [entry["plain"]]:
        reader = Reader(judging=False)
        try:
            for name, annotation in sig["parameters"]:
                v = given.get(name)
                if annotation is None:
                    continue
                optional, rest = none_or(parsed(annotation))
                if v is None:
                    if entry["overloads"] and not optional:
                        raise Wrong("an argument is missing")  # noqa: TRY301
                    continue
                if not rest and entry["overloads"]:
                    raise Wrong("an argument too many")  # noqa: TRY301
                if len(rest) == 1:
                    reader.read(rest[0], v)
            return sig, reader
        except Wrong:
            continue
    return None, None


class Fit(c26.Boundary):
    """Stands between all functions: what they return is compared with what their signature says."""

    cx: Any = None

    def wrap(self, f):
        if id(f) in self.wrappers:
            return self.wrappers[id(f)]
        entry = CONTRACTS.get(f"{getattr(f, '__module__', '')}:{getattr(f, '__qualname__', '')}") if isinstance(f, types.FunctionType) else None
        if entry is None:
            return f
        names = [n for n, _ in (entry["plain"] or entry["overloads"][0])["parameters"]]
        name = f"{f.__module__.removeprefix(c26.PACKAGE + '.')}.{f.__name__}"

        @functools.wraps(f)
        def call(*args, **kwargs):
            got = f(*args, **kwargs)
            if self.cx is not None:
                given = {**dict(zip(names, args)), **kwargs}
                self.judge(name, entry, given, got)
            return got

        self.wrappers[id(f)] = call
        self.keep.append(f)
        return call

    def judge(self, name, entry, given, got) -> None:
        cx, self.cx = self.cx, None
        try:
            sig, reader = chosen(entry, given)
            if sig is None or sig["returns"] is None:
                return
            reader.judging = True
            cx.transitions += 1
            try:
                _, rest = none_or(parsed(sig["returns"]))
                if len(rest) == 1:
                    reader.read(rest[0], got)
            except Wrong as e:
                with cx.at(name):
                    cx.fail(name, str(e))
            if reader.judged:
                cx.note(f"{name}")
                cx.state(name, sorted((k, v if isinstance(v, tuple) else label(v)) for k, v in reader.known.items() if v is not None))
                cx.outcomes.add(hash((name, str(sig["returns"]))))
        finally:
            self.cx = cx


FIT = Fit()


def fitted(fam: core.Family):
    def explore(cfg, cx: Cx) -> None:
        if not FIT.wrappers:
            FIT.install()
        FIT.cx = cx
        inner = c27.Silent(cx.family, cx.cfg)
        try:
            fam.explore(cfg, inner)
        except core.StopRoot:
            raise
        except Exception:  # noqa: BLE001
            cx.note("not explored to the end")
        finally:
            FIT.cx = None
            cx.traces += inner.traces

    return explore


@PROP.family("signatures", signatures.roots(400))
def made(cfg, cx: Cx) -> None:
    if not FIT.wrappers:
        FIT.install()
    for what, f, given in signatures.calls(cfg, cx.note):
        FIT.cx = cx
        try:
            with cx.at(what), contextlib.redirect_stdout(io.StringIO()):
                f(**given)
            cx.note(f"called {cfg['function'].split(':')[1]}")
        except core.StopRoot:
            raise
        except Exception as e:  # noqa: BLE001
            cx.note(f"refused by {cfg['function'].split(':')[1]}: {type(e).__name__} {str(e)[:60]}")
        finally:
            FIT.cx = None


STRIDE: dict[tuple[str, str], int] = {}

for _pid in [f"C{i:02d}" for i in range(1, 24)]:
    if _pid == "C18":
        continue
    _prop = importlib.import_module(f"mc.props.{_pid.lower()}").PROP
    for _name, _fam in _prop.families.items():
        PROP.family(f"{_pid} {_name}", c27.every(_fam, STRIDE.get((_pid, _name), 8)))(fitted(_fam))
