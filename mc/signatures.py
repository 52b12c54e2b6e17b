"""The signatures of the package, and calls made from them.

``mc/contracts.json`` (written by tools/contracts.py) holds the frozen signatures of the public functions.  ``calls`` enumerates, for one
of these functions, arguments made from the types alone: every assignment of different bases of one size to its type variables, and every
value of each of its options.
"""

from __future__ import annotations

import ast
import functools
import importlib
import inspect
import itertools
import json
import pathlib
import re
from typing import Any

import numpy as np

from mc import core

CONTRACTS: dict[str, Any] = json.loads((pathlib.Path(__file__).resolve().parent / "contracts.json").read_text())


class Wrong(Exception):
    """Something does not fit."""


class Unknown(Exception):
    """Nothing can be said."""


# -- the layout of every kind of record ------------------------------------------------------

# kind: (number of arguments, basis, the legs whose sizes multiply to that of the data, the legs that are numbered by the eigenvalues)
KINDS: dict[str, tuple[str, Any, str, str | None]] = {}


def kind(names: str, legs: str, basis, data: str, eigen: str | None = None) -> None:
    for name in names.split():
        KINDS[name] = (legs, basis, data, eigen)


kind("StateVector StateDualVector ValueList Potential ProbabilityVector IsotropicNoiseKernel", "a", "a", "a")
kind("Eigenstate", "a", "a", "a", "")
kind("StateVectorList ProbabilityVectorList Operator BlochWavefunctionList", "ab", ("a", "b"), "ab")
kind("EigenstateList BlochWavefunctionListWithEigenvalues", "ab", ("a", "b"), "ab", "a")
kind("BlochWavefunctionListList", "abc", (("a", "b"), "c"), "abc")
kind("BlochWavefunctionListWithEigenvaluesList", "abc", (("a", "b"), "c"), "abc", "ab")
kind("SingleBasisOperator TunnellingAMatrix TunnellingMMatrix", "a", ("a", "a"), "aa")
kind("DiagonalOperator", "ab", ("a", "b"), "a")
kind("SingleBasisDiagonalOperator", "a", ("a", "a"), "a")
kind("OperatorList LocalizationOperator Overlap", "abc", ("a", ("b", "c")), "abc")
kind("SingleBasisOperatorList", "ab", ("a", ("b", "b")), "abb")
kind("NoiseOperatorList EigenOperatorList", "abc", ("a", ("b", "c")), "abc", "a")
kind("SingleBasisNoiseOperatorList", "ab", ("a", ("b", "b")), "abb", "a")
kind("DiagonalOperatorList", "abc", ("a", ("b", "c")), "ab")
kind("SingleBasisDiagonalOperatorList", "ab", ("a", ("b", "b")), "ab")
kind("DiagonalNoiseOperatorList DiagonalEigenOperatorList", "abc", ("a", ("b", "c")), "ab", "a")
kind("SingleBasisDiagonalNoiseOperatorList", "ab", ("a", ("b", "b")), "ab", "a")
kind("NoiseKernel", "abcd", (("a", "b"), ("c", "d")), "abcd")
kind("DiagonalNoiseKernel", "abcd", (("a", "b"), ("c", "d")), "ac")
kind("SingleBasisNoiseKernel", "a", (("a", "a"), ("a", "a")), "aaaa")
kind("SingleOverlap", "a", ("a", ("1", "1")), "a")
kind("DiagonalLocalizationOperator", "ab", (("a", "b"), ("a", "b")), "ab")
kind("SingleBasisDiagonalNoiseKernel", "a", (("a", "a"), ("a", "a")), "aa")

TUPLES = {"TupleBasis", "TupleBasisLike", "TupleBasisWithLengthLike", "StackedBasisLike", "BlochWavefunctionListBasis"}
CLASSES = {
    "FundamentalBasis": "basis.basis",
    "FundamentalPositionBasis": "basis.basis",
    "FundamentalTransformedBasis": "basis.basis",
    "FundamentalTransformedPositionBasis": "basis.basis",
    "TransformedPositionBasis": "basis.basis",
    "ExplicitBasis": "basis.explicit_basis",
    "ExplicitBasisWithLength": "basis.explicit_basis",
    "ExplicitStackedBasisWithLength": "basis.explicit_basis",
    "EvenlySpacedTransformedPositionBasis": "basis.evenly_spaced_basis",
}


VARIABLE = re.compile(r"_(B|SB|SBV|SBL|BL|TB|TBL|BT|FB|BF|AX|TRB|ETB)\d*(Inv|StackedInv)?")


SHAPE = re.compile(r"_S\d*Inv|_S2d0Inv")
INDICES = {"ArrayStackedIndexLike", "ArrayStackedIndexLike3d", "ArrayStackedIndexFractionLike"}
NUMBERS = {
    "float": "fiu",
    "float64": "fiu",
    "float_": "fiu",
    "int_": "iu",
    "int": "iu",
    "complex": "cfiu",
    "complex128": "cfiu",
    "complex_": "cfiu",
}


def is_number(node) -> bool:
    return isinstance(node, ast.Subscript) and head_of(node)[0] == "Literal"


def is_basis(v) -> bool:
    return hasattr(v, "fundamental_n") and hasattr(v, "n") and not isinstance(v, type)


def is_product(v) -> bool:
    return type(v).__name__ == "TupleBasis"


def legs_of(v):
    if not is_product(v):
        raise Wrong(f"{label(v)} is not a product")
    return tuple(v)


def label(v) -> str:
    if is_product(v):
        return "(" + ", ".join(label(x) for x in v) + ")"
    return f"{type(v).__name__}({v.n} of {v.fundamental_n})" if is_basis(v) else type(v).__name__


def alike(a, b) -> bool:
    """One basis as good as the other."""
    if a is b:
        return True
    if not (is_basis(a) and is_basis(b)) or (int(a.n), int(a.fundamental_n)) != (int(b.n), int(b.fundamental_n)):
        return False
    if is_product(a) or is_product(b):
        return is_product(a) and is_product(b) and len(tuple(a)) == len(tuple(b)) and all(alike(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    for name in ("delta_x", "offset", "step", "times", "z_points", "vectors"):
        x, y = getattr(a, name, None), getattr(b, name, None)
        if isinstance(x, dict) and isinstance(y, dict):
            x, y = x.get("data"), y.get("data")
        if x is None and y is None:
            continue
        try:
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9 * np.max(np.abs(x), initial=0)):
                return False
        except TypeError:
            continue
    return True


# -- reading a type ----------------------------------------------------------------------------


@functools.cache
def parsed(text: str) -> ast.expr:
    return ast.parse(text, mode="eval").body


def head_of(node) -> tuple[str, list[ast.expr]]:
    if isinstance(node, ast.Name):
        return node.id, []
    if isinstance(node, ast.Attribute):
        return node.attr, []
    if isinstance(node, ast.Subscript):
        name = head_of(node.value)[0]
        s = node.slice
        return name, list(s.elts) if isinstance(s, ast.Tuple) else [s]
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return head_of(parsed(node.value))
    return "", []


def repeated(args):
    """X, of the arguments *tuple[X, ...]."""
    if len(args) != 1:
        return None
    inner = args[0].value if isinstance(args[0], ast.Starred) else args[0]
    if isinstance(args[0], ast.Subscript):
        name, rest = head_of(args[0])
        if name != "Unpack":
            return None
        inner = rest[0]
    name, rest = head_of(inner)
    return rest[0] if name == "tuple" and len(rest) == 2 and isinstance(rest[1], ast.Constant) and rest[1].value is Ellipsis else None


def a_variable(node) -> bool:
    return isinstance(node, ast.Name) and VARIABLE.fullmatch(node.id) is not None


def none_or(node) -> tuple[bool, list[ast.expr]]:
    """(may be None, the other alternatives) of a type."""
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        n1, a = none_or(node.left)
        n2, b = none_or(node.right)
        return n1 or n2, a + b
    if isinstance(node, ast.Constant) and node.value is None:
        return True, []
    return False, [node]


# -- arguments made from the signatures themselves -------------------------------------------


def alphabet(prefix: str, n: int):
    """Bases, all of n * n states and no two alike, a variable may stand for."""
    from surface_potential_analysis.basis import basis as bb  # noqa: PLC0415
    from surface_potential_analysis.basis.stacked_basis import TupleBasis  # noqa: PLC0415
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis  # noqa: PLC0415

    def axes(cls, *lengths):
        return TupleBasis(*(cls(np.array([x, 0.0]) if i == 0 else np.array([0.5, x]), n) for i, x in enumerate(lengths)))

    times = [EvenlySpacedTimeBasis(n * n, 1, 0, 3.0), EvenlySpacedTimeBasis(n * n, 1, 0, 7.0), EvenlySpacedTimeBasis(n * n, 2, 1, 3.0)]
    single = [
        bb.FundamentalPositionBasis(np.array([1.0]), n * n),
        bb.FundamentalPositionBasis(np.array([3.0]), n * n),
        bb.FundamentalTransformedPositionBasis(np.array([2.0]), n * n),
    ]
    stacked = [
        axes(bb.FundamentalPositionBasis, 1.0, 2.0),
        axes(bb.FundamentalPositionBasis, 2.0, 1.0),
        axes(bb.FundamentalTransformedPositionBasis, 1.0, 3.0),
        axes(bb.FundamentalTransformedPositionBasis, 3.0, 1.0),
    ]
    lists = [
        bb.FundamentalBasis(n * n),
        TupleBasis(bb.FundamentalBasis(n), bb.FundamentalBasis(n)),
        TupleBasis(bb.FundamentalTransformedBasis(n), bb.FundamentalTransformedBasis(n)),
    ]
    if prefix in ("SB", "SBV", "SBL", "TB", "TBL"):
        return [*stacked, lists[2]] if prefix in ("SB", "TB") else stacked
    if prefix == "BL":
        return single
    if prefix in ("BT", "AX"):
        return times
    if prefix == "FB":
        return lists[:1]
    return [single[0], lists[1], single[2], stacked[0], stacked[2], lists[0], single[1], times[0]] if prefix == "B" else []


class Maker:
    """Makes arguments of a type, the variables of which stand for given bases."""

    def __init__(self, n: int, bases: dict[str, Any], *, whole: bool = False) -> None:
        self.n, self.bases, self.salt, self.whole = n, bases, 0, whole

    def basis(self, node):
        from surface_potential_analysis.basis import basis as bb  # noqa: PLC0415
        from surface_potential_analysis.basis.stacked_basis import TupleBasis  # noqa: PLC0415

        if node is None:
            return bb.FundamentalBasis(self.n * self.n)
        if a_variable(node):
            return self.bases[node.id]
        name, args = head_of(node)
        if name in TUPLES:
            every = repeated(args)
            if every is not None:
                inner = [self.basis(every)] * 2 if a_variable(every) else [self.axis(every, x) for x in (1.0, 2.0)]
                return TupleBasis(*inner)
            if len(args) == 1 and isinstance(args[0], ast.Starred):
                return alphabet("SB", self.n)[0]
            if not args or any(isinstance(x, ast.Starred) for x in args):
                raise Unknown(name)
            return TupleBasis(*(self.basis(x) for x in args))
        if name in ("StackedBasisWithVolumeLike", "StackedBasisLike"):
            return alphabet("SB", self.n)[0]
        if name in ("BasisLike", "Any", "BasisWithLengthLike"):
            return alphabet("BL", self.n)[0]
        if name == "FundamentalBasis":
            return bb.FundamentalBasis(self.n * self.n)
        return self.axis(node, 1.0)

    def axis(self, node, x: float):
        from surface_potential_analysis.basis import basis as bb  # noqa: PLC0415

        name = head_of(node)[0].rstrip("123d")
        if name in ("FundamentalBasis", "FundamentalTransformedBasis"):
            return getattr(bb, name)(self.n)
        if name in ("FundamentalPositionBasis", "FundamentalTransformedPositionBasis"):
            return getattr(bb, name)(np.array([x, 0.0]) if x == 1.0 else np.array([0.5, x]), self.n)
        raise Unknown(name)

    def record(self, name, args):
        from surface_potential_analysis.basis.stacked_basis import TupleBasis  # noqa: PLC0415

        legs, layout, data, eigen = KINDS[name]
        types_of = dict(zip(legs, args)) if len(args) == len(legs) else {}
        made: dict[str, Any] = {}

        def walk(layout):
            if isinstance(layout, str):
                if layout == "1":
                    raise Unknown(name)
                if layout not in made:
                    made[layout] = self.basis(types_of.get(layout))
                return made[layout]
            return TupleBasis(*(walk(x) for x in layout))

        basis = walk(layout)
        shape = [int(made[leg].n) for leg in data]
        self.salt += 1
        rng = np.random.default_rng([1, self.salt])
        values = rng.standard_normal(shape) + (0 if name in ("Potential", "ProbabilityVector", "IsotropicNoiseKernel") else 1j) * rng.standard_normal(
            shape
        )
        if self.whole:
            values = np.rint(3 * values.real)
        if name in ("Operator", "SingleBasisOperator", "DiagonalNoiseKernel", "SingleBasisDiagonalNoiseKernel") and shape[0] == shape[-1]:
            values = values @ np.conj(values.T) + len(values) * np.eye(len(values))
        if "Kernel" in name and len(shape) == 4:
            m = values.transpose(1, 0, 2, 3).reshape(shape[0] * shape[1], -1)
            m = m @ np.conj(m.T) + len(m) * np.eye(len(m))
            values = m.reshape(shape[1], shape[0], *shape[2:]).transpose(1, 0, 2, 3)
        if name == "IsotropicNoiseKernel":
            values = 4 * np.eye(1, values.size).ravel() + 1
        if name.startswith("Probability"):
            values = np.abs(values)
        out = {"basis": basis, "data": values.reshape(-1).astype(np.complex128 if name != "ProbabilityVector" else np.float64)}
        if eigen is not None:
            count = int(np.prod([int(made[leg].n) for leg in eigen]))
            out["eigenvalue"] = np.arange(1, count + 1, dtype=np.complex128) if eigen else 2.0
        return out

    def make(self, node):
        name, args = head_of(node)
        if name in KINDS:
            return self.record(name, args)
        if name in ("list", "Iterable") and args:
            return [self.make(args[0]), self.make(args[0])]
        if name in ("float", "FloatLike_co"):
            return 2.0
        if name == "complex":
            return 2.0 + 1j
        if name in ("int", "IntLike_co", "SingleFlatIndexLike", "SingleIndexLike"):
            return 1
        if name == "bool":
            return True
        if name == "tuple" and args and all(head_of(a)[0] in ("int", "IntLike_co") for a in args if not isinstance(a, ast.Constant)):
            return tuple(range(len(args))) if not isinstance(args[-1], ast.Constant) else (0,)
        if name == "ndarray" and head_of(args[0])[0] == "tuple" and len(head_of(args[0])[1]) == 1:
            return np.arange(1.0, 1 + (3 if not is_number(head_of(args[0])[1][0]) else head_of(args[0])[1][0].slice.value))
        if name == "Callable":
            return lambda x: x * x
        if name == "tuple" and len(args) == 2 and isinstance(args[1], ast.Constant) and head_of(args[0])[0] in KINDS:
            return (self.make(args[0]), self.make(args[0]))
        if name == "slice":
            return slice(0, 2)
        if name == "SingleStackedIndexLike":
            return (1, 0)
        if name == "AxisKernel" and args:
            return tuple(self.record("IsotropicNoiseKernel", args) for _ in range(2))
        if (
            a_variable(node)
            or name in TUPLES
            or name.rstrip("123d") in CLASSES
            or name in ("BasisLike", "StackedBasisWithVolumeLike", "StackedBasisLike", "BasisWithLengthLike")
        ):
            return self.basis(node)
        raise Unknown(ast.unparse(node))


def variables_of(annotations) -> list[str]:
    out: list[str] = []
    for text in annotations:
        for node in ast.walk(parsed(text)):
            if a_variable(node) and node.id not in out:
                out.append(node.id)
    return out


def promising():
    """The functions whose answer is a record or a basis, with the signatures that promise it."""
    for key, entry in CONTRACTS.items():
        for sig in entry["overloads"] or [entry["plain"]]:
            if (
                sig["returns"]
                and re.search(r"_(B|SB|SBV|SBL|BL|TB|TBL|BT|FB|AX)\d", sig["returns"])
                and not key.split(":")[1].startswith(("plot", "animate"))
            ):
                yield key, sig


def function_of(key: str):
    module, name = key.split(":")
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        return None


def calls(cfg, note):
    """(label, function, arguments) of every call of a root."""
    name = cfg["function"].split(":")[1]
    f = function_of(cfg["function"])
    if f is None or not given_out(name):
        note("not called: cannot be imported, writes files, or needs another package")
        return
    defaults = {k for k, p in inspect.signature(f).parameters.items() if p.default is not inspect.Parameter.empty}
    for key, sig in promising():
        if key != cfg["function"]:
            continue
        wanted = [(k, t) for k, t in sig["parameters"] if k not in defaults and t is not None]
        names = variables_of(t for _, t in wanted)
        choices = [alphabet(VARIABLE.fullmatch(v)[1], cfg["n"]) for v in names]
        for chosen in itertools.islice(assignments(choices), cfg["most"]):
            maker = Maker(cfg["n"], dict(zip(names, chosen)), whole=cfg.get("whole", False))
            try:
                given = {k: maker.make(none_or(parsed(t))[1][0]) for k, t in wanted}
            except (Unknown, KeyError, IndexError) as e:
                note(f"no arguments for {name}: {e}")
                break
            for more in options(sig, defaults, cfg["n"]):
                what = " ".join([name, label_of(names, chosen), *(f"{k}={v}" for k, v in more.items())])
                yield what, f, {**given, **more}


def drawn(key: str) -> bool:
    """Whether an answer is a random draw."""
    return key.split(":")[1].startswith("sample_noise") or "solve_stochastic" in key


def roots(most: int, *, whole: bool = False, random: bool = True):
    keys = [k for k in dict.fromkeys(k for k, _ in promising()) if random or not drawn(k)]

    def every(tier: str):
        return [
            {"function": k, "n": n, "most": most if tier == "quick" else 10 * most, **({"whole": True} if whole else {})}
            for k in keys
            for n in ((2,) if tier == "quick" else (2, 3))
        ]

    return every


def explore(cfg, cx) -> None:
    """Makes the calls, with nothing to compare the answers with."""
    for what, f, given in calls(cfg, cx.note):
        cx.run(what, lambda f=f, given=given: f(**given))


FAMILY = core.Family("signatures", roots(1), explore)


def options(sig, defaults, n: int):
    """No option, and every value of every one of them."""
    yield {}
    for k, t in sig["parameters"]:
        if k not in defaults or t is None:
            continue
        for node in none_or(parsed(t))[1]:
            name, args = head_of(node)
            if name == "int":
                yield from ({k: i} for i in (1, 2, 3, n * n))
            elif name == "bool":
                yield from ({k: b} for b in (True, False))
            elif name == "Iterable" and head_of(args[0])[0] == "int":
                yield from ({k: which} for which in ([0], [1, 0], list(range(n * n))))
            elif name == "tuple" and len(args) == 2 and all(head_of(a)[0] == "IntLike_co" for a in args):
                yield from ({k: which} for which in ((0, 0), (1, 2), (0, n * n - 1)))


def given_out(name: str) -> bool:
    return not ("wannier90" in name or "_rust" in name or name in ("solve_schrodinger_equation", "load_potential"))


def label_of(names, bases) -> str:
    return ", ".join(f"{k} {label(v)}" for k, v in zip(names, bases))


def assignments(choices):
    """All ways to choose different bases for the variables."""
    for chosen_ in itertools.product(*choices):
        if not any(alike(a, b) for a, b in itertools.combinations(chosen_, 2)):
            yield chosen_
