"""C01: converting a vector between bases is the change of coordinates they describe."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from mc.specs import DX1, axis_specs, explicit_specs, small_axis_specs
from surface_potential_analysis.basis import conversion as bc
from surface_potential_analysis.basis.basis_like import convert_vector
from surface_potential_analysis.basis.explicit_basis import (
    ExplicitBasis,
    ExplicitBasisWithLength,
    ExplicitStackedBasisWithLength,
)
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.stacked_basis import conversion as sc
from surface_potential_analysis.state_vector.conversion import (
    convert_state_vector_to_basis,
)

PROP = Property(
    "C01",
    rule="Every ordered pair of basis descriptions of equal fundamental size is explored; each "
    "pair is decided on the whole vector space by converting every unit vector, i times every "
    "unit vector and a generic vector, along every axis position and for real, complex, strided "
    "and 1-3 dimensional arrays.",
    assumptions=["conversions do not branch on the values of vector entries"],
)


def layouts(n: int, key: str):
    """(name, array, axis, rows) - rows: the array as a list of vectors to convert."""
    eye = np.eye(n, dtype=complex)
    full = np.concatenate([eye, 1j * eye, cdata((2, n), "c01", key)])
    yield "rows[c]", full, -1
    yield "cols[c]F", np.asfortranarray(full.T), 0
    yield "vec[c]", cdata((n,), "c01v", key), 0
    yield "vec[r]", rdata((n,), "c01v", key), -1
    yield "mid[r]", rdata((2, n, 4), "c01m", key), 1
    yield "mid[c]strided", cdata((3, 2 * n, 2), "c01s", key)[:, ::2, :], -2
    yield "first[r]", rdata((n, 2), "c01f", key), 0
    yield "last[r]", rdata((3, n), "c01l", key), 1
    yield "int", np.arange(1, 2 * n + 1).reshape(2, n), -1


def apply(arr: np.ndarray, t: np.ndarray, axis: int) -> np.ndarray:
    return np.moveaxis(np.tensordot(arr, t, axes=([axis], [0])), -1, axis % arr.ndim)


def check_pair(cx: Cx, a, b, ia, ib, which: str = "all") -> None:
    if a == b and not ref.is_orthonormal(a):
        return  # a list of states that is no orthonormal set has no coordinates of its own
    t = ref.transfer(a, b)
    for name, arr, axis in layouts(ref.n_of(a), "k"):
        if which == "few" and name not in ("rows[c]", "mid[r]", "first[r]"):
            continue
        before = arr.copy()
        with cx.at(f"{json.dumps(b)}", name):
            cx.step("convert", lambda: convert_vector(arr, ia, ib, axis), apply(arr, t, axis))
            if not np.array_equal(arr, before):
                cx.fail("input altered", "convert_vector wrote to its input")
    cx.trace()


def roots_axis(tier: str):
    sizes = (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9)
    for big in sizes:
        for a in axis_specs(big, wide=big <= 4 or tier != "quick"):
            yield {"N": big, "a": a}


@PROP.family("axis pairs", roots_axis)
def axis_pairs(cfg, cx: Cx) -> None:
    a = cfg["a"]
    ia = ref.build(a)
    cx.step("n", lambda: (ia.n, ia.fundamental_n), (ref.n_of(a), ref.fund_n(a)))
    wide = cfg["N"] <= 4
    for b in axis_specs(cfg["N"], wide=wide):
        check_pair(cx, a, b, ia, ref.build(b), "all" if cfg["N"] <= 4 else "few")
    check_pair(cx, a, a, ia, ia)


def roots_large(tier: str):
    for big in (15, 16, 30, 64) if tier == "quick" else (15, 16, 25, 30, 64, 105, 128):
        for a in small_axis_specs(big):
            yield {"N": big, "a": a}


@PROP.family("large axes", roots_large)
def large(cfg, cx: Cx) -> None:
    ia = ref.build(cfg["a"])
    for b in small_axis_specs(cfg["N"]):
        check_pair(cx, cfg["a"], b, ia, ref.build(b), "few")


def roots_two(tier: str):
    sizes = [(1, 3), (2, 2), (2, 3), (3, 4), (4, 3)]
    if tier != "quick":
        sizes += [(3, 3), (4, 4), (6, 2), (1, 1), (5, 4)]
    for n0, n1 in sizes:
        for a in itertools.product(small_axis_specs(n0), small_axis_specs(n1)):
            yield {"N": [n0, n1], "a": ["S", list(a)]}


@PROP.family("two axes", roots_two)
def two(cfg, cx: Cx) -> None:
    n0, n1 = cfg["N"]
    a = cfg["a"]
    ia = ref.build(a)
    for b in itertools.product(small_axis_specs(n0), small_axis_specs(n1)):
        spec = ["S", list(b)]
        check_pair(cx, a, spec, ia, ref.build(spec), "few")
    # against bases of the product space that are not products
    big = n0 * n1
    flat = [["F", big], ["M", max(1, big - 1), big], ["E", 1, big, 1], ["X", "orth", 2, ["F", big]],
            ["X", "general", 3, a]]
    for b in flat:
        ib = ref.build(b)
        check_pair(cx, a, b, ia, ib, "few")
        check_pair(cx, b, a, ib, ia, "few")
    check_pair(cx, a, a, ia, ia)
    # axes shared between the two descriptions (same axis objects, different order of use)
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    b1 = small_axis_specs(n1)[2]
    check_pair(cx, a, ["S", [a[1][0], b1]], ia, TupleBasis(ia[0], ref.build(b1)))
    b0 = small_axis_specs(n0)[1]
    check_pair(cx, a, ["S", [b0, a[1][1]]], ia, TupleBasis(ref.build(b0), ia[1]))


def roots_three(tier: str):
    for ns in [(2, 3, 2), (3, 1, 2)] if tier == "quick" else [(2, 3, 2), (3, 1, 2), (2, 2, 3), (3, 3, 3), (4, 2, 3)]:
        for a in itertools.product(*(small_axis_specs(n)[: 4 if tier == "quick" else 6] for n in ns)):
            yield {"N": list(ns), "a": ["S", list(a)], "w": 4 if tier == "quick" else 6}


@PROP.family("three axes", roots_three)
def three(cfg, cx: Cx) -> None:
    a = cfg["a"]
    ia = ref.build(a)
    for b in itertools.product(*(small_axis_specs(n)[: cfg["w"]] for n in cfg["N"])):
        spec = ["S", list(b)]
        check_pair(cx, a, spec, ia, ref.build(spec), "few")


def nested_specs():
    f, m = ["F", 2], ["M", 2, 3]
    return [
        ["S", [["S", [f, m]], ["FM", 2]]],
        ["S", [["S", [["FM", 2], ["F", 3]]], ["F", 2]]],
        ["S", [["X", "orth", 4, ["S", [["F", 2], ["F", 3]]]], ["FMP", [1.5], 2]]],
        ["S", [["S", [["T", 1, 2], ["FMP", [2.0], 3]]], ["X", "orth", 2, ["F", 2]]]],
        ["S", [["X", "general", 3, ["S", [["FM", 2], ["M", 2, 3]]]], ["T", 1, 2]]],
        ["S", [["F", 6], ["EM", 1, 2, -1]]],
        ["X", "orth", 5, ["S", [["S", [["F", 2], ["FM", 3]]], ["F", 2]]]],
        ["X", "general", 4, ["X", "orth", 6, ["S", [["S", [["F", 2], ["F", 3]]], ["FM", 2]]]]],
        ["F", 12],
        ["M", 7, 12],
    ]


@PROP.family("nested", lambda tier: [{"i": i} for i in range(len(nested_specs()))])
def nested(cfg, cx: Cx) -> None:
    specs = nested_specs()
    a = specs[cfg["i"]]
    ia = ref.build(a)
    for b in specs:
        check_pair(cx, a, b, ia, ref.build(b))


def roots_as(tier: str):
    for big in (1, 2, 3, 4, 6):
        yield {"N": big}


def dx(b) -> np.ndarray:
    return np.asarray(b.delta_x)


@PROP.family("derived axes", roots_as)
def derived(cfg, cx: Cx) -> None:
    """Helpers deriving the fundamental axis of an axis."""
    big = cfg["N"]
    for a in axis_specs(big, wide=False):
        ia = ref.build(a)
        table = [
            (bc.basis_as_fundamental_basis, ["F", big], False),
            (bc.basis_as_fundamental_transformed_basis, ["FM", big], False),
        ]
        if a[0] in ("FP", "FMP", "TP", "MP", "EMP", "XL"):
            d = ref.dx_of(a).tolist()
            table += [
                (bc.basis_as_fundamental_position_basis, ["FP", d, big], True),
                (bc.basis_as_fundamental_momentum_basis, ["FMP", d, big], True),
                (bc.basis_as_single_point_basis, ["FP", d, 1], True),
                (lambda b: bc.basis_as_n_point_basis(b.delta_x, n=big + 2), ["FP", d, big + 2], True),
            ]
        for fn, spec, length in table:
            with cx.at(json.dumps(a), json.dumps(spec)):
                ok, got = cx.run("derive", lambda: fn(ia))
                if not ok:
                    continue
                cx.same("sizes", [got.n, got.fundamental_n], [ref.n_of(spec), ref.fund_n(spec)])
                if length:
                    cx.same("length", dx(got), ref.dx_of(spec))
                if ref.fund_n(spec) == big:
                    check_pair(cx, a, spec, ia, got, "few")
                    check_pair(cx, spec, a, got, ia, "few")


def stacked_specs():
    l1 = ref.LATTICES[1]["line2"]
    l2 = ref.LATTICES[2]["oblique"]
    l3 = ref.LATTICES[3]["tri"]
    return [
        ["S", [["MP", l1[0], 3, 4]]],
        ["S", [["TP", l2[0], 2, 3], ["FMP", l2[1], 4]]],
        ["S", [["FP", l2[0], 3], ["EMP", l2[1], 2, 2, -1]]],
        ["S", [["XL", "orth", 2, ["FP", l2[0], 3]], ["MP", l2[1], 1, 2]]],
        ["S", [["MP", l3[0], 2, 3], ["FP", l3[1], 2], ["TP", l3[2], 1, 2]]],
        ["S", [["FMP", l3[0], 2], ["EMP", l3[1], 1, 3, 2], ["FP", l3[2], 2]]],
    ]


@PROP.family("derived products", lambda tier: [{"i": i} for i in range(len(stacked_specs()))])
def derived_stacked(cfg, cx: Cx) -> None:
    a = stacked_specs()[cfg["i"]]
    ia = ref.build(a)
    pos = ["S", [["FP", ref.dx_of(s).tolist(), ref.fund_n(s)] for s in a[1]]]
    mom = ["S", [["FMP", ref.dx_of(s).tolist(), ref.fund_n(s)] for s in a[1]]]
    plain = ["S", [["F", ref.fund_n(s)] for s in a[1]]]
    plain_m = ["S", [["FM", ref.fund_n(s)] for s in a[1]]]
    table = [
        ("stacked_basis_as_fundamental_basis", plain, False),
        ("stacked_basis_as_fundamental_transformed_basis", plain_m, False),
        ("tuple_basis_as_fundamental", plain, False),
        ("tuple_basis_as_fundamental_transformed", plain_m, False),
        ("tuple_basis_as_fundamental_position_basis", pos, True),
        ("tuple_basis_as_fundamental_momentum_basis", mom, True),
        ("stacked_basis_as_fundamental_position_basis", pos, True),
        ("stacked_basis_as_fundamental_momentum_basis", mom, True),
    ]
    for name, spec, length in table:
        fn = getattr(sc, name, None)
        if fn is None:
            continue
        with cx.at(name):
            ok, got = cx.run("derive", lambda: fn(ia))
            if not ok:
                continue
            cx.same("shape", list(got.shape), list(ref.shape_of(spec)))
            cx.same("fundamental shape", list(got.fundamental_shape), list(ref.fund_shape(spec)))
            if length:
                cx.same("length", got.delta_x_stacked, ref.dx_of(spec))
            check_pair(cx, a, spec, ia, got, "few")
            check_pair(cx, spec, a, got, ia, "few")


def roots_explicit(tier: str):
    for big in (2, 3, 4, 6):
        for s in axis_specs(big, wide=False):
            yield {"inner": s}
    for s in stacked_specs():
        yield {"inner": s}


@PROP.family("explicit", roots_explicit)
def explicit(cfg, cx: Cx) -> None:
    """A basis turned into an explicit list of its own states is the same basis."""
    a = cfg["inner"]
    ia = ref.build(a)
    if a[0] == "S":
        cls = ExplicitStackedBasisWithLength
    elif a[0] in ("FP", "FMP", "TP", "MP", "EMP", "XL"):
        cls = ExplicitBasisWithLength
    else:
        cls = ExplicitBasis
    orth = ref.is_orthonormal(a)
    if orth:
        ok, ex = cx.run("from_basis", lambda: cls.from_basis(ia))
        if ok:
            cx.same("n", [ex.n, ex.fundamental_n], [ref.n_of(a), ref.fund_n(a)])
            check_pair(cx, a, a, ia, ex)
            check_pair(cx, a, a, ex, ia)
            check_pair(cx, a, a, ex, cls.from_basis(ref.build(a)), "few")
            if cls is not ExplicitBasis and a[0] != "S":
                cx.same("length", ex.delta_x, ref.dx_of(a))
            if a[0] == "S":
                cx.same("lengths", ex.delta_x_stacked, ref.dx_of(a))
                cx.same("fshape", list(ex.fundamental_shape), list(ref.fund_shape(a)))
    x = [("XS" if a[0] == "S" else "X"), "general", 2, a]
    ix = ref.build(x)
    cx.step("raw", lambda: ix.fundamental_raw_vectors.reshape(-1), ref.states(x).reshape(-1))
    f = ["F", ref.fund_n(a)]
    check_pair(cx, x, f, ix, ref.build(f), "few")
    check_pair(cx, f, x, ref.build(f), ix, "few")
    # through the state-vector interface
    vec = cdata((2,), "sv")
    cx.step(
        "state vector",
        lambda: convert_state_vector_to_basis({"basis": ix, "data": vec}, ref.build(f))["data"].reshape(-1),
        vec @ ref.states(x),
    )


def roots_primitive(tier: str):
    for big in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for a in axis_specs(big):
            yield {"a": a}
    for a in [*stacked_specs(), *nested_specs()]:
        yield {"a": a}


def _plain_of(spec, kind: str):
    """The fundamental ("F") or transformed ("FM") basis of the space spec lives in."""
    if spec[0] == "S":
        return ["S", [[kind, ref.fund_n(s)] for s in spec[1]]]
    if spec[0] in ("X", "XL", "XS"):
        return _plain_of(spec[3], kind)
    return [kind, ref.fund_n(spec)]


@PROP.family("primitives", roots_primitive)
def primitives(cfg, cx: Cx) -> None:
    """The moves a basis provides to and from the fundamental and momentum states."""
    a = cfg["a"]
    ia = ref.build(a)
    for wrapped, obj in (("", ia), ("util ", BasisUtil(ia))):
        for kind, into, out in (
            ("F", "__into_fundamental__", "__from_fundamental__"),
            ("FM", "__into_transformed__", "__from_transformed__"),
        ):
            if wrapped and kind == "FM":
                continue
            plain = _plain_of(a, kind)
            for name, s, t in ((into, a, plain), (out, plain, a)):
                if name == out and not ref.is_orthonormal(a):
                    continue
                m = ref.transfer(s, t)
                for layout, arr, axis in layouts(ref.n_of(s), "k"):
                    if np.issubdtype(arr.dtype, np.integer):
                        continue
                    before = arr.copy()
                    with cx.at(wrapped + name, layout):
                        cx.step("move", lambda: getattr(obj, name)(arr, axis), apply(arr, m, axis))
                        if not np.array_equal(arr, before):
                            cx.fail("input altered", f"{name} wrote to its input")
        cx.trace()
    with cx.at("util"):
        cx.step("states", lambda: BasisUtil(ia).vectors, ref.transfer(a, _plain_of(a, "F")))
        if a[0] == "S":
            cx.step("axes", lambda: [b.n for b in BasisUtil(ia)], [ref.n_of(s) for s in a[1]])
            for i in range(-len(a[1]), len(a[1])):
                cx.step("axis", lambda i=i: BasisUtil(ia)[i].n, ref.n_of(a[1][i]))
