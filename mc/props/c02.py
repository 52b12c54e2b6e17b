"""C02: any history of conversions equals the product of the projections it passes through."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, canon, cdata, rdata
from mc.specs import DX1
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator.conversion import (
    convert_operator_list_to_basis,
    convert_operator_to_basis,
)
from surface_potential_analysis.state_vector import conversion as svc

PROP = Property(
    "C02",
    rule="From every start basis, every sequence of conversions over a finite alphabet of bases "
    "is executed up to the depth bound (breadth first; a state is the pair of current basis and "
    "described object, deduplicated), and the object after each step is compared with the model: "
    "the original object multiplied by the projections onto the bases visited.",
    assumptions=["conversions do not branch on the values of vector entries"],
)


# The model of an object is its array over fundamental coordinates; `legs` says for
# every index of the array whether it transforms as a ket ("k") or a bra ("b").
KINDS = {
    "vector": (1, "k"),
    "list": (3, "k"),
    "dual": (1, "b"),
    "operator": (1, "kb"),
    "operator list": (2, "kb"),
}


def model_rep(kind: str, fund: np.ndarray, spec) -> np.ndarray:
    """Coefficients, in the given basis, of the object described by fund."""
    b = ref.states(spec)
    lead, legs = KINDS[kind]
    out = fund
    for i, leg in enumerate(legs):
        m = b.conj() if leg == "k" else b
        out = np.moveaxis(np.tensordot(out, m, axes=([1 + i], [1])), -1, 1 + i)
    return out


def model_project(kind: str, fund: np.ndarray, spec) -> np.ndarray:
    b = ref.states(spec)
    p = b.conj().T @ b  # acts on coordinate rows: row @ p, for kets  v -> (v b^H) b
    lead, legs = KINDS[kind]
    out = fund
    for i, leg in enumerate(legs):
        m = p if leg == "k" else p.conj()
        out = np.moveaxis(np.tensordot(out, m, axes=([1 + i], [0])), -1, 1 + i)
    return out


def impl_start(kind: str, rep: np.ndarray, basis):
    if kind in ("vector", "dual"):
        return {"basis": basis, "data": rep.reshape(-1)}
    from surface_potential_analysis.basis.basis import FundamentalBasis

    lead, _ = KINDS[kind]
    if kind == "list":
        return {"basis": TupleBasis(FundamentalBasis(lead), basis), "data": rep.reshape(-1)}
    if kind == "operator":
        return {"basis": TupleBasis(basis, basis), "data": rep.reshape(-1)}
    return {
        "basis": TupleBasis(FundamentalBasis(lead), TupleBasis(basis, basis)),
        "data": rep.reshape(-1),
    }


def impl_convert(kind: str, obj, basis):
    if kind == "vector":
        return svc.convert_state_vector_to_basis(obj, basis)
    if kind == "dual":
        return svc.convert_state_dual_vector_to_basis(obj, basis)
    if kind == "list":
        return svc.convert_state_vector_list_to_basis(obj, basis)
    if kind == "operator":
        return convert_operator_to_basis(obj, TupleBasis(basis, basis))
    return convert_operator_list_to_basis(obj, TupleBasis(basis, basis))


def alphabet(name: str):
    dx = DX1[1]
    if name.startswith("complete"):
        n = int(name.split(":")[1])
        return [
            ["F", n],
            ["FP", dx, n],
            ["FM", n],
            ["MP", dx, n, n],
            ["T", n, n],
            ["E", n, 1, -1],
            ["EM", n, 1, 1],
            ["X", "orth", n, ["F", n]],
            ["X", "perm", n, ["FM", n]],
            ["XL", "orth", n, ["EMP", dx, n, 1, -2]],
        ]
    if name.startswith("mixed"):
        n = int(name.split(":")[1])
        half = max(1, n // 2)
        return [
            ["F", n],
            ["FMP", dx, n],
            ["T", max(1, n - 1), n],
            ["M", half, n],
            ["TP", dx, half, n],
            ["MP", dx, max(1, n - 1), n],
            ["EM", half, 2, -1] if n % 2 == 0 else ["EM", 1, n, 1],
            ["E", half, 2, 1] if n % 2 == 0 else ["E", 1, n, -2],
            ["X", "orth", max(1, n - 1), ["FM", n]],
        ]
    if name.startswith("twins"):
        # of one kind and size, with other states
        n = int(name.split(":")[1])
        half = n // 2
        return [
            ["X", "orth", n - 1, ["FM", n]],
            ["X", "perm", n - 1, ["FM", n]],
            ["X", "orth", n, ["F", n]],
            ["X", "perm", n, ["F", n]],
            *(["E", half, 2, o] for o in (0, 1)),
            *(["EM", half, 2, o] for o in (0, -1)),
            ["S", [["X", "orth", n - 1, ["F", n]]]],
            ["S", [["X", "perm", n - 1, ["F", n]]]],
        ]
    if name == "stacked:complete":
        return [
            ["S", [["F", 2], ["F", 3]]],
            ["S", [["FM", 2], ["FM", 3]]],
            ["S", [["FP", dx, 2], ["MP", dx, 3, 3]]],
            ["S", [["X", "orth", 2, ["F", 2]], ["E", 3, 1, 2]]],
            ["F", 6],
            ["FM", 6],
            ["X", "orth", 6, ["S", [["FM", 2], ["F", 3]]]],
        ]
    if name == "stacked:mixed":
        return [
            ["S", [["F", 2], ["FM", 3]]],
            ["S", [["M", 1, 2], ["FM", 3]]],
            ["S", [["TP", dx, 2, 2], ["M", 2, 3]]],
            ["S", [["E", 1, 2, 1], ["X", "orth", 2, ["F", 3]]]],
            ["T", 4, 6],
            ["X", "orth", 4, ["S", [["FM", 2], ["F", 3]]]],
        ]
    if name == "stacked3":
        return [
            ["S", [["F", 2], ["F", 3], ["FM", 2]]],
            ["S", [["FM", 2], ["M", 2, 3], ["FMP", dx, 2]]],
            ["S", [["FP", dx, 2], ["T", 2, 3], ["EM", 1, 2, 1]]],
            ["S", [["X", "orth", 2, ["F", 2]], ["F", 3], ["E", 2, 1, 1]]],
            ["F", 12],
        ]
    raise ValueError(name)


def roots(tier: str):
    names = ["complete:2", "complete:3", "complete:4", "mixed:2", "mixed:3", "mixed:4", "mixed:5",
             "mixed:6", "twins:4", "stacked:complete", "stacked:mixed", "stacked3"]
    depth = {"complete": 6, "mixed": 4, "twins": 4, "stacked": 4, "stacked3": 4}
    if tier != "quick":
        names += ["complete:7", "twins:6", "mixed:8", "mixed:9"]
        depth = {"complete": 8, "mixed": 6, "twins": 6, "stacked": 6, "stacked3": 6}
    for name in names:
        d = depth[name.split(":")[0]]
        for kind in KINDS:
            if KINDS[kind][1] == "kb" and name in ("mixed:8", "mixed:9"):
                continue
            for start in range(len(alphabet(name))):
                for real in (False, True):
                    yield {"alphabet": name, "kind": kind, "start": start, "real": real, "depth": d}


def start_object(cfg, specs):
    kind = cfg["kind"]
    lead, legs = KINDS[kind]
    spec = specs[cfg["start"]]
    n = ref.n_of(spec)
    shape = (lead,) + (n,) * len(legs)
    key = (cfg["alphabet"], kind, cfg["start"])
    rep = rdata(shape, key) if cfg["real"] else cdata(shape, key)
    b = ref.states(spec)
    fund = rep.astype(complex)
    for i, leg in enumerate(legs):
        m = b if leg == "k" else b.conj()
        fund = np.moveaxis(np.tensordot(fund, m, axes=([1 + i], [0])), -1, 1 + i)
    return rep, fund


@PROP.family("projections", roots)
def projections(cfg, cx: Cx) -> None:
    """Breadth-first closure of the conversion graph, states deduplicated."""
    specs = alphabet(cfg["alphabet"])
    impl = [ref.build(s) for s in specs]
    complete = [ref.n_of(s) == ref.fund_n(s) for s in specs]
    kind = cfg["kind"]
    rep, fund = start_object(cfg, specs)
    start = impl_start(kind, rep, impl[cfg["start"]])
    frontier = [(cfg["start"], fund, start, ())]
    seen = {(cfg["start"], canon(fund))}
    cx.state(cfg["alphabet"], cfg["start"], fund)
    norm = np.linalg.norm(fund)
    for _depth in range(cfg["depth"]):
        nxt = []
        for at, f, obj, path in frontier:
            for to, spec in enumerate(specs):
                with cx.at(*path, json.dumps(spec)):
                    f2 = model_project(kind, f, spec)
                    want = model_rep(kind, f, spec)
                    ok, got = cx.run("convert", lambda: impl_convert(kind, obj, impl[to]))
                    if not ok:
                        continue
                    if not cx.same("coefficients", np.asarray(got["data"]).reshape(-1), want.reshape(-1)):
                        continue
                    if complete[to]:
                        cx.holds(
                            "norm kept",
                            abs(np.linalg.norm(got["data"]) - np.linalg.norm(f)) < 1e-8 * max(1.0, norm),
                            f"norm {np.linalg.norm(got['data'])} != {np.linalg.norm(f)}",
                        )
                key = (to, canon(f2))
                if key in seen:
                    cx.trace()
                    continue
                seen.add(key)
                cx.state(cfg["alphabet"], to, f2)
                nxt.append((to, f2, got, (*path, json.dumps(spec))))
        frontier = nxt
        if not frontier:
            cx.note("closed")
            break
    else:
        cx.note("depth bound reached")
        cx.trace(len(frontier))


def roots_seq(tier: str):
    for name in ("complete:3", "mixed:4", "stacked:complete", "stacked:mixed"):
        k = len(alphabet(name))
        for kind in ("vector", "operator"):
            for start in range(k):
                yield {"alphabet": name, "kind": kind, "start": start, "real": True,
                       "len": 3 if tier == "quick" else 4}


@PROP.family("sequences", roots_seq)
def sequences(cfg, cx: Cx) -> None:
    """Every sequence of the given length, without deduplication, aliasing watched.

    After a whole history, every object produced on the way must still hold the
    coefficients it was produced with (conversions share no storage that is written).
    """
    specs = alphabet(cfg["alphabet"])
    impl = [ref.build(s) for s in specs]
    kind = cfg["kind"]
    rep, fund = start_object(cfg, specs)

    def walk(obj, f, depth, kept):
        if depth == 0:
            cx.trace()
            for o, c in kept:
                if not np.array_equal(o["data"], c):
                    cx.fail("history altered", "an object made earlier in the history changed")
            return
        for to, spec in enumerate(specs):
            with cx.at(json.dumps(spec)):
                ok, got = cx.run("convert", lambda: impl_convert(kind, obj, impl[to]))
                if not ok:
                    continue
                cx.same("coefficients", np.asarray(got["data"]).reshape(-1),
                        model_rep(kind, f, spec).reshape(-1))
                f2 = model_project(kind, f, spec)
                cx.state(cfg["alphabet"], to, f2)
                walk(got, f2, depth - 1, [*kept, (got, np.array(got["data"]))])

    start = impl_start(kind, rep, impl[cfg["start"]])
    walk(start, fund, cfg["len"], [(start, rep.reshape(-1).copy())])
