"""C10: lists of states and probabilities address, combine and average the right members."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from mc.specs import small_axis_specs
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.probability_vector import probability_vector as pv
from surface_potential_analysis.state_vector import state_vector_list as sl
from surface_potential_analysis.state_vector import util as su
from surface_potential_analysis.state_vector.state_vector import (
    as_dual_vector,
    as_vector,
    calculate_normalization,
)

PROP = Property(
    "C10",
    rule="Every shape of list up to the bound, every member by flat and stacked index, every ordered "
    "subset of axes with every index in the other axes, every pair of basis descriptions.",
    assumptions=["list operations do not branch on the values of entries"],
)


def flat(x):
    return np.asarray(x).reshape(-1)


def ket(arr, a, b, axis):
    return np.moveaxis(np.tensordot(arr, ref.transfer(a, b), axes=([axis], [0])), -1, axis)


def fb(shape):
    return ref.build(["S", [["F", i] for i in shape]])


def bshape(b):
    return [int(i) for i in b.shape]


SHAPES = [(1,), (2,), (3,), (2, 3), (3, 2), (1, 2), (2, 3, 2), (3, 1, 2), (2, 2, 2)]


def roots_list(tier: str):
    for shape in SHAPES if tier == "quick" else [*SHAPES, (4, 3), (3, 4, 2), (2, 3, 2, 2)]:
        for state in [["F", 1], ["FM", 3], ["S", [["F", 2], ["FM", 2]]]]:
            yield {"shape": list(shape), "state": state}


@PROP.family("members", roots_list)
def members(cfg, cx: Cx) -> None:
    shape, state = tuple(cfg["shape"]), cfg["state"]
    k, n = int(np.prod(shape)), ref.n_of(state)
    ib = ref.build(state)
    data = cdata((*shape, n), "members")
    d2 = data.reshape(k, n)
    lst = {"basis": TupleBasis(fb(shape), ib), "data": flat(data)}
    for i, idx in enumerate(itertools.product(*(range(s) for s in shape))):
        cx.state(shape, state, idx)
        for sgn in (0, 1, -1):
            at = tuple(j + sgn * s for j, s in zip(idx, shape))
            cx.step("stacked index", lambda: flat(sl.get_state_vector(lst, at)["data"]), data[idx])
        cx.step("flat index", lambda: flat(sl.get_state_vector(lst, i)["data"]), d2[i])
        cx.step("negative index", lambda: flat(sl.get_state_vector(lst, i - k)["data"]), d2[i])
        cx.step("dual", lambda: flat(sl.get_state_dual_vector(lst, i)["data"]), d2[i].conj())
        cx.step("dual of vector", lambda: flat(as_dual_vector(sl.get_state_vector(lst, i))["data"]), d2[i].conj())
        cx.step("vector of dual", lambda: flat(as_vector(sl.get_state_dual_vector(lst, i))["data"]), d2[i])
        cx.step("norm", lambda: float(calculate_normalization(sl.get_state_dual_vector(lst, i))),
                float(np.sum(np.abs(d2[i]) ** 2)))
        cx.step("probability", lambda: flat(pv.from_state_vector(sl.get_state_vector(lst, i))["data"]), np.abs(d2[i]) ** 2)
        cx.step("probability flat", lambda: flat(pv.get_probability(pv.from_state_vector_list(lst), i)["data"]),
                np.abs(d2[i]) ** 2)
        cx.step("probability stacked", lambda: flat(pv.get_probability(pv.from_state_vector_list(lst), idx)["data"]),
                np.abs(d2[i]) ** 2)
        cx.step("probability size", lambda: [int(p["basis"].n) for p in (
            pv.get_probability(pv.from_state_vector_list(lst), i), pv.from_state_vector(sl.get_state_vector(lst, i)))], [n, n])
        cx.step("state size", lambda: int(sl.get_state_vector(lst, i)["basis"].n), n)
        cx.trace()
    cx.step("probability default", lambda: flat(pv.get_probability(pv.from_state_vector_list(lst))["data"]),
            np.abs(d2[0]) ** 2)
    cx.step("probabilities", lambda: flat(pv.from_state_vector_list(lst)["data"]), np.abs(flat(data)) ** 2)
    cx.step("iterate", lambda: [flat(s["data"]) for s in sl.state_vector_list_into_iter(lst)], list(d2))
    cx.step("collect", lambda: flat(sl.as_state_vector_list(sl.state_vector_list_into_iter(lst))["data"]), flat(data))
    cx.step("collect generator", lambda: [flat(x["data"]) for x in [sl.as_state_vector_list(
        sl.get_state_vector(lst, i) for i in reversed(range(k)))]], [flat(d2[::-1])])
    cx.step("collect size", lambda: bshape(sl.as_state_vector_list(sl.state_vector_list_into_iter(lst))["basis"]), [k, n])
    for j in range(k + 1):
        w = np.eye(k)[j] + 0j if j < k else cdata((k,), "w")
        cx.step("weighted", lambda: flat(sl.get_weighted_state_vector(
            lst, {"basis": lst["basis"][0], "data": w})["data"]), w @ d2)
    cx.same("unchanged", flat(lst["data"]), flat(data))


@PROP.family("cuts, sums and averages", roots_list)
def cuts(cfg, cx: Cx) -> None:
    shape, state = tuple(cfg["shape"]), cfg["state"]
    nd, n = len(shape), ref.n_of(state)
    ib = ref.build(state)
    data = cdata((*shape, n), "cuts")
    lst = {"basis": TupleBasis(fb(shape), ib), "data": flat(data)}
    prob = np.abs(data) ** 2
    pl = {"basis": TupleBasis(fb(shape), ib), "data": flat(prob)}
    for r in range(nd + 1):
        for axes in itertools.permutations(range(nd), r):
            others = [a for a in range(nd) if a not in axes]
            left = [shape[a] for a in others]
            kept = [shape[a] for a in axes]
            with cx.at(f"axes={axes}"):
                if axes:
                    for idx in [None, *itertools.product(*(range(s) for s in left))]:
                        at: list = [slice(None)] * nd
                        for a, i in zip(others, idx if idx is not None else (0,) * len(others)):
                            at[a] = i
                        cut = data[tuple(at)]
                        order = np.argsort(np.argsort(axes))  # sorted position of each axis asked for
                        cut = np.transpose(cut, (*order, len(axes)))
                        with cx.at(f"idx={idx}"):
                            for name, fn, x, w in (
                                ("state cut", sl.get_state_along_axis, lst, cut),
                                ("probability cut", pv.get_probability_along_axis, pl, np.abs(cut) ** 2),
                            ):
                                ok, got = cx.run(name, lambda: fn(x, axes, idx))
                                if ok:
                                    cx.same(name, flat(got["data"]), flat(w))
                                    cx.same(name + " basis", [bshape(got["basis"][0]), int(got["basis"][1].n)], [kept, n])
                for name, fn, x, d in (
                    ("state average", sl.average_state_vector, lst, data),
                    ("probability average", pv.average_probabilities, pl, prob),
                ):
                    ok, got = cx.run(name, lambda: fn(x, axes))
                    if ok:
                        cx.same(name, flat(got["data"]), flat(d.mean(axis=axes)) if axes else flat(d))
                        cx.same(name + " basis", [bshape(got["basis"][0]), int(got["basis"][1].n)], [left, n])
                    if r == 1:
                        w = np.abs(rdata((shape[axes[0]],), "w")) + 0.1
                        cx.step(name + " weighted", lambda: flat(fn(x, axes, weights=w)["data"]),
                                flat(np.tensordot(w / w.sum(), d, axes=(0, axes[0]))))
            cx.trace()
    cx.step("probability average all", lambda: flat(pv.average_probabilities(pl)["data"]),
            flat(prob.mean(axis=tuple(range(nd)))))
    cx.step("probability average all basis", lambda: int(pv.average_probabilities(pl)["basis"].n), n)
    cx.step("state average all", lambda: flat(sl.average_state_vector(lst)["data"]), flat(data.mean(axis=tuple(range(nd)))))
    # marginals: the roles of list and state swap
    m = np.abs(rdata((n, *shape), "marg"))
    ml = {"basis": TupleBasis(FundamentalBasis(n), fb(shape)), "data": flat(m)}
    one = {"basis": fb(shape), "data": flat(m[0])}
    for r in range(nd + 1):
        for axes in itertools.permutations(range(nd), r):
            left = [shape[a] for a in range(nd) if a not in axes]
            with cx.at(f"axes={axes}"):
                ok, got = cx.run("marginals", lambda: pv.sum_probabilities(ml, axes))
                if ok:
                    cx.same("marginals", flat(got["data"]), flat(m.sum(axis=tuple(1 + a for a in axes))))
                    cx.same("marginals basis", [int(got["basis"][0].n), bshape(got["basis"][1])], [n, left])
                ok, got = cx.run("marginal", lambda: pv.sum_probability(one, axes))
                if ok:
                    cx.same("marginal", flat(got["data"]), flat(m[0].sum(axis=axes)))
                    cx.same("marginal basis", bshape(got["basis"]), left)
                    rest = tuple(range(len(left)))
                    if rest:  # a marginal can be summed again
                        cx.step("total of marginal", lambda: flat(pv.sum_probability(got, rest)["data"]), [m[0].sum()])
            cx.trace()
    cx.step("totals", lambda: flat(pv.sum_probabilities(ml)["data"]), flat(m.sum(axis=tuple(range(1, nd + 1)))))
    cx.step("total", lambda: flat(pv.sum_probability(one, None)["data"]), [m[0].sum()])
    cx.same("unchanged", [flat(lst["data"]), flat(ml["data"])], [flat(data), flat(m)])


def roots_inner(tier: str):
    for n in (1, 2, 3, 4) if tier == "quick" else range(1, 8):
        for a in small_axis_specs(n):
            yield {"n": n, "a": a}


@PROP.family("inner products", roots_inner)
def inner(cfg, cx: Cx) -> None:
    n, a = cfg["n"], cfg["a"]
    ia, na = ref.build(a), ref.n_of(a)
    x = cdata((3, na), "x")
    e0 = cdata((3,), "e0")
    l0 = {"basis": TupleBasis(fb((3,)), ia), "data": flat(x), "eigenvalue": e0}
    for b in small_axis_specs(n):
        ib, nb = ref.build(b), ref.n_of(b)
        for k in (1, 2, 3):
            y = cdata((k, nb), "y")
            l1 = {"basis": TupleBasis(FundamentalBasis(k), ib), "data": flat(y)}
            want = x.conj() @ ket(y, b, a, 1).T
            with cx.at(json.dumps(b), f"k={k}"):
                ok, got = cx.run("table", lambda: sl.calculate_inner_products(l0, l1))
                if ok:
                    cx.same("table", flat(got["data"]), flat(want))
                    cx.same("table basis", bshape(got["basis"]), [3, k])
                if k == 3:
                    cx.step("elementwise", lambda: flat(sl.calculate_inner_products_elementwise(l0, l1)["data"]), np.diag(want))
            cx.trace()
    y, e1 = cdata((2, na), "y2"), cdata((2,), "e1")
    l1 = {"basis": TupleBasis(FundamentalBasis(2), ia), "data": flat(y), "eigenvalue": e1}
    cx.step("with eigenvalues", lambda: flat(sl.calculate_inner_products_eigenvalues(l0, l1)["data"]),
            flat((e0[:, None] * x).conj() @ (e1[:, None] * y).T))
    cx.step("basis states", lambda: flat(sl.get_basis_states(ia)["data"]), flat(np.eye(na)))
    ok, got = cx.run("basis states", lambda: sl.calculate_inner_products(sl.get_basis_states(ia), l0))
    if ok:
        cx.same("coefficients", flat(got["data"]), flat(x.T))
    for i in range(na):
        cx.step("point state", lambda: flat(su.get_single_point_state_vector_excact(ia, i)["data"]), np.eye(na)[i])
    cx.same("unchanged", flat(l0["data"]), flat(x))
