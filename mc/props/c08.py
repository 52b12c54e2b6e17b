"""C08: operator arithmetic on operators, diagonal operators and lists is matrix arithmetic."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from mc.specs import small_axis_specs
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import build as ob
from surface_potential_analysis.operator import conversion as oc
from surface_potential_analysis.operator import operations as oo
from surface_potential_analysis.operator import operator as op_
from surface_potential_analysis.operator import operator_list as ol

PROP = Property(
    "C08",
    rule="Every sequence of arithmetic operations on a register up to the depth bound, with every "
    "operand of a finite pool; every pair of leg descriptions for operations that change basis; every "
    "axis subset and index for selections.",
    assumptions=["arithmetic does not branch on the values of matrix entries"],
)


def flat(x):
    return np.asarray(x).reshape(-1)


def matrix(o) -> np.ndarray:
    return np.asarray(o["data"]).reshape(o["basis"].shape)


def ket(arr, a, b, axis):
    return np.moveaxis(np.tensordot(arr, ref.transfer(a, b), axes=([axis], [0])), -1, axis)


def bra(arr, a, b, axis):
    return np.moveaxis(np.tensordot(arr, ref.transfer(a, b).conj(), axes=([axis], [0])), -1, axis)


def mat_fn(m, fn):
    w, v = np.linalg.eig(m)
    return v @ np.diag(fn(w)) @ np.linalg.inv(v)


# -- expression histories ----------------------------------------------------------


def roots_expr(tier: str):
    depth = 3 if tier == "quick" else 4
    for n in (1, 2, 3):
        for spec in [["F", n], ["FM", n], ["X", "orth", n, ["F", n]]]:
            yield {"n": n, "spec": spec, "depth": depth if n > 1 else 2}
    yield {"n": 4, "spec": ["S", [["F", 2], ["FM", 2]]], "depth": 2}
    yield {"n": 6, "spec": ["S", [["FM", 2], ["F", 3]]], "depth": 2}


@PROP.family("expression histories", roots_expr)
def expressions(cfg, cx: Cx) -> None:
    n, spec = cfg["n"], cfg["spec"]
    b = ref.build(spec)
    bb = TupleBasis(b, b)
    ma, md = cdata((n, n), "A"), cdata((n,), "D")
    ml = cdata((3, n, n), "L")
    lst = {"basis": TupleBasis(FundamentalBasis(3), bb), "data": flat(ml)}
    dl = cdata((2, n), "DL")
    dlst = {"basis": TupleBasis(FundamentalBasis(2), bb), "data": flat(dl)}
    pool = {"A": ({"basis": bb, "data": flat(ma)}, ma)}
    for name, fn, want in [
        ("D", lambda: op_.as_operator({"basis": bb, "data": md}), np.diag(md)),
        ("L1", lambda: ol.select_operator(lst, 1), ml[1]),
        ("dL1", lambda: op_.as_operator(ol.select_diagonal_operator(dlst, 1)), np.diag(dl[1])),
        ("f(A)", lambda: op_.apply_function_to_operator(pool["A"][0], lambda w: w**2 - 1j), ma @ ma - 1j * np.eye(n)),
    ]:
        ok, got = cx.run("operand " + name, fn)
        if ok:
            if cx.same("operand " + name, matrix(got), want):
                pool[name] = (got, want)
    saved = {k: np.array(v[0]["data"]) for k, v in pool.items()}

    def moves(r, m):
        for name, (o, w) in pool.items():
            yield f"+{name}", lambda o=o: op_.add_operator(r, o), m + w
            yield f"-{name}", lambda o=o: op_.subtract_operator(r, o), m - w
            yield f"{name}-", lambda o=o: op_.subtract_operator(o, r), w - m
            yield f"*{name}", lambda o=o: op_.matmul_operator(r, o), m @ w
            yield f"{name}*", lambda o=o: op_.matmul_operator(o, r), w @ m
            yield f"[,{name}]", lambda o=o: oo.get_commutator(r, o), m @ w - w @ m
            yield f"{{,{name}}}", lambda o=o: oo.get_anti_commutator(r, o), m @ w + w @ m
        yield "scale", lambda: oo.scale_operator(0.5 - 2j, r), (0.5 - 2j) * m
        yield "diagonal", lambda: op_.as_operator(op_.as_diagonal_operator(r)), np.diag(np.diag(m))
        w, v = np.linalg.eig(m)
        if np.linalg.cond(v) < 1e3:
            yield "f", lambda: op_.apply_function_to_operator(r, lambda e: e**2 + 2 * e), m @ m + 2 * m

    start = pool["A"]
    frontier = [((), *start)]
    cx.state(start[1])
    for d in range(cfg["depth"]):
        nxt = []
        for path, r, m in frontier:
            # the elements of a deep register are large: bring the model to unit scale
            before = np.array(r["data"])
            for name, fn, want in moves(r, m):
                with cx.at(*path, name):
                    ok, got = cx.run("operation", fn)
                    if not ok:
                        continue
                    mm = matrix(got)
                    if not cx.same("operation", mm, want, 1e-7):
                        continue
                    cx.holds("basis kept", list(got["basis"].shape) == [n, n])
                if cx.state(want) and d + 1 < cfg["depth"] and np.max(np.abs(want), initial=0) < 1e4:
                    nxt.append(((*path, name), got, want))
                else:
                    cx.trace()
            cx.holds("register unchanged", np.array_equal(before, r["data"]))
        frontier = nxt
    for k, v in pool.items():
        cx.holds("operand unchanged", np.array_equal(saved[k], v[0]["data"]), k)


# -- lists, with a change of basis inside -------------------------------------------


def roots_legs(tier: str):
    for n in (2, 3) if tier == "quick" else (1, 2, 3, 4):
        specs = small_axis_specs(n)
        for a in specs:
            for b in specs:
                yield {"n": n, "a": a, "b": b}


@PROP.family("lists", roots_legs)
def lists(cfg, cx: Cx) -> None:
    n, a, b = cfg["n"], cfg["a"], cfg["b"]
    ia, ib = ref.build(a), ref.build(b)
    na, nb = ref.n_of(a), ref.n_of(b)
    specs = small_axis_specs(n)
    fl = FundamentalBasis(3)
    for c in specs:
        for d in (["F", n], ["T", max(1, n - 1), n]):
            ic, id_ = ref.build(c), ref.build(d)
            nc, nd = ref.n_of(c), ref.n_of(d)
            lhs = cdata((3, na, nb), "ll")
            rhs = cdata((nc, nd), "rr")
            lhs_o = {"basis": TupleBasis(fl, TupleBasis(ia, ib)), "data": flat(lhs)}
            rhs_o = {"basis": TupleBasis(ic, id_), "data": flat(rhs)}
            with cx.at(json.dumps(c), json.dumps(d)):
                cx.step("list . operator", lambda: flat(oo.matmul_list_operator(lhs_o, rhs_o)["data"]),
                        flat(lhs @ ket(rhs, c, b, 0)))
                cx.step("list . operator basis", lambda: shape2(oo.matmul_list_operator(lhs_o, rhs_o)),
                        [3, [na, nd]])
                left, right = cdata((na, nb), "lr"), cdata((3, nc, nd), "lrr")
                left_o = {"basis": TupleBasis(ia, ib), "data": flat(left)}
                right_o = {"basis": TupleBasis(fl, TupleBasis(ic, id_)), "data": flat(right)}
                cx.step("operator . list", lambda: flat(oo.matmul_operator_list(left_o, right_o)["data"]),
                        flat(left @ ket(right, c, b, 1)))
                cx.step("operator . list basis", lambda: shape2(oo.matmul_operator_list(left_o, right_o)),
                        [3, [na, nd]])
                conv = bra(ket(right, c, a, 1), d, b, 2)
                cx.step("list - list", lambda: flat(oo.subtract_list_list(lhs_o, right_o)["data"]), flat(lhs - conv))
                cx.step("list + list", lambda: flat(oo.add_list_list(lhs_o, right_o)["data"]), flat(lhs + conv))
                if na == nb:
                    diag = cdata((3, na), "dg")
                    diag_o = {"basis": TupleBasis(fl, TupleBasis(ia, ib)), "data": flat(diag)}
                    cx.step("diagonal list . operator",
                            lambda: flat(oo.matmul_diagonal_list_operator(diag_o, rhs_o)["data"]),
                            flat(diag[:, :, None] * ket(rhs, c, b, 0)[None]))
                    cx.step("diagonal list . operator basis",
                            lambda: shape2(oo.matmul_diagonal_list_operator(diag_o, rhs_o)), [3, [na, nd]])
                    want = bra(rhs, d, a, 1)[None] * diag[:, None, :]
                    cx.step("operator . diagonal list",
                            lambda: flat(oo.matmul_operator_diagonal_list(rhs_o, diag_o)["data"]), flat(want))
                    cx.step("operator . diagonal list basis",
                            lambda: shape2(oo.matmul_operator_diagonal_list(rhs_o, diag_o)), [3, [nc, nb]])
            cx.trace()
        # commutators need every basis to be complete
        if all(ref.n_of(s) == n for s in (a, b, c)):
            h = cdata((n, n), "hh")
            h_o = {"basis": TupleBasis(ic := ref.build(c), ic), "data": flat(h)}
            lst = cdata((2, n, n), "cl")
            lst_o = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(ia, ib)), "data": flat(lst)}
            inc = bra(ket(lst, a, c, 1), b, c, 2)
            dg = cdata((2, n), "cd")
            dg_o = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(ia, ib)), "data": flat(dg)}
            full = np.array([np.diag(x) for x in dg])
            inf = bra(ket(full, a, c, 1), b, c, 2)
            wantd = bra(h @ inf - inf @ h, c, b, 2)
            with cx.at(json.dumps(c)):
                cx.step("commutator list", lambda: flat(oo.get_commutator_operator_list(h_o, lst_o)["data"]),
                        flat(h @ inc - inc @ h))
                cx.step("commutator diagonal list",
                        lambda: flat(oo.get_commutator_diagonal_operator_list(h_o, dg_o)["data"]), flat(wantd))
            cx.trace()


def shape2(o):
    return [int(o["basis"][0].n), [int(i) for i in o["basis"][1].shape]]


def roots_apply(tier: str):
    for n in (1, 2, 3, 4) if tier == "quick" else range(1, 7):
        for a in small_axis_specs(n):
            yield {"n": n, "a": a}


@PROP.family("acting on states", roots_apply)
def acting(cfg, cx: Cx) -> None:
    n, a = cfg["n"], cfg["a"]
    ia, na = ref.build(a), ref.n_of(a)
    for b in small_axis_specs(n):
        ib, nb = ref.build(b), ref.n_of(b)
        m = cdata((na, nb), "m")
        o = {"basis": TupleBasis(ia, ib), "data": flat(m)}
        for c in small_axis_specs(n):
            ic, nc = ref.build(c), ref.n_of(c)
            st = cdata((3, nc), "st")
            out = ket(st, c, b, 1) @ m.T
            norm = np.sqrt(np.sum(np.abs(out) ** 2, axis=1))
            if np.min(norm) < 1e-9:  # the state is in the kernel: no direction is left
                cx.note("states mapped to zero")
                continue
            with cx.at(json.dumps(b), json.dumps(c)):
                ok, got = cx.run("states", lambda: oo.apply_operator_to_states(
                    o, {"basis": TupleBasis(FundamentalBasis(3), ic), "data": flat(st)}))
                if ok:
                    cx.same("norms", got["eigenvalue"], norm)
                    cx.same("states", flat(got["data"]), flat(out / norm[:, None]))
                    cx.same("basis", [int(i) for i in got["basis"].shape], [3, na])
                ok, got = cx.run("state", lambda: op_.apply_operator_to_state(o, {"basis": ic, "data": st[1]}))
                if ok:
                    cx.same("norm", got["eigenvalue"], norm[1])
                    cx.same("state", flat(got["data"]), out[1] / norm[1])
                    cx.same("basis", int(got["basis"].n), na)
                cx.state(a, b, c)
            cx.trace()


# -- taking lists apart --------------------------------------------------------------


def roots_sel(tier: str):
    for shape in [(2,), (3,), (2, 3), (3, 1), (2, 3, 2)]:
        for k in (1, 2, 3):
            yield {"shape": list(shape), "k": k}


@PROP.family("selection", roots_sel)
def selection(cfg, cx: Cx) -> None:
    shape, k = tuple(cfg["shape"]), cfg["k"]
    n = int(np.prod(shape))
    sb = ref.build(["S", [["F", i] for i in shape]])
    m = cdata((k, n, n), "sel")
    lst = {"basis": TupleBasis(FundamentalBasis(k), TupleBasis(sb, sb)), "data": flat(m)}
    dg = cdata((k, n), "seld")
    dlst = {"basis": TupleBasis(FundamentalBasis(k), TupleBasis(sb, sb)), "data": flat(dg)}
    # an operator between different spaces keeps its shape
    r = cdata((k, 2, n), "rect")
    rb = FundamentalBasis(2)
    rlst = {"basis": TupleBasis(FundamentalBasis(k), TupleBasis(rb, sb)), "data": flat(r)}
    for i in range(k):
        cx.step("select", lambda: matrix(op_at(ol.select_operator, lst, i, cx, m[i])), m[i])
        cx.step("select diagonal", lambda: ol.select_diagonal_operator(dlst, i)["data"], dg[i])
        cx.step("as diagonal", lambda: ol.as_diagonal_operator(dlst, i)["data"], dg[i])
        cx.step("diagonal part", lambda: op_.as_diagonal_operator(ol.select_operator(lst, i))["data"], np.diag(m[i]))
        cx.step("eigenvalue", lambda: complex(op_.get_eigenvalue(ol.select_diagonal_operator(dlst, i), n - 1)), dg[i, n - 1])
        cx.state(shape, k, i)
    cx.step("full", lambda: flat(ol.diagonal_operator_list_as_full(dlst)["data"]), flat([np.diag(d) for d in dg]))
    cx.step("diagonal of list", lambda: flat(ol.operator_list_as_diagonal(lst)["data"]), flat([np.diag(d) for d in m]))
    cx.step("there and back", lambda: flat(ol.operator_list_as_diagonal(ol.diagonal_operator_list_as_full(dlst))["data"]),
            flat(dg))
    for name, x, d, dims in (("square", lst, m, [k, [n, n]]), ("rectangular", rlst, r, [k, [2, n]])):
        cx.step("iterate " + name, lambda: [matrix(o) for o in ol.operator_list_into_iter(x)], list(d))
        cx.step("collect " + name, lambda: flat(ol.operator_list_from_iter(
            iter(list(ol.operator_list_into_iter(x))))["data"]), flat(d))
        cx.step("collect basis " + name, lambda: shape2(ol.operator_list_from_iter(ol.operator_list_into_iter(x))), dims)
        cx.step("collect selected " + name, lambda: flat(ol.operator_list_from_iter(
            ol.select_operator(x, j) for j in reversed(range(k)))["data"]), flat(d[::-1]))
        cx.step("scale " + name, lambda: flat(oo.scale_operator_list(2 - 1j, x)["data"]), (2 - 1j) * flat(d))
    ok, got = cx.run("as flat", lambda: ol.as_flat_operator(dlst))
    if ok:
        cx.same("as flat", flat(got["data"]), flat(dg))
        cx.same("as flat size", [int(got["basis"][0].n), int(got["basis"][1].n)], [k * n, k * n])
    cx.trace()
    # sums and averages over axes
    d3 = dg[0].reshape(shape)
    one = {"basis": TupleBasis(sb, sb), "data": dg[0]}
    for r_ in range(len(shape) + 1):
        for axes in itertools.permutations(range(len(shape)), r_):
            left = [s for i, s in enumerate(shape) if i not in axes]
            with cx.at(f"axes={axes}"):
                ok, got = cx.run("sum", lambda: op_.sum_diagonal_operator_over_axes(one, axes))
                if ok:
                    cx.same("sum", flat(got["data"]), flat(d3.sum(axis=axes)))
                    cx.same("sum basis", [[int(i) for i in b.shape] for b in got["basis"]], [left, left])
                ok, got = cx.run("average", lambda: op_.average_eigenvalues(one, axes))
                if ok:
                    cx.same("average", flat(got["data"]), flat(d3.mean(axis=axes)) if axes else flat(d3))
                    cx.same("average basis", [[int(i) for i in b.shape] for b in got["basis"]], [left, left])
                ok, got = cx.run("average list", lambda: op_.average_eigenvalues_list(dlst, axes))
                if ok:
                    dd = dg.reshape(k, *shape)
                    cx.same("average list", flat(got["data"]),
                            flat(dd.mean(axis=tuple(1 + i for i in axes))) if axes else flat(dd))
                    cx.same("average list basis", [int(got["basis"][0].n), [int(i) for i in got["basis"][1][0].shape]],
                            [k, left])
                if len(axes) == 1:
                    w = np.abs(rdata((shape[axes[0]],), "w")) + 0.1
                    ww = np.moveaxis(np.broadcast_to(w, [*left, len(w)]), -1, axes[0])
                    cx.step("weighted average", lambda: flat(op_.average_eigenvalues(one, axes, weights=w)["data"]),
                            flat((d3 * ww).sum(axis=axes) / w.sum()))
                    cx.step("weighted average list",
                            lambda: flat(op_.average_eigenvalues_list(dlst, axes, weights=w)["data"]),
                            flat((dg.reshape(k, *shape) * ww).sum(axis=1 + axes[0]) / w.sum()))
            cx.trace()
    cx.step("average of all", lambda: flat(op_.average_eigenvalues(one)["data"]), [d3.mean()])
    cx.step("average list of all", lambda: flat(op_.average_eigenvalues_list(dlst)["data"]), dg.mean(axis=1))
    cx.same("inputs unchanged", [flat(lst["data"]), flat(dlst["data"])], [flat(m), flat(dg)])


def op_at(fn, lst, i, cx, want):
    got = fn(lst, i)
    cx.same("basis of selected", [int(j) for j in got["basis"].shape], list(want.shape))
    return got


# -- displacement operators -----------------------------------------------------------


def roots_disp(tier: str):
    for n in range(1, 9):
        for length in (1.0, 2.5):
            yield {"shape": [n], "len": [length]}
    for shape in itertools.product((1, 2, 3, 4), repeat=2):
        yield {"shape": list(shape), "len": [1.0, 2.5]}
    for shape in [(2, 3, 2), (3, 1, 4)]:
        yield {"shape": list(shape), "len": [1.0, 2.5, 0.7]}


def wrapped(d, length):
    """Distances in [-L/2, L/2], equal to d modulo L; the two ends are the same point."""
    return d - length * np.round(d / length)


def close_mod(cx, what, got, d, length):
    got = np.asarray(got)
    if not cx.holds(what + " shape", got.shape == d.shape, f"{got.shape} != {d.shape}"):
        return
    cx.holds(what + " real", np.allclose(np.imag(got), 0))
    got = np.real(got)
    cx.same(what + " class", wrapped(got - d, length), np.zeros(d.shape))
    cx.holds(what + " window", np.all(np.abs(got) <= length / 2 * (1 + 1e-9)), f"{got}")


@PROP.family("displacements", roots_disp)
def displacements(cfg, cx: Cx) -> None:
    shape, ln = tuple(cfg["shape"]), cfg["len"]
    nd = len(shape)
    dx = np.diag(ln)
    spec = ["S", [["FP", d.tolist(), n] for d, n in zip(dx, shape)]]
    basis = ref.build(spec)
    pts = list(itertools.product(*(range(n) for n in shape)))
    nx = np.array(pts).T
    xs = np.array([nx[i] * ln[i] / shape[i] for i in range(nd)])
    ok, got = cx.run("nx stacked", lambda: ob.get_displacements_matrix_nx_stacked(basis))
    if ok:
        for i in range(nd):
            d = nx[i][:, None] - nx[i][None, :]
            n = shape[i]
            w = (d + n // 2) % n - n // 2
            cx.same("nx stacked", np.asarray(got[i]), w)
            cx.state(shape, i, w)
    for off in itertools.product((0.0, 0.3, -1.1), repeat=nd):
        with cx.at(f"origin={off}"):
            ok, got = cx.run("x stacked", lambda: ob.get_displacements_x_stacked(basis, off))
            if ok:
                cx.same("count", len(got), nd)
                for i in range(nd):
                    close_mod(cx, "x stacked", flat(got[i]["data"]), xs[i] - off[i], ln[i])
            ok, got = cx.run("x matrix stacked", lambda: ob.get_displacements_matrix_x_stacked(basis, off))
            total = 0.0
            for i in range(nd):
                d = xs[i][:, None] - xs[i][None, :] - off[i]
                total = total + wrapped(d, ln[i]) ** 2
                if ok:
                    close_mod(cx, "x matrix stacked", np.asarray(got["data"]).reshape(got["basis"].shape)[i],
                              d.reshape(-1), ln[i])
            cx.step("total distance", lambda: flat(ob.get_total_displacements_matrix_x_stacked(basis, off)["data"]),
                    flat(np.sqrt(total)))
        cx.trace()
    base = sum(wrapped(xs[i][:, None] - xs[i][None, :], ln[i]) ** 2 for i in range(nd))
    cx.step("total distance default", lambda: flat(ob.get_total_displacements_matrix_x_stacked(basis)["data"]),
            flat(np.sqrt(base)))
    if nd == 1:
        n, length = shape[0], ln[0]
        b1 = ref.build(spec[1][0])
        d = np.arange(n)[:, None] - np.arange(n)[None, :]
        cx.step("nx", lambda: ob.get_displacements_matrix_nx(b1), (d + n // 2) % n - n // 2)
        x = np.arange(n) * length / n
        for off in (0.0, 0.3, -1.1):
            with cx.at(f"origin={off}"):
                ok, got = cx.run("x", lambda: ob.get_displacements_x(b1, off))
                if ok:
                    close_mod(cx, "x", flat(got["data"]), x - off, length)
                ok, got = cx.run("x matrix", lambda: ob.get_displacements_matrix_x(b1, off))
                if ok:
                    close_mod(cx, "x matrix", flat(got["data"]), flat(x[:, None] - x[None, :] - off), length)
                    cx.same("x matrix basis", [int(i) for i in got["basis"].shape], [n, n])
            cx.trace()
        # the same axis embedded in a space of more dimensions
        for direction in ([0.0, 1.0], [0.6, -0.8], [0.0, 0.0, 1.0], [2 / 3, -1 / 3, 2 / 3]):
            b2 = ref.build(["FP", [length * c for c in direction], n])
            for off in (0.0, 0.3, -1.1):
                with cx.at(f"direction={direction}", f"origin={off}"):
                    ok, got = cx.run("x embedded", lambda: ob.get_displacements_x(b2, off))
                    if ok:
                        close_mod(cx, "x embedded", flat(got["data"]), x - off, length)
                    ok, got = cx.run("x matrix embedded", lambda: ob.get_displacements_matrix_x(b2, off))
                    if ok:
                        close_mod(cx, "x matrix embedded", flat(got["data"]), flat(x[:, None] - x[None, :] - off), length)


# -- displacements in lattices whose axes are not orthogonal ----------------------------

def roots_skew(tier: str):
    for dim, lats in ref.SKEWED.items():
        top = {2: 5, 3: 3}[dim] + (tier == "thorough")
        for lat in lats:
            for shape in itertools.product(range(1, top + 1), repeat=dim):
                yield {"dim": dim, "lat": lat, "shape": list(shape)}


@PROP.family("displacements in skewed lattices", roots_skew)
def skewed(cfg, cx: Cx) -> None:
    """Each displacement is, up to a lattice vector, the one between the points, and none which is equivalent is shorter."""
    dim, shape = cfg["dim"], cfg["shape"]
    dx = np.array(ref.SKEWED[dim][cfg["lat"]], dtype=float)
    points = np.array(list(itertools.product(*(range(n) for n in shape)))).T
    xs = np.tensordot(dx.T, points / np.array(shape)[:, None], axes=(1, 0))
    specs = [["S", [[k, d.tolist(), n] for k, d, n in zip(kinds, dx, shape)]] for kinds in (["FP"] * dim, ["FMP"] * dim)]

    def judge(what, got, d):
        ok = cx.holds(what + " shape", got.shape == d.shape, f"{got.shape} != {d.shape}")
        if not ok:
            return
        cx.holds(what + " real", np.allclose(np.imag(got), 0))
        got = np.real(got)
        f = np.tensordot(np.linalg.inv(dx.T), got - d, axes=(1, 0))
        cx.same(what + " equivalent", f - np.round(f), np.zeros(f.shape))
        cx.same(what + " shortest", np.sqrt(np.sum(got**2, axis=0)), ref.shortest(d, dx))

    for spec in specs:
        basis = ref.build(spec)
        for off in [(0.0,) * dim, (0.3, -1.1, 0.45)[:dim], (-2.7, 0.0, 5.0)[:dim]]:
            with cx.at(json.dumps(spec), f"origin={off}"):
                o = np.array(off)
                d1 = xs - o[:, None]
                d2 = xs[:, :, None] - xs[:, None, :] - o[:, None, None]
                ok, got = cx.run("x stacked", lambda: ob.get_displacements_x_stacked(basis, off))
                if ok and cx.same("count", len(got), dim):
                    judge("x stacked", np.array([flat(g["data"]) for g in got]), d1)
                ok, got = cx.run("x matrix stacked", lambda: ob.get_displacements_matrix_x_stacked(basis, off))
                if ok:
                    judge("x matrix stacked", np.asarray(got["data"]).reshape(-1, *d2.shape[1:]), d2)
                cx.step("total distance", lambda: flat(ob.get_total_displacements_matrix_x_stacked(basis, off)["data"]),
                        flat(ref.shortest(d2, dx)))
                cx.state(cfg["lat"], shape, off)
            cx.trace()
        cx.step("total distance default", lambda: flat(ob.get_total_displacements_matrix_x_stacked(basis)["data"]),
                flat(ref.shortest(xs[:, :, None] - xs[:, None, :], dx)))
