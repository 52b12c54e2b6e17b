"""C03: every kind of object transforms covariantly, each leg with its own basis."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from mc.specs import DX1, small_axis_specs
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.basis_like import (
    convert_dual_vector,
    convert_matrix,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import conversion as oc
from surface_potential_analysis.overlap import conversion as ovc
from surface_potential_analysis.potential import conversion as pc
from surface_potential_analysis.probability_vector import conversion as prc
from surface_potential_analysis.state_vector import conversion as svc
from surface_potential_analysis.state_vector.state_vector import (
    as_dual_vector,
    as_vector,
    calculate_inner_product,
)
from surface_potential_analysis.wavepacket import conversion as wc

PROP = Property(
    "C03",
    rule="For every pair of start and target descriptions of each leg, every kind of object is "
    "converted and compared with the model transformation of each of its legs; scalars formed "
    "before and after a change among complete bases are compared too.",
    assumptions=["conversions do not branch on the values of vector entries"],
)


def ket(arr, a, b, axis):
    return np.moveaxis(np.tensordot(arr, ref.transfer(a, b), axes=([axis], [0])), -1, axis)


def bra(arr, a, b, axis):
    return np.moveaxis(np.tensordot(arr, ref.transfer(a, b).conj(), axes=([axis], [0])), -1, axis)


def dense(n, m, key):
    """A spanning set of matrices would be n*m large; a generic one plus all units below."""
    return cdata((n, m), "c03", key)


def complete(s):
    return ref.n_of(s) == ref.fund_n(s)


def flat(x):
    return np.asarray(x).reshape(-1)


def roots_matrix(tier: str):
    sizes = [(2, 2), (3, 2), (3, 3), (4, 3), (4, 4)] if tier == "quick" else [
        (1, 2), (2, 2), (3, 2), (2, 4), (3, 3), (4, 3), (4, 4), (5, 4), (6, 6)]
    for n0, n1 in sizes:
        for a in small_axis_specs(n0):
            for b in small_axis_specs(n1):
                yield {"N": [n0, n1], "a": a, "b": b}


@PROP.family("two legs", roots_matrix)
def two_legs(cfg, cx: Cx) -> None:
    (n0, n1), a, b = cfg["N"], cfg["a"], cfg["b"]
    ia, ib = ref.build(a), ref.build(b)
    na, nb = ref.n_of(a), ref.n_of(b)
    m = dense(na, nb, "m")
    op = {"basis": TupleBasis(ia, ib), "data": m.reshape(-1)}
    lst = cdata((3, na, nb), "c03l")
    ops = {"basis": TupleBasis(FundamentalBasis(3), TupleBasis(ia, ib)), "data": lst.reshape(-1)}
    ket_in = cdata((ref.fund_n(b),), "ket")
    bra_in = cdata((ref.fund_n(a),), "bra")
    for a2, b2 in itertools.product(small_axis_specs(n0), small_axis_specs(n1)):
        ia2, ib2 = ref.build(a2), ref.build(b2)
        with cx.at(json.dumps(a2), json.dumps(b2)):
            want = bra(ket(m, a, a2, 0), b, b2, 1)
            cx.step("matrix", lambda: convert_matrix(m, ia, ia2, ib, ib2), want)
            cx.step("matrix axes(1,0)",
                    lambda: convert_matrix(m.T, ia, ia2, ib, ib2, axes=(1, 0)), want.T)
            got = cx.step("operator",
                    lambda: flat(oc.convert_operator_to_basis(op, TupleBasis(ia2, ib2))["data"]), flat(want))
            cx.step("operator basis",
                    lambda: list(oc.convert_operator_to_basis(op, TupleBasis(ia2, ib2))["basis"].shape),
                    [ref.n_of(a2), ref.n_of(b2)])
            cx.step("operator list",
                    lambda: flat(oc.convert_operator_list_to_basis(ops, TupleBasis(ia2, ib2))["data"]),
                    flat(bra(ket(lst, a, a2, 1), b, b2, 2)))
            if complete(a) and complete(b) and complete(a2) and complete(b2) and got is not None:
                # a matrix element does not depend on the bases it is computed in
                before = (ref.states(a).conj() @ bra_in).conj() @ m @ (ref.states(b).conj() @ ket_in)
                after = (ref.states(a2).conj() @ bra_in).conj() @ np.asarray(got).reshape(want.shape) @ (
                    ref.states(b2).conj() @ ket_in)
                cx.same("matrix element", after, before)
        cx.trace()


def roots_diag(tier: str):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        for a in small_axis_specs(n):
            yield {"N": n, "a": a}


@PROP.family("one leg", roots_diag)
def one_leg(cfg, cx: Cx) -> None:
    n, a = cfg["N"], cfg["a"]
    ia = ref.build(a)
    na = ref.n_of(a)
    d = cdata((na,), "d")
    dl = cdata((2, na), "dl")
    diag = {"basis": TupleBasis(ia, ia), "data": d}
    diagl = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(ia, ia)), "data": dl.reshape(-1)}
    units = np.concatenate([np.eye(na), 1j * np.eye(na), cdata((1, na), "s")])
    prob = np.abs(rdata((3, na), "p"))
    for a2 in small_axis_specs(n):
        i2 = ref.build(a2)
        with cx.at(json.dumps(a2)):
            cx.step("dual vector", lambda: convert_dual_vector(units, ia, i2), bra(units, a, a2, 1))
            cx.step("dual vector axis", lambda: convert_dual_vector(units.T, ia, i2, 0),
                    bra(units, a, a2, 1).T)
            for i, row in enumerate(units):
                v = {"basis": ia, "data": row}
                cx.step("state", lambda: flat(svc.convert_state_vector_to_basis(v, i2)["data"]),
                        ket(row, a, a2, 0))
                cx.step("dual", lambda: flat(svc.convert_state_dual_vector_to_basis(v, i2)["data"]),
                        bra(row, a, a2, 0))
                cx.step("dual of", lambda: flat(svc.convert_state_dual_vector_to_basis(
                    as_dual_vector(v), i2)["data"]), ket(row, a, a2, 0).conj())
                cx.step("vector of dual", lambda: flat(svc.convert_state_vector_to_basis(
                    as_vector(as_dual_vector(v)), i2)["data"]), ket(row, a, a2, 0))
            vl = {"basis": TupleBasis(FundamentalBasis(len(units)), ia), "data": flat(units)}
            cx.step("state list", lambda: flat(svc.convert_state_vector_list_to_basis(vl, i2)["data"]),
                    flat(ket(units, a, a2, 1)))
            for a3 in small_axis_specs(n):
                i3 = ref.build(a3)
                tb = TupleBasis(i2, i3)
                cx.step("diagonal operator", lambda: flat(oc.convert_diagonal_operator_to_basis(diag, tb)["data"]),
                        flat(bra(ket(np.diag(d), a, a2, 0), a, a3, 1)))
                full = np.array([np.diag(x) for x in dl])
                cx.step("diagonal operator list",
                        lambda: flat(oc.convert_diagonal_operator_list_to_basis(diagl, tb)["data"]),
                        flat(bra(ket(full, a, a2, 1), a, a3, 2)))
            pv = {"basis": ia, "data": prob[0]}
            cx.step("probability", lambda: flat(prc.convert_probability_vector_to_basis(pv, i2)["data"]),
                    ket(prob[0], a, a2, 0))
            pl = {"basis": TupleBasis(FundamentalBasis(3), ia), "data": flat(prob)}
            cx.step("probability list",
                    lambda: flat(prc.convert_probability_vector_list_to_basis(pl, i2)["data"]),
                    flat(ket(prob, a, a2, 1)))
            # the inner product does not depend on the basis both states are held in
            if complete(a) and complete(a2):
                v0, v1 = cdata((na,), "ip0"), cdata((na,), "ip1")
                cx.step("inner product", lambda: calculate_inner_product(
                    svc.convert_state_vector_to_basis({"basis": ia, "data": v0}, i2),
                    svc.convert_state_dual_vector_to_basis({"basis": ia, "data": v1.conj()}, i2)),
                    np.vdot(v1, v0))
        cx.trace()


def stacked(dim: int, lat: str, kinds: str):
    dx = ref.LATTICES[dim][lat]
    ns = (3, 2, 2)
    out = []
    for i, k in enumerate(kinds):
        n = ns[i]
        out.append({
            "p": ["FP", dx[i], n], "m": ["FMP", dx[i], n], "t": ["TP", dx[i], n - 1, n],
            "l": ["MP", dx[i], n - 1, n], "e": ["EMP", dx[i], 1, n, 1],
        }[k])
    return ["S", out]


def roots_volume(tier: str):
    for dim, lats in ref.LATTICES.items():
        for lat in lats:
            for kinds in itertools.product("pmtle", repeat=dim):
                if dim == 3 and lat != "tri" and tier == "quick":
                    continue
                yield {"dim": dim, "lat": lat, "kinds": "".join(kinds)}


@PROP.family("position and momentum forms", roots_volume)
def volume(cfg, cx: Cx) -> None:
    spec = stacked(cfg["dim"], cfg["lat"], cfg["kinds"])
    basis = ref.build(spec)
    n = ref.n_of(spec)
    lead = TupleBasis(*(FundamentalBasis(k) for k in (2, 1, 3)[: cfg["dim"]]))
    dx = [ref.dx_of(s).tolist() for s in spec[1]]
    pos = ["S", [["FP", d, ref.fund_n(s)] for d, s in zip(dx, spec[1])]]
    mom = ["S", [["FMP", d, ref.fund_n(s)] for d, s in zip(dx, spec[1])]]
    v = cdata((n,), "v")
    lst = cdata((lead.n, n), "w")
    sv = {"basis": basis, "data": v}
    wp = {"basis": TupleBasis(lead, basis), "data": flat(lst)}
    eig = rdata((2, lead.n), "e")
    lst2 = cdata((2, lead.n, n), "w2")
    wpe = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), lead), basis), "data": flat(lst2),
           "eigenvalue": flat(eig)}
    for name, fn, tgt, model, data in [
        ("state position", svc.convert_state_vector_to_position_basis, pos, ket, v),
        ("state momentum", svc.convert_state_vector_to_momentum_basis, mom, ket, v),
        ("dual position", svc.convert_state_dual_vector_to_position_basis, pos, bra, v),
        ("dual momentum", svc.convert_state_dual_vector_to_momentum_basis, mom, bra, v),
        ("potential position", pc.convert_potential_to_position_basis, pos, ket, v),
        ("probability position", prc.convert_probability_vector_to_position_basis, pos, ket, v),
        ("probability momentum", prc.convert_probability_vector_to_momentum_basis, mom, ket, v),
    ]:
        with cx.at(name):
            ok, got = cx.run("convert", lambda: fn(sv))
            if ok:
                cx.same("data", flat(got["data"]), model(data, spec, tgt, 0))
                cx.same("lengths", got["basis"].delta_x_stacked, ref.dx_of(spec))
                cx.same("shape", list(got["basis"].shape), list(ref.fund_shape(spec)))
            cx.trace()
    for tgt in (pos, mom):
        itgt = ref.build(tgt)
        cx.step("potential", lambda: flat(pc.convert_potential_to_basis(sv, itgt)["data"]),
                ket(v, spec, tgt, 0))
        cx.step("wavepacket", lambda: flat(wc.convert_wavepacket_to_basis(wp, basis=itgt)["data"]),
                flat(ket(lst, spec, tgt, 1)))
        lspec = ["S", [["F", k] for k in (2, 1, 3)[: cfg["dim"]]]]
        for l2 in (["S", [["FM", k] for k in (2, 1, 3)[: cfg["dim"]]]],
                   ["S", [["X", "orth", k, ["F", k]] for k in (2, 1, 3)[: cfg["dim"]]]]):
            il2 = ref.build(l2)
            cx.step("wavepacket both", lambda: flat(wc.convert_wavepacket_to_basis(
                wp, list_basis=il2, basis=itgt)["data"]), flat(ket(ket(lst, spec, tgt, 1), lspec, l2, 0)))
            cx.step("wavepacket list", lambda: flat(wc.convert_wavepacket_to_basis(
                wp, list_basis=il2)["data"]), flat(ket(lst, lspec, l2, 0)))
            ok, got = cx.run("with eigenvalues", lambda: wc.convert_wavepacket_with_eigenvalues_to_basis(
                wpe, list_basis=il2, basis=itgt))
            if ok:
                cx.same("eigenvalue list data", flat(got["data"]),
                        flat(ket(ket(lst2, spec, tgt, 2), lspec, l2, 1)))
                cx.same("eigenvalues", flat(got["eigenvalue"]), flat(ket(eig, lspec, l2, 1)))
        ok, got = cx.run("with eigenvalues", lambda: wc.convert_wavepacket_with_eigenvalues_to_basis(
            wpe, basis=itgt))
        if ok:
            cx.same("eigenvalue list data", flat(got["data"]), flat(ket(lst2, spec, tgt, 2)))
            cx.same("eigenvalues", flat(got["eigenvalue"]), flat(eig))
        cx.trace()
    cx.step("wavepacket position", lambda: flat(wc.convert_wavepacket_to_position_basis(wp)["data"]),
            flat(ket(lst, spec, pos, 1)))
    cx.step("wavepacket momentum",
            lambda: flat(wc.convert_wavepacket_to_fundamental_momentum_basis(wp)["data"]),
            flat(ket(lst, spec, mom, 1)))
    # overlaps: only the position leg changes
    ov = cdata((n, 2, 3), "o")
    ovl = {"basis": TupleBasis(basis, TupleBasis(FundamentalBasis(2), FundamentalBasis(3))), "data": flat(ov)}
    for name, fn, tgt in [
        ("overlap position", ovc.convert_overlap_to_position_basis, pos),
        ("overlap momentum", ovc.convert_overlap_to_momentum_basis, mom),
        ("overlap given", lambda o: ovc.convert_overlap_to_basis(o, ref.build(mom)), mom),
    ]:
        cx.step(name, lambda: flat(fn(ovl)["data"]), flat(ket(ov, spec, tgt, 0)))
    cx.trace()


def roots_shape(tier: str):
    for shape in [(4,), (6,), (4, 2), (2, 6), (4, 3, 2), (6, 1, 4)]:
        yield {"shape": list(shape)}


@PROP.family("subsampled lists", roots_shape)
def subsampled(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    lead = TupleBasis(*(FundamentalBasis(k) for k in shape))
    n = 3
    data = cdata((*shape, n), "sub")
    wp = {"basis": TupleBasis(lead, FundamentalBasis(n)), "data": flat(data)}
    for new in itertools.product(*([d for d in range(1, s + 1) if s % d == 0] for s in shape)):
        want = data[tuple(slice(None, None, s // m) for s, m in zip(shape, new))]
        with cx.at(str(new)):
            ok, got = cx.run("subsample", lambda: wc.convert_wavepacket_to_shape(wp, new))
            if ok:
                cx.same("data", flat(got["data"]), flat(want))
                cx.same("shape", list(got["basis"][0].shape), list(new))
            cx.state(new, want)
            cx.trace()


def roots_interp(tier: str):
    for dim in (1, 2, 3):
        lat = list(ref.LATTICES[dim])[-1]
        for kinds in (["p" * dim, "m" * dim, "tlp"[:dim]]):
            yield {"dim": dim, "lat": lat, "kinds": kinds}


@PROP.family("finer grids", roots_interp)
def finer(cfg, cx: Cx) -> None:
    """A state on a finer grid is the same band-limited function."""
    spec = stacked(cfg["dim"], cfg["lat"], cfg["kinds"])
    basis = ref.build(spec)
    big = ref.fund_shape(spec)
    v = cdata((ref.n_of(spec),), "v")
    fund = (v @ ref.states(spec)).reshape(big)
    for axes in itertools.chain.from_iterable(
        itertools.permutations(range(cfg["dim"]), r) for r in range(1, cfg["dim"] + 1)
    ):
        for grow in itertools.product((0, 1, 3), repeat=len(axes)):
            shape = tuple(big[ax] + g for ax, g in zip(axes, grow))
            want = fund
            for ax, s in zip(axes, shape):
                m = ref.states(["FM", big[ax]])  # momentum states on the old grid
                mm = np.array([ref.momentum_state(int(f), s) for f in ref.freqs(big[ax])])
                t = m.conj().T @ mm * np.sqrt(s / big[ax])
                want = np.moveaxis(np.tensordot(want, t, axes=([ax], [0])), -1, ax)
            with cx.at(f"axes={axes}", f"shape={shape}"):
                ok, got = cx.run("finer grid", lambda: svc.convert_state_vector_to_position_basis(
                    svc.interpolate_state_vector_momentum({"basis": basis, "data": v}, shape, axes)))
                if ok:
                    cx.same("shape", list(got["basis"].shape), list(want.shape))
                    cx.same("values", flat(got["data"]), flat(want))
                cx.state(axes, shape, want)
                cx.trace()
