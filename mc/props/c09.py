"""C09: spectra, expectation values and functions of operators agree with the operator."""

from __future__ import annotations

import itertools
import json

import numpy as np
import scipy.linalg

from mc import ref
from mc.core import Cx, Property, cdata, hermitian, unitary
from mc.specs import small_axis_specs
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import conversion as oc
from surface_potential_analysis.operator import operations as oo
from surface_potential_analysis.operator import operator as op_
from surface_potential_analysis.state_vector import conversion as svc
from surface_potential_analysis.state_vector import eigenstate_calculation as ec
from surface_potential_analysis.state_vector.eigenstate_list import get_eigenvalues_list
from surface_potential_analysis.state_vector.state_vector import (
    calculate_inner_product,
    calculate_normalization,
)

PROP = Property(
    "C09",
    rule="Every Hermitian matrix of two and three dimensions over a small alphabet of entries "
    "(degenerate, singular and diagonal ones included), generic matrices of every size up to the "
    "bound, every range of eigenvalue indices, every pair of basis descriptions; histories of "
    "diagonalising and moving into the eigenbasis.",
)


def flat(x):
    return np.asarray(x).reshape(-1)


def matrix(o) -> np.ndarray:
    return np.asarray(o["data"]).reshape(o["basis"].shape)


def alphabet(n: int, tier: str):
    if n == 1:
        for d in (-1, 0, 2.5):
            yield np.array([[d]], dtype=complex)
        return
    diag = (-1, 0, 2) if n == 2 else (0, 1) if tier == "quick" else (-1, 0, 2)
    off = (0, 1, -1, 1j, -1j, 1 + 2j) if n == 2 else (0, 1, -1j) if tier == "quick" else (0, 1, -1j, 1 + 2j)
    k = n * (n - 1) // 2
    for ds in itertools.product(diag, repeat=n):
        for os_ in itertools.product(off, repeat=k):
            m = np.diag(np.array(ds, dtype=complex))
            for v, (i, j) in zip(os_, itertools.combinations(range(n), 2)):
                m[i, j], m[j, i] = v, np.conj(v)
            yield m


def roots_h(tier: str):
    for n in (1, 2, 3):
        mats = list(alphabet(n, tier))
        for i in range(0, len(mats), 24):
            yield {"n": n, "part": i, "tier": tier}
    for n in range(4, 8 if tier == "quick" else 14):
        yield {"n": n, "part": -1, "tier": tier}


def mats_of(cfg):
    if cfg["part"] >= 0:
        return list(alphabet(cfg["n"], cfg["tier"]))[cfg["part"] : cfg["part"] + 24]
    n = cfg["n"]
    u = unitary(n, "deg")
    d = np.sort(np.arange(n) // 2)
    return [hermitian(n, "g"), u @ np.diag(d) @ u.conj().T, np.diag(np.arange(n)[::-1]).astype(complex)]


@PROP.family("hermitian spectrum", roots_h)
def spectrum(cfg, cx: Cx) -> None:
    n = cfg["n"]
    kinds = [["F", n], ["FM", n]]
    if n % 2 == 0:
        kinds.append(["S", [["F", 2], ["FMP", [1.0], n // 2]]])
    for j, m in enumerate(mats_of(cfg)):
        m = (m + m.conj().T) / 2
        w = np.linalg.eigvalsh(m)
        spec = kinds[j % len(kinds)]
        b = ref.build(spec)
        o = {"basis": TupleBasis(b, b), "data": flat(m)}
        cx.state(m)
        ranges = [None, *itertools.combinations_with_replacement(range(n), 2)]
        for rng_ in ranges:
            lo, hi = (0, n - 1) if rng_ is None else rng_
            k = hi - lo + 1
            with cx.at(f"matrix {j}", str(rng_)):
                ok, got = cx.run("eigenstates", lambda: ec.calculate_eigenvectors_hermitian(o, rng_))
                if not ok:
                    continue
                cx.same("eigenvalues", flat(got["eigenvalue"]), w[lo : hi + 1])
                cx.same("sizes", [int(i) for i in got["basis"].shape], [k, n])
                v = np.asarray(got["data"]).reshape(k, n)
                cx.same("orthonormal", v.conj() @ v.T, np.eye(k))
                cx.same("eigenvectors", v @ m.T, w[lo : hi + 1, None] * v)
                cx.step("eigenvalue list", lambda: flat(get_eigenvalues_list(got)["data"]), w[lo : hi + 1])
                cx.step("basis of list", lambda: [int(i) for i in get_eigenvalues_list(got)["basis"].shape], [k, k])
                if rng_ is None:
                    cx.step("rebuild", lambda: flat(ec.operator_from_eigenstates(got)["data"]), flat(m))
                    e = cx.step("expectations", lambda: flat(ec.calculate_expectation_list(o, got)["data"]), w)
                    for i in range(n):
                        st = {"basis": b, "data": v[i]}
                        cx.step("expectation", lambda: complex(ec.calculate_expectation(o, st)), complex(w[i]))
                        cx.step("norm", lambda: float(calculate_normalization(st)), 1.0)
                        cx.step("matrix element", lambda: complex(ec.calculate_operator_inner_product(
                            {"basis": b, "data": v[(i + 1) % n].conj()}, o, st)),
                            complex(w[i] if n == 1 else 0))
            cx.trace()
        wf = [lambda x: x**2, lambda x: np.ones_like(x), lambda x: np.exp(1j * x), lambda x: x]
        for i, fn in enumerate(wf):
            with cx.at(f"matrix {j}", f"function {i}"):
                vv = np.linalg.eigh(m)
                want = vv[1] @ np.diag(fn(vv[0].astype(complex))) @ vv[1].conj().T
                cx.step("function", lambda: flat(op_.apply_function_to_operator(o, fn)["data"]), flat(want), tol=1e-6)
        with cx.at(f"matrix {j}"):
            cx.step("exponential", lambda: flat(oo.exp_operator(o)["data"]), flat(scipy.linalg.expm(m)), tol=1e-6)
            ok, u = cx.run("evolution", lambda: oo.exp_operator({"basis": o["basis"], "data": -1j * o["data"]}))
            if ok:
                mu = matrix(u)
                cx.same("unitary", mu.conj().T @ mu, np.eye(n), 1e-6)
                cx.same("evolution", mu, scipy.linalg.expm(-1j * m), 1e-6)
        cx.same("operator unchanged", flat(o["data"]), flat(m))


def roots_g(tier: str):
    for n in range(1, 6 if tier == "quick" else 10):
        for seed in range(3):
            yield {"n": n, "k": seed}


@PROP.family("general spectrum", roots_g)
def general(cfg, cx: Cx) -> None:
    """Operators that are not Hermitian: right eigenvectors, functions, exponentials."""
    n = cfg["n"]
    m = cdata((n, n), "gen", cfg["k"])
    b = FundamentalBasis(n)
    o = {"basis": TupleBasis(b, b), "data": flat(m)}
    ok, got = cx.run("eigenstates", lambda: ec.calculate_eigenvectors(o))
    if ok:
        v = np.asarray(got["data"]).reshape(n, n)
        w = np.asarray(got["eigenvalue"])
        cx.same("eigenvectors", v @ m.T, w[:, None] * v)
        cx.same("trace", complex(np.sum(w)), complex(np.trace(m)))
        cx.same("determinant", complex(np.prod(w)), complex(np.linalg.det(m)), 1e-7)
        cx.same("unit length", np.linalg.norm(v, axis=1), np.ones(n))
        cx.step("rebuild", lambda: flat(ec.operator_from_eigenstates(got)["data"]), flat(m), tol=1e-7)
        f = {**got, "eigenvalue": w**2}
        cx.step("rebuild square", lambda: flat(ec.operator_from_eigenstates(f)["data"]), flat(m @ m), tol=1e-7)
    cx.step("exponential", lambda: flat(oo.exp_operator(o)["data"]), flat(scipy.linalg.expm(m)), tol=1e-7)
    cx.step("polynomial", lambda: flat(op_.apply_function_to_operator(o, lambda x: 1 + 2j * x - x**3)["data"]),
            flat(np.eye(n) + 2j * m - m @ m @ m), tol=1e-7)
    cx.step("inverse", lambda: flat(op_.apply_function_to_operator(o, lambda x: 1 / x)["data"]),
            flat(np.linalg.inv(m)), tol=1e-6)
    cx.trace()


def roots_e(tier: str):
    for n in (2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for a in small_axis_specs(n):
            yield {"n": n, "a": a}


@PROP.family("expectation values", roots_e)
def expectations(cfg, cx: Cx) -> None:
    """Operators and states in different bases; complete bases give the same number."""
    n, a = cfg["n"], cfg["a"]
    ia, na = ref.build(a), ref.n_of(a)
    sa = ref.states(a)
    st = cdata((3, na), "ex")
    lst = {"basis": TupleBasis(FundamentalBasis(3), ia), "data": flat(st)}
    for b in small_axis_specs(n):
        ib, nb = ref.build(b), ref.n_of(b)
        t = ref.transfer(b, a)  # coordinates in b -> coordinates in a
        for c in ([b] if nb != n else [b, ["F", n], ["FM", n]]):
            ic, nc = ref.build(c), ref.n_of(c)
            m = cdata((nb, nc), "exm")
            o = {"basis": TupleBasis(ib, ic), "data": flat(m)}
            ma = t.T @ m @ ref.transfer(c, a).conj()
            want = np.einsum("ij,jk,ik->i", st.conj(), ma, st)
            with cx.at(json.dumps(b), json.dumps(c)):
                cx.step("list", lambda: flat(ec.calculate_expectation_list(o, lst)["data"]), want)
                cx.step("list basis", lambda: int(ec.calculate_expectation_list(o, lst)["basis"].n), 3)
                for i in range(3):
                    cx.step("one", lambda: complex(ec.calculate_expectation(o, {"basis": ia, "data": st[i]})),
                            complex(want[i]))
        d = cdata((nb,), "exd")
        with cx.at(json.dumps(b)):
            for i in range(3):
                sb = st[i] @ ref.transfer(a, b)
                cx.step("diagonal", lambda: complex(ec.calculate_expectation_diagonal(
                    {"basis": TupleBasis(ib, ib), "data": d}, {"basis": ia, "data": st[i]})),
                    complex(np.sum(d * np.abs(sb) ** 2)))
            m = cdata((nb, na), "exr")
            bra_, k = cdata((nb,), "b"), cdata((na,), "k")
            cx.step("element", lambda: complex(ec.calculate_operator_inner_product(
                {"basis": ib, "data": bra_}, {"basis": TupleBasis(ib, ia), "data": flat(m)}, {"basis": ia, "data": k})),
                complex(bra_ @ m @ k))
        cx.trace()
    v0, v1 = cdata((na,), "v0"), cdata((na,), "v1")
    cx.step("inner product", lambda: complex(calculate_inner_product(
        {"basis": ia, "data": v0}, {"basis": ia, "data": v1})), complex(np.sum(v0 * v1)))
    cx.step("norm", lambda: float(calculate_normalization({"basis": ia, "data": v0})), float(np.sum(np.abs(v0) ** 2)))


def roots_hist(tier: str):
    for spec in [["F", 4], ["FM", 3], ["FMP", [2.5], 5], ["S", [["FP", [1.0], 3]]],
                 ["S", [["FP", [1.0, 0.0], 2], ["FMP", [0.0, 2.0], 3]]], ["X", "orth", 4, ["F", 4]]]:
        for depth in (3,) if tier == "quick" else (4,):
            yield {"spec": spec, "depth": depth}


@PROP.family("eigenbasis histories", roots_hist)
def eigenbasis(cfg, cx: Cx) -> None:
    """Move a Hamiltonian and a state into eigenbases of other operators and back.

    Whatever the history, in the Hamiltonian's own eigenbasis it is the diagonal of its
    energies, and energies and expectation values never change.
    """
    spec = cfg["spec"]
    n = ref.n_of(spec)
    b = ref.build(spec)
    hs = [hermitian(n, "hist", i) for i in range(2)]
    ws = [np.linalg.eigvalsh(h) for h in hs]
    st = cdata((n,), "hist")
    ops = [{"basis": TupleBasis(b, b), "data": flat(h)} for h in hs]
    vec = {"basis": b, "data": st}
    ex = [complex(st.conj() @ h @ st) for h in hs]
    lo = n // 2
    stacked = spec[0] == "S"

    def go(ops, vec, path, depth, rank):
        for i in (0, 1):
            with cx.at(*path):
                ok, es = cx.run("diagonalise", lambda: ec.calculate_eigenvectors_hermitian(ops[i]))
                if not ok:
                    return
                if rank == n:
                    cx.same("energies", flat(es["eigenvalue"]), ws[i])
                    cx.step("expectation", lambda: complex(ec.calculate_expectation(ops[i], vec)), ex[i])
                cx.state(rank, path, i)
        if depth == 0:
            cx.trace()
            return
        for i in (0, 1):
            for sub in (None, (0, lo)):
                if rank != n:
                    break
                for kind in ("plain", "stacked") if stacked and not path else ("plain",):
                    with cx.at(*path, f"eigenbasis {i} {sub} {kind}"):
                        fn = ec.get_eigenstate_basis_from_hamiltonian if kind == "plain" else (
                            ec.get_eigenstate_basis_stacked_from_hamiltonian)
                        ok, nb = cx.run("eigenbasis", lambda: fn(ops[i], sub))
                        if not ok:
                            continue
                        k = n if sub is None else lo + 1
                        cx.same("states", int(nb.n), k)
                        tb = TupleBasis(nb, nb)
                        ok, nops = cx.run("convert", lambda: [oc.convert_operator_to_basis(o, tb) for o in ops])
                        ok2, nvec = cx.run("convert", lambda: svc.convert_state_vector_to_basis(vec, nb))
                        if not (ok and ok2):
                            continue
                        cx.same("diagonal", matrix(nops[i]), np.diag(ws[i][:k]), 1e-7)
                        if k == n:
                            cx.same("norm kept", float(np.sum(np.abs(nvec["data"]) ** 2)), float(np.sum(np.abs(st) ** 2)))
                            ok, back = cx.run("back", lambda: svc.convert_state_vector_to_basis(nvec, b))
                            if ok:
                                cx.same("back", flat(back["data"]), st)
                    go(nops, nvec, (*path, f"eigenbasis {i} {sub} {kind}"), depth - 1, k)

    go(ops, vec, (), cfg["depth"], n)
