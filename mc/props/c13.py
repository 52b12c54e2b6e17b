"""C13: the Hamiltonian is kinetic plus potential energy, in every basis and at every Bloch phase."""

from __future__ import annotations

import itertools
import json
import math

import numpy as np
from scipy.constants import hbar

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.hamiltonian_builder import momentum_basis as hm
from surface_potential_analysis.operator.operator import as_operator
from surface_potential_analysis.stacked_basis import potential_basis as pb
from surface_potential_analysis.stacked_basis import sho_basis as sho
from surface_potential_analysis.state_vector.eigenstate_calculation import (
    calculate_eigenvectors_hermitian,
)

PROP = Property(
    "C13",
    rule="Every lattice of a fixed family, every grid shape up to the bound, every kind of basis per axis, "
    "every impulse potential (the map from potential to operator is linear) and every Bloch fraction "
    "of a grid.",
    assumptions=["energies are compared in units where hbar^2/mass is of order one"],
)

BLOCH = (0.0, 0.5, -1 / 3, 1.0)


def flat(x):
    return np.asarray(x).reshape(-1)


def kinds(dx, n: int):
    d = list(np.asarray(dx, dtype=float))
    out = [["FP", d, n], ["FMP", d, n], ["MP", d, max(1, n - 1), n], ["TP", d, max(1, (n + 1) // 2), n]]
    if n % 2 == 0:
        out.append(["EMP", d, n // 2, 2, -1])
    out.append(["XL", "orth", max(1, n - 1), ["FP", d, n]])
    return out


def to_basis(m, spec):
    """A matrix between fundamental positions, as the data of an operator in the basis."""
    b = ref.states(spec)
    return b.conj() @ m @ b.T


def kinetic(dx, big, mass, bloch):
    dk = ref.reciprocal(dx)
    e = []
    for f in itertools.product(*(ref.freqs(n).tolist() for n in big)):
        k = sum((fi + bi) * b for fi, bi, b in zip(f, bloch, dk))
        e.append(hbar**2 * float(np.dot(k, k)) / (2 * mass))
    return np.array(e)


def fourier(big):
    """Rows are the momentum states, in stored order."""
    out = np.ones((1, 1), dtype=complex)
    for n in big:
        out = np.kron(out, np.array([ref.momentum_state(int(f), n) for f in ref.freqs(n)]))
    return out


def position_matrix(energy, big):
    f = fourier(big)
    return f.T @ np.diag(energy) @ f.conj()


def roots(tier: str):
    for name, dx in ref.LATTICES[1].items():
        for n in range(1, 7 if tier == "quick" else 11):
            yield {"dim": 1, "lat": name, "shape": [n]}
    for name, dx in ref.LATTICES[2].items():
        for shape in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (4, 3)) if tier == "quick" else itertools.product(
                range(1, 5), repeat=2):
            yield {"dim": 2, "lat": name, "shape": list(shape)}
    for name, dx in ref.LATTICES[3].items():
        for shape in ((2, 2, 3), (1, 2, 3)) if tier == "quick" else itertools.product((1, 2, 3), repeat=3):
            yield {"dim": 3, "lat": name, "shape": list(shape)}


def specs_for(dx, shape, tier_small=True):
    """Every kind on every axis in 1-D; in more dimensions each kind on one axis, cyclically."""
    per = [kinds(d, n) for d, n in zip(dx, shape)]
    if len(shape) == 1:
        return [["S", [k]] for k in per[0]]
    if len(shape) == 2:
        return [["S", list(c)] for c in itertools.product(*per)]
    m = min(len(p) for p in per)
    return [["S", [per[j][(i + s * j) % len(per[j])] for j in range(3)]] for i in range(m) for s in (0, 1, 2)]


@PROP.family("kinetic energy", roots)
def kinetic_energy(cfg, cx: Cx) -> None:
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    big = tuple(cfg["shape"])
    mass = 1.7 * hbar**2
    blochs = list(itertools.product(BLOCH if cfg["dim"] < 3 else (0.0, 0.5, -1 / 3), repeat=cfg["dim"]))
    base = ref.build(["S", [["FP", list(d), n] for d, n in zip(dx, big)]])
    specs = specs_for(dx, big)
    for bloch in [None, *blochs]:
        e = kinetic(dx, big, mass, bloch or (0.0,) * len(big))
        arg = None if bloch is None else np.array(bloch)
        with cx.at(f"bloch={bloch}"):
            ok, got = cx.run("from mass", lambda: hm.hamiltonian_from_mass(base, mass, arg))
            if ok:
                cx.same("energies", flat(got["data"]), e)
                cx.same("legs", [int(b.n) for b in got["basis"]], [len(e)] * 2)
            m = position_matrix(e, big)
            for spec in specs if bloch is None or bloch in (blochs[1], blochs[-1], blochs[len(blochs) // 2]) else specs[:3]:
                with cx.at(json.dumps(spec)):
                    cx.step("in basis", lambda: flat(hm.hamiltonian_from_mass_in_basis(ref.build(spec), mass, arg)["data"]),
                            flat(to_basis(m, spec)))
            if bloch is not None:
                cx.same("bloch unchanged", arg, np.array(bloch))
        cx.trace()
    # the energy is inversely proportional to the mass
    for s in (0.5, 2.0, 1e3):
        cx.step("mass", lambda: flat(hm.hamiltonian_from_mass(base, mass * s)["data"]),
                kinetic(dx, big, mass, (0.0,) * len(big)) / s)


@PROP.family("potential energy", roots)
def potential_energy(cfg, cx: Cx) -> None:
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    big = tuple(cfg["shape"])
    for spec in specs_for(dx, big):
        basis = ref.build(spec)
        n = ref.n_of(spec)
        b = ref.states(spec)
        impulses = [np.eye(n)[i] + 0j for i in range(n)] if n <= 6 else [np.eye(n)[i] + 0j for i in (0, n - 1)]
        with cx.at(json.dumps(spec)):
            for v in [*impulses, cdata((n,), "v"), rdata((n,), "v") + 0j]:
                keep = v.copy()
                want = to_basis(np.diag(v @ b), spec)
                ok, got = cx.run("from potential", lambda: hm.hamiltonian_from_potential({"basis": basis, "data": v}))
                if ok:
                    cx.same("from potential", flat(got["data"]), flat(want))
                    cx.same("legs", [int(x.n) for x in got["basis"]], [n, n])
                    cx.state(spec, want)
                cx.same("unchanged", v, keep)
        cx.trace()


@PROP.family("total and spectrum", roots)
def total(cfg, cx: Cx) -> None:
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    big = tuple(cfg["shape"])
    nd = len(big)
    mass = 0.6 * hbar**2
    nbig = int(np.prod(big))
    fp = ["S", [["FP", list(d), n] for d, n in zip(dx, big)]]
    fm = ["S", [["FMP", list(d), n] for d, n in zip(dx, big)]]
    blochs = [None, *itertools.product((0.0, 0.5, -1 / 3), repeat=nd)] if nd < 3 else [None, (0.5, 0.0, -1 / 3)]
    vx = rdata((nbig,), "v", big)
    for bloch in blochs:
        arg = None if bloch is None else np.array(bloch)
        m = position_matrix(kinetic(dx, big, mass, bloch or (0.0,) * nd), big) + np.diag(vx)
        levels = np.linalg.eigvalsh(m)
        with cx.at(f"bloch={bloch}"):
            for spec in [fp, fm]:
                pot = {"basis": ref.build(spec), "data": vx @ ref.states(spec).conj().T}
                ok, got = cx.run("total", lambda: hm.total_surface_hamiltonian(pot, mass, arg))
                if not ok:
                    continue
                cx.same("total", flat(got["data"]), flat(to_basis(m, spec)))
                ok, st = cx.run("spectrum", lambda: calculate_eigenvectors_hermitian(got))
                if ok:
                    cx.same("spectrum", np.sort(st["eigenvalue"]), levels)
                    h = to_basis(m, spec)
                    vec = np.asarray(st["data"]).reshape(-1, nbig)
                    cx.same("eigenstates", h @ vec.T, vec.T * st["eigenvalue"][None, :])
                # rigid shift, and translation by one point, of the potential
                pot2 = {"basis": ref.build(spec), "data": (vx + 2.5) @ ref.states(spec).conj().T}
                ok, got2 = cx.run("shifted", lambda: hm.total_surface_hamiltonian(pot2, mass, arg))
                if ok:
                    cx.same("shifted", np.linalg.eigvalsh(np.asarray(got2["data"]).reshape(nbig, nbig)), levels + 2.5)
                for ax in range(nd):
                    moved = flat(np.roll(vx.reshape(big), 1, ax))
                    pot3 = {"basis": ref.build(spec), "data": moved @ ref.states(spec).conj().T}
                    ok, got3 = cx.run("translated", lambda: hm.total_surface_hamiltonian(pot3, mass, arg))
                    if ok:
                        cx.same("translated", np.linalg.eigvalsh(np.asarray(got3["data"]).reshape(nbig, nbig)), levels)
            for spec in specs_for(dx, big)[2:6]:
                n = ref.n_of(spec)
                v = cdata((n,), "vt")
                want = to_basis(m - np.diag(vx) + np.diag(v @ ref.states(spec)), spec)
                with cx.at(json.dumps(spec)):
                    cx.step("total in basis", lambda: flat(hm.total_surface_hamiltonian(
                        {"basis": ref.build(spec), "data": v}, mass, arg)["data"]), flat(want))
        cx.trace()


def roots_pb(tier: str):
    for n in range(1, 6 if tier == "quick" else 10):
        for lat in ref.LATTICES[1]:
            yield {"n": n, "lat": lat}


@PROP.family("basis of eigenstates of a potential", roots_pb)
def potential_basis(cfg, cx: Cx) -> None:
    n, dx = cfg["n"], np.array(ref.LATTICES[1][cfg["lat"]])
    mass = 0.8 * hbar**2
    v = rdata((n,), "pb") * 3
    for spec in (["S", [["FP", list(dx[0]), n]]], ["S", [["FMP", list(dx[0]), n]]]):
        b = ref.states(spec)
        for keep in range(1, n + 1):
            conf = {"potential": {"basis": ref.build(spec), "data": v @ b.conj().T}, "mass": mass, "n": keep}
            for bloch in (None, 0.0, 0.5, -0.25):
                h = to_basis(position_matrix(kinetic(dx, (n,), mass, (bloch or 0.0,)), (n,)) + np.diag(v), spec)
                lev, vec = np.linalg.eigh(h)
                with cx.at(spec[1][0][0], f"keep={keep}", f"bloch={bloch}"):
                    ok, st = cx.run("eigenstates", lambda: pb.get_potential_basis_config_eigenstates(conf, bloch_fraction=bloch))
                    if ok:
                        cx.same("levels", st["eigenvalue"], lev[:keep])
                        got = np.asarray(st["data"]).reshape(keep, n)
                        cx.same("count", [int(x.n) for x in st["basis"]], [keep, n])
                        cx.same("lowest states", h @ got.T, got.T * lev[:keep][None, :])
                        cx.same("orthonormal", got @ got.conj().T, np.eye(keep))
                    cx.trace()
            ok, basis = cx.run("basis", lambda: pb.get_potential_basis_config_basis(conf))
            if ok:
                h = position_matrix(kinetic(dx, (n,), mass, (0.0,)), (n,)) + np.diag(v)
                got = np.asarray(basis.vectors["data"] if isinstance(basis.vectors, dict) else basis.vectors).reshape(keep, -1) @ b
                cx.same("basis states", got @ got.conj().T, np.eye(keep))
                cx.same("basis levels", h.astype(complex) @ got.T, got.T * np.linalg.eigvalsh(h)[:keep][None, :])
                cx.same("sizes", [int(basis.n), int(basis.fundamental_n)], [keep, n])


def roots_min(tier: str):
    for shape in ((1, 1, 3), (2, 2, 3), (2, 3, 2), (3, 2, 4)) if tier == "quick" else itertools.product((1, 2, 3, 4), repeat=3):
        yield {"shape": list(shape)}


@PROP.family("cut through the minimum", roots_min)
def minimum(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    dx = np.diag([2.0, 3.0, 0.75])
    spec = ["S", [["FP", list(d), n] for d, n in zip(dx, shape)]]
    v = np.abs(rdata(shape, "min"))
    for at in itertools.product(*(range(s) for s in shape)):
        w = v.copy()
        w[at] = -1.0
        ok, got = cx.run("minimum", lambda: pb.select_minimum_potential_3d({"basis": ref.build(spec), "data": flat(w)}))
        if ok:
            cx.same("minimum", flat(got["data"]), w[at[0], at[1], :])
            cx.same("length", [np.asarray(b.delta_x) for b in got["basis"]], [np.array([0.75])])
        cx.state(shape, at)
        cx.trace()


def hermite_function(x, n):
    """Orthonormal oscillator states by recurrence, in units of the oscillator length."""
    a = np.pi ** -0.25 * np.exp(-x * x / 2)
    b = np.sqrt(2) * x * a
    if n == 0:
        return a
    for k in range(2, n + 1):
        a, b = b, np.sqrt(2 / k) * x * b - np.sqrt((k - 1) / k) * a
    return b


DIRECTIONS = {
    "z": [0.0, 0.0, 9.0],
    "x": [8.0, 0.0, 0.0],
    "y": [0.0, 10.0, 0.0],
    "down": [0.0, 0.0, -9.0],
    "skew": [4.0, -5.0, 6.0],
    "zint": [0, 0, 9],
    "xunit": [1.0, 0, 0],
}


def roots_sho(tier: str):
    for d in DIRECTIONS:
        for n in (1, 2, 5, 8, 41) if tier == "quick" else (1, 2, 3, 4, 5, 8, 20, 41, 101):
            yield {"dir": d, "n": n}


@PROP.family("harmonic oscillator basis", roots_sho)
def oscillator(cfg, cx: Cx) -> None:
    n = cfg["n"]
    d = np.array(DIRECTIONS[cfg["dir"]])
    length = float(np.sqrt(sum(float(i) ** 2 for i in d)))
    unit = d / length
    parent = FundamentalPositionBasis(d.copy(), n)
    s = np.arange(n) * length / n
    for frac in (0.0, -0.5, 0.3):
        for mass_f, w in ((1.0, 1.0), (0.5, 3.0)):
            origin = frac * length * unit + np.array([0.1, -0.2, 0.3])
            dist = s + float(np.dot(unit, origin))
            mass, omega = mass_f * hbar**2, w / hbar
            conf = {"sho_omega": omega, "mass": mass, "x_origin": origin}
            with cx.at(f"origin={frac}", f"omega={w}"):
                cx.step("distances", lambda: flat(sho.calculate_x_distances(parent, origin)), dist)
                a = math.sqrt(mass_f * w)  # 1 / oscillator length
                for k in range(10):
                    cx.step("wavefunction", lambda: flat(sho.calculate_sho_wavefunction(dist, omega, mass, k)),
                            np.sqrt(a) * hermite_function(a * dist, k))
                ok, b = cx.run("infinite", lambda: sho.infinate_sho_basis_3d_from_config(parent, conf, n=min(n, 5)))
                if ok:
                    cx.same("infinite", np.asarray(BasisUtil(b).vectors),
                            np.array([np.sqrt(a) * hermite_function(a * dist, k) for k in range(min(n, 5))])
                            * np.sqrt(length / n))
                    cx.same("infinite length", np.asarray(b.delta_x), d)
                ok, c = cx.run("config", lambda: sho.get_sho_potential_basis_config(parent, conf, min(n, 4)))
                if ok:
                    cx.same("oscillator potential", flat(c["potential"]["data"]), 0.5 * mass_f * w**2 * dist**2)
                    cx.same("oscillator length", np.asarray(c["potential"]["basis"][0].delta_x), np.array([length]))
                    cx.same("oscillator config", [c["mass"] / hbar**2, c["n"]], [mass_f, min(n, 4)])
                    h = position_matrix(kinetic(np.array([[length]]), (n,), mass, (0.0,)), (n,)) + np.diag(
                        0.5 * mass_f * w**2 * dist**2)
                    ok, b = cx.run("finite", lambda: sho.sho_basis_3d_from_config(parent, conf, min(n, 4)))
                    if ok:
                        v = np.asarray(BasisUtil(b).vectors).reshape(min(n, 4), n)
                        lev = np.linalg.eigvalsh(h)[: min(n, 4)]
                        cx.same("finite", h @ v.T, v.T * lev[None, :], tol=1e-7)
                        cx.same("finite norm", v @ v.conj().T, np.eye(min(n, 4)))
                cx.same("origin unchanged", origin, frac * length * unit + np.array([0.1, -0.2, 0.3]))
                cx.trace()
    cx.same("parent unchanged", np.asarray(parent.delta_x), d)
