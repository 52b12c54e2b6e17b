"""C17: tunnelling between sites is a master equation, from jump rates to scattering functions."""

from __future__ import annotations

import itertools

import matplotlib.pyplot as plt
import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, quiet, rng
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
from surface_potential_analysis.dynamics import isf as fi
from surface_potential_analysis.dynamics import isf_plot as fp
from surface_potential_analysis.dynamics import tunnelling_basis as tb
from surface_potential_analysis.dynamics import util as du
from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as ei
from surface_potential_analysis.dynamics.incoherent_propagation import isf as ii
from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as tm

with quiet():
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as ss

PROP = Property(
    "C17",
    rule="Every shape of the supercell and number of bands up to the bound, every single jump (rates are linear in the jumps) "
    "and generic sets of jumps, every starting site, lattices and band locations from a fixed family.",
    assumptions=["the rate matrix has a complete set of eigenvectors", "equilibrium: every site can be reached from every other"],
)

HOPS = list(itertools.product((0, 1, -1), repeat=2))

CELLS = {
    "square": ((1.0, 0.0), (0.0, 1.0)),
    "hex": ((1.0, 0.0), (0.5, np.sqrt(3) / 2)),
    "oblique": ((1.2, 0.3), (-0.4, 0.9)),
    "left": ((0.3, 1.1), (1.4, 0.2)),
}


def bands(nb: int, cell: str = "oblique") -> tb.TunnellingSimulationBandsBasis:
    loc = np.array([[0.13 + 0.21 * i for i in range(nb)], [0.07 + 0.31 * i - 0.2 * (i % 2) for i in range(nb)]])
    return tb.TunnellingSimulationBandsBasis(loc, tuple(np.array(v) for v in CELLS[cell]))


# -- the model -----------------------------------------------------------------


def sites(shape, nb):
    return list(itertools.product(range(shape[0]), range(shape[1]), range(nb)))


def a_matrix(jumps: np.ndarray, shape, nb: int) -> np.ndarray:
    """Rate from each site to each other; jumps[from, to, hop]."""
    st = sites(shape, nb)
    where = {s: i for i, s in enumerate(st)}
    a = np.zeros((len(st), len(st)), dtype=jumps.dtype)
    for (i, j, n0) in st:
        for n1 in range(nb):
            for h, (d0, d1) in enumerate(HOPS):
                to = ((i + d0) % shape[0], (j + d1) % shape[1], n1)
                a[where[i, j, n0], where[to]] += jumps[n0, n1, h]
    return a


def m_matrix(a: np.ndarray) -> np.ndarray:
    """dp/dt = M p."""
    n = len(a)
    m = np.zeros_like(a)
    for i in range(n):
        for j in range(n):
            if i != j:
                m[j, i] += a[i, j]
                m[i, i] -= a[i, j]
    return m


def propagate(m: np.ndarray, p: np.ndarray, t: float) -> np.ndarray:
    """exp(M t) p by scaling and squaring of the Taylor series."""
    x = m * t
    k = max(0, int(np.ceil(np.log2(max(np.abs(x).sum(axis=0).max(), 1e-300)))) + 4)
    x = x / 2**k
    e = np.eye(len(m), dtype=complex)
    term = np.eye(len(m), dtype=complex)
    for i in range(1, 20):
        term = term @ x / i
        e = e + term
    for _ in range(k):
        e = e @ e
    return e @ p


def locations(basis_bands, shape, nb):
    u = np.array(basis_bands.unit_cell)
    return np.array([(i + basis_bands.locations[0, n]) * u[0] + (j + basis_bands.locations[1, n]) * u[1] for i, j, n in sites(shape, nb)])


def shortest(x: np.ndarray, u: np.ndarray, shape) -> np.ndarray:
    """Displacements within the supercell around the origin."""
    big = np.array([u[0] * shape[0], u[1] * shape[1]])
    f = x @ np.linalg.inv(big)
    return (f - np.floor(f + 0.5)) @ big


def jump_sets(nb: int, key, scale=1.0):
    g = rng("jumps", nb, key)
    j = g.uniform(0.2, 1.5, (nb, nb, 9))
    yield "generic", j * scale
    k = j.copy()
    # only to nearest neighbours, unequal both ways
    k[:, :, [i for i, h in enumerate(HOPS) if h[0] and h[1]]] = 0
    yield "neighbours", k * scale
    if nb > 1:
        f = np.zeros((nb, nb, 9))
        for a, b in itertools.permutations(range(nb), 2):
            for h, c in enumerate(HOPS):
                f[a, b, h] = (1 + b) * np.exp(-0.3 * abs(a - b)) * (1 + 0.3 * c[0] * (b - a) + 0.2 * c[1] * (b - a))
        yield "between bands", f * scale


def operator(basis, data):
    return {"basis": TupleBasis(basis, basis), "data": np.asarray(data).astype(complex).reshape(-1)}


# -- jumps, rates and generators ------------------------------------------------


def matrix_roots(tier: str):
    top = 3 if tier == "quick" else 5
    for s0, s1 in itertools.product(range(1, top + 1), repeat=2):
        for nb in range(1, 3 if tier == "quick" else 4):
            yield {"shape": [s0, s1], "nb": nb}
    if tier == "quick":
        yield {"shape": [3, 4], "nb": 3}
        yield {"shape": [5, 3], "nb": 2}


@PROP.family("rates", matrix_roots)
def rates(cfg, cx: Cx) -> None:
    shape, nb = tuple(cfg["shape"]), cfg["nb"]
    bb = bands(nb)
    basis = tb.get_basis_from_shape(shape, nb, bb)
    singles = []
    for n0, n1, h in itertools.product(range(nb), range(nb), range(9)):
        j = np.zeros((nb, nb, 9), dtype=complex)
        j[n0, n1, h] = 2.5
        singles.append((f"{n0}->{n1} {HOPS[h]}", j))
    for name, j in [*singles, *jump_sets(nb, shape), ("complex", cdata((nb, nb, 9), "jumps"))]:
        a = a_matrix(j, shape, nb)
        with cx.at(name):
            jump = operator(bb, j)
            ok, got = cx.run("a matrix", lambda: tm.get_a_matrix_from_jump_matrix(jump, shape))
            if ok:
                cx.same("a matrix", got["data"], a.astype(complex).reshape(-1))
                cx.same("a matrix basis", [list(got["basis"][0].shape), list(got["basis"][1].shape)], [[*shape, nb]] * 2)
                cx.same("a matrix locations", got["basis"][0][2].locations, bb.locations)
            for m in range(1, nb + 1):
                am = a_matrix(j[:m, :m], shape, m)
                ok, got = cx.run(f"a matrix of {m} bands", lambda: tm.get_a_matrix_from_jump_matrix(jump, shape, n_bands=m))
                if ok:
                    cx.same(f"a matrix of {m} bands", [got["data"], got["basis"][1][2].locations], [am.astype(complex).reshape(-1), bb.locations[:, :m]])
                full = operator(basis, a)
                ok, got = cx.run(f"reduced to {m} bands", lambda: tm.get_a_matrix_reduced_bands(full, m))
                if ok:
                    cx.same(f"reduced to {m} bands", [got["data"], got["basis"][1][2].locations], [am.astype(complex).reshape(-1), bb.locations[:, :m]])
                ok, got = cx.run(f"m matrix of {m} bands", lambda: tm.get_tunnelling_m_matrix(full, m))
                if ok:
                    cx.same(f"m matrix of {m} bands", got["data"], m_matrix(am).astype(complex).reshape(-1))
            full = operator(basis, a)
            ok, got = cx.run("m matrix", lambda: tm.get_tunnelling_m_matrix(full))
            if ok:
                cx.same("m matrix", got["data"], m_matrix(a).astype(complex).reshape(-1))
                cx.same("nothing is lost", got["data"].reshape(len(a), len(a)).sum(axis=0), np.zeros(len(a), dtype=complex))
                cx.state("m", shape, nb, a)
            cx.same("a matrix is kept", full["data"], a.astype(complex).reshape(-1), 0)
            if min(shape) >= 3:
                cx.step("jump matrix", lambda: tm.get_jump_matrix_from_a_matrix(full)["data"], j.astype(complex).reshape(-1))
                for other in ((1, 2), (3, 3), (4, 3)):
                    for m in range(1, nb + 1):
                        cx.step(f"resampled to {other} {m}", lambda: tm.resample_tunnelling_a_matrix(full, other, m)["data"],
                                a_matrix(j[:m, :m], other, m).astype(complex).reshape(-1))
            cx.same("jump matrix is kept", jump["data"], j.astype(complex).reshape(-1), 0)
            collapse(cx, full, a, j, shape, nb)
        cx.trace()
    # a function of the jump
    f = rng("function").uniform(0, 2, (nb, nb, 9))
    cx.step("jumps from a function", lambda: tm.get_jump_matrix_from_function(bb, lambda a, b, h: f[a, b, h])["data"], f.astype(complex).reshape(-1))
    for ndim in (1, 2, 3):
        for h in range(3**ndim):
            want = tuple((0, 1, -1)[i] for i in np.unravel_index(h, (3,) * ndim))
            cx.step(f"hop {h} of {ndim}", lambda: [int(i) for i in du.get_hop_shift(h, ndim)], list(want))
            for sh in itertools.product(range(1, 4), repeat=ndim) if ndim < 3 else [(2, 3, 1)]:
                n = int(np.prod(sh))
                op = np.zeros((n, n))
                for i in range(n):
                    to = tuple((a + b) % s for a, b, s in zip(np.unravel_index(i, sh), want, sh))
                    op[np.ravel_multi_index(to, sh), i] = 1
                cx.step(f"hop operator {h} {sh}", lambda: du.build_hop_operator(h, sh).reshape(n, n), op)
    # operators from a function of the two sites
    st = sites(shape, nb)
    if len(st) <= 18:
        ok, ops = cx.run("operators from a function", lambda: ss.get_collapse_operators_from_function(shape, bb, lambda a, b, p, q: f[a, b, (q[0] - p[0] + 1) * 3 + q[1] - p[1] + 1]))
        if ok:
            want = []
            for i, (c0, c1, n0) in enumerate(st):
                for n1 in range(nb):
                    for d in range(9):
                        d0, d1 = d // 3 - 1, d % 3 - 1
                        m = np.zeros((len(st), len(st)), dtype=complex)
                        m[i, st.index(((c0 + d0) % shape[0], (c1 + d1) % shape[1], n1))] = f[n0, n1, d]
                        want.append(m.reshape(-1))
            cx.same("operators from a function", sorted(o["data"].tobytes() for o in ops) == sorted(w.tobytes() for w in want), True)


def collapse(cx, full, a, j, shape, nb):
    n = len(a)
    ok, ops = cx.run("operator of each rate", lambda: ss.get_collapse_operators_from_a_matrix(full))
    if ok:
        got = {}
        for o in ops:
            m = o["data"].reshape(n, n)
            at = [tuple(int(k) for k in ij) for ij in np.argwhere(m)]
            if not cx.holds("one entry each", len(at) == 1 and at[0] not in got, f"{at}"):
                break
            got[at[0]] = m[at[0]]
        else:
            want = {(i, k): a[i, k] for i in range(n) for k in range(n) if i != k and a[i, k] != 0}
            cx.holds("an operator for each rate", set(got) == set(want), f"{sorted(got)} != {sorted(want)}")
            cx.same("rates", [got[k] for k in sorted(want) if k in got], [complex(want[k]) for k in sorted(want) if k in got])
    cx.same("a matrix is kept", full["data"], a.astype(complex).reshape(-1), 0)
    if min(shape) >= 3 and not np.iscomplexobj(a):
        for factor in (1, 10.0):
            ok, ops = cx.run("operator of each jump", lambda: ss.get_simplified_collapse_operators_from_a_matrix(full, factor=factor))
            if not ok:
                continue
            want = np.zeros((n, n))
            for n0, n1 in itertools.permutations(range(nb), 2):
                for h in range(9):
                    if factor * j[n0, n1, h] >= 1:
                        one = np.zeros((nb, nb, 9))
                        one[n0, n1, h] = factor * j[n0, n1, h]
                        want += a_matrix(one, shape, nb).T
            # each moves every site at once; squared entries are the rates
            got = sum((np.abs(o["data"].reshape(n, n)) ** 2 for o in ops), np.zeros((n, n)))
            cx.same("rates of jumps", got, want)


# -- evolution of the occupation -------------------------------------------------


def evolution_roots(tier: str):
    q = tier == "quick"
    for s0, s1 in itertools.product(range(1, 4 if q else 6), repeat=2):
        for nb in range(1, 4):
            if s0 * s1 * nb >= 2 and s0 * s1 * nb <= (20 if q else 50):
                for scale in (1.0, 1e10):
                    yield {"shape": [s0, s1], "nb": nb, "scale": scale}


@PROP.family("occupation", evolution_roots)
def occupation(cfg, cx: Cx) -> None:
    shape, nb, scale = tuple(cfg["shape"]), cfg["nb"], cfg["scale"]
    basis = tb.get_basis_from_shape(shape, nb, bands(nb))
    st = sites(shape, nb)
    n = len(st)
    times = np.array([0.0, 0.1, 0.7, 3.0]) / scale
    for name, j in jump_sets(nb, shape, scale):
        m = m_matrix(a_matrix(j, shape, nb))
        if np.linalg.cond(np.linalg.eig(m)[1]) > 1e5:
            cx.note("no complete set of eigenvectors")
            continue
        op = operator(basis, m)
        with cx.at(name):
            ok, es = cx.run("eigenstates", lambda: ei.calculate_tunnelling_eigenstates(op))
            if not ok:
                continue
            v = es["data"].reshape(n, n)
            cx.same("eigenstates", m @ v.T / scale, v.T * es["eigenvalue"] / scale, 1e-7)
            cx.same("complete", np.linalg.matrix_rank(v), n)
            cx.same("list", list(es["basis"].shape), [n, n])
            # the one state which nothing leaves
            u, s, vh = np.linalg.svd(m)
            connected = n == 1 or s[-2] > 1e-6 * s[0]
            stationary = vh[-1].real / vh[-1].real.sum()
            if connected:
                for what, fn in (("equilibrium", lambda: ei.calculate_equilibrium_state(op)), ("equilibrium of eigenstates", lambda: ei.get_equilibrium_state(es))):
                    ok, eq = cx.run(what, fn)
                    if ok:
                        cx.same(what, eq["data"], stationary, 1e-7)
                        cx.same(what + " stays", propagate(m, eq["data"], 2.0 / scale), stationary.astype(complex), 1e-7)
            starts = [(i, np.eye(n)[i]) for i in range(n)] + [("mixed", np.arange(1.0, n + 1) / (n * (n + 1) / 2))]
            for start, p0 in starts:
                want = np.array([propagate(m, p0.astype(complex), t) for t in times])
                rho = {"basis": TupleBasis(basis, basis), "data": p0.astype(complex)}
                with cx.at(f"from {start}"):
                    if start != "mixed":
                        cx.step("pure state", lambda: tm.get_initial_pure_density_matrix_for_basis(basis, start)["data"], p0.astype(complex))
                        cx.step("pure state of site", lambda: tm.get_initial_pure_density_matrix_for_basis(basis, st[start])["data"], p0.astype(complex))
                    for what, fn in (("simulation", lambda: ei.calculate_tunnelling_simulation_state(op, rho, times)),
                                     ("simulation of eigenstates", lambda: ei.get_tunnelling_simulation_state(es, rho, times))):
                        ok, got = cx.run(what, fn)
                        if ok:
                            cx.same(what, got["data"], want.reshape(-1), 1e-7)
                            cx.same(what + " times", got["basis"][0].times, times)
                            cx.same(what + " list", list(got["basis"].shape), [len(times), n * n])
                            ok, pr = cx.run("probabilities", lambda: tm.density_matrix_list_as_probabilities(got))
                            if ok:
                                cx.same("probabilities", pr["data"].reshape(-1), want.real.reshape(-1), 1e-7)
                                cx.same("of the sites", [list(pr["basis"].shape), list(pr["basis"][1].shape)], [[len(times), n], [*shape, nb]])
                                cx.same("total probability", pr["data"].reshape(len(times), n).sum(axis=1), np.ones(len(times)), 1e-7)
                    ok, pr = cx.run("probability", lambda: tm.density_matrix_as_probability(rho))
                    if ok:
                        cx.same("probability", [pr["data"], np.array(pr["basis"].shape)], [p0, np.array([*shape, nb])])
                    # going on from a later state
                    ok, got = cx.run("continue", lambda: ei.calculate_tunnelling_simulation_state(op, {"basis": rho["basis"], "data": want[2]}, times))
                    if ok:
                        cx.same("continue", got["data"].reshape(len(times), n), np.array([propagate(m, p0.astype(complex), t + times[2]) for t in times]), 1e-7)
                    ok, dec = cx.run("rates of decay", lambda: ii.get_rate_decomposition(op, rho))
                    if ok:
                        cx.same("rates of decay", np.sort_complex(np.round(np.asarray(dec.eigenvalues).reshape(-1) / scale, 6)).shape, (n,))
                        back = sum(c * w for c, w in zip(dec.coefficients, v))
                        cx.same("coefficients", back, p0.astype(complex), 1e-7)
                        cx.same("each decays at its rate",
                                sum(c * w * np.exp(r * times[2]) for c, w, r in zip(dec.coefficients, v, np.asarray(dec.eigenvalues).reshape(-1))), want[2], 1e-7)
                    cx.state(shape, nb, name, start, want)
            cx.same("m matrix is kept", op["data"], m.astype(complex).reshape(-1), 0)
        cx.trace()


# -- scattering functions ---------------------------------------------------------


def isf_roots(tier: str):
    q = tier == "quick"
    shapes = [(1, 1), (3, 3), (1, 3), (2, 2), (3, 1), (2, 3)] if q else list(itertools.product(range(1, 5), repeat=2))
    for cell in CELLS:
        for s in shapes:
            for nb in (1, 2, 3):
                if s[0] * s[1] * nb >= 2:
                    yield {"cell": cell, "shape": list(s), "nb": nb}


@PROP.family("scattering", isf_roots)
def scattering(cfg, cx: Cx) -> None:
    shape, nb = tuple(cfg["shape"]), cfg["nb"]
    bb = bands(nb, cfg["cell"])
    basis = tb.get_basis_from_shape(shape, nb, bb)
    u = np.array(CELLS[cfg["cell"]])
    x = locations(bb, shape, nb)
    n = len(x)
    big = np.array([u[0] * shape[0], u[1] * shape[1]])
    dual = ref.reciprocal(big)
    times = np.array([0.0, 0.2, 1.5])
    # wavevectors for which the supercell is periodic, and others
    dks = [("periodic", a * dual[0] + b * dual[1]) for a, b in ((0, 0), (1, 0), (-1, 2), (3, 1))]
    dks += [("generic", np.array([0.7, -0.4])), ("generic", np.array([0.0, 2.1]))]
    for name, j in jump_sets(nb, (shape, "isf")):
        m = m_matrix(a_matrix(j, shape, nb))
        if np.linalg.cond(np.linalg.eig(m)[1]) > 1e5:
            continue
        op = operator(basis, m)
        _, s, vh = np.linalg.svd(m)
        connected = s[-2] > 1e-6 * s[0]
        eq = vh[-1].real / vh[-1].real.sum()
        band_weight = np.array([sum(eq[i] for i, site in enumerate(sites(shape, nb)) if site[2] == b) for b in range(nb)])
        evolved = np.array([[propagate(m, np.eye(n, dtype=complex)[i], t).real for t in times] for i in range(n)])

        def wanted(origin, dk, p):
            return p @ np.exp(1j * shortest(x - origin, u, shape) @ dk)

        def ambiguous(kind, origin):
            f = (x - origin) @ np.linalg.inv(big)
            return kind != "periodic" and np.any(np.abs(f - np.floor(f) - 0.5) < 1e-6)

        for kind, dk in dks:
            with cx.at(f"{name} {kind} {np.round(dk, 3).tolist()}"):
                for i in range(n):
                    if ambiguous(kind, x[i]):
                        cx.note("half way around the supercell: either way")
                        continue
                    rho = {"basis": TupleBasis(basis, basis), "data": np.eye(n, dtype=complex)[i]}
                    ok, got = cx.run(f"from {i}", lambda: ii.calculate_isf_at_times(op, rho, times, dk))
                    if ok:
                        want = wanted(x[i], dk, evolved[i])
                        cx.same(f"from {i}", got["data"], want, 1e-7)
                        cx.same("begins at one", got["data"][0], 1.0 + 0j, 1e-7)
                        cx.same("times", got["basis"][0].times, times)
                        cx.state(cfg, kind, dk, name, i, want)
                    direct = {"basis": TupleBasis(ExplicitTimeBasis(times), basis), "data": evolved[i].reshape(-1)}
                    cx.step("of occupations", lambda: fi.calculate_isf_approximate_locations({"basis": basis, "data": np.eye(n)[i]}, direct, dk)["data"],
                            wanted(x[i], dk, evolved[i]), tol=1e-7)
                if not connected:
                    continue
                if not any(ambiguous(kind, x[b]) for b in range(nb)):
                    want = sum(band_weight[b] * wanted(x[b], dk, evolved[b]) for b in range(nb))
                    ok, got = cx.run("average over bands", lambda: ii.calculate_equilibrium_state_averaged_isf(op, times, dk))
                    if ok:
                        cx.same("average over bands", got["data"], want, 1e-7)
                        cx.same("average over bands times", got["basis"][0].times, times)
                centre = band_weight @ x[:nb]
                if not ambiguous(kind, centre):
                    want = wanted(centre, dk, np.einsum("b,btn->tn", band_weight, evolved[:nb]))
                    ok, got = cx.run("average over starts", lambda: ii.calculate_equilibrium_initial_state_isf(op, times, dk))
                    if ok:
                        cx.same("average over starts", got["data"], want, 1e-7)
                        cx.same("average over starts times", got["basis"][0].times, times)
        cx.trace()


# -- two sites per cell: the closed forms -------------------------------------------


def fey_rates(tier):
    lams = (0.02, 0.1, 0.3, 0.5, 0.8, 0.95, 1.3, 4.0)
    return lams[::2] if tier == "quick" else lams


def fey_roots(tier: str):
    for lam in (0.02, 0.1, 0.3, 0.5, 0.8, 0.95, 1.3, 4.0):
        for fast in (1.0, 2.3, 1.4e9):
            yield {"lam": lam, "fast": fast, "n": 5 if tier == "quick" else 9}


def two_sites(fast, slow, f, t):
    """Sum over the two sites of the scattering function, started from equilibrium."""
    m = np.array([[-slow, fast * np.conj(f)], [slow * f, -fast]], dtype=complex)
    p = np.array([fast, slow], dtype=complex) / (fast + slow)
    return np.array([propagate(m, p, x).sum() for x in t])


@PROP.family("closed forms", fey_roots)
def fey(cfg, cx: Cx) -> None:
    fast, lam, n = cfg["fast"], cfg["lam"], cfg["n"]
    slow = lam * fast
    t = np.array([0.0, 0.05, 0.4, 1.0, 2.5, 7.0]) / fast
    for a in np.concatenate((np.arange(0.1, 13.0, 0.45), [2.0])):
        a = float(a)
        f110 = (1 + 2 * np.cos(a / 2)) / 3
        f112 = (np.exp(1j * a / np.sqrt(3)) + 2 * np.exp(-1j * a / np.sqrt(12))) / 3
        fit = fi.ISFFeyModelFit(fast, slow, a)
        with cx.at(f"a_dk={a:.3f}"):
            if abs(f110) > 1e-2:
                want = two_sites(fast, slow, f110, t)
                cx.step("110", lambda: fi.calculate_isf_fey_model_110(t, fast, slow, a_dk=a), want.real, tol=1e-6)
                ok, got = cx.run("110 as a list", lambda: fi.get_isf_from_fey_model_fit_110(fit, t))
                if ok:
                    cx.same("110 as a list", [got["data"], got["basis"][0].times * fast], [want, t * fast], 1e-6)
            if abs(f112) > 1e-2:
                want = two_sites(fast, slow, f112, t)
                cx.step("112bar", lambda: fi.calculate_isf_fey_model_112bar(t, fast, slow, a_dk=a), want.real, tol=1e-6)
                ok, got = cx.run("112bar as a list", lambda: fi.get_isf_from_fey_model_fit_112bar(fit, t))
                if ok:
                    cx.same("112bar as a list", [got["data"], got["basis"][0].times * fast], [want, t * fast], 1e-6)
            # the two rates of decay, with free amplitudes
            m = np.array([[-slow, fast * f110], [slow * f110, -fast]])
            r = sorted(-np.linalg.eigvals(m).real)
            want = 0.3 * np.exp(-r[1] * t) + 0.6 * np.exp(-r[0] * t) + 0.05
            cx.step("110 with amplitudes", lambda: fi.calculate_isf_fey_4_variable_model_110(t, fast, 0.3, slow, 0.6, 0.05, a_dk=a), want, tol=1e-6)
            ok, got = cx.run("110 with amplitudes as a list", lambda: fi.get_isf_from_fey_4_variable_model_110(fi.ISFFey4VariableFit(a, fast, 0.3, slow, 0.6, 0.05), t))
            if ok:
                cx.same("110 with amplitudes as a list", [got["data"], got["basis"][0].times * fast], [want.astype(complex), t * fast], 1e-6)
            cx.state(lam, fast, a, want)
    want = 0.3 * np.exp(-fast * t) + 0.6 * np.exp(-slow * t) + 0.05
    ok, got = cx.run("double exponential", lambda: fi.get_isf_from_4_variable_fit(fi.ISF4VariableFit(fast, 0.3, slow, 0.6, 0.05), t))
    if ok:
        cx.same("double exponential", [got["data"], got["basis"][0].times * fast], [want.astype(complex), t * fast])
    if lam < 1:
        y = np.sqrt((1 - lam) ** 2 + 4 * lam * (5 + 4 * np.cos(np.sqrt(3))) / 9)
        decay = fi.ISF4VariableFit(fast * (1 + lam + y) / 2, 0.4, fast * (1 + lam - y) / 2, 0.6, 0.0)
        ok, got = cx.run("rates from decays", lambda: fi.extract_fey_rate_from_4_variables_fit_112bar(decay))
        if ok:
            cx.same("rates from decays", [got.fast_rate / fast, got.slow_rate / fast, got.a_dk], [1.0, lam, 2.0], 1e-6)
    # the same surface as a lattice of two sites per cell
    bb = tb.TunnellingSimulationBandsBasis(np.array([[0, 1 / 3], [0, 1 / 3]]), tuple(np.array(v) for v in CELLS["hex"]))
    jumps = np.zeros((2, 2, 9))
    for h in ((0, 0), (-1, 0), (0, -1)):
        jumps[0, 1, HOPS.index(h)] = slow / 3
        jumps[1, 0, HOPS.index((-h[0], -h[1]))] = fast / 3
    ok, m = cx.run("lattice", lambda: tm.get_tunnelling_m_matrix(tm.get_a_matrix_from_jump_matrix(operator(bb, jumps), (n, n))))
    if ok:
        for k in range(1, n):
            for what, dk, fn in (("110", np.array([4 * np.pi * k / n, 0.0]), fi.calculate_isf_fey_model_110),
                                 ("112bar", np.array([0.0, 4 * np.pi * k / n / np.sqrt(3)]), fi.calculate_isf_fey_model_112bar)):
                a = float(np.linalg.norm(dk))
                f = (1 + 2 * np.cos(a / 2)) / 3 if what == "110" else (np.exp(1j * a / np.sqrt(3)) + 2 * np.exp(-1j * a / np.sqrt(12))) / 3
                if abs(f) < 1e-2:
                    continue
                ok, got = cx.run(f"lattice {what} {k}", lambda: ii.calculate_equilibrium_state_averaged_isf(m, t, dk))
                if ok:
                    cx.same(f"lattice {what} {k}", got["data"], two_sites(fast, slow, f, t), 1e-6)
                    cx.step(f"closed form {what} {k}", lambda: got["data"].real - fn(t, fast, slow, a_dk=a), np.zeros(len(t)), tol=1e-6)
    cx.trace()


# -- where the bands are ------------------------------------------------------------


def place_roots(tier: str):
    for lat in ref.LATTICES[3]:
        for n in (1, 3) if tier == "quick" else (1, 3, 5):
            for n2 in (1, 2):
                for big in ((1, 1), (2, 2), (2, 3)):
                    yield {"lat": lat, "cell": [n, n, n2], "list": [*big, 1]}


@PROP.family("places", place_roots)
def places(cfg, cx: Cx) -> None:
    """Bands peaked at each point of the cell are put at that point, symmetrised about the diagonal."""
    ns, bigs = tuple(cfg["cell"]), tuple(cfg["list"])
    dx = np.array(ref.LATTICES[3][cfg["lat"]])
    state = ref.build(["S", [["FMP", d.tolist(), k] for d, k in zip(dx, ns)]])
    lst = ref.build(["S", [["FM", b] for b in bigs]])
    points = list(itertools.product(*(range(k) for k in ns)))
    nl = int(np.prod(bigs))
    n = len(points)

    def peaked(at, q):
        # the periodic part of a wavefunction peaked at the point: the plane wave q is kept out of the sum
        amp = np.array([np.exp(-2j * np.pi * sum(k * p / m for k, p, m in zip(pt, at, ns))) for pt in points])
        return (amp * (1 + 0.1 * q)) / np.sqrt(n)

    for chunk in range(0, n, 4):
        some = points[chunk : chunk + 4]
        data = np.array([[peaked(at, 0) for _ in range(nl)] for at in some])
        pack = {
            "basis": TupleBasis(TupleBasis(FundamentalBasis(len(some)), lst), state),
            "data": data.reshape(-1),
            "eigenvalue": np.zeros(len(some) * nl, dtype=complex),
        }
        ok, b = cx.run(f"bands from {chunk}", lambda: tb.TunnellingSimulationBandsBasis.from_wavepackets(pack))
        if ok:
            want = np.zeros((2, len(some)))
            for i, at in enumerate(some):
                w = [int((k + m // 2) % m - m // 2) for k, m in zip(at, ns)]
                want[:, i] = (w[0] + w[1]) / 2 / ns[0]
            cx.same("locations", b.locations, want)
            cx.same("unit cell", np.array([np.asarray(v) for v in b.unit_cell]), dx[:2, :2])
            cx.same("number of bands", b.n, len(some))
            cx.state(cfg, some, want)
    cx.trace()


# -- fits to the closed forms --------------------------------------------------------


def fit_roots(tier: str):
    q = tier == "quick"
    for fast in (0.8, 1.0, 1.3) if q else (0.8, 0.9, 1.0, 1.15, 1.3):
        for slow in (0.9, 1.0, 1.2) if q else (0.85, 0.9, 1.0, 1.1, 1.2):
            for dk in (0.5, 2.0, 5.0) if q else (0.5, 1.0, 2.0, 3.1, 5.0):
                for n in (40, 90):
                    yield {"fast": fast, "slow": slow, "dk": dk, "n": n}


def diagonal(t, data):
    return {"basis": TupleBasis(ExplicitTimeBasis(t), ExplicitTimeBasis(t)), "data": data}


@PROP.family("fits", fit_roots)
def fits(cfg, cx: Cx) -> None:
    """A scattering function which the model gives exactly is given back by the fit, points left out never matter."""
    dk, n = cfg["dk"], cfg["n"]
    measures = {"real": lambda d: d + 0.3j, "imag": lambda d: 0.2 + 1j * d, "abs": lambda d: d * np.exp(1j * np.linspace(0, 3, len(d)))}

    def both(what, t, data, fit, curve, tol, check=lambda f: True):
        """Every measure of the same data has the same fit, which goes through the data."""
        first = None
        for name, disguise in measures.items():
            ok, f = cx.run(f"{what} {name}", lambda: fit(diagonal(t, disguise(data)), name))
            if not ok:
                continue
            cx.same(f"{what} {name} goes through the data", curve(f, t)["data"], data.astype(complex), tol)
            cx.same(f"{what} {name} constraints", bool(check(f)), True)
            got = np.array([v for v in vars(f).values()], dtype=float)
            if first is None:
                first = got
                cx.state(cfg, what, got)
            elif name != "abs" or dk > 1:
                cx.same(f"{what} {name} same data, same fit", curve(f, t)["data"], curve(type(f)(*first), t)["data"], 10 * tol)

    fast, slow = cfg["fast"] * 1.4e9, cfg["slow"] * 3e8
    t = np.linspace(0, 6 / slow, n)
    both("110", t, fi.calculate_isf_fey_model_110(t, fast, slow, a_dk=dk), lambda o, m: fi.fit_isf_to_fey_model_110(o, measure=m, a_dk=dk),
         fi.get_isf_from_fey_model_fit_110, 1e-4, lambda f: f.a_dk == dk)
    fast, slow = cfg["fast"] * 2e10, cfg["slow"] * 1e10
    t = np.linspace(0, 6 / slow, n)
    both("112bar", t, fi.calculate_isf_fey_model_112bar(t, fast, slow, a_dk=dk), lambda o, m: fi.fit_isf_to_fey_model_112bar(o, measure=m, a_dk=dk),
         fi.get_isf_from_fey_model_fit_112bar, 1e-4, lambda f: f.a_dk == dk)
    for a, b in ((0.5, 0.5), (0.3, 0.6), (0.7, 0.2)):
        data = a * np.exp(-fast * t) + b * np.exp(-slow * t) + (1 - a - b)
        both(f"double exponential {a}", t, data, lambda o, m: fi.fit_isf_to_double_exponential(o, measure=m), fi.get_isf_from_4_variable_fit, 1e-4,
             lambda f: abs(f.fast_amplitude + f.slow_amplitude + f.baseline - 1) < 1e-9)
    fast, slow = cfg["fast"] * 1.4e9, cfg["slow"] * 0.7e9
    t = np.linspace(0, 6 / slow, n)
    data = fi.calculate_isf_fey_4_variable_model_110(t, fast, 0.25, slow, 0.7, 0.04, a_dk=dk)
    lam = slow / fast
    both("110 with amplitudes", t, data, lambda o, m: fi.fit_isf_to_fey_4_variable_model_110(o, measure=m, a_dk=dk),
         fi.get_isf_from_fey_4_variable_model_110, 3e-4, lambda f: f.a_dk == dk)
    both("110 with a ratio", t, data, lambda o, m: fi.fit_isf_to_fey_4_variable_model_110_fixed_ratio(o, lam, measure=m, a_dk=dk),
         fi.get_isf_from_fey_4_variable_model_110, 1e-4, lambda f: f.a_dk == dk and abs(f.slow_rate - lam * f.fast_rate) < 1e-9 * f.slow_rate)
    # only the times asked for
    for lo in range(3):
        wrong = data.copy()
        wrong[: lo + 1] = [5.0, 7.0, -3.0][: lo + 1]
        ok, f = cx.run(f"starting after {lo}", lambda: fi.fit_isf_to_fey_4_variable_model_110(diagonal(t, wrong.astype(complex)), measure="real", a_dk=dk, start_t=t[lo]))
        if ok:
            cx.same(f"starting after {lo}", fi.get_isf_from_fey_4_variable_model_110(f, t)["data"].real, data, 5e-4)
        for hi in range(1, 4):
            wrong[n - hi :] = 4.0
            end = {} if hi == 1 else {"end_t": t[n - hi]}
            ok, f = cx.run(f"after {lo} before {-hi}", lambda: fi.fit_isf_to_fey_4_variable_model_110_fixed_ratio(
                diagonal(t, wrong.astype(complex)), lam, measure="real", a_dk=dk, start_t=t[lo], **end))
            if ok:
                cx.same(f"after {lo} before {-hi}", fi.get_isf_from_fey_4_variable_model_110(f, t)["data"].real, data, 5e-4)
    # which fits are drawn as the function they stand for
    for what, draw, fit, curve in (
        ("110", fp.plot_isf_fey_model_fit_110_against_time, fi.ISFFeyModelFit(fast, slow, dk), fi.get_isf_from_fey_model_fit_110),
        ("112bar", fp.plot_isf_fey_model_fit_112bar_against_time, fi.ISFFeyModelFit(fast, slow, dk), fi.get_isf_from_fey_model_fit_112bar),
        ("4 variables", fp.plot_isf_4_variable_fit_against_time, fi.ISF4VariableFit(fast, 0.3, slow, 0.6, 0.05), fi.get_isf_from_4_variable_fit),
        ("110 with amplitudes", fp.plot_isf_fey_4_variable_fit_against_time, fi.ISFFey4VariableFit(dk, fast, 0.25, slow, 0.7, 0.04),
         fi.get_isf_from_fey_4_variable_model_110),
    ):
        want = curve(fit, t)["data"]
        for measure, values in (("abs", np.abs(want)), ("real", want.real), ("imag", want.imag)):
            ok, drawn = cx.run(f"drawing {what} {measure}", lambda: draw(fit, t, measure=measure))
            if ok:
                fig, ax, line = drawn
                cx.same(f"drawing {what} {measure}", [np.asarray(line.get_xdata()) * fast, np.asarray(line.get_ydata())], [t * fast, values], 1e-9)
                cx.same(f"drawing {what} {measure} limits", ax.get_ylim(), (0, 1.01))
                plt.close(fig)
    cx.trace()
