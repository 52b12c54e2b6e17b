"""C12: localisation only re-mixes the Bloch states, and the localised states are what they are said to be."""

from __future__ import annotations

import itertools
import json

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata, unitary
from mc.props.c11 import decompress, flat, momentum_spec, position, position_list, skinds, sizes, large
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.operator.conversion import convert_operator_to_basis
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_momentum_basis,
    stacked_basis_as_fundamental_position_basis,
)
from surface_potential_analysis.state_vector import util as su
from surface_potential_analysis.state_vector.conversion import convert_state_vector_list_to_basis
from surface_potential_analysis.wavepacket import get_eigenstate as wg
from surface_potential_analysis.wavepacket import localization as wl
from surface_potential_analysis.wavepacket import localization_operator as lo
from surface_potential_analysis.wavepacket import wavepacket as ww
from surface_potential_analysis.wavepacket.localization import _projection as pj
from surface_potential_analysis.wavepacket.localization import _tight_binding as tb

PROP = Property(
    "C12",
    rule="Every lattice of a fixed family, every shape of the list of wavevectors times every shape of the unit cell up to "
    "the bound, every kind of state basis, every number of bands and of localised states, every kind of mixing.",
    assumptions=["the wavefunctions at each wavevector are orthonormal", "every wavevector of the list is kept"],
)


def roots(tier: str):
    q = tier == "quick"
    for name in ("line2", "neg") if q else ref.LATTICES[1]:
        for shape in itertools.product(range(1, 5 if q else 7), range(1, 6 if q else 8)):
            yield {"dim": 1, "lat": name, "list": [shape[0]], "cell": [shape[1]]}
    shapes2 = [((1, 2), (2, 3)), ((2, 3), (3, 2)), ((3, 2), (1, 4)), ((2, 2), (2, 2)), ((3, 1), (4, 3))]
    if not q:
        shapes2 = list(itertools.product(itertools.product((1, 2, 3), repeat=2), itertools.product((1, 2, 3, 4), repeat=2)))
    for name in list(ref.LATTICES[2])[: 2 if q else None]:
        for a, b in shapes2:
            yield {"dim": 2, "lat": name, "list": list(a), "cell": list(b)}
    shapes3 = [((2, 1, 3), (1, 2, 2)), ((2, 3, 1), (3, 2, 2)), ((3, 2, 1), (2, 2, 2)), ((2, 2, 1), (3, 3, 1))]
    if not q:
        shapes3 += [((1, 2, 2), (2, 3, 1)), ((3, 2, 2), (2, 1, 3)), ((2, 2, 2), (2, 2, 2))]
    for name in list(ref.LATTICES[3])[1 : 2 if q else None]:
        for a, b in shapes3:
            yield {"dim": 3, "lat": name, "list": list(a), "cell": list(b)}


def setting(cfg):
    """The lattice with every state basis tried on it."""
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    per = [skinds(d, n) for d, n in zip(dx, cfg["cell"])]
    cells = [["S", [p[i] for p in per]] for i in range(4)] + [["S", [p[(1 + i) % 4] for i, p in enumerate(per)]]]
    cells = [json.loads(s) for s in dict.fromkeys(json.dumps(x) for x in cells)]
    lspec = ["S", [["FM", b] for b in cfg["list"]]]
    return dx, lspec, cells


def bands_data(nb, nl, nst, key=""):
    """Orthonormal wavefunctions at each wavevector."""
    data = np.zeros((nb, nl, nst), dtype=complex)
    for j in range(nl):
        data[:, j] = unitary(nst, "bands", key, j, nst)[:nb]
    return data


def packed(data, lspec, sspec, energy=None):
    out = {
        "basis": TupleBasis(TupleBasis(FundamentalBasis(data.shape[0]), ref.build(lspec)), ref.build(sspec)),
        "data": data.reshape(-1).copy(),
    }
    if energy is not None:
        out["eigenvalue"] = energy.astype(complex).reshape(-1)
    return out


def single(data, lspec, sspec, energy=None):
    out = {"basis": TupleBasis(ref.build(lspec), ref.build(sspec)), "data": data.reshape(-1).copy()}
    if energy is not None:
        out["eigenvalue"] = energy.astype(complex).reshape(-1)
    return out


def counts(nst):
    return sorted({1, min(2, nst), min(3, nst)})


# -- mixing the bands at each wavevector -----------------------------------------


# the guess of the decaying projection, where there is a function for it alone
DECAYING = getattr(pj, "_get_exponential_decay_state", None)


@PROP.family("localised states", roots)
def localised(cfg, cx: Cx) -> None:
    dx, lspec, cells = setting(cfg)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl = int(np.prod(bigs))
    for sspec in cells:
        nst = ref.n_of(sspec)
        for nb in counts(nst):
            data = bands_data(nb, nl, nst)
            energy = rdata((nb, nl), "energy", nb, nl)
            psi = decompress(data, lspec, sspec)
            packs = packed(data, lspec, sspec, energy)
            mixes = [("identity", np.repeat(np.eye(nb, dtype=complex)[None], nl, axis=0)),
                     ("phases", np.array([np.diag(np.exp(1j * rdata(nb, "phase", j))) for j in range(nl)])),
                     ("unitary", np.array([unitary(nb, "mix", j) for j in range(nl)]))]
            if nb > 1:
                mixes.append(("fewer", np.array([unitary(nb, "mix", j)[: nb - 1] for j in range(nl)])))
            for name, u in mixes:
                with cx.at(json.dumps(sspec), nb, name):
                    one_mix(cx, packs, data, psi, energy, u, name, cfg)


def one_mix(cx, packs, data, psi, energy, u, name, cfg):
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl, nw, nb = u.shape
    nx = psi.shape[2]
    lb = packs["basis"][0][1]
    bands = packs["basis"][0][0]
    op = {"basis": TupleBasis(lb, TupleBasis(bands if nw == nb else FundamentalBasis(nw), bands)), "data": u.reshape(-1).copy()}
    before = packs["data"].copy(), op["data"].copy()
    mixed = np.einsum("jwb,bjs->wjs", u, data)
    states = np.einsum("jwb,bjx->wjx", u, psi)

    def whole(p):
        return [[int(p["basis"][0][0].n), int(p["basis"][0][1].n), int(p["basis"][1].n)], flat(p["data"])]

    cx.step("localised wavefunctions", lambda: whole(lo.get_localized_wavepackets(packs, op)), [[nw, nl, data.shape[2]], mixed.reshape(-1)])
    if name == "identity":
        ok, got = cx.run("identity", lambda: lo.get_identity_operator(packs["basis"][0]))
        if ok:
            cx.same("identity", [int(got["basis"][0].n), flat(got["data"])], [nl, u.reshape(-1)])
            cx.step("identity applied", lambda: flat(lo.get_localized_wavepackets(packs, got)["data"]), data.reshape(-1))
    if name in ("identity", "phases"):
        d = np.einsum("jbb->jb", u)
        ok, got = cx.run("as diagonal", lambda: lo.localization_operator_as_diagonal(op))
        if ok:
            cx.same("as diagonal", flat(got["data"]), d.reshape(-1))
            cx.step("diagonal applied", lambda: whole(lo.get_diagonal_localized_wavepackets(packs, got)), [[nw, nl, data.shape[2]], mixed.reshape(-1)])
            cx.step("as full", lambda: flat(lo.diagonal_localization_operator_as_full(got)["data"]), u.reshape(-1))
    local = np.einsum("jwb,bj,jvb->jwv", u.conj(), energy, u)
    cx.step("Hamiltonian at each wavevector", lambda: flat(wg.get_wannier_hamiltonian(packs, op)["data"]), local.reshape(-1))

    ok, got = cx.run("Wannier states", lambda: wg.get_wannier_states(packs, op))
    if not ok:
        return
    cx.same("sizes", [int(b.n) for b in got["basis"][0]], [nw, nl])
    cx.same("lattice", sizes(got["basis"][1]), large(np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]]), bigs, ns))
    w = position_list(got).reshape(nw, nl, nx)
    home = states.sum(axis=1) / np.sqrt(nl)
    stacked = home.reshape(nw, *(b * n for b, n in zip(bigs, ns)))
    axes = tuple(range(1, 1 + len(ns)))
    candidates = []
    for sign in (1, -1):
        candidates.append(np.array([np.roll(stacked, tuple(sign * o * n for o, n in zip(off, ns)), axis=axes).reshape(nw, nx)
                                    for off in itertools.product(*(range(b) for b in bigs))]).transpose(1, 0, 2))
    cx.holds("translations", any(np.allclose(w, c, atol=1e-9) for c in candidates), "not the translations of the sum over wavevectors")
    rows = w.reshape(nw * nl, nx)
    cx.same("orthonormal", rows.conj() @ rows.T, np.eye(nw * nl))
    if nw == nb:
        every = psi.reshape(nb * nl, nx)
        cx.same("span", rows.T @ rows.conj(), every.T @ every.conj())
    cx.state("wannier", name, w)

    ok, basis = cx.run("Wannier basis", lambda: wg.get_wannier_basis(packs, op))
    if ok:
        v = cdata(nw * nl, "wannier coefficients")
        cx.step("basis into positions", lambda: flat(basis.__into_fundamental__(v, -1)), v @ rows)
    h = np.einsum("bjx,bj,bjy->xy", psi, energy, psi.conj())
    ok, got = cx.run("Wannier Hamiltonian", lambda: wg.get_full_wannier_hamiltonian(packs, op))
    if ok:
        cx.same("Wannier Hamiltonian", np.asarray(got["data"]).reshape(nw * nl, nw * nl), rows.conj() @ h @ rows.T)
        if nw == nb and nx <= 40:
            b = stacked_basis_as_fundamental_position_basis(got["basis"][0].vectors["basis"][1])
            cx.step("Hamiltonian in positions", lambda: np.asarray(convert_operator_to_basis(got, TupleBasis(b, b))["data"]).reshape(nx, nx), h)
    cx.holds("inputs kept", np.array_equal(before[0], packs["data"]) and np.array_equal(before[1], op["data"]), "input changed")
    cx.trace()


# -- mixing found from projections --------------------------------------------------


@PROP.family("projections", roots)
def projections(cfg, cx: Cx) -> None:
    dx, lspec, cells = setting(cfg)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl = int(np.prod(bigs))
    big_dx = [list(d * b) for d, b in zip(dx, bigs)]
    fp = ["S", [["FP", d, b * n] for d, b, n in zip(big_dx, bigs, ns)]]
    guesses = [fp, ["S", [["FMP", d, b * n] for d, b, n in zip(big_dx, bigs, ns)]],
               ["S", [["MP", d, max(1, b * n - 1), b * n] for d, b, n in zip(big_dx, bigs, ns)]]]
    for sspec in cells:
        nst = ref.n_of(sspec)
        for nb in counts(nst):
            data = bands_data(nb, nl, nst)
            psi = decompress(data, lspec, sspec)
            packs = packed(data, lspec, sspec)
            gauge = np.array([unitary(nb, "gauge", j) for j in range(nl)])
            other = packed(np.einsum("jcb,bjs->cjs", gauge, data), lspec, sspec)
            for gspec in guesses:
                for nw in sorted({1, nb}):
                    ng = ref.n_of(gspec)
                    g = cdata((nw, ng), "guess", ng)
                    gx = g @ ref.transfer(gspec, fp)
                    overlap = np.einsum("wx,bjx->jbw", gx, psi.conj())
                    smallest = min(np.linalg.svd(o, compute_uv=False)[-1] for o in overlap)
                    if smallest < 1e-4:
                        cx.note("guess with no overlap at some wavevector: no unique answer")
                        continue
                    states = {"basis": TupleBasis(FundamentalBasis(nw), ref.build(gspec)), "data": g.reshape(-1).copy()}
                    with cx.at(json.dumps(sspec), nb, gspec[1][0][0], nw):
                        ok, op = cx.run("operator", lambda: wl.get_localization_operator_for_projections(packs, states))
                        if not ok:
                            continue
                        cx.same("sizes", [int(op["basis"][0].n), int(op["basis"][1][0].n), int(op["basis"][1][1].n)], [nl, nw, nb])
                        u = np.asarray(op["data"]).reshape(nl, nw, nb)
                        cx.same("isometry", np.einsum("jwb,jvb->jwv", u.conj(), u), np.repeat(np.eye(nw)[None], nl, axis=0))
                        local = np.einsum("jwb,bjx->wjx", u, psi)
                        over = np.einsum("vx,wjx->jvw", gx.conj(), local)
                        cx.same("overlap is hermitian", over, over.conj().transpose(0, 2, 1))
                        cx.holds("overlap is positive", min(np.linalg.eigvalsh(o)[0] for o in over) > -1e-9, "negative overlap with the guess")
                        if nw == nb:
                            # the closest states of the span: every wavevector keeps the projected span
                            a = np.einsum("jbw,bjx->wjx", overlap, psi)
                            for j in range(nl):
                                s = a[:, j].conj() @ a[:, j].T
                                val, vec = np.linalg.eigh(s)
                                root = vec @ np.diag(val**-0.5) @ vec.conj().T
                                cx.same("closest states", local[:, j], root.T @ a[:, j], 1e-6)
                        want = np.einsum("jwb,bjs->wjs", u, data)
                        cx.step("localise", lambda: flat(wl.localize_wavepacket_projection(packs, states)["data"]), want.reshape(-1))
                        ok, got = cx.run("another gauge", lambda: wl.localize_wavepacket_projection(other, states))
                        if ok:
                            cx.same("another gauge", flat(got["data"]), want.reshape(-1), 1e-6)
                        if nw == 1:
                            for i in range(nb):
                                ov = np.einsum("x,jx->j", gx[0], psi[i].conj())
                                ok, got = cx.run("one band", lambda: wl.localize_single_band_wavepacket_projection(
                                    single(data[i], lspec, sspec), {"basis": ref.build(gspec), "data": g[0].copy()}))
                                if ok and np.min(np.abs(ov)) > 1e-4:
                                    cx.same("one band", flat(got["data"]), (data[i] * (ov / np.abs(ov))[:, None]).reshape(-1), 1e-6)
                        cx.trace()


# -- phases of one band ---------------------------------------------------------------


def large_index(idx, bigs, ns):
    return int(np.ravel_multi_index(idx, tuple(b * n for b, n in zip(bigs, ns)), mode="wrap"))


def in_cell(idx, ns):
    """The representative of a point in the cell around the origin."""
    return tuple(int((i + n // 2) % n - n // 2) for i, n in zip(idx, ns))


def only_phases(cx, what, got, data):
    """got holds the wavefunctions of data, each times one phase; the phases."""
    got = np.asarray(got).reshape(data.shape)
    ratio = np.einsum("qs,qs->q", got, data.conj())
    cx.same(f"{what}: only phases", got, ratio[:, None] * data)
    cx.same(f"{what}: modulus", np.abs(ratio), np.ones(len(ratio)))
    return ratio


@PROP.family("phases", roots)
def phases(cfg, cx: Cx) -> None:
    dx, lspec, cells = setting(cfg)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl, ncell = int(np.prod(bigs)), int(np.prod(ns))
    for sspec in cells:
        nst = ref.n_of(sspec)
        data = bands_data(1, nl, nst, "phases")[0]
        psi = decompress(data[None], lspec, sspec)[0]
        pack = single(data, lspec, sspec)
        with cx.at(json.dumps(sspec)):
            for angle in (0, 0.7):
                for i in range(ncell):
                    stacked = tuple(int(k) for k in np.unravel_index(i, ns))
                    outside = tuple(k - n if j % 2 == 0 else k + n for j, (k, n) in enumerate(zip(stacked, ns)))
                    for how, idx in (("flat", i), ("stacked", stacked), ("another cell", outside)):
                        at = large_index(stacked if how == "flat" else idx, bigs, ns)
                        if np.min(np.abs(psi[:, at])) < 1e-6:
                            cx.note("node at the point: no phase")
                            continue
                        ok, got = cx.run(f"at point {how}", lambda: wl.localize_tightly_bound_wavepacket_idx(pack, idx, angle))
                        if ok:
                            r = only_phases(cx, "at point", got["data"], data)
                            cx.same("phase at the point", psi[:, at] * r, np.abs(psi[:, at]) * np.exp(1j * angle))
                            cx.state("point", angle, idx, r)
                top = np.abs(psi[0])
                tops = [i for i in range(len(top)) if top[i] > top.max() - 1e-9]
                if len(tops) == nl and np.min(np.abs(psi[:, tops[0]])) > 1e-6:
                    ok, got = cx.run("at the maximum", lambda: wl.localize_tightly_bound_wavepacket_max_point(pack, angle))
                    if ok:
                        r = only_phases(cx, "at the maximum", got["data"], data)
                        cx.holds("phase at the maximum", any(np.allclose(psi[:, t] * r, np.abs(psi[:, t]) * np.exp(1j * angle), atol=1e-8) for t in tops),
                                 "no maximum at which every state has this phase")
                if cfg["dim"] >= 2:
                    two_points(cx, cfg, pack, data, psi, angle, tops)
        cx.trace()


def two_points(cx, cfg, pack, data, psi, angle, tops):
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    if cfg["dim"] != 3 or ns[0] != ns[1] or bigs[2] != 1 or len(tops) != int(np.prod(bigs)):
        return
    shape = tuple(b * n for b, n in zip(bigs, ns))
    first = in_cell(np.unravel_index(tops[0], shape), ns)
    mirrored = in_cell((first[1], first[0], *first[2:]), ns)
    for offset in ((0, 0), (1, 0), (-1, 2)):
        shift = (offset[0] * ns[0], offset[1] * ns[1], 0)
        a = tuple(i + s for i, s in zip(first, shift))
        b = tuple(i + s for i, s in zip(mirrored, shift))
        # the mirror image of the shifted point, brought back to the same cell
        ok, got = cx.run(f"two points {offset}", lambda: tb.get_wavepacket_two_points(pack, offset))
        if not ok or not cx.same(f"two points {offset}", [[int(i) for i in p] for p in got], [list(a), list(b)]):
            continue
        va, vb = psi[:, large_index(a, bigs, ns)], psi[:, large_index(b, bigs, ns)]
        if min(np.min(np.abs(va)), np.min(np.abs(vb))) < 1e-6:
            continue
        ok, got = cx.run(f"between two points {offset}", lambda: wl.localize_tightly_bound_wavepacket_two_point_max(pack, offset, angle))
        if ok:
            r = only_phases(cx, "between two points", got["data"], data)
            pa, pb = np.angle(va * r), np.angle(vb * r)
            # up to a sign the phases at the two points lie evenly around the angle, a quarter turn apart at most
            cx.same("evenly around the angle", np.exp(2j * (pa + pb - 2 * angle)), np.ones(len(pa)), 1e-6)
            cx.holds("first point near the angle", np.all(np.cos(pa - angle) > np.cos(np.pi / 4) - 1e-9), "more than an eighth of a turn away")


# -- starting guesses -------------------------------------------------------------------


def around(origin, ns, bigs):
    """Flat indices of the unit cell of points around an origin."""
    return {large_index(p, bigs, ns) for p in itertools.product(*(range(o - n // 2, o - n // 2 + n) for o, n in zip(origin, ns)))}


@PROP.family("starting guesses", roots)
def guesses(cfg, cx: Cx) -> None:
    dx, lspec, cells = setting(cfg)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl, ncell = int(np.prod(bigs)), int(np.prod(ns))
    shape = tuple(b * n for b, n in zip(bigs, ns))
    nx = int(np.prod(shape))
    points = list(itertools.product(*(range(s) for s in shape)))

    def distance(origin):
        """Squared distance in units of the cell, along the shortest way around the large lattice."""
        return np.array([sum((((p - o + s // 2) % s - s // 2) / n) ** 2 for p, o, s, n in zip(pt, origin, shape, ns)) for pt in points])

    for sspec in cells:
        nst = ref.n_of(sspec)
        data = bands_data(1, nl, nst, "guess")[0]
        psi = decompress(data[None], lspec, sspec)[0]
        pack = single(data, lspec, sspec)
        wanted_sizes = large(dx, bigs, ns)
        with cx.at(json.dumps(sspec)):
            origins = [None, tuple(0 for _ in ns), tuple(n - 1 for n in ns), tuple(-1 for _ in ns), tuple(n + 1 for n in ns)]
            for j in sorted({0, nl - 1}):
                top = np.abs(psi[j])
                tops = [i for i in range(nx) if top[i] > top.max() - 1e-9]
                for origin in origins:
                    if origin is None and len(tops) != nl:
                        continue
                    centre = in_cell(np.unravel_index(tops[0], shape), ns) if origin is None else origin
                    keep = around(centre, ns, bigs)
                    ok, got = cx.run(f"one cell {j} {origin}", lambda: wg.get_tight_binding_state(pack, j, origin))
                    if ok:
                        want = np.array([psi[j, i] if i in keep else 0 for i in range(nx)])
                        cx.same(f"one cell {j} {origin}", position(got), want)
                        cx.same("lattice", sizes(got["basis"]), wanted_sizes)
                    ok, got = cx.run(f"one point {j} {origin}", lambda: pj.get_single_point_state_for_wavepacket(pack, j, origin))
                    if ok:
                        v = position(got)
                        at = int(np.argmax(np.abs(v)))
                        cx.same(f"one point {j} {origin}", v, np.eye(nx)[at])
                        cx.holds(f"the point {j} {origin}", at in (tops if origin is None else [large_index(origin, bigs, ns)]), f"at {at}")
                    ok, got = cx.run(f"decaying {j} {origin}", lambda: pj.get_exponential_state(pack, j, origin))
                    if ok:
                        decaying(cx, f"decaying {j} {origin}", position(got), distance, centre, bigs, ns)
                if j == 0 and len(tops) == nl and DECAYING:
                    ok, got = cx.run("decaying wavefunction", lambda: DECAYING(pack))
                    if ok:
                        v = position(got)
                        cx.same("decaying wavefunction: norm", np.linalg.norm(v), 1.0)
                        here = np.abs(psi[0]) > 1e-6
                        decaying(cx, "decaying wavefunction", v[here] / psi[0][here], lambda o: distance(o)[here], in_cell(np.unravel_index(tops[0], shape), ns), bigs, ns, norm=False)
            for origin in (0, *origins[1:]):
                ok, got = cx.run(f"gaussian {origin}", lambda: pj.get_gaussian_states(pack, origin))
                if ok:
                    cx.same("gaussian lattice", sizes(got["basis"][1]), wanted_sizes)
                    cx.same("gaussian count", int(got["basis"][0].n), 1)
                    decaying(cx, f"gaussian {origin}", position_list(got)[0], distance, origins[1] if origin == 0 else origin, bigs, ns)
            # each projection fixes the phases only
            for name, guess, method in (
                ("one cell", lambda: wg.get_tight_binding_state(pack), wl.localize_tight_binding_projection),
                ("one point", lambda: pj.get_single_point_state_for_wavepacket(pack), wl.localize_single_point_projection),
                *([("decaying", lambda: DECAYING(pack), wl.localize_exponential_decay_projection)] if DECAYING else []),
                ("gaussian", lambda: ww_first(pj.get_gaussian_states(pack)), wl.localize_wavepacket_gaussian_projection),
            ):
                ok, g = cx.run(f"guess {name}", guess)
                if not ok:
                    continue
                ov = psi.conj() @ position(g)
                if np.min(np.abs(ov)) < 1e-4:
                    continue
                ok, got = cx.run(f"localise {name}", lambda: method(pack))
                if ok:
                    cx.same(f"localise {name}", flat(got["data"]), (data * (ov / np.abs(ov))[:, None]).reshape(-1), 1e-6)
        for nb in sorted({1, *counts(nst)}):
            # one guess for every band: the first Bloch state, cut to the cell around its highest point
            data = bands_data(nb, nl, nst, "cut")
            psi = decompress(data, lspec, sspec)
            packs = packed(data, lspec, sspec)
            ok, got = cx.run(f"cut states {nb}", lambda: wg.get_tight_binding_states(packs))
            if not ok:
                continue
            rows = position_list(got)
            if not cx.same(f"cut states {nb}: count", [int(got["basis"][0].n), len(rows)], [nb, nb]):
                continue
            for b in range(nb):
                top = np.abs(psi[b, 0])
                tops = [i for i in range(nx) if top[i] > top.max() - 1e-9]
                if len(tops) == nl:
                    keep = around(in_cell(np.unravel_index(tops[0], shape), ns), ns, bigs)
                    cx.same(f"cut state {b} of {nb}", rows[b], np.array([psi[b, 0, i] if i in keep else 0 for i in range(nx)]))
            overlap = np.einsum("wx,bjx->jbw", rows, psi.conj())
            if min(np.linalg.svd(o, compute_uv=False)[-1] for o in overlap) < 1e-4:
                cx.note("cut states with no overlap at some wavevector: no unique answer")
                continue
            ok, op = cx.run(f"operator of cut states {nb}", lambda: pj.get_localization_operator_tight_binding_projections(packs))
            if ok:
                u = np.asarray(op["data"]).reshape(nl, nb, nb)
                cx.same(f"cut states {nb}: isometry", np.einsum("jwb,jvb->jwv", u.conj(), u), np.repeat(np.eye(nb)[None], nl, axis=0))
                over = np.einsum("vx,jwb,bjx->jvw", rows.conj(), u, psi)
                cx.same(f"cut states {nb}: overlap is hermitian", over, over.conj().transpose(0, 2, 1))
                cx.holds(f"cut states {nb}: overlap is positive", min(np.linalg.eigvalsh(o)[0] for o in over) > -1e-9, "negative overlap with the guess")
        many_guesses(cx, cfg, dx, lspec, sspec)
        cx.trace()


def ww_first(states):
    return {"basis": states["basis"][1], "data": np.asarray(states["data"]).reshape(states["basis"].shape)[0]}


def decaying(cx, what, v, distance, centre, bigs, ns, norm=True):
    """Positive, normalised, falling with the distance from the centre (any representative of it)."""
    if not cx.holds(f"{what}: positive", np.all(np.isfinite(v)) and np.allclose(np.imag(v), 0) and np.all(np.real(v) > 0), "not positive"):
        return
    v = np.real(v)
    if norm:
        cx.same(f"{what}: norm", np.linalg.norm(v), 1.0)
    good = False
    for cell in itertools.product(*(range(b) for b in bigs)):
        d = distance(tuple(c + n * k for c, n, k in zip(centre, ns, cell)))
        order = np.argsort(d, kind="stable")
        dd, vv = d[order], v[order]
        good = good or bool(np.all((np.diff(vv) < 1e-9 * vv[:-1]) | (np.diff(dd) < 1e-9)) and all(abs(vv[i + 1] - vv[i]) <= 1e-6 * vv[i] for i in range(len(vv) - 1) if dd[i + 1] - dd[i] < 1e-9))
        if good:
            break
    cx.holds(f"{what}: falls with the distance", good, f"does not fall with the distance from {centre}: {v}")


def many_guesses(cx, cfg, dx, lspec, sspec):
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl, ncell = int(np.prod(bigs)), int(np.prod(ns))
    shape = tuple(b * n for b, n in zip(bigs, ns))
    nx = int(np.prod(shape))
    basis = TupleBasis(ref.build(lspec), ref.build(sspec))
    mom = stacked_basis_as_fundamental_momentum_basis(ww.get_fundamental_unfurled_basis(basis))
    freqs = [np.array(f) for f in itertools.product(*(ref.freqs(s) for s in shape))]
    for counts_ in itertools.product(*(range(1, min(n, 3) + 1) for n in ns)):
        ok, got = cx.run(f"evenly spaced {counts_}", lambda: wl.get_evenly_spaced_points(basis, counts_))
        if ok:
            want = np.zeros((int(np.prod(counts_)), nx))
            for i, idx in enumerate(np.ndindex(counts_)):
                want[i, large_index(tuple((s * k) // c for s, k, c in zip(shape, idx, counts_)), bigs, ns)] = 1
            cx.same(f"evenly spaced {counts_}", position_list(got), want)
            cx.same("evenly spaced: sizes", [int(b.n) for b in got["basis"][0]], list(counts_))
        ok, got = cx.run(f"free {counts_}", lambda: su.get_most_localized_free_state_vectors(basis, counts_))
        if ok:
            ok, got = cx.run("free in momentum", lambda: np.asarray(convert_state_vector_list_to_basis(got, mom)["data"]).reshape(int(np.prod(counts_)), nx))
        if ok:
            cx.same(f"free {counts_}: orthonormal", got.conj() @ got.T, np.eye(len(got)))
            # evenly occupied up to the threshold, each moved along by its share of the unit cell
            kept = np.array([all(f in ref.freqs(b * c) for f, b, c in zip(fr, bigs, counts_)) for fr in freqs])
            cx.same(f"free {counts_}: occupation", np.abs(got) ** 2, np.where(kept, 1 / (nl * np.prod(counts_)), 0)[None].repeat(len(got), 0))
            for i, idx in enumerate(itertools.product(*(ref.freqs(c) for c in counts_))):
                phase = np.exp([-2j * np.pi * sum(f * k / (b * c) for f, k, b, c in zip(fr, idx, bigs, counts_)) for fr in freqs])
                cx.same(f"free {counts_}: place {idx}", got[i], got[0] * phase)
    nst = ref.n_of(sspec)
    for nb in sorted({1, 2, min(4, ncell), ncell}):
        if nb <= ncell:
            ok, got = cx.run(f"single points {nb}", lambda: su.get_single_point_state_vectors(basis, nb))
            if ok:
                v = position_list(got)
                at = np.argmax(np.abs(v), axis=1)
                cx.same(f"single points {nb}", v, np.eye(nx)[at])
                cx.holds(f"single points {nb}: distinct", len(set(at.tolist())) == nb, f"{at}")
                cx.holds(f"single points {nb}: in the cell", all(all(i < n for i, n in zip(np.unravel_index(a, shape), ns)) for a in at), f"{at}")
    for nb in counts(nst):
        data = bands_data(nb + (nst > nb), nl, nst, "probability")
        packs = packed(data, lspec, sspec)
        coef = np.einsum("bx,kx->bk", decompress(data, lspec, sspec).sum(axis=1) / np.sqrt(nl), np.conj(momentum_rows(shape)))
        weight = (np.abs(coef[:nb]) ** 2).mean(axis=0)
        for fr in (np.zeros((len(ns), nb)), rdata((len(ns), nb), "fractions")):
            ok, got = cx.run(f"from probability {nb}", lambda: su.get_most_localized_state_vectors_from_probability(packs, tuple(fr)))
            if ok:
                ok, got = cx.run("from probability in momentum", lambda: np.asarray(convert_state_vector_list_to_basis(got, mom)["data"]).reshape(nb, nx))
            if ok:
                phase = np.exp([[-2j * np.pi * sum(f * k / b for f, k, b in zip(fq, fr[:, i], bigs)) for fq in freqs] for i in range(nb)])
                cx.same(f"from probability {nb}", got, np.sqrt(weight)[None] * phase / np.sqrt(weight.sum()))


def momentum_rows(shape):
    out = np.ones((1, 1), dtype=complex)
    for n in shape:
        x = np.arange(n)
        out = np.kron(out, np.array([np.exp(2j * np.pi * f * x / n) / np.sqrt(n) for f in ref.freqs(n)]))
    return out


# -- eigenstates of position ----------------------------------------------------------


@PROP.family("position operator", roots)
def position_operator(cfg, cx: Cx) -> None:
    dx, lspec, cells = setting(cfg)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nl, nx = int(np.prod(bigs)), int(np.prod(bigs) * np.prod(ns))
    if nx > 60:
        return
    shape = tuple(b * n for b, n in zip(bigs, ns))
    x = np.array([sum(i / s * (d * b)[0] for i, s, d, b in zip(pt, shape, dx, bigs)) for pt in itertools.product(*(range(s) for s in shape))])
    for sspec in cells:
        nst = ref.n_of(sspec)
        nb = min(2, nst)
        data = bands_data(nb, nl, nst, "position")
        energy = rdata((nb, nl), "position energy")
        psi = decompress(data, lspec, sspec)
        packs = [single(data[b], lspec, sspec, energy[b]) for b in range(nb)]
        with cx.at(json.dumps(sspec)):
            picked = []
            for b in range(nb):
                ok, got = cx.run("one band", lambda: wl.localize_position_operator(packs[b]))
                if not ok or not cx.holds("one band: count", len(got) == nl, f"{len(got)}"):
                    return
                mix = np.array([np.einsum("qs,qs->q", np.asarray(g["data"]).reshape(nl, nst), data[b].conj()) for g in got])
                for g, m in zip(got, mix):
                    cx.same("one band: only weights", np.asarray(g["data"]).reshape(nl, nst), m[:, None] * data[b])
                    cx.same("one band: energies", flat(g["eigenvalue"]), energy[b])
                states = mix @ psi[b]
                diagonalises(cx, "one band", states, x, psi[b])
                cx.state("position", b, np.abs(mix))
                picked.append(states[nl // 4])
            ok, got = cx.run("many bands", lambda: wl.localize_position_operator_many_band(packs))
            if ok and cx.holds("many bands: count", len(got) == nb * nl, f"{len(got)}"):
                diagonalises(cx, "many bands", np.array([position(s) for s in got]), x, psi.reshape(nb * nl, nx))
            ok, got = cx.run("each band", lambda: wl.localize_position_operator_many_band_individual(packs))
            if ok and cx.holds("each band: count", len(got) == nb, f"{len(got)}"):
                states = np.array([position(s) for s in got])
                norm = np.linalg.norm(states, axis=1)
                if cx.holds("each band: norm", np.all(norm > 1e-6) and np.allclose(norm, norm[0]), f"{norm}"):
                    diagonalises(cx, "each band", states / norm[:, None], x, np.array(picked))
        cx.trace()


def diagonalises(cx, what, states, x, span):
    """Orthonormal states of the span of the given ones, in which position is diagonal and rising."""
    n = len(span)
    cx.same(f"{what}: orthonormal", states.conj() @ states.T, np.eye(n))
    q, _ = np.linalg.qr(span.T)
    cx.same(f"{what}: span", states.T @ states.conj(), q @ q.conj().T)
    m = (states.conj() * x) @ states.T
    scale = max(1.0, float(np.abs(x).max()))
    cx.same(f"{what}: position is diagonal", m / scale, np.diag(np.diag(m)) / scale)
    cx.holds(f"{what}: rising", np.all(np.diff(np.real(np.diag(m))) > -1e-9 * scale), "not ordered")
