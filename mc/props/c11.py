"""C11: a compressed list of Bloch wavefunctions describes one set of states on the large lattice."""

from __future__ import annotations

import itertools
import json

import numpy as np
from scipy.constants import hbar

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from surface_potential_analysis.basis.basis import FundamentalBasis, TruncatedBasis
from surface_potential_analysis.basis.block_fraction_basis import (
    EvenlySpacedBlockFractionBasis,
    ExplicitBlockFractionBasis,
    FundamentalBlockFractionBasis,
)
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.hamiltonian_builder.momentum_basis import total_surface_hamiltonian
from surface_potential_analysis.operator.conversion import convert_diagonal_operator_to_basis
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_position_basis,
)
from surface_potential_analysis.state_vector.conversion import (
    convert_state_vector_list_to_basis,
    convert_state_vector_to_basis,
)
from surface_potential_analysis.wavepacket import conversion as wc
from surface_potential_analysis.wavepacket import eigenstate_conversion as we
from surface_potential_analysis.wavepacket import get_eigenstate as wg
from surface_potential_analysis.wavepacket import wavepacket as ww

PROP = Property(
    "C11",
    rule="Every lattice of a fixed family, every shape of the list of wavevectors times every shape of the unit cell "
    "up to the bound (even and odd in every axis), every kind of list and state basis, every member of the list.",
    assumptions=["lists are held in a basis of wavevectors (all, the lowest, or evenly spaced ones)"],
)


def flat(x):
    return np.asarray(x).reshape(-1)


# -- reference model -----------------------------------------------------------


def axis_bloch(big: int, n: int) -> np.ndarray:
    """[q, p, x]: component p of the state at wavevector q, on the big * n points of the large lattice."""
    x = np.arange(big * n)
    out = np.zeros((big, n, big * n), dtype=complex)
    for iq, q in enumerate(ref.freqs(big)):
        for ip, p in enumerate(ref.freqs(n)):
            out[iq, ip] = np.exp(2j * np.pi * (((q + big * p) * x) % (big * n)) / (big * n)) / np.sqrt(big * n)
    return out


def bloch(bigs, ns) -> np.ndarray:
    out = np.ones((1, 1, 1), dtype=complex)
    for big, n in zip(bigs, ns):
        a = axis_bloch(big, n)
        out = np.einsum("qpx,QPX->qQpPxX", out, a).reshape(
            out.shape[0] * a.shape[0], out.shape[1] * a.shape[1], out.shape[2] * a.shape[2]
        )
    return out


def momentum_spec(spec):
    dxs, ns = ref.dx_of(spec), ref.fund_shape(spec)
    return ["S", [["FMP", list(d), n] for d, n in zip(dxs, ns)]]


def all_momentum(spec):
    return ["S", [["FM", n] for n in ref.fund_shape(spec)]]


def decompress(data, lspec, sspec):
    """[band, q, x] on the large lattice, for every wavevector of the full list."""
    d = np.einsum("bls,lL,sS->bLS", data, ref.transfer(lspec, all_momentum(lspec)), ref.transfer(sspec, momentum_spec(sspec)))
    return np.einsum("bqp,qpx->bqx", d, bloch(ref.fund_shape(lspec), ref.fund_shape(sspec)))


def wrapped_points(shape):
    return list(itertools.product(*(ref.freqs(n).tolist() for n in shape)))


def lkinds(big: int, small: bool):
    out = [["FM", big]]
    if small:
        if big > 1:
            out.append(["M", big - 1, big])
        if big % 2 == 0:
            out.append(["EM", big // 2, 2, -1])
    return out


def skinds(d, n: int):
    d = list(np.asarray(d, dtype=float))
    return [["FMP", d, n], ["FP", d, n], ["MP", d, max(1, n - 1), n], ["XL", "orth", max(1, n - 1), ["FP", d, n]]]


def roots(tier: str):
    q = tier == "quick"
    for name in ref.LATTICES[1]:
        for shape in itertools.product(range(1, 5 if q else 7), range(1, 6 if q else 8)):
            yield {"dim": 1, "lat": name, "list": [shape[0]], "cell": [shape[1]]}
    shapes2 = [((1, 2), (2, 3)), ((2, 3), (3, 2)), ((3, 2), (1, 4)), ((2, 2), (2, 2)), ((3, 3), (3, 3)), ((2, 1), (4, 3))]
    if not q:
        shapes2 = list(itertools.product(itertools.product((1, 2, 3), repeat=2), itertools.product((1, 2, 3, 4), repeat=2)))
    for name in list(ref.LATTICES[2])[: 3 if q else None]:
        for a, b in shapes2:
            yield {"dim": 2, "lat": name, "list": list(a), "cell": list(b)}
    shapes3 = [((2, 1, 3), (1, 2, 2)), ((2, 3, 1), (3, 2, 2))]
    if not q:
        shapes3 += [((1, 2, 2), (2, 3, 1)), ((3, 2, 2), (2, 1, 3)), ((2, 2, 2), (2, 2, 2))]
    for name in list(ref.LATTICES[3])[1 : 3 if q else None]:
        for a, b in shapes3:
            yield {"dim": 3, "lat": name, "list": list(a), "cell": list(b)}


def combos(cfg, small):
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    lper = [lkinds(n, small) for n in cfg["list"]]
    sper = [skinds(d, n) for d, n in zip(dx, cfg["cell"])]
    if cfg["dim"] == 1:
        ls = [["S", [x]] for x in lper[0]]
        ss = [["S", [x]] for x in sper[0]]
    else:
        ls = [["S", [p[0] for p in lper]]]
        if small:
            ls.append(["S", [p[-1] for p in lper]])
            ls.append(["S", [p[min(i, len(p) - 1)] for i, p in enumerate(lper)]])
        ss = [["S", [p[i] for p in sper]] for i in range(4)]
        ss.append(["S", [p[(1 + i) % 4] for i, p in enumerate(sper)]])
    return dx, [json.loads(s) for s in dict.fromkeys(json.dumps(x) for x in ls)], ss


def position(state):
    """Coefficients at the points of the large lattice, as found by the conversion of C01."""
    b = stacked_basis_as_fundamental_position_basis(state["basis"])
    return flat(convert_state_vector_to_basis(state, b)["data"])


def position_list(states):
    b = stacked_basis_as_fundamental_position_basis(states["basis"][1])
    return np.asarray(convert_state_vector_list_to_basis(states, b)["data"]).reshape(states["basis"][0].n, -1)


def sizes(basis):
    """What a basis of the large lattice has to agree on."""
    return [[[float(x) for x in b.delta_x] for b in basis], [int(b.fundamental_n) for b in basis]]


def large(dx, bigs, ns):
    return [[[float(x) for x in d * b] for d, b in zip(dx, bigs)], [b * n for b, n in zip(bigs, ns)]]


# -- decompression of every member ----------------------------------------------


@PROP.family("decompression", roots)
def decompression(cfg, cx: Cx) -> None:
    dx, lists, cells = combos(cfg, True)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    want_sizes = large(dx, bigs, ns)
    for lspec in lists:
        for sspec in cells:
            nl, nst = ref.n_of(lspec), ref.n_of(sspec)
            for n_bands in (1, 2):
                raw = cdata((n_bands, nl, nst), "bloch", cfg["list"], cfg["cell"])
                starts = [("generic", raw)]
                if n_bands == 1 and nl * nst <= 12 and cfg["dim"] < 3:
                    starts += [(f"impulse {i}", np.eye(nl * nst, dtype=complex)[i].reshape(1, nl, nst)) for i in range(nl * nst)]
                for name, data in starts:
                    with cx.at(json.dumps(lspec), json.dumps(sspec), n_bands, name):
                        one_list(cx, lspec, sspec, data, want_sizes, name == "generic")


def one_list(cx, lspec, sspec, data, want_sizes, full) -> None:
    lb, sb = ref.build(lspec), ref.build(sspec)
    n_bands = data.shape[0]
    psi = decompress(data, lspec, sspec)
    nq = psi.shape[1]
    pts = wrapped_points(ref.fund_shape(lspec))
    bands = FundamentalBasis(n_bands)
    packs = {"basis": TupleBasis(TupleBasis(bands, lb), sb), "data": data.reshape(-1).copy()}
    pack = {"basis": TupleBasis(lb, sb), "data": data[0].reshape(-1).copy()}
    before = packs["data"].copy(), pack["data"].copy()
    is_all = lspec == all_momentum(lspec)

    ok, got = cx.run("all states of the list", lambda: wg.get_bloch_states(packs))
    if ok:
        cx.same("all states of the list", position_list(got).reshape(psi.shape), psi)
        cx.same("large lattice", sizes(got["basis"][1]), want_sizes)
    ok, got = cx.run("unfurled", lambda: we.unfurl_wavepacket(pack))
    if ok:
        # every wavevector contributes with the same weight
        cx.same("unfurled", position(got), psi[0].sum(axis=0) / np.sqrt(nq))
        cx.same("unfurled lattice", sizes(got["basis"]), want_sizes)
    ok, got = cx.run("unfurled list", lambda: we.unfurl_wavepacket_list(packs))
    if ok:
        cx.same("unfurled list", position_list(got), psi.sum(axis=1) / np.sqrt(nq))
    ok, got = cx.run("every state", lambda: wg.get_all_wavepacket_states(pack))
    if ok and cx.holds("every state", len(got) == nq, f"{len(got)} states"):
        for j, s in enumerate(got):
            cx.same(f"state {j} of all", position(s), psi[0, j])
            if j == 0:
                cx.same("lattice of each", sizes(s["basis"]), want_sizes)
    if is_all:
        energy = rdata(nq, "bloch energy")
        ok, got = cx.run("every eigenstate", lambda: wg.get_all_eigenstates({**pack, "eigenvalue": energy.astype(complex)}))
        if ok and cx.holds("every eigenstate", len(got) == nq, f"{len(got)} states"):
            for j, s in enumerate(got):
                cx.same(f"eigenstate {j} of all", [position(s), np.asarray(s["eigenvalue"])], [psi[0, j], np.asarray(energy[j] + 0j)])
    for j in range(nq):
        stacked = tuple(int(i) for i in np.unravel_index(j, ref.fund_shape(lspec)))
        addresses = [("flat", j), ("stacked", stacked)]
        for how, idx in addresses if full else addresses[:1]:
            ok, got = cx.run(f"state {how} {idx}", lambda: wg.get_wavepacket_state_vector(pack, idx))
            if ok:
                cx.same(f"state {how} {idx}", position(got), psi[0, j])
            if is_all:
                ok, got = cx.run(f"states of every band {how} {idx}", lambda: wg.get_states_at_bloch_idx(packs, idx))
                if ok:
                    cx.same(f"states of every band {how} {idx}", position_list(got), psi[:, j])
                    cx.same("lattice of bands", sizes(got["basis"][1]), want_sizes)
                ok, got = cx.run(f"compressed {how} {idx}", lambda: wg.get_bloch_state_vector(pack, idx))
                if ok:
                    cx.same(f"compressed {how} {idx}", flat(got["data"]), data[0, j])
    cx.holds("inputs kept", np.array_equal(before[0], packs["data"]) and np.array_equal(before[1], pack["data"]), "input changed")
    cx.trace()


# -- the basis of Bloch states ----------------------------------------------------


def roots_basis(tier: str):
    for cfg in roots(tier):
        if cfg["lat"] in ("line2", "oblique", "tri") and np.prod(cfg["list"]) * np.prod(cfg["cell"]) <= 130:
            yield cfg


@PROP.family("basis of Bloch states", roots_basis)
def bloch_basis(cfg, cx: Cx) -> None:
    dx, lists, cells = combos(cfg, False)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    want_sizes = large(dx, bigs, ns)
    for sspec in cells:
        lspec = lists[0]
        nl, nst = ref.n_of(lspec), ref.n_of(sspec)
        for n_bands in sorted({1, 2, nst} if nst <= 4 else {1, 2}):
            if n_bands > nst:
                continue
            data = np.zeros((n_bands, nl, nst), dtype=complex)
            for j in range(nl):
                q, _ = np.linalg.qr(cdata((nst, nst), "bloch basis", j, nst))
                data[:, j] = q[:n_bands]
            psi = decompress(data, lspec, sspec).reshape(n_bands * nl, -1)
            packs = {
                "basis": TupleBasis(TupleBasis(FundamentalBasis(n_bands), ref.build(lspec)), ref.build(sspec)),
                "data": data.reshape(-1).copy(),
            }
            with cx.at(json.dumps(sspec), n_bands):
                ok, b = cx.run("build", lambda: wg.get_bloch_basis(packs))
                if not ok:
                    continue
                cx.same("number of states", [int(b.n), int(b.fundamental_n)], [n_bands * nl, psi.shape[1]])
                cx.same("lattice", sizes(stacked_basis_as_fundamental_position_basis(b.vectors["basis"][1])), want_sizes)
                cx.same("states", position_list(b.vectors), psi)
                for nd, axis in ((1, -1), (2, 0), (2, 1), (3, 1), (3, -3)):
                    shape = [2, 3, 2][:nd]
                    shape[axis % nd if nd > 1 else 0] = n_bands * nl
                    v = cdata(tuple(shape), "coefficients", nd, axis)
                    cx.step(f"into positions {nd} {axis}", lambda: b.__into_fundamental__(v, axis),
                            np.moveaxis(np.moveaxis(v, axis, -1) @ psi, -1, axis))
                    shape[axis % nd if nd > 1 else 0] = psi.shape[1]
                    w = cdata(tuple(shape), "positions", nd, axis)
                    cx.step(f"from positions {nd} {axis}", lambda: b.__from_fundamental__(w, axis),
                            np.moveaxis(np.moveaxis(w, axis, -1) @ psi.conj().T, -1, axis))
                for j in range(nl):
                    stacked = tuple(int(i) for i in np.unravel_index(j, bigs))
                    cx.step(f"states at {j}", lambda: flat(b.vectors_at_bloch_k(j)["data"]), data[:, j].reshape(-1))
                    cx.step(f"states at {stacked}", lambda: flat(b.vectors_at_bloch_k(stacked)["data"]), data[:, j].reshape(-1))
                    ok, bk = cx.run(f"basis at {stacked}", lambda: b.basis_at_bloch_k(stacked))
                    if ok:
                        v = cdata(n_bands, "small")
                        cx.step(f"convert from {stacked}", lambda: bk.__into_fundamental__(v, -1), v @ data[:, j] @ ref.states(sspec))
                cx.trace()


# -- lists of lists, sampled wavevectors, change of shape -----------------------


@PROP.family("lists of wavefunctions", roots)
def helpers(cfg, cx: Cx) -> None:
    dx, lists, cells = combos(cfg, True)
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    dk = ref.reciprocal(dx)
    for lspec in lists:
        lb = ref.build(lspec)
        keep = np.abs(ref.transfer(lspec, all_momentum(lspec))) > 0.5
        pts = np.array(wrapped_points(ref.fund_shape(lspec)), dtype=float)
        frac = (pts / np.array(ref.fund_shape(lspec)))[[int(np.argmax(k)) for k in keep]].T
        with cx.at(json.dumps(lspec)):
            cx.step("fractions", lambda: ww.get_wavepacket_sample_fractions(lb), frac)
        for sspec in cells[:3]:
            sb = ref.build(sspec)
            basis = TupleBasis(lb, sb)
            with cx.at(json.dumps(lspec), json.dumps(sspec)):
                cx.step("frequencies", lambda: ww.get_wavepacket_fundamental_sample_frequencies(basis),
                        (pts / np.array(ref.fund_shape(lspec)) @ dk).T)
                cx.step("large lattice", lambda: sizes(ww.get_fundamental_unfurled_basis(basis)), large(dx, bigs, ns))
                cx.step("sampled lattice", lambda: sizes(ww.get_fundamental_sample_basis(basis)), large(dx, bigs, (1,) * len(ns)))
                for off in itertools.product(*(range(b) for b in bigs)):
                    cx.step(f"sample states {off}",
                            lambda: [sizes(x := ww.get_fundamental_unfurled_sample_basis_momentum(basis, off)),
                                     [int(a.offset) % int(a.step) for a in x], [int(a.step) for a in x], [int(a.n) for a in x]],
                            [large(dx, bigs, ns), list(off), list(bigs), list(ns)])
    lspec, sspec = lists[0], cells[-1]
    lb, sb = ref.build(lspec), ref.build(sspec)
    nl, nst = ref.n_of(lspec), ref.n_of(sspec)
    nb = 3
    data = cdata((nb, nl, nst), "lists")
    energy = cdata((nb, nl), "energies")
    packs = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), lb), sb), "data": data.reshape(-1).copy(), "eigenvalue": energy.reshape(-1).copy()}

    def whole(p):
        return [[int(b.n) for b in p["basis"][0]], int(p["basis"][1].n), flat(p["data"])]

    for i in (0, 1, 2, -1):
        cx.step(f"band {i}", lambda: flat(ww.get_wavepacket(packs, i)["data"]), data[i].reshape(-1))
        ok, got = cx.run(f"band with energies {i}", lambda: ww.get_wavepacket_at_band(packs, i))
        if ok:
            cx.same(f"band with energies {i}", [flat(got["data"]), flat(got["eigenvalue"])], [data[i].reshape(-1), energy[i]])
            cx.holds("list basis", got["basis"][0] == lb and got["basis"][1] == sb, "other basis")
    for s in (slice(None), slice(1, None), slice(0, 2), slice(None, None, 2), slice(None, None, -1), slice(2, 2)):
        sub = data[s]
        cx.step(f"bands {s}", lambda: whole(ww.get_wavepackets(packs, s)), [[len(sub), nl], nst, sub.reshape(-1)])
        ok, got = cx.run(f"bands with energies {s}", lambda: ww.get_wavepackets_with_eigenvalues(packs, s))
        if ok:
            cx.same(f"bands with energies {s}", [whole(got), flat(got["eigenvalue"])], [[[len(sub), nl], nst, sub.reshape(-1)], energy[s].reshape(-1)])
    ok, got = cx.run("iterate", lambda: list(ww.wavepacket_list_into_iter(packs)))
    if ok:
        cx.same("iterate", [flat(w["data"]) for w in got], list(data.reshape(nb, -1)))
        for how, make in (("list", lambda: list(got)), ("iterator", lambda: iter(list(got))), ("generator", lambda: (w for w in got))):
            cx.step(f"collect {how}", lambda: whole(ww.as_wavepacket_list(make())), [[nb, nl], nst, data.reshape(-1)])
    cx.step("average energies", lambda: flat(ww.get_average_eigenvalues(packs)["data"]), energy.mean(axis=1))
    ok, got = cx.run("Bloch Hamiltonian", lambda: wg.get_bloch_hamiltonian(packs))
    if ok:
        cx.same("Bloch Hamiltonian", [[int(got["basis"][0].n), int(got["basis"][1][0].n), int(got["basis"][1][1].n)], flat(got["data"])], [[nb, nl, nl], energy.reshape(-1)])
    for target in cells:
        tb = ref.build(target)
        t = ref.transfer(sspec, target)
        cx.step(f"change states {json.dumps(target)}", lambda: flat(wc.convert_wavepacket_to_basis(ww.get_wavepacket(packs, 1), basis=tb)["data"]), (data[1] @ t).reshape(-1))
        ok, got = cx.run("change with energies", lambda: wc.convert_wavepacket_with_eigenvalues_to_basis(packs, basis=tb))
        if ok:
            cx.same("change with energies", [flat(got["data"]), flat(got["eigenvalue"])], [(data @ t).reshape(-1), energy.reshape(-1)])
    for target in lists:
        tb = ref.build(target)
        t = ref.transfer(lspec, target)
        cx.step(f"change list {json.dumps(target)}", lambda: flat(wc.convert_wavepacket_to_basis(ww.get_wavepacket(packs, 2), list_basis=tb)["data"]), (t.T @ data[2]).reshape(-1))
        ok, got = cx.run("change list with energies", lambda: wc.convert_wavepacket_with_eigenvalues_to_basis(packs, list_basis=tb))
        if ok:
            cx.same("change list with energies", [flat(got["data"]), flat(got["eigenvalue"])], [np.einsum("bls,lL->bLs", data, t).reshape(-1), (energy @ t).reshape(-1)])
    cx.step("to positions", lambda: flat(wc.convert_wavepacket_to_position_basis(ww.get_wavepacket(packs, 0))["data"]), (data[0] @ ref.states(sspec)).reshape(-1))
    cx.step("to momentum", lambda: flat(wc.convert_wavepacket_to_fundamental_momentum_basis(ww.get_wavepacket(packs, 0))["data"]),
            (data[0] @ ref.transfer(sspec, momentum_spec(sspec))).reshape(-1))
    cx.holds("inputs kept", np.array_equal(packs["data"], data.reshape(-1)) and np.array_equal(packs["eigenvalue"], energy.reshape(-1)), "changed")
    cx.trace()


# -- wavepackets are solved at their wavevectors --------------------------------


def roots_generate(tier: str):
    q = tier == "quick"
    for lat in ("line", "line2"):
        for b, n in itertools.product(range(1, 4 if q else 6), range(1, 5 if q else 7)):
            yield {"dim": 1, "lat": lat, "list": [b], "cell": [n]}
    for lat in ("rect", "hex", "oblique"):
        for a, b in (((1, 2), (2, 3)), ((2, 3), (2, 2)), ((3, 1), (3, 2)), ((2, 2), (1, 3)), ((3, 2), (2, 3))):
            yield {"dim": 2, "lat": lat, "list": list(a), "cell": list(b)}
    yield {"dim": 3, "lat": "tri", "list": [2, 1, 2], "cell": [2, 2, 1]}


def hamiltonian_on_large(dx, bigs, ns, pot, mass):
    """Positions of the large lattice: kinetic energy plus the repeated potential."""
    shape = tuple(b * n for b, n in zip(bigs, ns))
    dk = ref.reciprocal(dx * np.array(bigs)[:, None])
    energy, f = [], np.ones((1, 1), dtype=complex)
    for n in shape:
        f = np.kron(f, np.array([ref.momentum_state(int(i), n) for i in ref.freqs(n)]))
    # the kinetic energy of each wavevector q + N p with the component p of the cell's own grid
    for p in itertools.product(*(range(n) for n in shape)):
        k = np.zeros(len(shape))
        for ax, m in enumerate(p):
            q = ref.freqs(bigs[ax])[m % bigs[ax]]
            c = ((m - q) // bigs[ax]) % ns[ax]
            k = k + (q + bigs[ax] * ref.freqs(ns[ax])[c]) * dk[ax]
        energy.append(hbar**2 * float(np.dot(k, k)) / (2 * mass))
    rep = pot.reshape(ns)
    for ax, b in enumerate(bigs):
        rep = np.concatenate([rep] * b, axis=ax)
    return f.T @ np.diag(energy) @ f.conj() + np.diag(rep.reshape(-1))


@PROP.family("generated wavepackets", roots_generate)
def generated(cfg, cx: Cx) -> None:
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    nst, nl = int(np.prod(ns)), int(np.prod(bigs))
    mass = 1.3 * hbar**2
    pot = rdata(nst, "potential", ns)
    lspec = ["S", [["FM", b] for b in bigs]]
    for kind in ("FP", "FMP"):
        sspec = ["S", [[kind, list(d), n] for d, n in zip(dx, ns)]]
        sb, lb = ref.build(sspec), ref.build(lspec)
        base = ref.build(["S", [["FP", list(d), n] for d, n in zip(dx, ns)]])
        asked = []

        def make(fraction):
            asked.append(np.array(fraction, dtype=float))
            h = total_surface_hamiltonian({"basis": base, "data": pot.astype(complex)}, mass, fraction)
            from surface_potential_analysis.operator.conversion import convert_operator_to_basis

            return convert_operator_to_basis(h, TupleBasis(sb, sb))

        fractions = np.array(wrapped_points(bigs), dtype=float) / np.array(bigs)
        exact = [np.linalg.eigvalsh(np.asarray(make(f)["data"]).reshape(nst, nst)) for f in fractions]
        big_h = hamiltonian_on_large(dx, bigs, ns, pot, mass)
        selections = [(f"first {m}", TruncatedBasis(m, nst), list(range(m))) for m in range(1, nst + 1)]
        for m in range(1, nst + 1):
            if nst % m == 0:
                step = nst // m
                selections += [(f"every {step} from {o}", EvenlySpacedBasis(m, step, o), list(range(o, nst, step))) for o in range(step)]
        for name, bands, which in selections if nst <= 6 else selections[::2]:
            with cx.at(kind, name):
                asked.clear()
                ok, got = cx.run("generate", lambda: ww.generate_wavepacket(make, lb, bands))
                if not ok:
                    continue
                n_bands = len(which)
                vec = np.asarray(got["data"]).reshape(n_bands, nl, nst)
                val = np.asarray(got["eigenvalue"]).reshape(n_bands, nl)
                cx.same("sizes", [int(got["basis"][0][0].n), int(got["basis"][0][1].n), int(got["basis"][1].n)], [n_bands, nl, nst])
                cx.same("energies", val, np.array([e[which] for e in exact]).T.astype(complex))
                psi = decompress(vec, lspec, sspec)
                flatpsi = psi.reshape(n_bands * nl, -1)
                cx.same("orthonormal", flatpsi.conj() @ flatpsi.T, np.eye(n_bands * nl))
                cx.same("eigenstates of the large lattice", flatpsi @ big_h.T, flatpsi * val.reshape(-1, 1))
                cx.state("wavepacket", kind, name, val)
                if name == f"first {nst}":
                    full_hamiltonian(cx, got, big_h)
                cx.trace()
        explicit = np.array([[0.1, -0.3, 0.5]] * len(bigs))
        explicit[0] *= -1
        uneven = [("explicit", ExplicitBlockFractionBasis(explicit), explicit)]
        if cfg["dim"] == 1:
            for n in (1, 2, 3):
                uneven.append((f"all {n}", FundamentalBlockFractionBasis(n), np.linspace(-0.5, 0.5, n, endpoint=False)[None]))
                for o in (0, 1):
                    uneven.append((f"{n} every 2 from {o}", EvenlySpacedBlockFractionBasis(n, 2, o), np.linspace(-0.5, 0.5, 2 * n, endpoint=False)[None, o::2]))
        for name, basis, fr in uneven:
            with cx.at(kind, name):
                asked.clear()
                ok, got = cx.run("generate uneven", lambda: ww.generate_uneven_wavepacket(make, basis, TruncatedBasis(nst, nst)))
                if ok:
                    want = np.array([np.linalg.eigvalsh(np.asarray(make(fr[:, i])["data"]).reshape(nst, nst)) for i in range(fr.shape[1])]).T
                    cx.same("energies", np.asarray(got["eigenvalue"]).reshape(nst, -1), want.astype(complex))
                    cx.same("sizes", [int(got["basis"][0][0].n), int(got["basis"][0][1].n), int(got["basis"][1].n)], [nst, fr.shape[1], nst])


def full_hamiltonian(cx: Cx, packs, big_h) -> None:
    """With every band kept, the diagonal of energies is the Hamiltonian of the large lattice."""
    ok, h = cx.run("Hamiltonian of all Bloch states", lambda: wg.get_full_bloch_hamiltonian(packs))
    if not ok:
        return
    b = stacked_basis_as_fundamental_position_basis(h["basis"][0].vectors["basis"][1])
    ok, got = cx.run("to positions", lambda: convert_diagonal_operator_to_basis(h, TupleBasis(b, b)))
    if ok:
        cx.same("Hamiltonian of all Bloch states", np.asarray(got["data"]).reshape(big_h.shape), big_h)
