"""C23: averages along trajectories and over bands are those of the states."""

from __future__ import annotations

import itertools

import numpy as np
from scipy.constants import Boltzmann, hbar

from mc import ref
from mc.core import Cx, Property, cdata, rdata, unitary
from mc.props.c11 import decompress
from mc.props.c12 import bands_data, packed, roots as bloch_roots, setting
from mc.props.c19 import Desk, plan_of
from mc.props.c21 import MEASURES, Show, dx_of, in_space, line_is, measured, spec_of
from mc.props.c22 import histogram_is, lines_are
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

PROP = Property(
    "C23",
    rule="Every shape of grid up to the bound on every lattice of a fixed family, every axis and kind of basis, numbers of times "
    "and of realisations, states at a point, with one momentum and generic ones; every sequence of positions over a small "
    "alphabet; every shape of list of wavevectors and number of bands.",
    assumptions=["the phase of an average is not compared where the average vanishes", "momentum along an axis: axes at right angles"],
)


def roots(tier):
    q = tier == "quick"
    s = {1: range(1, 6 if q else 10), 2: [(2, 3), (3, 1), (4, 3)], 3: [(2, 3, 4), (3, 1, 2)]}
    if not q:
        s[2] = list(itertools.product(range(1, 5), repeat=2))
        s[3] = list(itertools.product((1, 2, 3), repeat=3))
    for d in (1, 2, 3):
        for lat in ref.LATTICES[d]:
            for shape in s[d]:
                for kind in "xkt":
                    yield {"dim": d, "lat": lat, "shape": [shape] if d == 1 else list(shape), "kind": kind}


TIMES = ((1, 1, 0), (2, 3, 0), (4, 1, -1), (5, 2, 3))


def ensembles(cfg, spec):
    """(name, coefficients [realisation, time, state]) of lists of states."""
    n = ref.n_of(spec)
    for n_t, step, offset in TIMES:
        times = EvenlySpacedTimeBasis(n_t, step, offset, 3.5)
        for reps in (1, 2):
            yield "generic", times, 3.5 / n_t, cdata((reps, n_t, n), "trajectory", cfg["shape"])
    times = EvenlySpacedTimeBasis(2, 1, 0, 3.5)
    eye = np.eye(n, dtype=complex)
    yield "points", times, 3.5 / 2, np.array([[eye[i], eye[(i + 1) % n]] for i in range(n)])
    # the same points in the other space
    other = spec_of(cfg, "k" if cfg["kind"] == "x" else "x")
    flat = np.eye(ref.n_of(other)) @ ref.transfer(other, spec)
    if np.min(np.linalg.norm(flat, axis=1)) > 1e-3:
        yield "waves", times, 3.5 / 2, np.array([[flat[i], flat[i - 1]] for i in range(len(flat))])


def pair(show, what, fn):
    """For plots which return figure and axes only."""
    got = show.run(what, fn)
    return None if got is None else got[1]


def listed(basis, times, data):
    return {"basis": TupleBasis(TupleBasis(FundamentalBasis(data.shape[0]), times), basis), "data": data.reshape(-1).copy()}


def phase_of(values, axis, n):
    """The average of exp(2 pi i x / L) along the axis, over the normalised states."""
    p = np.abs(values) ** 2
    dims = tuple(range(2, p.ndim))
    p = np.moveaxis(p, axis + 2, -1).reshape(*p.shape[:2], -1, n).sum(axis=2) if dims else p
    return (p @ np.exp(2j * np.pi * np.arange(n) / n)) / p.sum(axis=-1)


def same_turn(cx, what, got, want, length, weight):
    """Equal modulo the length, wherever the weight says that it is defined."""
    good = weight > 1e-6
    d = (np.real(got) - want) / length
    cx.same(what, np.where(good, d - np.round(d), 0), np.zeros(np.shape(d)), 1e-6)


@PROP.family("trajectories", roots)
def trajectories(cfg, cx: Cx) -> None:
    from surface_potential_analysis.state_vector import plot as sp

    spec = spec_of(cfg)
    basis = ref.build(spec)
    dx, dim, shape = dx_of(cfg), cfg["dim"], cfg["shape"]
    show = Show(cx, cfg)
    # the operator exp(i q.x) of every direction
    fx = ref.states(spec)  # rows: states of the basis over the points of the grid
    every = np.array(list(itertools.product(*(range(n) for n in shape))))
    for direction in [None, *itertools.product((-1, 0, 1, 2), repeat=dim)]:
        d = np.ones(dim) if direction is None else np.array(direction)
        phase = np.exp(2j * np.pi * (every / np.array(shape)) @ d)
        with cx.at(f"direction={direction}"):
            ok, got = cx.run("periodic x operator", lambda: sp.get_periodic_x_operator(basis, direction))
            if ok:
                cx.same("periodic x operator", got["data"].reshape(got["basis"].shape), (fx.conj() * phase) @ fx.T)
    # tightly bound: orthogonal axes, so that the component of momentum along an axis is that of its reciprocal vector
    square = np.allclose(dx @ dx.T, np.diag(np.diag(dx @ dx.T)))
    for name, times, dt, data in ensembles(cfg, spec):
        psi = in_space(data, spec, cfg, "x")
        phi = in_space(data, spec, cfg, "k")
        norm = np.sqrt((np.abs(data) ** 2).sum(axis=-1))
        unit = data / norm[..., None]
        ts = np.arange(times.n) * dt
        for axis in range(dim):
            n, length = shape[axis], float(np.linalg.norm(dx[axis]))
            with cx.at(name, f"times={times.n} axis={axis}"):
                mean = phase_of(psi, axis, n)
                spread = np.sqrt(np.maximum(-4 * (length / (2 * np.pi)) ** 2 * np.log(np.minimum(np.abs(mean), 1)), 0)) if np.min(np.abs(mean)) > 1e-9 else None
                x_periodic = np.angle(mean) / (2 * np.pi) * length
                px, pk = (np.moveaxis(np.abs(v) ** 2, axis + 2, -1).reshape(*v.shape[:2], -1, n).sum(axis=2) for v in (psi, phi))
                x_mean = (px @ np.arange(n)) / n * length
                k_mean = (pk @ ref.freqs(n)) * 2 * np.pi / length
                sure = name == "generic"
                # coordinates of the wavepacket
                if spread is not None:
                    given = listed(basis, times, data)
                    ok, got = cx.run("coherent coordinates", lambda: sp.get_coherent_coordinates(given, axis))
                    if ok:
                        cx.same("coherent coordinates leave the states", given["data"], data.reshape(-1))
                        c = np.asarray(got["data"]).reshape(3, *norm.shape)
                        same_turn(cx, "coherent position", c[0], x_periodic, length, np.abs(mean))
                        if square:
                            cx.same("coherent momentum", c[1] * length, k_mean / norm**2 * length)
                        ok_width = np.abs(np.abs(mean) - 1) > 1e-6
                        cx.same("coherent width", np.where(ok_width, c[2] / length, 0), np.where(ok_width, spread / length, 0))
                        cx.holds("coherent width", np.all(np.isfinite(c)) and np.max(np.where(ok_width, 0, np.abs(c[2]))) < 1e-2 * length, "width of a point")
                        cx.same("coordinates basis", list(got["basis"].shape), [3, norm.size])
                    ax = show.canvas.new()
                    ok, got = cx.run("spread", lambda: sp.plot_spread_1d(listed(basis, times, data), (axis,), ax=ax))
                    if ok and sure and n > 1:
                        lines_are(cx, "spread", ax.get_lines(), times.times, spread, "real")
                    if sure and n > 1:
                        got = pair(show, "spread against x", lambda ax: sp.plot_spread_against_x(listed(basis, times, data), (axis,), ax=ax))
                        if got:
                            x, y = (np.real(v) for v in got.get_lines()[0].get_data())
                            same_turn(cx, "spread against x: x", x, x_periodic.ravel(), length, np.abs(mean).ravel())
                            cx.same("spread against x: spread", y / length, spread.ravel() / length)
                        got = pair(show, "spread against k", lambda ax: sp.plot_spread_against_k(listed(basis, times, data), (axis,), ax=ax))
                        if got and square:
                            x, y = (np.real(v) for v in got.get_lines()[0].get_data())
                            cx.same("spread against k: k", x * length, (k_mean / norm**2).ravel() * length)
                            cx.same("spread against k: spread", y / length, spread.ravel() / length)
                # positions and momenta against time, of states with norm one
                for what, fn, want, good in (("average x", sp.plot_averaged_occupation_1d_x, x_mean / norm**2, True),
                                             ("average k", sp.plot_averaged_occupation_1d_k, k_mean / norm**2, square)):
                    for measure in ("real",) if name != "generic" else ("real", "abs"):
                        ax = show.canvas.new()
                        ok, got = cx.run(what, lambda: fn(listed(basis, times, unit), (axis,), ax=ax, measure=measure))
                        if ok and good:
                            lines_are(cx, what, ax.get_lines(), times.times, want, measure)
                for what, fn, want, good in (("x distribution", sp.plot_x_distribution_1d, x_mean / norm**2, True),
                                             ("k distribution", sp.plot_k_distribution_1d, k_mean / norm**2, square)):
                    if sure and n > 1 and np.std(want) > 1e-6 * length**(1 if what[0] == 'x' else -1) and good:
                        ax = show.canvas.new()
                        ok, got = cx.run(what, lambda: fn(listed(basis, times, unit), (axis,), ax=ax))
                        if ok:
                            histogram_is(cx, ax, want.ravel())
                if sure and n > 1 and np.std(x_periodic) > 1e-6 * length and np.min(np.abs(x_periodic)) > 1e-6 * length:
                    ax = show.canvas.new()
                    ok, got = cx.run("periodic x distribution", lambda: sp.plot_periodic_x_distribution_1d(listed(basis, times, unit), (axis,), ax=ax))
                    if ok:
                        histogram_is(cx, ax, (x_periodic % length).ravel())
                    if norm.size >= 4 and np.std(spread) > 1e-6 * length:
                        ax = show.canvas.new()
                        ok, got = cx.run("spread distribution", lambda: sp.plot_spread_distribution_1d(listed(basis, times, unit), (axis,), ax=ax))
                        if ok:
                            histogram_is(cx, ax, spread.ravel())
                # positions followed from time to time
                ax = show.canvas.new()
                ok, got = cx.run("restored x", lambda: sp.plot_periodic_averaged_occupation_1d_x(listed(basis, times, data), (axis,), ax=ax))
                if ok and sure and cx.same("restored lines", len(ax.get_lines()), len(data)):
                    followed = np.array([np.real(line.get_data()[1]) for line in ax.get_lines()]).reshape(norm.shape)
                    for line in ax.get_lines():
                        cx.same("restored times", np.asarray(line.get_data()[0]), times.times)
                    same_turn(cx, "restored positions", followed, x_periodic, length, np.abs(mean))
                    jump = np.abs(np.diff(followed, axis=1)) / length
                    if len(data) > 1 and np.max(jump, initial=0) < 0.499:
                        # whatever the other trajectories do
                        for one, line in zip(data, ax.get_lines()):
                            alone = show.canvas.new()
                            ok, got = cx.run("restored alone", lambda: sp.plot_periodic_averaged_occupation_1d_x(listed(basis, times, one[None]), (axis,), ax=alone))
                            if ok and cx.same("restored alone: lines", len(alone.get_lines()), 1):
                                cx.same("restored alone", np.real(alone.get_lines()[0].get_data()[1]), np.real(line.get_data()[1]))
                    cx.holds("restored without jumps", np.max(jump, initial=0) < 0.5 + 1e-6, f"jumps of {jump} cells between times")
                    if np.max(jump, initial=0) < 0.499:  # half a cell either way is a matter of rounding
                        derived(cfg, cx, show, basis, times, unit, axis, followed, x_mean, k_mean / norm**2, square, ts)
                cx.state(cfg, name, times.n, axis)
    show.canvas.close()


def derived(cfg, cx, show, basis, times, unit, axis, followed, x_mean, k_mean, square, ts):
    """Plots of displacements and correlations of the restored positions."""
    from surface_potential_analysis.state_vector import plot as sp

    length = float(np.linalg.norm(dx_of(cfg)[axis]))
    scattered = 0.7 / length
    for what, fn, rows in (
        ("displacement plot", lambda ax, m: sp.plot_average_displacement_1d_x(listed(basis, times, unit), (axis,), ax=ax, measure=m), [msd(r) for r in followed]),
        ("correlation plot", lambda ax, m: sp.plot_average_isf_1d_x(listed(basis, times, unit), scattered, (axis,), ax=ax, measure=m), [isf(r, scattered) for r in followed]),
    ):
        for m in ("abs", "real"):
            with cx.at(m):
                got = show.run(what, lambda ax: fn(ax, m))
                if got:
                    line_is(cx, what, got[2], ts, measured(np.array(rows), m).mean(axis=0), "real", ordered=False)
    if square and np.min(np.abs(k_mean)) * length > 1e-3:
        # which average is meant is not claimed, but it is one of these positions and momenta
        listing = TupleBasis(FundamentalBasis(len(followed)), times)
        want = sp.get_normalized_average_drift({"basis": listing, "data": followed.ravel()}, {"basis": listing, "data": k_mean.ravel()})
        want = want["data"].reshape(followed.shape)
        got = show.run("drift plot", lambda ax: sp.plot_average_drift_1d_x(listed(basis, times, unit), (axis,), ax=ax, measure="real"))
        if got and np.all(np.abs(want) < 1e6 * length**2):
            line_is(cx, "drift plot", got[2], ts, np.real(want).mean(axis=0), "real", ordered=False)


def msd(r):
    """Mean of (x(t + tau) - x(t))^2 over the times t for which both are known."""
    n = len(r)
    return np.array([np.mean([(r[i + j] - r[i]) ** 2 for i in range(n - j)]) for j in range(n)])


def isf(r, k):
    n = len(r)
    return np.array([np.mean([np.exp(1j * k * (r[i + j] - r[i])) for i in range(n - j)]) for j in range(n)])


def position_roots(tier):
    top = 5 if tier == "quick" else 7
    for n in range(1, top + 1):
        for step, offset in ((1, 0), (2, -1)):
            yield {"n": n, "step": step, "offset": offset, "kind": "alphabet"}
    for n in range(1, 12 if tier == "quick" else 30):
        yield {"n": n, "step": 1, "offset": 0, "kind": "generic"}
    # long ones, for which the correlation is calculated by Fourier transform
    yield {"n": 700, "step": 1, "offset": 0, "kind": "generic"}


@PROP.family("positions", position_roots)
def positions(cfg, cx: Cx) -> None:
    from surface_potential_analysis.state_vector import plot as sp

    n = cfg["n"]
    rows = np.array(list(itertools.product((0.0, 1.0, -2.0), repeat=n))) if cfg["kind"] == "alphabet" else rdata((1 if n > 100 else 3, n), "positions")
    times = EvenlySpacedTimeBasis(n, cfg["step"], cfg["offset"], 3.5)
    want_msd = np.array([msd(r) for r in rows])
    given = {"basis": TupleBasis(FundamentalBasis(len(rows)), times), "data": rows.reshape(-1).copy()}
    outs = []
    ok, got = cx.run("displacements", lambda: sp.get_average_displacements(given))
    if ok:
        outs.append(got)
        cx.same("displacements", np.asarray(got["data"]).reshape(rows.shape), want_msd)
    for k in (0.0, 0.7, -1.3):
        with cx.at(f"k={k}"):
            ok, got = cx.run("correlations", lambda: sp.get_average_isf(given, k))
            if ok:
                outs.append(got)
                cx.same("correlations", np.asarray(got["data"]).reshape(rows.shape), np.array([isf(r, k) for r in rows]))
    for got in outs:
        cx.same("shape", list(got["basis"].shape), list(rows.shape))
        cx.same("delays", np.asarray(got["basis"][1].times), np.arange(n) * 3.5 / n)
    cx.same("positions are left alone", given["data"], rows.reshape(-1))
    for r in rows[:: max(1, len(rows) // 300)]:
        cx.state(n, r)
    cx.trace(len(rows))


# -- bands -------------------------------------------------------------------------------------


def first_component(energy, bigs, axis):
    """sum_q E(q) exp(i q.R) for R one cell along the axis."""
    n = bigs[axis]
    w = np.exp(2j * np.pi * np.arange(n) / n)
    e = energy.reshape(-1, *bigs)
    e = np.moveaxis(e, axis + 1, -1)
    return (e @ w).reshape(len(energy), -1).sum(axis=1)


@PROP.family("bands", bloch_roots)
def bands(cfg, cx: Cx) -> None:
    from surface_potential_analysis.state_vector import plot as sp
    from surface_potential_analysis.wavepacket import localization_operator as lo
    from surface_potential_analysis.wavepacket import plot as wp
    from surface_potential_analysis.wavepacket.get_eigenstate import get_full_bloch_hamiltonian

    dx, lspec, cells = setting(cfg)
    bigs, ns = cfg["list"], cfg["cell"]
    nl = int(np.prod(bigs))
    show = Show(cx, {"dim": cfg["dim"], "lat": cfg["lat"], "shape": bigs})
    for sspec in cells:
        nst = ref.n_of(sspec)
        for nb in sorted({1, min(3, nst)}):
            data = bands_data(nb, nl, nst)
            energy = 1e-21 * (rdata((nb, nl), "energy", nb, nl) + 3 * np.arange(nb)[:, None])
            packs = packed(data, lspec, sspec, energy)
            with cx.at(json_of(sspec), f"bands={nb}"):
                ok, ham = cx.run("hamiltonian", lambda: get_full_bloch_hamiltonian(packs))
                mean = energy.mean(axis=1)
                if ok:
                    ok, got = cx.run("average energy", lambda: sp.get_average_band_energy(ham))
                    if ok:
                        cx.same("average energy", np.asarray(got["data"]) / 1e-21, mean / 1e-21)
                        cx.same("average energy bands", got["basis"].n, nb)
                # thermal occupations: only differences of energy count
                for temperature in (1.0, 60.0, 1e5):
                    for shift in (0.0, -4e-19, 3e-19):
                        moved = packs | {"eigenvalue": packs["eigenvalue"] + shift}
                        p = np.exp(-(energy - energy.min()) / (Boltzmann * temperature))
                        want = p.sum(axis=1) / p.sum()
                        with cx.at(f"T={temperature} shift={shift}"):
                            cx_got = cx.run("occupation", lambda: wp.get_wavepacket_band_occupation(moved, temperature))
                            if cx_got[0]:
                                cx.same("occupation", np.asarray(cx_got[1]["data"]), want, 1e-6)
                for measure in MEASURES[:3]:
                    show.points("occupation against band", lambda ax: wp.plot_occupation_against_band(packs, 60.0, ax=ax, measure=measure),
                                np.arange(nb), occupation(energy, 60.0).astype(complex), measure)
                got = show.run("occupation against energy", lambda ax: wp.plot_occupation_against_band_average_energy(packs, 60.0, ax=ax))
                if got:
                    line_scaled(cx, "occupation against energy", got[2], mean, occupation(energy, 60.0))
                # how much of a state of the lattice is in each band
                if ok and nb * nl:
                    in_bands(cfg, cx, show, sp, ham, lspec, sspec, data, mean)
                for axis in range(cfg["dim"]):
                    if bigs[axis] == 1:
                        continue
                    length = np.linalg.norm(dx[axis])
                    comp = np.abs(first_component(energy, bigs, axis))
                    if np.min(comp) < 1e-25:
                        continue
                    free = hbar**2 * (2 * np.arange(nb) + 1) / length**2
                    masses = nl * free / comp
                    with cx.at(f"axis={axis}"):
                        ok2, got = cx.run("effective mass", lambda: wp.get_wavepacket_transformed_energy_effective_mass(packs, axis))
                        if ok2:
                            cx.same("effective mass", np.asarray(got["data"]) / masses, np.ones(nb))
                        got = show.run("mass against band", lambda ax: wp.plot_wavepacket_transformed_energy_effective_mass_against_band(packs, (axis,), ax=ax))
                        if got:
                            line_scaled(cx, "mass against band", got[2], np.arange(nb), masses)
                        for true in (None, 2.5e-27):
                            got = show.run("mass against energy", lambda ax: wp.plot_wavepacket_transformed_energy_effective_mass_against_energy(packs, (axis,), true_mass=true, ax=ax))
                            if got:
                                line_scaled(cx, "mass against energy", got[2], mean, masses if true is None else (masses - true) / true)
                        # each band localised on its own: its phases do not enter
                        if sspec is cells[0]:
                            desk = Desk(plan_of(np.exp(1j * np.arange(nl))[:, None, None]))
                            for true in (None, 2.5e-27):
                                with desk:
                                    got = show.run("localised mass against energy", lambda ax: wp.plot_wavepacket_localized_effective_mass_against_energy(packs, (axis,), true_mass=true, ax=ax))
                                if got:
                                    line_scaled(cx, "localised mass against energy", got[2], mean, masses if true is None else (masses - true) / true)
                                    cx.holds("localised mass from zero", got[1].get_ylim()[0] == 0, str(got[1].get_ylim()))
                        # from the Hamiltonian of localised states, whatever the bands are mixed with
                        for mixed in (False, True):
                            u = np.array([unitary(nb, "mix", j) if mixed else np.eye(nb) for j in range(nl)])
                            op = {"basis": TupleBasis(packs["basis"][0][1], TupleBasis(FundamentalBasis(nb), packs["basis"][0][0])), "data": u.reshape(-1).astype(complex)}
                            inner = np.einsum("qwb,bq->wq", np.abs(u) ** 2, energy)
                            comp2 = np.abs(first_component(inner, bigs, axis))
                            if np.min(comp2) < 1e-25:
                                continue
                            ok3, got = cx.run("localized mass", lambda: wp.get_wavepacket_localized_effective_mass(packs, op, axis))
                            if ok3:
                                cx.same("localized mass", np.asarray(got["data"]) / (nl * free / comp2), np.ones(nb))
            cx.state(cfg, sspec, nb)
            cx.trace()
    show.canvas.close()


def occupation(energy, temperature):
    p = np.exp(-(energy - energy.min()) / (Boltzmann * temperature))
    return p.sum(axis=1) / p.sum()


def line_scaled(cx, what, line, xs, ys):
    """As line_is, for numbers that are far from one."""
    gx, gy = (np.real(np.asarray(v)).astype(float) for v in line.get_data(orig=True))
    xs, ys = np.asarray(xs, dtype=float), np.asarray(ys, dtype=float)
    if cx.same(what + " points", [gx.size, gy.size], [xs.size, ys.size]):
        o, p = np.argsort(gx, kind="stable"), np.argsort(xs, kind="stable")
        s, t = np.max(np.abs(xs)) or 1.0, np.max(np.abs(ys)) or 1.0
        cx.same(what, [gx[o] / s, gy[o] / t], [xs[p] / s, ys[p] / t], 1e-6)


def in_bands(cfg, cx, show, sp, ham, lspec, sspec, data, mean):
    """A state of the lattice made of given amounts of each Bloch state."""
    nb, nl = data.shape[:2]
    psi = decompress(data, lspec, sspec).reshape(nb, nl, -1)
    amount = cdata((nb, nl), "amounts")
    state = {"basis": large_basis(cfg), "data": np.einsum("bq,bqx->x", amount, psi)}
    want = (np.abs(amount) ** 2).sum(axis=1)
    for m in ("abs", "real"):
        got = show.run("occupation of bands", lambda ax: sp.plot_total_band_occupation_against_energy(ham, state, ax=ax, measure=m))
        if got:
            line_scaled(cx, "occupation of bands", got[2], mean, want)
            marks = [line for line in got[1].get_lines() if line is not got[2]]
            if cx.same("average marked", len(marks), 1):
                x = np.asarray(marks[0].get_data()[0], dtype=float)
                cx.same("average marked", x / 1e-21, np.full(x.shape, (want @ mean) / want.sum() / 1e-21), 1e-6)


def large_basis(cfg):
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    return ref.build(["S", [["FP", (d * b).tolist(), b * n] for d, b, n in zip(dx, cfg["list"], cfg["cell"])]])


def json_of(spec):
    return str(spec)
