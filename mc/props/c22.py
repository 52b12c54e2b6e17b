"""C22: plots of lists, operators, kernels and Bloch states show what they are asked for."""

from __future__ import annotations

import itertools

import numpy as np
import scipy.stats
from scipy.constants import Boltzmann, hbar

from mc import ref
from mc.core import Cx, Property, cdata, hermitian, rdata
from mc.props.c06 import gram_schmidt
from mc.props.c21 import (
    MEASURES,
    Canvas,
    Show,
    coordinates,
    default_idx,
    drawn_on,
    dx_of,
    frames_of,
    in_space,
    line_is,
    measured,
    mesh_is,
    obj_roots,
    on_path,
    part,
    path_length,
    plt,
    scale_of,
    some_cuts,
    some_measures,
    spec_of,
    surface_is,
)
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis

PROP = Property(
    "C22",
    rule="Every plot of lists of values, probabilities, operators, noise kernels, compressed Bloch states and points, over "
    "numbers of times and repeats, unequal grids, lattices of a fixed family, every kind of list, axis, measure and index.",
    assumptions=["the artists are compared as data, as in C21", "random numbers of the samples are supplied by the check"],
)


def grid_of(n, m):
    """Centres of the cells of a map without coordinates: (2, n, m)."""
    return np.array([np.arange(m)[None, :] + 0.5 + np.zeros((n, 1)), np.arange(n)[:, None] + 0.5 + np.zeros((1, m))])


# -- values at times -----------------------------------------------------------------------


def time_roots(tier):
    q = tier == "quick"
    for n in range(1, 6 if q else 12):
        for step in (1, 2):
            for offset in (0, -1, 3):
                for repeats in (1, 3) if q else (1, 2, 3, 4):
                    yield {"n": n, "step": step, "offset": offset, "repeats": repeats}


def times_of(cfg, dt=3.5):
    return (cfg["offset"] + cfg["step"] * np.arange(cfg["n"])) * dt / (cfg["n"] * cfg["step"])


def value_lists(cfg):
    """Bases of times with the times they stand for."""
    n = cfg["n"]
    yield "even", EvenlySpacedTimeBasis(n, cfg["step"], cfg["offset"], 3.5), times_of(cfg)
    if cfg["step"] == 1 and cfg["offset"] == 0:
        t = np.cumsum(rdata(n, "times") ** 2 + 0.1)
        yield "explicit", ExplicitTimeBasis(t.copy()), t


def lines_are(cx, what, lines, xs, rows, measure):
    if cx.same(what + " lines", len(lines), len(rows)):
        for i, (line, row) in enumerate(zip(lines, rows)):
            with cx.at(f"line {i}"):
                line_is(cx, what, line, xs, row, measure, ordered=False)


def error_bars(cx, what, ax, xs, ys, err):
    """One bar per point from y - err to y + err."""
    segments = [s for c in ax.collections if hasattr(c, "get_segments") for s in c.get_segments()]
    if cx.same(what + " number", len(segments), len(xs)):
        s, t = scale_of(ys), scale_of(xs)
        want = [[[x / t, (y - e) / s], [x / t, (y + e) / s]] for x, y, e in zip(xs, ys, err)]
        cx.same(what, np.array(segments) / [t, s], np.array(want))


@PROP.family("values", time_roots)
def values(cfg, cx: Cx) -> None:
    from surface_potential_analysis.dynamics import isf_plot as ip
    from surface_potential_analysis.state_vector import eigenvalue_list_plot as ep
    from surface_potential_analysis.state_vector import plot_value_list as vp

    n, reps = cfg["n"], cfg["repeats"]
    show = Show(cx, cfg)
    one = cdata(n, "values", n)
    many = cdata((reps, n), "value lists", n)
    err = rdata(n, "errors") ** 2
    for measure in MEASURES:
        with cx.at(measure):
            show.points("against number", lambda ax: vp.plot_value_list_against_nx({"basis": FundamentalBasis(n), "data": one.copy()}, ax=ax, measure=measure),
                        np.arange(n), one, measure)
            k = rdata(n, "k points")
            for std in (False, True):
                vals = {"basis": MomentumBasis(k.copy()), "data": one.copy()} | ({"standard_deviation": err.copy()} if std else {})
                got = show.run("against momentum", lambda ax: vp.plot_value_list_against_momentum(vals, ax=ax, measure=measure))
                if got:
                    line_is(cx, "against momentum", got[2], k, one, measure, ordered=False)
                    if std and measure != "angle":
                        error_bars(cx, "errors", got[1], k, measured(one, measure), err)
            for name, basis, ts in value_lists(cfg):
                vals = {"basis": basis, "data": one.copy()}
                lists = {"basis": TupleBasis(FundamentalBasis(reps), basis), "data": many.reshape(-1).copy()}
                with cx.at(name):
                    show.points("against time", lambda ax: vp.plot_value_list_against_time(vals, ax=ax, measure=measure), ts, one, measure)
                    eig1 = {"basis": TupleBasis(basis, basis), "data": one.copy()}
                    for std in (False, True):
                        e = eig1 | ({"standard_deviation": err.copy()} if std else {})
                        for what, fn in (("eigenvalue", ep.plot_eigenvalue_against_time), ("isf", ip.plot_isf_against_time)):
                            got = show.run(what + " against time", lambda ax: fn(e, ax=ax, measure=measure))
                            if got:
                                line_is(cx, what + " against time", got[2], ts, one, measure, ordered=False)
                                if std and measure != "angle":
                                    error_bars(cx, what + " errors", got[1], ts, measured(one, measure), err)
                    tb = TupleBasis(FundamentalBasis(reps), basis)
                    show.points("average isf", lambda ax: ip.plot_average_isf_against_time({"basis": TupleBasis(tb, tb), "data": many.reshape(-1).copy()}, ax=ax, measure=measure),
                                ts, many.mean(axis=0), measure)
                    for what, fn, rows in (("split against time", vp.plot_split_value_list_against_time, np.cumsum(many, axis=0)),
                                           ("all against time", vp.plot_all_value_list_against_time, many)):
                        ax = show.canvas.new()
                        ok, got = cx.run(what, lambda: fn(lists, ax=ax, measure=measure))
                        if ok:
                            cx.holds(what + " axes", got[1] is ax and len(plt.get_fignums()) == 1, "drew elsewhere")
                            lines_are(cx, what, ax.get_lines(), ts, rows, measure)
                    got = show.run("average against time", lambda ax: vp.plot_average_value_list_against_time(lists, ax=ax, measure=measure))
                    if got and measure != "angle":
                        m = measured(many, measure)
                        mean, std = m.mean(axis=0), m.std(axis=0) / np.sqrt(reps)
                        line_is(cx, "average", got[2], ts, mean, "real", ordered=False)
                        band = [c for c in got[1].collections if hasattr(c, "get_paths") and not hasattr(c, "get_segments")]
                        if cx.same("error band", len(band), 1):
                            v = band[0].get_paths()[0].vertices
                            s, t = scale_of(many), scale_of(ts)
                            want = sorted({(round(x / t, 7), round(y / s, 7)) for x, a, b in zip(ts, mean - std, mean + std) for y in (a, b)})
                            have = np.array(sorted({(round(x / t, 7), round(y / s, 7)) for x, y in v}))
                            dist = np.abs(have[:, None] - np.array(want)[None]).sum(axis=2)
                            cx.holds("error band", dist.min(axis=0).max() < 1e-5 and dist.min(axis=1).max() < 1e-5, "not the standard error")
                cx.state(cfg["n"], cfg["step"], cfg["offset"], reps, measure, name)
            basis, ts = EvenlySpacedTimeBasis(n, cfg["step"], cfg["offset"], 3.5), times_of(cfg)
            f = ref.freqs(n) / 3.5
            order = np.argsort(f)
            spectrum = lambda rows: (rows @ np.exp(-2j * np.pi * np.outer(ts, f)))[..., order]  # noqa: E731
            show.points("against frequency", lambda ax: vp.plot_value_list_against_frequency({"basis": basis, "data": one.copy()}, ax=ax, measure=measure),
                        f[order], spectrum(one), measure)
            ax = show.canvas.new()
            ok, got = cx.run("split against frequency", lambda: vp.plot_split_value_list_against_frequency(
                {"basis": TupleBasis(FundamentalBasis(reps), basis), "data": many.reshape(-1).copy()}, ax=ax, measure=measure))
            if ok:
                lines_are(cx, "split against frequency", ax.get_lines(), f[order], np.cumsum(spectrum(many), axis=0), measure)
            for dist in (None, "normal", *(("exponential normal", "skew normal") if n * reps >= 8 and measure == "real" else ())):
                m = measured(many.reshape(-1), measure)
                if np.std(m) < 1e-6 or measure == "angle":
                    continue
                ax = show.canvas.new()
                vals = {"basis": FundamentalBasis(m.size), "data": many.reshape(-1).copy()}
                with cx.at(f"distribution {dist}"):
                    ok, got = cx.run("distribution", lambda: vp.plot_value_list_distribution(vals, ax=ax, measure=measure, distribution=dist))
                    if ok:
                        histogram_is(cx, ax, m)
                        if dist == "normal" and cx.same("fitted lines", len(ax.get_lines()), 1):
                            x, y = ax.get_lines()[0].get_data()
                            mu, sd = m.mean(), m.std()
                            cx.same("normal fit", y, np.exp(-((x - mu) ** 2) / (2 * sd**2)) / (sd * np.sqrt(2 * np.pi)))
                        elif dist is not None and cx.same("fitted lines", len(ax.get_lines()), 1):
                            x, y = ax.get_lines()[0].get_data()
                            law = {"exponential normal": scipy.stats.exponnorm, "skew normal": scipy.stats.skewnorm}[dist]
                            cx.same("fit", y, law.pdf(x, *law.fit(m)), 1e-5)
                            cx.holds("range of fit", x[0] <= m.min() and x[-1] >= m.max() or np.ptp(x) > 7 * m.std(), f"{x[0]} to {x[-1]}")
    show.canvas.close()


def histogram_is(cx, ax, m):
    """The bars are a density of exactly these values, over a range that contains all of them."""
    edges = np.array([[b.get_x(), b.get_x() + b.get_width()] for b in ax.patches])
    heights = np.array([b.get_height() for b in ax.patches])
    if not cx.holds("bars", len(edges) >= 1 and edges[0, 0] <= m.min() + 1e-9 and edges[-1, 1] >= m.max() - 1e-9, "values outside of the bars"):
        return
    # bars which begin or end within rounding of a value are not compared
    safe = np.all(np.abs(edges.ravel()[1:-1, None] - m[None]) > 1e-9 * scale_of(m))
    if safe:
        count = np.array([np.sum((m >= a - (i == 0) * 1e-9) & (m < b + (i == len(edges) - 1) * 1e-9)) for i, (a, b) in enumerate(edges)])
        cx.same("bars", heights * (edges[:, 1] - edges[:, 0]), count / m.size)


# -- probabilities at times --------------------------------------------------------------------


def prob_roots(tier):
    q = tier == "quick"
    for n in (1, 2, 4) if q else range(1, 7):
        for shape in [(2, 3, 2), (1, 2, 3), (3, 1, 1)] if q else itertools.product((1, 2, 3), repeat=3):
            yield {"n": n, "shape": list(shape)}


@PROP.family("probabilities", prob_roots)
def probabilities(cfg, cx: Cx) -> None:
    from surface_potential_analysis.dynamics import plot as dp
    from surface_potential_analysis.dynamics.incoherent_propagation import plot as rp
    from surface_potential_analysis.dynamics.incoherent_propagation.isf import RateDecomposition
    from surface_potential_analysis.probability_vector import plot as pp

    n, shape = cfg["n"], cfg["shape"]
    show = Show(cx, cfg)
    times = {"n": n, "step": 1, "offset": 1}
    tb, ts = EvenlySpacedTimeBasis(n, 1, 1, 3.5), times_of(times)
    sites = TupleBasis(*(FundamentalBasis(s) for s in shape))
    p = rdata((n, *shape), "probabilities") ** 2
    prob = {"basis": TupleBasis(tb, sites), "data": p.reshape(-1).copy()}
    for what, fn, rows in (
        ("probability", pp.plot_probability_against_time, p.reshape(n, -1).T),
        ("total", pp.plot_total_probability_against_time, p.reshape(n, -1).sum(axis=1)[None]),
        ("per band", dp.plot_probability_per_band, p.sum(axis=(1, 2)).T),
        ("per site", dp.plot_probability_per_site, p.sum(axis=3).reshape(n, -1).T),
    ):
        got = show.run(what, lambda ax: fn(prob, ax=ax))
        if got:
            lines_are(cx, what, got[2], ts, rows, "real")
        cx.state(n, shape, what)
    for reps in (1, 2, 3):
        q = rdata((reps, n, *shape), "repeats") ** 2
        many = {"basis": TupleBasis(TupleBasis(FundamentalBasis(reps), tb), sites), "data": q.reshape(-1).copy()}
        got = show.run("average per band", lambda ax: dp.plot_average_probability_per_band(many, ax=ax))
        if got:
            lines_are(cx, "average per band", got[2], ts, q.mean(axis=0).sum(axis=(1, 2)).T, "real")
            said = [int(w) for w in got[1].get_title().split() if w.isdigit()]
            cx.holds("repeats in the title", not said or said == [reps], f"{got[1].get_title()!r} for {reps} repeats")
    if shape == [2, 3, 2] or shape == [1, 1, 1]:
        for m in (1, 3, 12, 49, 50, 51, 60):
            temps = np.arange(1, n + 1) * 10.0
            rates = [RateDecomposition(-(rdata(m, "rate", i) ** 2) + 1j * rdata(m, "phase", i), cdata(m, "weight", i)) for i in range(n)]
            ax = show.canvas.new()
            with cx.at(f"{m} rates"):
                ok, got = cx.run("rates against temperature", lambda: rp.plot_rate_decomposition_against_temperature(rates, temps, ax=ax))
                if ok:
                    want = np.array([-r.eigenvalues.real[np.argsort(-np.abs(r.coefficients))] for r in rates]).T[:50]
                    lines_are(cx, "rates", ax.get_lines(), temps, want, "real")
    show.canvas.close()


# -- operators ---------------------------------------------------------------------------------


def counts_up(cx, what, ax, values):
    """A line which counts the values up to each size, to within one of its steps."""
    if not cx.same(what + " lines", len(ax.get_lines()), 1):
        return
    x, y = (np.asarray(v, dtype=float) for v in ax.get_lines()[0].get_data())
    v = np.sort(values)
    # the largest value may fall on either side of the last step by rounding
    low = np.searchsorted(v, x * (1 - 1e-9), "right")
    high = np.searchsorted(v, np.append(x[2:], [np.inf, np.inf]) * (1 + 1e-9), "right")
    cx.holds(what, bool(np.all((low <= y) & (y <= high)) and len(x) > 100), f"{y} is not between {low} and {high}")
    cx.same(what + " scale", ax.get_xscale(), "log")


def op_roots(tier):
    return (c for c in obj_roots(tier) if np.prod(c["shape"]) <= 12)


@PROP.family("operators", op_roots)
def operators(cfg, cx: Cx) -> None:
    from surface_potential_analysis.operator import plot as op
    from surface_potential_analysis.state_vector import eigenvalue_list_plot as ep
    from surface_potential_analysis.state_vector import plot as sp

    spec = spec_of(cfg)
    basis = ref.build(spec)
    n, shape, dim = ref.n_of(spec), cfg["shape"], cfg["dim"]
    show = Show(cx, cfg)
    mat = cdata((n, n), "operator", shape)
    full = {"basis": TupleBasis(basis, basis), "data": mat.reshape(-1).copy()}
    diag = cdata(n, "diagonal operator", shape)
    dop = {"basis": TupleBasis(basis, basis), "data": diag.copy()}
    n2 = n + 2 if n < 4 else n - 1
    rect = cdata((n, n2), "rectangular", shape)
    rop = {"basis": TupleBasis(basis, FundamentalBasis(n2)), "data": rect.reshape(-1).copy()}
    states_x = ref.states(spec)
    local = np.einsum("ax,ab,bx->x", states_x, mat, states_x.conj()).reshape(shape)
    local_d = np.einsum("ax,a,ax->x", states_x, diag, states_x.conj()).reshape(shape)
    for measure in MEASURES:
        with cx.at(measure):
            for what, fn, o, m in (("operator", op.plot_operator_2d, full, mat), ("rectangular operator", op.plot_operator_2d, rop, rect),
                                   ("diagonal operator", op.plot_operator_2d_diagonal, dop, np.diag(diag))):
                got = show.run(what, lambda ax: fn(o, ax=ax, measure=measure))
                if got:
                    mesh_is(cx, what, got[2], grid_of(*m.shape), m, measure)
            if cfg["kind"] == "x":
                show.points("diagonal", lambda ax: op.plot_diagonal_operator_along_diagonal(dop, ax=ax, measure=measure), np.arange(n), diag, measure)
                show.points("diagonal of operator", lambda ax: op.plot_operator_along_diagonal(full, ax=ax, measure=measure), np.arange(n), np.diag(mat), measure)
            for r, f, g in ((1, op.plot_operator_along_diagonal_1d_x, op.plot_diagonal_operator_along_diagonal_1d_x),
                            (2, op.plot_operator_along_diagonal_2d_x, op.plot_diagonal_operator_along_diagonal_2d_x)):
                for axes, idx in some_cuts(cfg, r) if r <= dim else ():
                    if measure in some_measures(idx, axes):
                        show.cut(f"local part {r}d", lambda ax: f(full, axes, idx, ax=ax, measure=measure), local, "x", axes, idx, measure)
                        show.cut(f"local part of diagonal {r}d", lambda ax: g(dop, axes, idx, ax=ax, measure=measure), local_d, "x", axes, idx, measure)
            many = cdata((3, n), "diagonals", shape)
            ops = {"basis": TupleBasis(FundamentalBasis(3), TupleBasis(basis, basis)), "data": many.reshape(-1).copy()}
            for periodic in (False, True):
                ax = show.canvas.new()
                ok, got = cx.run("animate diagonals", lambda: op.animate_diagonal_operator_list_along_diagonal(ops, ax=ax, measure=measure, periodic=periodic))
                fr = frames_of(got[2]) if ok else []
                if ok and cx.same("frames", [len(f) for f in fr], [1, 1, 1]):
                    drawn_on(cx, "animate diagonals", got, ax, 1)
                    if dim == 1 and cfg["kind"] == "x":
                        for (line,), row in zip(fr, many):
                            line_is(cx, "frame", line, np.arange(n), row, measure, closed=periodic, ordered=False)
        cx.state(shape, cfg["lat"], cfg["kind"], measure)
    # how many entries, or diagonals, are up to each size
    for what, o, m in (("full", full, mat), ("rectangular", rop, rect)):
        for measure in ("abs", "real"):
            ax = show.canvas.new()
            o2 = o if measure == "abs" else o | {"data": np.abs(o["data"]) + 1j}
            ok, _ = cx.run("sizes " + what, lambda: op.plot_operator_sparsity(o2, ax=ax, measure=measure))
            if ok:
                counts_up(cx, "sizes " + what, ax, np.abs(m).reshape(-1))
    ax = show.canvas.new()
    ok, _ = cx.run("sizes of diagonals", lambda: op.plot_operator_diagonal_sparsity(full, ax=ax))
    if ok:
        counts_up(cx, "sizes of diagonals", ax, np.array([np.sqrt(sum(abs(mat[(j + d) % n, j]) ** 2 for j in range(n))) for d in range(n)]))
    # spectra
    h = hermitian(n, "spectrum", shape)
    ev = np.linalg.eigvalsh(h)
    hop = {"basis": TupleBasis(basis, basis), "data": h.reshape(-1).copy()}
    by_size = ev[np.argsort(np.abs(ev))]
    if n == 1 or np.min(np.abs(np.diff(np.sort(np.abs(ev))))) > 1e-6:
        for hermitian_, measure in itertools.product((True, False), ("real", "abs")):
            show.points("eigenvalues", lambda ax: op.plot_eigenvalues(hop, hermitian=hermitian_, ax=ax, measure=measure), np.arange(n), by_size, measure)
    temperature = 2.0 / Boltzmann
    e = ev - ev.min()
    boltz = np.exp(-e / 2.0) / np.exp(-e / 2.0).sum()
    show.points("thermal occupations", lambda ax: op.plot_eigenstate_occupations(hop, temperature, ax=ax), e, boltz, "real")
    given = {"basis": TupleBasis(FundamentalBasis(n), basis), "data": np.eye(n, dtype=complex).reshape(-1), "eigenvalue": ev[::-1].astype(complex)}
    for again in range(2):
        show.points(f"thermal occupations of states {again}", lambda ax: ep.plot_eigenstate_occupations(given, temperature, ax=ax), e, boltz, "real")
        show.points(f"eigenvalues of states {again}", lambda ax: ep.plot_eigenvalues(given, ax=ax, measure="real"), np.arange(n), by_size, "real")
    if n > 1 and np.min(np.diff(ev)) < 1e-6:
        return
    vecs = np.linalg.eigh(h)[1]
    psi = cdata((3, n), "occupied", shape)
    # psi = sum_i c_i v_i with row vectors: the coefficients in the basis are psi itself
    occ = np.abs(psi @ vecs.conj()) ** 2
    lists = {"basis": TupleBasis(FundamentalBasis(3), basis), "data": psi.reshape(-1).copy()}
    ax = show.canvas.new()
    ok, got = cx.run("occupations", lambda: sp.plot_all_eigenstate_occupations(hop, lists, ax=ax))
    if ok:
        lines_are(cx, "occupations", ax.get_lines(), e, occ, "real")
    ax = show.canvas.new()
    ok, got = cx.run("occupation of one", lambda: sp.plot_eigenstate_occupation(hop, {"basis": basis, "data": psi[1].copy()}, ax=ax))
    if ok:
        lines_are(cx, "occupation of one", ax.get_lines(), e, occ[1:2], "real")
    show.points("average occupation", lambda ax: sp.plot_average_eigenstate_occupation(hop, lists, ax=ax), e, occ.mean(axis=0), "real")
    ax = show.canvas.new()
    ok, got = cx.run("animated occupations", lambda: sp.animate_all_eigenstate_occupations(hop, lists, ax=ax))
    if ok:
        fr = frames_of(got[2])
        if cx.same("frames of occupations", [len(f) for f in fr], [1, 1, 1]):
            lines_are(cx, "animated occupations", [f[0] for f in fr], e, occ, "real")
    show.canvas.close()


# -- noise kernels --------------------------------------------------------------------------------


class Draws:
    """Stands in for the random generator: a fixed sequence of normal deviates."""

    def __init__(self, numbers):
        self.numbers, self.used = list(numbers), 0

    def standard_normal(self, size=None, *_a, **_k):
        n = 1 if size is None else int(np.prod(size))
        out = [self.numbers[(self.used + i) % len(self.numbers)] for i in range(n)]
        self.used += n
        return out[0] if size is None else np.array(out, dtype=float).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def with_draws(draws, fn):
    original = np.random.default_rng
    np.random.default_rng = lambda *_a, **_k: draws
    try:
        return fn()
    finally:
        np.random.default_rng = original


def cumulative(eig):
    return np.concatenate([[0.0], np.cumsum(np.sort(np.abs(eig)))])


def kernel_roots(tier):
    return (c for c in obj_roots(tier) if np.prod(c["shape"]) <= 12 and c["kind"] == "x")


@PROP.family("kernels", kernel_roots)
def kernels(cfg, cx: Cx) -> None:
    from surface_potential_analysis.kernel import plot as kp

    spec = spec_of(cfg)
    basis = ref.build(spec)
    n, shape, dim = ref.n_of(spec), cfg["shape"], cfg["dim"]
    show = Show(cx, cfg)
    square = TupleBasis(basis, basis)
    both = TupleBasis(square, square)
    diag = hermitian(n, "kernel", shape)
    shifted = np.array([[diag[(i - n // 2) % n, (j - n // 2) % n] for j in range(n)] for i in range(n)])
    dk = {"basis": both, "data": diag.reshape(-1).copy()}
    for measure in MEASURES:
        got = show.run("diagonal kernel", lambda ax: kp.plot_diagonal_kernel_2d(dk, ax=ax, measure=measure))
        if got:
            mesh_is(cx, "diagonal kernel", got[2], grid_of(n, n), shifted, measure)
        if n <= 5:
            full = cdata((n * n, n * n), "full kernel", shape)
            got = show.run("kernel", lambda ax: kp.plot_kernel_2d({"basis": both, "data": full.reshape(-1).copy()}, ax=ax, measure=measure))
            if got:
                mesh_is(cx, "kernel", got[2], grid_of(n * n, n * n), full, measure)
        iso = cdata(n, "isotropic", shape)
        ik = {"basis": basis, "data": iso.copy()}
        for axes, idx in some_cuts(cfg, 1):
            show.cut("isotropic 1d", lambda ax: kp.plot_isotropic_noise_kernel_1d_x(ik, axes, idx, ax=ax, measure=measure), iso.reshape(shape), "x", axes, idx, measure)
        for axes, idx in some_cuts(cfg, 2) if dim > 1 else ():
            show.cut("isotropic 2d", lambda ax: kp.plot_isotropic_noise_kernel_2d_x(ik, axes, idx, ax=ax, measure=measure), iso.reshape(shape), "x", axes, idx, measure)
        eig = cdata(n, "operator eigenvalues", shape)
        if measure != "angle" and np.min(np.abs(np.diff(np.sort(measured(eig, measure)))), initial=1) > 1e-9:
            dops = {"basis": TupleBasis(FundamentalBasis(n), square), "data": cdata(n * n, "operators", shape), "eigenvalue": eig.copy()}
            order = np.argsort(-measured(eig, measure))
            show.points("eigenvalues", lambda ax: kp.plot_diagonal_noise_operators_eigenvalues(dops, ax=ax, measure=measure), np.arange(n), eig[order], measure)
    # what is lost by keeping fewer operators
    total = cumulative(np.linalg.eigvalsh(diag))
    show.points("diagonal truncation", lambda ax: kp.plot_diagonal_kernel_truncation_error(dk, ax=ax), np.arange(n + 1), total, "real")
    if n <= 5:
        ops = hermitian(n * n, "operators of full", shape)
        full = ops.reshape(n, n, n, n).swapaxes(0, 1)
        fk = {"basis": both, "data": full.reshape(-1).copy()}
        total = cumulative(np.linalg.eigvalsh(ops))
        if np.min(np.abs(np.linalg.eigvalsh(ops))) > 1e-9:
            ax = show.canvas.new()
            ok, _ = cx.run("kernel sizes", lambda: kp.plot_kernel_sparsity(fk, ax=ax))
            if ok:
                counts_up(cx, "kernel sizes", ax, np.abs(np.linalg.eigvalsh(ops)))
        for truncations in (None, [0], [1, 0], list(range(n * n + 1))):
            ax = show.canvas.new()
            with cx.at(f"truncations={truncations}"):
                ok, got = cx.run("truncation", lambda: kp.plot_kernel_truncation_error(fk, truncations=truncations, ax=ax))
                if ok and cx.same("truncation lines", len(ax.get_lines()), 1):
                    xs = np.arange(n * n + 1) if truncations is None else np.array(truncations)
                    line_is(cx, "truncation", ax.get_lines()[0], xs, total[xs], "real", ordered=False)
    # one sample of the noise, for every unit draw of the random numbers
    amplitude = np.array([1.0, 0.5, -2.0, 3.0])
    vecs = cdata((4, n), "noise", shape)
    four = {"basis": TupleBasis(FundamentalBasis(4), square), "data": vecs.reshape(-1).copy(), "eigenvalue": amplitude / hbar}
    mats = np.array([np.diag(v) for v in vecs])
    four_full = {"basis": TupleBasis(FundamentalBasis(4), square), "data": mats.reshape(-1), "eigenvalue": amplitude / hbar}
    rank = np.argsort(-np.abs(amplitude))
    cut = [(axes, idx) for axes, idx in some_cuts(cfg, 1) if idx is not None or dim == 1]
    for name, fn, o in (("sample", kp.plot_diagonal_noise_operators_single_sample, four), ("sample of full", kp.plot_noise_operators_single_sample_x, four_full)):
        for trunc in (None, [0], [1, 3], range(3)):
            keep = range(4) if trunc is None else [rank[i] for i in trunc]
            parts = [np.lib.scimath.sqrt(amplitude[i]) * (vecs[i] - vecs[i][0]) / np.sqrt(2) * phase for i in keep for phase in (1, 1j)]
            for (axes, idx), measure in itertools.product(cut, ("real", "imag")):
                want = [part(p.reshape(shape), axes, idx or ()) for p in parts]
                xs = coordinates(cfg, axes, idx or (), "x")[0]
                left = list(range(len(want)))
                with cx.at(f"truncation={trunc}", f"axes={axes} idx={idx}", measure):
                    for i in range(len(want)):
                        draws = Draws(np.eye(len(want))[i])
                        got = show.run(name, lambda ax: with_draws(draws, lambda: fn(o, trunc, axes, idx or (), ax=ax, measure=measure)))
                        if not got:
                            break
                        cx.same("draws", draws.used, len(want))
                        gx, gy = got[2].get_data()
                        if not cx.same("points of sample", len(gy), len(xs) + (len(xs) > 1)):
                            break
                        cx.same("places of sample", gx[: len(xs)] / scale_of(xs), np.sort(xs) / scale_of(xs))
                        match = [j for j in left if np.allclose(gy[: len(xs)], measured(want[j][np.argsort(xs)], measure), atol=1e-8)]
                        if not cx.holds("one operator for each draw", match, "the sample is none of the remaining operators"):
                            break
                        left.remove(match[0])
    with cx.at("kernel sample"):
        pos = diag @ diag / hbar
        pk = {"basis": both, "data": pos.reshape(-1).copy()}
        lev, w = np.linalg.eigh(pos * hbar)
        rng_n = 2 * n
        moment = np.zeros((n, n), dtype=complex)
        good = dim == 1
        for i in range(rng_n if good else 0):
            v = np.zeros(n, dtype=complex)
            for measure, f in (("real", 1), ("imag", 1j)):
                got = show.run("kernel sample", lambda ax: with_draws(Draws(np.eye(rng_n)[i]), lambda: kp.plot_noise_kernel_single_sample(pk, ax=ax, measure=measure)))
                good = good and got is not None
                if good:
                    v += f * np.asarray(got[2].get_data()[1])[:n][np.argsort(np.argsort(coordinates(cfg, (0,), (), "x")[0]))]
            moment += np.outer(v.conj(), v)
        if good:
            m = pos * hbar
            want = m - m[:1, :] - m[:, :1] + m[0, 0]
            cx.same("second moment of samples", moment / scale_of(m), want / scale_of(m))
    if dim == 1:
        for kind in "xt":
            fitted_spec = spec_of(cfg, kind)
            fit = cdata(ref.n_of(fitted_spec), "fitted", shape)
            true = cdata(n, "true kernel", shape) + 3
            err = (in_space(fit, fitted_spec, cfg, "x").reshape(-1) - true) * 100 / true
            fk, tk = {"basis": ref.build(fitted_spec), "data": fit.copy()}, {"basis": basis, "data": true.copy()}
            show.points("error by number", lambda ax: kp.plot_isotropic_kernel_error_1d(tk, fk, ax=ax), np.arange(n), err, "real")
            show.cut("error", lambda ax: kp.plot_isotropic_kernel_error_1d_x(tk, fk, ax=ax), err, "x", (0,), None, "real")
    cx.state(shape, cfg["lat"], "kernels")
    show.canvas.close()


# -- compressed Bloch states -----------------------------------------------------------------


def bloch_roots(tier):
    q = tier == "quick"
    for lat in list(ref.LATTICES[1])[: 2 if q else None]:
        for big, n in [(1, 4), (2, 3), (3, 2), (4, 3)] if q else itertools.product(range(1, 6), range(1, 5)):
            yield {"dim": 1, "lat": lat, "list": [big], "cell": [n]}
    two = [((2, 3), (3, 2)), ((3, 1), (2, 4)), ((2, 2), (1, 3))]
    for lat in list(ref.LATTICES[2])[1:2] if q else ref.LATTICES[2]:
        for a, b in two if q else itertools.product(itertools.product((1, 2, 3), repeat=2), ((3, 2), (2, 4), (1, 3))):
            yield {"dim": 2, "lat": lat, "list": list(a), "cell": list(b)}
    for lat in list(ref.LATTICES[3])[1:2] if q else ref.LATTICES[3]:
        for a, b in [((2, 1, 3), (2, 3, 1)), ((2, 3, 1), (3, 2, 2))]:
            yield {"dim": 3, "lat": lat, "list": list(a), "cell": list(b)}


@PROP.family("Bloch states", bloch_roots)
def bloch_states(cfg, cx: Cx) -> None:
    from mc.props.c11 import decompress, momentum_spec
    from surface_potential_analysis.wavepacket import plot as wp

    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]], dtype=float)
    bigs, cell, dim = cfg["list"], cfg["cell"], cfg["dim"]
    lspec = ["S", [["FM", b] for b in bigs]]
    for kind in ("FMP", "FP"):
        sspec = ["S", [[kind, d.tolist(), n] for d, n in zip(dx, cell)]]
        nq, ns = ref.n_of(lspec), ref.n_of(sspec)
        data = cdata((2, nq, ns), "Bloch states", bigs, cell)
        energy = cdata((2, nq), "Bloch energies", bigs)
        psi = decompress(data, lspec, sspec)
        grid = {"dim": dim, "dx": (dx * np.array(bigs)[:, None]).tolist(), "shape": [b * n for b, n in zip(bigs, cell)]}
        gspec = spec_of(grid, "x")
        show = Show(cx, grid)
        lb, sb = ref.build(lspec), ref.build(sspec)
        packs = [{"basis": TupleBasis(lb, sb), "data": d.reshape(-1).copy(), "eigenvalue": e.copy()} for d, e in zip(data, energy)]
        whole = {s: [in_space(p.sum(axis=0) / np.sqrt(nq), gspec, grid, s) for p in psi] for s in "xk"}
        with cx.at(kind):
            for r, fns in ((1, (("x", wp.plot_wavepacket_1d_x), ("k", wp.plot_wavepacket_1d_k))),
                           (2, (("x", wp.plot_wavepacket_2d_x), ("k", wp.plot_wavepacket_2d_k)))):
                for axes, idx in some_cuts(grid, r) if r <= dim else ():
                    for measure in some_measures(idx, axes):
                        for space, fn in fns:
                            show.cut(f"wavepacket {r}d {space}", lambda ax: fn(packs[0], axes, idx, ax=ax, measure=measure), whole[space][0], space, axes, idx, measure)
            if dim >= 2:
                a, b = whole["x"]
                diff = (a - b) / np.maximum(np.abs(a), np.abs(b))
                for axes, idx in some_cuts(grid, 2):
                    show.cut("difference", lambda ax: wp.plot_wavepacket_difference_2d_x(*packs, axes, idx, ax=ax), diff, "x", axes, idx, "abs")
                for space, fn in (("x", wp.plot_all_wavepacket_states_2d_x), ("k", wp.plot_all_wavepacket_states_2d_k)):
                    plt.close("all")
                    idx = (0,) * (dim - 2)
                    ok, got = cx.run("every state", lambda: list(fn(packs[0], (1, 0), idx, measure="imag")))
                    if ok and cx.same("number of states", len(got), nq) and cx.same("figures", len({id(f) for f, _, _ in got}), nq):
                        for p, (_, _, mesh) in zip(psi[0], got):
                            show.artist(f"every state {space}", mesh, in_space(p, gspec, grid, space), space, (1, 0), idx, "imag")
                    plt.close("all")
                show = Show(cx, grid)
            for i, path in enumerate([tuple((0,) * dim for _ in range(2)), tuple(tuple((j * (a + 1)) % n for a, n in enumerate(grid["shape"])) for j in range(4))]):
                measure = MEASURES[i]
                show.points("along path", lambda ax: wp.plot_wavepacket_along_path(packs[0], np.array(path).T, ax=ax, measure=measure),
                            path_length(grid, path, "x"), on_path(whole["x"][0], path), measure)
            if dim == 3 and np.prod(grid["shape"]) < 200:
                for axes in itertools.permutations(range(3)):
                    ax = show.canvas.new()
                    with cx.at(f"axes={axes}"):
                        ok, got = cx.run("surface", lambda: wp.animate_wavepacket_3d_x(packs[0], axes, ax=ax, measure="real"))
                        if ok:
                            surface_is(cx, grid, got, whole["x"][0], axes, "real", (None, None))
        if kind == "FMP":
            energies(cfg, cx, dx, lspec, sspec, data, energy)
        cx.state(cfg, kind)
        show.canvas.close()


def energies(cfg, cx, dx, lspec, sspec, data, energy):
    """Energies against wavevector, and their Fourier components against displacement."""
    from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis
    from surface_potential_analysis.wavepacket import plot as wp

    bigs, dim = cfg["list"], cfg["dim"]
    grid = {"dim": dim, "dx": (dx * np.array(bigs)[:, None]).tolist(), "shape": bigs}
    qspec = spec_of(grid, "k")
    show = Show(cx, grid)
    lb, sb = ref.build(lspec), ref.build(sspec)
    one = {"basis": TupleBasis(lb, sb), "data": data[0].reshape(-1).copy(), "eigenvalue": energy[0].copy()}
    both = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), lb), sb), "data": data.reshape(-1).copy(), "eigenvalue": energy.reshape(-1).copy()}
    val = {s: [in_space(e, qspec, grid, s) for e in energy] for s in "xk"}
    for axes, idx in some_cuts(grid, 2) if dim > 1 else ():
        for measure in some_measures(idx, axes):
            show.cut("energies k", lambda ax: wp.plot_wavepacket_eigenvalues_2d_k(one, axes, idx, ax=ax, measure=measure), val["k"][0], "k", axes, idx, measure)
            show.cut("energies x", lambda ax: wp.plot_wavepacket_eigenvalues_2d_x(one, axes, idx, ax=ax, measure=measure), val["x"][0], "x", axes, idx, measure)
        if idx is not None or dim == 2:
            at = idx or ()
            vec = ref.reciprocal(np.array(grid["dx"]))
            others = [a for a in range(dim) if a not in axes]
            want = []
            for pos in itertools.product(*(range(bigs[a]) for a in axes)):
                where = dict(zip(axes, pos)) | dict(zip(others, at))
                k = sum(ref.freqs(bigs[a])[i] * vec[a] for a, i in where.items())
                want.append([k[axes[0]], k[axes[1]]])
            got = show.run("wavevectors", lambda ax: wp.plot_wavepacket_sample_frequencies(one, axes, idx, ax=ax))
            if got:
                same_points(cx, "wavevectors", got[2], np.array(want))
    for axes, idx in some_cuts(grid, 1):
        # as they come, in the order of the list
        at = (0,) * (dim - 1) if idx is None else idx
        ax = show.canvas.new()
        ok, got = cx.run("energies of the list", lambda: wp.plot_eigenvalues_1d_x({**one, "eigenvalue": energy[0].real.copy()}, axes, idx, ax=ax))
        if ok:
            line_is(cx, "energies of the list", got[2], np.arange(bigs[axes[0]]), part(energy[0].real.reshape(bigs), axes, at), "real", ordered=False)
    for axes in itertools.permutations(range(dim), 1):
        for bands in (None, [1], [1, 0]):
            chosen = range(2) if bands is None else bands
            for measure in ("abs", "real", "imag") if bands is None else ("real",):
                with cx.at(f"axes={axes} bands={bands}", measure):
                    for space, fn in (("k", wp.plot_wavepacket_eigenvalues_1d_k), ("x", wp.plot_wavepacket_eigenvalues_1d_x)):
                        ax = show.canvas.new()
                        ok, got = cx.run("band energies", lambda: fn(both, axes, bands, ax=ax, measure=measure))
                        if ok and cx.same("bands", len(ax.get_lines()), len(chosen)):
                            for line, b in zip(ax.get_lines(), chosen):
                                at = default_idx(val[space][b], axes)
                                if at is not None:
                                    show.artist(f"band energies {space}", line, val[space][b], space, axes, at, measure)
                    # the wavevectors of an uneven list, along the axis
                    fr = np.array([[0.0, 0.25, -0.4, 0.1, 0.3], [0.3, -0.1, 0.2, 0.0, -0.4], [0.1, 0.4, -0.2, 0.25, 0.0]])[:dim]
                    uneven = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), ExplicitBlockFractionBasis(fr)), sb),
                              "data": cdata(10 * ref.n_of(sspec), "uneven"), "eigenvalue": cdata(10, "uneven energies")}
                    ax = show.canvas.new()
                    ok, got = cx.run("uneven energies", lambda: wp.plot_uneven_wavepacket_eigenvalues_1d_k(uneven, axes, bands, ax=ax, measure=measure))
                    if ok and cx.same("uneven bands", len(ax.get_lines()), len(chosen)):
                        rec = ref.reciprocal(dx)
                        xs = (fr.T @ rec) @ rec[axes[0]] / np.linalg.norm(rec[axes[0]])
                        if np.min(np.diff(np.sort(xs))) > 1e-9 * scale_of(xs):
                            for line, b in zip(ax.get_lines(), chosen):
                                line_is(cx, "uneven energies", line, xs, uneven["eigenvalue"].reshape(2, -1)[b], measure)
                    if bigs[axes[0]] > 1:
                        first = np.array([v[tuple(int(a == axes[0]) for a in range(dim))] for v in val["x"]])
                        for mass in (None, 2.5e-27):
                            ax = show.canvas.new()
                            ok, got = cx.run("first component", lambda: wp.plot_wavepacket_transformed_energy_1d(both, mass, axes, bands, ax=ax, measure=measure))
                            if ok and cx.same("component lines", len(ax.get_lines()), 1 if mass is None else 2):
                                line_is(cx, "first component", ax.get_lines()[0], np.array(list(chosen)), first[list(chosen)], measure, ordered=False)
                                if mass is not None:
                                    length = np.linalg.norm(dx[axes[0]])
                                    want = np.array([np.sqrt(np.prod(bigs)) * hbar**2 * (2 * b + 1) / (mass * length**2) for b in chosen])
                                    line_is(cx, "free particle", ax.get_lines()[1], np.array(list(chosen)), want, "real", ordered=False)
    show.canvas.close()


def same_points(cx, what, line, want):
    """The same points, in any order."""
    got = np.array(line.get_data()).T
    want = np.asarray(want, dtype=float)
    s = scale_of(want)
    if not cx.same(what + " number", list(got.shape), list(want.shape)):
        return False
    left = list(range(len(want)))
    for p in got:
        near = min(left, key=lambda i: np.abs(want[i] - p).sum())
        if np.abs(want[near] - p).sum() > 1e-7 * s:
            return cx.same(what, p / s, want[near] / s)
        left.remove(near)
    return cx.holds(what, not left, "points missing")


# -- points of the grid and tables of points ------------------------------------------------------


def points_roots(tier):
    q = tier == "quick"
    for d in (2, 3):
        for lat in ref.LATTICES[d]:
            s2 = [(3, 4), (1, 5), (4, 2)] if q else itertools.product(range(1, 6), repeat=2)
            s3 = [(2, 3, 4), (3, 1, 2)] if q else [(2, 3, 4), (3, 1, 2), (4, 4, 1), (3, 3, 3), (5, 2, 3)]
            for shape in s2 if d == 2 else s3:
                yield {"dim": d, "lat": lat, "shape": list(shape)}


@PROP.family("points", points_roots)
def points(cfg, cx: Cx) -> None:
    from surface_potential_analysis.stacked_basis import plot as bp

    spec = spec_of(cfg, "x")
    basis = ref.build(spec)
    dx, shape, dim = dx_of(cfg), cfg["shape"], cfg["dim"]
    rec = ref.reciprocal(dx)
    show = Show(cx, cfg)

    def scatter(what, fn, want):
        got = show.run(what, fn)
        if got:
            same_points(cx, what, got[2], want)

    every = list(itertools.product(*(range(n) for n in shape)))
    xs = np.array([sum(i / n * d for i, n, d in zip(at, shape, dx)) for at in every])
    ks = np.array([sum(ref.freqs(n)[i] * k for i, n, k in zip(at, shape, rec)) for at in every])
    for axes in itertools.permutations(range(dim), 2):
        e, f = gram_schmidt(dx[list(axes)]), gram_schmidt(rec[list(axes)])
        with cx.at(f"axes={axes}"):
            for _ in range(2):
                scatter("positions", lambda ax: bp.plot_x_points_projected_2d(basis, axes, xs.T.copy(), ax=ax), xs @ e.T)
                scatter("wavevectors", lambda ax: bp.plot_k_points_projected_2d(basis, axes, ks.T.copy(), ax=ax), ks @ f.T)
            others = [a for a in range(dim) if a not in axes]
            for idx in itertools.product(*(range(shape[a]) for a in others)):
                on = [i for i, at in enumerate(every) if all(at[a] == j for a, j in zip(others, idx))]
                with cx.at(f"idx={idx}"):
                    scatter("positions in plane", lambda ax: bp.plot_fundamental_x_in_plane_projected_2d(basis, axes, idx, ax=ax), xs[on] @ e.T)
                    scatter("wavevectors in plane", lambda ax: bp.plot_fundamental_k_in_plane_projected_2d(basis, axes, idx, ax=ax), ks[on] @ f.T)
            for i, at in enumerate(every):
                for name, idx in (("stacked", at), ("flat", i)):
                    with cx.at(name, str(idx)):
                        scatter("position at index", lambda ax: bp.plot_fundamental_x_at_index_projected_2d(basis, idx, axes, ax=ax), xs[i : i + 1] @ e.T)
            # the neighbours of the origin on the lattice of which these wavevectors are one cell
            zone = rec * np.array(shape)[:, None]
            bragg = np.array([sum(i * k for i, k in zip(at, zone)) for at in itertools.product((-1, 0, 1), repeat=dim)])
            scatter("bragg points", lambda ax: bp.plot_bragg_points_projected_2d(basis, axes, ax=ax), bragg @ f.T)
            # where the third wavevector leans over the plane a zone in space does not show as one in the plane
            if dim == 3 and axes in ((0, 1), (1, 0)) and np.allclose(f @ rec[2], 0):
                got = show.run("zone", lambda ax: bp.plot_brillouin_zone_points_projected_2d(basis, axes, ax=ax))
                if got and cx.same("zone points", len(got[2].get_data()[0]), shape[0] * shape[1]):
                    whole = np.array(got[2].get_data()).T @ np.linalg.inv(rec[:2] @ f.T)
                    if cx.same("zone points are wavevectors", whole, np.round(whole), 1e-6):
                        cx.same("every wavevector once", sorted((int(round(a)) % shape[0], int(round(b)) % shape[1]) for a, b in whole),
                                list(itertools.product(range(shape[0]), range(shape[1]))))
            cx.state(cfg["lat"], shape, axes)
    show.canvas.close()


def table_roots(tier):
    for nx, ny, nz in itertools.product((1, 2, 3), (1, 2, 4), (1, 3)) if tier == "quick" else itertools.product(range(1, 6), range(1, 6), range(1, 5)):
        yield {"n": [nx, ny, nz]}


@PROP.family("tables", table_roots)
def tables(cfg, cx: Cx) -> None:
    from surface_potential_analysis.basis import plot as bp
    from surface_potential_analysis.potential import plot_point_potential as pp
    from surface_potential_analysis.potential import plot_uneven_potential as up
    from surface_potential_analysis.potential.potential import UnevenPotential3dZBasis

    nx, ny, nz = cfg["n"]
    show = Show(cx, cfg)
    z = np.cumsum(rdata(nz, "z") ** 2 + 0.1)
    vals = rdata((nx, ny, nz), "uneven")
    lat = np.array([[1.0, 0.2], [0.3, 1.4]])
    basis = TupleBasis(ref.build(["FP", lat[0].tolist(), nx]), ref.build(["FP", lat[1].tolist(), ny]), UnevenPotential3dZBasis(z.copy()))
    pot = {"basis": basis, "data": vals.reshape(-1).copy()}
    for at in itertools.product(range(nx), range(ny)):
        show.points("uneven", lambda ax: up.plot_uneven_potential_z(pot, at, ax=ax), z, vals[at], "real")
        sites_111 = {"Top Site": ((2 * nx) // 3, (2 * ny) // 3), "Bridge Site": (nx // 6, ny // 6), "FCC Site": (0, 0), "HCP Site": (nx // 3, ny // 3)}
        sites_100 = {"Hollow Site": (0, 0), "Bridge Site": (nx // 2, 0), "Top Site": (nx // 2, ny // 2)}
        given = {"a": at, "b": (0, 0), "c": (nx - 1, 0)}
        for what, fn, sites in (
            ("given", lambda ax: up.plot_uneven_potential_z_comparison(pot, given, ax=ax), given),
            ("111", lambda ax: up.plot_uneven_potential_z_comparison_111(pot, at, ax=ax), {k: ((v[0] + at[0]) % nx, (v[1] + at[1]) % ny) for k, v in sites_111.items()}),
            ("100", lambda ax: up.plot_uneven_potential_z_comparison_100(pot, at, ax=ax), {k: ((v[0] + at[0]) % nx, (v[1] + at[1]) % ny) for k, v in sites_100.items()}),
        ):
            with cx.at(what, str(at)):
                got = show.run("sites", fn)
                if got and cx.same("site labels", [x.get_label() for x in got[2]], list(sites)):
                    for line, s in zip(got[2], sites.values()):
                        line_is(cx, "site", line, z, vals[s], "real", ordered=False)
    # a table of points, with a different number of heights at each place, in several orders
    places = [(0.5 * i, 0.25 * j + 0.1 * (i % 2)) for i in range(nx) for j in range(ny)]
    rows = [(x, y, 0.3 * k, rdata(1, "table", x, y, k)[0]) for p, (x, y) in enumerate(places) for k in range(nz + p % 2)]
    for order in ("sorted", "reversed", "interleaved"):
        r = rows if order == "sorted" else rows[::-1] if order == "reversed" else [*rows[::2], *rows[1::2]]
        table = dict(zip(("x_points", "y_points", "z_points", "points"), np.array(r).T.copy()))
        with cx.at(order):
            got = show.run("places", lambda ax: pp.plot_point_potential_location_xy(table, ax=ax))
            if got:
                same_points(cx, "places", got[2], np.array(places))
            ax = show.canvas.new()
            ok, got = cx.run("all heights", lambda: pp.plot_point_potential_all_z(table, ax=ax))
            if ok and cx.same("curves", len(ax.get_lines()), len(places)):
                want = [sorted((k, v) for x, y, k, v in rows if (x, y) == p) for p in places]
                have = [sorted(zip(np.ravel(line.get_xdata()).tolist(), np.ravel(line.get_ydata()).tolist())) for line in ax.get_lines()]
                for h in have:
                    cx.holds("curve", any(len(w) == len(h) and np.allclose(w, h) for w in want), "a curve which is not that of one place")
                cx.holds("every place once", len({str(np.round(h, 9).tolist()) for h in have}) == len(places), "a place twice")
    # states of an explicit basis
    for inner in (["FP", [1.7], nx * nz], ["FMP", [1.7], nx * nz]):
        m = max(1, nx * nz - 1)
        spec = ["XL", "orth", m, inner]
        vectors = ref.states(spec)
        b = ref.build(spec)
        x = 1.7 * np.arange(nx * nz) / (nx * nz)
        for measure in MEASURES:
            with cx.at(inner[0], measure):
                for i in range(m):
                    show.points("state of basis", lambda ax: bp.plot_explicit_basis_state_x(b, i, ax=ax, measure=measure), x, vectors[i], measure)
                got = show.run("states of basis", lambda ax: bp.plot_explicit_basis_states_x(b, ax=ax, measure=measure))
                if got:
                    lines_are(cx, "states of basis", got[2], x, vectors, measure)
    cx.state(cfg)
    show.canvas.close()
