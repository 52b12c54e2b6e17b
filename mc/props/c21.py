"""C21: what a plot shows is the data it was asked to show, at the coordinates it lies at."""

from __future__ import annotations

import itertools
import logging
import warnings

import matplotlib as mpl
import numpy as np

mpl.use("Agg")
logging.getLogger("matplotlib").setLevel(logging.CRITICAL)
warnings.filterwarnings("ignore", module="matplotlib")

from matplotlib import pyplot as plt  # noqa: E402
from scipy.constants import Boltzmann, hbar  # noqa: E402

from mc import ref  # noqa: E402
from mc.core import Cx, Property, cdata, hermitian, quiet, rdata  # noqa: E402
from mc.props.c06 import gram_schmidt  # noqa: E402
from surface_potential_analysis.basis.basis import FundamentalBasis  # noqa: E402
from surface_potential_analysis.basis.stacked_basis import TupleBasis  # noqa: E402
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis  # noqa: E402
from surface_potential_analysis.util import plot as up  # noqa: E402

PROP = Property(
    "C21",
    rule="Every plotting function over grids of unequal axes (1 to 3 dimensions), lattices of a fixed family, position, momentum "
    "and truncated bases, every selection and order of the plotted axes, every index of the others, every measure and scale.",
    assumptions=["angles are compared modulo a full turn", "the artists are inspected, and for each scale also rendered with the Agg backend"],
)

MEASURES = ("real", "imag", "abs", "angle")
SCALES = ("linear", "symlog", "squared", "log")


# -- the reference: what the picture has to contain ------------------------------------------


def measured(data, measure):
    data = np.asarray(data)
    if measure == "real":
        return np.real(data).astype(float)
    if measure == "imag":
        return np.imag(data).astype(float)
    if measure == "abs":
        return np.sqrt(np.real(data) ** 2 + np.imag(data) ** 2)
    return np.arctan2(np.imag(data), np.real(data))


def dx_of(cfg):
    if "dx" in cfg:
        return np.array(cfg["dx"], dtype=float)
    return np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]], dtype=float)


def spec_of(cfg, kind=None):
    """Axes of the given kind; the grid has the shape of cfg."""
    kind = kind or cfg["kind"]
    out = []
    for d, n in zip(dx_of(cfg), cfg["shape"]):
        d = d.tolist()
        out.append({"x": ["FP", d, n], "k": ["FMP", d, n], "t": ["MP", d, max(1, n - 1), n],
                    "e": ["EMP", d, n // 2, 2, -1] if n % 2 == 0 else ["TP", d, n, n]}[kind])
    return ["S", out]


def in_space(data, spec, cfg, space):
    """Coefficients in spec -> values on the full grid of positions or momenta, as a stacked array."""
    return (data @ ref.transfer(spec, spec_of(cfg, space))).reshape(*data.shape[:-1], *cfg["shape"])


def coordinates(cfg, axes, idx, space):
    """Coordinates in the plane spanned by axes of every point of the slice: (len(axes), *slice)."""
    dx, shape = dx_of(cfg), cfg["shape"]
    vec = dx if space == "x" else ref.reciprocal(dx)
    e = gram_schmidt(vec[list(axes)])
    pts = [np.arange(n) / n if space == "x" else ref.freqs(n) for n in shape]
    others = [a for a in range(len(shape)) if a not in axes]
    out = np.empty([len(axes), *(shape[a] for a in axes)])
    for pos in itertools.product(*(range(shape[a]) for a in axes)):
        at = dict(zip(axes, pos)) | dict(zip(others, idx))
        out[(slice(None), *pos)] = e @ sum(pts[a][i] * vec[a] for a, i in at.items())
    return out


def part(values, axes, idx):
    """values[..] with idx in the other axes, plotted axes in the order of axes."""
    nd = values.ndim
    others = [a for a in range(nd) if a not in axes]
    v = np.transpose(values, [*axes, *others])
    return v[(*(slice(None) for _ in axes), *idx)]


def default_idx(values, axes):
    """The slice through the largest value; None when several slices hold it."""
    size = np.abs(values)
    best = {tuple(int(i) for a, i in enumerate(at) if a not in axes) for at in np.argwhere(size > np.max(size) * (1 - 1e-7))}
    return best.pop() if len(best) == 1 else None


# -- monitors on the artists --------------------------------------------------------------


def picture(shown, raw, measure):
    """What is compared: the value, or for angles the direction wherever it is defined."""
    shown = np.asarray(shown, dtype=float)
    raw = np.asarray(raw)
    if shown.size == 0:
        return shown
    if measure == "angle":
        return np.exp(1j * shown) * (np.abs(raw) > 1e-9 * scale_of(raw))
    return shown / scale_of(measured(raw, measure))


class Canvas:
    """One figure, cleared for every plot."""

    def __init__(self):
        plt.close("all")
        self.fig = plt.figure(figsize=(2, 2), dpi=40)

    def new(self):
        self.fig.clf()
        return self.fig.add_subplot()

    def close(self):
        plt.close("all")


def line_is(cx, what, line, xs, raw, measure, *, closed=False, ordered=True, tol=1e-8):
    """The line goes through exactly the points (xs, measure of raw), in order of xs; closed: once more around."""
    gx, gy = (np.real(np.asarray(v)).astype(float) for v in line.get_data(orig=True))
    xs, raw = np.asarray(xs, dtype=float), np.asarray(raw)
    if ordered:
        o = np.argsort(xs, kind="stable")
        xs, raw = xs[o], raw[o]
    if closed and xs.size > 1:
        xs = np.append(xs, 2 * xs[-1] - xs[-2])
        raw = np.append(raw, raw[0])
    if gx.shape != xs.shape or gy.shape != raw.shape:
        return cx.same(what + " points", [list(gx.shape), list(gy.shape)], [list(xs.shape), list(raw.shape)])
    s = scale_of(xs)
    return cx.same(what, [gx / s, picture(gy, raw, measure)], [xs / s, picture(measured(raw, measure), raw, measure)], tol)


def scale_of(v):
    """Values are compared relative to the largest of them; all data here is of order one, less is rounding."""
    m = float(np.max(np.abs(v), initial=0))
    return m if m > 1e-9 and np.isfinite(m) else 1.0


def centres(mesh):
    c = np.asarray(mesh.get_coordinates())
    return ((c[:-1, :-1] + c[1:, :-1] + c[:-1, 1:] + c[1:, 1:]) / 4).transpose(2, 0, 1)


def mesh_is(cx, what, mesh, cs, raw, measure, tol=1e-8):
    """Every cell lies where its value belongs, cells in their order along both axes."""
    got = centres(mesh)
    vals = np.ma.filled(np.ma.asarray(mesh.get_array()), np.nan).astype(float).reshape(got.shape[1:])
    if not cx.same(what + " cells", list(got.shape), list(cs.shape)):
        return False
    s = scale_of(cs)
    flat_cs, flat_got = cs.reshape(2, -1) / s, got.reshape(2, -1) / s
    dist = np.abs(flat_got[:, :, None] - flat_cs[:, None, :]).sum(axis=0)
    at = np.argmin(dist, axis=1)
    if not cx.holds(what + " cells", np.max(np.min(dist, axis=1)) < 1e-6 and len(set(at.tolist())) == at.size, "cells elsewhere"):
        return False
    for ax in (1, 2):
        if got.shape[ax] > 2:
            step = np.ptp(np.diff(got, axis=ax) / s, axis=ax)
            cx.same(what + " evenly spaced cells", step, np.zeros_like(step), 1e-6)
    raw = np.asarray(raw).ravel()[at]
    return cx.same(what + " values", picture(vals.ravel(), raw, measure), picture(measured(raw, measure), raw, measure), tol)


def colours_are(cx, what, mesh, lo, hi):
    s = scale_of([lo, hi])
    got = [float(np.asarray(c)) for c in mesh.get_clim()]
    return cx.same(what, np.array(got) / s, np.array([lo, hi]) / s, 1e-7)


def limits(values, measure):
    return (0.0 if measure == "abs" else float(np.min(values)), float(np.max(values)))


def axis_is(cx, what, ax, scale):
    return cx.same(what, ax.get_yscale(), scale)


def drawn_on(cx, what, got, ax, n_figures):
    """It drew on the axes it was given, and opened no other figure."""
    cx.holds(what + " axes", got[1] is ax, "drew on other axes than the ones given")
    cx.holds(what + " figure", got[0] is ax.get_figure() and len(plt.get_fignums()) == n_figures, "opened another figure")


def shows_all(cx, what, ax, xs, ys):
    lo, hi = sorted(ax.get_ylim())
    a, b = sorted(ax.get_xlim())
    e, f = 1e-9 * scale_of(ys), 1e-9 * scale_of(xs)
    cx.holds(what, np.min(ys) >= lo - e and np.max(ys) <= hi + e and np.min(xs) >= a - f and np.max(xs) <= b + f,
             f"points outside the picture: x in {a, b}, y in {lo, hi}")


# -- one-dimensional cuts ----------------------------------------------------------------------


def grids(tier, dims=(1, 2, 3)):
    q = tier == "quick"
    s = {1: [(1,), (2,), (3,), (4,), (5,), (7,)] if q else [(n,) for n in range(1, 12)],
         2: [(1, 3), (2, 3), (4, 3), (3, 4)] if q else list(itertools.product(range(1, 6), repeat=2)),
         3: [(2, 3, 4), (3, 1, 2)] if q else [(2, 3, 4), (3, 1, 2), (4, 3, 2), (1, 2, 3), (2, 2, 2), (3, 4, 5)]}
    for d in dims:
        lats = list(ref.LATTICES[d])
        for lat in lats if not q or d == 1 else (["oblique"] if d == 2 else ["tri"]):
            for shape in s[d]:
                yield d, lat, shape


def roots(tier):
    for d, lat, shape in grids(tier):
        for kind in "xkte":
            yield {"dim": d, "lat": lat, "shape": list(shape), "kind": kind}


def cuts(cfg, r):
    """(axes, idx) of every cut with r plotted axes; idx None is the cut through the largest value."""
    shape = cfg["shape"]
    for axes in itertools.permutations(range(len(shape)), r):
        others = [a for a in range(len(shape)) if a not in axes]
        for idx in [None, *itertools.product(*(range(shape[a]) for a in others))]:
            yield axes, idx


def some_measures(idx, axes):
    """Every measure of the cut through the largest value of the first axes; one of them in turn elsewhere."""
    if idx is None and axes[0] == 0:
        return MEASURES
    return (MEASURES[(sum(idx or (1,)) + axes[0]) % 4],)


@PROP.family("lines", roots)
def lines(cfg, cx: Cx) -> None:
    spec = spec_of(cfg)
    basis = ref.build(spec)
    data = cdata(ref.n_of(spec), "lines", cfg["shape"])
    canvas = Canvas()
    for space, fn in (("x", up.plot_data_1d_x), ("k", up.plot_data_1d_k)):
        values = in_space(data, spec, cfg, space)
        for axes, idx in cuts(cfg, 1):
            at = default_idx(values, axes) if idx is None else idx
            if at is None:
                continue
            xs, raw = coordinates(cfg, axes, at, space)[0], part(values, axes, at)
            for measure in some_measures(idx, axes):
                ys = measured(raw, measure)
                for scale in SCALES if idx is None else ("linear",):
                    if scale == "log" and np.max(ys) <= 1e-9 * scale_of(raw):
                        continue
                    with cx.at(space, f"axes={axes} idx={idx}", measure, scale):
                        ax = canvas.new()
                        ok, got = cx.run("line", lambda: fn(basis, data.copy(), axes, idx, ax=ax, scale=scale, measure=measure))
                        if ok:
                            drawn_on(cx, "line", got, ax, 1)
                            line_is(cx, f"line in {space}", got[2], xs, raw, measure, closed=True)
                            axis_is(cx, "scale", ax, scale)
                            if scale == "linear":
                                shows_all(cx, "visible", ax, *got[2].get_data())
                            if idx is None and measure in ("real", "abs") and axes[0] == 0:
                                cx.run("render", canvas.fig.canvas.draw)
                    cx.state(cfg["shape"], cfg["lat"], cfg["kind"], space, axes, at, measure, scale)
            cx.trace()
    # along the numbers of a basis
    fund = in_space(data, spec, cfg, "x") if cfg["kind"] == "x" else None
    if fund is not None:
        for axes, idx in cuts(cfg, 1):
            at = default_idx(fund, axes) if idx is None else idx
            n = cfg["shape"][axes[0]]
            for measure, periodic in itertools.product(MEASURES, (False, True)):
                if periodic and n == 1:
                    continue
                ax = canvas.new()
                with cx.at("n", f"axes={axes} idx={idx}", measure, f"periodic={periodic}"):
                    ok, got = cx.run("numbered", lambda: up.plot_data_1d_n(basis, data.copy(), axes, idx, ax=ax, measure=measure, periodic=periodic))
                    if ok:
                        drawn_on(cx, "numbered", got, ax, 1)
                        line_is(cx, "numbered", got[2], np.arange(n), part(fund, axes, at), measure, closed=periodic)
    canvas.close()
    # without axes to draw on: a new figure
    ok, got = cx.run("new figure", lambda: up.plot_data_1d_x(basis, data.copy()))
    if ok:
        cx.holds("new figure", len(plt.get_fignums()) == 1 and got[1].get_figure() is got[0], "no figure of its own")
    plt.close("all")


# -- two-dimensional cuts ----------------------------------------------------------------------


def map_roots(tier):
    for d, lat, shape in grids(tier, (2, 3)):
        for kind in "xkte":
            yield {"dim": d, "lat": lat, "shape": list(shape), "kind": kind}


@PROP.family("maps", map_roots)
def maps(cfg, cx: Cx) -> None:
    spec = spec_of(cfg)
    basis = ref.build(spec)
    data = cdata(ref.n_of(spec), "maps", cfg["shape"])
    canvas = Canvas()
    for space, fn in (("x", up.plot_data_2d_x), ("k", up.plot_data_2d_k)):
        values = in_space(data, spec, cfg, space)
        for axes, idx in cuts(cfg, 2):
            at = default_idx(values, axes) if idx is None else idx
            if at is None:
                continue
            cs, raw = coordinates(cfg, axes, at, space), part(values, axes, at)
            for measure in some_measures(idx, axes):
                vs = measured(raw, measure)
                for scale in SCALES if idx is None and measure in ("real", "abs") else ("linear",):
                    if scale == "log" and np.min(vs) <= 0:
                        continue
                    with cx.at(space, f"axes={axes} idx={idx}", measure, scale):
                        ax = canvas.new()
                        ok, got = cx.run(f"map {scale}", lambda: fn(basis, data.copy(), axes, idx, ax=ax, scale=scale, measure=measure))
                        if ok:
                            drawn_on(cx, "map", got, ax, 1)
                            mesh_is(cx, f"map in {space}", got[2], cs, raw, measure)
                            if measure != "angle" and scale != "log" and np.ptp(vs) > 1e-9:
                                colours_are(cx, "colours", got[2], *limits(vs, measure))
                            if scale == "log" and np.ptp(vs[vs > 1e-9]) > 1e-6 and np.min(vs[vs > 0]) > 1e-6:
                                lo, hi = got[2].get_clim()
                                cx.holds("log colours", 0 < lo <= hi and np.isclose(hi, np.max(vs)), f"colour limits {lo, hi}")
                            cx.holds("one colour bar", len(canvas.fig.axes) == 2, "not exactly one colour bar")
                            if idx is None and axes == (0, 1):
                                cx.run(f"render {scale}", canvas.fig.canvas.draw)
                    cx.state(cfg["shape"], cfg["lat"], cfg["kind"], space, axes, at, measure, scale)
            cx.trace()
    canvas.close()


# -- animations ------------------------------------------------------------------------


def frames_of(ani):
    return [list(f) for f in ani.new_frame_seq()]


def ani_roots(tier):
    for d, lat, shape in grids(tier):
        for kind in "xt":
            yield {"dim": d, "lat": lat, "shape": list(shape), "kind": kind}


@PROP.family("animations", ani_roots)
def animations(cfg, cx: Cx) -> None:
    spec = spec_of(cfg)
    basis = ref.build(spec)
    n = ref.n_of(spec)
    canvas = Canvas()
    for count in (1, 3):
        data = cdata((count, n), "animations", cfg["shape"])
        for space, f1, f2 in (("x", up.animate_data_through_list_1d_x, up.animate_data_through_list_2d_x),
                              ("k", up.animate_data_through_list_1d_k, up.animate_data_through_list_2d_k)):
            values = in_space(data, spec, cfg, space)
            for r, fn in ((1, f1), (2, f2)):
                if r > cfg["dim"]:
                    continue
                for axes, idx in cuts(cfg, r):
                    for measure in some_measures(idx, axes):
                        with cx.at(count, space, f"axes={axes} idx={idx}", measure):
                            ax = canvas.new()
                            ok, got = cx.run("animate", lambda: fn(basis, data.copy(), axes, idx, ax=ax, measure=measure))
                            if not ok:
                                continue
                            drawn_on(cx, "animation", got, ax, 1)
                            fr = frames_of(got[2])
                            if not cx.same("frames", [len(f) for f in fr], [1] * count):
                                continue
                            for v, (artist,) in zip(values, fr):
                                at = default_idx(v, axes) if idx is None else idx
                                if at is None:
                                    continue
                                cs, raw = coordinates(cfg, axes, at, space), part(v, axes, at)
                                if r == 1:
                                    line_is(cx, f"frame in {space}", artist, cs[0], raw, measure, closed=True)
                                else:
                                    mesh_is(cx, f"frame in {space}", artist, cs, raw, measure)
                            cx.state(cfg["shape"], cfg["lat"], cfg["kind"], count, space, axes, idx, measure)
                    cx.trace()
        if cfg["kind"] == "x":
            for axes, idx in cuts(cfg, 1):
                with cx.at(count, "n", f"axes={axes} idx={idx}"):
                    ax = canvas.new()
                    ok, got = cx.run("animate numbered", lambda: up.animate_data_through_list_1d_n(basis, data.copy(), axes, idx, ax=ax, measure="imag"))
                    if ok:
                        for v, (artist,) in zip(data.reshape(count, *cfg["shape"]), frames_of(got[2])):
                            at = default_idx(v, axes) if idx is None else idx
                            line_is(cx, "numbered frame", artist, np.arange(cfg["shape"][axes[0]]), part(v, axes, at), "imag")
    if cfg["dim"] == 3:
        one = cdata(n, "surface", cfg["shape"])
        values = in_space(one, spec, cfg, "x")
        for axes, idx in cuts(cfg, 3):
            for measure, scale in [*itertools.product(MEASURES, ("linear",)), ("real", "symlog")]:
                for clim in ((None, None), (-0.5, 2.0)) if measure == "real" else ((None, None),):
                    with cx.at("surface", f"axes={axes} idx={idx}", measure, scale, f"clim={clim}"):
                        ax = canvas.new()
                        ok, got = cx.run("animate surface", lambda: up.animate_data_through_surface_x(
                            basis, one.copy(), axes, idx, ax=ax, measure=measure, scale=scale, clim=clim))
                        if not ok:
                            continue
                        drawn_on(cx, "surface", got, ax, 1)
                        surface_is(cx, cfg, got, values, axes, measure, clim)
    canvas.close()


def surface_is(cx, cfg, got, values, axes, measure, clim):
    cs, raw = coordinates(cfg, axes, (), "x"), part(values, axes, ())
    vs = measured(raw, measure)
    fr = frames_of(got[2])
    if not cx.same("surface frames", [len(f) for f in fr], [1] * vs.shape[2]):
        return
    lo, hi = limits(vs, measure)
    lo, hi = lo if clim[0] is None else clim[0], hi if clim[1] is None else clim[1]
    for i, (mesh,) in enumerate(fr):
        mesh_is(cx, "surface frame", mesh, cs[:2, :, :, i], raw[:, :, i], measure)
        if measure != "angle":
            colours_are(cx, "surface colours", mesh, lo, hi)
    cx.trace()


# -- the plots of each kind of object -----------------------------------------------------


def obj_roots(tier):
    q = tier == "quick"
    s = {1: [(1,), (4,), (5,)] if q else [(n,) for n in range(1, 9)],
         2: [(2, 3), (4, 3)] if q else list(itertools.product((1, 2, 3, 4), repeat=2)),
         3: [(2, 3, 4), (3, 4, 2)] if q else [(2, 3, 4), (3, 4, 2), (3, 3, 3), (1, 2, 3), (4, 5, 2)]}
    for d in (1, 2, 3):
        lats = list(ref.LATTICES[d])
        for lat in lats if not q else lats[1:3]:
            for shape in s[d]:
                for kind in ("x", "t") if q else "xkte":
                    yield {"dim": d, "lat": lat, "shape": list(shape), "kind": kind}


def some_cuts(cfg, r):
    """Every order of axes; the default slice and the last one."""
    for axes in itertools.permutations(range(cfg["dim"]), r):
        others = [a for a in range(cfg["dim"]) if a not in axes]
        yield axes, None
        if others:
            yield axes, tuple(cfg["shape"][a] - 1 for a in others)


class Show:
    """Runs a plot on fresh axes and checks the picture."""

    def __init__(self, cx, cfg):
        self.cx, self.cfg, self.canvas = cx, cfg, Canvas()

    def run(self, what, fn):
        ax = self.canvas.new()
        ok, got = self.cx.run(what, lambda: fn(ax))
        if ok:
            drawn_on(self.cx, what, got, ax, 1)
        self.cx.trace()
        return got if ok else None

    def cut(self, what, fn, values, space, axes, idx, measure, *, data_axes=None):
        """fn(ax) draws one cut of values (a line for one axis, a map for two)."""
        at = default_idx(values, axes) if idx is None else idx
        if at is None:
            return
        with self.cx.at(f"axes={axes} idx={idx}", measure):
            got = self.run(what, fn)
            if got is not None:
                self.artist(what, got[2], values, space, axes, at, measure)
        self.cx.state(self.cfg, what, axes, at, measure)

    def artist(self, what, artist, values, space, axes, at, measure):
        cs, raw = coordinates(self.cfg, axes, at, space), part(values, axes, at)
        if len(axes) == 1:
            line_is(self.cx, what, artist, cs[0], raw, measure, closed=True)
        else:
            mesh_is(self.cx, what, artist, cs, raw, measure)

    def points(self, what, fn, xs, raw, measure, **kw):
        got = self.run(what, fn)
        if got is not None:
            line_is(self.cx, what, got[2], xs, raw, measure, ordered=False, **kw)


def paths(shape):
    """Every path of one or two corners of the grid, those of three from the last, and one straight through each axis."""
    corner = list(itertools.product(*(sorted({0, n - 1}) for n in shape)))
    yield from itertools.product(corner, repeat=1)
    yield from itertools.product(corner, repeat=2)
    yield from ((corner[-1], *p) for p in itertools.product(corner, repeat=2))
    for a, n in enumerate(shape):
        yield tuple(tuple(i if b == a else 0 for b in range(len(shape))) for i in range(n))


def measured_paths(shape):
    for i, path in enumerate(paths(shape)):
        for measure in MEASURES if len(path) == 1 else MEASURES[i % 4 : i % 4 + 1]:
            yield path, measure


def path_length(cfg, path, space, *, wrap=False):
    dx = dx_of(cfg)
    v = dx / np.array(cfg["shape"])[:, None] if space == "x" else ref.reciprocal(dx)
    p = np.array(path)
    step = p[1:] - p[:-1]
    if wrap:
        n = np.array(cfg["shape"])
        step = step - n * np.floor(step / n + 0.5).astype(int)
    d = step @ v
    return np.concatenate([[0.0], np.cumsum(np.sqrt((d**2).sum(axis=1)))])


def wraps_one_way(cfg, path):
    """No step of the path leads exactly half way around the grid."""
    p, n = np.array(path), np.array(cfg["shape"])
    return not np.any(2 * np.mod(p[1:] - p[:-1], n) == n) or len(n) == 1


def on_path(values, path):
    return np.array([values[tuple(i % n for i, n in zip(p, values.shape))] for p in path])


@PROP.family("potentials", obj_roots)
def potentials(cfg, cx: Cx) -> None:
    from surface_potential_analysis.potential import plot as pp

    spec = spec_of(cfg)
    basis = ref.build(spec)
    show = Show(cx, cfg)
    shape, dim = cfg["shape"], cfg["dim"]
    if cfg["kind"] == "x":
        values = rdata(tuple(shape), "potential", shape)
        raw = values.reshape(-1).astype(complex)
    else:
        raw = cdata(ref.n_of(spec), "potential", shape)
        values = in_space(raw, spec, cfg, "x")
    potential = {"basis": basis, "data": raw.copy()}
    for axes, idx in some_cuts(cfg, 1):
        show.cut("potential 1d", lambda ax: pp.plot_potential_1d_x(potential, axes, idx, ax=ax), values, "x", axes, idx, "real")
    points = {f"p{i}": (tuple(shape[b] - 1 - (i if shape[b] > i else 0) for b in range(dim) if b != a), a) for i in (0, 1) for a in range(dim)}
    got = show.run("comparison", lambda ax: pp.plot_potential_1d_comparison(potential, points, ax=ax))
    if got is not None and cx.same("comparison labels", [x.get_label() for x in got[2]], list(points)):
        for line, (idx, a) in zip(got[2], points.values()):
            show.artist("comparison", line, values, "x", (a,), idx, "real")
    for path, measure in measured_paths(shape):
        p = np.array(path).T
        show.points("potential along path", lambda ax: pp.plot_potential_along_path(potential, p, ax=ax, measure=measure),
                    path_length(cfg, path, "x"), on_path(values, path), measure)
        if wraps_one_way(cfg, path):
            show.points("potential along path, wrapped", lambda ax: pp.plot_potential_along_path(
                potential, p, ax=ax, measure=measure, wrap_distances=True), path_length(cfg, path, "x", wrap=True), on_path(values, path), measure)
        if cfg["kind"] != "x" or any(a == b for a, b in zip(path, path[1:])):
            continue
        shifted = p + np.array(shape)[:, None]
        show.points("potential along wrapped path", lambda ax: pp.plot_potential_along_path(potential, shifted, ax=ax),
                    path_length(cfg, path, "x"), on_path(values, path), "real")
    if dim > 1:
        for a in (*range(dim), *range(-dim, 0)):
            rest = [n for b, n in enumerate(shape) if b != a % dim]
            for path in paths(rest):
                p = np.array(path).T
                real = values.real
                low = np.moveaxis(real, a, -1)
                full = []
                for q in path:
                    col = low[tuple(q)]
                    at = list(q)
                    at.insert(a % dim, int(np.argmin(col)))
                    full.append(tuple(at))
                with cx.at(f"axis={a}", str(path)):
                    cx.step("minimum path", lambda: np.asarray(pp.get_minimum_path(potential, p, a)), np.array(full).T)
                    show.points("potential minimum", lambda ax: pp.plot_potential_minimum_along_path(potential, p, a, ax=ax),
                                path_length(cfg, full, "x"), on_path(real, full), "real")
    if dim >= 2:
        other = {"basis": ref.build(spec_of(cfg, "x")), "data": rdata(int(np.prod(shape)), "other", shape).astype(complex)}
        both = values - other["data"].reshape(shape)
        full0 = {"basis": ref.build(spec_of(cfg, "x")), "data": values.reshape(-1).astype(complex)}
        for axes, idx in some_cuts(cfg, 2):
            show.cut("potential 2d", lambda ax: pp.plot_potential_2d_x(potential, axes, idx, ax=ax), values, "x", axes, idx, "real")
            show.cut("potential difference", lambda ax: pp.plot_potential_difference_2d_x(full0, other, axes, idx, ax=ax), both, "x", axes, idx, "real")
    if dim == 3:
        for axes in itertools.permutations(range(3)):
            for measure in ("real", "abs"):
                ax = show.canvas.new()
                with cx.at(f"axes={axes}", measure):
                    ok, got = cx.run("potential surface", lambda: pp.animate_potential_3d_x(potential, axes, ax=ax, measure=measure))
                    if ok:
                        surface_is(cx, cfg, got, values, axes, measure, (None, None))
            ax = show.canvas.new()
            ok, got = cx.run("difference surface", lambda: pp.animate_potential_difference_3d_x(full0, other, axes, ax=ax))
            if ok:
                surface_is(cx, cfg, got, np.abs(both / values), axes, "real", (None, None))
    if dim == 3:
        sites_111 = {"Top Site": (2, 3), "Bridge Site": (1, 6), "FCC Site": (0, 1), "HCP Site": (1, 3)}
        for offset in [(0, 0), *((i, j) for i in range(shape[0]) for j in range(shape[1]))]:
            for name, fn, sites in (
                ("111", pp.plot_potential_1d_x2_comparison_111,
                 {k: tuple(((a * n) // b + o) % n for n, o in zip(shape, offset)) for k, (a, b) in sites_111.items()}),
                ("100", pp.plot_potential_1d_x2_comparison_100,
                 {"Hollow Site": tuple(offset), "Bridge Site": ((shape[0] // 2 + offset[0]) % shape[0], offset[1]),
                  "Top Site": tuple((n // 2 + o) % n for n, o in zip(shape, offset))}),
            ):
                if cfg["kind"] != "x":
                    continue
                with cx.at(name, f"offset={offset}"):
                    got = show.run("sites", lambda ax: fn(potential, offset, ax=ax))
                    if got is not None and cx.same("site labels", [x.get_label() for x in got[2]], list(sites)):
                        for line, idx in zip(got[2], sites.values()):
                            show.artist("sites", line, values, "x", (2,), idx, "real")
    show.canvas.close()


@PROP.family("states", obj_roots)
def states(cfg, cx: Cx) -> None:
    from surface_potential_analysis.probability_vector import plot as vp
    from surface_potential_analysis.state_vector import plot as sp
    from surface_potential_analysis.state_vector import state_vector_list_plot as lp

    spec = spec_of(cfg)
    basis = ref.build(spec)
    show = Show(cx, cfg)
    n, dim, shape = ref.n_of(spec), cfg["dim"], cfg["shape"]
    data = cdata((3, n), "states", shape)
    state = {"basis": basis, "data": data[0].copy()}
    other = {"basis": ref.build(spec_of(cfg, "x")), "data": cdata(int(np.prod(shape)), "other state", shape)}
    listed = {"basis": TupleBasis(FundamentalBasis(3), basis), "data": data.reshape(-1).copy()}
    val = {s: in_space(data, spec, cfg, s) for s in "xk"}
    otr = {"x": other["data"].reshape(shape), "k": in_space(other["data"], spec_of(cfg, "x"), cfg, "k")}
    relative = {s: (val[s][0] - otr[s]) / np.maximum(np.abs(val[s][0]), np.abs(otr[s])) for s in "xk"}
    ones = [("state 1d", "x", sp.plot_state_1d_x), ("state 1d", "k", sp.plot_state_1d_k),
            ("probability 1d", "x", vp.plot_probability_1d_x), ("probability 1d", "k", vp.plot_probability_1d_k)]
    twos = [("state 2d", "x", sp.plot_state_2d_x), ("state 2d", "k", sp.plot_state_2d_k),
            ("probability 2d", "x", vp.plot_probability_2d_x), ("probability 2d", "k", vp.plot_probability_2d_k)]
    for r, fns in ((1, ones), (2, twos)):
        if dim < r:
            continue
        for axes, idx in some_cuts(cfg, r):
            for measure in some_measures(idx, axes):
                for name, space, fn in fns:
                    show.cut(f"{name} {space}", lambda ax: fn(state, axes, idx, ax=ax, measure=measure), val[space][0], space, axes, idx, measure)
    for axes, idx in some_cuts(cfg, 1):
        show.cut("difference 1d k", lambda ax: sp.plot_state_difference_1d_k(state, other, axes, idx, ax=ax), relative["k"], "k", axes, idx, "abs")
        for name, space, fn in (("all states", "x", lp.plot_states_1d_x), ("all states", "k", lp.plot_states_1d_k)):
            ax = show.canvas.new()
            ok, got = cx.run(name, lambda: fn(listed, axes, idx, ax=ax, measure="real"))
            if ok and cx.same(name + " number", len(ax.get_lines()), 3):
                for line, v in zip(ax.get_lines(), val[space]):
                    at = default_idx(v, axes) if idx is None else idx
                    if at is not None:
                        show.artist(f"{name} {space}", line, v, space, axes, at, "real")
    if dim >= 2:
        for axes, idx in some_cuts(cfg, 2):
            show.cut("difference 2d x", lambda ax: sp.plot_state_difference_2d_x(state, other, axes, idx, ax=ax), relative["x"], "x", axes, idx, "abs")
            show.cut("difference 2d k", lambda ax: sp.plot_state_difference_2d_k(state, other, axes, idx, ax=ax), relative["k"], "k", axes, idx, "abs")
    for r, space, fn in ((1, "x", sp.animate_state_over_list_1d_x), (1, "k", sp.animate_state_over_list_1d_k),
                         (2, "x", sp.animate_state_over_list_2d_x), (2, "k", sp.animate_state_over_list_2d_k)):
        if r > dim:
            continue
        for axes, idx in some_cuts(cfg, r):
            ax = show.canvas.new()
            with cx.at(f"axes={axes} idx={idx}"):
                ok, got = cx.run(f"animate list {r}d {space}", lambda: fn(listed, axes, idx, ax=ax, measure="imag"))
                fr = frames_of(got[2]) if ok else []
                if ok and cx.same("frames", [len(f) for f in fr], [1, 1, 1]):
                    for v, (artist,) in zip(val[space], fr):
                        at = default_idx(v, axes) if idx is None else idx
                        if at is not None:
                            show.artist(f"frames {r}d {space}", artist, v, space, axes, at, "imag")
    for path, measure in measured_paths(shape):
        p = np.array(path).T
        show.points("state along path", lambda ax: sp.plot_state_along_path(state, p, ax=ax, measure=measure),
                    path_length(cfg, path, "x"), on_path(val["x"][0], path), measure)
        if wraps_one_way(cfg, path):
            show.points("state along path, wrapped", lambda ax: sp.plot_state_along_path(state, p, ax=ax, measure=measure, wrap_distances=True),
                        path_length(cfg, path, "x", wrap=True), on_path(val["x"][0], path), measure)
    if dim == 3:
        for axes in itertools.permutations(range(3)):
            for measure in ("real", "abs"):
                ax = show.canvas.new()
                with cx.at(f"axes={axes}", measure):
                    ok, got = cx.run("state surface", lambda: sp.animate_state_3d_x(state, axes, ax=ax, measure=measure))
                    if ok:
                        surface_is(cx, cfg, got, val["x"][0], axes, measure, (None, None))
    show.canvas.close()


@PROP.family("overlaps", lambda tier: (c for c in obj_roots(tier) if c["kind"] in "xt"))
def overlaps(cfg, cx: Cx) -> None:
    from surface_potential_analysis.overlap import plot as op

    spec = spec_of(cfg)
    basis = ref.build(spec)
    show = Show(cx, cfg)
    n, dim, shape = ref.n_of(spec), cfg["dim"], cfg["shape"]
    data = cdata(n, "overlap", shape)
    overlap = {"basis": TupleBasis(basis, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": data.copy()}
    val = {s: in_space(data, spec, cfg, s) for s in "xk"}
    if dim >= 2:
        for axes, idx in some_cuts(cfg, 2):
            for measure in some_measures(idx, axes):
                show.cut("overlap x", lambda ax: op.plot_overlap_2d_x(overlap, axes, idx, ax=ax, measure=measure), val["x"], "x", axes, idx, measure)
                show.cut("overlap k", lambda ax: op.plot_overlap_2d_k(overlap, axes, idx, ax=ax, measure=measure), val["k"], "k", axes, idx, measure)
    for path, measure in measured_paths(shape):
        p = np.array(path).T
        show.points("overlap along path", lambda ax: op.plot_overlap_along_path_k(overlap, p, ax=ax, measure=measure),
                    path_length(cfg, path, "k"), on_path(val["k"], path), measure)
        if wraps_one_way(cfg, path):
            show.points("overlap along path, wrapped", lambda ax: op.plot_overlap_along_path_k(overlap, p, ax=ax, measure=measure, wrap_distances=True),
                        path_length(cfg, path, "k", wrap=True), on_path(val["k"], path), measure)
    if dim == 3:
        for k2 in range(shape[2]):
            for measure in ("abs", "imag"):
                if shape[0] <= shape[1]:
                    path = [(i, i, k2) for i in range(shape[0])]
                    show.points("overlap along the diagonal", lambda ax: op.plot_overlap_along_k_diagonal(overlap, k2, ax=ax, measure=measure),
                                path_length(cfg, path, "k"), on_path(val["k"], path), measure)
                for k1 in range(shape[1]):
                    path = [(i, k1, k2) for i in range(shape[0])]
                    show.points("overlap along k0", lambda ax: op.plot_overlap_along_k0(overlap, k1, k2, ax=ax, measure=measure),
                                path_length(cfg, path, "k"), on_path(val["k"], path), measure)
    show.canvas.close()


# -- the squared scale ----------------------------------------------------------------------------


def squared_roots(tier):
    ends = (0.0, 0.5, 1.0, 3.0, 1e-9, 2e7)
    for lo, hi in itertools.product(ends, repeat=2):
        if lo < hi:
            yield {"lo": lo, "hi": hi}


@PROP.family("squared scale", squared_roots)
def squared(cfg, cx: Cx) -> None:
    """Heights are drawn in proportion to their squares, ticks are evenly spaced, and places are read back."""
    from surface_potential_analysis.util.squared_scale import SquaredScale

    lo, hi = cfg["lo"], cfg["hi"]
    y = np.linspace(lo, hi, 9)
    for axis in "xy":
        plt.close("all")
        fig, ax = plt.subplots()
        with cx.at(axis):
            ok, _ = cx.run("set", lambda: (ax.set_yscale if axis == "y" else ax.set_xscale)(SquaredScale(axis=None)))
            if not ok:
                continue
            (ax.set_ylim if axis == "y" else ax.set_xlim)(lo, hi)
            i = "xy".index(axis)
            pts = np.full((9, 2), 0.5)
            pts[:, i] = y
            ok, px = cx.run("places", lambda: ax.transData.transform(pts))
            if ok:
                along = (px[:, i] - px[0, i]) / (px[-1, i] - px[0, i])
                cx.same("places", along, (y**2 - lo**2) / (hi**2 - lo**2))
                ok, back = cx.run("read back", lambda: ax.transData.inverted().transform(px))
                if ok:
                    cx.same("read back", back / [1 if i else hi, hi if i else 1], pts / [1 if i else hi, hi if i else 1], 1e-6)
            tr = SquaredScale(axis=None).get_transform()
            cx.step("there and back", lambda: np.asarray(tr.inverted().transform(tr.transform(y[:, None])))[:, 0] / hi, y / hi)
            cx.step("back and there", lambda: np.asarray(tr.inverted().inverted().transform(y[:, None]))[:, 0] / hi**2, (y / hi) ** 2)
            which = ax.yaxis if axis == "y" else ax.xaxis
            ok, ticks = cx.run("ticks", lambda: np.asarray(which.get_majorticklocs(), dtype=float))
            if ok and cx.holds("number of ticks", len(ticks) > 2, str(ticks)):
                steps = np.diff(ticks**2) / hi**2
                cx.same("even ticks", steps, np.full(len(steps), steps.mean()))
                cx.same("range of ticks", [ticks[0] / hi, ticks[-1] / hi], [lo / hi, 1.0])
            cx.step("draw", lambda: fig.canvas.draw(), None)
        cx.state(cfg, axis)
    plt.close("all")
    cx.trace()
