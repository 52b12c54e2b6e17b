"""C04: resampling a periodic function in Fourier space keeps the function."""

from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from surface_potential_analysis.util import interpolation as ip

PROP = Property(
    "C04",
    rule="Every pair (and every chain) of grid lengths, every subset and order of axes and every "
    "Fourier mode is explored; arrays are decided on the spanning set of unit modes plus a generic array.",
    assumptions=[
        "for real interpolation the mode at half the sampling rate is left unspecified "
        "(its phase is not determined by the samples)"
    ],
)


def flat(x):
    return np.asarray(x).reshape(-1)


def pad_model(arr: np.ndarray, s, axes) -> np.ndarray:
    out = arr
    for n_new, ax in zip(s, axes):
        old, new = ref.freqs(out.shape[ax]), ref.freqs(n_new)
        t = (old[:, None] == new[None, :]).astype(float)
        out = np.moveaxis(np.tensordot(out, t, axes=([ax], [0])), -1, ax % arr.ndim)
    return out


def roots_pad(tier: str):
    top = 9 if tier == "quick" else 16
    for n in range(1, top + 1):
        yield {"n": n, "top": top}


@PROP.family("padding chains", roots_pad)
def padding_chains(cfg, cx: Cx) -> None:
    """Breadth-first search over chains of target lengths.

    A state is (length, frequencies that survived); labels stay attached to their
    frequency along the whole chain.
    """
    n, top = cfg["n"], cfg["top"]
    labels = {int(f): complex(f + 1, 2 * f - 1) for f in ref.freqs(n)}
    start = np.array([labels[int(f)] for f in ref.freqs(n)])
    frontier = [(n, frozenset(labels), start, (n,))]
    seen = {(n, frozenset(labels))}
    cx.state(n, sorted(labels))
    while frontier:
        nxt = []
        for m, alive, arr, path in frontier:
            for s in range(1, top + 3):
                alive2 = alive & {int(f) for f in ref.freqs(s)}
                want = np.array([labels[int(f)] if int(f) in alive2 else 0 for f in ref.freqs(s)])
                with cx.at(*path, s):
                    got = cx.step("pad", lambda: ip.pad_ft_points(arr, (s,), (0,)), want)
                if (s, alive2) in seen or got is None:
                    cx.trace()
                    continue
                seen.add((s, alive2))
                cx.state(s, sorted(alive2))
                nxt.append((s, alive2, got, (*path, s)))
        frontier = nxt


def roots_nd(tier: str):
    shapes = [(3, 4), (4, 5), (2, 3, 4), (1, 3, 2)] if tier == "quick" else [
        (3, 4), (4, 5), (6, 3), (2, 3, 4), (1, 3, 2), (5, 4, 3), (2, 2, 3, 3)]
    for shape in shapes:
        yield {"shape": list(shape)}


def axis_choices(ndim: int):
    for r in range(1, ndim + 1):
        for axes in itertools.permutations(range(ndim), r):
            yield axes
            yield tuple(a - ndim for a in axes)
        if r == 2:
            yield (0, -1)


@PROP.family("padding arrays", roots_nd)
def padding_arrays(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    arr = cdata(shape, "pad")
    real = rdata(shape, "padr")
    ints = np.arange(np.prod(shape)).reshape(shape)
    for axes in axis_choices(len(shape)):
        for grow in itertools.product((-3, -1, 0, 1, 2), repeat=len(axes)):
            s = tuple(max(1, shape[a] + g) for a, g in zip(axes, grow))
            with cx.at(f"axes={axes}", f"s={s}"):
                want = pad_model(arr, s, axes)
                cx.step("pad", lambda: ip.pad_ft_points(arr, s, axes), want)
                got = cx.step("pad real", lambda: ip.pad_ft_points(real, s, axes), pad_model(real, s, axes))
                if got is not None:
                    cx.holds("dtype kept", got.dtype == real.dtype, f"{got.dtype}")
                cx.step("pad int", lambda: ip.pad_ft_points(ints, list(s), list(axes)), pad_model(ints, s, axes))
            cx.trace()


def fourier_matrix(n: int, s: int) -> np.ndarray:
    """samples on n points -> samples on s points, keeping frequencies both grids hold."""
    old, new = ref.freqs(n), ref.freqs(s)
    keep = [int(f) for f in old if f in new]
    x, y = np.arange(n), np.arange(s)
    out = np.zeros((n, s), dtype=complex)
    for f in keep:
        out += np.outer(np.exp(-2j * np.pi * f * x / n) / n, np.exp(2j * np.pi * f * y / s))
    return out


def interp_model(arr, s, axes):
    out = arr
    for n_new, ax in zip(s, axes):
        t = fourier_matrix(out.shape[ax], n_new)
        out = np.moveaxis(np.tensordot(out, t, axes=([ax], [0])), -1, ax % arr.ndim)
    return out


@PROP.family("complex interpolation", roots_nd)
def complex_interpolation(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    arr = cdata(shape, "fft")
    for axes in axis_choices(len(shape)):
        for grow in itertools.product((-1, 0, 1, 3), repeat=len(axes)):
            s = tuple(max(1, shape[a] + g) for a, g in zip(axes, grow))
            with cx.at(f"axes={axes}", f"s={s}"):
                cx.step("interpolate", lambda: ip.interpolate_points_fftn(arr, s, axes), interp_model(arr, s, axes))
            cx.trace()
    for r in range(1, len(shape) + 1):
        last = tuple(range(len(shape) - r, len(shape)))
        for grow in itertools.product((-1, 0, 1), repeat=r):
            s = tuple(max(1, shape[a] + g) for a, g in zip(last, grow))
            with cx.at("axes=None", f"s={s}"):
                cx.step("interpolate last axes", lambda: ip.interpolate_points_fftn(arr, s),
                        interp_model(arr, s, last))
            cx.trace()


def roots_line(tier: str):
    for n in range(1, 10 if tier == "quick" else 20):
        yield {"n": n, "top": 12 if tier == "quick" else 24}


@PROP.family("one axis", roots_line)
def one_axis(cfg, cx: Cx) -> None:
    """Every mode of the old grid, sampled onto every new grid; along every axis."""
    n = cfg["n"]
    x = np.arange(n)
    for s in range(1, cfg["top"] + 1):
        y = np.arange(s)
        eye = np.concatenate([np.eye(n), 1j * np.eye(n)])
        with cx.at(f"s={s}"):
            cx.step("complex", lambda: ip.interpolate_points_fftn(eye, (s,), (1,)), eye @ fourier_matrix(n, s))
            for f in range(0, n // 2 + 1):
                if 2 * f == n or 2 * f == s:
                    continue
                for phase in (0.0, 0.4, np.pi / 2):
                    old = np.cos(2 * np.pi * f * x / n + phase)
                    new = np.cos(2 * np.pi * f * y / s + phase) if 2 * f < s else np.zeros(s)
                    for axis, lift in ((0, old[:, None] * np.array([[1.0, -2.0]])),
                                       (1, np.array([[1.0], [-2.0]]) * old[None, :]),
                                       (-1, np.broadcast_to(old, (2, 2, n)) * 1.0),
                                       (-2, old[None, :, None] * np.array([1.0, 3.0])[None, None, :])):
                        want = np.moveaxis(np.moveaxis(lift, axis, -1)[..., :1] * 0 + 0, -1, axis)
                        scale = np.moveaxis(lift, axis, -1)
                        # lift = weight (x) old along axis; rebuild with the new line
                        w = scale[..., 0] / old[0] if abs(old[0]) > 1e-6 else (
                            scale @ old / (old @ old) if old @ old > 1e-12 else scale[..., 0] * 0)
                        want = np.moveaxis(w[..., None] * new, -1, axis)
                        cx.step("real line", lambda: ip.interpolate_points_rfft(lift, s, axis), want)
                    lift = np.array([[1.0], [-2.0]]) * old[None, :]
                    cx.step("real nd", lambda: ip.interpolate_points_rfftn(lift, (s,), (1,)),
                            np.array([[1.0], [-2.0]]) * new[None, :])
        cx.trace()


def roots_even(tier: str):
    for n in range(2, 12 if tier == "quick" else 24):
        yield {"n": n, "top": 14 if tier == "quick" else 26}


@PROP.family("mirror symmetry", roots_even)
def mirror(cfg, cx: Cx) -> None:
    """Interpolating a mirror-symmetric function keeps it exactly symmetric."""
    n = cfg["n"]
    half = rdata((n,), "even")
    for axis in (0, 1):
        arr = np.stack([half + np.roll(half[::-1], 1), np.cos(2 * np.pi * np.arange(n) / n)], axis=1 - axis)
        for s in range(2, cfg["top"]):
            with cx.at(f"axis={axis}", f"s={s}"):
                ok, got = cx.run("symmetric", lambda: ip.interpolate_points_rfft(arr, s, axis))
                if ok:
                    line = np.moveaxis(got, axis, -1)
                    cx.same("mirror", line, np.roll(line[:, ::-1], 1, axis=1), 1e-9)
                    cx.state(n, s, axis)
            cx.trace()


def roots_rfftn(tier: str):
    for shape in [(3, 3), (5, 3), (3, 5, 3)] if tier == "quick" else [(3, 3), (5, 3), (7, 5), (3, 5, 3), (5, 5, 5)]:
        yield {"shape": list(shape)}


@PROP.family("real interpolation", roots_rfftn)
def real_interpolation(cfg, cx: Cx) -> None:
    """Odd grids have no ambiguous mode: the whole space of real arrays is decided."""
    shape = tuple(cfg["shape"])
    arr = rdata(shape, "rfftn")
    for axes in axis_choices(len(shape)):
        for grow in itertools.product((-2, 0, 1, 2, 4), repeat=len(axes)):
            s = tuple(max(1, shape[a] + g) for a, g in zip(axes, grow))
            with cx.at(f"axes={axes}", f"s={s}"):
                got = cx.step("interpolate", lambda: ip.interpolate_points_rfftn(arr, s, axes),
                              interp_model(arr, s, axes).real)
                if got is not None:
                    cx.holds("real", got.dtype == np.float64, str(got.dtype))
            cx.trace()
    for r in range(1, len(shape) + 1):
        last = tuple(range(len(shape) - r, len(shape)))
        for grow in itertools.product((0, 2, 3), repeat=r):
            s = tuple(max(1, shape[a] + g) for a, g in zip(last, grow))
            with cx.at("axes=None", f"s={s}"):
                cx.step("interpolate last axes", lambda: ip.interpolate_points_rfftn(arr, s),
                        interp_model(arr, s, last).real)
            cx.trace()


def roots_half(tier: str):
    for n in range(1, 10):
        yield {"n": n}


@PROP.family("half spectra", roots_half)
def half_spectra(cfg, cx: Cx) -> None:
    """Padding a half spectrum keeps every non-negative frequency in place."""
    n = cfg["n"]
    for ndim in (1, 2, 3):
        for axis in range(-ndim, ndim):
            shape = [2, 3, 4][:ndim]
            shape[axis] = n // 2 + 1
            arr = cdata(tuple(shape), "half")
            for s in range(1, 13):
                m = s // 2 + 1
                t = np.eye(n // 2 + 1, m)
                want = np.moveaxis(np.tensordot(arr, t, axes=([axis], [0])), -1, axis % ndim)
                with cx.at(f"axis={axis}", f"s={s}"):
                    cx.step("half", lambda: ip.pad_ft_points_real_axis(arr, s, axis), want)
                cx.trace()


def roots_spline(tier: str):
    for shape in [(5,), (5, 2), (2, 5), (5, 2, 3), (2, 5, 3), (2, 3, 5), (6, 1, 2), (2, 2, 5, 2)]:
        yield {"shape": list(shape)}


@PROP.family("splines", roots_spline)
def splines(cfg, cx: Cx) -> None:
    """Spline interpolation reproduces cubics exactly, along any axis, line by line."""
    shape = tuple(cfg["shape"])
    for axis in range(-len(shape), len(shape)):
        m = shape[axis]
        if m < 4:
            continue
        for name, coords in (("even", np.linspace(-1, 2, m)), ("uneven", np.cumsum(1.0 + 0.3 * np.sin(np.arange(m))) - 3)):
            for n in (2, 3, m, 2 * m - 1, 17):
                new = np.linspace(coords[0], coords[-1], n)
                lead = tuple(np.delete(shape, axis % len(shape)))
                c = rdata((4, *lead), "cubic")
                old_v = sum(np.multiply.outer(c[p], coords**p) for p in range(4))
                new_v = sum(np.multiply.outer(c[p], new**p) for p in range(4))
                with cx.at(f"axis={axis}", name, f"n={n}"):
                    cx.step("spline cubic", lambda: ip.interpolate_points_along_axis_spline(
                        np.moveaxis(old_v, -1, axis), coords, n, axis), np.moveaxis(new_v, -1, axis))
                    if n == m and name == "even":
                        anyv = np.moveaxis(rdata((*lead, m), "any"), -1, axis)
                        cx.step("spline nodes", lambda: ip.interpolate_points_along_axis_spline(
                            anyv, coords, n, axis), anyv)
                    if n == 2 * m - 1 and name == "even":
                        anyv = rdata((*lead, m), "any")
                        ok, got = cx.run("spline dense", lambda: ip.interpolate_points_along_axis_spline(
                            np.moveaxis(anyv, -1, axis), coords, n, axis))
                        if ok:
                            cx.same("spline passes through data", np.moveaxis(got, axis, -1)[..., ::2], anyv)
                cx.trace()
