"""C05: grid indices of every kind are one-to-one and equivalent modulo the grid."""

from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from surface_potential_analysis.basis.util import BasisUtil, get_twice_average_nx
from surface_potential_analysis.stacked_basis.util import (
    get_max_idx,
    get_x01_mirrored_index,
    wrap_index_around_origin,
)
from surface_potential_analysis.util.util import (
    get_data_in_axes,
    get_measured_data,
    get_position_in_sorted,
    slice_along_axis,
    slice_ignoring_axes,
)

PROP = Property(
    "C05",
    rule="Every grid shape up to the bound, every index in and around the grid, every origin, every "
    "subset and order of axes; chains of wraps are explored to closure.",
)


def shapes(top1: int, top2: int, top3: int):
    for n in range(1, top1 + 1):
        yield (n,)
    yield from itertools.product(range(1, top2 + 1), repeat=2)
    yield from itertools.product(range(1, top3 + 1), repeat=3)


def roots(tier: str):
    for s in shapes(9, 5, 4) if tier == "quick" else shapes(20, 9, 6):
        yield {"shape": list(s)}


def basis_of(shape, kinds=None):
    spec = ["S", [["F", n] if kinds is None else kinds(n) for n in shape]]
    return spec, ref.build(spec)


def rowmajor(idx, shape):
    out = 0
    for i, n in zip(idx, shape):
        out = out * n + i
    return out


def tint(x):
    return [int(i) for i in x]


@PROP.family("flat and stacked", roots)
def flat_stacked(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    spec, basis = basis_of(shape)
    util = BasisUtil(basis)
    every = list(itertools.product(*(range(n) for n in shape)))
    cx.step("shape", lambda: [tint(util.shape), util.ndim, int(util.n)],
            [list(shape), len(shape), len(every)])
    for flat, idx in enumerate(every):
        cx.step("flat index", lambda: int(util.get_flat_index(idx)), flat)
        cx.step("stacked index", lambda: tint(util.get_stacked_index(flat)), list(idx))
        cx.state(shape, idx)
        for ax in range(len(shape)):
            for off in (-shape[ax] - 1, -shape[ax], -1, shape[ax], 2 * shape[ax] + 1):
                out = list(idx)
                out[ax] += off
                wrapped = [o % n for o, n in zip(out, shape)]
                clipped = [min(max(o, 0), n - 1) for o, n in zip(out, shape)]
                cx.step("flat wrap", lambda: int(util.get_flat_index(tuple(out), mode="wrap")),
                        rowmajor(wrapped, shape))
                cx.step("flat clip", lambda: int(util.get_flat_index(tuple(out), mode="clip")),
                        rowmajor(clipped, shape))
        cx.trace()
    arr = np.arange(len(every)).reshape(shape)
    cols = tuple(np.array(c) for c in zip(*every))
    cx.step("flat array", lambda: util.get_flat_index(cols), np.arange(len(every)))
    cx.step("stacked array", lambda: [c.tolist() for c in util.get_stacked_index(arr.reshape(-1))],
            [c.tolist() for c in cols])
    cx.step("stacked nx", lambda: [c.tolist() for c in util.stacked_nx_points], [c.tolist() for c in cols])
    cx.step("fundamental nx", lambda: [c.tolist() for c in util.fundamental_stacked_nx_points],
            [c.tolist() for c in cols])
    kcols = [c.tolist() for c in (np.array([ref.freqs(n)[i] for i in c]) for n, c in zip(shape, cols))]
    cx.step("stacked nk", lambda: [c.tolist() for c in util.stacked_nk_points], kcols)
    cx.step("fundamental nk", lambda: [c.tolist() for c in util.fundamental_stacked_nk_points], kcols)


def roots_trunc(tier: str):
    for big in range(1, 8 if tier == "quick" else 14):
        yield {"N": big}


@PROP.family("points of an axis", roots_trunc)
def axis_points(cfg, cx: Cx) -> None:
    big = cfg["N"]
    dx = [1.5, -0.5]
    for n in range(1, big + 1):
        for spec in (["T", n, big], ["M", n, big], ["MP", dx, n, big], ["TP", dx, n, big]):
            util = BasisUtil(ref.build(spec))
            with cx.at(str(spec)):
                cx.step("nx", lambda: util.nx_points, np.arange(n))
                cx.step("nk", lambda: util.nk_points, ref.freqs(n))
                cx.step("fundamental nx", lambda: util.fundamental_nx_points, np.arange(big))
                cx.step("fundamental nk", lambda: util.fundamental_nk_points, ref.freqs(big))
                cx.step("vectors", lambda: util.vectors, ref.states(spec))
                if len(spec) == 4:
                    d = np.array(dx)
                    cx.step("dx", lambda: util.dx, d / n)
                    cx.step("fundamental dx", lambda: util.fundamental_dx, d / big)
                    cx.step("x points", lambda: util.x_points, d[:, None] * np.arange(n) / n)
                    cx.step("fundamental x points", lambda: util.fundamental_x_points,
                            d[:, None] * np.arange(big) / big)
            cx.trace()
        # products with different numbers of states and fundamental points
        for m in range(1, 4):
            spec = ["S", [["M", n, big], ["T", m, m + 1]]]
            util = BasisUtil(ref.build(spec))
            with cx.at(str(spec)):
                grid = list(itertools.product(ref.freqs(n).tolist(), ref.freqs(m).tolist()))
                fgrid = list(itertools.product(ref.freqs(big).tolist(), ref.freqs(m + 1).tolist()))
                xgrid = list(itertools.product(range(big), range(m + 1)))
                cx.step("stacked nk", lambda: [c.tolist() for c in util.stacked_nk_points],
                        [list(c) for c in zip(*grid)])
                cx.step("fundamental stacked nk", lambda: [c.tolist() for c in util.fundamental_stacked_nk_points],
                        [list(c) for c in zip(*fgrid)])
                cx.step("fundamental stacked nx", lambda: [c.tolist() for c in util.fundamental_stacked_nx_points],
                        [list(c) for c in zip(*xgrid)])
            cx.trace()


def wrap1(i: int, n: int, o: int) -> int:
    """The member of i's class whose offset from o is one of the n closest to zero."""
    return o + int(ref.freqs(n)[(i - o) % n])


def roots_wrap(tier: str):
    for s in shapes(8, 4, 3) if tier == "quick" else shapes(12, 6, 4):
        yield {"shape": list(s)}


@PROP.family("wrapping", roots_wrap)
def wrapping(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    spec, basis = basis_of(shape)
    every = list(itertools.product(*(range(n) for n in shape)))
    grid = list(itertools.product(*(range(-2 * n, 2 * n + 1, 1 if len(shape) == 1 else 1 + n // 2) for n in shape)))
    cols = tuple(np.array(c) for c in zip(*grid))
    axes_sets = [None] + [s for r in range(len(shape) + 1) for s in itertools.combinations(range(len(shape)), r)]
    for flat, o in [(None, tuple(0 for _ in shape))] + list(enumerate(every)):
        for axes in axes_sets:
            want = [[wrap1(i[ax], shape[ax], o[ax]) if axes is None or ax in axes else i[ax] for i in grid]
                    for ax in range(len(shape))]
            with cx.at(f"origin={o}", f"axes={axes}"):
                kw = {} if flat is None else {"origin": o}
                cx.step("wrap array", lambda: [np.asarray(c).tolist() for c in wrap_index_around_origin(
                    basis, cols, axes=axes, **kw)], want)
                if flat is not None:
                    cx.step("wrap flat origin", lambda: [np.asarray(c).tolist() for c in wrap_index_around_origin(
                        basis, cols, axes=axes, origin=flat)], want)
                if axes is None:
                    for j in range(0, len(grid), max(1, len(grid) // 9)):
                        cx.step("wrap one", lambda: tint(wrap_index_around_origin(basis, grid[j], **kw)),
                                [w[j] for w in want])
            cx.trace()


def roots_chain(tier: str):
    for s in [(2,), (3,), (4,), (5,), (2, 3), (3, 4), (2, 2, 3)]:
        yield {"shape": list(s)}


@PROP.family("wrap chains", roots_chain)
def wrap_chains(cfg, cx: Cx) -> None:
    """Closure of wrapping around every origin: never leaves the class, window is exact."""
    shape = tuple(cfg["shape"])
    _, basis = basis_of(shape)
    origins = list(itertools.product(*(range(-n, 2 * n) for n in shape)))
    if len(shape) > 1:
        origins = origins[:: max(1, len(origins) // 60)]
    start = tuple(0 for _ in shape)
    frontier, seen = [start], {start}
    while frontier:
        nxt = []
        for idx in frontier:
            for o in origins:
                want = tuple(wrap1(i, n, p) for i, n, p in zip(idx, shape, o))
                with cx.at(str(idx), str(o)):
                    cx.step("wrap", lambda: tint(wrap_index_around_origin(basis, idx, origin=o)), list(want))
                if want not in seen:
                    seen.add(want)
                    cx.state(shape, want)
                    nxt.append(want)
                cx.trace()
        frontier = nxt


def roots_data(tier: str):
    for s in [(3,), (2, 3), (3, 1), (2, 3, 4), (1, 2, 3), (2, 2, 3, 3)]:
        yield {"shape": list(s)}


@PROP.family("cuts through data", roots_data)
def cuts(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    nd = len(shape)
    data = cdata(shape, "cut")
    _, basis = basis_of(shape)
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            others = [a for a in range(nd) if a not in axes]
            order = sorted(axes)
            cx.step("order", lambda: tint(get_position_in_sorted(axes)), [order.index(a) for a in axes])
            for idx in itertools.product(*(range(shape[a]) for a in others)):
                full: list = [None] * nd
                for a, i in zip(others, idx):
                    full[a] = i
                with cx.at(f"axes={axes}", f"idx={idx}"):
                    sl = tuple(slice(None) if f is None else f for f in full)
                    cx.step("slice", lambda: slice_ignoring_axes(idx, axes) == sl, True)
                    want = np.empty(tuple(shape[a] for a in axes), dtype=complex)
                    for pos in itertools.product(*(range(shape[a]) for a in axes)):
                        at = list(full)
                        for a, p in zip(axes, pos):
                            at[a] = p
                        want[pos] = data[tuple(at)]
                    cx.step("cut", lambda: get_data_in_axes(data, axes, idx), want)
                cx.trace()
            peak = np.unravel_index(np.argmax(np.abs(data)), shape)
            cx.step("peak", lambda: tint(get_max_idx(basis, data.reshape(-1), axes)), [int(peak[a]) for a in others])
    for axis in range(-nd, nd):
        for k in range(shape[axis]):
            cx.step("along axis", lambda: data[slice_along_axis(k, axis)], np.take(data, k, axis=axis))
        for sl in (slice(1, None), slice(None, None, 2), slice(None, None, -1)):
            want = np.moveaxis(np.moveaxis(data, axis, 0)[sl], 0, axis)
            cx.step("slice along axis", lambda: data[slice_along_axis(sl, axis)], want)
    for m, fn in (("real", lambda z: z.real), ("imag", lambda z: z.imag), ("abs", lambda z: np.sqrt(z.real**2 + z.imag**2))):
        cx.step("measure " + m, lambda: get_measured_data(data, m), fn(data))
    ok, ang = cx.run("measure angle", lambda: get_measured_data(data, "angle"))
    if ok:
        cx.same("angle", np.abs(data) * np.exp(1j * ang), data)
    if nd >= 2:
        for idx in itertools.product(*(range(n) for n in shape)):
            want = [idx[1], idx[0], *idx[2:]]
            cx.step("mirror", lambda: tint(get_x01_mirrored_index(idx)), want)
            cx.step("mirror twice", lambda: tint(get_x01_mirrored_index(get_x01_mirrored_index(idx))), list(idx))


def twice_average(i: int, j: int, n: int) -> int:
    d = abs(i - j)
    return (i + j) % (2 * n) if 2 * d <= n else (i + j + n) % (2 * n)


def roots_avg(tier: str):
    for s in shapes(9, 4, 2) if tier == "quick" else shapes(16, 6, 3):
        yield {"shape": list(s)}


@PROP.family("periodic midpoints", roots_avg)
def midpoints(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    _, basis = basis_of(shape)
    every = list(itertools.product(*(range(n) for n in shape)))
    want = [np.array([[twice_average(a[ax], b[ax], n) for b in every] for a in every]) for ax, n in enumerate(shape)]
    ok, got = cx.run("midpoint", lambda: get_twice_average_nx(basis))
    if ok:
        for ax in range(len(shape)):
            cx.same(f"axis {ax}", np.asarray(got[ax]), want[ax])
            cx.state(shape, ax, want[ax])
    cx.trace()
