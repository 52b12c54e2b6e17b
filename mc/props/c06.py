"""C06: positions, reciprocal vectors, distances and projections agree with the lattice."""

from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc.core import Cx, Property, rdata
from surface_potential_analysis.basis.basis import FundamentalPositionBasis, FundamentalTransformedPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.stacked_basis import build as sb
from surface_potential_analysis.stacked_basis import util as su
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_with_shape,
)
from surface_potential_analysis.util.util import calculate_cumulative_distances_along_path

PROP = Property(
    "C06",
    rule="Every lattice of a fixed family (orthogonal, oblique, left-handed, negative), every grid "
    "shape up to the bound, every grid point, every axis subset and order, every path up to the "
    "length bound.",
)


def lattices(tier: str):
    for dim, lats in ref.LATTICES.items():
        for name, dx in lats.items():
            yield dim, name, dx


def shapes(dim: int, tier: str):
    if dim == 1:
        return [(n,) for n in range(1, 7 if tier == "quick" else 12)]
    if dim == 2:
        return list(itertools.product((1, 2, 3, 4), repeat=2)) if tier == "quick" else list(
            itertools.product(range(1, 7), repeat=2))
    return [(2, 3, 4), (3, 2, 1), (3, 3, 3)] if tier == "quick" else list(itertools.product((1, 2, 3, 4), repeat=3))


def roots(tier: str):
    for dim, name, dx in lattices(tier):
        for shape in shapes(dim, tier):
            yield {"dim": dim, "lat": name, "shape": list(shape)}


def lattice(cfg) -> np.ndarray:
    return np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]], dtype=float)


def make(dx, shape, kind="FP", extra=0):
    return ["S", [
        [kind, d.tolist(), n] if kind in ("FP", "FMP") else [kind, d.tolist(), n, n + extra]
        for d, n in zip(np.asarray(dx), shape)
    ]]


@PROP.family("points", roots)
def points(cfg, cx: Cx) -> None:
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    nd = len(shape)
    dk = ref.reciprocal(dx)
    for kind, extra in (("FP", 0), ("FMP", 0), ("TP", 2), ("MP", 1)):
        spec = make(dx, shape, kind, extra)
        big = ref.fund_shape(spec)
        util = BasisUtil(ref.build(spec))
        with cx.at(kind):
            cx.step("lattice vectors", lambda: util.delta_x_stacked, dx)
            cx.step("fundamental lattice vectors", lambda: util.fundamental_delta_x_stacked, dx)
            cx.step("dk", lambda: util.dk_stacked, dk)
            cx.step("fundamental dk", lambda: util.fundamental_dk_stacked, dk)
            cx.step("dual relation", lambda: np.asarray(util.delta_x_stacked) @ np.asarray(util.dk_stacked).T,
                    2 * np.pi * np.eye(nd))
            cx.step("dx", lambda: util.dx_stacked, dx / np.array(shape)[:, None])
            cx.step("fundamental dx", lambda: util.fundamental_dx_stacked, dx / np.array(big)[:, None])
            cx.step("delta k", lambda: util.delta_k_stacked, dk * np.array(shape)[:, None])
            cx.step("fundamental delta k", lambda: util.fundamental_delta_k_stacked, dk * np.array(big)[:, None])
            cx.step("volume", lambda: abs(util.volume), ref.volume(dx))
            cx.step("reciprocal volume", lambda: abs(util.reciprocal_volume), (2 * np.pi) ** nd / ref.volume(dx))
            nx = list(itertools.product(*(range(n) for n in shape)))
            fx = list(itertools.product(*(range(n) for n in big)))
            nk = list(itertools.product(*(ref.freqs(n).tolist() for n in shape)))
            fk = list(itertools.product(*(ref.freqs(n).tolist() for n in big)))
            xs = np.array([sum(i * d / n for i, d, n in zip(p, dx, shape)) for p in nx]).T
            fxs = np.array([sum(i * d / n for i, d, n in zip(p, dx, big)) for p in fx]).T
            ks = np.array([sum(i * b for i, b in zip(p, dk)) for p in nk]).T
            fks = np.array([sum(i * b for i, b in zip(p, dk)) for p in fk]).T
            cx.step("x points", lambda: util.x_points_stacked, xs)
            cx.step("fundamental x points", lambda: util.fundamental_x_points_stacked, fxs)
            cx.step("k points", lambda: util.k_points, ks)
            cx.step("fundamental k points", lambda: util.fundamental_stacked_k_points, fks)
            for j, p in enumerate(nx):
                cx.step("x at index", lambda: util.get_x_points_at_index(p), xs[:, j])
                cx.step("x at flat index", lambda: util.get_x_points_at_index(j), xs[:, j])
                cx.step("k at index", lambda: util.get_k_points_at_index(nk[j]), ks[:, j])
                ok, k = cx.run("k at flat index", lambda: util.get_k_points_at_index(j))
                if ok:  # equivalent modulo the reciprocal of the grid
                    c = np.asarray(k) @ dx.T / (2 * np.pi) - np.array(nk[j])
                    cx.same("k at flat index", np.round(c / np.array(shape)) * np.array(shape), c)
                cx.state(cfg["lat"], shape, kind, p)
        cx.trace()


def gram_schmidt(vs: np.ndarray) -> np.ndarray:
    out: list[np.ndarray] = []
    for v in vs:
        w = v - sum((np.dot(o, v) * o for o in out), np.zeros_like(v))
        out.append(w / np.sqrt(np.dot(w, w)))
    return np.array(out)


@PROP.family("projections", roots)
def projections(cfg, cx: Cx) -> None:
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    nd = len(shape)
    spec = make(dx, shape)
    basis = ref.build(spec)
    dk = ref.reciprocal(dx)
    fx = list(itertools.product(*(range(n) for n in shape)))
    fk = list(itertools.product(*(ref.freqs(n).tolist() for n in shape)))
    xs = np.array([sum(i * d / n for i, d, n in zip(p, dx, shape)) for p in fx]).T
    ks = np.array([sum(i * b for i, b in zip(p, dk)) for p in fk]).T
    pts = rdata((nd, 4), "proj")
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            ex, ek = gram_schmidt(dx[list(axes)]), gram_schmidt(dk[list(axes)])
            with cx.at(f"axes={axes}"):
                cx.step("project x", lambda: su.project_x_points_along_axes(pts, basis, axes), ex @ pts)
                cx.step("project k", lambda: su.project_k_points_along_axes(pts, basis, axes), ek @ pts)
                cx.step("projected x", lambda: su.get_fundamental_stacked_x_points_projected_along_axes(basis, axes),
                        ex @ xs)
                cx.step("projected k", lambda: su.get_fundamental_stacked_k_points_projected_along_axes(basis, axes),
                        ek @ ks)
                others = [a for a in range(nd) if a not in axes]
                for idx in [None, *itertools.product(*(range(shape[a]) for a in others))]:
                    fixed = idx if idx is not None else tuple(0 for _ in others)
                    sel = np.empty([len(axes), *(shape[a] for a in axes)])
                    selk = np.empty_like(sel)
                    for pos in itertools.product(*(range(shape[a]) for a in axes)):
                        at = [0] * nd
                        for a, p in zip(axes, pos):
                            at[a] = p
                        for a, p in zip(others, fixed):
                            at[a] = p
                        j = fx.index(tuple(at))
                        sel[(slice(None), *pos)] = ex @ xs[:, j]
                        selk[(slice(None), *pos)] = ek @ ks[:, j]
                    with cx.at(f"idx={idx}"):
                        cx.step("x coordinates", lambda: su.get_x_coordinates_in_axes(basis, axes, idx), sel)
                        cx.step("k coordinates", lambda: su.get_k_coordinates_in_axes(basis, axes, idx), selk)
            cx.trace()
    # the lattice was not changed by any of this
    cx.step("lattice unchanged", lambda: BasisUtil(basis).delta_x_stacked, dx)


@PROP.family("wrapped points", roots)
def wrapped_points(cfg, cx: Cx) -> None:
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    nd = len(shape)
    basis = ref.build(make(dx, shape))
    # fractional coordinates away from the half-way boundary
    fr = (-1.7, -0.6, -0.2, 0.0, 0.3, 0.45, 1.1, 2.6)
    fr = fr if nd < 3 else fr[::3]
    frac = np.array(list(itertools.product(fr, repeat=nd))).T
    pts = dx.T @ frac
    for o in [None, *itertools.product((0.0, 0.25, -1.37), repeat=nd)]:
        of = np.zeros(nd) if o is None else np.array(o)
        rel = frac - of[:, None]
        want = dx.T @ (rel - np.floor(rel + 0.5) + of[:, None])
        with cx.at(f"origin={o}"):
            kw = {} if o is None else {"origin": dx.T @ of}
            cx.step("wrap", lambda: su.wrap_x_point_around_origin(basis, pts, **kw), want)
            cx.step("wrap twice", lambda: su.wrap_x_point_around_origin(
                basis, su.wrap_x_point_around_origin(basis, pts, **kw), **kw), want)
            cx.step("wrap one", lambda: su.wrap_x_point_around_origin(basis, pts[:, 1], **kw), want[:, 1])
        cx.trace()


def roots_path(tier: str):
    for dim, name, _ in lattices(tier):
        for shape in ([(2,), (5,)] if dim == 1 else [(2, 3), (4, 3)] if dim == 2 else [(2, 3, 2)]):
            yield {"dim": dim, "lat": name, "shape": list(shape), "len": 3 if tier == "quick" else 4}


@PROP.family("paths", roots_path)
def paths(cfg, cx: Cx) -> None:
    """Distance along every path: breadth first over path prefixes."""
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    basis = ref.build(make(dx, shape))
    dk = ref.reciprocal(dx)
    nodes = list(itertools.product(*(range(n) for n in shape)))
    coords = np.array([sum(i * d / n for i, d, n in zip(p, dx, shape)) for p in nodes]).T.reshape(len(shape), *shape)

    def near(d, n):
        return d - n * np.floor((d + n / 2) / n)

    for path in itertools.product(nodes, repeat=cfg["len"] if len(nodes) <= 6 else min(cfg["len"], 3)):
        p = np.array(path).T
        steps = p[:, :-1] - p[:, 1:]
        wsteps = np.array([near(s, n) for s, n in zip(steps, shape)])
        with cx.at(str(path)):
            cx.step("steps", lambda: np.abs(su.calculate_distances_along_path(basis, p)), np.abs(steps))
            ok, w = cx.run("wrapped steps", lambda: su.calculate_distances_along_path(basis, p, wrap_distances=True))
            if ok:
                cx.same("wrapped steps", np.abs(w), np.abs(wsteps))
                cx.same("equivalent", np.mod(w, np.array(shape)[:, None]), np.mod(steps, np.array(shape)[:, None]))
            for name, s, kw in (("", steps, {}), (" wrapped", wsteps, {"wrap_distances": True})):
                lx = np.linalg.norm((dx / np.array(shape)[:, None]).T @ s, axis=0)
                lk = np.linalg.norm(dk.T @ s, axis=0)
                if kw and any(n % 2 == 0 and np.any(np.abs(r) * 2 == n) for r, n in zip(wsteps, shape)) and len(shape) > 1:
                    continue  # two equally short ways round: the choice of side is not specified
                cx.step("x distance" + name, lambda: su.calculate_cumulative_x_distances_along_path(basis, p, **kw),
                        np.concatenate([[0.0], np.cumsum(lx)]))
                cx.step("k distance" + name, lambda: su.calculate_cumulative_k_distances_along_path(basis, p, **kw),
                        np.concatenate([[0.0], np.cumsum(lk)]))
            if not np.any(np.ptp(p, axis=1) < 0):
                lc = np.linalg.norm((dx / np.array(shape)[:, None]).T @ steps, axis=0)
                cx.step("grid distance", lambda: calculate_cumulative_distances_along_path(p, coords),
                        np.concatenate([[0.0], np.cumsum(lc)]))
        cx.trace()


def roots_build(tier: str):
    for dim, name, _ in lattices(tier):
        yield {"dim": dim, "lat": name}


@PROP.family("constructors", roots_build)
def constructors(cfg, cx: Cx) -> None:
    dx = lattice(cfg)
    dim = cfg["dim"]

    def inspect(b):
        return [list(b.shape), list(b.fundamental_shape), np.asarray(b.delta_x_stacked).tolist(), len(list(b))]

    for shape in itertools.product((1, 2, 5), repeat=dim):
        want = [list(shape), list(shape), dx.tolist(), dim]
        vecs = tuple(dx)
        with cx.at(str(shape)):
            cx.step("position", lambda: inspect(sb.position_basis_from_shape(shape, dx)), want)
            cx.step("fundamental", lambda: list(sb.fundamental_stacked_basis_from_shape(shape).shape), list(shape))
            cx.step("fundamental transformed", lambda: list(
                sb.fundamental_transformed_stacked_basis_from_shape(shape).shape), list(shape))
            if dim == 3:
                for what, fn, kind in (
                    ("like the parent", lambda: sb.position_basis_3d_from_parent(ref.build(make(dx, (3, 2, 4))), shape), FundamentalPositionBasis),
                    ("like a momentum parent", lambda: sb.position_basis_3d_from_parent(ref.build(make(dx, (3, 2, 4), "FMP")), shape), FundamentalPositionBasis),
                    ("position 3d", lambda: sb.position_basis_3d_from_shape(shape, dx), FundamentalPositionBasis),
                    ("momentum 3d", lambda: sb.momentum_basis_3d_from_resolution(shape, vecs), FundamentalTransformedPositionBasis),
                ):
                    ok, b = cx.run(what, fn)
                    if ok:
                        cx.same(what, inspect(b), want)
                        cx.holds(what + " kind", all(isinstance(a, kind) for a in b), str([type(a) for a in b]))
                for what, fn in (("position 3d", sb.position_basis_3d_from_shape), ("momentum 3d", sb.momentum_basis_3d_from_resolution)):
                    cx.step(what + " of unit size", lambda: inspect(fn(shape)), [list(shape), list(shape), np.eye(3).tolist(), 3])
            cx.step("with shape", lambda: inspect(stacked_basis_as_fundamental_with_shape(
                ref.build(make(dx, (3,) * dim)), shape)), want)
            cx.step("single point", lambda: [
                [b.n, np.asarray(b.delta_x).tolist()]
                for b in su.get_single_point_basis(ref.build(make(dx, shape)))],
                [[1, d.tolist()] for d in dx])
        cx.trace()
