"""C14: potentials describe one periodic energy function through loading, conversion and resampling."""

from __future__ import annotations

import itertools
import json
import tempfile
from pathlib import Path

import numpy as np

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.potential import _comparison_points as cp
from surface_potential_analysis.potential import conversion as pc
from surface_potential_analysis.potential import point_potential as pp
from surface_potential_analysis.potential import potential as po

PROP = Property(
    "C14",
    rule="Every lattice of a fixed family and shape up to the bound, every impulse potential, every grid and "
    "a set of off-grid points; every Fourier mode below the resolution times every cubic in the height for "
    "resampling; every file format.",
)


def flat(x):
    return np.asarray(x).reshape(-1)


def roots(tier: str):
    for dim, lats in ref.LATTICES.items():
        shapes = {1: [(n,) for n in range(1, 6 if tier == "quick" else 9)],
                  2: [(1, 2), (2, 2), (2, 3), (3, 3), (4, 1)] if tier == "quick" else list(itertools.product((1, 2, 3, 4), repeat=2)),
                  3: [(2, 3, 2), (1, 2, 3)] if tier == "quick" else list(itertools.product((1, 2, 3), repeat=3))}[dim]
        for lat in lats:
            for shape in shapes:
                yield {"dim": dim, "lat": lat, "shape": list(shape)}


def spec_list(dx, shape):
    def kinds(d, n):
        d = list(d)
        return [["FP", d, n], ["FMP", d, n], ["TP", d, n, n + 1], ["MP", d, max(1, n - 1), n], ["XL", "orth", max(1, n - 1), ["FP", d, n]]]

    per = [kinds(d, n) for d, n in zip(dx, shape)]
    if len(shape) < 2:
        return [["S", [k]] for k in per[0]]
    return [["S", [p[(i + j * s) % 5] for j, p in enumerate(per)]] for i in range(5) for s in (0, 1, 2)]


@PROP.family("continuous function and derivative", roots)
def continuous(cfg, cx: Cx) -> None:
    dx, shape = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]]), tuple(cfg["shape"])
    nd = len(shape)
    dk = ref.reciprocal(dx)
    for spec in spec_list(dx, shape):
        basis, n, big = ref.build(spec), ref.n_of(spec), ref.fund_shape(spec)
        fp = ref.build(["S", [["FP", list(d), m] for d, m in zip(dx, big)]])
        nb = int(np.prod(big))
        ks = np.array([sum(f * b for f, b in zip(fs, dk)) for fs in itertools.product(*(ref.freqs(m).tolist() for m in big))])
        grid = np.array([sum(i * d / m for i, d, m in zip(p, dx, big)) for p in itertools.product(*(range(m) for m in big))])
        points = np.concatenate([grid, grid + 0.37 * dx.sum(axis=0), rdata((3, nd), "pts")])
        modes = np.ones((1, 1), dtype=complex)
        for m in big:
            modes = np.kron(modes, np.array([ref.momentum_state(int(f), m) for f in ref.freqs(m)]))
        vecs = [np.eye(n)[i] + 0j for i in range(n)] if n <= 6 else [np.eye(n)[n - 1] + 0j]
        with cx.at(json.dumps(spec)):
            for v in [*vecs, cdata((n,), "v")]:
                vx = v @ ref.states(spec)
                c = vx @ modes.conj().T
                keep = v.copy()
                pot = {"basis": basis, "data": v}
                cx.step("position basis", lambda: flat(pc.convert_potential_to_position_basis(pot)["data"]), vx)
                waves = np.exp(1j * points @ ks.T) / np.sqrt(nb)
                ok, fn = cx.run("continuous", lambda: pc.get_continuous_potential(pot))
                if ok:
                    cx.step("at many points", lambda: flat(fn(tuple(points.T))), waves @ c)
                    cx.step("at grid points", lambda: flat(fn(tuple(grid.T))), vx)
                    cx.step("at lattice translations", lambda: flat(fn(tuple((grid + dx.sum(axis=0)).T))), vx)
                    for p in (0, len(grid), -1):
                        cx.step("at one point", lambda: complex(fn(tuple(points[p]))), complex(waves[p] @ c))
                    two = points[: 2 * (len(points) // 2)].reshape(2, -1, nd)
                    cx.step("on a mesh", lambda: np.asarray(fn(tuple(np.moveaxis(two, -1, 0)))),
                            (np.exp(1j * two @ ks.T) / np.sqrt(nb)) @ c)
                for ax in range(nd):
                    ok, d = cx.run("derivative", lambda: pc.get_potential_derivative(pot, axis=ax))
                    if ok:
                        cx.same("derivative", flat(d["data"]), 1j * ks[:, ax] * c)
                        cx.step("derivative at points", lambda: flat(pc.get_continuous_potential(d)(tuple(points.T))),
                                waves @ (1j * ks[:, ax] * c))
                        ok, e = cx.run("second derivative", lambda: pc.get_potential_derivative(d, axis=(ax + 1) % nd))
                        if ok:
                            cx.same("second derivative", flat(e["data"]), -ks[:, ax] * ks[:, (ax + 1) % nd] * c)
                cx.step("default derivative", lambda: flat(pc.get_potential_derivative(pot)["data"]), 1j * ks[:, 0] * c)
                cx.same("unchanged", v, keep)
                cx.state(spec, v)
            del fp
        cx.trace()


def roots_scale(tier: str):
    for cutoff in (1.0, 0.3, 7.0, 2e-17):
        for n in (1, 2, 3, 5):
            for off in (0.0, 0.1, 0.9):
                yield {"cutoff": cutoff, "n": n, "offset": off * cutoff}


@PROP.family("energy scale", roots_scale)
def energy_scale(cfg, cx: Cx) -> None:
    cut, n, off = cfg["cutoff"], cfg["n"], cfg["offset"]
    u = np.array([0.0, 1e-2, 0.1, 0.5, 1.0, 2.0, 5.0])
    basis = ref.build(["S", [["FP", [1.0], len(u)]]])
    for shift in (0.0, 0.02, 1.0):
        e = (u + shift) * cut - off * 0.5
        pot = {"basis": basis, "data": e.copy()}
        want = cut * np.log1p(((e + off) / cut) ** n) ** (1 / n) - off
        ok, t = cx.run("truncate", lambda: po.truncate_potential(pot, cutoff=cut, n=n, offset=off))
        if ok:
            cx.same("truncate", flat(t["data"]) / cut, want / cut)
            cx.holds("order kept", np.all(np.diff(flat(t["data"])) > 0), "truncation is not monotone")
            cx.holds("not above", np.all(flat(t["data"]) <= e + 1e-9 * cut), "truncation raised an energy")
            cx.step("undo", lambda: flat(po.undo_truncate_potential(t, cutoff=cut, n=n, offset=off)["data"]) / cut,
                    e / cut, tol=1e-6)
            cx.step("redo", lambda: flat(po.truncate_potential(po.undo_truncate_potential(
                t, cutoff=cut, n=n, offset=off), cutoff=cut, n=n, offset=off)["data"]) / cut, want / cut, tol=1e-6)
        for x in (e, -e, e[::-1] + cut):
            p = {"basis": basis, "data": x.copy()}
            ok, got = cx.run("normalize", lambda: po.normalize_potential(p))
            if ok:
                cx.same("normalize", flat(got["data"]) / cut, (x - min(x)) / cut)
                cx.step("normalize again", lambda: flat(po.normalize_potential(got)["data"]) / cut, (x - min(x)) / cut)
                cx.same("normalize unchanged", p["data"] / cut, x / cut)
        cx.same("unchanged", pot["data"] / cut, e / cut)
        cx.trace()


def roots_uneven(tier: str):
    shapes = [(1, 1, 4), (2, 3, 4), (3, 3, 5), (4, 2, 4)] if tier == "quick" else [
        (a, b, z) for a in (1, 2, 3, 4, 5) for b in (1, 2, 3, 4) for z in (4, 6)]
    for shape in shapes:
        for lat in ref.LATTICES[2]:
            yield {"shape": list(shape), "lat": lat}


def mode(f, sin, s):
    return (np.sin if sin else np.cos)(2 * np.pi * f * s)


@PROP.family("resampling uneven potentials", roots_uneven)
def uneven(cfg, cx: Cx) -> None:
    n0, n1, nz = cfg["shape"]
    lat = np.array(ref.LATTICES[2][cfg["lat"]])
    z = np.cumsum(0.2 + np.abs(rdata((nz,), "z"))) - 1.0
    basis = TupleBasis(FundamentalPositionBasis(lat[0], n0), FundamentalPositionBasis(lat[1], n1), po.UnevenPotential3dZBasis(z))

    def field(f0, f1, sin, p, m0, m1, zs):
        a = 2 * np.pi * (f0 * np.arange(m0)[:, None] / m0 + f1 * np.arange(m1)[None, :] / m1)
        return (np.sin(a) if sin else np.cos(a))[:, :, None] * (zs**p)[None, None, :]

    targets = [(n0, n1, nz), (n0 + 1, n1 + 2, nz + 3), (2 * n0, 3 * n1, 2), (n0 + 2, max(1, n1 - 1), 7)]
    for t in targets:
        zs = z[0] + (z[-1] - z[0]) * np.arange(t[2]) / max(1, t[2] - 1)
        lim0, lim1 = (min(n0, t[0]) - 1) // 2, (min(n1, t[1]) - 1) // 2
        for f0 in range(-lim0, lim0 + 1):
            for f1 in range(lim1 + 1):
                for sin in (0, 1):
                    for p in range(4):
                        with cx.at(f"to={t}", f"mode={(f0, f1, sin)}", f"z^{p}"):
                            v = field(f0, f1, sin, p, n0, n1, z)
                            for data in (flat(v), v):
                                ok, got = cx.run("resample", lambda: po.interpolate_uneven_potential(
                                    {"basis": basis, "data": data.copy()}, t))
                                if ok:
                                    cx.same("resample", flat(got["data"]), flat(field(f0, f1, sin, p, t[0], t[1], zs)), tol=1e-7)
                                    cx.same("resample basis", [int(b.n) for b in got["basis"]], list(t))
                                    cx.same("resample lattice", np.array([b.delta_x for b in got["basis"]]),
                                            np.array([[*lat[0], 0], [*lat[1], 0], [0, 0, z[-1] - z[0]]]))
                            cx.state(n0, n1, nz, t, f0, f1, sin, p)
        cx.trace()
    v = rdata((n0, n1, nz), "mock")
    ok, got = cx.run("mock", lambda: po.mock_even_potential({"basis": basis, "data": v.copy()}))
    if ok:
        cx.same("mock", np.asarray(got["data"]), flat(v))
        cx.same("mock lattice", np.array([b.delta_x for b in got["basis"]]), np.array([[*lat[0], 0], [*lat[1], 0], [0, 0, 1]]))
        cx.same("mock shape", [int(b.n) for b in got["basis"]], [n0, n1, nz])
    cx.same("z unchanged", basis[2].z_points, z)


def roots_files(tier: str):
    for shape in ((1, 1, 1), (2, 3, 4), (3, 2, 2), (1, 4, 2)) if tier == "quick" else itertools.product((1, 2, 3, 4), repeat=3):
        yield {"shape": list(shape)}


@PROP.family("files", roots_files)
def files(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    v = rdata(shape, "file")
    dx3 = np.array(ref.LATTICES[3]["tri"])
    z = np.sort(rdata((shape[2],), "z"))
    with tempfile.TemporaryDirectory() as tmp:
        d = Path(tmp)
        for ints in (False, True):
            dx = np.round(dx3 * 3).astype(int) if ints else dx3
            (d / "grid.json").write_text(json.dumps({
                "delta_x0": dx[0].tolist(), "delta_x1": dx[1].tolist(), "delta_x2": dx[2].tolist(), "points": v.tolist()}))
            before = sorted(p.name for p in d.iterdir())
            ok, got = cx.run("grid", lambda: po.load_potential_grid_json(d / "grid.json"))
            if ok:
                cx.same("grid", flat(got["data"]), flat(v))
                cx.same("grid flat", list(np.asarray(got["data"]).shape), [int(np.prod(shape))])
                cx.same("grid lattice", np.array([b.delta_x for b in got["basis"]], dtype=float), dx.astype(float))
                cx.same("grid shape", [int(b.n) for b in got["basis"]], list(shape))
                spec = ["S", [["FMP", x, n] for x, n in zip(dx.astype(float).tolist(), shape)]]
                cx.step("grid in momentum", lambda: flat(pc.convert_potential_to_basis(got, ref.build(spec))["data"]),
                        flat(v) @ ref.states(spec).conj().T)
                # saved as the package saves it and loaded again
                np.save(d / "p.npy", np.array(got, dtype=object))
                ok, again = cx.run("npy", lambda: po.load_potential(d / "p.npy"))
                if ok:
                    cx.same("npy", flat(again["data"]), flat(v))
                    cx.same("npy basis", [[int(b.n), np.asarray(b.delta_x, dtype=float)] for b in again["basis"]],
                            [[n, x] for n, x in zip(shape, dx.astype(float))])
            cx.same("nothing else written", sorted(p.name for p in d.iterdir() if p.name != "p.npy"), [b for b in before if b != "p.npy"])
            (d / "uneven.json").write_text(json.dumps({
                "delta_x0": dx[0, :2].tolist(), "delta_x1": dx[1, :2].tolist(), "z_points": z.tolist(), "points": v.tolist()}))
            ok, got = cx.run("uneven", lambda: po.load_uneven_potential_json(d / "uneven.json"))
            if ok:
                cx.same("uneven", flat(got["data"]), flat(v))
                cx.same("uneven flat", list(np.asarray(got["data"]).shape), [int(np.prod(shape))])
                cx.same("uneven z", np.asarray(got["basis"][2].z_points), z)
                cx.same("uneven lattice", np.array([b.delta_x for b in list(got["basis"])[:2]], dtype=float), dx[:2, :2].astype(float))
                np.save(d / "u.npy", np.array(got, dtype=object))
                ok, again = cx.run("uneven npy", lambda: po.load_uneven_potential(d / "u.npy"))
                if ok:
                    cx.same("uneven npy", [flat(again["data"]), np.asarray(again["basis"][2].z_points)], [flat(v), z])
            (d / "u.npy").unlink(missing_ok=True)
            k = shape[0] * shape[1]
            cols = {c: rdata((k,), c).tolist() for c in ("x_points", "y_points", "z_points", "points")}
            (d / "point.json").write_text(json.dumps(cols))
            cx.step("points", lambda: {c: np.asarray(a) for c, a in pp.load_point_potential_json(d / "point.json").items()},
                    {c: np.array(a) for c, a in cols.items()})
            cx.trace()
            for p in d.iterdir():
                p.unlink()


def roots_sites(tier: str):
    for a in range(1, 7 if tier == "quick" else 13):
        yield {"a": a}


@PROP.family("named sites", roots_sites)
def sites(cfg, cx: Cx) -> None:
    for b in range(1, 7):
        for off in itertools.product((0, 1, 5), repeat=2):
            s = (6 * cfg["a"], 6 * b)

            def at(p, q):
                return ((int(s[0] * p + 0.5) + off[0]) % s[0], (int(s[1] * q + 0.5) + off[1]) % s[1])

            def wrapped(points):
                # the potential is periodic: a site stands for its image in the cell
                return {k: (int(v[0]) % s[0], int(v[1]) % s[1]) for k, v in points.items()}

            cx.step("111", lambda: wrapped(cp.get_111_comparison_points_x2(s, off)),
                    {"Top Site": at(2 / 3, 2 / 3), "Bridge Site": at(1 / 6, 1 / 6), "FCC Site": at(0, 0), "HCP Site": at(1 / 3, 1 / 3)})
            cx.step("100", lambda: wrapped(cp.get_100_comparison_points_x2(s, off)),
                    {"Hollow Site": at(0, 0), "Bridge Site": at(0.5, 0), "Top Site": at(0.5, 0.5)})
            cx.trace()
