"""C07: folding towards the first Brillouin zone moves by Bragg vectors and ends in the zone."""

from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc.core import Cx, Property
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.stacked_basis import brillouin_zone as bz

PROP = Property(
    "C07",
    rule="Every lattice of the family, every grid shape up to the bound, every momentum index in a "
    "box of several zones; repeated folding is explored to its fixed points.",
    assumptions=[
        "where two Bragg planes are equally close either may be used; within 1e-4 of a plane "
        "(relative to the reciprocal spacing) either side of it is accepted",
    ],
)


def tint(x):
    return [int(i) for i in x]


def lattice(cfg):
    return np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]], dtype=float)


def roots(tier: str):
    for dim, lats in ref.LATTICES.items():
        for lat in lats:
            if dim == 1:
                shapes = [(n,) for n in range(1, 8)]
            elif dim == 2:
                shapes = list(itertools.product((1, 2, 3, 5), repeat=2)) if tier == "quick" else list(
                    itertools.product(range(1, 7), repeat=2))
            else:
                shapes = [(2, 3, 4), (3, 3, 1), (3, 4, 2)] if tier == "quick" else list(
                    itertools.product((1, 2, 3, 4), repeat=3))
            for s in shapes:
                yield {"dim": dim, "lat": lat, "shape": list(s)}


def build(dx, shape):
    return ref.build(["S", [["FP", d.tolist(), n] for d, n in zip(dx, shape)]])


@PROP.family("bragg points", roots)
def bragg_points(cfg, cx: Cx) -> None:
    dx, shape = lattice(cfg), cfg["shape"]
    basis = build(dx, shape)
    dk = ref.reciprocal(dx)
    for bands in (1, 2) if cfg["dim"] < 3 else (1,):
        w = ref.freqs(2 * bands + 1).tolist()
        pts = [tuple(m * n for m, n in zip(p, shape)) for p in itertools.product(w, repeat=len(shape))]
        ks = np.array([sum(m * b for m, b in zip(p, dk)) for p in pts]).T
        with cx.at(f"bands={bands}"):
            cx.step("index", lambda: [np.asarray(c).tolist() for c in bz.get_all_brag_point_index(basis, bands)],
                    [list(c) for c in zip(*pts)])
            cx.step("points", lambda: bz.get_all_brag_point(basis, n_bands=bands), ks)
            cx.step("dk", lambda: BasisUtil(bz.get_bragg_point_basis(basis, n_bands=bands)).dk_stacked,
                    dk * np.array(shape)[:, None])
            grid = np.array(list(itertools.product((-1.3, 0.0, 0.4, 2.0), repeat=len(shape)))).T
            kk = dk.T @ grid
            for g in ks[:, 1:].T:
                want = (g @ kk) / np.linalg.norm(g) - np.linalg.norm(g) / 2
                cx.step("distance", lambda: bz.get_bragg_plane_distance(g, kk), want)
                cx.step("distance one", lambda: bz.get_bragg_plane_distance(g, kk[:, 1]), want[1])
        cx.trace()
    if cfg["dim"] == 3:
        for p in itertools.product((-3, 0, 2), repeat=3):
            q = (1, -2, 3)
            cx.step("fold", lambda: tint(bz.fold_point_in_bragg_plane(q, p)), [a - b for a, b in zip(p, q)])


class Model:
    def __init__(self, dx, shape):
        self.shape = shape
        self.dk = ref.reciprocal(dx)
        self.g = [m for m in itertools.product((-1, 0, 1), repeat=len(shape)) if any(m)]
        self.gi = [tuple(a * n for a, n in zip(m, shape)) for m in self.g]
        self.gk = [sum(a * b for a, b in zip(m, self.dk)) for m in self.gi]
        self.eps = 1e-4 * min(np.linalg.norm(b) for b in self.dk)

    def k(self, p):
        return sum(a * b for a, b in zip(p, self.dk))

    def successors(self, p):
        """(required choice set) of results allowed after one fold."""
        k = self.k(p)
        d = [float(g @ k / np.linalg.norm(g) - np.linalg.norm(g) / 2) for g in self.gk]
        sure = [x for x in d if x > self.eps]
        border = [i for i, x in enumerate(d) if -self.eps <= x <= self.eps]
        out = {tuple(a - b for a, b in zip(p, self.gi[i])) for i in border}
        if not sure:
            out.add(tuple(p))
            return out
        low = min(sure)
        out |= {tuple(a - b for a, b in zip(p, self.gi[i])) for i, x in enumerate(d)
                if self.eps < x <= low + self.eps}
        return out


def box(shape, reach):
    return itertools.product(*(range(-reach * n - 1, reach * n + 2) for n in shape))


@PROP.family("folding", roots)
def folding(cfg, cx: Cx) -> None:
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    basis = build(dx, shape)
    model = Model(dx, shape)
    fns = [("fold", bz.decrement_brillouin_zone)]
    if cfg["dim"] == 3:
        fns.append(("fold 3d", bz.decrement_brillouin_zone_3d))
    pts = list(box(shape, {1: 4, 2: 2, 3: 1}[cfg["dim"]]))
    if cfg["dim"] == 3 and len(pts) > 1500:
        pts = pts[:: 1 + len(pts) // 1500]
    seen = set(pts)
    frontier = pts
    for p in pts:
        cx.state(cfg["lat"], shape, p)
    while frontier:
        cols = tuple(np.array(c) for c in zip(*frontier))
        succ = [model.successors(p) for p in frontier]
        nxt = []
        for name, fn in fns:
            ok, got = cx.run(name, lambda: fn(basis, cols))
            if not ok:
                return
            res = [tuple(int(v) for v in c) for c in zip(*got)]
            cx.transitions += len(res) - 1
            for p, r, s in zip(frontier, res, succ):
                if r not in s:
                    with cx.at(str(p)):
                        cx.fail(name, f"got {r}, expected one of {sorted(s)}")
                cx.trace()
                if r not in seen:
                    seen.add(r)
                    cx.state(cfg["lat"], shape, r)
                    nxt.append(r)
        # scalar and multi-dimensional calls agree with the model too
        for p, s in list(zip(frontier, succ))[:: 1 + len(frontier) // 40]:
            for name, fn in fns:
                ok, got = cx.run(name + " one", lambda: tint(fn(basis, p)))
                if ok and tuple(got) not in s:
                    with cx.at(str(p)):
                        cx.fail(name + " one", f"got {got}, expected one of {sorted(s)}")
        m = 2 * (len(frontier) // 2)
        if m:
            grid = tuple(c[:m].reshape(2, m // 2) for c in cols)
            for name, fn in fns:
                ok, got = cx.run(name + " array", lambda: fn(basis, grid))
                if ok:
                    cx.same("shape", [list(np.shape(c)) for c in got], [[2, m // 2]] * len(shape))
                    res = list(zip(*(np.asarray(c).reshape(-1).tolist() for c in got)))
                    bad = [(p, r) for p, r, s in zip(frontier, res, succ) if r not in s]
                    cx.holds(name + " array", not bad, str(bad[:2]))
            cx.holds("argument unchanged", all(np.array_equal(c, list(z)) for c, z in zip(cols, zip(*frontier))))
        frontier = nxt


@PROP.family("folding to the end", roots)
def folding_to_end(cfg, cx: Cx) -> None:
    """Repeated folding terminates inside the zone, at an equivalent point."""
    dx, shape = lattice(cfg), tuple(cfg["shape"])
    basis = build(dx, shape)
    model = Model(dx, shape)
    pts = list(box(shape, {1: 4, 2: 2, 3: 1}[cfg["dim"]]))
    pts = pts[:: 1 + len(pts) // 400]
    cur = tuple(np.array(c) for c in zip(*pts))
    norm = np.array([np.linalg.norm(model.k(p)) for p in pts])
    for i in range(200):
        ok, got = cx.run("fold", lambda: bz.decrement_brillouin_zone(basis, cur))
        if not ok:
            return
        cx.transitions += len(pts) - 1
        new = [tuple(int(v) for v in c) for c in zip(*got)]
        n2 = np.array([np.linalg.norm(model.k(p)) for p in new])
        cx.holds("momentum never grows", np.all(n2 <= norm * (1 + 1e-9) + 1e-12), f"step {i}")
        same = all(np.array_equal(a, b) for a, b in zip(got, cur))
        cur, norm = tuple(np.array(c) for c in zip(*new)), n2
        for p in new:
            cx.state(cfg["lat"], shape, p)
        if same:
            break
    else:
        cx.fail("terminates", "still moving after 200 folds")
        return
    for p, q in zip(pts, zip(*(c.tolist() for c in cur))):
        with cx.at(str(p)):
            cx.same("equivalent", [(a - b) % n for a, b, n in zip(p, q, shape)], [0] * len(shape))
            k = model.k(q)
            bad = [m for m, g in zip(model.g, model.gk)
                   if np.linalg.norm(k - g) < np.linalg.norm(k) - 2 * model.eps]
            cx.holds("nearest to the origin", not bad, f"{q} is closer to {bad[:3]}")
        cx.trace()
