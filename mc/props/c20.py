"""C20: overlaps of localised states, their interpolation in momentum, and the integrals made of them."""

from __future__ import annotations

import itertools
import json

import numpy as np
from scipy.constants import electron_mass, elementary_charge, epsilon_0, hbar

from mc import ref
from mc.core import Cx, Property, cdata, rdata
from mc.props.c11 import decompress, flat, skinds
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.dynamics import hermitian_gamma_integral as hg
from surface_potential_analysis.overlap import calculation as oc
from surface_potential_analysis.overlap import interpolation as oi
from surface_potential_analysis.overlap import overlap as oo

PROP = Property(
    "C20",
    rule="Every shape of grid up to the bound (unequal axes), lattices of a fixed family, every number of states, every shift of "
    "the grid, every wavevector of the reciprocal grid and off it, every number of points kept, grids of energies.",
    assumptions=["shifts given as a flat index lie in the grid"],
)


def shapes(tier: str, dims=(1, 2, 3)):
    q = tier == "quick"
    if 1 in dims:
        yield from ((n,) for n in range(1, 10 if q else 16))
    if 2 in dims:
        yield from itertools.product(range(1, 7 if q else 10), repeat=2)
    if 3 in dims:
        yield from itertools.product(range(1, 6 if q else 7), repeat=3)


def grid(shape):
    return list(itertools.product(*(range(n) for n in shape)))


def lattice(dim, name):
    return np.array(ref.LATTICES[dim][name])


def spec_of(dim, name, shape, kind="FP"):
    return ["S", [[kind, list(d), n] for d, n in zip(lattice(dim, name), shape)]]


# -- overlaps of lists of states ------------------------------------------------------


def list_roots(tier: str):
    for shape in shapes(tier):
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            yield {"shape": list(shape), "states": k}


def shifted(psi, shape, s):
    """psi(x - s) on the periodic grid."""
    out = np.empty_like(psi)
    for x, p in enumerate(grid(shape)):
        src = np.ravel_multi_index(tuple((a - b) % n for a, b, n in zip(p, s, shape)), shape)
        out[:, x] = psi[:, src]
    return out


@PROP.family("states", list_roots)
def lists(cfg, cx: Cx) -> None:
    shape, k = tuple(cfg["shape"]), cfg["states"]
    n, dim = int(np.prod(shape)), len(shape)
    spec = spec_of(dim, list(ref.LATTICES[dim])[-1], shape)
    psi = cdata((k, n), "overlap", shape)
    b, lb = ref.build(spec), FundamentalBasis(k)
    states = {"basis": TupleBasis(lb, b), "data": psi.reshape(-1).copy()}
    points = grid(shape)
    everything = [("flat", i, p) for i, p in enumerate(points)] + [("stacked", p, p) for p in points]
    everything += [("stacked", q, q) for q in (tuple(-1 for _ in shape), tuple([0] * (dim - 1) + [-1]), tuple(x + 1 for x in shape))]
    for kind, given, s in everything:
        want = np.einsum("ix,jx->xij", psi.conj(), shifted(psi, shape, s))
        with cx.at(kind, given):
            ok, got = cx.run("overlap", lambda: oc.calculate_state_vector_list_overlap(states, shift=given))
            if not ok:
                continue
            cx.same(f"overlap {kind} shift", [[int(got["basis"][0].n), got["basis"][1].shape], flat(got["data"])], [[n, (k, k)], want.reshape(-1)])
            cx.holds("basis", got["basis"][0] is b or ref_same(got["basis"][0], b), "another basis of positions")
            if s == points[0] and kind == "flat":
                for i, j in itertools.product(range(k), repeat=2):
                    for idx in ((i, j), i * k + j):
                        one = lambda: oo.get_single_overlap(got, idx)
                        cx.step("single overlap", lambda: [[int(x.n) for x in one()["basis"][1]], flat(one()["data"])], [[1, 1], want[:, i, j]])
            cx.state(shape, k, s)
            cx.trace()
    cx.step("default shift", lambda: flat(oc.calculate_state_vector_list_overlap(states)["data"]), np.einsum("ix,jx->xij", psi.conj(), psi).reshape(-1))


def ref_same(a, b):
    return all(np.allclose(x.delta_x, y.delta_x) and x.n == y.n for x, y in zip(a, b))


# -- overlaps of wavepackets ------------------------------------------------------------


def packet_roots(tier: str):
    for name in ("line2", "neg"):
        for a, b in itertools.product(range(1, 6), range(1, 7)):
            yield {"dim": 1, "lat": name, "list": [a], "cell": [b]}
    s2 = [((1, 2), (2, 3)), ((2, 3), (3, 2)), ((3, 2), (1, 4)), ((2, 2), (2, 2))]
    for name in list(ref.LATTICES[2])[:None]:
        for a, b in s2:
            yield {"dim": 2, "lat": name, "list": list(a), "cell": list(b)}
    for name in list(ref.LATTICES[3])[1:]:
        for a, b in [((2, 1, 3), (1, 2, 2)), ((2, 3, 1), (3, 2, 2))]:
            yield {"dim": 3, "lat": name, "list": list(a), "cell": list(b)}


@PROP.family("wavepackets", packet_roots)
def wavepackets(cfg, cx: Cx) -> None:
    dx = lattice(cfg["dim"], cfg["lat"])
    bigs, ns = tuple(cfg["list"]), tuple(cfg["cell"])
    full = tuple(a * b for a, b in zip(bigs, ns))
    nl, n = int(np.prod(bigs)), int(np.prod(full))
    lspec = ["S", [["FM", a] for a in bigs]]
    per = [skinds(d, m) for d, m in zip(dx, ns)]
    cells = [["S", [p[i] for p in per]] for i in range(4)]
    points = grid(full)
    for sspec in cells:
        k, nst = 2, ref.n_of(sspec)
        data = cdata((k, nl, nst), "pack", nl, nst)
        psi = decompress(data, lspec, sspec).sum(axis=1) / np.sqrt(nl)
        lb, lq, lx = FundamentalBasis(k), ref.build(lspec), ref.build(sspec)
        packs = {"basis": TupleBasis(TupleBasis(lb, lq), lx), "data": data.reshape(-1).copy()}
        one = [{"basis": TupleBasis(lq, lx), "data": d.reshape(-1).copy()} for d in data]
        with cx.at(json.dumps(sspec)):
            for i, j in itertools.product(range(k), repeat=2):
                ok, got = cx.run("overlap of two", lambda: oc.calculate_wavepacket_overlap(one[i], one[j]))
                if ok:
                    cx.same("overlap of two", [got["basis"][0].shape, [int(x.n) for x in got["basis"][1]], flat(got["data"])],
                            [full, [1, 1], psi[i].conj() * psi[j]])
            stops = points if cfg["dim"] == 1 else points[:: max(1, n // 5)]
            for s in stops:
                want = np.einsum("ix,jx->xij", psi.conj(), shifted(psi, full, s))
                for given in (s, int(np.ravel_multi_index(s, full))):
                    ok, got = cx.run("overlap of list", lambda: oc.calculate_wavepacket_list_overlap(packs, shift=given))
                    if ok:
                        cx.same("overlap of list", [got["basis"][0].shape, flat(got["data"])], [full, want.reshape(-1)])
                        cx.same("lattice", [[float(v) for v in x.delta_x] for x in got["basis"][0]], [[float(v) for v in d * a] for d, a in zip(dx, bigs)])
            # in a basis of fewer points, chosen by the user
            other = ["S", [["FMP", list(d * a), m] for d, a, m in zip(dx, bigs, full)]]
            conv = psi @ ref.states(other).conj().T
            want = np.einsum("ix,jx->xij", conv.conj(), conv)
            ob = ref.build(other)
            ok, got = cx.run("overlap in a chosen basis", lambda: oc.calculate_wavepacket_list_overlap(packs, basis=ob))
            if ok:
                cx.same("overlap in a chosen basis", flat(got["data"]), want.reshape(-1))
                cx.holds("chosen basis", got["basis"][0] is ob)
            cx.state(cfg, sspec)
            cx.trace()


# -- interpolation in momentum ------------------------------------------------------------


def interp_roots(tier: str):
    for dim in (2, 3):
        for name in ref.LATTICES[dim]:
            for shape in shapes(tier, (dim,)):
                yield {"dim": dim, "lat": name, "shape": list(shape)}


def wrap(i, n):
    return (i + n // 2) % n - n // 2


@PROP.family("interpolation", interp_roots)
def interpolation(cfg, cx: Cx) -> None:
    dim, shape = cfg["dim"], tuple(cfg["shape"])
    dx = lattice(dim, cfg["lat"])
    n = int(np.prod(shape))
    data = cdata(n, "int", shape)
    overlap = {
        "basis": TupleBasis(ref.build(spec_of(dim, cfg["lat"], shape)), TupleBasis(FundamentalBasis(1), FundamentalBasis(1))),
        "data": data.copy(),
    }
    # the grid has no point half way round: either image is nearest, so even axes are compared on the reciprocal grid alone
    near = np.array([[wrap(i, m) if a < 2 else i for a, (i, m) in enumerate(zip(p, shape))] for p in grid(shape)])
    x = near @ (dx / np.array(shape)[:, None])
    rec = ref.reciprocal(dx)
    onto = np.array([list(f) for f in itertools.product(*(range(-1, m + 1) for m in shape))], dtype=float)
    odd = all(m % 2 for m in shape[:2])
    off = rdata((5, dim), "off") * 2 if odd else np.zeros((0, dim))
    if not odd:
        # along odd axes (and the last) any wavevector is unambiguous
        off = rdata((5, dim), "off") * 2
        off[:, [a for a in range(min(2, dim)) if shape[a] % 2 == 0]] = np.round(off[:, [a for a in range(min(2, dim)) if shape[a] % 2 == 0]])
    f = np.concatenate([onto, off])
    k = f @ rec
    want = np.exp(1j * k @ x.T) @ data
    ok, by_fraction = cx.run("interpolator of fractions", lambda: oi.get_overlap_momentum_interpolator_k_fractions(overlap))
    if ok:
        cx.step("by fractions", lambda: by_fraction(tuple(f.T.copy())), want)
        cx.step("by fractions, one by one", lambda: [by_fraction(tuple(g.reshape(dim, 1)))[0] for g in f[:4]], want[:4])
    ok, by_k = cx.run("interpolator", lambda: oi.get_overlap_momentum_interpolator(overlap))
    if ok:
        cx.step("by wavevector", lambda: by_k(k.T.copy()), want)
        cx.step("one wavevector", lambda: by_k(k[-1].copy()), want[-1])
        m = len(k) // 2
        cx.step("grid of wavevectors", lambda: by_k(k[: 2 * m].T.reshape(dim, m, 2).copy()), want[: 2 * m].reshape(m, 2))
    cx.same("overlap untouched", overlap["data"], data, 0)
    cx.state(cfg)
    cx.trace()


def flat_roots(tier: str):
    for shape in shapes(tier, (3,)):
        for name in ("square", "skew"):
            yield {"shape": list(shape), "lat": name}


@PROP.family("in plane", flat_roots)
def in_plane(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    dx = np.zeros((3, 3))
    dx[:2, :2] = [[1.2, 0.0], [0.0, 0.7]] if cfg["lat"] == "square" else [[1.2, 0.1], [-0.5, 0.9]]
    dx[2, 2] = 1.7
    n, nxy = int(np.prod(shape)), shape[0] * shape[1]
    data = cdata(n, "flat", shape)
    spec = ["S", [["FP", list(d), m] for d, m in zip(dx, shape)]]
    overlap = {"basis": TupleBasis(ref.build(spec), TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": data.copy()}
    near = np.array([[wrap(i, m) for i, m in zip(p, shape)] for p in grid(shape[:2])])
    x = near @ (dx[:2, :2] / np.array(shape[:2])[:, None])
    rec = ref.reciprocal(dx[:2, :2])
    f = np.array(list(itertools.product(range(-1, shape[0] + 1), range(-1, shape[1] + 1))), dtype=float)
    if all(m % 2 for m in shape[:2]):
        f = np.concatenate([f, rdata((5, 2), "off")])
    k = f @ rec
    summed = data.reshape(nxy, shape[2]).sum(axis=1)
    order = np.argsort(-np.abs(summed), kind="stable")
    for keep in (None, *range(nxy + 2)):
        kept = order if keep is None else order[:keep]
        want = np.exp(1j * k @ x[kept].T) @ summed[kept]
        with cx.at(keep):
            ok, got = cx.run("flat interpolator", lambda: oi.get_overlap_momentum_interpolator_flat(overlap, keep))
            if ok:
                cx.step("in plane", lambda: got(k.T.copy()), want)
                m = len(k) // 2
                cx.step("in plane, grid", lambda: got(k[: 2 * m].T.reshape(2, m, 2).copy()), want[: 2 * m].reshape(m, 2))
    ok, whole = cx.run("interpolator", lambda: oi.get_overlap_momentum_interpolator(overlap))
    if ok:
        k3 = np.concatenate([k, np.zeros((len(k), 1))], axis=1)
        cx.step("whole at k2=0", lambda: whole(k3.T.copy()), np.exp(1j * k @ x.T) @ summed)
    cx.state(cfg)
    cx.trace()


# -- average over the direction ---------------------------------------------------------------


def angle_roots(tier: str):
    for samples in (*range(1, 20), 50, 51):
        for order in range(4):
            yield {"samples": samples, "order": order}


@PROP.family("angle average", angle_roots)
def angle(cfg, cx: Cx) -> None:
    """The mean over evenly spaced directions is exact for every harmonic below the number of samples."""
    samples, order = cfg["samples"], cfg["order"]
    c = cdata(order + 1, "angle")

    def interpolator(k):
        q, t = np.hypot(k[0], k[1]), np.arctan2(k[1], k[0])
        return sum(c[m] * q**m * np.exp(1j * m * t) for m in range(order + 1))

    q = np.array([[0.0, 0.3, 1.0], [1.7, 0.5, 2.0]])
    exact = sum(np.abs(c[m]) ** 2 * q ** (2 * m) for m in range(order + 1))
    if samples > order:
        for s in (q, q.reshape(-1), q[:1]):
            w = exact if s is q else exact.reshape(-1) if s.ndim == 1 else exact[:1]
            cx.step("angle average", lambda: oi.get_angle_averaged_diagonal_overlap_function(interpolator, s, theta_samples=samples), w)
    if samples == 50:
        cx.step("default samples", lambda: oi.get_angle_averaged_diagonal_overlap_function(interpolator, q), exact)
    cx.state(cfg)
    cx.trace()


# -- names of cached overlaps -----------------------------------------------------------------


def name_roots(tier: str):
    yield {"bands": 2}


@PROP.family("names", name_roots)
def names(cfg, cx: Cx) -> None:
    seen: dict = {}
    offsets = list(itertools.product(range(-3, 4), repeat=2))
    for i, j in itertools.product(range(3), repeat=2):
        for a, b in itertools.product(offsets, repeat=2):
            ok, name = cx.run("name", lambda: oo.get_overlap_cache_filename(i, j, a, b))
            if not ok or name is None:
                continue
            key = (i, j, a, b)
            cx.holds("name", seen.setdefault(name, key) == key, f"{name} names both {seen.get(name)} and {key}")
    cx.holds("named", len(seen) == 4 * 81, f"{len(seen)} names")
    cx.trace()


# -- integrals over electrons ---------------------------------------------------------------


def gamma_roots(tier: str):
    for kf in (1.2e10, 0.9e10):
        for t in (4e-21, 2e-21) + (1e-21, 6e-21):
            for w in (0.0, 0.1, -0.1, 1.0, -1.0, 3.0, -3.0, 8.0, -8.0, 15.0):
                yield {"k_f": kf, "kT": t, "omega": w}


def occupation_integral(omega, k_f, kt):
    """int N(k) (1 - N(k')) dk by the trapezium rule over the energies that matter."""
    ef = (hbar * k_f) ** 2 / (2 * electron_mass)
    lo, hi = min(0.0, -omega) / kt - 60, max(0.0, -omega) / kt + 60
    s = np.linspace(lo, hi, 40001)
    e = ef + s * kt
    k = np.sqrt(2 * electron_mass * e) / hbar
    occ = 1 / (1 + np.exp(s))
    empty = 1 / (1 + np.exp(-(s + omega / kt)))
    y = occ * empty * electron_mass / (hbar**2 * k)
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(e)))


def scattering_integral(k_f, overlap, c):
    """4 m k_f^3 / (2 pi hbar)^3 int sin(phi) V(q)^2 overlap(q) dphi over 0..pi, q = c k_f sin(phi / 2), V the
    potential of a hydrogen atom: a proton and an electron in the 1s state."""
    bohr = 4 * np.pi * epsilon_0 * hbar**2 / (electron_mass * elementary_charge**2)
    t, w = np.polynomial.legendre.leggauss(60)
    phi = (t + 1) * np.pi / 2
    q = c * k_f * np.sin(phi / 2)
    cloud = 1 / (1 + (q * bohr / 2) ** 2) ** 2
    v = elementary_charge**2 / (epsilon_0 * q**2) * (cloud - 1)
    y = np.sin(phi) * v**2 * np.array([complex(overlap(x)) for x in q])
    return complex(4 * electron_mass * k_f**3 / (2 * np.pi * hbar) ** 3 * np.sum(w * y) * np.pi / 2)


@PROP.family("electrons", gamma_roots)
def electrons(cfg, cx: Cx) -> None:
    k_f, kt = cfg["k_f"], cfg["kT"]
    omega = cfg["omega"] * kt
    scale = occupation_integral(0.0, k_f, kt)
    want = occupation_integral(omega, k_f, kt)

    def integral(w=omega):
        return hg.calculate_hermitian_gamma_occupation_integral(w, k_f, kt)

    cx.step("occupation integral", lambda: integral() / scale, want / scale, tol=1e-6)
    ef = (hbar * k_f) ** 2 / (2 * electron_mass)
    s = np.linspace(-9, 9, 37)
    k = np.sqrt(2 * electron_mass * (ef + s * kt)) / hbar
    cx.step(
        "integrand",
        lambda: hg.get_hermitian_gamma_occupation_integrand(k, omega=omega, k_f=k_f, boltzmann_energy=kt),
        1 / (1 + np.exp(s)) / (1 + np.exp(-(s + cfg["omega"]))),
    )

    def pot(f):
        return complex(hg.calculate_hermitian_gamma_potential_integral(k_f, lambda q: np.asarray(f(q))))

    a = lambda q: np.exp(-((q / k_f) ** 2)) * (1 + 0j)  # noqa: E731
    b = lambda q: (0.5 - 2j) * np.cos(q / k_f)  # noqa: E731
    ok, va = cx.run("potential integral", lambda: pot(a))
    ok2, vb = cx.run("potential integral", lambda: pot(b))
    if ok and ok2:
        size = abs(va)
        # Whether q is the transfer of momentum between states of wavevector k_f or half of it is not claimed.
        wants = [[scattering_integral(k_f, f, c) for f in (a, b)] for c in (1, 2)]
        cx.holds("scattering from an atom", any(np.allclose([va, vb], w, rtol=1e-6, atol=0) for w in wants),
                 f"{va}, {vb}: neither of {wants}")
        cx.holds("positive", va.real > 0 and abs(va.imag) < 1e-9 * size, repr(va))
        cx.step("linear", lambda: pot(lambda q: 2 * a(q) - 3j * b(q)) / size, (2 * va - 3j * vb) / size, tol=1e-6)
        cx.step("conjugate", lambda: pot(lambda q: np.conj(b(q))) / size, np.conj(vb) / size, tol=1e-6)
        cx.step("real overlap", lambda: pot(lambda q: np.exp(-((q / k_f) ** 2))) / size, va / size, tol=1e-6)
        cx.step(
            "gamma",
            lambda: complex(hg.calculate_real_gamma_integral(omega=omega, k_f=k_f, boltzmann_energy=kt, overlap=lambda q: np.asarray(b(q)))) / (size * scale),
            vb * want / (size * scale),
            tol=1e-6,
        )
    cx.state(cfg)
    cx.trace()
