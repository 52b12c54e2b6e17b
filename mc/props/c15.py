"""C15: every representation of a noise kernel describes the same correlations."""

from __future__ import annotations

import itertools
import json
import math

import numpy as np
from scipy.constants import Boltzmann, hbar

from mc import ref
from mc.core import Cx, Property, cdata, hermitian, quiet, rdata
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import build as kb
from surface_potential_analysis.kernel import conversion as kc
from surface_potential_analysis.kernel import gaussian as kg
from surface_potential_analysis.kernel import kernel as kk
from surface_potential_analysis.kernel import lorentzian as kl
from surface_potential_analysis.kernel import sample as ks
from surface_potential_analysis.kernel import solve as so

PROP = Property(
    "C15",
    rule="Every isotropic correlation function over a small alphabet of values on grids up to the bound, every "
    "two-point kernel over a small alphabet, generic kernels up to the size bound, every truncation, and every "
    "chain of conversions between representations.",
)


def flat(x):
    return np.asarray(x).reshape(-1)


def square(b):
    return TupleBasis(b, b)


def kbasis(b):
    return TupleBasis(square(b), square(b))


def full_of(eig, ops):
    """Correlations of the noise operators, from the definition."""
    return np.einsum("a,aji,akl->ijkl", np.asarray(eig), np.conj(ops), ops)


def diag_of(eig, ops):
    return np.einsum("a,ai,aj->ij", np.asarray(eig), np.conj(ops), ops)


def ops_of(o, *shape):
    eig = flat(o["eigenvalue"])
    k = int(o["basis"][0].n)
    assert k == eig.size, f"{k} operators but {eig.size} eigenvalues"
    return eig, np.asarray(o["data"]).reshape(k, *shape)


def reproduces(cx: Cx, what: str, o, want, tol=1e-8) -> None:
    """The operators generate the diagonal kernel."""
    n = want.shape[0]
    try:
        eig, ops = ops_of(o, n)
    except (AssertionError, ValueError) as e:
        cx.fail(what, str(e))
        return
    scale = float(np.max(np.abs(want))) or 1.0
    cx.same(what, diag_of(eig, ops) / scale, want / scale, tol)


# -- full and diagonal kernels --------------------------------------------------------

VALUES = (0.0, 1.0, -0.5, 2.0 + 1j)


def diag_kernels(n: int):
    """Hermitian matrices: all of them over an alphabet for n = 2, patterns for more."""
    if n == 1:
        return [np.array([[v]]) + 0j for v in (0.0, 1.0, -2.0)]
    if n == 2:
        return [np.array([[a, c], [np.conj(c), b]]) + 0j for a in (0.0, 1.0, 2.0) for b in (0.0, 1.0) for c in VALUES]
    out = [hermitian(n, "dk"), np.eye(n) + 0j, np.ones((n, n)) + 0j, np.diag(np.arange(n)) + 0j]
    band = 2 * np.eye(n) + np.eye(n, k=1) + np.eye(n, k=-1) + 0j
    low = cdata((n, n - 1), "low")
    return [*out, band, low @ low.conj().T]


def roots_diag(tier: str):
    for n in range(1, 5 if tier == "quick" else 7):
        for i in range(len(diag_kernels(n))):
            for scale in (1.0, 1e-25, 1e20):
                yield {"n": n, "i": i, "scale": scale}


def subsets(n: int):
    """Every ordered choice of up to n ranks (bounded)."""
    for r in range(1, n + 1):
        yield from itertools.permutations(range(n), r)
        if n > 3:
            break
    if n > 3:
        yield tuple(range(n))
        yield tuple(range(n - 1))
        yield tuple(range(1, n, 2))


@PROP.family("diagonal kernels", roots_diag)
def diagonal(cfg, cx: Cx) -> None:
    n, scale = cfg["n"], cfg["scale"]
    unit = diag_kernels(n)[cfg["i"]]
    d = unit * scale
    b = FundamentalBasis(n)
    kernel = {"basis": kbasis(b), "data": flat(d).copy()}
    want_full = np.zeros((n, n, n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            want_full[i, i, j, j] = unit[i, j]
    ok, full = cx.run("as full", lambda: kk.as_full_kernel_from_diagonal(kernel))
    if ok:
        cx.same("as full", flat(full["data"]) / scale, flat(want_full))
        cx.step("and back", lambda: flat(kk.as_diagonal_kernel_from_full(full)["data"]) / scale, flat(unit))
    ok, ops = cx.run("operators", lambda: so.get_periodic_noise_operators_diagonal_eigenvalue(kernel))
    if ok:
        reproduces(cx, "operators reproduce the kernel", ops, d)
        eig, vec = ops_of(ops, n)
        cx.same("independent operators", vec @ vec.conj().T, np.eye(n))
        cx.same("strengths", np.sort(eig) / scale, np.linalg.eigvalsh(unit))
        cx.step("kernel of operators", lambda: flat(kk.get_diagonal_kernel_from_diagonal_operators(ops)["data"]) / scale,
                flat(unit))
        ok, fo = cx.run("full operators", lambda: kk.as_noise_operators_from_diagonal(ops))
        if ok:
            cx.same("full operators", np.asarray(fo["data"]).reshape(n, n, n), np.einsum("ai,ij->aij", vec, np.eye(n)))
            cx.step("full kernel of operators", lambda: flat(kk.get_full_kernel_from_operators(fo)["data"]) / scale,
                    flat(want_full))
            cx.step("diagonal kernel of full operators",
                    lambda: flat(kk.get_diagonal_kernel_from_operators(fo)["data"]) / scale, flat(unit))
            ok, back = cx.run("diagonal operators", lambda: kk.as_diagonal_noise_operators_from_full(fo))
            if ok:
                cx.same("diagonal operators", [flat(back["data"]), flat(back["eigenvalue"]) / scale], [flat(vec), eig / scale])
        ok, fo2 = cx.run("operators of full kernel", lambda: so.get_periodic_noise_operators_eigenvalue(full))
        if ok:
            e2, v2 = ops_of(fo2, n, n)
            cx.same("operators of full kernel", full_of(e2 / scale, v2), want_full)
        order = np.argsort(np.abs(eig))[::-1]
        psd = np.linalg.eigvalsh(unit)[0] > -1e-9
        distinct = n == 1 or np.min(np.diff(np.sort(np.abs(eig)))) > 1e-6 * scale
        for keep in subsets(n):
            sel = order[list(keep)]
            with cx.at(f"keep={keep}"):
                for form in (tuple(keep), list(keep), (k for k in keep)):
                    ok, t = cx.run("truncate operators", lambda: kb.truncate_diagonal_noise_operator_list(ops, form))
                    if ok:
                        cx.same("truncate operators", [flat(t["eigenvalue"]) / scale, flat(t["data"])], [eig[sel] / scale, flat(vec[sel])])
                        cx.same("truncate count", int(t["basis"][0].n), len(keep))
                if distinct:
                    part = diag_of(eig[sel], vec[sel]) / scale
                    cx.step("truncate kernel", lambda: flat(kb.truncate_diagonal_noise_kernel(kernel, keep)["data"]) / scale, flat(part))
                if psd and ok:
                    ok, t = cx.run("truncate full operators", lambda: kb.truncate_noise_operator_list(fo, keep))
                    if ok and distinct:
                        cx.same("truncate full operators", flat(t["eigenvalue"]) / scale, eig[sel] / scale)
                        fopart = np.einsum("ai,ij->aij", vec[sel], np.eye(n))
                        cx.step("kernel of truncated", lambda: flat(kk.get_full_kernel_from_operators(t)["data"]) / scale,
                                flat(full_of(eig[sel] / scale, fopart)))
            cx.trace()
    cx.same("unchanged", kernel["data"] / scale, flat(unit))


def full_kernels(n: int):
    out = [hermitian(n * n, "fk"), np.eye(n * n) + 0j, np.diag(np.arange(n * n)) + 0j]
    low = cdata((n * n, max(1, n * n - 2)), "fl")
    return [*out, low @ low.conj().T]


def roots_full(tier: str):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for i in range(4):
            for scale in (1.0, 1e-25, 1e20):
                yield {"n": n, "i": i, "scale": scale}


@PROP.family("full kernels", roots_full)
def full(cfg, cx: Cx) -> None:
    n, scale = cfg["n"], cfg["scale"]
    m = full_kernels(n)[cfg["i"]]
    unit = m.reshape(n, n, n, n).swapaxes(0, 1)  # G_ij,kl = M_ji,kl
    b = FundamentalBasis(n)
    kernel = {"basis": kbasis(b), "data": flat(unit) * scale}
    ok, ops = cx.run("operators", lambda: so.get_periodic_noise_operators_eigenvalue(kernel))
    if ok:
        eig, vec = ops_of(ops, n, n)
        cx.same("operators reproduce the kernel", full_of(eig / scale, vec), unit)
        cx.same("independent operators", vec.reshape(n * n, -1) @ vec.reshape(n * n, -1).conj().T, np.eye(n * n))
        cx.step("kernel of operators", lambda: flat(kk.get_full_kernel_from_operators(ops)["data"]) / scale, flat(unit))
        cx.step("diagonal part", lambda: flat(kk.as_diagonal_kernel_from_full(kernel)["data"]) / scale,
                flat(np.einsum("iijj->ij", unit)))
        if np.linalg.eigvalsh(m)[0] > -1e-9 and (n == 1 or np.min(np.diff(np.sort(eig))) > 1e-6 * scale):
            order = np.argsort(eig)[::-1]
            for keep in subsets(n * n) if n < 3 else [(0,), (1, 0), tuple(range(n * n)), tuple(range(n))]:
                sel = order[list(keep)]
                cx.step("truncate kernel", lambda: flat(kb.truncate_noise_kernel(kernel, keep)["data"]) / scale,
                        flat(full_of(eig[sel] / scale, vec[sel])))
                cx.trace()
    # change of basis
    for spec in (["F", n], ["FM", n], ["X", "orth", max(1, n - 1), ["F", n]], ["M", max(1, n - 1), n]):
        t = ref.states(spec)
        ib = ref.build(spec)
        nb = t.shape[0]

        def moved(g):
            # L' = conj(t) L t^T on every operator
            return np.einsum("ijkl,ai,bj,ck,dl->abcd", g, np.conj(t), t, np.conj(t), t)

        with cx.at(json.dumps(spec)):
            ok, got = cx.run("convert", lambda: kc.convert_kernel_to_basis(kernel, square(ib)))
            if ok:
                cx.same("convert", flat(got["data"]) / scale, flat(moved(unit)), 1e-7)
                cx.same("convert basis", [int(x.n) for x in got["basis"]], [nb * nb] * 2)
            d = np.einsum("iijj->ij", unit)
            fd = np.zeros_like(unit)
            for i in range(n):
                for j in range(n):
                    fd[i, i, j, j] = d[i, j]
            dk = {"basis": kbasis(b), "data": flat(d) * scale}
            ok, got = cx.run("convert diagonal", lambda: kc.convert_diagonal_kernel_to_basis(dk, square(ib)))
            if ok:
                cx.same("convert diagonal", flat(got["data"]) / scale, flat(moved(fd)), 1e-7)
            iso = cdata((n,), "iso") * scale
            cx.step("convert isotropic", lambda: flat(kc.convert_isotropic_kernel_to_basis(
                {"basis": b, "data": iso}, ib)["data"]) / scale, iso @ np.conj(t).T / scale)
            for k in (1, 3):
                lo = {"basis": TupleBasis(FundamentalBasis(k), square(b)), "data": flat(cdata((k, n, n), "lo")),
                      "eigenvalue": rdata((k,), "ev")}
                ok, got = cx.run("convert operators", lambda: kc.convert_noise_operator_list_to_basis(lo, square(ib)))
                if ok:
                    cx.same("convert operators", flat(got["data"]),
                            flat(np.einsum("kij,ai,bj->kab", lo["data"].reshape(k, n, n), np.conj(t), t)))
                    cx.same("convert strengths", flat(got["eigenvalue"]), lo["eigenvalue"])
                ld = {"basis": TupleBasis(FundamentalBasis(k), square(b)), "data": flat(cdata((k, n), "ld")),
                      "eigenvalue": rdata((k,), "ev")}
                ok, got = cx.run("convert diagonal operators", lambda: kc.convert_diagonal_noise_operator_list_to_basis(ld, square(ib)))
                if ok:
                    cx.same("convert diagonal operators", flat(got["data"]),
                            flat(np.einsum("ki,ai,bi->kab", ld["data"].reshape(k, n), np.conj(t), t)))
            cx.trace()
    cx.same("unchanged", kernel["data"] / scale, flat(unit))


# -- isotropic kernels ------------------------------------------------------------------


def betas(n: int, *, real: bool):
    """Every correlation function over an alphabet, beta(-x) = conj(beta(x))."""
    half = n // 2
    inner = (0.0, 0.5, -0.25) if real else (0.0, 0.5, -0.25j, 0.3 + 0.2j)
    free = (n - 1) // 2
    for c0 in (1.0, 2.0):
        for vals in itertools.product(inner, repeat=free):
            for nyq in (0.0, 0.3) if n % 2 == 0 else (None,):
                out = np.zeros(n, dtype=complex)
                out[0] = c0
                for i, v in enumerate(vals):
                    out[1 + i] = v
                    out[n - 1 - i] = np.conj(v)
                if nyq is not None:
                    out[half] = nyq
                yield out
    yield np.ones(n, dtype=complex)
    yield np.array([3.0 + np.cos(2 * np.pi * i / n) for i in range(n)]) + 0j


def roots_iso(tier: str):
    for n in range(1, 7 if tier == "quick" else 10):
        for real in (True, False):
            for basis in ("F", "FP"):
                yield {"n": n, "real": real, "basis": basis}


def iso_matrix(beta):
    n = len(beta)
    return np.array([[beta[(i - j) % n] for j in range(n)] for i in range(n)])


def clipped(beta, fn: int):
    """The fn points around the origin, continued periodically."""
    n = len(beta)
    keep = {int(f) % fn: beta[int(f) % n] for f in ref.freqs(fn)}
    return np.array([[keep[(i - j) % fn] for j in range(n)] for i in range(n)])


@PROP.family("isotropic kernels", roots_iso)
def isotropic(cfg, cx: Cx) -> None:
    n = cfg["n"]
    spec = ["F", n] if cfg["basis"] == "F" else ["FP", [2.5], n]
    b = ref.build(spec)
    for j, beta in enumerate(betas(n, real=cfg["real"])):
        kernel = {"basis": b, "data": beta.copy()}
        want = iso_matrix(beta)
        cx.state(n, beta)
        with cx.at(f"beta={np.round(beta, 3).tolist()}"):
            ok, d = cx.run("as diagonal", lambda: kk.as_diagonal_kernel_from_isotropic(kernel))
            if ok:
                cx.same("as diagonal", flat(d["data"]), flat(want))
                for flag in (True, False):
                    cx.step("and back", lambda: flat(kk.as_isotropic_kernel_from_diagonal(d, assert_isotropic=flag)["data"]), beta)
                ok, eo = cx.run("eigenvalue operators", lambda: so.get_periodic_noise_operators_diagonal_eigenvalue(d))
                if ok:
                    reproduces(cx, "eigenvalue operators", eo, want)
                    cx.step("isotropic kernel of eigenvalue operators",
                            lambda: flat(kk.get_isotropic_kernel_from_diagonal_operators(eo)["data"]), beta)
            ok, op = cx.run("fourier operators", lambda: so.get_periodic_noise_operators_isotropic_fft(kernel))
            if ok:
                reproduces(cx, "fourier operators", op, want)
                cx.same("real strengths", np.imag(flat(op["eigenvalue"])), np.zeros(n))
                for flag in (True, False):
                    cx.step("isotropic kernel of operators", lambda: flat(kk.get_isotropic_kernel_from_diagonal_operators(
                        op, assert_isotropic=flag)["data"]), beta)
                cx.step("isotropic kernel of full operators", lambda: flat(kk.get_isotropic_kernel_from_operators(
                    kk.as_noise_operators_from_diagonal(op))["data"]), beta)
            for fn in range(1, n + 1):
                if n % fn == 0:
                    ok, op = cx.run("clipped fourier operators", lambda: so.get_periodic_noise_operators_isotropic_fft(
                        kernel, fundamental_n=fn))
                    if ok:
                        reproduces(cx, f"fourier operators of {fn} points", op, clipped(beta, fn))
                        cx.same("clipped count", int(op["basis"][0].n), fn)
                else:
                    refuses(cx, "not periodic", lambda: so.get_periodic_noise_operators_isotropic_fft(kernel, fundamental_n=fn))
                    ok, op = cx.run("short fourier operators", lambda: so.get_periodic_noise_operators_isotropic_fft(
                        kernel, fundamental_n=fn, assert_periodic=False))
                    if ok:
                        within(cx, f"fourier operators of {fn} points", op, want, (fn,))
            if cfg["real"]:
                ok, op = cx.run("real fourier operators", lambda: so.get_periodic_noise_operators_real_isotropic_fft(kernel))
                if ok:
                    reproduces(cx, "real fourier operators", op, want)
                    cx.same("real operators", np.imag(flat(op["data"])), np.zeros(flat(op["data"]).shape))
                # as the kernel of complex operators is: real, but for rounding
                rounded = {**kernel, "data": kernel["data"] + 1e-15j * np.max(np.abs(beta)) * np.sin(2 * np.pi * np.arange(n) / n)}
                ok, op = cx.run("operators of a rounded kernel", lambda: so.get_periodic_noise_operators_real_isotropic_fft(rounded))
                if ok:
                    reproduces(cx, "operators of a rounded kernel", op, want)
                for m in range(n):
                    if n % (2 * m + 1) == 0:
                        ok, op = cx.run("clipped real operators", lambda: so.get_periodic_noise_operators_real_isotropic_fft(kernel, n=m))
                        if ok:
                            reproduces(cx, f"real operators of {2 * m + 1} points", op, clipped(beta, 2 * m + 1))
                    else:
                        refuses(cx, "not periodic", lambda: so.get_periodic_noise_operators_real_isotropic_fft(kernel, n=m))
                        if 2 * m + 1 <= n:
                            ok, op = cx.run("short real operators", lambda: so.get_periodic_noise_operators_real_isotropic_fft(
                                kernel, n=m, assert_periodic=False))
                            if ok:
                                within(cx, f"real operators of {2 * m + 1} points", op, want, (2 * m + 1,))
            if cfg["real"] and cfg["basis"] == "FP" and n > 1:
                for m in [None, *range((n + 1) // 2)]:
                    ok, op = cx.run("fitted operators", lambda: so.get_periodic_noise_operators_real_isotropic_taylor_expansion(kernel, n=m))
                    if ok:
                        try:
                            eig, vec = ops_of(op, n)
                        except (AssertionError, ValueError) as e:
                            cx.fail("fitted operators", str(e))
                            continue
                        reach = n if m is None else m
                        dist = np.array([[min((i - k) % n, (k - i) % n) for k in range(n)] for i in range(n)])
                        got = diag_of(eig, vec)
                        cx.same(f"fitted operators, m={m}", np.where(dist <= reach, got, 0), np.where(dist <= reach, want, 0), 1e-6)
                        cx.same("fitted kernel is isotropic", got, iso_matrix(got[:, 0]), 1e-6)
        cx.same("unchanged", kernel["data"], beta)
        cx.trace()


def refuses(cx, what, fn):
    """Operators which do not fit the cell are only made when asked for."""
    try:
        with quiet():
            fn()
    except AssertionError:
        cx.transitions += 1
        return
    except Exception as e:  # noqa: BLE001
        cx.fail(what, f"{type(e).__name__}: {str(e)[:200]}")
        return
    cx.fail(what, "operators which are not periodic were accepted")


def within(cx, what, op, want, sizes, shape=None):
    """The noise of points nearer to each other than half the sample is that of the kernel."""
    shape = (want.shape[0],) if shape is None else shape
    try:
        eig, vec = ops_of(op, want.shape[0])
    except (AssertionError, ValueError) as e:
        cx.fail(what, str(e))
        return
    pts = np.array(list(itertools.product(*(ref.freqs(m) for m in shape))))
    # Places are counted from -n/2 to n/2 and displacements not wrapped: the operators have another period than the cell.
    near = np.all(2 * np.abs(pts[:, None] - pts[None]) < np.array(sizes), axis=-1)
    got = diag_of(eig, vec)
    cx.same(what, np.where(near, got, 0), np.where(near, want, 0), 1e-7)


def roots_stacked(tier: str):
    shapes = [(1,), (3,), (4,), (2, 2), (2, 3), (3, 4), (1, 3), (2, 3, 2)]
    for shape in shapes if tier == "quick" else [*shapes, (4, 4), (5, 3), (3, 2, 4), (2, 2, 2, 2)]:
        for real in (True, False):
            yield {"shape": list(shape), "real": real}


@PROP.family("stacked isotropic kernels", roots_stacked)
def stacked(cfg, cx: Cx) -> None:
    shape = tuple(cfg["shape"])
    nd, n = len(shape), int(np.prod(shape))
    dx = np.diag([1.0, 2.5, 0.7, 1.9][:nd])
    basis = ref.build(["S", [["FP", d.tolist(), m] for d, m in zip(dx, shape)]])
    pts = list(itertools.product(*(range(m) for m in shape)))
    index = {p: i for i, p in enumerate(pts)}

    def spread(beta):
        return np.array([[beta[index[tuple((a - b) % m for a, b, m in zip(p, q, shape))]] for q in pts] for p in pts])

    axis_betas = [list(betas(m, real=cfg["real"])) for m in shape]
    combos = [[ab[(i * (k + 1)) % len(ab)] for k, ab in enumerate(axis_betas)] for i in range(8)]
    kernels = []
    for ab in combos:
        beta = np.ones(1, dtype=complex)
        for x in ab:
            beta = np.kron(beta, x)
        kernels.append((ab, beta))
    # a correlation function which is not a product of the axes
    g = cdata(shape, "np") if not cfg["real"] else rdata(shape, "np") + 0j
    for ax in range(nd):
        pass
    flip = np.conj(g)
    for ax in range(nd):
        flip = np.take(flip, [(-i) % shape[ax] for i in range(shape[ax])], axis=ax)
    g = g + flip
    if cfg["real"]:  # even along every axis
        for ax in range(nd):
            g = g + np.take(g, [(-i) % shape[ax] for i in range(shape[ax])], axis=ax)
    kernels.append((None, flat(g)))
    for ab, beta in kernels:
        kernel = {"basis": basis, "data": beta.copy()}
        want = spread(beta)
        cx.state(shape, beta)
        ok, d = cx.run("as diagonal", lambda: kk.as_diagonal_kernel_from_isotropic_stacked(kernel))
        if ok:
            cx.same("as diagonal", flat(d["data"]), flat(want))
            for flag in (True, False):
                cx.step("and back", lambda: flat(kk.as_isotropic_kernel_from_diagonal_stacked(d, assert_isotropic=flag)["data"]), beta)
            if np.abs(beta[0]) > 0.1:
                bad = want.copy()
                if n > 1:
                    bad[0, n - 1] += 1.0
                    try:
                        kk.as_isotropic_kernel_from_diagonal_stacked({"basis": d["basis"], "data": flat(bad)})
                        cx.fail("isotropic check", "a kernel which is not isotropic was accepted")
                    except AssertionError:
                        cx.transitions += 1
        ok, op = cx.run("fourier operators", lambda: so.get_periodic_noise_operators_isotropic_stacked_fft(kernel))
        if ok:
            reproduces(cx, "fourier operators", op, want)
            cx.step("isotropic kernel of operators", lambda: flat(
                kk.get_isotropic_kernel_from_diagonal_operators_stacked(op)["data"]), beta)
        for fs in itertools.product(*([m for m in range(1, s + 1) if s % m == 0] for s in shape)):
            ok, op = cx.run("clipped operators", lambda: so.get_periodic_noise_operators_isotropic_stacked_fft(
                kernel, fundamental_shape=fs))
            if ok:
                b = beta.reshape(shape)
                keep = np.array([[b[tuple(int(ref.freqs(f)[(x - y) % f]) % m for x, y, f, m in zip(p, q, fs, shape))]
                                  for q in pts] for p in pts])
                reproduces(cx, f"fourier operators of {fs} points", op, keep)
        for fs in itertools.product(*(range(1, s + 1) for s in shape)):
            if all(s % m == 0 for m, s in zip(fs, shape)):
                continue
            refuses(cx, "not periodic", lambda: so.get_periodic_noise_operators_isotropic_stacked_fft(kernel, fundamental_shape=fs))
            ok, op = cx.run("short operators", lambda: so.get_periodic_noise_operators_isotropic_stacked_fft(
                kernel, fundamental_shape=fs, assert_periodic=False))
            if ok:
                within(cx, f"fourier operators of {fs} points", op, want, fs, shape)
            if ab is not None:
                refuses(cx, "not periodic", lambda: so.get_periodic_noise_operators_real_isotropic_stacked_fft(kernel, fundamental_shape=fs))
                ok, op = cx.run("short operators", lambda: so.get_periodic_noise_operators_real_isotropic_stacked_fft(
                    kernel, fundamental_shape=fs, assert_periodic=False))
                if ok:
                    within(cx, f"operators of axes of {fs} points", op, want, fs, shape)
        if ab is not None:
            axis = tuple({"basis": basis[i], "data": x.copy()} for i, x in enumerate(ab))
            ok, got = cx.run("from axes", lambda: kk.as_isotropic_kernel_from_axis(axis))
            if ok:
                cx.same("from axes", flat(got["data"]), beta)
                cx.same("from axes basis", [int(x.n) for x in got["basis"]], list(shape))
            ok, got = cx.run("to axes", lambda: kk.as_axis_kernel_from_isotropic(kernel))
            if ok:
                cx.same("to axes count", len(got), nd)
                for i in range(nd):
                    share = np.prod([ab[j][0] for j in range(nd)]) ** ((1 - nd) / nd) * np.prod(
                        [ab[j][0] for j in range(nd) if j != i])
                    cx.same("to axes", flat(got[i]["data"]), ab[i] * share)
                cx.step("axes and back", lambda: flat(kk.as_isotropic_kernel_from_axis(got)["data"]), beta)
            per = tuple(so.get_periodic_noise_operators_isotropic_fft(a) for a in axis)
            ok, op = cx.run("operators of axes", lambda: kk.get_diagonal_noise_operators_from_axis(per))
            if ok:
                reproduces(cx, "operators of axes", op, want)
            for fs in (None, shape):
                ok, op = cx.run("axis fourier operators", lambda: so.get_periodic_noise_operators_real_isotropic_stacked_fft(
                    kernel, fundamental_shape=fs))
                if ok:
                    reproduces(cx, "axis fourier operators", op, want)
            if cfg["real"] and min(shape) > 1:
                ok, op = cx.run("axis fitted operators", lambda: so.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion(kernel))
                if ok:
                    reproduces(cx, "axis fitted operators", op, want, 1e-6)
        cx.same("unchanged", kernel["data"], beta)
        cx.trace()


# -- kernels with a physical form ----------------------------------------------------------


def roots_form(tier: str):
    shapes = [(1,), (2,), (5,), (6,), (2, 3), (3, 3), (4, 2), (2, 2, 3)]
    for shape in shapes if tier == "quick" else [*shapes, (9,), (5, 4), (3, 4, 2)]:
        for a, lam in ((1.0, 0.4), (2.0, 1.5), (1e12, 0.2)):
            yield {"shape": list(shape), "a": a, "lam": lam}


LEN = [1.0, 2.5, 0.7]


@PROP.family("gaussian and lorentzian kernels", roots_form)
def forms(cfg, cx: Cx) -> None:
    shape, a, lam = tuple(cfg["shape"]), cfg["a"], cfg["lam"]
    nd, n = len(shape), int(np.prod(shape))
    dx = np.diag(LEN[:nd])
    a2 = a * a
    grid = np.array([[i * LEN[k] / shape[k] for k, i in enumerate(p)] for p in itertools.product(*(range(m) for m in shape))])

    def dist2(p, q):
        out = 0.0
        for k in range(nd):
            d = abs(p[k] - q[k])
            out += min(d, LEN[k] - d) ** 2
        return out

    d2 = np.array([[dist2(p, q) for q in grid] for p in grid])
    gauss, lor = np.exp(-d2 / (2 * lam**2)), lam**2 / (d2 + lam**2)
    specs = [["S", [[kind, d.tolist(), m] for d, m in zip(dx, shape)]] for kind in ("FP", "FMP")]
    if nd > 1:
        specs.append(["S", [["FP" if i else "FMP", d.tolist(), m] for i, (d, m) in enumerate(zip(dx, shape))]])
    for spec in specs:
        basis = ref.build(spec)
        with cx.at(json.dumps(spec)):
            cx.step("gaussian", lambda: flat(kg.get_gaussian_isotropic_noise_kernel(basis, a, lam)["data"]) / a2, gauss[:, 0])
            ok, got = cx.run("gaussian matrix", lambda: kg.get_gaussian_noise_kernel(basis, a, lam))
            if ok:
                cx.same("gaussian matrix", flat(got["data"]) / a2, flat(gauss))
            ok, got = cx.run("gaussian axes", lambda: kg.get_gaussian_axis_noise_kernel(basis, a, lam))
            if ok:
                cx.same("gaussian axes", [flat(k["data"]) / a2 for k in got], [
                    np.array([math.exp(-min(i * LEN[k] / m, LEN[k] - i * LEN[k] / m) ** 2 / (2 * lam**2)) for i in range(m)])
                    for k, m in enumerate(shape)])
            cx.step("lorentzian", lambda: flat(kl.get_lorentzian_isotropic_noise_kernel(basis, a, lam)["data"]) / a2, lor[:, 0])
            ok, op = cx.run("gaussian operators", lambda: kg.get_gaussian_noise_operators_periodic(basis, a, lam))
            if ok:
                reproduces(cx, "gaussian operators", op, a2 * gauss)
                eig, vec = ops_of(op, n)
                cx.holds("strongest first", np.all(np.diff(np.abs(eig)) <= 1e-9 * np.max(np.abs(eig))), "operators are not sorted")
                for keep in (1, n, max(1, n // 2)):
                    ok, t = cx.run("truncated gaussian operators", lambda: kg.get_gaussian_noise_operators_periodic(
                        basis, a, lam, truncation=range(keep)))
                    if ok:
                        e2, _ = ops_of(t, n)
                        cx.same("truncated gaussian operators", np.sort(np.abs(e2)) / a2, np.sort(np.abs(eig[:keep])) / a2)
            for fn, name in ((lambda x: np.exp(-np.abs(x)), "exp"), (lambda x: np.cos(x) + 2.0, "cos")):
                cx.step("from function " + name, lambda: flat(kb.build_isotropic_kernel_from_function_stacked(basis, fn)["data"]),
                        fn(np.sqrt(d2[:, 0])))
            # friction coefficient
            for eta, temp, factor in ((1.0, 100.0, None), (3.0, 10.0, 2.0)):
                kw = {} if factor is None else {"lambda_factor": factor}
                mu2 = 2 * eta * Boltzmann * temp / hbar**2
                for fun, name, size in ((kg.get_effective_gaussian_parameters, "gaussian", 1.0),
                                        (kl.get_effective_lorentzian_parameter, "lorentzian", 0.5)):
                    ok, got = cx.run(f"effective {name}", lambda: fun(basis, eta, temp, **kw))
                    if ok:
                        lam_e = min(LEN[:nd]) * size / (factor or 2 * math.sqrt(2))
                        cx.same(f"effective {name} length", float(got[1]), lam_e)
                        cx.same(f"effective {name} friction", float(got[0] ** 2 / got[1] ** 2 / mu2), 1.0)
                lam_e = min(LEN[:nd]) / (factor or 2 * math.sqrt(2))
                ge = np.exp(-d2 / (2 * lam_e**2))
                cx.step("effective kernel", lambda: flat(kg.get_effective_gaussian_isotropic_noise_kernel(
                    basis, eta, temp, **kw)["data"]) / (mu2 * lam_e**2), ge[:, 0])
                cx.step("effective matrix", lambda: flat(kg.get_effective_gaussian_noise_kernel(
                    basis, eta, temp, **kw)["data"]) / (mu2 * lam_e**2), flat(ge))
                if factor is None:
                    ok, op = cx.run("effective operators", lambda: kg.get_effective_gaussian_noise_operators_periodic(basis, eta, temp))
                    if ok:
                        reproduces(cx, "effective operators", op, mu2 * lam_e**2 * ge)
            cx.trace()
    if nd == 1:
        for spec in (["FP", [LEN[0]], n], ["FMP", [LEN[0]], n]):
            b1 = ref.build(spec)
            x = grid[:, 0]
            w = np.where(x > LEN[0] / 2, x - LEN[0], x)
            inside = np.abs(np.abs(w) - LEN[0] / 2) > 1e-9
            for fn in (lambda y: np.exp(-np.abs(y)) + 0j, lambda y: np.exp(3j * y), lambda y: np.sin(y) * 1j + np.cos(y)):
                ok, got = cx.run("from function", lambda: kb.build_isotropic_kernel_from_function(b1, fn))
                if ok:
                    cx.same("from function", flat(got["data"])[inside], fn(w)[inside])


def roots_isotropic(tier: str):
    for dim, lats in ref.SKEWED.items():
        top = {2: 4, 3: 2}[dim] + (tier == "thorough")
        for lat in lats:
            for shape in itertools.product(range(1, top + 1), repeat=dim):
                for lam in (0.25, 0.6):
                    yield {"dim": dim, "lat": lat, "shape": list(shape), "lam": lam}


@PROP.family("isotropic in skewed lattices", roots_isotropic)
def isotropic_skewed(cfg, cx: Cx) -> None:
    """The correlation between two points depends on the distance between them along the shortest way."""
    dim, shape, lam = cfg["dim"], cfg["shape"], cfg["lam"]
    dx = np.array(ref.SKEWED[dim][cfg["lat"]], dtype=float)
    points = np.array(list(itertools.product(*(range(n) for n in shape)))).T
    xs = np.tensordot(dx.T, points / np.array(shape)[:, None], axes=(1, 0))
    dist = ref.shortest(xs[:, :, None] - xs[:, None, :], dx)
    a = 1.7
    gauss, lor = a**2 * np.exp(-dist**2 / (2 * lam**2)), a**2 * lam**2 / (dist**2 + lam**2)
    for kinds in (["FP"] * dim, ["FMP"] * dim):
        basis = ref.build(["S", [[k, d.tolist(), n] for k, d, n in zip(kinds, dx, shape)]])
        with cx.at(str(kinds)):
            cx.step("gaussian", lambda: flat(kg.get_gaussian_isotropic_noise_kernel(basis, a, lam)["data"]), gauss[:, 0])
            cx.step("gaussian matrix", lambda: flat(kg.get_gaussian_noise_kernel(basis, a, lam)["data"]), flat(gauss))
            cx.step("lorentzian", lambda: flat(kl.get_lorentzian_isotropic_noise_kernel(basis, a, lam)["data"]), lor[:, 0])
            for fn, name in ((lambda x: np.exp(-np.abs(x)), "exp"), (lambda x: np.cos(x) + 2.0, "cos")):
                cx.step("from function " + name, lambda: flat(kb.build_isotropic_kernel_from_function_stacked(basis, fn)["data"]),
                        fn(dist[:, 0]))
            ok, op = cx.run("gaussian operators", lambda: kg.get_gaussian_noise_operators_periodic(basis, a, lam))
            if ok:
                reproduces(cx, "gaussian operators", op, gauss)
        cx.state(cfg["lat"], shape, lam, kinds[0])
        cx.trace()


def roots_taylor(tier: str):
    for n in range(1, 9 if tier == "quick" else 14):
        for lam in (0.35, 1.0, 4.0):
            yield {"n": n, "lam": lam}


def cos_series(poly):
    """Coefficients of cosines with the given Taylor series in x^2 at the origin."""
    m = len(poly)
    mat = np.array([[(-1) ** p * float(i) ** (2 * p) / math.factorial(2 * p) if (i or p == 0) else 0.0
                     for i in range(m)] for p in range(m)])
    return mat


# Coefficients of x^0, x^2, x^4 ... some of which vanish.
GAPS = ([1.2, 0.0, 0.4], [0.0, 0.5], [1.0, 0.0, 0.0, 0.3], [-1.0, 0.0, -0.5], [0.0])


@PROP.family("expansions about the origin", roots_taylor)
def taylor(cfg, cx: Cx) -> None:
    n, lam = cfg["n"], cfg["lam"]
    length = 2.5
    a = 1.3
    b1 = ref.build(["FP", [length], n])
    s1 = ref.build(["S", [["FP", [length], n]]])
    nl = 2 * np.pi * lam / length
    for terms in [None, 1, 2, 3, 4]:
        m = n // 2 if terms is None else terms
        if m == 0:
            continue
        gp = np.array([a * a * (-1 / (2 * nl**2)) ** i / math.factorial(i) for i in range(m)])
        lp = np.array([a * a * (-1 / nl**2) ** i for i in range(m)])
        with cx.at(f"terms={terms}"):
            for name, poly, fn in (
                ("gaussian", gp, lambda: kg.get_periodic_gaussian_operators_explicit_taylor(b1, a, lam, n_terms=terms)),
                ("lorentzian", lp, lambda: kl.get_lorentzian_operators_explicit_taylor(a, lam, s1, n_terms=terms)),
                ("explicit", gp, lambda: so.get_periodic_noise_operators_explicit_taylor_expansion(b1, gp, n_terms=terms)),
                ("explicit short", gp[:1], lambda: so.get_periodic_noise_operators_explicit_taylor_expansion(b1, gp[:1], n_terms=terms)),
                *((f"explicit with zeros {i}", np.array(poly), lambda poly=poly: so.get_periodic_noise_operators_explicit_taylor_expansion(
                    b1, np.array(poly), n_terms=terms)) for i, poly in enumerate(GAPS)),
            ):
                ok, op = cx.run(name, fn)
                if not ok:
                    continue
                try:
                    eig, vec = ops_of(op, n)
                except (AssertionError, ValueError) as e:
                    cx.fail(name, str(e))
                    continue
                c = np.real(eig[:m]) / n
                cx.same(name + " count", len(eig), 2 * m - 1)
                mat = cos_series(poly)
                k = min(len(poly), m)
                small = (np.abs(poly[:k]) <= 1e-7 * np.max(poly)) & ("zeros" not in name)
                if not small.any():
                    full_c = np.linalg.solve(mat[:k, :k], poly[:k])
                    cx.same(name + " expansion", c, np.concatenate([full_c, np.zeros(m - k)]), 1e-6)
                    x = 2 * np.pi * (np.arange(n)[:, None] - np.arange(n)[None, :]) / n
                    reproduces(cx, name + " kernel", op, sum(full_c[i] * np.cos(i * x) for i in range(k)) + 0j, 1e-6)
            ok, op = cx.run("linear", lambda: kg.get_linear_gaussian_noise_operators_explicit_taylor(b1, a, lam, n_terms=m))
            if ok:
                eig, vec = ops_of(op, n)
                cx.same("linear strengths", eig, gp)
                d = 2 * np.pi * np.array([(n // 2 - i + n // 2) % n - n // 2 for i in range(n)]) / n
                cx.same("linear operators", vec, np.array([d**i for i in range(m)]) + 0j)
            ok, op = cx.run("stacked gaussian", lambda: kg.get_periodic_gaussian_operators_explicit_taylor_stacked(
                s1, a, lam, shape=None if terms is None else (terms,)))
            one = kg.get_periodic_gaussian_operators_explicit_taylor(b1, a, lam, n_terms=terms)
            if ok:
                cx.same("stacked gaussian", [flat(op["eigenvalue"]), flat(op["data"])], [flat(one["eigenvalue"]), flat(one["data"])])
            s2 = ref.build(["S", [["FP", [length, 0.0], n], ["FP", [0.0, length], 3]]])
            if terms is None:
                # left to itself, every axis is expanded as that axis alone is
                ax = [b1, ref.build(["FP", [length], 3])]
                for name, single, fn in (
                    ("linear", kg.get_linear_gaussian_noise_operators_explicit_taylor,
                     kg.get_linear_gaussian_operators_explicit_taylor_stacked),
                    ("gaussian", kg.get_periodic_gaussian_operators_explicit_taylor,
                     kg.get_periodic_gaussian_operators_explicit_taylor_stacked),
                ):
                    want = np.kron(*[diag_of(*ops_of(single(b, a, lam), b.n)) for b in ax])
                    ok, op = cx.run(f"stacked {name} 2d, terms not given", lambda: fn(s2, a, lam))
                    if ok:
                        reproduces(cx, f"stacked {name} 2d, terms not given", op, want)
            if terms:
                ok, op = cx.run("stacked gaussian 2d", lambda: kg.get_periodic_gaussian_operators_explicit_taylor_stacked(
                    s2, a, lam, shape=(terms, 2)))
                other = kg.get_periodic_gaussian_operators_explicit_taylor(ref.build(["FP", [length], 3]), a, lam, n_terms=2)
                if ok:
                    want = np.kron(diag_of(*ops_of(one, n)), diag_of(*ops_of(other, 3)))
                    reproduces(cx, "stacked gaussian 2d", op, want)
                ok, op = cx.run("stacked linear 2d", lambda: kg.get_linear_gaussian_operators_explicit_taylor_stacked(
                    s2, a, lam, shape=(terms, 2)))
                if ok:
                    l0 = kg.get_linear_gaussian_noise_operators_explicit_taylor(b1, a, lam, n_terms=terms)
                    l1 = kg.get_linear_gaussian_noise_operators_explicit_taylor(ref.build(["FP", [length], 3]), a, lam, n_terms=2)
                    reproduces(cx, "stacked linear 2d", op, np.kron(diag_of(*ops_of(l0, n)), diag_of(*ops_of(l1, 3))))
        cx.trace()


# -- temperature correction and sampling ------------------------------------------------------


def roots_temp(tier: str):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for k in (1, 2, 3):
            yield {"n": n, "k": k}


@PROP.family("temperature correction", roots_temp)
def temperature(cfg, cx: Cx) -> None:
    n, k = cfg["n"], cfg["k"]
    e = rdata((k,), "e")
    kt = 1.0 / Boltzmann
    for ha in (["F", n], ["FM", n], ["X", "orth", n, ["F", n]]):
        for ob in (["F", n], ["FM", n], ["X", "perm", n, ["F", n]]):
            ih, io = ref.build(ha), ref.build(ob)
            h = hermitian(n, "h", json.dumps(ha))
            u = ref.transfer(ha, ob)  # coefficients in ob = coefficients in ha @ u
            h_in_o = np.einsum("ij,ia,jb->ab", h, u, np.conj(u))
            l = cdata((k, n, n), "l")
            l_in_h = np.einsum("kab,ia,jb->kij", l, np.conj(u), u)
            ld = cdata((k, n), "ld")
            ld_full = np.einsum("ki,ij->kij", ld, np.eye(n))
            ham = {"basis": square(ih), "data": flat(h)}
            ops = {"basis": TupleBasis(FundamentalBasis(k), square(io)), "data": flat(l), "eigenvalue": e}
            dops = {"basis": TupleBasis(FundamentalBasis(k), square(io)), "data": flat(ld), "eigenvalue": e}
            for temp in (0.5, 3.0, 1e9):
                t = temp * kt
                with cx.at(json.dumps([ha, ob]), f"kT={temp}"):
                    ok, got = cx.run("correct", lambda: kb.get_temperature_corrected_noise_operators(ham, ops, t))
                    if ok:
                        cx.same("correct", np.asarray(got["data"]).reshape(k, n, n),
                                l_in_h - (h @ l_in_h - l_in_h @ h) / (4 * temp))
                        cx.same("correct strengths", flat(got["eigenvalue"]), e)
                    ok, got = cx.run("correct diagonal", lambda: kb.get_temperature_corrected_diagonal_noise_operators(ham, dops, t))
                    if ok:
                        cx.same("correct diagonal", np.asarray(got["data"]).reshape(k, n, n),
                                ld_full - (h_in_o @ ld_full - ld_full @ h_in_o) / (4 * temp))
                        cx.same("correct diagonal strengths", flat(got["eigenvalue"]), e)
                cx.trace()
            cx.same("unchanged", [flat(ham["data"]), flat(ops["data"]), flat(dops["data"])], [flat(h), flat(l), flat(ld)])
    # gaussian noise in the basis of the Hamiltonian
    for shape in ((3,), (4,), (2, 2)):
        for kind in ("FP", "FMP"):
            spec = ["S", [[kind, d.tolist(), m] for d, m in zip(np.diag(LEN[: len(shape)]), shape)]]
            nn = int(np.prod(shape))
            h = hermitian(nn, "gh")
            ham = {"basis": square(ref.build(spec)), "data": flat(h)}
            fp = ["S", [["FP", d.tolist(), m] for d, m in zip(np.diag(LEN[: len(shape)]), shape)]]
            u = ref.transfer(spec, fp)
            h_x = np.einsum("ij,ia,jb->ab", h, u, np.conj(u))
            for trunc in (None, [0], [1, 0], range(2)):
                raw = kg.get_gaussian_noise_operators_periodic(ham["basis"][0], 2.0, 0.4, truncation=trunc)
                eig, vec = ops_of(raw, nn)
                f = np.einsum("ki,ij->kij", vec, np.eye(nn))
                x = f - (h_x @ f - f @ h_x) / (4 * 1.5)
                want = np.einsum("kab,ia,jb->kij", x, np.conj(u), u)
                ok, got = cx.run("gaussian", lambda: kg.get_temperature_corrected_gaussian_noise_operators(
                    ham, 2.0, 0.4, 1.5 * kt, truncation=trunc))
                if ok:
                    cx.same("gaussian", full_of(*ops_of(got, nn, nn)), full_of(eig, want))
                raw = kg.get_effective_gaussian_noise_operators_periodic(ham["basis"][0], 1e-60, 1.5 * kt, truncation=trunc)
                eig, vec = ops_of(raw, nn)
                f = np.einsum("ki,ij->kij", vec, np.eye(nn))
                x = f - (h_x @ f - f @ h_x) / (4 * 1.5)
                want = np.einsum("kab,ia,jb->kij", x, np.conj(u), u)
                s = np.max(np.abs(eig))
                ok, got = cx.run("effective gaussian", lambda: kg.get_temperature_corrected_effective_gaussian_noise_operators(
                    ham, 1e-60, 1.5 * kt, truncation=trunc))
                if ok:
                    e2, v2 = ops_of(got, nn, nn)
                    cx.same("effective gaussian", full_of(e2 / s, v2), full_of(eig / s, want))
            cx.trace()


class FixedDraws:
    """Stands in for the random generator: a fixed stream of normal deviates."""

    def __init__(self, stream):
        self.stream, self.used = np.asarray(stream, dtype=float), 0

    def standard_normal(self, size=None, *a, **k):
        n = 1 if size is None else int(np.prod(size))
        out = np.zeros(n)
        have = self.stream[self.used : self.used + n]
        out[: len(have)] = have
        self.used += n
        return out[0] if size is None else out.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def with_stream(stream, fn):
    """(what fn returns when the normal deviates are these, how many it took)."""
    original, draws = np.random.default_rng, FixedDraws(stream)
    np.random.default_rng = lambda *a, **kw: draws
    try:
        return fn(), draws.used
    finally:
        np.random.default_rng = original


def second_moments(rows):
    """Of the real and imaginary parts of what each unit deviate gives."""
    z = np.array([np.concatenate([v.real, v.imag]) for v in rows])
    return z.T @ z


def law_is(cx, what, fn, want) -> None:
    """The samples are linear in the deviates, and distributed as those which each unit deviate should give."""
    ok, got = cx.run(what, lambda: with_stream([], fn))
    if not ok or not cx.same(f"{what} without noise", got[0], 0 * want[0]):
        return
    count = got[1]
    if not cx.holds(f"{what} deviates", 0 < count <= 4 * len(want), f"{count} deviates were drawn"):
        return
    rows = []
    for i in range(count):
        ok, got = cx.run(what, lambda: with_stream(np.eye(count)[i], fn))
        if not ok:
            return
        rows.append(got[0])
    cx.same(f"{what} distribution", second_moments(rows), second_moments(want))
    some = rdata((count,), "deviates")
    ok, got = cx.run(what, lambda: with_stream(some, fn))
    if ok:
        cx.same(f"{what} linear", got[0], some @ np.array(rows))


def roots_sample(tier: str):
    for n in (1, 2, 3):
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            yield {"n": n, "k": k}


@PROP.family("sampled noise", roots_sample)
def sampling(cfg, cx: Cx) -> None:
    """Every unit deviate in turn: the distribution of the samples is determined by linearity."""
    n, k = cfg["n"], cfg["k"]
    eig = np.array([1.0, 0.25, -2.0, 0.0, 3.0])[:k] / hbar
    amp = np.lib.scimath.sqrt(eig * hbar)
    b = FundamentalBasis(n)
    vec, mat = cdata((k, n), "vec"), cdata((k, n, n), "mat")
    d = {"basis": TupleBasis(FundamentalBasis(k), square(b)), "data": flat(vec), "eigenvalue": eig}
    f = {"basis": TupleBasis(FundamentalBasis(k), square(b)), "data": flat(mat), "eigenvalue": eig}
    for s in (1, 2, 3):
        units = [phase * np.eye(s * k)[i].reshape(s, k) / math.sqrt(2) for i in range(s * k) for phase in (1, 1j)]
        split = [np.einsum("sk,k,ki->ksi", x, amp, vec) for x in units]
        law_is(cx, "split", lambda: flat(ks.sample_noise_from_diagonal_operators_split(d, n_samples=s)["data"]), [flat(x) for x in split])
        law_is(cx, "diagonal", lambda: flat(ks.sample_noise_from_diagonal_operators(d, n_samples=s)["data"]), [flat(x.sum(0)) for x in split])
        law_is(cx, "full", lambda: flat(ks.sample_noise_from_operators(f, n_samples=s)["data"]),
               [flat(np.einsum("sk,k,kij->sij", x, amp, mat)) for x in units])
        ok, got = cx.run("split", lambda: with_stream(rdata((4 * s * k,), "stream"), lambda: ks.sample_noise_from_diagonal_operators_split(d, n_samples=s))[0])
        if ok:
            members = flat(got["data"]).reshape(k, s, n)
            cx.step("sum of split", lambda: flat(ks.diagonal_operator_list_from_diagonal_split(got)["data"]), flat(members.sum(0)))
            cx.step("components", lambda: [flat(c["data"]) for c in ks.get_diagonal_split_noise_components(got)], [flat(c) for c in members])
            cx.step("component sizes", lambda: [[int(c["basis"][0].n), int(c["basis"][1].n)]
                                                for c in ks.get_diagonal_split_noise_components(got)], [[s, n * n]] * k)
        cx.trace()
    # the second moment of the samples is hbar times the kernel
    kern = hermitian(n, "kern") / hbar
    kern = kern @ kern.conj().T * hbar
    kernel = {"basis": kbasis(b), "data": flat(kern)}
    for trunc in (None, range(n), range(1)):
        m = n if trunc is None else len(trunc)
        ok, got = cx.run("from kernel", lambda: with_stream([], lambda: ks.sample_noise_from_diagonal_kernel(kernel, n_samples=1, truncation=trunc)))
        rows = []
        for i in range(got[1] if ok else 0):
            ok, one = cx.run("from kernel", lambda: with_stream(
                np.eye(got[1])[i], lambda: flat(ks.sample_noise_from_diagonal_kernel(kernel, n_samples=1, truncation=trunc)["data"])))
            if not ok:
                break
            rows.append(one[0])
        if ok:
            lev, w = np.linalg.eigh(kern * hbar)
            keep = np.argsort(lev)[::-1][:m]
            cx.same("second moment", sum((np.outer(v.conj(), v) for v in rows), np.zeros((n, n))), (w[:, keep] * lev[keep]) @ w[:, keep].conj().T)
        cx.trace()
    cx.same("unchanged", [flat(d["data"]), eig * hbar], [flat(vec), np.array([1.0, 0.25, -2.0, 0.0, 3.0])[:k]])
