"""C16: states evolve by the Schrodinger equation, and every solver is posed the stated problem."""

from __future__ import annotations

import contextlib
import itertools
import sys
from types import SimpleNamespace
from unittest import mock

import numpy as np
import qutip
from scipy.constants import hbar

from mc import ref
from mc.core import Cx, Property, cdata, hermitian, quiet, unitary
from surface_potential_analysis.basis import time_basis_like as tb
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.dynamics.schrodinger import solve as sd

with quiet():
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as ss

PROP = Property(
    "C16",
    rule="Every time grid up to the bound, every size, structure and spectrum of Hamiltonian, every kind of initial state "
    "and basis, every pattern of occupied diagonals; every outcome of every random choice; external solvers are replaced "
    "by stand-ins which record the problem they are given.",
    assumptions=["the native solver integrates dpsi = -i H dt psi + L terms for the H, L and dt it is given"],
)


# -- the grid of times ---------------------------------------------------------


def time_roots(tier: str):
    top = 8 if tier == "quick" else 14
    for n in range(1, top + 1):
        for step in range(1, top + 1):
            yield {"n": n, "step": step}


@PROP.family("times", time_roots)
def times_family(cfg, cx: Cx) -> None:
    n, step = cfg["n"], cfg["step"]
    big = n * step
    for delta in (1.0, 3.0, 2.5e-12, 7e9):
        fundamental = [delta * i / big for i in range(big)]
        for offset in range(-step - 1, big + step + 1):
            with cx.at(f"delta_t={delta} offset={offset}"):
                b = tb.EvenlySpacedTimeBasis(n, step, offset, delta)
                want = [(offset + step * j) / big for j in range(n)]
                cx.step("times", lambda b=b: b.times / delta, np.array(want), tol=1e-12)
                cx.step("fundamental_times", lambda b=b: b.fundamental_times / delta, np.array(fundamental) / delta, tol=1e-12)
                cx.step("sizes", lambda b=b: [b.n, b.fundamental_n, b.step, b.offset], [n, big, step, offset])
                cx.step("delta_t", lambda b=b: [b.delta_t / delta, b.dt / delta, b.fundamental_dt / delta],
                        [1.0, 1 / n, 1 / big], tol=1e-12)
                # A state at the j-th of times is the state at that point of the fundamental times
                if 0 <= offset and offset + step * (n - 1) < big:
                    v = np.eye(n, dtype=complex)
                    got = b.__into_fundamental__(v, 1)
                    cx.step("point of the fundamental grid", lambda got=got, b=b: (got @ b.fundamental_times).real / delta,
                            np.array(want), tol=1e-12)
                cx.step("hash", lambda b=b: hash(b), hash(tb.EvenlySpacedTimeBasis(n, step, offset, delta)))
        if step == 1:
            f = tb.FundamentalTimeBasis(n, delta)
            cx.step("FundamentalTimeBasis", lambda: [f.times / delta, f.fundamental_times / delta], [np.arange(n) / n] * 2, tol=1e-12)
            cx.step("FundamentalTimeBasis sizes", lambda: [f.n, f.fundamental_n, f.dt / delta, f.delta_t / delta], [n, n, 1 / n, 1.0])
    t = np.cumsum(np.abs(cdata(n, "explicit", step)))
    e = tb.ExplicitTimeBasis(t)
    cx.step("ExplicitTimeBasis", lambda: [e.times, e.fundamental_times, np.array([e.n, e.fundamental_n])], [t, t, np.array([n, n])])
    cx.trace()


# -- the Schrodinger equation --------------------------------------------------


def spectrum(kind: str, n: int) -> np.ndarray:
    """A Hamiltonian in units of hbar per unit of time."""
    if kind == "generic":
        return hermitian(n, "ham")
    if kind == "real":
        return hermitian(n, "ham").real.astype(complex)
    if kind == "degenerate":
        e = np.array([1.0, 1.0, -0.5, -0.5, 1.0, 2.0, -0.5, 2.0])[:n]
        u = unitary(n, "deg")
        return (u * e) @ u.conj().T
    if kind == "diagonal":
        return np.diag(np.arange(n) * 0.7 - 1).astype(complex)
    if kind == "hop":
        m = np.zeros((n, n), dtype=complex)
        for i in range(n):
            m[i, (i + 1) % n] += 0.5j + 0.3
        return m + m.conj().T
    return np.zeros((n, n), dtype=complex)


SPECTRA = ["generic", "real", "degenerate", "diagonal", "hop", "zero"]


def initial(kind: str, ham: np.ndarray) -> np.ndarray:
    n = len(ham)
    if kind == "generic":
        v = cdata(n, "initial")
        return v / np.linalg.norm(v)
    if kind == "scaled":
        return 3.0 * cdata(n, "initial scaled")
    if kind == "eigen":
        return np.linalg.eigh(ham)[1][:, -1].astype(complex)
    v = np.zeros(n, dtype=complex)
    v[n // 2] = 1
    return v


def propagator(ham: np.ndarray, t: float) -> np.ndarray:
    e, u = np.linalg.eigh(ham)
    return (u * np.exp(-1j * e * t)) @ u.conj().T


def evolved(ham, psi, ts):
    return np.array([propagator(ham, t) @ psi for t in ts])


def axes_of(n: int):
    """Bases with n states, and the ones a state on them may be given in."""
    out = [["F", n], ["FMP", [1.5], n], ["X", "orth", n, ["F", n]]]
    if n > 1:
        out.append(["S", [["F", 1], ["FM", n]]])
    if n % 2 == 0:
        out.append(["S", [["FM", 2], ["F", n // 2]]])
    return out


def solve_roots(tier: str):
    q = tier == "quick"
    for n in range(1, 6 if q else 8):
        for kind in SPECTRA:
            for unit in (1.0, 1e12):
                yield {"n": n, "kind": kind, "unit": unit}


@PROP.family("schrodinger", solve_roots)
def solve_family(cfg, cx: Cx) -> None:
    n, unit = cfg["n"], cfg["unit"]
    ham = spectrum(cfg["kind"], n)
    for spec in axes_of(n):
        b = ref.build(spec)
        h = {"basis": TupleBasis(b, b), "data": (ham * hbar * unit).reshape(-1)}
        diag = {"basis": TupleBasis(b, b), "data": np.diag(ham) * hbar * unit}
        for nt, step, offset, total in ((1, 1, 0, 1.0), (2, 3, 0, 2.0), (3, 1, 0, 6.0), (3, 7, 2, 4.0), (4, 2, 11, 1.5), (2, 40, 5, 3.0)):
            t = tb.EvenlySpacedTimeBasis(nt, step, offset, total / unit)
            at = [total * (offset + step * j) / (nt * step) for j in range(nt)]
            for ik in ("generic", "scaled", "eigen", "site"):
                psi = initial(ik, ham)
                want = evolved(ham, psi, at).reshape(-1)
                state = {"basis": b, "data": psi.copy()}
                with cx.at(f"{spec} n={nt} step={step} offset={offset} {ik}"):
                    calls = {
                        "decomposition": lambda: sd.solve_schrodinger_equation_decomposition(state, t, h),
                    }
                    if spec == axes_of(n)[0]:
                        calls["integrated"] = lambda: sd.solve_schrodinger_equation(state, t, h)
                    for name, fn in calls.items():
                        ok, r = cx.run(name, fn)
                        if not ok:
                            continue
                        tol = 1e-8 if name == "decomposition" else 1e-3
                        if cx.same(name, r["data"], want, tol):
                            cx.state(name, spec, ik, at, want)
                        cx.holds(name + " times", np.allclose(r["basis"][0].times * unit, at), "wrong times")
                        cx.holds(name + " basis", r["basis"][1] is b, "wrong basis of states")
                    cx.same("initial state is kept", state["data"], psi, 0)
                    cx.same("hamiltonian is kept", h["data"], (ham * hbar * unit).reshape(-1), 0)
                    # The diagonal Hamiltonian accepts a state in any basis of the same space
                    for other in [spec] + [["X", "orth", n, ["F", n]]] * (spec == ["F", n]) + [["FM", n]] * (spec == ["F", n]):
                        pb = b if other == spec else ref.build(other)
                        coeff = ref.transfer(other, spec).T @ psi if other != spec else psi
                        wantd = np.array([np.exp(-1j * np.diag(ham).real * x) * coeff for x in at]).reshape(-1)
                        ok, r = cx.run(f"diagonal from {other}", lambda pb=pb: sd.solve_schrodinger_equation_diagonal({"basis": pb, "data": psi.copy()}, t, diag))
                        if ok:
                            cx.same(f"diagonal from {other}", r["data"], wantd, 1e-8)
                            cx.holds("diagonal basis", r["basis"][1] is b and np.allclose(r["basis"][0].times * unit, at))
        # explicit times; evolving in two goes is evolving in one
        ts = np.array([0.0, 0.3, 1.1, 2.0]) / unit
        psi = initial("generic", ham)
        e = tb.ExplicitTimeBasis(ts)
        ok, r = cx.run("explicit times", lambda: sd.solve_schrodinger_equation_decomposition({"basis": b, "data": psi}, e, h))
        if ok:
            cx.same("explicit times", r["data"], evolved(ham, psi, ts * unit).reshape(-1), 1e-8)
            mid = r["data"].reshape(4, n)[2]
            cx.step("in two goes", lambda: sd.solve_schrodinger_equation_decomposition({"basis": b, "data": mid}, e, h)["data"],
                    evolved(ham, psi, ts * unit + 1.1).reshape(-1))
        # decomposition into an incomplete set is the projection on each of it
        for m in range(1, n + 1):
            u = unitary(n, "some states")[:m]
            lst = {"basis": TupleBasis(FundamentalBasis(m), b), "data": u.reshape(-1)}
            ok, d = cx.run(f"decomposition into {m}", lambda: sd.get_state_vector_decomposition({"basis": b, "data": psi}, lst))
            if ok:
                cx.same(f"decomposition into {m}", d["data"], u.conj() @ psi)
    cx.trace()


# -- the problem posed to the stochastic solvers -------------------------------


@contextlib.contextmanager
def patched(obj, **values):
    missing = object()
    old = {k: getattr(obj, k, missing) for k in values}
    for k, v in values.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is missing:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


def dense_of_bands(diagonals, offsets, n):
    """Band d of offset o holds the entries (row j + o, column j)."""
    m = np.zeros((n, n), dtype=complex)
    assert len(diagonals) == len(offsets)
    for band, o in zip(diagonals, offsets):
        assert len(band) == n
        for j, x in enumerate(band):
            m[(j + o) % n, j] += x
    return m


def dissipator(ops, n):
    d = np.zeros((n * n, n * n), dtype=complex)
    for o in ops:
        d += np.kron(o, o.conj())
    return d


def banded(pattern: int, n: int, *key, phase="any") -> np.ndarray:
    """Entries only on the (wrapped) diagonals in the pattern; bits 0..n-1."""
    m = cdata((n, n), "band", pattern, *key)
    m = {"any": m, "re": m.real + 0j, "im": 1j * m.imag}[phase]
    for i in range(n):
        for j in range(n):
            if not (pattern >> ((i - j) % n)) & 1:
                m[i, j] = 0
    return m


def pose_roots(tier: str):
    q = tier == "quick"
    for n in range(1, 6 if q else 7):
        for hp in range(2**n):
            for phase in ("any", "re", "im") if n <= 3 else ("any",):
                yield {"n": n, "h": hp, "phase": phase}


TIMES = [(1, 1, 1.0), (3, 1, 0.5), (2, 5, 1.0), (4, 3, 2.0)]


class Recorder:
    """Stand-in for the solvers outside the package: keeps what it was asked."""

    def __init__(self, n):
        self.n = n
        self.calls = []

    def config(self, **kw):
        return SimpleNamespace(**kw)

    def answer(self, c):
        return np.arange(c.n_trajectories * c.n * self.n) * (1 + 0.5j) + 1j

    def dense(self, initial_state, hamiltonian, operators, config):
        self.calls.append(("dense", np.array(initial_state), np.array(hamiltonian), [np.array(o) for o in operators], config))
        return list(self.answer(config))

    def bands(self, initial_state, hamiltonian_diagonal, hamiltonian_offset, operators_diagonals, operators_offsets, config):  # noqa: PLR0913
        assert len(operators_diagonals) == len(operators_offsets)
        self.calls.append(("bands", np.array(initial_state), dense_of_bands(hamiltonian_diagonal, hamiltonian_offset, self.n),
                           [dense_of_bands(d, o, self.n) for d, o in zip(operators_diagonals, operators_offsets)], config))
        return list(self.answer(config))

    def qutip(self, H, psi0, tlist, sc_ops=(), **kw):  # noqa: N803
        c = SimpleNamespace(tlist=np.array(tlist), dt=kw["options"]["dt"], n_trajectories=kw["ntraj"], n=len(tlist))
        self.calls.append(("qutip", psi0.full().reshape(-1), H.full(), [o.full() for o in sc_ops], c))
        data = self.answer(c).reshape(c.n_trajectories, c.n, self.n)
        return SimpleNamespace(states=[[qutip.Qobj(x) for x in tr] for tr in data])


@PROP.family("posed", pose_roots)
def pose_family(cfg, cx: Cx) -> None:
    n = cfg["n"]
    full = banded(cfg["h"], n, "h", phase=cfg["phase"])
    ham = (full + full.conj().T) / 2
    patterns = [[]] + [[p] for p in range(2**n)] + [[1, p] for p in range(1, 2**n)] + [[0, 0], [2**n - 1] * 3]
    specs = [(["F", n], ["F", n]), (["F", n], ["FM", n]), (["X", "orth", n, ["F", n]], ["FMP", [2.0], n])]
    for pi, ops_patterns in enumerate(patterns):
        ops = [banded(p, n, "op", i, phase=cfg["phase"]) for i, p in enumerate(ops_patterns)]
        nt, step, total = TIMES[(pi + cfg["h"]) % len(TIMES)] if n > 2 else TIMES[pi % len(TIMES)]
        for nt, step, total in ([(nt, step, total)] if n > 2 else TIMES):
            for hs, os_ in specs:
                ntraj = 1 + (pi + nt) % 3
                pose(cx, n, ham, ops, hs, os_, nt, step, total, ntraj)
    cx.trace()


def pose(cx, n, ham, ops, hs, os_, nt, step, total, ntraj):
    hb = ref.build(hs)
    same = hs == os_
    ob = hb if same else ref.build(os_)
    t = tb.EvenlySpacedTimeBasis(nt, step, 0, total)
    dt = total / (nt * step)
    psi = cdata(n, "psi")
    psi = psi / np.linalg.norm(psi)
    h = {"basis": TupleBasis(hb, hb), "data": (ham * hbar).reshape(-1)}
    lops = [{"basis": TupleBasis(ob, ob), "data": (o * np.sqrt(hbar)).reshape(-1)} for o in ops]
    # in the basis of the Hamiltonian: rows of m are the states of os_ seen in hs
    m = np.eye(n) if same else ref.transfer(os_, hs)
    in_h = [m.T @ o @ m.conj() for o in ops]
    psi_h = m.T @ psi
    runs = [("bands", lambda **k: ss.solve_stochastic_schrodinger_equation_rust_banded({"basis": ob, "data": psi.copy()}, t, h, lops, **k), {"n_realizations": 2, "method": "Milsten"})]
    if same:
        runs += [
            ("dense", lambda **k: ss.solve_stochastic_schrodinger_equation_rust({"basis": hb, "data": psi.copy()}, t, h, lops, **k), {"n_realizations": 2}),
            ("qutip", lambda **k: ss.solve_stochastic_schrodinger_equation({"basis": hb, "data": psi.copy()}, t, h, lops, **k), {}),
        ]
        if not ops:
            runs.append(("dense", lambda **k: ss.solve_stochastic_schrodinger_equation_rust({"basis": hb, "data": psi.copy()}, t, h, **k), {"n_realizations": 1}))
            runs.append(("bands", lambda **k: ss.solve_stochastic_schrodinger_equation_rust_banded({"basis": hb, "data": psi.copy()}, t, h, **k), {"n_realizations": 3, "method": "Euler"}))
    for name, fn, extra in runs:
        rec = Recorder(n)
        with cx.at(f"{name} n={n} ops={len(ops)} {hs} {os_} times={nt}x{step} ntraj={ntraj}"):
            native = {"solve_sse": rec.dense, "solve_sse_banded": rec.bands, "SimulationConfig": rec.config}
            with patched(ss, ssesolve=rec.qutip, **native), mock.patch.dict(sys.modules, sse_solver_py=SimpleNamespace(**native)), patched(qutip, ssesolve=rec.qutip):
                ok, r = cx.run(name, lambda: fn(n_trajectories=ntraj, **extra))
            if not ok:
                continue
            if not cx.holds("one problem", len(rec.calls) == 1 and rec.calls[0][0] == name, f"{[c[0] for c in rec.calls]}"):
                continue
            _, p, hh, ll, c = rec.calls[0]
            cx.same("initial state", p, psi_h)
            # what each integration step does, whatever unit of time the solver was given
            scale = c.dt if name != "qutip" else dt
            cx.same("hamiltonian per step", hh * scale, ham * dt, 1e-6)
            cx.same("collapse per step", dissipator(ll, n) * scale, dissipator(in_h, n) * dt, 1e-6)
            cx.same("trajectories", [c.n_trajectories, c.n], [ntraj, nt])
            if name == "qutip":
                cx.same("times", c.tlist, t.times)
                cx.same("dt", c.dt, dt)
            else:
                cx.same("steps between times", [c.step, c.n_realizations], [step, extra["n_realizations"]])
                if "method" in extra:
                    cx.holds("method", c.method == extra["method"])
            want = rec.answer(c)
            cx.same("states", r["data"], want)
            cx.same("shape of the list", list(r["basis"][0].shape), [ntraj, nt])
            cx.holds("bases", r["basis"][1] is hb and r["basis"][0][1] is t)
            cx.same("operators are kept", [o["data"] for o in lops] + [h["data"] / hbar],
                    [(o * np.sqrt(hbar)).reshape(-1) for o in ops] + [ham.reshape(-1)], 1e-12)
            cx.state(name, n, ham, in_h, nt, step, ntraj)


# -- the real integrator on problems without noise -----------------------------


def dark_roots(tier: str):
    for n in range(2, 5 if tier == "quick" else 7):
        for idx in range(n):
            yield {"n": n, "idx": idx}


@PROP.family("noiseless", dark_roots)
def dark_family(cfg, cx: Cx) -> None:
    """A common eigenstate of the Hamiltonian and every collapse operator only turns its phase."""
    n, idx = cfg["n"], cfg["idx"]
    b = FundamentalBasis(n)
    real = qutip.ssesolve

    def in_process(*a, **k):
        k["options"] = {**k["options"], "map": "serial", "progress_bar": ""}
        k["options"].pop("num_cpus", None)
        return real(*a, **k)

    energies = np.arange(n) * 0.4 + 0.3
    for u, name in ((np.eye(n, dtype=complex), "site"), (unitary(n, "dark"), "rotated")):
        ham = (u * energies) @ u.conj().T
        ops = [(u * (np.arange(n) * 0.3 + 0.1 * k)) @ u.conj().T for k in range(2)]
        h = {"basis": TupleBasis(b, b), "data": (ham * hbar).reshape(-1)}
        ls = [{"basis": TupleBasis(b, b), "data": (o * np.sqrt(hbar)).reshape(-1)} for o in ops]
        for nt, step in ((2, 50), (4, 25)):
            t = tb.EvenlySpacedTimeBasis(nt, step, 0, 1.0)
            for ntraj in (1, 2):
                with cx.at(f"{name} {nt}x{step} ntraj={ntraj}"), patched(qutip, ssesolve=in_process):
                    ok, r = cx.run("integrate", lambda: ss.solve_stochastic_schrodinger_equation(
                        {"basis": b, "data": u[:, idx].copy()}, t, h, ls, n_trajectories=ntraj))
                if ok:
                    got = r["data"].reshape(ntraj, nt, n)
                    for i in range(ntraj):
                        proj = np.array([np.outer(x, x.conj()) for x in got[i]])
                        cx.same("state", proj, np.array([np.outer(u[:, idx], u[:, idx].conj())] * nt), 2e-2)
                        cx.same("phase", np.exp(1j * np.angle(got[i] @ u[:, idx].conj())), np.exp(-1j * energies[idx] * t.times), 5e-2)
                    cx.state(name, nt, ntraj, idx)
    cx.trace()


# -- relocalised trajectories: every outcome of every choice -------------------


class Impossible(BaseException):
    """The prescribed outcome has no chance of happening."""


class Unscripted(BaseException):
    """Randomness used in a way which can not be prescribed."""


class Dice(np.random.Generator):
    """A random generator whose choices are prescribed, and recorded."""

    def other(self, *_a, **_k):
        raise Unscripted

    random = uniform = integers = multinomial = normal = standard_normal = permutation = shuffle = other

    def __init__(self, script):
        super().__init__(np.random.PCG64(0))
        self.script = list(script)
        self.seen = []

    def choice(self, a, size=None, replace=True, p=None, **kw):
        items = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        p = np.full(len(items), 1 / len(items)) if p is None else np.array(p, dtype=float)
        # numpy's own conditions on the probabilities
        if p.shape != (len(items),) or np.any(p < 0) or abs(p.sum() - 1) > 1e-7 or not np.all(np.isfinite(p)):
            msg = f"probabilities are not probabilities: {p}"
            raise ValueError(msg)
        k = self.script[len(self.seen)] if len(self.seen) < len(self.script) else int(np.argmax(p))
        if k >= len(p) or p[k] < 1e-10:
            raise Impossible
        self.seen.append((k, p))
        return items[k]


def rolled(dice):
    """Every source of randomness the solver could use is this one."""
    out = contextlib.ExitStack()
    out.enter_context(patched(ss, rng=dice))
    out.enter_context(patched(np.random, default_rng=lambda *_a, **_k: dice, choice=dice.choice, random=dice.other,
                              rand=dice.other, uniform=dice.other))
    return out


def ensembles(dim: int, m: int):
    base = unitary(dim, "ens")
    yield "generic", np.array([(lambda v: v / np.linalg.norm(v))(cdata(dim, "e", i)) for i in range(m)])
    yield "identical", np.array([base[0]] * m)
    yield "phases", np.array([base[0] * np.exp(0.7j * i) for i in range(m)])
    yield "sites", np.array([np.eye(dim, dtype=complex)[i % dim] for i in range(m)])
    if m <= dim:
        yield "orthogonal", base[:m].copy()
    yield "pairs", np.array([base[(i // 2) % dim] for i in range(m)])


def ens_roots(tier: str):
    top = 6 if tier == "quick" else 9
    for dim in range(1, top + 1):
        for m in range(1, top + 1):
            yield {"dim": dim, "m": m}


@PROP.family("localised choice", ens_roots)
def ens_family(cfg, cx: Cx) -> None:
    dim, m = cfg["dim"], cfg["m"]
    t = tb.EvenlySpacedTimeBasis(2, 1, 0, 1.0)
    for spec in axes_of(dim):
        b = ref.build(spec)
        zero = {"basis": TupleBasis(b, b), "data": np.zeros(dim * dim, dtype=complex)}
        for name, data in ensembles(dim, m):
            rho = np.einsum("ia,ib->ab", data, data.conj()) / m
            total = np.zeros((dim, dim), dtype=complex)
            chosen = []

            def fake(H, psi0, tlist, sc_ops=(), **kw):  # noqa: N803
                # every realisation ends in a state of the ensemble
                return SimpleNamespace(states=[[psi0] + [qutip.Qobj(x)] * (len(tlist) - 1) for x in data])

            with cx.at(f"{spec} {name}"):
                k = 0
                while k < m:
                    dice = Dice([k])
                    start = {"basis": b, "data": data[0].copy()}
                    k += 1
                    try:
                        with rolled(dice), patched(ss, ssesolve=fake), patched(qutip, ssesolve=fake):
                            ok, r = cx.run(f"choice {k}", lambda: ss.solve_stochastic_schrodinger_equation_localized(
                                start, t, zero, n_trajectories=1, n_realizations=m))
                    except Impossible:
                        continue
                    except Unscripted:
                        return
                    s = {"basis": r["basis"][1], "data": r["data"].reshape(2, dim)[1]} if ok else None
                    if not ok or not dice.seen:
                        continue
                    cx.same("initial state is kept", start["data"], data[0], 0)
                    if not cx.holds("number of outcomes", len(dice.seen) == 1 and len(dice.seen[0][1]) == m, "one choice between as many states as realisations"):
                        continue
                    p = dice.seen[0][1][k - 1]
                    cx.holds("basis", s["basis"] is b)
                    cx.same("norm", np.linalg.norm(s["data"]), 1.0)
                    chosen.append(s["data"])
                    total += p * np.outer(s["data"], s["data"].conj())
                cx.same("average over every choice", total, rho)
                if chosen:
                    o = np.array(chosen)
                    cx.same("choices are orthogonal", o.conj() @ o.T, np.eye(len(o)), 1e-6)
                    cx.state(spec, name, rho)
    cx.trace()


def tree_roots(tier: str):
    q = tier == "quick"
    for dim in (1, 2, 3):
        for nt in range(1, 5 if q else 6):
            for real in (1, 2, 3) if q else (1, 2, 3, 4):
                for ntraj in (1, 2):
                    if real ** ((nt - 1) * ntraj) <= (800 if q else 5000):
                        yield {"dim": dim, "nt": nt, "real": real, "ntraj": ntraj}


@PROP.family("localised trajectories", tree_roots)
def tree_family(cfg, cx: Cx) -> None:
    """Every sequence of outcomes of the random choices in a run."""
    dim, nt, real, ntraj = cfg["dim"], cfg["nt"], cfg["real"], cfg["ntraj"]
    b = FundamentalBasis(dim)
    ham = hermitian(dim, "tree")
    op = cdata((dim, dim), "tree op")
    h = {"basis": TupleBasis(b, b), "data": (ham * hbar).reshape(-1)}
    ls = [{"basis": TupleBasis(b, b), "data": (op * np.sqrt(hbar)).reshape(-1)}]
    psi = initial("generic", ham)
    noise = [unitary(dim, "noise", r) for r in range(real)]
    for step, total in ((1, 1.0), (3, 2.0)):
        t = tb.EvenlySpacedTimeBasis(nt, step, 0, total)
        dt = total / nt
        for script in itertools.product(range(real), repeat=(nt - 1) * ntraj):
            calls = []
            dice = Dice(script)

            def fake(H, psi0, tlist, sc_ops=(), **kw):  # noqa: N803
                hq, p = H, psi0
                calls.append((hq.full(), p.full().reshape(-1), np.array(tlist), [o.full() for o in sc_ops], kw["options"]["dt"], kw["ntraj"]))
                states = [[qutip.Qobj(p.full().reshape(-1))] + [qutip.Qobj(noise[r] @ p.full().reshape(-1)) for _ in tlist[1:]] for r in range(kw["ntraj"])]
                return SimpleNamespace(states=states)

            with cx.at(f"{step} {total} outcomes={script}"):
                try:
                    with rolled(dice), patched(ss, ssesolve=fake), patched(qutip, ssesolve=fake):
                        ok, r = cx.run("run", lambda: ss.solve_stochastic_schrodinger_equation_localized(
                            {"basis": b, "data": psi.copy()}, t, h, ls, n_trajectories=ntraj, n_realizations=real))
                except Impossible:
                    continue
                except Unscripted:
                    return
                if not ok:
                    continue
                got = r["data"].reshape(ntraj, nt, dim)
                cx.same("list", [list(r["basis"][0].shape), [len(calls)]], [[ntraj, nt], [ntraj * (nt - 1)]])
                c = 0
                for i in range(ntraj):
                    cx.same("starts from the initial state", got[i, 0], psi)
                    for j in range(1, nt):
                        if c >= len(calls) or c >= len(dice.seen):
                            break
                        hq, p, tl, ops, fdt, nr = calls[c]
                        k, probs = dice.seen[c]
                        c += 1
                        cx.same("continues from the previous state", p, got[i, j - 1])
                        cx.same("advances to the next time", tl[-1] - tl[0] if len(tl) > 1 else 0.0, dt)
                        cx.same("problem", [hq, dissipator(ops, dim)], [ham, dissipator([op], dim)])
                        cx.same("steps", [fdt, nr], [dt / step, real])
                        rho = sum(np.outer(u @ p, (u @ p).conj()) for u in noise) / real / np.linalg.norm(p) ** 2
                        cx.same("is an outcome", rho @ got[i, j], probs[k] * got[i, j], 1e-6)
                        cx.same("norm", np.linalg.norm(got[i, j]), 1.0)
                        cx.state(step, i, j, script[:c])
            cx.trace()
