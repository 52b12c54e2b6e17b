"""C19: the exchange with Wannier90, file by file, under every sequence of failures."""

from __future__ import annotations

import builtins
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np

from mc import core, ref
from mc.core import Cx, Property, cdata, unitary
from mc.props.c11 import decompress, flat, skinds
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.wavepacket.localization import _wannier90 as wn

PROP = Property(
    "C19",
    rule="Every lattice of a fixed family, every shape of the list of wavevectors times shape of the cell up to the bound, every "
    "kind of state basis, number of bands, kind of projection and axes taken as tightly bound; the external program is a "
    "stand-in which parses its input strictly and answers with known matrices; every sequence of its failures.",
    assumptions=[
        "the stand-in follows the file formats of the Wannier90 manual; Wannier90 itself is not installed",
        "as many projections as bands; lists of wavevectors in the fundamental basis, as the documentation asks",
    ],
)

FAKE = Path(__file__).resolve().parent.parent / "fake_wannier90.py"


class Desk:
    """A scratch directory with the stand-in on the PATH."""

    def __init__(self, plan, answer=None, missing=False) -> None:
        self.plan, self.answer, self.missing = plan, answer, missing

    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="c19-"))
        for s in ("bin", "home", "tmp"):
            (self.d / s).mkdir()
        exe = self.d / "bin" / "wannier90.x"
        exe.write_text(f'#!/bin/sh\nexec "{sys.executable}" -S -E "{FAKE}" "$@" 2>/dev/null\n')
        exe.chmod(0o755)
        if self.missing:
            exe.rename(self.d / "bin" / "other.x")
        (self.d / "home" / "plan.json").write_text(json.dumps(self.plan))
        self.saved = {k: os.environ.get(k) for k in ("PATH", "FAKE_W90", "TMPDIR")}
        os.environ["PATH"] = f"{self.d / 'bin'}:{os.environ.get('PATH', '')}"
        os.environ["FAKE_W90"] = str(self.d / "home")
        os.environ["TMPDIR"] = str(self.d / "tmp")
        self.tempdir, tempfile.tempdir = tempfile.tempdir, None
        self.input, self.prompts = builtins.input, []
        builtins.input = self.ask
        return self

    def ask(self, prompt=""):
        """The user runs the program by hand in the directory named, or gives up."""
        self.prompts.append(prompt)
        where = [p for p in (self.d / "tmp").iterdir() if p.is_dir()]
        if self.answer == "give up":
            raise KeyboardInterrupt
        if len(where) != 1 or str(where[0]) not in prompt:
            raise AssertionError(f"the directory is not in the prompt {prompt!r}")
        exe = self.d / "bin" / ("other.x" if self.missing else "wannier90.x")
        subprocess.run([exe, "spa.win"], cwd=where[0], check=True)
        return ""

    def __exit__(self, *a):
        builtins.input = self.input
        tempfile.tempdir = self.tempdir
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.d, ignore_errors=True)

    def runs(self):
        return [json.loads(f.read_text()) for f in sorted((self.d / "home").glob("run*.json"))]

    def left(self):
        return sorted(p.name for p in (self.d / "tmp").iterdir())


def plan_of(u, faults=(), reverse=False):
    return {
        "u": [[[[float(z.real), float(z.imag)] for z in w] for w in k] for k in u],
        "faults": list(faults),
        "reverse": reverse,
    }


def rounded(u):
    """What survives ten printed decimals."""
    return np.round(u.real, 10) + 1j * np.round(u.imag, 10)


# -- what the files have to say -------------------------------------------------------


def parse_win(text):
    ns: dict = {"__name__": "fake"}
    src = FAKE.read_text().removesuffix("main()\n")
    exec(compile(src, str(FAKE), "exec"), ns)  # noqa: S102
    return ns["parse_win"](text), ns["neighbours"], ns["logical"]


def check_win(cx: Cx, what, text, setup, dx, bigs, nb, has_projections, opts):
    (keys, blocks), neighbours, logical = parse_win(text)
    dim = len(bigs)
    cx.holds(f"{what}: setup flag", logical(keys.get("postproc_setup", "f")) == setup, str(keys))
    cx.same(f"{what}: num_wann", int(keys["num_wann"]), nb)
    cx.holds(f"{what}: num_bands", int(keys.get("num_bands", nb)) == nb, str(keys))
    cx.holds(f"{what}: writes U", logical(keys["write_u_matrices"]), str(keys))
    cx.holds(
        f"{what}: start",
        (logical(keys.get("auto_projections", "f")), logical(keys.get("use_bloch_phases", "f")))
        == ((True, False) if has_projections else (False, True)),
        str(keys),
    )
    cx.same(f"{what}: num_iter", int(keys["num_iter"]), opts["num_iter"])
    cx.same(f"{what}: conv_window", int(keys["conv_window"]), opts["convergence_window"])
    cx.holds(f"{what}: conv_tol", float(keys["conv_tol"]) == opts["convergence_tolerance"], str(keys))
    rows = [[float(x) for x in line.split()] for line in blocks["unit_cell_cart"]]
    cell = np.eye(3)
    cell[:dim, :dim] = dx * 1e10
    cx.same(f"{what}: unit cell in angstrom", rows, cell)
    grid = [int(x) for x in keys["mp_grid"].split()]
    cx.same(f"{what}: grid", grid, [*bigs, *([1] * (3 - dim))])
    pts = np.array([[float(x) for x in line.split()] for line in blocks["kpoints"]])
    want = np.zeros((int(np.prod(bigs)), 3))
    for i, q in enumerate(itertools.product(*(ref.freqs(n).tolist() for n in bigs))):
        want[i, :dim] = [f / n for f, n in zip(q, bigs)]
    cx.same(f"{what}: wavevectors", pts, want, 1e-12)
    return pts.tolist(), grid, neighbours


def periodic(data, sspec):
    """The periodic part at the points of the cell."""
    return np.einsum("bls,sx->blx", data, ref.states(sspec))


def overlaps(u, i, j, g, ns, ignore):
    """<u_m,k | u_n,k+b> [m, n], with k + b = k_j + G."""
    dim = len(ns)
    phase = np.ones(1)
    for a in range(dim):
        e = np.exp(-2j * np.pi * g[a] * np.arange(ns[a]) / ns[a]) if a not in ignore else np.ones(ns[a])
        phase = np.multiply.outer(phase, e).reshape(-1)
    return np.einsum("mx,nx,x->mn", u[:, i].conj(), u[:, j], phase)


def check_mmn(cx: Cx, text, nn, u, ns, ignore):
    nb, nk, _ = u.shape
    lines = text.splitlines()
    per = len(nn) // nk
    cx.same("mmn: counts", [int(x) for x in lines[1].split()], [nb, nk, per])
    body = lines[2:]
    if not cx.holds("mmn: length", len(body) == len(nn) * (1 + nb * nb), f"{len(body)} lines for {len(nn)} blocks of {nb} bands"):
        return
    for r, block in enumerate(nn):
        rows = body[r * (1 + nb * nb) : (r + 1) * (1 + nb * nb)]
        head = [int(x) for x in rows[0].split()]
        if not cx.same("mmn: block", head, list(block)):
            return
        got = np.array([complex(*(float(x) for x in line.split())) for line in rows[1:]])
        want = overlaps(u, head[0] - 1, head[1] - 1, head[2:], ns, ignore)
        cx.transitions += 1
        # the first index of M varies fastest
        if not cx.same(f"mmn: overlaps {'across the zone' if any(head[2:]) else 'inside the zone'}", got, want.T.reshape(-1)):
            return


def check_amn(cx: Cx, text, psi, proj):
    nb, nk, _ = psi.shape
    lines = text.splitlines()
    cx.same("amn: counts", [int(x) for x in lines[1].split()], [nb, nk, proj.shape[0]])
    got = np.full((nk, nb, proj.shape[0]), np.nan, dtype=complex)
    for line in lines[2:]:
        if not line.strip():
            continue
        m, n, k = (int(x) for x in line.split()[:3])
        got[k - 1, m - 1, n - 1] = complex(*(float(x) for x in line.split()[3:]))
    want = np.einsum("mkx,nx->kmn", psi.conj(), proj)
    cx.transitions += 1
    cx.same("amn: projections <psi_mk|g_n>", got, want)


# -- families ----------------------------------------------------------------------------


def settings(tier: str):
    q = tier == "quick"
    for name in ("line2", "neg") if q else ref.LATTICES[1]:
        for shape in itertools.product(range(1, 5 if q else 8), (1, 2, 3, 4) if q else range(1, 7)):
            yield {"dim": 1, "lat": name, "list": [shape[0]], "cell": [shape[1]]}
    shapes2 = [((1, 2), (2, 3)), ((2, 3), (3, 2)), ((3, 2), (1, 4)), ((2, 2), (2, 2)), ((4, 1), (3, 3))]
    if not q:
        shapes2 = list(itertools.product(itertools.product((1, 2, 3, 4), repeat=2), itertools.product((1, 2, 3, 4), repeat=2)))
    for name in list(ref.LATTICES[2])[: 2 if q else 3]:
        for a, b in shapes2:
            yield {"dim": 2, "lat": name, "list": list(a), "cell": list(b)}
    shapes3 = [((2, 1, 3), (1, 2, 2)), ((2, 3, 1), (3, 2, 2)), ((3, 2, 2), (2, 2, 3)), ((3, 3, 1), (2, 3, 3))]
    for name in list(ref.LATTICES[3])[1 : 2 if q else None]:
        for a, b in shapes3:
            yield {"dim": 3, "lat": name, "list": list(a), "cell": list(b)}


def roots(tier: str):
    for s in settings(tier):
        yield from ({**s, "start": k, "deep": tier != "quick"} for k in ("bloch", "position", "momentum"))


def ignored(dim):
    return [()] if dim == 1 else [(), (dim - 1,)] if dim == 2 else [(), (2,), (0, 2)]


def cells_of(cfg):
    dx = np.array(ref.LATTICES[cfg["dim"]][cfg["lat"]])
    per = [skinds(d, n) for d, n in zip(dx, cfg["cell"])]
    out = [["S", [p[i] for p in per]] for i in range(4)] + [["S", [p[(1 + i) % 4] for i, p in enumerate(per)]]]
    return dx, [json.loads(s) for s in dict.fromkeys(json.dumps(x) for x in out)]


def packets(cfg, nb, sspec):
    lspec = ["S", [["FM", n] for n in cfg["list"]]]
    nl, nst = int(np.prod(cfg["list"])), ref.n_of(sspec)
    data = cdata((nb, nl, nst), "w90", nb, nl, nst)
    data /= np.linalg.norm(data, axis=2)[:, :, None]
    basis = TupleBasis(TupleBasis(FundamentalBasis(nb), ref.build(lspec)), ref.build(sspec))
    return data, lspec, {"basis": basis, "data": data.reshape(-1).copy()}


@PROP.family("files", roots)
def files(cfg, cx: Cx) -> None:
    dx, cells = cells_of(cfg)
    bigs, ns = cfg["list"], cfg["cell"]
    nl, full = int(np.prod(bigs)), [n * m for n, m in zip(bigs, ns)]
    opts = {"num_iter": 17, "convergence_window": 5, "convergence_tolerance": 2e-7}
    for c, sspec in enumerate(cells):
        counts = (2, 1, 3) if c == 0 or cfg["deep"] else (2 + c % 2,)
        for nb, ignore in itertools.product(counts, ignored(cfg["dim"])):
            data, lspec, packs = packets(cfg, nb, sspec)
            big = ["S", [[("FP" if cfg["start"] == "position" else "FMP"), list(d * m), n] for d, m, n in zip(dx, bigs, full)]]
            proj = None
            pb = FundamentalBasis(nb)
            if cfg["start"] == "bloch":
                start = {"basis": TupleBasis(pb)}
            else:
                raw = cdata((nb, int(np.prod(full))), "g", nb)
                proj = raw @ ref.states(big)
                start = {"basis": TupleBasis(pb, ref.build(big)), "data": raw.reshape(-1).copy()}
            u = rounded(np.array([unitary(nb, "u", k, nb) for k in range(nl)]))
            with cx.at(json.dumps(sspec), nb, list(ignore)), Desk(plan_of(u, reverse=bool(c % 2))) as desk:
                options = wn.Wannier90Options(projection=start, ignore_axes=ignore, **opts)
                before = packs["data"].copy()
                ok, got = cx.run("localisation operator", lambda: wn.get_localization_operator_wannier90(packs, options=options))
                if not ok:
                    continue
                cx.same("U read back", flat(got["data"]), u.reshape(-1))
                cx.holds("U basis", got["basis"][0] is packs["basis"][0][1] and got["basis"][1][0] is pb and got["basis"][1][1] is packs["basis"][0][0])
                cx.same("input untouched", packs["data"], before, 0)
                cx.same("nothing left behind", desk.left(), [])
                cx.same("prompts", desk.prompts, [])
                runs = desk.runs()
                if not cx.same("runs of the program", [r["args"] for r in runs], [["spa.win"]] * 2):
                    continue
                cx.same("setup files", sorted(runs[0]["files"]), ["spa.win"])
                want_files = ["spa.mmn", "spa.nnkp", "spa.win"] + (["spa.amn"] if proj is not None else [])
                cx.same("files", sorted(runs[1]["files"]), sorted(want_files))
                check_win(cx, "setup", runs[0]["files"]["spa.win"], True, dx, bigs, nb, proj is not None, opts)
                pts, grid, neighbours = check_win(cx, "run", runs[1]["files"]["spa.win"], False, dx, bigs, nb, proj is not None, opts)
                nn = neighbours(pts, grid)
                per = len(nn) // nl
                if c % 2:
                    nn = [x for i in range(nl) for x in reversed(nn[i * per : (i + 1) * per])]
                check_mmn(cx, runs[1]["files"]["spa.mmn"], nn, periodic(data, sspec), ns, ignore)
                if proj is not None:
                    check_amn(cx, runs[1]["files"]["spa.amn"], decompress(data, lspec, sspec), proj)
                cx.state(cfg, sspec, nb, list(ignore))
                cx.trace()
            if ignore or nb == 1 or not (c == 0 or cfg["deep"]):
                continue
            with cx.at(json.dumps(sspec), nb, list(ignore)), Desk(plan_of(u)):
                want = np.einsum("kwb,bks->wks", u, data)
                cx.step(
                    "localised wavepackets",
                    lambda: flat(wn.localize_wavepacket_wannier90(packs, options=options)["data"]),
                    want.reshape(-1),
                )


def single_roots(tier: str):
    yield from settings(tier)


@PROP.family("single bands", single_roots)
def single_bands(cfg, cx: Cx) -> None:
    """Each band localised by itself, and the default options."""
    dx, cells = cells_of(cfg)
    bigs, ns = cfg["list"], cfg["cell"]
    nl = int(np.prod(bigs))
    defaults = {"num_iter": 10000, "convergence_window": 3, "convergence_tolerance": 1e-10}
    for c, sspec in enumerate(cells[:3]):
        for nb in (1, 2, 3)[c:]:
            data, _, packs = packets(cfg, nb, sspec)
            u = rounded(np.exp(1j * core.rdata((nl, 1, 1), "phase")))
            ignore = (2,)
            with cx.at(json.dumps(sspec), nb), Desk(plan_of(u)) as desk:
                ok, got = cx.run("operator of single bands", lambda: wn.get_localization_operator_wannier90_individual_bands(packs))
                if ok:
                    want = np.einsum("kab,bw->kwb", u, np.eye(nb))
                    cx.same("diagonal U", flat(got["data"]), want.reshape(-1))
                    runs = desk.runs()
                    cx.same("runs of the program", [r["args"] for r in runs], [["spa.win"]] * (2 * nb))
                    for b in range(nb):
                        f = runs[2 * b + 1]["files"]
                        one = {**defaults, "convergence_tolerance": 1e-20}
                        pts, grid, neighbours = check_win(cx, f"band {b}", f["spa.win"], False, dx, bigs, 1, False, one)
                        check_mmn(cx, f["spa.mmn"], neighbours(pts, grid), periodic(data[b : b + 1], sspec), ns, ignore)
                    cx.trace()
            v = rounded(np.array([unitary(nb, "v", k, nb) for k in range(nl)]))
            with cx.at(json.dumps(sspec), nb), Desk(plan_of(v)) as desk:
                ok, got = cx.run("default options", lambda: wn.get_localization_operator_wannier90(packs))
                if ok:
                    cx.same("U with default options", flat(got["data"]), v.reshape(-1))
                    check_win(cx, "default", desk.runs()[1]["files"]["spa.win"], False, dx, bigs, nb, False, defaults)
                    cx.trace()
                cx.state(cfg, sspec, nb)


FAULTS = ("ok", "nothing", "partial", "killed")


def fault_roots(tier: str):
    for a, b in itertools.product(FAULTS, repeat=2):
        for missing, answer in ((False, "run"), (False, "give up"), (True, "run"), (True, "give up")):
            if missing and (a, b) != ("ok", "ok"):
                continue
            yield {"faults": [a, b], "missing": missing, "answer": answer}


@PROP.family("failures", fault_roots)
def failures(cfg, cx: Cx) -> None:
    """The program fails at either stage: the user is asked, and what the user does is taken up."""
    s = {"dim": 2, "lat": next(iter(ref.LATTICES[2])), "list": [2, 3], "cell": [3, 2]}
    dx, cells = cells_of(s)
    data, _, packs = packets(s, 2, cells[0])
    u = rounded(np.array([unitary(2, "f", k) for k in range(6)]))
    a, b = cfg["faults"]
    # a run by hand follows each failed run
    faults = [a] + (["ok"] if a != "ok" else []) + [b]
    asked = [True, True] if cfg["missing"] else [a != "ok", b != "ok"]
    with Desk(plan_of(u, [] if cfg["missing"] else faults), answer=cfg["answer"], missing=cfg["missing"]) as desk:
        def call():
            try:
                return ["value", flat(wn.get_localization_operator_wannier90(packs)["data"])]
            except KeyboardInterrupt:
                return ["gave up"]

        want = ["gave up"] if any(asked) and cfg["answer"] == "give up" else ["value", u.reshape(-1)]
        cx.step("localisation operator", call, want, state=cfg)
        n = sum(asked) if cfg["answer"] == "run" else min(1, sum(asked))
        cx.same("prompts", len(desk.prompts), n)
        cx.same("nothing left behind", desk.left(), [])
        cx.trace()


def symmetry_roots(tier: str):
    for shape in itertools.product(range(1, 4 if tier == "quick" else 6), repeat=3):
        yield {"shape": list(shape)}
    for shape in itertools.product(range(1, 7), repeat=2):
        yield {"shape": list(shape)}


@PROP.family("symmetries", symmetry_roots)
def symmetries(cfg, cx: Cx) -> None:
    """Mirror images of points of the grid."""
    shape = tuple(cfg["shape"])
    grid = list(itertools.product(*(range(n) for n in shape)))
    n = len(grid)
    for axis in range(len(shape)):
        want = []
        for p in grid:
            q = list(p)
            q[axis] = -q[axis] % shape[axis]
            want.append(grid.index(tuple(q)))
        cx.step(f"mirror {axis}", lambda: wn.x0_symmetry_op(np.arange(n), shape, axis), np.array(want))
        cx.step(f"mirror {axis} single", lambda: [int(wn.x0_symmetry_op(i, shape, axis)) for i in range(n)], want)
        cx.trace()
    for axes in itertools.permutations(range(len(shape)), 2):
        if shape[axes[0]] != shape[axes[1]]:
            continue
        want = []
        for p in grid:
            q = list(p)
            q[axes[0]], q[axes[1]] = q[axes[1]], q[axes[0]]
            want.append(grid.index(tuple(q)))
        cx.step(f"exchange {axes}", lambda: wn.x0x1_symmetry_op(np.arange(n), shape, axes), np.array(want))
        cx.trace()
