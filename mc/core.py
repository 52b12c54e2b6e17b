"""Exhaustive lockstep explorer.

A property is a set of *families*.  A family is a finite space of behaviours:

* ``roots(tier)``       yields every root configuration of the space (JSON-able),
* ``explore(cfg, cx)``  enumerates every operation (or every operation sequence up
                        to the family's depth) available from that root, running
                        each one on the implementation in /repo *and* on the
                        reference model, and compares the two after every step.

Nothing is sampled: every root of the tier is explored, and inside a root every
enabled operation is taken.  The explorer counts

* states       distinct (canonicalised, hashed) model states that were reached,
* transitions  operations executed on the implementation whose outcome was
               compared with the model's successor state,
* traces       maximal operation histories replayed against the implementation.
"""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import time
import traceback
import warnings
from pathlib import Path
from typing import Any, Callable

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
MAX_VIOLATIONS_PER_ROOT = 3
MAX_REPORTED = 8


class Family:
    def __init__(
        self,
        name: str,
        roots: Callable[[str], Any],
        explore: Callable[[Any, "Cx"], None],
    ) -> None:
        self.name = name
        self.roots = roots
        self.explore = explore


class Property:
    def __init__(
        self,
        pid: str,
        level: str = "model_checking",
        rule: str = "",
        assumptions: list[str] | None = None,
    ) -> None:
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = assumptions or []
        self.families: dict[str, Family] = {}

    def family(self, name: str, roots: Callable[[str], Any]):
        def deco(fn):
            self.families[name] = Family(name, roots, fn)
            return fn

        return deco


def rng(*key: Any) -> np.random.Generator:
    """Deterministic generator for generic data, from VERIF_SEED and a key."""
    h = hashlib.sha256(repr((SEED, key)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def cdata(shape: Any, *key: Any) -> np.ndarray:
    g = rng("c", key, tuple(np.atleast_1d(shape)))
    return g.standard_normal(shape) + 1j * g.standard_normal(shape)


def rdata(shape: Any, *key: Any) -> np.ndarray:
    return rng("r", key, tuple(np.atleast_1d(shape))).standard_normal(shape)


def hermitian(n: int, *key: Any) -> np.ndarray:
    m = cdata((n, n), "h", *key)
    return (m + m.conj().T) / 2


def unitary(n: int, *key: Any) -> np.ndarray:
    q, _ = np.linalg.qr(cdata((n, n), "u", *key))
    return q


_SIG = 7


def canon(x: Any) -> bytes:
    """Canonical byte string of a model state (arrays rounded)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return canon(x.tolist())
        if np.iscomplexobj(x):
            return canon(x.real) + canon(x.imag)
        if x.dtype.kind in "biu":
            return repr(x.shape).encode() + x.astype(np.int64).tobytes()
        r = np.round(x.astype(np.float64), _SIG) + 0.0
        return repr(x.shape).encode() + r.tobytes()
    if isinstance(x, (float, np.floating)):
        return repr(round(float(x), _SIG) + 0.0).encode()
    if isinstance(x, (complex, np.complexfloating)):
        return canon(x.real) + canon(x.imag)
    if isinstance(x, (list, tuple)):
        return b"(" + b",".join(canon(i) for i in x) + b")"
    if isinstance(x, dict):
        return b"{" + b",".join(
            canon(k) + b":" + canon(x[k]) for k in sorted(x, key=repr)
        ) + b"}"
    return repr(x).encode()


def h8(x: Any) -> int:
    return int.from_bytes(hashlib.blake2b(canon(x), digest_size=8).digest(), "little")


def describe(x: Any, limit: int = 400) -> str:
    if isinstance(x, np.ndarray):
        with np.printoptions(precision=6, threshold=24, linewidth=200):
            s = f"{x.dtype}{list(x.shape)} {x!r}"
    else:
        s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


def mismatch(got: Any, want: Any, tol: float) -> str | None:
    """None if got equals want (recursively; arrays up to tol), else why not."""
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return f"keys {describe(got)} != {describe(want)}"
        for k in want:
            m = mismatch(got[k], want[k], tol)
            if m:
                return f"[{k!r}] {m}"
        return None
    if isinstance(want, (list, tuple)) and not _numeric(want):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return f"sequence {describe(got)} != {describe(want)}"
        for i, (g, w) in enumerate(zip(got, want)):
            m = mismatch(g, w, tol)
            if m:
                return f"[{i}] {m}"
        return None
    if isinstance(want, (str, bool, type(None), type)):
        return None if got == want else f"got {describe(got)} want {describe(want)}"
    try:
        g = np.asarray(got)
        w = np.asarray(want)
        if g.dtype == object:
            g = g.astype(np.complex128)
        if w.dtype.kind in "biu" and g.dtype.kind in "biu":
            if g.shape != w.shape or not np.array_equal(g, w):
                return f"got {describe(g)} want {describe(w)}"
            return None
    except (TypeError, ValueError):
        return f"got {describe(got)} want {describe(want)}"
    if g.shape != w.shape:
        return f"shape {g.shape} != {w.shape}: got {describe(g)} want {describe(w)}"
    if w.size == 0:
        return None
    if not np.all(np.isfinite(g)):
        if np.array_equal(g, w, equal_nan=True):
            return None
        return f"not finite: got {describe(g)} want {describe(w)}"
    scale = max(1.0, float(np.max(np.abs(w))))
    err = float(np.max(np.abs(g - w)))
    if err > tol * scale:
        return f"error {err:.3g} (scale {scale:.3g}): got {describe(g)} want {describe(w)}"
    return None


def _numeric(x: Any) -> bool:
    """A number, or a regular (rectangular) nesting of numbers."""
    if isinstance(x, (list, tuple)):
        return all(_numeric(i) for i in x) and len({_depth_shape(i) for i in x}) <= 1
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool)


def _depth_shape(x: Any) -> tuple[int, ...]:
    if isinstance(x, (list, tuple)):
        return (len(x), *(_depth_shape(x[0]) if x else ()))
    return ()


class StopRoot(Exception):
    """Enough violations in this root."""


class Cx:
    """Counters and comparison for the exploration of one root configuration."""

    def __init__(self, family: str, cfg: Any) -> None:
        self.family = family
        self.cfg = cfg
        self.path: list[Any] = []
        self.states: set[int] = set()
        self.outcomes: set[int] = set()
        self.transitions = 0
        self.traces = 0
        self.violations: list[dict[str, Any]] = []
        self.notes: dict[str, int] = {}

    # -- bookkeeping ---------------------------------------------------------
    def state(self, *key: Any) -> bool:
        """Record a canonical model state; True when it is new in this root."""
        h = h8((self.family, key))
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trace(self, n: int = 1) -> None:
        self.traces += n

    def note(self, name: str, n: int = 1) -> None:
        self.notes[name] = self.notes.get(name, 0) + n

    @contextlib.contextmanager
    def at(self, *labels: Any):
        self.path.extend(labels)
        try:
            yield
        finally:
            del self.path[len(self.path) - len(labels) :]

    # -- comparisons ---------------------------------------------------------
    def fail(self, what: str, message: str) -> None:
        self.violations.append(
            {
                "family": self.family,
                "cfg": self.cfg,
                "path": [str(p) for p in self.path],
                "what": what,
                "message": message,
            }
        )
        if len(self.violations) >= MAX_VIOLATIONS_PER_ROOT:
            raise StopRoot

    def run(self, what: str, fn: Callable[[], Any]) -> tuple[bool, Any]:
        """Run the implementation; an exception is a violation."""
        self.transitions += 1
        try:
            with quiet():
                return True, fn()
        except StopRoot:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = next(
                (f"{Path(f.filename).name}:{f.lineno}" for f in reversed(tb)
                 if str(REPO) in f.filename),
                "?",
            )
            self.fail(what, f"raised {type(e).__name__}: {str(e)[:300]} at {where}")
            return False, None

    def step(
        self,
        what: str,
        fn: Callable[[], Any],
        want: Any,
        *,
        tol: float = 1e-8,
        state: Any = None,
    ) -> Any:
        """One lockstep transition: run fn on the implementation, compare."""
        ok, got = self.run(what, fn)
        if ok:
            m = mismatch(got, want, tol)
            if m:
                self.fail(what, m)
            else:
                self.outcomes.add(h8(want))
        self.state(what if state is None else state, want)
        return got if ok else None

    def holds(self, what: str, cond: Any, message: str = "") -> bool:
        """A monitor evaluated on a result already counted as a transition."""
        if not bool(cond):
            self.fail(what, message or "monitor is false")
            return False
        return True

    def same(self, what: str, got: Any, want: Any, tol: float = 1e-8) -> bool:
        m = mismatch(got, want, tol)
        if m:
            self.fail(what, m)
            return False
        self.outcomes.add(h8(want))
        return True


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


# -- driver --------------------------------------------------------------------

_PROP: Property | None = None
_DEADLINE = 0.0


def _run_root(job: tuple[str, Any]) -> dict[str, Any]:
    fam, cfg = job
    if time.time() > _DEADLINE:
        return {"skipped": 1}
    assert _PROP is not None
    cx = Cx(fam, cfg)
    t0 = time.time()
    try:
        with np.errstate(all="ignore"):
            _PROP.families[fam].explore(cfg, cx)
    except StopRoot:
        pass
    except Exception as e:  # noqa: BLE001
        # On the unchanged tree no root ends here.  The implementation raised while
        # the root was being set up, or returned something that is no answer at all.
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{Path(f.filename).name}:{f.lineno}" for f in reversed(tb))
        with contextlib.suppress(StopRoot):
            cx.fail("unusable result", f"{type(e).__name__}: {str(e)[:300]} at {where[:300]}")
    return {
        "family": fam,
        "cfg": cfg,
        "states": cx.states,
        "outcomes": cx.outcomes,
        "transitions": cx.transitions,
        "traces": cx.traces,
        "violations": cx.violations,
        "notes": cx.notes,
        "wall": time.time() - t0,
    }


def _chunks(jobs: list[Any], n: int) -> int:
    return max(1, min(16, len(jobs) // (n * 8)))


def jsonable(x: Any) -> Any:
    return json.loads(json.dumps(x))


def load_findings(pid: str) -> list[dict[str, Any]]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    data = json.loads(f.read_text())
    return [e for e in data.get("findings", []) if e["property"] == pid]


def finding_matches(e: dict[str, Any], v: dict[str, Any]) -> bool:
    m = e["match"]
    if m.get("family") != v["family"]:
        return False
    if "what" in m and m["what"] != v["what"]:
        return False
    if "cfg" in m and m["cfg"] != v["cfg"]:
        return False
    if "path" in m and m["path"] != v["path"]:
        return False
    return not ("message_contains" in m and m["message_contains"] not in v["message"])


def run_property(prop: Property, tier: str, *, families: list[str] | None = None,
                 procs: int | None = None, verbose: bool = False) -> int:
    global _PROP, _DEADLINE
    _PROP = prop
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "5400"))
    _DEADLINE = t0 + budget
    jobs: list[tuple[str, Any]] = []
    per_fam_roots: dict[str, int] = {}
    for fam in prop.families.values():
        if families and fam.name not in families:
            continue
        n = 0
        for cfg in fam.roots(tier):
            jobs.append((fam.name, jsonable(cfg)))
            n += 1
        per_fam_roots[fam.name] = n
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 1
    states: set[int] = set()
    outcomes: set[int] = set()
    transitions = traces = skipped = explored = 0
    violations: list[dict[str, Any]] = []
    notes: dict[str, int] = {}
    fam_stats: dict[str, dict[str, Any]] = {
        f: {"roots": n, "transitions": 0, "states": 0, "traces": 0, "cpu_s": 0.0}
        for f, n in per_fam_roots.items()
    }
    samples: dict[str, Any] = {}

    def absorb(r: dict[str, Any]) -> None:
        nonlocal transitions, traces, skipped, explored
        if r.get("skipped"):
            skipped += 1
            return
        explored += 1
        new = r["states"] - states
        states.update(new)
        outcomes.update(r["outcomes"])
        transitions += r["transitions"]
        traces += r["traces"]
        st = fam_stats[r["family"]]
        st["transitions"] += r["transitions"]
        st["states"] += len(new)
        st["traces"] += r["traces"]
        st["cpu_s"] = round(st["cpu_s"] + r["wall"], 3)
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
        violations.extend(r["violations"])
        samples[r["family"]] = {
            "family": r["family"],
            "root": r["cfg"],
            "transitions": r["transitions"],
            "states": len(r["states"]),
            "traces": r["traces"],
        }

    if procs == 1 or len(jobs) <= 1:
        for j in jobs:
            absorb(_run_root(j))
    else:
        ctx = multiprocessing.get_context("fork")
        # Large and small roots are interleaved deterministically.
        order = sorted(range(len(jobs)), key=lambda i: hashlib.md5(repr(jobs[i]).encode()).digest())
        with ctx.Pool(procs) as pool:
            for r in pool.imap_unordered(
                _run_root, [jobs[i] for i in order], chunksize=_chunks(jobs, procs)
            ):
                absorb(r)

    known = load_findings(prop.pid)
    used: set[int] = set()
    fresh = []
    for v in violations:
        hit = next((i for i, e in enumerate(known) if finding_matches(e, v)), None)
        if hit is None:
            fresh.append(v)
        else:
            used.add(hit)
    wall = time.time() - t0
    coverage: dict[str, Any] = {
        "exhaustive": skipped == 0,
        "rule": prop.rule,
        "roots": explored,
        "roots_skipped_for_time": skipped,
        "distinct_outcomes": len(outcomes),
        "families": fam_stats,
        "samples": list(samples.values())[:12],
        "notes": notes,
    }
    if prop.level == "model_checking":
        coverage["states"] = len(states)
        coverage["transitions"] = transitions
        coverage["traces_validated_against_impl"] = traces
    else:
        coverage["evaluations"] = transitions
        coverage["distinct_nontrivial"] = len(states)
        coverage["traces_validated_against_impl"] = traces
    evidence = {
        "property": prop.pid,
        "tier": tier,
        "seed": SEED,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(fresh),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    if not families:
        (evdir / f"{prop.pid}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    print(
        f"{prop.pid} [{tier}] roots={explored} states={len(states)} transitions={transitions} "
        f"traces={traces} outcomes={len(outcomes)} skipped={skipped} wall={wall:.1f}s"
    )
    if verbose:
        for f, s in fam_stats.items():
            print("   ", f, s)
    for i in sorted(used):
        print(f"KNOWN-FINDING: property={prop.pid} {known[i]['summary']}")
    if not fresh:
        return 0
    rdir = evdir / "replay"
    rdir.mkdir(exist_ok=True)
    shown = 0
    seen_what: dict[tuple[str, str], int] = {}
    # shortest histories first, at most two per distinct (family, step)
    for v in sorted(fresh, key=lambda v: (len(v["path"]), len(repr(v["cfg"])), repr(v["cfg"]))):
        key = (v["family"], v["what"])
        seen_what[key] = seen_what.get(key, 0) + 1
        if seen_what[key] > 1 or shown >= (200 if verbose else MAX_REPORTED):
            continue
        shown += 1
        path = rdir / f"{prop.pid}-{shown}.json"
        path.write_text(json.dumps({"property": prop.pid, **v}, indent=1) + "\n")
        print(f"VIOLATION property={prop.pid} replay={path}")
        print(f"  family={v['family']} root={json.dumps(v['cfg'])[:300]}")
        print(f"  path={' / '.join(v['path'])[:300]}")
        print(f"  step={v['what']}: {v['message'][:600]}")
    print(f"{len(fresh)} violations in total; distinct steps: "
          + ", ".join(f"{f}:{w} x{n}" for (f, w), n in sorted(seen_what.items()))[:3000])
    return 1


def replay(prop: Property, file: str) -> int:
    global _PROP, _DEADLINE
    _PROP = prop
    _DEADLINE = time.time() + 3600
    rec = json.loads(Path(file).read_text())
    r = _run_root((rec["family"], rec["cfg"]))
    hits = [v for v in r["violations"] if v["what"] == rec["what"]] or r["violations"]
    if not hits:
        print(f"replay: no violation (root {rec['cfg']}, {r['transitions']} transitions)")
        return 0
    for v in hits:
        print(f"VIOLATION property={prop.pid} replay={file}")
        print(f"  path={' / '.join(v['path'])}\n  step={v['what']}: {v['message']}")
    return 1
