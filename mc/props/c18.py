"""C18: cached results - every call history, crash point, torn write and interleaving."""

from __future__ import annotations

import itertools
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading
from pathlib import Path
from typing import Any, Callable

import numpy as np

from mc import core
from mc.core import Cx, Property

from surface_potential_analysis.basis.basis import (
    FundamentalPositionBasis,
    FundamentalTransformedPositionBasis,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.util.decorators import cached, npy_cached, timed

PROP = Property(
    "C18",
    rule=(
        "calls: every sequence of cached/uncached calls, deletions, mutations of what was returned and fresh "
        "decorations up to the depth, run on the real decorators over a scratch directory against a dictionary; "
        "crash: every line of the package and every byte of the written file at which the process can be killed, "
        "the write can fail or the call be interrupted, followed by every pair of later calls; "
        "races: every interleaving of two calls at line granularity up to the preemption bound"
    ),
    assumptions=[
        "a killed process loses what it had not handed to the operating system; the operating system itself does not lose "
        "or reorder what it was handed (no power failure)",
        "renaming within a directory is atomic (POSIX)",
        "values are mappings or arrays, as the signatures say: a cached None is not distinguished from nothing",
    ],
)

_PKG = str(core.REPO) + os.sep


class Scratch:
    def __enter__(self) -> Path:
        self.d = Path(tempfile.mkdtemp(prefix="c18-"))
        return self.d

    def __exit__(self, *a: Any) -> None:
        shutil.rmtree(self.d, ignore_errors=True)


class Boom(Exception):
    """Raised by the user's function."""


# -- the user's function --------------------------------------------------------


class World:
    """The user's function, its call count, and a decorated form of it."""

    def __init__(self, kind: str, scheme: str, d: Path, default: str | None = None) -> None:
        self.kind, self.scheme, self.d, self.default = kind, scheme, d, default
        self.version = 0
        self.raises = False
        self.unstorable = False
        self.decorate()

    def path(self, arg: str) -> Path | None:
        ext = "" if self.scheme.endswith("-bare") else ".npy"
        s = self.scheme.removesuffix("-bare")
        if s == "none" or (s == "some" and arg == "b"):
            return None
        return self.d / (f"cache_{arg}{ext}" if s in ("each", "some") else f"cache{ext}")

    def value(self, arg: str, version: int) -> Any:
        if self.kind == "npy":
            return np.array([version, ord(arg[0]), 0.5]) * (1 + 2j)
        return {
            "arg": arg,
            "data": np.arange(3) * (1.0 + 1j) + version,
            "basis": [("x", version)],
        }

    def decorate(self) -> None:
        def f(arg: str, *, scale: int = 1) -> Any:
            """The answer."""
            self.version += 1
            if self.raises:
                raise Boom(arg)
            out = self.value(arg, self.version)
            if self.unstorable:
                if self.kind == "npy":
                    return np.array([out, lambda: 0], dtype=object)
                out["extra"] = lambda: 0
            return out

        path: Any
        if self.scheme.startswith("none"):
            path = None
        elif self.scheme.startswith("one"):
            path = self.path("a")
        else:
            path = lambda arg, *, scale=1: self.path(arg)  # noqa: E731
        if self.kind == "npy":
            self.f = npy_cached(path)(f)
        elif self.default is None:
            self.f = cached(path)(f)
        else:
            self.f = cached(path, default_call=self.default)(f)

    def call(self, mode: str, arg: str) -> Any:
        with core.quiet():
            if mode == "call":
                return self.f(arg)
            if mode == "keyword":
                return self.f(arg=arg)
            return getattr(self.f, mode)(arg)

    def meaning(self, mode: str) -> str:
        if mode in ("call", "keyword"):
            return self.default or "load_or_call_cached"
        return mode


LOADS = ("load_or_call_cached", "load_or_call_uncached")
STORES = ("load_or_call_cached", "call_cached")
MODES = ["call_uncached", "call_cached", "load_or_call_uncached", "load_or_call_cached"]


def _modes(kind: str) -> list[str]:
    return ["call"] if kind == "npy" else MODES


# -- family: call histories -----------------------------------------------------


def _call_roots(tier: str):
    schemes = ["none", "one", "each", "some", "one-bare", "each-bare"]
    depth = 3 if tier == "quick" else 4
    for kind in ("pickle", "npy"):
        for scheme in schemes:
            defaults = [None, *MODES] if kind == "pickle" else [None]
            for default in defaults:
                d = depth + (1 if kind == "npy" else 0)
                alphabet = _alphabet(kind, default)
                for first in alphabet:
                    yield {"kind": kind, "scheme": scheme, "default": default, "depth": d, "first": first}


def _alphabet(kind: str, default: str | None) -> list[list[str]]:
    if kind == "npy":
        calls = ["call", "keyword"]
    elif default is None:
        calls = ["call", *MODES]
    else:
        calls = ["call", "keyword"]
    ops = [[m, a] for m in calls for a in ("a", "b")]
    ops += [["delete", "a"], ["redecorate", ""], ["mutate", ""], ["raise", "a"], ["unstorable", "a"]]
    return ops


@PROP.family("calls", _call_roots)
def calls(cfg: dict[str, Any], cx: Cx) -> None:
    alphabet = _alphabet(cfg["kind"], cfg["default"])
    for rest in itertools.product(alphabet, repeat=cfg["depth"] - 1):
        with Scratch() as d:
            _history(cfg, cx, d, [cfg["first"], *rest])
        cx.trace()


def _history(cfg: dict[str, Any], cx: Cx, d: Path, ops: Any) -> None:
    w = World(cfg["kind"], cfg["scheme"], d, cfg["default"])
    store: dict[str, Any] = {}
    count = 0
    last: Any = None
    with cx.at(*(f"{o} {a}".strip() for o, a in ops)):
        for op, arg in ops:
            p = str(w.path(arg)) if arg and w.path(arg) is not None else None
            if op == "delete":
                if p is not None:
                    Path(p).unlink(missing_ok=True)
                    store.pop(p, None)
                continue
            if op == "redecorate":
                w.decorate()
                continue
            if op == "mutate":
                if isinstance(last, np.ndarray):
                    last[...] = -99
                elif last is not None:
                    last["data"][...] = -99
                    last["arg"] = "spoilt"
                continue
            if op in ("raise", "unstorable"):
                mode = "call"
            else:
                mode = op
            m = w.meaning(mode)
            hit = m in LOADS and p is not None and p in store
            w.raises, w.unstorable = op == "raise", op == "unstorable"
            before = w.version
            try:
                got = w.call(mode, arg)
                err = None
            except Exception as e:  # noqa: BLE001
                got, err = None, e
            w.raises = w.unstorable = False
            cx.transitions += 1
            what = f"{mode} [{m}]"
            if hit:
                want, ncalls, fails = store[p], 0, False
            else:
                count = before + 1
                want, ncalls = w.value(arg, count), 1
                fails = op == "raise" or (op == "unstorable" and m in STORES and p is not None)
                if m in STORES and p is not None and not fails:
                    store[p] = w.value(arg, count)
            cx.state(cfg["kind"], cfg["scheme"], m, hit, fails, sorted(store.items()))
            if w.version - before != ncalls:
                cx.fail(what, f"the function was called {w.version - before} times, not {ncalls}")
                return
            if fails:
                if err is None:
                    cx.fail(what, "the failure was swallowed")
                    return
                if op == "raise" and not isinstance(err, Boom):
                    cx.fail(what, f"raised {err!r} instead of the function's own exception")
                    return
                continue
            if err is not None:
                cx.fail(what, f"raised {type(err).__name__}: {str(err)[:200]}")
                return
            if op == "unstorable" and not hit:
                last = None
                continue
            if not cx.same(what, got, want, 0):
                return
            last = got
        # nothing beside the caches is left in the directory
        left = sorted(str(q) for q in d.iterdir())
        if left != sorted(store):
            cx.fail("files left", f"{[Path(q).name for q in left]} instead of {[Path(q).name for q in sorted(store)]}")


# -- family: values -------------------------------------------------------------


def _value_roots(tier: str):
    for i in range(len(_npy_values())):
        yield {"kind": "npy", "value": i}
    for i in range(len(_npy_objects())):
        yield {"kind": "npy object", "value": i}
    for i in range(len(_pickle_values())):
        for arg in ("positional", "keyword", "default"):
            yield {"kind": "pickle", "value": i, "arg": arg}
    for i in range(len(_bare_values())):
        yield {"kind": "bare", "value": i}
    yield {"kind": "wrapper", "value": 0}


def _npy_values() -> list[Any]:
    out: list[Any] = []
    for dt in (np.complex128, np.float64, np.int64, np.int32, np.uint8, np.bool_, np.complex64, np.float32):
        for shape in ((), (1,), (3,), (2, 3), (2, 0), (1, 2, 3)):
            out.append((np.arange(int(np.prod(shape))).reshape(shape) % 3).astype(dt) * dt(1))
    a = core.cdata((4, 3), "npy")
    out += [a.T, a[::2], np.asfortranarray(a), a[:, 1], 5, 2.5, 1 + 2j, True, "text", [1, 2, 3], [[1.5], [2.5]],
            (1j, 2), np.array(["a", "bcd"]), np.array([np.nan, np.inf]), np.array([(1, 2.5)], dtype=[("k", "i4"), ("x", "f8")])]
    return out


def _npy_objects() -> list[Any]:
    """What an array cache which may load pickles gives back as it was."""
    return [*_pickle_values(), None, {"a": np.arange(3)}, np.array([{"a": 1}, None, "b"], dtype=object), 10**40, {1, 2}]


def _pickle_values() -> list[Any]:
    b = TupleBasis(
        FundamentalPositionBasis(np.array([1.0, 0.5]), 3),
        FundamentalTransformedPositionBasis(np.array([0.0, 2.0]), 2),
    )
    return [
        {},
        {"basis": b, "data": core.cdata(6, "p")},
        {"basis": TupleBasis(b, b), "data": core.cdata(36, "q"), "eigenvalue": np.array(2.0 + 1j)},
        {1: {"nested": [np.arange(3), (1, "two", None)]}, "empty": np.zeros((0, 2))},
        {"flags": np.array([True, False]), "text": "snow ☃", "big": 10**40},
    ]


def _bare_values() -> list[Any]:
    """Values returned as they are, several of which are false (or have no truth value)."""
    return [*_pickle_values(), 0, 0.0, 0j, False, "", b"", [], (), np.zeros(0), np.zeros(1), np.zeros((2, 2)), np.array(0.0), np.bool_(False)]


def _plain(x: Any) -> Any:
    if isinstance(x, TupleBasis):
        return ("stack", [_plain(b) for b in x])
    if isinstance(x, (FundamentalPositionBasis, FundamentalTransformedPositionBasis)):
        return ("basis", type(x).__name__, x.n, x.fundamental_n, np.asarray(x.delta_x).tolist())
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes(order="C"))
    if isinstance(x, dict):
        return ("dict", [(k, _plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [_plain(v) for v in x])
    return (type(x).__name__, repr(x))


@PROP.family("values", _value_roots)
def values(cfg: dict[str, Any], cx: Cx) -> None:
    if cfg["kind"] == "wrapper":
        _wrappers(cx)
        return
    with Scratch() as d:
        if cfg["kind"] == "npy":
            v = _npy_values()[cfg["value"]]
            n = [0]

            def g(x: int = 0) -> Any:
                n[0] += 1
                return v

            for name in ("v.npy", "v", "v.data"):
                n[0] = 0
                f = npy_cached(d / name)(g)
                with cx.at(name):
                    ok, first = cx.run("first call", lambda: f())
                    if ok:
                        cx.holds("first value", first is v or np.array_equal(first, v), f"{first!r}")
                    for i in range(2):
                        ok, again = cx.run(f"call {i + 2}", lambda: npy_cached(d / name)(g)())
                        if not ok:
                            continue
                        a, w = np.asanyarray(again), np.asanyarray(v)
                        cx.holds(
                            f"value {i + 2}",
                            a.dtype == w.dtype and a.shape == w.shape and a.tobytes() == w.tobytes(),
                            f"{again!r} instead of {v!r}",
                        )
                        if not isinstance(v, (np.ndarray, list, tuple)):
                            cx.holds(f"no array {i + 2}", not isinstance(again, np.ndarray), f"{again!r} instead of {v!r}")
                        cx.holds(f"computed once {i + 2}", n[0] == 1, f"called {n[0]} times")
                    cx.state(cfg["value"], name)
                    cx.trace()
            return
        if cfg["kind"] == "npy object":
            _npy_object(_npy_objects()[cfg["value"]], cx, d)
            return
        if cfg["kind"] == "bare":
            _bare(_bare_values()[cfg["value"]], cx, d)
            return
        v = _pickle_values()[cfg["value"]]
        n = [0]

        def h(x: int = 3, *, y: int = 4) -> Any:
            n[0] += 1
            return {"value": v, "sum": x + y}

        call: Callable[[Any], Any] = {
            "positional": lambda f: f(1, y=2),
            "keyword": lambda f: f(x=1, y=2),
            "default": lambda f: f(),
        }[cfg["arg"]]
        total = 7 if cfg["arg"] == "default" else 3
        seen: list[Any] = []

        def where(*a: Any, **k: Any) -> Path:
            seen.append((a, k))
            return d / f"{cfg['value']}.pkl"

        for i in range(3):
            ok, got = cx.run(f"call {i}", lambda: call(cached(where)(h)))
            if ok:
                cx.holds(f"value {i}", _plain(got) == _plain({"value": v, "sum": total}), repr(got)[:300])
                cx.holds(f"computed once {i}", n[0] == 1, f"called {n[0]} times")
            want_args = {"positional": ((1,), {"y": 2}), "keyword": ((), {"x": 1, "y": 2}), "default": ((), {})}[cfg["arg"]]
            cx.holds(f"path arguments {i}", seen and all(s == want_args for s in seen), repr(seen))
            if ok and isinstance(v.get("basis"), TupleBasis):
                b = got["value"]["basis"]
                cx.same(f"usable basis {i}", BasisUtil(b).shape, BasisUtil(v["basis"]).shape)
            cx.state(cfg["value"], cfg["arg"], i)
            cx.trace()


def _npy_object(v: Any, cx: Cx, d: Path) -> None:
    n = [0]

    def g() -> Any:
        n[0] += 1
        return v

    for save in (None, True):
        n[0] = 0
        extra = {} if save is None else {"save_pickle": save}
        for i in range(3):
            with cx.at(save):
                ok, got = cx.run(f"call {i}", lambda: npy_cached(d / f"o{save}.npy", load_pickle=True, **extra)(g)())
                if ok:
                    same = _plain(got.tolist()) == _plain(v.tolist()) if isinstance(v, np.ndarray) else _plain(got) == _plain(v)
                    cx.holds(f"value {i}", same, f"{got!r} instead of {v!r}"[:300])
                    cx.holds(f"computed once {i}", n[0] == 1, f"called {n[0]} times")
                cx.state(repr(v), save, i)
        cx.trace()


def _bare(v: Any, cx: Cx, d: Path) -> None:
    """All histories of three calls, each of any mode, of a function which returns v itself."""
    modes = ("call_cached", "call_uncached", "load_or_call_cached", "load_or_call_uncached")
    for k, history in enumerate(itertools.product(modes, repeat=3)):
        n = [0]

        def g() -> Any:
            n[0] += 1
            return v

        f = cached(d / f"bare{k}.pkl")(g)
        saved, want = False, 0
        for i, mode in enumerate(history):
            with cx.at(*history[: i + 1]):
                want += not (saved and mode.startswith("load"))
                saved = saved or mode.endswith("call_cached")
                ok, got = cx.run("call", lambda m=mode: getattr(f, m)())
                if ok:
                    cx.holds("value", _plain(got) == _plain(v), f"{got!r} instead of {v!r}")
                cx.holds("times computed", n[0] == want, f"called {n[0]} times instead of {want}")
                cx.state(repr(v), *history[: i + 1])
        cx.trace()


def _wrappers(cx: Cx) -> None:
    def f(x: int, *, y: int = 1) -> dict[str, int]:
        """Doc."""
        if x < 0:
            raise Boom(x)
        return {"v": x + y}

    for name, g in (("timed", timed(f)), ("npy", npy_cached(None)(f)), ("cached", cached(None)(f))):
        with cx.at(name):
            for x, y in itertools.product(range(-1, 3), range(2)):
                if x < 0:
                    def bad() -> Any:
                        try:
                            g(x, y=y)
                        except Boom as e:
                            return ["Boom", e.args[0]]
                        return None

                    cx.step("exception passes", bad, ["Boom", x], state=(name, x, y))
                else:
                    cx.step("value passes", lambda: g(x, y=y), {"v": x + y}, state=(name, x, y))
            cx.step("name", lambda: g.__name__, "f")
            cx.step("doc", lambda: g.__doc__, "Doc.")
        cx.trace()


# -- family: crash points -------------------------------------------------------


def _crash_roots(tier: str):
    for kind in ("pickle", "npy"):
        for scheme in ("one", "one-bare") if kind == "npy" or tier != "quick" else ("one",):
            for prior in ("none", "old"):
                for mode in _modes(kind) if kind == "npy" else STORES:
                    for fault in ("kill line", "interrupt line", "kill byte", "error byte"):
                        yield {"kind": kind, "scheme": scheme, "prior": prior, "mode": mode, "fault": fault}


class Interrupted(BaseException):
    pass


def _line_trace(target: int, act: Callable[[], None]) -> tuple[Callable, list[int]]:
    """Count executed lines of the package; act on reaching the target."""
    count = [0]

    def local(frame: Any, event: str, arg: Any) -> Any:
        if event in ("line", "return"):
            count[0] += 1
            if count[0] == target:
                act()
        return local

    def trace(frame: Any, event: str, arg: Any) -> Any:
        return local if frame.f_code.co_filename.startswith(_PKG) else None

    return trace, count


def _child(w: World, mode: str, fault: str, point: int) -> int:
    """Run one call in a child with the fault at the point; 0 the fault did not occur, else it did."""
    pid = os.fork()
    if pid:
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return 1
        return os.WEXITSTATUS(status)
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        if fault.endswith("byte"):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault.startswith("kill") else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (point, point))
            try:
                w.call(mode, "a")
            except Exception:  # noqa: BLE001
                os._exit(1)
            os._exit(0)
        if fault == "kill line":
            trace, count = _line_trace(point, lambda: os._exit(1))
        else:
            def act() -> None:
                raise Interrupted

            trace, count = _line_trace(point, act)
        sys.settrace(trace)
        try:
            w.call(mode, "a")
        except Interrupted:
            pass
        sys.settrace(None)
        os._exit(0 if count[0] < point else 1)
    except BaseException:  # noqa: BLE001
        os._exit(3)
    finally:
        os._exit(4)


@PROP.family("crash", _crash_roots)
def crash(cfg: dict[str, Any], cx: Cx) -> None:
    follow = [list(s) for s in itertools.product(_modes(cfg["kind"]), repeat=2)]
    if cfg["kind"] == "pickle":
        follow = [s for s in follow if s[0] in LOADS]
    with Scratch() as d0:
        w = World(cfg["kind"], cfg["scheme"], d0)
        old = None
        path = w.path("a")
        assert path is not None
        if cfg["prior"] == "old":
            old = w.value("a", 1)
            ok, _ = cx.run("first call", lambda: w.call(_modes(cfg["kind"])[-1], "a"))
            if not ok:
                return
        v0 = w.version
        stores = cfg["mode"] == "call_cached" or old is None
        new = w.value("a", v0 + 1) if stores else None
        base = {q.name: q.read_bytes() for q in d0.iterdir()}
        byte = cfg["fault"].endswith("byte")
        point, last = (0, 0) if byte else (1, 0)
        if byte:
            # an undisturbed call shows how much there is to write
            if _child(w, cfg["mode"], cfg["fault"], 1 << 30) != 0:
                cx.fail("undisturbed call", "the call did not end well")
                return
            last = max((q.stat().st_size for q in d0.iterdir()), default=0)
        while True:
            for q in list(d0.iterdir()):
                q.unlink()
            for name, raw in base.items():
                (d0 / name).write_bytes(raw)
            with cx.at(f"{cfg['fault']} {point}"):
                r = _child(w, cfg["mode"], cfg["fault"], point)
                over = point >= last if byte else r == 0
                cx.transitions += 1
                if r not in (0, 1):
                    cx.fail("faulty call", f"the call ended in an unexpected way ({r})")
                    return
                after = {q.name: q.read_bytes() for q in d0.iterdir()}
                key = sorted(after.items())
                cx.state("disk", _norm(key, path.name))
                for ops in follow:
                    for q in list(d0.iterdir()):
                        q.unlink()
                    for name, raw in after.items():
                        (d0 / name).write_bytes(raw)
                    _recover(cfg, cx, d0, ops, old, new, v0, over and r == 0)
                if over:
                    break
            point += 1
            if point > 4000:
                cx.fail("faulty call", "no end of the call in sight")
                return
        cx.note(f"{cfg['fault']} points", point)


def _norm(key: Any, name: str) -> Any:
    return sorted((n if n == name else "other", len(b)) for n, b in key)


def _recover(cfg: Any, cx: Cx, d: Path, ops: list[str], old: Any, new: Any, v0: int, complete: bool) -> None:
    w = World(cfg["kind"], cfg["scheme"], d)
    w.version = v0 + 10
    with cx.at(*ops):
        stored: Any = "?"
        for i, op in enumerate(ops):
            m = w.meaning(op)
            before = w.version
            try:
                got = w.call(op, "a")
            except Exception as e:  # noqa: BLE001
                cx.transitions += 1
                cx.fail(f"call {i + 1} after the fault", f"raised {type(e).__name__}: {str(e)[:200]}")
                return
            cx.transitions += 1
            fresh = w.value("a", before + 1)
            called = w.version - before
            if m == "call_uncached" or m == "call_cached":
                allowed = [(1, fresh)]
            elif isinstance(stored, str):
                if complete:
                    kept = [x for x in (new if new is not None else old,)]
                else:
                    kept = [old] if new is None else [old, new]
                allowed = [(1, fresh) if k is None else (0, k) for k in kept]
            else:
                allowed = [(1, fresh) if stored[0] is None else (0, stored[0])]
            fits = [
                (n, v) for n, v in allowed if n == called and core.mismatch(got, v, 0) is None
            ]
            if not fits:
                cx.fail(
                    f"call {i + 1} after the fault",
                    f"returned {got!r} calling the function {called} times; allowed {allowed!r}",
                )
                return
            cx.outcomes.add(core.h8((called, cfg["prior"], m)))
            if m in STORES and called:
                stored = [fresh]
            elif m in LOADS:
                stored = [None if called else fits[0][1]]
        cx.trace()


# -- family: races --------------------------------------------------------------


def _race_roots(tier: str):
    bound = 2 if tier == "quick" else 3
    for kind in ("pickle", "npy"):
        modes = _modes(kind) if kind == "npy" else [*STORES, "load_or_call_uncached"]
        for prior in ("none", "old"):
            for a, b in itertools.product(modes, repeat=2):
                for args in ("aa", "ab"):
                    yield {"kind": kind, "prior": prior, "modes": [a, b], "args": args, "bound": bound}


class Scheduler:
    """Two threads, one running at a time, switched only at lines of the package."""

    def __init__(self, prefix: list[int]) -> None:
        self.prefix = prefix
        self.points: list[tuple[int, bool]] = []  # (running thread, is the other enabled)
        self.choices: list[int] = []
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.results: list[Any] = [None, None]
        self.finished = threading.Semaphore(0)

    def point(self, me: int) -> None:
        other = 1 - me
        i = len(self.choices)
        self.points.append((me, not self.done[other]))
        choice = self.prefix[i] if i < len(self.prefix) else 0
        if choice and self.done[other]:
            raise RuntimeError("replay diverged")
        self.choices.append(choice)
        if choice:
            self.turn[other].release()
            self.turn[me].acquire()

    def thread(self, me: int, fn: Callable[[], Any]) -> None:
        self.turn[me].acquire()

        def local(frame: Any, event: str, arg: Any) -> Any:
            if event == "line":
                self.point(me)
            return local

        def trace(frame: Any, event: str, arg: Any) -> Any:
            return local if frame.f_code.co_filename.startswith(_PKG) else None

        sys.settrace(trace)
        try:
            self.results[me] = ("ok", fn())
        except Exception as e:  # noqa: BLE001
            self.results[me] = ("raised", f"{type(e).__name__}: {str(e)[:200]}")
        finally:
            sys.settrace(None)
        self.done[me] = True
        if self.done[1 - me]:
            self.finished.release()
        else:
            self.turn[1 - me].release()

    def run(self, fns: list[Callable[[], Any]], first: int) -> list[Any]:
        ts = [threading.Thread(target=self.thread, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.turn[first].release()
        if not self.finished.acquire(timeout=60):
            raise RuntimeError("deadlock")
        for t in ts:
            t.join()
        return self.results


@PROP.family("races", _race_roots)
def races(cfg: dict[str, Any], cx: Cx) -> None:
    for first in (0, 1):
        stack: list[list[int]] = [[]]
        while stack:
            prefix = stack.pop()
            with Scratch() as d:
                s = _race(cfg, cx, d, prefix, first)
            if s.choices[: len(prefix)] != prefix:
                cx.fail("replay", "the schedule could not be replayed")
                return
            cx.trace()
            spent = sum(prefix)
            if spent >= cfg["bound"]:
                continue
            for i in range(len(prefix), len(s.choices)):
                if s.points[i][1]:
                    stack.append([*s.choices[:i], 1])


def _race(cfg: dict[str, Any], cx: Cx, d: Path, prefix: list[int], first: int) -> Scheduler:
    w = World(cfg["kind"], "each", d)
    kept: dict[str, list[Any]] = {"a": [None], "b": [None]}
    if cfg["prior"] == "old":
        for a in sorted(set(cfg["args"])):
            w.call(_modes(cfg["kind"])[-1], a)
            kept[a] = [w.value(a, w.version)]
    v0 = w.version
    s = Scheduler(prefix)
    fns = [
        (lambda m=m, a=a: getattr(w.f, m)(a) if m != "call" else w.f(a))
        for m, a in zip(cfg["modes"], cfg["args"])
    ]
    results = s.run(fns, first)
    cx.transitions += len(s.choices)
    label = f"first={first} switches at {[i for i, c in enumerate(s.choices) if c]}"
    with cx.at(label):
        produced = {a: [w.value(a, v) for v in range(v0 + 1, w.version + 1)] for a in "ab"}
        for i, (m, a) in enumerate(zip(cfg["modes"], cfg["args"])):
            status, got = results[i]
            if status != "ok":
                cx.fail(f"call {i + 1} {m}", f"raised {got}")
                return s
            ok = [x for x in (kept[a] + produced[a]) if x is not None]
            if w.meaning(m) == "call_cached":
                ok = produced[a]
            if not any(core.mismatch(got, x, 0) is None for x in ok):
                cx.fail(f"call {i + 1} {m}", f"returned {got!r}")
                return s
        # afterwards: the caches hold whole values that were there before or were stored
        calls = w.version
        for a in sorted(set(cfg["args"])):
            stored = [
                m for m, x in zip(cfg["modes"], cfg["args"]) if x == a and w.meaning(m) in STORES
            ]
            before = w.version
            try:
                got = w.call(_modes(cfg["kind"])[-1], a)
            except Exception as e:  # noqa: BLE001
                cx.fail("later call", f"raised {type(e).__name__}: {str(e)[:200]}")
                return s
            fresh = w.version - before
            forced = any(w.meaning(m) == "call_cached" for m in stored)
            ok = list(produced[a])
            if not forced:
                ok += [x for x in kept[a] if x is not None]
            if kept[a][0] is None and not stored:
                good = fresh == 1
            else:
                good = fresh == 0 and any(core.mismatch(got, x, 0) is None for x in ok)
            if not good:
                cx.fail("later call", f"returned {got!r} after calling the function {fresh} times")
                return s
            cx.state(cfg["modes"], cfg["args"], cfg["prior"], calls - v0, core.describe(got))
            cx.outcomes.add(core.h8((calls - v0, core.describe(got))))
    return s
