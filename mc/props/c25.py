"""C25: the options which all plots share mean the same to all of them."""

from __future__ import annotations

import functools
import importlib
import inspect
import pkgutil
import sys
from typing import Any

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.animation import ArtistAnimation
from matplotlib.axes import Axes
from matplotlib.collections import Collection, QuadMesh
from matplotlib.colors import SymLogNorm
from matplotlib.lines import Line2D

import surface_potential_analysis as spa
from mc.core import Cx, Property, mismatch, quiet
from mc.props import c24

PROP = Property(
    "C25",
    rule="Every plot made by the checks of plots (C21, C22, C23), on one in several of the roots of their quick tier (thorough: all): "
    "drawn again with the axes given or not, with each measure and with another scale.",
    assumptions=["scales are seen on the axis of values of lines and in the norm of the colours of maps"],
)

MEASURES = ("real", "imag", "abs", "angle")

# The measures of these are not those of one complex number: averages of what is measured, numbers of
# values, values put in order.
OTHER_MEASURES = ("plot_average_value_list_against_time", "plot_average_drift_1d_x", "plot_average_isf_1d_x",
                  "plot_average_displacement_1d_x", "plot_diagonal_noise_operators_eigenvalues", "sparsity", "distribution")

# Plots of random numbers.
RANDOM = "single_sample"


# -- finding the plots --------------------------------------------------------------------


def modules():
    for m in pkgutil.walk_packages(spa.__path__, spa.__name__ + "."):
        try:
            importlib.import_module(m.name)
        except Exception:  # noqa: BLE001, S112
            continue
    return [m for n, m in sorted(sys.modules.items()) if n.startswith(spa.__name__ + ".") and m is not None]


@functools.cache
def plots() -> dict[Any, inspect.Signature]:
    """Every public plot of the package."""
    out = {}
    for mod in modules():
        for name, f in vars(mod).items():
            if name.startswith(("plot", "animate")) and inspect.isfunction(inspect.unwrap(f)) and f.__module__ == mod.__name__:
                out[f] = inspect.signature(f)
    return out


class Recorder:
    """Notes the outermost plots called while it is active."""

    def __init__(self) -> None:
        self.calls: list[tuple[Any, dict[str, Any], Any]] = []
        self.depth = 1
        self.undo: list[tuple[Any, str, Any]] = []

    def wrap(self, f, sig):
        @functools.wraps(f)
        def seen(*args, **kwargs):
            if self.depth:
                return f(*args, **kwargs)
            self.depth += 1
            try:
                out = f(*args, **kwargs)
            finally:
                self.depth -= 1
            self.calls.append((f, dict(sig.bind(*args, **kwargs).arguments), out))
            return out

        return seen

    def __enter__(self):
        for f, sig in plots().items():
            mod = sys.modules[f.__module__]
            self.undo.append((mod, f.__name__, f))
            setattr(mod, f.__name__, self.wrap(f, sig))
        return self

    def __exit__(self, *_):
        for mod, name, f in self.undo:
            setattr(mod, name, f)


def call(f, sig, arguments):
    """Call f with these values of its parameters."""
    args, kwargs = [], {}
    for name, p in sig.parameters.items():
        if p.kind is p.VAR_POSITIONAL:
            args.extend(arguments.get(name, ()))
        elif p.kind is p.VAR_KEYWORD:
            kwargs.update(arguments.get(name, {}))
        elif name in arguments:
            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and not kwargs:
                args.append(arguments[name])
            else:
                kwargs[name] = arguments[name]
        elif p.kind is p.POSITIONAL_OR_KEYWORD:
            # What follows has to be named.
            rest = list(sig.parameters)[list(sig.parameters).index(name) + 1 :]
            for r in rest:
                if r in arguments and sig.parameters[r].kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY):
                    kwargs[r] = arguments[r]
            return f(*args, **kwargs)
    return f(*args, **kwargs)


# -- what a plot shows -----------------------------------------------------------------------


def artists(got) -> list[Any] | None:
    """The lines and maps returned by a plot, or if it returns none those on its axes."""
    if not isinstance(got, tuple) or len(got) < 2 or not isinstance(got[1], Axes):
        return None
    last = got[2] if len(got) > 2 else None
    if isinstance(last, (Line2D, Collection)):
        return [last]
    if isinstance(last, (list, tuple)) and all(isinstance(x, (Line2D, Collection)) for x in last):
        return list(last)
    if isinstance(last, ArtistAnimation):
        return [a for frame in last.new_frame_seq() for a in frame]
    return [*got[1].get_lines(), *(c for c in got[1].collections if isinstance(c, QuadMesh))]


def shown(artist):
    """(places, values) of an artist."""
    if isinstance(artist, Line2D):
        x, y = (np.real(np.asarray(v)).astype(float) for v in artist.get_data(orig=True))
        return x, y
    if isinstance(artist, QuadMesh):
        v = np.ma.filled(np.ma.asarray(artist.get_array()), np.nan).astype(float)
        return np.asarray(artist.get_coordinates(), dtype=float), v
    return None


def near(a, b, tol=1e-7):
    """Equal up to rounding of the largest."""
    if a.shape != b.shape:
        return f"shapes {a.shape}, {b.shape}"
    if a.size == 0:
        return None
    m = max(float(np.nanmax(np.abs(a), initial=0)), 1e-300)
    return mismatch(np.nan_to_num(a / m), np.nan_to_num(b / m), tol)


class Again(c24.Watch):
    """Explores a root of another check, drawing every plot again with other options."""

    def __init__(self, cx: Cx, rec: Recorder) -> None:
        super().__init__(cx, twice=False)
        self.rec = rec

    def run(self, what, fn):
        mine, rec = self.mine, self.rec
        rec.calls, rec.depth = [], 0
        try:
            with quiet():
                got = fn()
        except Exception:  # noqa: BLE001
            return False, None
        finally:
            rec.depth = 1
        for f, arguments, out in rec.calls[:1]:
            key = (f.__module__, f.__name__)
            with mine.at(*self.path, f.__name__):
                self.options(key, f, arguments, out)
        return True, got

    def draw(self, f, sig, arguments, what):
        with quiet():
            self.mine.transitions += 1
            try:
                got = call(f, sig, arguments)
                return list(got)[-1] if inspect.isgenerator(got) else got
            except Exception as e:  # noqa: BLE001
                self.mine.fail(f"{what} of {f.__name__}", f"{type(e).__name__}: {str(e)[:200]}")
                return None

    def options(self, key, f, arguments, out):
        mine, sig = self.mine, plots()[f]
        name = f.__name__
        figures = set(plt.get_fignums())
        if RANDOM in name:
            return
        many = inspect.isgenerator(out)
        first = artists(self.draw(f, sig, arguments, "plot") if many else out)
        if first is None:
            mine.note(f"{name}: nothing to compare")
            return
        mine.state(key)
        mine.note(f"{name}: compared")
        base = [shown(a) for a in first]

        def fresh():
            return plt.figure(figsize=(2, 2), dpi=40).add_subplot()

        def close():
            for n in set(plt.get_fignums()) - figures:
                plt.close(n)

        # The plot is made on axes of its own, or on those it is given.
        if "ax" in sig.parameters and sig.parameters["ax"].default is None:
            got = self.draw(f, sig, {k: v for k, v in arguments.items() if k != "ax"}, "own figure")
            if got is not None:
                new = set(plt.get_fignums()) - figures
                mine.holds(f"own figure of {name}", len(new) == 1 and got[1].get_figure() is got[0] and got[0].number in new,
                           f"{len(new)} new figures")
                base = [shown(a) for a in artists(got) or []]
            close()
            ax = fresh()
            given = set(plt.get_fignums())
            got = self.draw(f, sig, {**arguments, "ax": ax}, "given axes")
            if got is not None:
                mine.holds(f"given axes of {name}", got[1] is ax and got[0] is ax.get_figure() and set(plt.get_fignums()) == given,
                           "drawn elsewhere")
                mine.holds(f"given axes of {name}", all(a.axes is ax for a in artists(got) or []), "an artist lies elsewhere")
                self.compare(f"given axes of {name}", base, got)
            close()
        axes = (lambda: {"ax": fresh()}) if "ax" in sig.parameters else dict
        if "scale" in sig.parameters:
            got = self.draw(f, sig, {**arguments, **axes(), "scale": "symlog"}, "scale")
            if got is not None:
                ax = got[1]
                for a in artists(got) or []:
                    if isinstance(a, Line2D):
                        mine.holds(f"scale of {name}", ax.get_yscale() == "symlog", f"the scale of values is {ax.get_yscale()}")
                    elif isinstance(a, QuadMesh):
                        mine.holds(f"scale of {name}", isinstance(a.norm, SymLogNorm), f"colours are scaled by {type(a.norm).__name__}")
                self.compare(f"scale of {name}", base, got)
            close()
        if "measure" in sig.parameters and not any(x in name for x in OTHER_MEASURES) and arguments.get("free_mass") is None:
            seen = {}
            linear = {"scale": "linear"} if "scale" in sig.parameters else {}
            for measure in MEASURES:
                got = self.draw(f, sig, {**arguments, **linear, **axes(), "measure": measure}, "measure")
                arts = None if got is None else artists(got)
                seen[measure] = None if arts is None else [shown(a) for a in arts]
                close()
            if all(v is not None and all(x is not None for x in v) for v in seen.values()):
                self.measures(name, seen)
        mine.trace()

    def compare(self, what, base, got):
        arts = artists(got)
        if not self.mine.holds(what, arts is not None and len(arts) == len(base), "other artists"):
            return
        for b, a in zip(base, arts):
            s = shown(a)
            if b is None or s is None:
                continue
            for part, x, y in (("places", b[0], s[0]), ("values", b[1], s[1])):
                m = near(x, y)
                if m:
                    self.mine.fail(what, f"{part}: {m}")

    def measures(self, name, seen):
        mine = self.mine
        counts = {len(v) for v in seen.values()}
        if not mine.holds(f"measures of {name}", len(counts) == 1, "numbers of artists differ"):
            return
        for k in range(counts.pop()):
            (x, re), (x1, im), (x2, ab), (x3, an) = (seen[m][k] for m in MEASURES)
            for other in (x1, x2, x3):
                m = near(x, other)
                if m:
                    mine.fail(f"measures of {name}", f"places: {m}")
                    return
            z = re + 1j * im
            m = near(np.abs(z), ab)
            if m:
                mine.fail(f"measures of {name}", f"abs: {m}")
            big = np.abs(z) > 1e-6 * max(float(np.nanmax(np.abs(z), initial=0)), 1e-300)
            m = mismatch(np.exp(1j * an[big]), z[big] / np.abs(z[big]), 1e-6)
            if m:
                mine.fail(f"measures of {name}", f"angle: {m}")


def again(prop, fam):
    def explore(cfg, cx: Cx) -> None:
        try:
            with Recorder() as rec:
                fam.explore(cfg, Again(cx, rec))
        finally:
            plt.close("all")

    return explore


# One root in so many, of the others one in six.
STRIDE: dict[tuple[str, str], int] = {("C23", "trajectories"): 12, ("C21", "maps"): 4, ("C21", "overlaps"): 6, ("C21", "potentials"): 3, ("C22", "operators"): 2,
                                      ("C22", "kernels"): 2, ("C22", "Bloch states"): 4, ("C22", "points"): 4}

for _pid in ("C17", "C21", "C22", "C23"):
    _prop = importlib.import_module(f"mc.props.{_pid.lower()}").PROP
    for _name, _fam in _prop.families.items():
        if _pid == "C17" and _name != "fits":
            continue
        PROP.family(f"{_pid} {_name}", c24.every(_fam, STRIDE.get((_pid, _name), 6)))(again(_prop, _fam))
