"""Reference model: what every basis *means*, written from its description.

A basis is described by a JSON-able spec.  ``build(spec)`` makes the
implementation's object, ``states(spec)`` gives the model: the matrix whose rows
are the basis states written in fundamental position coordinates.  Everything is
spelled out from the definitions with dense matrices; numpy.fft and the package's
own helpers are not used.

  ["F", N] ["FP", dx, N]                fundamental position states
  ["T", n, N] ["TP", dx, n, N]          the n position states closest to the origin
  ["M", n, N] ["MP", dx, n, N]          the n lowest momentum states
  ["FM", N] ["FMP", dx, N]              every momentum state
  ["E", n, step, off]                   position states off + i step (mod n step)
  ["EM", n, step, off] ["EMP", dx, ...] momentum states off + i step (mod n step)
  ["X", kind, m, inner] ["XL", ...] ["XS", ...]  explicit list of m states of inner
  ["S", [spec, ...]]                    product of several axes
"""

from __future__ import annotations

import itertools
from functools import lru_cache
import json
from typing import Any

import numpy as np

from mc.core import cdata, unitary


def freqs(n: int) -> np.ndarray:
    """Signed indices of the n points closest to the origin, in stored order."""
    return np.array([i if 2 * i < n else i - n for i in range(n)], dtype=np.int64)


def momentum_state(f: int, big_n: int) -> np.ndarray:
    x = np.arange(big_n)
    return np.exp(2j * np.pi * ((f * x) % big_n) / big_n) / np.sqrt(big_n)


def position_state(i: int, big_n: int) -> np.ndarray:
    v = np.zeros(big_n, dtype=complex)
    v[i % big_n] = 1
    return v


def n_of(spec: Any) -> int:
    k = spec[0]
    if k in ("F", "FM"):
        return spec[1]
    if k in ("FP", "FMP"):
        return spec[2]
    if k in ("T", "M", "E", "EM"):
        return spec[1]
    if k in ("TP", "MP", "EMP"):
        return spec[2]
    if k in ("X", "XL", "XS"):
        return spec[2]
    if k == "S":
        return int(np.prod([n_of(s) for s in spec[1]]))
    raise ValueError(spec)


def fund_n(spec: Any) -> int:
    k = spec[0]
    if k in ("F", "FM"):
        return spec[1]
    if k in ("FP", "FMP"):
        return spec[2]
    if k in ("T", "M"):
        return spec[2]
    if k in ("TP", "MP"):
        return spec[3]
    if k in ("E", "EM"):
        return spec[1] * spec[2]
    if k == "EMP":
        return spec[2] * spec[3]
    if k in ("X", "XL", "XS"):
        return fund_n(spec[3])
    if k == "S":
        return int(np.prod([fund_n(s) for s in spec[1]]))
    raise ValueError(spec)


def shape_of(spec: Any) -> tuple[int, ...]:
    return tuple(n_of(s) for s in spec[1]) if spec[0] == "S" else (n_of(spec),)


def fund_shape(spec: Any) -> tuple[int, ...]:
    return tuple(fund_n(s) for s in spec[1]) if spec[0] == "S" else (fund_n(spec),)


def dx_of(spec: Any) -> np.ndarray:
    """The repeat vector of an axis, or the stacked vectors of a product."""
    k = spec[0]
    if k == "S":
        return np.array([dx_of(s) for s in spec[1]], dtype=float)
    if k in ("XL", "XS", "X"):
        return dx_of(spec[3])
    return np.array(spec[1], dtype=float)


def explicit_raw(spec: Any) -> np.ndarray:
    """The list of states of an explicit basis, in its inner basis."""
    _, kind, m, inner = spec
    n = n_of(inner)
    if kind == "eye":
        return np.eye(m, n, dtype=complex)
    if kind == "perm":
        return np.eye(n, dtype=complex)[[(2 * i + 1) % n if n % 2 else (n - 1 - i) for i in range(m)]]
    if kind == "orth":
        return unitary(n, "explicit", m)[:m].copy()
    return cdata((m, n), "explicit", kind)


def states(spec: Any) -> np.ndarray:
    return _states(json.dumps(spec))


@lru_cache(maxsize=4096)
def _states(key: str) -> np.ndarray:
    out = _states_raw(json.loads(key))
    out.setflags(write=False)
    return out


def _states_raw(spec: Any) -> np.ndarray:
    k = spec[0]
    n, big = n_of(spec), fund_n(spec)
    if k in ("F", "FP"):
        return np.eye(big, dtype=complex)
    if k in ("T", "TP"):
        return np.array([position_state(int(f), big) for f in freqs(n)])
    if k in ("M", "MP", "FM", "FMP"):
        return np.array([momentum_state(int(f), big) for f in freqs(n)])
    if k == "E":
        return np.array([position_state(spec[3] + i * spec[2], big) for i in range(n)])
    if k == "EM":
        return np.array([momentum_state(spec[3] + i * spec[2], big) for i in range(n)])
    if k == "EMP":
        return np.array([momentum_state(spec[4] + i * spec[3], big) for i in range(n)])
    if k in ("X", "XL", "XS"):
        return explicit_raw(spec) @ states(spec[3])
    if k == "S":
        out = np.ones((1, 1), dtype=complex)
        for s in spec[1]:
            out = np.kron(out, states(s))
        return out
    raise ValueError(spec)


def is_orthonormal(spec: Any) -> bool:
    b = states(spec)
    return bool(np.allclose(b @ b.conj().T, np.eye(b.shape[0]), atol=1e-9))


def transfer(a: Any, b: Any) -> np.ndarray:
    """The model of vector conversion: coefficients in b = coefficients in a @ this."""
    return states(a) @ states(b).conj().T


def build(spec: Any) -> Any:
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis import evenly_spaced_basis as E
    from surface_potential_analysis.basis import explicit_basis as X
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    k = spec[0]
    if k == "F":
        return B.FundamentalBasis(spec[1])
    if k == "FP":
        return B.FundamentalPositionBasis(np.array(spec[1], dtype=float), spec[2])
    if k == "T":
        return B.TruncatedBasis(spec[1], spec[2])
    if k == "TP":
        return B.TruncatedPositionBasis(np.array(spec[1], dtype=float), spec[2], spec[3])
    if k == "M":
        return B.TransformedBasis(spec[1], spec[2])
    if k == "MP":
        return B.TransformedPositionBasis(np.array(spec[1], dtype=float), spec[2], spec[3])
    if k == "FM":
        return B.FundamentalTransformedBasis(spec[1])
    if k == "FMP":
        return B.FundamentalTransformedPositionBasis(np.array(spec[1], dtype=float), spec[2])
    if k == "E":
        return E.EvenlySpacedBasis(spec[1], spec[2], spec[3])
    if k == "EM":
        return E.EvenlySpacedTransformedBasis(spec[1], spec[2], spec[3])
    if k == "EMP":
        return E.EvenlySpacedTransformedPositionBasis(
            np.array(spec[1], dtype=float), n=spec[2], step=spec[3], offset=spec[4]
        )
    if k in ("X", "XL", "XS"):
        inner = build(spec[3])
        states_ = {
            "basis": TupleBasis(B.FundamentalBasis(spec[2]), inner),
            "data": explicit_raw(spec).reshape(-1),
        }
        cls = {
            "X": X.ExplicitBasis,
            "XL": X.ExplicitBasisWithLength,
            "XS": X.ExplicitStackedBasisWithLength,
        }[k]
        return cls(states_)
    if k == "S":
        return TupleBasis(*(build(s) for s in spec[1]))
    raise ValueError(spec)


# -- generic stacked lattices ---------------------------------------------------

LATTICES = {
    1: {
        "line": [[1.0]],
        "line2": [[2.5]],
        "neg": [[-1.5]],
    },
    2: {
        "square": [[1.0, 0.0], [0.0, 1.0]],
        "rect": [[2.0, 0.0], [0.0, 0.7]],
        "oblique": [[1.0, 0.3], [-0.4, 1.7]],
        "hex": [[1.0, 0.0], [0.5, float(np.sqrt(3) / 2)]],
        "lefthanded": [[0.2, 1.3], [1.1, -0.3]],
    },
    3: {
        "cubic": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]],
        "box": [[2.0, 0, 0], [0, 3.0, 0], [0, 0, 0.5]],
        "tri": [[1.0, 0.2, 0.1], [-0.3, 1.5, 0.25], [0.4, 0.35, 2.0]],
        "fcc": [[0, 1.0, 1.0], [1.0, 0, 1.0], [1.0, 1.0, 0]],
    },
}


SKEWED = {
    2: {"oblique": LATTICES[2]["oblique"], "hex": LATTICES[2]["hex"],
        "hex120": [[1.0, 0.0], [-0.5, float(np.sqrt(3) / 2)]], "lefthanded": LATTICES[2]["lefthanded"],
        "rect": LATTICES[2]["rect"], "turned": [[0.6, 0.8], [-1.6, 1.2]], "centred": [[1.0, 0.4], [1.0, -0.4]]},
    3: {"tri": LATTICES[3]["tri"], "fcc": LATTICES[3]["fcc"], "bcc": [[-1.0, 1, 1], [1, -1.0, 1], [1, 1, -1.0]],
        "surface": [[1.0, 0, 0], [0.5, float(np.sqrt(3) / 2), 0], [0, 0, 3.0]]},
}


def shortest(d: np.ndarray, dx: np.ndarray) -> np.ndarray:
    """Length of the shortest displacement which differs from d (axis, ...) by a lattice vector."""
    f = np.tensordot(np.linalg.inv(dx.T), d, axes=(1, 0))
    f = f - np.round(f)
    out = None
    for image in itertools.product(range(-2, 3), repeat=len(dx)):
        g = f + np.array(image, dtype=float).reshape(-1, *(1,) * (f.ndim - 1))
        length = np.sqrt(np.sum(np.tensordot(dx.T, g, axes=(1, 0)) ** 2, axis=0))
        out = length if out is None else np.minimum(out, length)
    return out


def reciprocal(dx: np.ndarray) -> np.ndarray:
    """Rows b_i with a_i . b_j = 2 pi delta_ij (from cofactors, not inversion)."""
    dx = np.asarray(dx, dtype=float)
    d = dx.shape[0]
    det = _det(dx)
    out = np.zeros_like(dx)
    for i in range(d):
        for j in range(d):
            minor = np.delete(np.delete(dx, i, 0), j, 1)
            out[i, j] = (-1) ** (i + j) * _det(minor) / det
    return 2 * np.pi * out


def _det(m: np.ndarray) -> float:
    if m.shape[0] == 0:
        return 1.0
    if m.shape[0] == 1:
        return float(m[0, 0])
    return float(
        sum((-1) ** j * m[0, j] * _det(np.delete(m[1:], j, 1)) for j in range(m.shape[0]))
    )


def volume(dx: np.ndarray) -> float:
    return abs(_det(np.asarray(dx, dtype=float)))
