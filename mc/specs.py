"""Finite alphabets of basis descriptions, shared by several properties."""

from __future__ import annotations

from typing import Any

DX1 = {1: [2.5], 2: [0.4, 1.3], 3: [1.0, 0.5, -0.25]}


def divisors(n: int) -> list[int]:
    return [d for d in range(1, n + 1) if n % d == 0]


def axis_specs(big_n: int, *, wide: bool = True, length_dims: int = 1) -> list[Any]:
    """Every kind of one-axis basis with the given fundamental size."""
    dx = DX1[length_dims]
    out: list[Any] = [["F", big_n], ["FP", dx, big_n], ["FM", big_n], ["FMP", dx, big_n]]
    for n in range(1, big_n + 1):
        out += [["T", n, big_n], ["M", n, big_n]]
        if wide:
            out += [["TP", dx, n, big_n], ["MP", dx, n, big_n]]
    for n in divisors(big_n):
        step = big_n // n
        offs = range(-big_n - 1, big_n + 2) if wide else sorted({-step - 1, -1, 0, 1, step, big_n + 1})
        for off in offs:
            out += [["E", n, step, off], ["EM", n, step, off]]
        for off in (-big_n - 1, -1, 0, step + 1):
            out += [["EMP", dx, n, step, off]]
    out += explicit_specs(big_n, wide=wide)
    return out


def explicit_specs(big_n: int, *, wide: bool = True) -> list[Any]:
    dx = DX1[1]
    out: list[Any] = [
        ["X", "orth", big_n, ["F", big_n]],
        ["XL", "orth", max(1, big_n - 1), ["FMP", dx, big_n]],
        ["X", "perm", big_n, ["M", big_n, big_n]],
    ]
    if wide:
        out += [
            ["XL", "general", max(1, big_n - 1), ["FP", dx, big_n]],
            ["X", "orth", 1, ["T", max(1, big_n - 1), big_n]],
            ["X", "general", 2, ["M", max(1, big_n - 1), big_n]],
        ]
        if big_n % 2 == 0:
            out.append(["X", "orth", big_n // 2, ["EM", big_n // 2, 2, -1]])
    return out


def small_axis_specs(big_n: int) -> list[Any]:
    """A handful of structurally different one-axis bases (for products)."""
    dx = DX1[1]
    out: list[Any] = [
        ["F", big_n],
        ["FMP", dx, big_n],
        ["M", max(1, big_n - 1), big_n],
        ["TP", dx, max(1, (big_n + 1) // 2), big_n],
        ["X", "orth", max(1, big_n - 1), ["F", big_n]],
    ]
    d = divisors(big_n)[-2] if len(divisors(big_n)) > 1 else 1
    out.append(["EM", d, big_n // d, -1])
    out.append(["E", d, big_n // d, big_n // d + 1])
    return out
