"""Exact model of polynomials in two variables: {(i, j): Fraction}."""

from __future__ import annotations

from fractions import Fraction
from typing import Any

import numpy as np

Poly = dict[tuple[int, int], Fraction]


def make(terms: Any) -> Poly:
    """From terms (coef, i, j)."""
    p: Poly = {}
    for c, i, j in terms:
        p[(i, j)] = p.get((i, j), Fraction(0)) + Fraction(c)
    return clean(p)


def clean(p: Poly) -> Poly:
    """Without zeros."""
    return {k: c for k, c in p.items() if c != 0}


def const(c: Any) -> Poly:
    """A constant."""
    return make([(c, 0, 0)])


def add(p: Poly, o: Poly) -> Poly:
    """Sum."""
    r = dict(p)
    for k, c in o.items():
        r[k] = r.get(k, Fraction(0)) + c
    return clean(r)


def scale(p: Poly, c: Any) -> Poly:
    """Multiple."""
    return clean({k: v * Fraction(c) for k, v in p.items()})


def sub(p: Poly, o: Poly) -> Poly:
    """Difference."""
    return add(p, scale(o, -1))


def mul(p: Poly, o: Poly) -> Poly:
    """Product."""
    r: Poly = {}
    for (i, j), c in p.items():
        for (k, l), d in o.items():
            r[(i + k, j + l)] = r.get((i + k, j + l), Fraction(0)) + c * d
    return clean(r)


def power(p: Poly, k: int) -> Poly:
    """Power."""
    r = const(1)
    for _ in range(k):
        r = mul(r, p)
    return r


def compose(p: Poly, a: Poly, b: Poly) -> Poly:
    """p(a, b)."""
    r: Poly = {}
    for (i, j), c in p.items():
        r = add(r, scale(mul(power(a, i), power(b, j)), c))
    return r


def deriv(p: Poly, var: int) -> Poly:
    """Partial derivative."""
    r: Poly = {}
    for k, c in p.items():
        if k[var]:
            key = (k[0] - 1, k[1]) if var == 0 else (k[0], k[1] - 1)
            r[key] = c * k[var]
    return clean(r)


def laplacian(p: Poly) -> Poly:
    """Laplacian."""
    return add(deriv(deriv(p, 0), 0), deriv(deriv(p, 1), 1))


def degree(p: Poly) -> int:
    """Total degree (0 for the zero polynomial)."""
    return max((i + j for i, j in p), default=0)


def size(p: Poly) -> float:
    """Largest coefficient."""
    return max((abs(float(c)) for c in p.values()), default=0.0)


def terms(p: Poly) -> list[tuple[float, int, int]]:
    """As floats."""
    return [(float(c), i, j) for (i, j), c in p.items()]


def eval_float(p: Poly, x: Any, y: Any) -> Any:
    """Value in floating point."""
    v = 0.0 * (np.asarray(x, dtype=float) + np.asarray(y, dtype=float))
    for (i, j), c in p.items():
        v = v + float(c) * np.asarray(x, dtype=float) ** i * np.asarray(y, dtype=float) ** j
    return v


def of_library(pol: Any) -> dict[tuple[int, int], float]:
    """Coefficients of a library Polynomial (indices may repeat)."""
    out: dict[tuple[int, int], float] = {}
    for m in pol.monos:
        key = (m.alpha.x, m.alpha.y)
        out[key] = out.get(key, 0.0) + float(m.coef)
    return out


def compare(r: Any, name: str, pol: Any, model: Poly, amp: float = 0.0, tol: float = 1e-11) -> None:
    """The library's polynomial has the coefficients of the model."""
    got = of_library(pol)
    scale_ = max(1.0, size(model), amp)
    keys = sorted(set(got) | set(model))
    r.close(
        name,
        [got.get(k, 0.0) for k in keys],
        [float(model.get(k, 0)) for k in keys],
        tol,
        scale_,
    )
