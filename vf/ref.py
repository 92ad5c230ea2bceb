"""Reference formulas for the quadratures (from the cited papers)."""

import numpy as np


def kress_nodes(n: int, p: int) -> tuple[np.ndarray, np.ndarray]:
    """Nodes t_j = w(s_j) and weights w'(s_j), s_j = j pi / n, of Kress's
    substitution w(s) = 2 pi v^p / (v(s)^p + v(2 pi - s)^p)."""
    s = np.linspace(0.0, 2 * np.pi, 2 * n + 1)
    u = (np.pi - s) / np.pi
    v = (1 / p - 0.5) * u**3 + (s - np.pi) / (np.pi * p) + 0.5
    dv = 3 * (0.5 - 1 / p) * u**2 / np.pi + 1 / (np.pi * p)
    w = 1 - v  # v(2 pi - s)
    den = v**p + w**p
    t = 2 * np.pi * v**p / den
    dt = 2 * np.pi * p * dv * (v ** (p - 1) * w ** (p - 1)) / den**2
    return t, dt


def nodes(quad: str, n: int, p: int) -> tuple[np.ndarray, np.ndarray]:
    """Nodes and weights of a rule of the quadrature dictionary."""
    if quad == "trap":
        return np.linspace(0.0, 2 * np.pi, 2 * n + 1), np.ones(2 * n + 1)
    return kress_nodes(n, p)
