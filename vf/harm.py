"""Exact harmonic functions on generated cells.

u = Re F + sum_j a_j ln|z - zeta_j| with F analytic in the cell: a polynomial
plus poles at deep points zeta_j of the holes.
"""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from . import pmodel as pm
from .geom import RefCurve, poly_volume_integral
from .gens import build_cell, contour_points, q, winding


@st.composite
def harm_specs(draw: Any, holes: int, deg: int = 4, poles: bool = True, logs: bool = True) -> dict[str, Any]:
    """A harmonic function for a cell with the given number of holes."""
    c = [[draw(q(-2, 2, 8)), draw(q(-2, 2, 8))] for _ in range(draw(st.integers(0, deg)) + 1)]
    pl, lg = [], []
    for _ in range(holes):
        pl.append(
            [draw(q(-2, 2, 8)), draw(q(-2, 2, 8)), draw(st.integers(1, 2))]
            if poles and draw(st.booleans())
            else [0.0, 0.0, 1]
        )
        lg.append(draw(q(-2, 2, 8)) if logs and draw(st.integers(0, 3)) else 0.0)
    return {"c": c, "poles": pl, "logs": lg}


def deep_point(pts: Any) -> tuple[complex, float]:
    """A point well inside of a closed polyline and its distance to it."""
    cen = complex(np.mean(pts))
    step = float(np.max(np.abs(pts - cen))) / 4
    best, rho = cen, -1.0
    g = np.arange(-3, 4)
    for _ in range(4):
        mid = best
        for a in g:
            for b in g:
                c = mid + step * complex(a, b)
                d = float(np.min(np.abs(pts - c)))
                if d > rho and winding(pts, c) != 0:
                    best, rho = c, d
        step /= 3
    return best, rho


class Harm:
    """A function of a spec on a cell of a spec."""

    def __init__(self, s: dict[str, Any], cell: dict[str, Any]) -> None:
        out = contour_points(cell["outer"], cell["sim"])
        self.cen = complex(np.mean(out))
        self.size = float(np.max(np.abs(out - self.cen)))
        self.zeta: list[complex] = []
        self.rho: list[float] = []
        for h in cell["holes"]:
            z, rho = deep_point(contour_points(h, cell["sim"], m=40))
            self.zeta.append(z)
            self.rho.append(rho)
        self.c = [complex(*c) for c in s["c"]]
        nh = len(cell["holes"])
        self.poles = [(complex(a, b), k) for a, b, k in s["poles"][:nh]]
        self.logs = [float(a) for a in s["logs"][:nh]]

    def analytic(self, z: Any) -> Any:
        """F."""
        w = (z - self.cen) / self.size
        f = np.zeros_like(w)
        for c in self.c[::-1]:
            f = f * w + c
        for (b, k), t, rho in zip(self.poles, self.zeta, self.rho):
            f = f + b * (rho / (z - t)) ** k
        return f

    def deriv(self, z: Any, logs: bool = True) -> Any:
        """F' + sum a_j / (z - zeta_j); the gradient is its conjugate."""
        w = (z - self.cen) / self.size
        f = np.zeros_like(w)
        for k in range(len(self.c) - 1, 0, -1):
            f = f * w + k * self.c[k]
        f = f / self.size
        for (b, k), t, rho in zip(self.poles, self.zeta, self.rho):
            f = f - k * b * rho**k / (z - t) ** (k + 1)
        if logs:
            for a, t in zip(self.logs, self.zeta):
                f = f + a / (z - t)
        return f

    def u(self, z: Any) -> Any:
        """The function (lengths in logarithms are relative to the size)."""
        v = self.analytic(z).real
        for a, t in zip(self.logs, self.zeta):
            v = v + a * np.log(np.abs(z - t) / self.size)
        return v

    def conj_without_logs(self, z: Any, xi: list[complex]) -> Any:
        """Harmonic conjugate of u - sum a_j ln|z - xi_j|."""
        v = self.analytic(z).imag
        for a, t, x in zip(self.logs, self.zeta, xi):
            v = v + a * np.angle((z - t) / (z - x))
        return v

    def psi(self, z: Any, xi: list[complex]) -> Any:
        """u - sum a_j ln|z - xi_j|."""
        v = self.u(z)
        for a, x in zip(self.logs, xi):
            v = v - a * np.log(np.abs(z - x))
        return v

    def antilap(self, z: Any) -> tuple[Any, Any]:
        """A function with Laplacian u, and its gradient as a complex number."""
        w = (z - self.cen) / self.size
        # polynomial part: Phi = Re(conj(z - cen) G) / 4 with G' = F
        f, g = np.zeros_like(w), np.zeros_like(w)
        for k in range(len(self.c) - 1, -1, -1):
            f = f * w + self.c[k]
            g = g * w + self.c[k] / (k + 1)
        g = g * w * self.size
        v = z - self.cen
        phi = 0.25 * (np.conj(v) * g).real
        grad = 0.25 * (g + v * np.conj(f))
        for (b, k), t, rho in zip(self.poles, self.zeta, self.rho):
            v = z - t
            if k == 1:
                # Re(c / v) = L(v) / |v|^2 with L(v) = Re(c conj(v)), grad L = c
                c = b * rho
                lin = (c * np.conj(v)).real
                phi = phi + 0.5 * lin * np.log(np.abs(v))
                grad = grad + 0.5 * (c * np.log(np.abs(v)) + lin * v / np.abs(v) ** 2)
            else:
                g = -b * rho**k / ((k - 1) * v ** (k - 1))
                f = b * (rho / v) ** k
                phi = phi + 0.25 * (np.conj(v) * g).real
                grad = grad + 0.25 * (g + v * np.conj(f))
        for a, t in zip(self.logs, self.zeta):
            v = z - t
            m2 = np.abs(v) ** 2
            # a ln|v / size|
            ln = np.log(np.abs(v))
            c = np.log(self.size)
            phi = phi + a * (0.25 * m2 * (ln - 1) - 0.25 * c * m2)
            grad = grad + a * (0.25 * v * (2 * ln - 1) - 0.5 * c * v)
        return phi, grad

    @property
    def multiply(self) -> bool:
        """Whether there is a logarithm or a pole."""
        return any(self.logs) or any(b != 0 for b, _ in self.poles)


def limit_gmres(cycles: int = 60) -> None:
    """GMRES is asked for a residual of 1e-12, at which it sometimes stagnates
    just above and then runs for 10 N restart cycles without any progress: only
    the running time is at stake, so stop after far more cycles than it needs."""
    from puncturedfem.locfun import nystrom

    full = getattr(nystrom, "gmres", None)
    if full is None or getattr(full, "limited", False):
        return

    def limited(*a: Any, **k: Any) -> Any:
        k.setdefault("maxiter", cycles)
        return full(*a, **k)

    limited.limited = True  # type: ignore[attr-defined]
    nystrom.gmres = limited


def warm() -> None:
    """Compile the numba functions before forking."""
    import puncturedfem as pf

    limit_gmres()

    for holes in (False, True):
        v = pf.Vert(x=0.0, y=0.0)
        es = [pf.Edge(v, v, pos_cell_idx=0, curve_type="circle", quad_type="trap")]
        a, b, c = pf.Vert(x=0.0, y=0.0, idx=0), pf.Vert(x=1.0, y=0.0, idx=1), pf.Vert(x=0.0, y=1.0, idx=2)
        if holes:
            es = [pf.Edge(a, b, pos_cell_idx=0), pf.Edge(b, c, pos_cell_idx=0), pf.Edge(c, a, pos_cell_idx=0)]
        cell = pf.MeshCell(idx=0, edges=es)
        cell.parameterize(pf.get_quad_dict(n=8, p=5), compute_interior_points=False)
        pf.NystromSolver(cell)


def points(cell: Any) -> Any:
    """Boundary points as complex numbers."""
    x, y = cell.get_boundary_points()
    return np.asarray(x) + 1j * np.asarray(y)


def normal_tangent(cell: Any) -> tuple[Any, Any, Any]:
    """Outward normal and tangent as complex numbers, arc length elements."""
    nx, ny = cell.get_unit_normal() if hasattr(cell, "get_unit_normal") else (None, None)
    tx, ty = cell.get_unit_tangent()
    t = np.asarray(tx) + 1j * np.asarray(ty)
    n = np.asarray(nx) + 1j * np.asarray(ny) if nx is not None else -1j * t
    return n, t, np.asarray(cell.get_dx_norm())


def resolution(cell: Any, extra: Any = ()) -> float:
    """Smallest distance from a sample to another contour (or to one of the
    extra points) in units of the local spacing of the samples."""
    z = points(cell)
    idx = cell.component_start_idx
    parts = [z[idx[k] : idx[k + 1]] for k in range(len(cell.components))]
    best = np.inf
    for k, a in enumerate(parts):
        gap = np.maximum(np.abs(np.roll(a, -1) - a), np.abs(a - np.roll(a, 1)))
        for m, b in enumerate(parts):
            if m != k:
                d = np.min(np.abs(a[:, None] - b[None, :]), axis=1)
                best = min(best, float(np.min(d / gap)))
        for p in extra:
            best = min(best, float(np.min(np.abs(a - p) / gap)))
    return best


def resolved_cell(spec: Any, n: int, extra: Any = (), need: float = 3.0, nmax: int = 120, **kw: Any) -> Any:
    """The cell of a spec sampled so that contours and singular points are
    resolved; rejected if that takes too many samples."""
    from .core import Rejected

    cell, edges = build_cell(spec, n=n, **kw)
    ratio = resolution(cell, extra)
    if ratio < need:
        n = 4 * int(np.ceil(n * need / ratio * 1.05 / 4))
        if n > nmax:
            raise Rejected()
        cell, edges = build_cell(spec, n=n, **kw)
    return cell, edges, n


class Exact:
    """P + u with P a polynomial and u harmonic, on the region of a cell."""

    def __init__(self, poly: Any, harm: Any) -> None:
        self.p = poly
        self.h = harm
        self.px, self.py = pm.deriv(poly, 0), pm.deriv(poly, 1)

    def value(self, z: Any) -> Any:
        """Values."""
        v = pm.eval_float(self.p, z.real, z.imag)
        return v if self.h is None else v + self.h.u(z)

    def grad(self, z: Any) -> Any:
        """Gradient as a complex number."""
        g = pm.eval_float(self.px, z.real, z.imag) + 1j * pm.eval_float(self.py, z.real, z.imag)
        return g if self.h is None else g + np.conj(self.h.deriv(z))


class Region:
    """Exact integrals over the region bounded by edge specs."""

    def __init__(self, edges: list[dict[str, Any]], pieces: int = 6) -> None:
        self.edges = edges
        zs, ds = [], []
        for e in edges:
            z, d, w = RefCurve(e).gauss(pieces=pieces)
            zs.append(z)
            ds.append(d * w * e.get("side", 1))
        self.z, self.dz = np.concatenate(zs), np.concatenate(ds)
        self.area = 0.5 * float(np.sum((np.conj(self.z) * self.dz).imag))
        self.length = float(np.sum(np.abs(self.dz)))

    def flux(self, val: Any, grad: Any) -> float:
        """Integral of val * (grad . outward normal) along the boundary."""
        return float(np.sum(val * (np.conj(grad) * (-1j) * self.dz).real))

    def poly(self, p: Any) -> float:
        """Integral of a polynomial."""
        return poly_volume_integral(self.edges, pm.terms(p))

    def h1(self, v: Exact, w: Exact) -> float:
        """Integral of grad v . grad w."""
        z = self.z
        tot = self.poly(pm.add(pm.mul(v.px, w.px), pm.mul(v.py, w.py)))
        if v.h is not None:
            tot += self.flux(w.value(z), np.conj(v.h.deriv(z)))
        if w.h is not None:
            tot += self.flux(pm.eval_float(v.p, z.real, z.imag), np.conj(w.h.deriv(z)))
        return tot

    def l2(self, v: Exact, w: Exact) -> float:
        """Integral of v w."""
        z = self.z
        tot = self.poly(pm.mul(v.p, w.p))
        for a, b in ((v, w), (w, v)):
            if a.h is not None:
                r = inverse_laplacian(b.p)
                g = pm.eval_float(pm.deriv(r, 0), z.real, z.imag) + 1j * pm.eval_float(pm.deriv(r, 1), z.real, z.imag)
                tot += self.flux(a.h.u(z), g) - self.flux(pm.eval_float(r, z.real, z.imag), np.conj(a.h.deriv(z)))
        if v.h is not None and w.h is not None:
            phi, g = v.h.antilap(z)
            tot += self.flux(w.h.u(z), g) - self.flux(phi, np.conj(w.h.deriv(z)))
        return tot


def inverse_laplacian(p: Any) -> Any:
    """Some polynomial with the given Laplacian: integrate twice in x, and
    correct the second derivatives in y."""
    out: Any = {}
    rest = dict(p)
    while rest:
        nxt: Any = {}
        for (i, j), c in rest.items():
            k = (i + 2, j)
            t = c / ((i + 1) * (i + 2))
            out[k] = out.get(k, 0) + t
            if j >= 2:
                m = (i + 2, j - 2)
                nxt[m] = nxt.get(m, 0) - t * j * (j - 1)
        rest = {k: c for k, c in nxt.items() if c != 0}
    return out
