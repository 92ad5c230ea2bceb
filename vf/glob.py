"""Global problems on generated meshes."""

from __future__ import annotations

from typing import Any

import numpy as np

from . import pmodel as pm
from .core import Rejected
from .geom import TWO_PI, RefCurve
from .gens import quads
from .harm import Exact, Region, resolution
from .meshgen import build_mesh, cell_labels, edges_of

MONOS = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]


def frame(spec: dict[str, Any]) -> tuple[complex, float]:
    """Centre and size of a mesh."""
    z = np.concatenate([RefCurve(e).gauss(pieces=2)[0] for e in spec["edges"]])
    c = complex(0.5 * (z.real.min() + z.real.max()), 0.5 * (z.imag.min() + z.imag.max()))
    return c, float(np.max(np.abs(z - c)))


def pull(p: Any, cen: complex, size: float) -> Any:
    """p((z - cen) / size) as a polynomial of z."""
    x = pm.make([(1 / size, 1, 0), (-cen.real / size, 0, 0)])
    y = pm.make([(1 / size, 0, 1), (-cen.imag / size, 0, 0)])
    return pm.compose(p, x, y)


def library(p: Any) -> Any:
    """The library's polynomial."""
    import puncturedfem as pf

    return pf.Polynomial([(float(c), i, j) for (i, j), c in sorted(p.items())])


def mesh_resolution(spec: dict[str, Any], n: int) -> float:
    """Worst resolution of the cells of a mesh."""
    import puncturedfem as pf

    mesh = build_mesh(spec)
    best = np.inf
    for c in cell_labels(spec):
        cell = mesh.get_cell(c)
        cell.parameterize(quads(spec, n), compute_interior_points=False)
        best = min(best, resolution(cell))
    return float(best)


def resolved(spec: dict[str, Any], n: int, need: float = 2.5, nmax: int = 80) -> int:
    """Number of samples that resolves the gaps between contours."""
    if any(e["type"] in ("bean", "cartioid", "teardrop") for e in spec["edges"]):
        n = max(n, 48)
    ratio = mesh_resolution(spec, n)
    if ratio < need:
        n = 4 * int(np.ceil(n * need / ratio * 1.05 / 4))
    if n > nmax:
        raise Rejected()
    return n


def sharpest(spec: dict[str, Any]) -> float:
    """Smallest angle between two edges at a vertex."""
    out: dict[int, list[float]] = {}
    for e in spec["edges"]:
        if e["ai"] < 0:
            continue
        c = RefCurve(e)
        z, _ = c.eval(np.array([0.0, 1e-4, TWO_PI - 1e-4, TWO_PI]))[:2]
        out.setdefault(e["ai"], []).append(float(np.angle(z[1] - z[0])))
        out.setdefault(e["bi"], []).append(float(np.angle(z[2] - z[3])))
    best = TWO_PI
    for a in out.values():
        a = sorted(a)
        if len(a) > 1:
            best = min([best] + [y - x for x, y in zip(a, a[1:] + [a[0] + TWO_PI])])
    return best


class Problem:
    """A mesh, its global space and a Solver, with the local spaces."""

    def __init__(self, spec: Any, deg: int, n: int, D: float, R: float, f: Any, interior: bool = False,
                 gradient: bool = False, order: Any = None, adjust: Any = None) -> None:
        import puncturedfem as pf

        self.spec = spec
        self.deg = deg
        self.order = order
        self.mesh = build_mesh(spec, order)
        self.labels = cell_labels(spec)
        if adjust is not None:
            get_cell = self.mesh.get_cell

            def adjusted(*a: Any, **k: Any) -> Any:
                cell = get_cell(*a, **k)
                adjust(cell)
                return cell

            self.mesh.get_cell = adjusted
        self.gfs = pf.GlobalFunctionSpace(self.mesh, deg, quads(spec, n), verbose=False)
        self.form = pf.BilinearForm(diffusion_constant=D, reaction_constant=R, rhs_poly=f)
        self.spaces: dict[int, Any] = {}
        build = self.gfs.build_local_function_space

        def keep(*a: Any, **k: Any) -> Any:
            sp = build(*a, **k)
            self.spaces[sp.nyst.K.idx] = sp
            return sp

        self.gfs.build_local_function_space = keep
        self.solver = pf.Solver(
            self.gfs, self.form, verbose=False, compute_interior_values=interior, compute_interior_gradient=gradient
        )
        self.gfs.build_local_function_space = build
        for c in self.labels:
            if c not in self.spaces:
                self.spaces[c] = build(c, verbose=False, compute_interior_values=False, compute_interior_gradient=False)
        self.free = np.ones(self.gfs.num_funs, dtype=bool)
        for sp in self.spaces.values():
            for f in sp.get_basis():
                if f.key.is_on_boundary:
                    self.free[f.key.glob_idx] = False

    def regions(self) -> dict[int, Region]:
        """Exact regions of the cells."""
        return {c: Region(edges_of(self.spec, c)) for c in self.labels}

    def coef(self, p: Any, amp: float = 0.0) -> tuple[np.ndarray, float]:
        """Coefficients of a polynomial of the degree of the space (terms in z)
        and the residual of its traces."""
        out = np.full(self.gfs.num_funs, np.nan)
        worst = 0.0
        place = {}
        for sp in self.spaces.values():
            for f in sp.get_basis():
                k = f.key
                place[("vert", k.vert_idx) if k.fun_type == "vert" else (k.fun_type, k.edge_idx, k.edge_space_idx)] = k.glob_idx
        for b in self.gfs.edge_spaces:
            e = self.edge_spec(b.e)
            z, d, w = RefCurve(e).gauss(pieces=6)
            val = pm.eval_float(p, z.real, z.imag)
            amp = max(amp, float(np.max(np.abs(val))))
            if e["a"] != e["b"]:
                for t, key in zip(b.vert_fun_traces, b.vert_fun_global_keys):
                    a = e["a"] if key.vert_idx == e["ai"] else e["b"]
                    v = float(pm.eval_float(p, np.array([a[0]]), np.array([a[1]]))[0])
                    out[place[("vert", key.vert_idx)]] = v
                    val = val - v * t(z.real, z.imag)
            if b.num_edge_funs:
                A = np.array([t(z.real, z.imag) * np.ones(len(z)) for t in b.edge_fun_traces]).T
                wt = np.sqrt(np.abs(d) * w)
                c, *_ = np.linalg.lstsq(A * wt[:, None], val * wt, rcond=None)
                val = val - A @ c
                for k, key in enumerate(b.edge_fun_global_keys):
                    out[place[("edge", key.edge_idx, key.edge_space_idx)]] = c[k]
            worst = max(worst, float(np.max(np.abs(val))))
        lap = pm.laplacian(p)
        for c in self.labels:
            sp = self.spaces[c]
            if not sp.bubb_funs:
                continue
            z = np.concatenate([RefCurve(e).gauss(pieces=2)[0] for e in edges_of(self.spec, c)])
            cen, size = complex(np.mean(z)), float(np.max(np.abs(z - np.mean(z))))
            px, py = pm.make([(size, 1, 0), (cen.real, 0, 0)]), pm.make([(size, 0, 1), (cen.imag, 0, 0)])
            L = []
            for f in sp.bubb_funs:
                q = pm.laplacian(pm.of_library(f.poly.exact_form))
                q = pm.compose(q, px, py)
                L.append([float(q.get(o, 0)) for o in MONOS])
            q = pm.compose(lap, px, py)
            co, *_ = np.linalg.lstsq(np.array(L).T, np.array([float(q.get(o, 0)) for o in MONOS]), rcond=None)
            for f, v in zip(sp.bubb_funs, co):
                out[f.key.glob_idx] = v
        return out, worst / max(amp, 1e-300)

    def edge_spec(self, e: Any) -> dict[str, Any]:
        """The spec of a mesh edge."""
        return self.spec["edges"][e.idx if self.order is None else self.order[e.idx]]


__all__ = ["Exact", "Problem", "frame", "library", "mesh_resolution", "pull", "resolved", "sharpest"]
