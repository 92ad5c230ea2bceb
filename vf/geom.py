"""Reference geometry, written from the documentation of the curves and
independent of the library: exact positions and first two derivatives of every
kind of edge, and boundary integrals by composite Gauss-Legendre quadrature.

An *edge spec* is a JSON object

    {"type": curve type, "opts": {...}, "a": [x, y], "b": [x, y],
     "ops": [[name, arg...], ...], "side": +1 | -1, "tb": [ta, tb]}

"a", "b" are the anchor and endpoint (equal for a loop), "ops" the rigid or
similarity transformations applied after construction, "side" tells whether
the cell lies to the left (+1) or to the right (-1) of the edge.
"""

from __future__ import annotations

from typing import Any, Callable

import numpy as np

TWO_PI = 2.0 * np.pi
LOOPS = ("circle", "ellipse", "bean", "cartioid", "teardrop")


class Jet:
    """Value, first and second derivative with respect to t."""

    def __init__(self, v: Any, d: Any = 0.0, dd: Any = 0.0) -> None:
        self.v, self.d, self.dd = v, d, dd

    @staticmethod
    def lift(a: Any) -> "Jet":
        return a if isinstance(a, Jet) else Jet(a)

    def __add__(self, o: Any) -> "Jet":
        o = Jet.lift(o)
        return Jet(self.v + o.v, self.d + o.d, self.dd + o.dd)

    __radd__ = __add__

    def __neg__(self) -> "Jet":
        return Jet(-self.v, -self.d, -self.dd)

    def __sub__(self, o: Any) -> "Jet":
        return self + (-Jet.lift(o))

    def __rsub__(self, o: Any) -> "Jet":
        return (-self) + o

    def __mul__(self, o: Any) -> "Jet":
        o = Jet.lift(o)
        return Jet(
            self.v * o.v,
            self.d * o.v + self.v * o.d,
            self.dd * o.v + 2 * self.d * o.d + self.v * o.dd,
        )

    __rmul__ = __mul__

    def sin(self) -> "Jet":
        s, c = np.sin(self.v), np.cos(self.v)
        return Jet(s, c * self.d, c * self.dd - s * self.d**2)

    def cos(self) -> "Jet":
        s, c = np.sin(self.v), np.cos(self.v)
        return Jet(c, -s * self.d, -s * self.dd - c * self.d**2)

    def ipow(self, k: int) -> "Jet":
        r = Jet(np.ones_like(self.v), 0 * self.v, 0 * self.v)
        for _ in range(k):
            r = r * self
        return r


def canonical(ctype: str, opts: dict[str, Any], t: np.ndarray) -> tuple[Jet, Jet]:
    """The documented curve, with derivatives in t, for t in [0, 2 pi]."""
    z = np.zeros_like(t)
    tt = Jet(t, z + 1.0, z)
    if ctype == "line":
        return tt * (1 / TWO_PI), Jet(z, z, z)
    if ctype == "circle":
        r = opts.get("radius", 1.0)
        return r * tt.cos(), r * tt.sin()
    if ctype == "ellipse":
        return opts["a"] * tt.cos(), opts["b"] * tt.sin()
    if ctype == "bean":
        return tt.cos() + 0.65 * (2 * tt).cos(), 1.5 * tt.sin()
    if ctype == "cartioid":
        r = 1 + opts["a"] * (1 - tt * (1 / np.pi)).ipow(8)
        return r * tt.cos(), r * tt.sin()
    if ctype == "teardrop":
        beta = np.tan(np.pi / (2 * opts.get("alpha", 1.5)))
        return 2 * (0.5 * tt).sin(), -beta * tt.sin()
    if ctype == "sine_wave":
        return (
            tt * (1 / TWO_PI),
            opts["amp"] * (0.5 * opts["freq"] * tt).sin(),
        )
    if ctype == "circular_arc":
        # circle centred at (1/2, H) through (0, 0) and (1, 0), the part on
        # or above the x1 axis, from the origin to (1, 0)
        h = opts["H"]
        r = np.sqrt(0.25 + h * h)
        th0 = np.arctan2(-h, -0.5)
        th1 = np.arctan2(-h, 0.5)
        # travel clockwise through the top of the circle
        while th0 < th1:
            th0 += TWO_PI
        th = th0 + (th1 - th0) * (tt * (1 / TWO_PI))
        return 0.5 + r * th.cos(), h + r * th.sin()
    if ctype == "circular_arc_deg":
        w = opts["theta0"] / 360.0
        return (w * tt).cos(), (w * tt).sin()
    if ctype == "spline":
        from scipy.interpolate import CubicSpline

        p = np.asarray(opts["pts"], dtype=float)
        u = np.concatenate(([0.0], np.cumsum(np.hypot(*np.diff(p, axis=1)))))
        u *= TWO_PI / u[-1]
        jets = []
        for row in p:
            s = CubicSpline(u, row, bc_type="not-a-knot")
            jets.append(Jet(s(t), s(t, 1), s(t, 2)))
        return jets[0], jets[1]
    raise ValueError(ctype)


class RefCurve:
    """The curve of an edge spec on [0, 2 pi] (before quadrature)."""

    def __init__(self, e: dict[str, Any]) -> None:
        self.e = e
        ta, tb = e.get("tb", [0.0, TWO_PI])
        self.ta, self.tb = ta, tb
        self.a = complex(*e["a"])
        self.b = complex(*e["b"])
        self.is_loop = self.a == self.b
        # affine map z -> m z + c, or m conj(z) + c
        self.m, self.c, self.conj = 1.0 + 0j, 0j, False
        if self.is_loop:
            self.c = self.a
        else:
            x, y = canonical(e["type"], e.get("opts", {}), np.array([ta, tb]))
            z0, z1 = complex(x.v[0], y.v[0]), complex(x.v[1], y.v[1])
            self.m = (self.b - self.a) / (z1 - z0)
            self.c = self.a - self.m * z0
        for op in e.get("ops", []):
            self.apply(op)

    def compose(self, m: complex, c: complex, conj: bool = False) -> None:
        """Apply z -> m z + c (or m conj(z) + c) after the current map."""
        if conj:
            self.m, self.c = self.m.conjugate(), self.c.conjugate()
            self.conj = not self.conj
        self.m, self.c = m * self.m, m * self.c + c

    def apply(self, op: list[Any]) -> None:
        """Apply one transformation."""
        name = op[0]
        if name == "translate":
            self.compose(1.0, complex(op[1], op[2]))
        elif name == "dilate":
            self.compose(op[1], 0.0)
        elif name == "rotate":
            self.compose(np.exp(1j * np.pi * op[1] / 180.0), 0.0)
        elif name == "reflect_x":
            self.compose(1.0, 0.0, True)
        elif name == "reflect_y":
            self.compose(-1.0, 0.0, True)
        elif name == "orthogonal":
            a = np.asarray(op[1], dtype=float)
            det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            if det > 0:
                self.compose(complex(a[0, 0], a[1, 0]), 0.0)
            else:
                self.compose(complex(a[0, 0], a[1, 0]), 0.0, True)
        elif name == "join":
            z0, z1 = self.ends()
            a, b = complex(*op[1]), complex(*op[2])
            m = (b - a) / (z1 - z0)
            self.compose(m, a - m * z0)
        else:
            raise ValueError(name)

    def ends(self) -> tuple[complex, complex]:
        """The first and the last point."""
        z, _, _ = self.eval(np.array([0.0, TWO_PI]))
        return complex(z[0]), complex(z[1])

    def eval(self, t: np.ndarray) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
        """Position, first and second derivative (complex) at t."""
        k = (self.tb - self.ta) / TWO_PI
        x, y = canonical(
            self.e["type"], self.e.get("opts", {}), self.ta + k * np.asarray(t)
        )
        z, d, dd = x.v + 1j * y.v, x.d + 1j * y.d, x.dd + 1j * y.dd
        d, dd = k * d, k * k * dd
        if self.conj:
            z, d, dd = z.conjugate(), d.conjugate(), dd.conjugate()
        return self.m * z + self.c, self.m * d, self.m * dd

    def breaks(self) -> np.ndarray:
        """Break points of a piecewise smooth curve."""
        if self.e["type"] == "spline":
            p = np.asarray(self.e["opts"]["pts"], dtype=float)
            u = np.concatenate(
                ([0.0], np.cumsum(np.hypot(*np.diff(p, axis=1))))
            )
            u *= TWO_PI / u[-1]
            k = (self.tb - self.ta) / TWO_PI
            u = (u - self.ta) / k
            u = u[(u > 1e-9) & (u < TWO_PI - 1e-9)]
            return np.concatenate(([0.0], u, [TWO_PI]))
        return np.array([0.0, TWO_PI])

    def gauss(self, pieces: int = 4, order: int = 24) -> tuple[Any, Any, Any]:
        """Gauss nodes: positions z, derivatives dz/dt, weights."""
        xg, wg = np.polynomial.legendre.leggauss(order)
        br = self.breaks()
        ts, ws = [], []
        for lo, hi in zip(br[:-1], br[1:]):
            g = np.linspace(lo, hi, pieces + 1)
            for l, h in zip(g[:-1], g[1:]):
                ts.append(0.5 * (l + h) + 0.5 * (h - l) * xg)
                ws.append(0.5 * (h - l) * wg)
        t, w = np.concatenate(ts), np.concatenate(ws)
        z, d, _ = self.eval(t)
        return z, d, w

    def length(self) -> float:
        """Arc length."""
        _, d, w = self.gauss()
        return float(np.sum(np.abs(d) * w))


def build_edge(e: dict[str, Any], pos: int, neg: int, idx: int | None) -> Any:
    """The library's Edge of an edge spec."""
    import puncturedfem as pf

    a = pf.Vert(x=e["a"][0], y=e["a"][1], idx=e.get("ai", -1))
    if e["a"] == e["b"]:
        b = a
    else:
        b = pf.Vert(x=e["b"][0], y=e["b"][1], idx=e.get("bi", -1))
    opts = dict(e.get("opts", {}))
    if "pts" in opts:
        opts["pts"] = np.array(opts["pts"], dtype=float)
    if "tb" in e:
        opts["t_bounds"] = tuple(e["tb"])
    edge = pf.Edge(
        anchor=a,
        endpnt=b,
        pos_cell_idx=pos,
        neg_cell_idx=neg,
        curve_type=e["type"],
        quad_type=e.get("quad", "kress"),
        idx=idx,
        **opts,
    )
    for op in e.get("ops", []):
        apply_op(edge, op)
    return edge


def apply_op(edge: Any, op: list[Any]) -> None:
    """Apply one transformation to a library Edge."""
    import puncturedfem as pf

    name = op[0]
    if name == "translate":
        edge.translate(pf.Vert(x=op[1], y=op[2]))
    elif name == "dilate":
        edge.dilate(op[1])
    elif name == "rotate":
        edge.rotate(op[1])
    elif name == "reflect_x":
        edge.reflect_across_x_axis()
    elif name == "reflect_y":
        edge.reflect_across_y_axis()
    elif name == "orthogonal":
        edge.apply_orthogonal_transformation(np.array(op[1], dtype=float))
    elif name == "join":
        edge.join_points(
            pf.Vert(x=op[1][0], y=op[1][1]), pf.Vert(x=op[2][0], y=op[2][1])
        )
    else:
        raise ValueError(name)


def boundary_integral(
    edges: list[dict[str, Any]],
    fun: Callable[[np.ndarray, np.ndarray], np.ndarray],
) -> float:
    """Sum over the edges of side * integral of Im(conj(n-flux)), i.e. of
    fun(z, dz) dt with the orientation that keeps the cell on the left."""
    total = 0.0
    for e in edges:
        z, d, w = RefCurve(e).gauss()
        total += e.get("side", 1) * float(np.sum(fun(z, d) * w))
    return total


def poly_volume_integral(
    edges: list[dict[str, Any]], terms: list[tuple[float, int, int]]
) -> float:
    """Integral over the cell of sum c x^i y^j by Green's theorem."""

    def flux(z: np.ndarray, d: np.ndarray) -> np.ndarray:
        x, y = z.real, z.imag
        f = np.zeros_like(x)
        for c, i, j in terms:
            f += c * x ** (i + 1) / (i + 1) * y**j
        return f * d.imag

    return boundary_integral(edges, flux)


def area_centroid(edges: list[dict[str, Any]]) -> tuple[float, float, float]:
    """Area and centre of mass of the region."""
    a = poly_volume_integral(edges, [(1.0, 0, 0)])
    return (
        a,
        poly_volume_integral(edges, [(1.0, 1, 0)]) / a,
        poly_volume_integral(edges, [(1.0, 0, 1)]) / a,
    )


def sample_polyline(e: dict[str, Any], m: int) -> np.ndarray:
    """m+1 points along the reference curve, equispaced in t."""
    z, _, _ = RefCurve(e).eval(np.linspace(0.0, TWO_PI, m + 1))
    return z
