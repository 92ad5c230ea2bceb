"""C04: Legendre families and barycentric coordinates."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import edge_specs, joinable, mag, q, signed
from ..geom import LOOPS, build_edge


@st.composite
def degrees(draw):
    return {
        "deg": draw(st.integers(1, 9)),
        "pos": draw(st.integers(0, 60)),
        "x": [draw(q(-1, 1, 1000)) for _ in range(3)],
        "y": [draw(q(-1, 1, 1000)) for _ in range(3)],
    }


def legendre_exact(n):
    """Coefficients of P_n, lowest first."""
    return np.polynomial.legendre.leg2poly([0.0] * n + [1.0])


def check_legendre(s, r: Recorder):
    from puncturedfem.locfun.poly import legendre as lg

    deg = s["deg"]
    x, y = np.array(s["x"]), np.array(s["y"])
    r.label(f"degree {deg}")
    p = lg.legendre_polynomials(deg)
    ip = lg.integrated_legendre_polynomials(deg)
    r.eq("number of polynomials", (len(p), len(ip)), (deg + 1, deg + 1))
    leg = np.polynomial.legendre

    def one(k, z):
        return leg.legval(z, [0.0] * k + [1.0])

    def integ(k, z):
        # integral of the L2 normalized P_{k-1} from -1 to z
        if k == 0:
            return np.ones_like(z)
        if k == 1:
            return z
        c = leg.legint([0.0] * (k - 1) + [1.0], lbnd=-1)
        return leg.legval(z, c) * math.sqrt((2 * k - 1) / 2)

    for k in range(deg + 1):
        co = legendre_exact(k)
        pm.compare(r, f"P_{k}", p[k], pm.make([(float(c), i, 0) for i, c in enumerate(co)]), float(np.sum(np.abs(co))))
        r.close("values of P_k", p[k](x, y), one(k, x), 1e-11, float(np.sum(np.abs(co))))
        r.close("P_k(1)", p[k](1.0, 0.0), 1.0, 1e-11, float(np.sum(np.abs(co))))
        r.close("values of the integrated P_k", ip[k](x, y), integ(k, x), 1e-11, float(np.sum(np.abs(co))))
        if k >= 2:
            r.close("ends of the integrated P_k", ip[k](np.array([-1.0, 1.0]), np.array([0.3, 0.7])), np.zeros(2), 1e-11, float(np.sum(np.abs(co))))
        sw = lg.swap_coordinates_of_poly_argument(p[k])
        r.close("swapped coordinates", sw(x, y), one(k, y), 1e-11, float(np.sum(np.abs(co))))
        r.close("operand of the swap", p[k](x, y), one(k, x), 1e-11, float(np.sum(np.abs(co))))
    tp, ti = lg.legendre_tensor_products(deg), lg.integrated_legendre_tensor_products(deg)
    dim = (deg + 1) * (deg + 2) // 2
    r.eq("number of tensor products", (len(tp), len(ti)), (dim, dim))
    i = 0
    big = float(np.sum(np.abs(legendre_exact(deg)))) ** 2
    for m in range(deg + 1):
        for k in range(deg + 1 - m):
            r.close(f"tensor product {m}, {k}", tp[i](x, y), one(m, x) * one(k, y), 1e-11, big)
            r.close(f"integrated tensor product {m}, {k}", ti[i](x, y), integ(m, x) * integ(k, y), 1e-11, big)
            i += 1
    # what a caller does with the results must not matter to later calls
    first = [[p[k](x, y) for k in range(deg + 1)], [f(x, y) for f in ip], [f(x, y) for f in tp], [f(x, y) for f in ti]]
    for fam in (p, ip, tp, ti):
        for f in fam:
            f += 1.0
        fam[s["pos"] % len(fam)].set_to_zero()
        fam.reverse()
        fam.pop()
    for what, fam, old in zip(
        ("Legendre", "integrated", "tensor", "integrated tensor"),
        (lg.legendre_polynomials(deg), lg.integrated_legendre_polynomials(deg), lg.legendre_tensor_products(deg), lg.integrated_legendre_tensor_products(deg)),
        first,
    ):
        r.eq(what + " family again", len(fam), len(old))
        for f, v in zip(fam, old):
            r.close(what + " family again", f(x, y), v, 1e-14, big)
    r.nt(deg > 1)


@st.composite
def triangles(draw):
    c = [draw(signed(mag(-1, 2))), draw(signed(mag(-1, 2)))] if draw(st.booleans()) else [0.0, 0.0]
    h = draw(mag(-2, 2))
    z = []
    for _ in range(3):
        z.append([draw(q(-1, 1)), draw(q(-1, 1))])
    return {"c": c, "h": h, "z": z, "w": [draw(q(-2, 2)), draw(q(-2, 2))]}


def check_triangle(s, r: Recorder):
    import puncturedfem as pf

    z = np.array(s["z"])
    d = (z[1, 0] - z[0, 0]) * (z[2, 1] - z[0, 1]) - (z[1, 1] - z[0, 1]) * (z[2, 0] - z[0, 0])
    sides = [np.hypot(*(z[i] - z[i - 1])) for i in range(3)]
    if abs(d) < 0.02 * max(sides) ** 2 or min(sides) < 0.05:
        raise Rejected()
    z = np.array(s["c"]) + s["h"] * z
    far = float(np.max(np.abs(z)))
    cond = far / (s["h"] * min(sides)) * (max(sides) ** 2 / abs(d))
    keep = z.copy()
    lam = pf.barycentric_coordinates(z[0], z[1], z[2])
    r.eq("arguments", z, keep)
    tol = 1e-13 * 100
    for i in range(3):
        for j in range(3):
            r.close("value at a vertex", lam[i](z[j, 0], z[j, 1]), 1.0 if i == j else 0.0, tol, 1 + cond)
    w = z[0] + s["w"][0] * (z[1] - z[0]) + s["w"][1] * (z[2] - z[0])
    vals = [float(lam[i](w[0], w[1])) for i in range(3)]
    want = [1 - s["w"][0] - s["w"][1], s["w"][0], s["w"][1]]
    r.close("value anywhere", vals, want, tol, (1 + cond) * 4)
    r.close("sum", sum(vals), 1.0, tol, (1 + cond) * 4)
    for i in range(3):
        r.true(max((m.alpha.order for m in lam[i].monos), default=0) <= 1, "degree")
    r.label("counterclockwise" if d > 0 else "clockwise")
    r.nt()


def check_edge(s, r: Recorder):
    import puncturedfem as pf

    if not joinable(s):
        raise Rejected()
    e = build_edge(s, 0, -1, 0)
    e.parameterize(pf.get_quad_dict(n=16, p=7))
    a, b = complex(*s["a"]), complex(*s["b"])
    if abs(b - a) < 1e-6:
        raise Rejected()
    lam = pf.barycentric_coordinates_edge(e)
    cond = 1 + (abs(a) + abs(b)) / abs(b - a)
    tol = 1e-11
    for i in range(3):
        for z, v in ((a, i == 0), (b, i == 1)):
            r.close("value at an end", lam[i](z.real, z.imag), float(v), tol, cond)
    # the third vertex completes an equilateral triangle
    top = 0.5 * (a + b) + 0.5j * math.sqrt(3) * (b - a)
    if float(lam[2](top.real, top.imag)) < 0:
        top = 0.5 * (a + b) - 0.5j * math.sqrt(3) * (b - a)
    r.close("value at the third vertex", [float(lam[i](top.real, top.imag)) for i in range(3)], [0.0, 0.0, 1.0], tol, cond)
    r.label(s["type"])
    r.nt()


@st.composite
def degenerate(draw):
    a = [draw(q(-2, 2)), draw(q(-2, 2))]
    b = [draw(q(-2, 2)), draw(q(-2, 2))]
    return {"a": a, "b": b, "k": draw(st.integers(0, 2))}


def check_degenerate(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.poly_exceptions import DegenerateTriangleError

    a, b = np.array(s["a"]), np.array(s["b"])
    z = [a, a, b]
    z = z[s["k"]:] + z[: s["k"]]
    r.raises("two equal vertices", DegenerateTriangleError, pf.barycentric_coordinates, *z)
    r.nt()


PROP = Prop(
    "C04",
    [
        Sub("legendre", degrees(), check_legendre, quick=100, thorough=800, shards=3,
            rule="Legendre and integrated Legendre polynomials and their tensor products up to degree 9 against numpy's; non-trivial: degree at least 2"),
        Sub("triangles", triangles(), check_triangle, quick=800, thorough=15000, shards=2,
            rule="triangles of any size, place and orientation; non-trivial: always"),
        Sub("edges", edge_specs(types=["line", "sine_wave", "circular_arc", "circular_arc_deg", "spline"]), check_edge, quick=300, thorough=5000, shards=1,
            rule="barycentric coordinates of the ends of any edge; non-trivial: always"),
        Sub("degenerate", degenerate(), check_degenerate, quick=50, thorough=500, shards=1,
            rule="two vertices coincide; non-trivial: always"),
    ],
)
