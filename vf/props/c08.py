"""C08: quadrature rules and integrals over edges and boundaries."""

import math

from hypothesis import strategies as st
import numpy as np

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import build_cell, cell_specs, describe, edge_specs, joinable, kappa, mag, num_of, q, signed
from ..geom import RefCurve, build_edge
from ..ref import kress_nodes


# QUADRATURE RULES ############################################################


@st.composite
def rules(draw):
    return {
        "kind": draw(st.sampled_from(["trap", "kress", "martensen", "mart"])),
        "n": draw(st.integers(4, 80)),
        "p": draw(st.integers(2, 12)),
        "k": draw(st.integers(0, 70)),
        "phase": draw(q(0.0, 6.28, 100)),
        "viadict": draw(st.booleans()),
    }


def check_rule(s, r: Recorder):
    import puncturedfem as pf

    n, p, kind = s["n"], s["p"], s["kind"]
    if s["viadict"] and kind in ("trap", "kress"):
        qd = pf.get_quad_dict(n=n, p=p)
        r.eq("dictionary", sorted(qd), ["kress", "trap"])
        quad = qd[kind]
    else:
        quad = pf.Quad(qtype=kind, n=n, p=p)
    r.label(kind)
    r.eq("type", quad.type, kind)
    r.eq("n", quad.n, n)
    r.close("h", quad.h, math.pi / n, 1e-14)
    r.eq("number of nodes", np.shape(quad.t), (2 * n + 1,))
    r.eq("number of weights", np.shape(quad.wgt), (2 * n + 1,))
    t0 = np.linspace(0.0, 2 * np.pi, 2 * n + 1)
    k, ph = s["k"], s["phase"]
    if kind == "trap":
        r.close("nodes", quad.t, t0, 1e-13)
        # exact for trigonometric polynomials
        if k < 2 * n:
            val = np.sum(quad.h * quad.wgt[:-1] * np.cos(k * quad.t[:-1] + ph))
            exact = 2 * np.pi * math.cos(ph) if k == 0 else 0.0
            r.close("integral of cos(kt + c)", val, exact, 1e-11)
        r.nt(True)
    elif kind == "kress":
        t, w = kress_nodes(n, p)
        r.close("nodes", quad.t, t, 1e-11)
        r.close("weights", quad.wgt, w, 1e-11)
        r.true(np.all(np.diff(quad.t) >= -1e-12), "nodes increase")
        r.true(np.all(quad.wgt >= -1e-13), "weights are not negative")
        r.close("symmetry", quad.t + quad.t[::-1], 2 * np.pi, 1e-11)
        r.close("first and last node", [quad.t[0], quad.t[-1]], [0.0, 2 * np.pi], 1e-12)
        # integrals of smooth functions that are not periodic
        if n >= 32 and 3 <= p <= 8:
            a = (k % 5) * 0.3
            val = np.sum(quad.h * (quad.wgt * np.exp(-a * quad.t) * np.cos(quad.t + ph))[:-1])
            f = lambda x: (np.exp((-a + 1j) * x + 1j * ph) / (-a + 1j)).real
            # error O(h^p) at worst: the integrand vanishes to order p - 1
            tol = max(1e-9, 400 * (2 / n) ** p)
            r.close("integral of a smooth function", val, f(2 * np.pi) - f(0.0), tol)
        r.nt(p != 7)
    else:
        r.close("argument of the logarithm", quad.t, 4 * np.sin(t0 / 2) ** 2, 1e-12)
        if 0 <= k < n:
            # integral of ln(4 sin^2(t/2)) cos(kt) is -2 pi / k (0 for k = 0)
            val = -4 * np.pi * np.sum((quad.wgt * np.cos(k * t0))[:-1])
            r.close("logarithmic quadrature", val, -2 * np.pi / k if k else 0.0, 1e-11)
            val = np.sum((quad.wgt * np.sin(k * t0))[:-1])
            r.close("logarithmic quadrature (odd)", val, 0.0, 1e-11)
            r.nt(k > 0)


# EDGES #######################################################################


@st.composite
def edge_cases(draw):
    e = draw(edge_specs())
    e["quad"] = draw(st.sampled_from(["kress", "kress", "trap"]))
    n = draw(st.integers(4, 24))
    m = 2 * n + 1
    return {
        "e": e,
        "n": n,
        "p": draw(st.integers(2, 9)),
        "vals": draw(st.lists(q(-5, 5, 10), min_size=4, max_size=12)),
        "ij": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
    }


def stretch(vals, m, shift):
    """m values made of the given ones, without a simple pattern."""
    v = np.asarray(vals, dtype=float)
    i = np.arange(m)
    return v[(i + shift) % len(v)] + 0.01 * ((7 * i + 3 * shift) % 11)


def check_edge(s, r: Recorder):
    import puncturedfem as pf

    e = s["e"]
    if not joinable(e):
        raise Rejected()
    n = s["n"]
    edge = build_edge(e, 0, -1, 0)
    qd = pf.get_quad_dict(n=n, p=s["p"])
    edge.parameterize(qd)
    r.label(e["quad"], e["type"])
    m = 2 * n + 1
    h = np.pi / n
    f, g = stretch(s["vals"], m, 0), stretch(s["vals"], m, 3)
    el = np.asarray(edge.dx_norm)
    t, nn = np.asarray(edge.unit_tangent), np.asarray(edge.unit_normal)
    sc = float(np.max(el)) * 10
    tol = 1e-12
    r.close("multiply_by_dx_norm", edge.multiply_by_dx_norm(f[:-1]), f[:-1] * el[:-1], tol, sc)
    r.close("multiply_by_dx_norm (all)", edge.multiply_by_dx_norm(f, ignore_endpoint=False), f * el, tol, sc)
    full = h * float(np.sum(0.5 * (f * el)[1:] + 0.5 * (f * el)[:-1]))
    left = h * float(np.sum((f * el)[:-1]))
    sc2 = 10 * h * float(np.sum(np.abs(f) * el)) + 1e-300
    r.close("integrate_over_edge", edge.integrate_over_edge(f), full, tol, sc2)
    r.close("integrate_over_edge (ignore_endpoint)", edge.integrate_over_edge(f[:-1], ignore_endpoint=True), left, tol, sc2)
    r.close("preweighted", edge.integrate_over_edge_preweighted(f * el), full, tol, sc2)
    r.close("preweighted (ignore_endpoint)", edge.integrate_over_edge_preweighted((f * el)[:-1], ignore_endpoint=True), left, tol, sc2)
    r.close("dot_with_tangent", edge.dot_with_tangent(f[:-1], g[:-1]), (f * t[0] + g * t[1])[:-1], tol, 10)
    r.close("dot_with_tangent (all)", edge.dot_with_tangent(f, g, ignore_endpoint=False), f * t[0] + g * t[1], tol, 10)
    r.close("dot_with_normal", edge.dot_with_normal(f[:-1], g[:-1]), (f * nn[0] + g * nn[1])[:-1], tol, 10)
    r.close("dot_with_normal (all)", edge.dot_with_normal(f, g, ignore_endpoint=False), f * nn[0] + g * nn[1], tol, 10)
    i, j = s["ij"]
    fun = lambda x, y: 1.0 + x**i * y**j + 0.5 * x - 0.25 * y
    want = fun(edge.x[0], edge.x[1])
    sc3 = max(1.0, float(np.max(np.abs(want))))
    r.close("evaluate_function", edge.evaluate_function(fun), want[:-1], 1e-12, sc3)
    r.close("evaluate_function (all)", edge.evaluate_function(fun, ignore_endpoint=False), want, 1e-12, sc3)
    r.nt(True)


# ACCURACY ####################################################################


@st.composite
def smooth_cases(draw):
    e = draw(
        edge_specs(types=["line", "sine_wave", "circular_arc", "circular_arc_deg", "circle", "ellipse", "bean", "teardrop", "cartioid", "spline"])
    )
    if e["type"] == "sine_wave":
        e["opts"] = {"amp": draw(q(-0.3, 0.3, 100)), "freq": draw(st.integers(1, 4))}
    if e["type"] == "ellipse":
        a = draw(q(0.5, 2.0, 100))
        e["opts"] = {"a": a, "b": draw(q(0.5, 2.0, 100))}
    if e["type"] == "circular_arc":
        e["opts"] = {"H": draw(q(-2.0, 0.5, 100))}
    if e["type"] == "cartioid":
        e["opts"] = {"a": draw(q(-0.5, 1.0, 100))}
    if e["type"] == "teardrop":
        e["opts"] = {"alpha": draw(q(1.2, 3.0, 100))}
    if e["type"] == "spline":
        # points close to a parabola: smooth enough for a global rule
        c = draw(q(-0.3, 0.3, 100))
        pts = [[x, round(c * x * (1 - x), 6)] for x in (0.0, 0.3, 0.6, 1.0)]
        e["opts"] = {"pts": [[p[0] for p in pts], [p[1] for p in pts]]}
    e["quad"] = "kress"
    if e["a"] == e["b"] and e["type"] in ("circle", "ellipse", "bean") and draw(st.booleans()):
        e["quad"] = "trap"
    return {
        "e": e,
        "ij": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
        "n": draw(st.integers(40, 64)),
        "p": draw(st.sampled_from([5, 6, 7])),
    }


def check_smooth(s, r: Recorder):
    import puncturedfem as pf

    e = s["e"]
    if not joinable(e):
        raise Rejected()
    rc = RefCurve(e)
    edge = build_edge(e, 0, -1, 0)
    edge.parameterize(pf.get_quad_dict(n=s["n"], p=s["p"]))
    r.label(e["quad"], e["type"], "part" if "tb" in e else "whole")
    i, j = s["ij"]
    z, d, w = rc.gauss(pieces=8)
    cen = complex(np.mean(z.real), np.mean(z.imag))
    size = float(np.max(np.abs(z - cen)))

    def f(x, y):
        return ((x - cen.real) / size) ** i * ((y - cen.imag) / size) ** j + 0.3

    def fx(x, y):
        u, v = (x - cen.real) / size, (y - cen.imag) / size
        return (i * u ** (i - 1) if i else 0 * u) * v**j / size

    def fy(x, y):
        u, v = (x - cen.real) / size, (y - cen.imag) / size
        return u**i * (j * v ** (j - 1) if j else 0 * v) / size

    exact = float(np.sum(f(z.real, z.imag) * np.abs(d) * w))
    length = float(np.sum(np.abs(d) * w))
    tol, tol2 = 1e-3, 1e-7
    fv = edge.evaluate_function(f, ignore_endpoint=False)
    r.close("arc length", edge.integrate_over_edge(np.ones(2 * s["n"] + 1)), length, tol, length)
    r.close("integral of a polynomial", edge.integrate_over_edge(fv), exact, tol, length)
    x, y = edge.x
    gx, gy = fx(x, y), fy(x, y)
    along = edge.integrate_over_edge(edge.dot_with_tangent(gx, gy, ignore_endpoint=False))
    r.close("integral of a gradient along the edge", along, fv[-1] - fv[0], tol2, max(1.0, length / size))
    zz, dd = z, d
    flux = float(np.sum((fx(z.real, z.imag) * d.imag - fy(z.real, z.imag) * d.real) * w))
    across = edge.integrate_over_edge(edge.dot_with_normal(gx, gy, ignore_endpoint=False))
    r.close("flux through the edge", across, flux, tol2, max(1.0, length / size))
    r.nt(i + j > 0)


# BOUNDARIES OF CELLS #########################################################


@st.composite
def cell_cases(draw):
    c = draw(cell_specs(big=True, many=6, floor=0.0))
    return {
        "cell": c,
        "terms": [
            [draw(q(-2, 2, 10)), draw(st.integers(0, 3)), draw(st.integers(0, 3))]
            for _ in range(draw(st.integers(1, 3)))
        ],
        "vals": draw(st.lists(q(-5, 5, 10), min_size=4, max_size=12)),
        "n": draw(st.integers(32, 48)),
    }


def check_cell(s, r: Recorder):
    from ..geom import area_centroid, boundary_integral

    spec = s["cell"]
    describe(spec, r)
    n = s["n"]
    cell, edges = build_cell(spec, n=n)
    scale = spec["sim"][0]
    cen = complex(spec["sim"][2], spec["sim"][3])
    terms = [(c, i, j) for c, i, j in s["terms"]]

    def uv(x, y):
        return (x - cen.real) / scale, (y - cen.imag) / scale

    def f(x, y):
        u, v = uv(x, y)
        return sum(c * u**i * v**j for c, i, j in terms) + 0.3

    def fx(x, y):
        u, v = uv(x, y)
        return sum(c * i * u ** max(i - 1, 0) * v**j for c, i, j in terms) / scale + 0 * u

    def fy(x, y):
        u, v = uv(x, y)
        return sum(c * j * u**i * v ** max(j - 1, 0) for c, i, j in terms) / scale + 0 * u

    x, y = cell.get_boundary_points()
    per = boundary_integral([dict(e, side=1) for e in edges], lambda z, d: np.abs(d))
    fs = max(1.0, float(np.max(np.abs(f(x, y)))), scale * float(np.max(np.hypot(fx(x, y), fy(x, y)))))
    tol, tol2 = 2e-3, 1e-7
    one = np.ones(cell.num_pts)
    r.close("perimeter", cell.integrate_over_boundary(one), per, tol, per)
    exact = boundary_integral([dict(e, side=1) for e in edges], lambda z, d: f(z.real, z.imag) * np.abs(d))
    vals = cell.evaluate_function_on_boundary(f) if hasattr(cell, "evaluate_function_on_boundary") else f(x, y)
    r.close("values on the boundary", vals, f(x, y), 1e-12, fs)
    r.close("integral over the boundary", cell.integrate_over_boundary(vals), exact, tol, per * fs)
    r.close("preweighted", cell.integrate_over_boundary_preweighted(cell.multiply_by_dx_norm(vals)), exact, tol, per * fs)
    flux = boundary_integral(edges, lambda z, d: fx(z.real, z.imag) * d.imag - fy(z.real, z.imag) * d.real)
    got = cell.integrate_over_boundary(cell.dot_with_normal(fx(x, y), fy(x, y)))
    r.close("flux out of the cell", got, flux, tol2, per * fs / scale)
    got = cell.integrate_over_boundary(cell.dot_with_tangent(fx(x, y), fy(x, y)))
    r.close("circulation of a gradient", got, 0.0, tol2, per * fs / scale)
    # contour by contour, in terms of the edges
    total = 0.0
    w = stretch(s["vals"], cell.num_pts, 1)
    step = np.concatenate([np.full(2 * m, np.pi / m) for m in (num_of(spec, e["quad"], n) for c in cell.components for e in (edges[d.idx] for d in c.edges))])
    el = cell.get_dx_norm()
    r.close("multiply_by_dx_norm", cell.multiply_by_dx_norm(w), w * el, 1e-12, float(np.max(el)) * 10)
    r.close("any values", cell.integrate_over_boundary(w), float(np.sum(step * w * el)), 1e-12, per * 10)
    for k, comp in enumerate(cell.components):
        a, b = cell.component_start_idx[k], cell.component_start_idx[k + 1]
        part = comp.integrate_over_closed_contour(w[a:b]) if hasattr(comp, "integrate_over_closed_contour") else float(np.sum((step * w * el)[a:b]))
        r.close("integral over a contour", part, float(np.sum((step * w * el)[a:b])), 1e-12, per * 10)
        total += part
    r.close("sum over the contours", cell.integrate_over_boundary(w), total, 1e-12, per * 10)
    r.nt(len(spec["holes"]) > 0 or spec["outer"]["k"] == "poly")


PROP = Prop(
    "C08",
    [
        Sub("rules", rules(), check_rule, quick=1200, thorough=20000, shards=1,
            rule="a quadrature rule of any kind and size against its formula and its exactness; non-trivial: the rule is not the default one and its exactness was tested"),
        Sub("edge_sums", edge_cases(), check_edge, quick=700, thorough=12000, shards=2,
            rule="random nodal values on an edge of any type; non-trivial: always (values without a pattern)"),
        Sub("edge_accuracy", smooth_cases(), check_smooth, quick=500, thorough=10000, shards=2,
            rule="polynomial fields on moderately curved edges against Gauss-Legendre integrals of the exact curve; non-trivial: the field is not constant"),
        Sub("cells", cell_cases(), check_cell, quick=300, thorough=6000, shards=3,
            rule="fields on the boundary of a cell with 0 to 2 holes; non-trivial: a hole or a polygon"),
    ],
)
