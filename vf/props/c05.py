"""C05: the sampled geometry of an edge."""

from hypothesis import strategies as st
import numpy as np

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import edge_specs, joinable, kappa
from ..geom import RefCurve, build_edge
from ..ref import nodes


def compare(r: Recorder, edge, e, quad, n, p, tag="", tol=1e-9):
    """Every sampled quantity against the reference curve."""
    t, wgt = nodes(quad, n, p)
    z, d, dd = RefCurve(e).eval(t)
    speed = np.abs(d)
    tang = d / speed
    norm = -1j * tang  # right-hand normal (t2, -t1)
    curv = (dd * norm.conjugate()).real / speed**2
    size = kappa(e)
    r.eq(tag + "num_pts", edge.num_pts, 2 * n + 1)
    x = np.asarray(edge.x)
    r.eq(tag + "shape of x", x.shape, (2, 2 * n + 1))
    r.close(tag + "points", x[0] + 0 * x[0], z.real, tol, size)
    r.close(tag + "points (2)", x[1], z.imag, tol, size)
    r.close(tag + "unit tangent", edge.unit_tangent, np.array([tang.real, tang.imag]), tol, 1.0)
    r.close(tag + "unit normal", edge.unit_normal, np.array([norm.real, norm.imag]), tol, 1.0)
    r.close(tag + "arc length element", edge.dx_norm, speed * wgt, tol, max(float(np.max(speed * wgt)), 1e-300))
    r.close(tag + "curvature", edge.curvature, curv, 10 * tol, max(float(np.max(np.abs(curv))), 1e-3 / max(abs(z[-1] - z[0]), float(np.max(np.abs(z - z[0]))))))
    y1, y2 = edge.get_sampled_points()
    r.close(tag + "get_sampled_points", np.array([y1, y2]), np.array([z.real[:-1], z.imag[:-1]]), tol, size)
    y1, y2 = edge.get_sampled_points(ignore_endpoint=False)
    r.close(tag + "get_sampled_points (all)", np.array([y1, y2]), np.array([z.real, z.imag]), tol, size)


@st.composite
def specs(draw):
    e = draw(edge_specs())
    quad = draw(st.sampled_from(["kress", "kress", "trap"]))
    e["quad"] = quad
    return {
        "e": e,
        "n": draw(st.integers(4, 40)),
        "p": draw(st.integers(2, 10)),
    }


def check(s, r: Recorder):
    import puncturedfem as pf

    e = s["e"]
    if not joinable(e):
        raise Rejected()
    n, p, quad = s["n"], s["p"], e["quad"]
    edge = build_edge(e, 0, -1, 0)
    r.true(not edge.is_parameterized, "a new edge is not parameterized")
    r.eq("is_loop", bool(edge.is_loop), e["a"] == e["b"])
    edge.parameterize(pf.get_quad_dict(n=n, p=p))
    r.label(e["type"], quad, "part" if "tb" in e else "whole")
    compare(r, edge, e, quad, n, p)
    size = kappa(e)
    if e["a"] != e["b"]:
        x = edge.x
        r.close("starts at the anchor", x[:, 0], e["a"], 1e-9, size)
        r.close("ends at the endpoint", x[:, -1], e["b"], 1e-9, size)
    else:
        r.close("closed", edge.x[:, 0], edge.x[:, -1], 1e-9, size)
    bb = edge.get_bounding_box()
    r.eq("bounding box", [float(v) for v in bb], [
        float(edge.x[0].min()), float(edge.x[0].max()),
        float(edge.x[1].min()), float(edge.x[1].max()),
    ]) if np.ptp(edge.x[0]) > 1e-6 * size and np.ptp(edge.x[1]) > 1e-6 * size else None
    for k, j in ((0, 1), (1, 0)):
        ext = [float(np.ptp(edge.x[k])), float(np.ptp(edge.x[j]))]
        if ext[0] < 1e-13 and ext[1] > 1e-6:
            # an edge along an axis: the box is as long as the edge, and has a width
            r.label("along an axis")
            lo, hi = bb[2 * k : 2 * k + 2]
            mid = float(edge.x[k, 0])
            r.close("length of the box of an edge along an axis", bb[2 * j : 2 * j + 2], [edge.x[j].min(), edge.x[j].max()], 1e-12, size)
            r.true(lo < mid < hi, "an edge along an axis is in the interior of its box")
            r.true(hi - lo <= (1 + 1e-9) * ext[1], "the box of an edge along an axis is at most as wide as long")
    r.nt(e["type"] != "line")
    edge.deparameterize()
    r.true(not edge.is_parameterized, "deparameterize")


PROP = Prop(
    "C05",
    [
        Sub(
            "geometry",
            specs(),
            check,
            quick=1600,
            thorough=24000,
            shards=4,
            rule="an edge of any curve type and options, on the whole curve or "
            "a part of it, joined to random points, sampled by either rule; "
            "non-trivial: not a straight line",
        )
    ],
)
