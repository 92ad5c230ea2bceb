"""C10: interior of a cell."""

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, no_triangulation, num_of, q, quads
from ..geom import TWO_PI, RefCurve
from ..ref import nodes


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, many=6, floor=0.0, big=draw(st.booleans())))
    tri = draw(st.integers(0, 4)) == 0
    return {
        "cell": c,
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))),
        "n": draw(st.integers(6, 12)) if tri else draw(st.integers(8, 40)),
        "tri": tri,
        "size": [draw(st.integers(3, 25)), draw(st.integers(3, 25))],
        "rtol": draw(st.sampled_from([0.05, 0.02, 0.1]) | q(0.005, 0.3)),
        "atol": draw(st.sampled_from([0.05, 0.001, 0.02]) | q(0.001, 0.3)),
        "pts": [[draw(q(-0.2, 1.2)), draw(q(-0.2, 1.2))] for _ in range(6)],
        "shape": draw(st.sampled_from([[6], [2, 3], [3, 2], [6, 1]])),
        "default": draw(st.booleans()),
    }


class Region:
    """Membership and distance from fine polylines of the exact contours."""

    def __init__(self, specs, sizes, n, spec):
        self.contours = []
        self.sag = 0.0
        i = 0
        for m in sizes:
            poly = []
            for e in specs[i : i + m]:
                rc = RefCurve(e)
                t, _ = nodes(e["quad"], num_of(spec, e["quad"], n), 7)
                # several points between consecutive samples
                fine = np.concatenate([np.linspace(a, b, 9)[:-1] for a, b in zip(t[:-1], t[1:])])
                z = rc.eval(np.append(fine, TWO_PI))[0]
                # distance of the curve from the chords between the samples
                a, b = z[:-1:8], z[8::8]
                for k in range(8):
                    u = z[k:-1:8]
                    w = b - a
                    lw = np.maximum(np.abs(w), 1e-300)
                    d = np.abs(((u - a) * w.conjugate()).imag) / lw
                    self.sag = max(self.sag, float(np.max(d)))
                z = z[:-1]
                # orient along the contour (the first listed edge leads)
                poly.append((e, z, rc.ends()))
            self.contours.append(chain(poly))
            i += m

    def inside(self, k, z):
        """Crossing number of a ray to the right."""
        p = self.contours[k]
        o = np.roll(p, -1)
        out = np.zeros(len(z), dtype=bool)
        for i, v in enumerate(z):
            up = (p.imag > v.imag) != (o.imag > v.imag)
            a, b = p[up], o[up]
            x = a.real + (v.imag - a.imag) * (b.real - a.real) / (b.imag - a.imag)
            out[i] = np.count_nonzero(x > v.real) % 2 == 1
        return out

    def distance(self, z):
        """A lower bound of the distance to the fine polylines."""
        best = np.full(len(z), np.inf)
        for p in self.contours:
            half = 0.5 * float(np.max(np.abs(np.roll(p, -1) - p)))
            tree = cKDTree(np.column_stack([p.real, p.imag]))
            d, _ = tree.query(np.column_stack([z.real, z.imag]))
            best = np.minimum(best, d - half)
        return best


def chain(poly):
    """Polyline of a contour from its edges listed counterclockwise."""
    if len(poly) == 1:
        return poly[0][1]
    out = []
    for i, (e, z, (a, b)) in enumerate(poly):
        na, nb = poly[(i + 1) % len(poly)][2]
        fwd = min(abs(b - na), abs(b - nb)) < min(abs(a - na), abs(a - nb))
        if len(poly) == 2:
            fwd = (i == 0) or abs(poly[0][2][1] - a) < abs(poly[0][2][1] - b)
        if fwd:
            out.append(z)
        else:
            out.append(np.concatenate(([b], z[:0:-1])))
    return np.concatenate(out)


def check(s, r: Recorder):
    import puncturedfem as pf

    describe(s["cell"], r)
    n = s["n"]
    cell, specs = build_cell(s["cell"], n=n, order=s["order"], param=False)
    rows, cols = s["size"]
    scale = s["cell"]["sim"][0]
    if s["default"]:
        rows = cols = 33
        rtol = atol = 0.05
    else:
        rtol, atol = s["rtol"], s["atol"]
        cell.set_interior_mesh_size(rows, cols)
        cell.set_interior_point_tolerance(rtol=rtol, atol=atol)
    if not s["tri"]:
        no_triangulation(cell)
    cell.parameterize(quads(s["cell"], n))
    sizes = contour_sizes(s["cell"])
    reg = Region(specs, sizes, n, s["cell"])
    bx, by = cell.get_boundary_points()
    b = np.asarray(bx) + 1j * np.asarray(by)
    x0, x1, y0, y1 = cell.get_bounding_box()
    r.close("bounding box", [x0, x1, y0, y1], [b.real.min(), b.real.max(), b.imag.min(), b.imag.max()], 1e-14)
    margin = 1.5 * reg.sag + 1e-9 * scale
    # membership of arbitrary points
    u = np.array(s["pts"])
    z = (x0 + u[:, 0] * (x1 - x0)) + 1j * (y0 + u[:, 1] * (y1 - y0))
    far = reg.distance(z) > margin
    got = np.asarray(cell.is_in_interior(z.real.reshape(s["shape"]), z.imag.reshape(s["shape"])))
    r.eq("shape", list(got.shape), s["shape"])
    want = reg.inside(0, z)
    for k in range(1, len(sizes)):
        want &= ~reg.inside(k, z)
    r.eq("membership", got.ravel()[far], want[far])
    r.label("some points inside" if np.any(want[far]) else "no point inside")
    for v in z[:3]:
        r.close("distance to the sampled boundary", cell.get_distance_to_boundary(float(v.real), float(v.imag)), float(np.min(np.abs(b - v))), 1e-12, scale)
    # one point inside of every contour
    for k, c in enumerate(cell.components):
        p = np.array([complex(c.interior_point.x, c.interior_point.y)])
        px, py = c.get_sampled_points()
        pts = np.asarray(px) + 1j * np.asarray(py)
        first = c.edges[0].idx
        which = int(np.searchsorted(np.cumsum(sizes), first, side="right"))
        if reg.distance(p)[0] > margin:
            r.true(reg.inside(which, p)[0], "the interior point of a contour lies outside of it", k, p)
        dist = float(np.min(np.abs(pts - p[0])))
        low = 0.01 * min(np.ptp(pts.real), np.ptp(pts.imag))
        r.true(dist >= low * (1 - 1e-9), "the interior point is too close to its contour", dist, low)
    # the interior points of the grid
    gx, gy = np.meshgrid(np.linspace(x0, x1, rows), np.linspace(y0, y1, cols))
    g = gx.ravel() + 1j * gy.ravel()
    tol = max(atol, rtol * min(x1 - x0, y1 - y0))
    inside = reg.inside(0, g)
    for k in range(1, len(sizes)):
        inside &= ~reg.inside(k, g)
    d = np.array([np.min(np.abs(b - v)) for v in g])
    doubt = (reg.distance(g) <= margin) & (d >= tol * 0.999)
    doubt |= np.abs(d - tol) < 1e-9 * scale
    ix, iy = np.asarray(cell.int_x1), np.asarray(cell.int_x2)
    pts = ix + 1j * iy
    r.true(ix.ndim == 1 and ix.shape == iy.shape, "shape of the interior points")
    step = min((x1 - x0) / rows, (y1 - y0) / cols)
    sure = g[inside & (d >= tol) & ~doubt]
    for v in sure:
        r.true(len(pts) and np.min(np.abs(pts - v)) < 1e-6 * step, "an interior point is missing", v)
    for v in pts:
        k = int(np.argmin(np.abs(g - v)))
        r.true(abs(g[k] - v) < 1e-6 * step, "an interior point is not on the grid", v)
        r.true(doubt[k] or (inside[k] and d[k] >= tol), "a point is outside or too close to the boundary", v, d[k], tol)
    r.eq("points are listed once", len({(float(f"{v.real:.9g}"), float(f"{v.imag:.9g}")) for v in pts}), len(pts))
    r.label("no interior points" if not len(pts) else "interior points")
    r.nt(len(sure) > 0 and np.any(far & want) or len(s["cell"]["holes"]) > 0)


PROP = Prop(
    "C10",
    [
        Sub("interior", cases(), check, quick=350, thorough=6000, shards=8,
            rule="membership, distances, interior points and hole points of cells with up to 3 holes against winding numbers of the exact contours; non-trivial: a hole, or points inside"),
    ],
)
