"""C09: assembly of the boundary of a cell."""

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_edges, cell_specs, contour_sizes, describe, num_of, q, quads
from ..geom import RefCurve, build_edge
from ..ref import nodes


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, many=5))
    for h in c["holes"]:
        # a wavy hole may well be longer than the outer boundary around it
        if draw(st.integers(0, 3)) == 0:
            w = draw(st.integers(16, 30))
            k = draw(st.integers(3, 4))
            th = draw(q(0.0, 6.28, 100))
            h.update({
                "k": "poly",
                "v": [[1.0, round(th + 2 * np.pi / k * i, 4)] for i in range(k)],
                "s": [["sine", w, 0.08] for _ in range(k)],
                "f": [draw(st.booleans()) for _ in range(k)],
            })
    m = sum(contour_sizes(c))
    return {
        "cell": c,
        "order": list(draw(st.permutations(list(range(m))))),
        "idx": draw(st.integers(0, 5)),
        "other": draw(st.integers(-1, 9)),
        "n": draw(st.integers(6, 24)),
        "p": draw(st.sampled_from([2, 4, 7])),
        "n2": draw(st.integers(6, 24)),
        "trap": draw(st.booleans()),
    }


def make(s, edit=None):
    """Edges of the cell, in the given order; edit(specs) changes them."""
    specs = cell_edges(s["cell"])
    if edit is not None:
        edit(specs)
    other = s["other"] if s["other"] != s["idx"] else -1
    edges = []
    for i, e in enumerate(specs):
        if s["trap"] and e["type"] in ("circle", "ellipse", "bean"):
            e["quad"] = "trap"
        pos, neg = (s["idx"], other) if e["side"] > 0 else (other, s["idx"])
        edges.append(build_edge(e, pos, neg, i))
    return edges, specs


def check_data(s, r, cell, specs, n, p, sizes):
    """The boundary data of the cell are those of the exact contours."""
    from puncturedfem import Edge  # noqa: F401

    starts = np.cumsum([0] + sizes)
    r.eq("number of holes", cell.num_holes, len(sizes) - 1)
    r.eq("number of contours", len(cell.components), len(sizes))
    r.eq("number of edges", cell.num_edges, sum(sizes))
    r.eq("edges listed", sorted(e.idx for e in cell.get_edges()), list(range(sum(sizes))))
    num = [num_of(s["cell"], e["quad"], n) for e in specs]
    r.eq("number of points", cell.num_pts, 2 * sum(num))
    x, y = cell.get_boundary_points()
    tx, ty = cell.get_unit_tangent()
    nx, ny = cell.get_unit_normal()
    dx = cell.get_dx_norm()
    z = np.asarray(x) + 1j * np.asarray(y)
    seen = []
    k0 = 0
    r.eq("starts of the contours", [int(v) for v in cell.component_start_idx],
         [2 * int(v) for v in np.cumsum([0] + [sum(num[e.idx] for e in c.edges) for c in cell.components])])
    for i, c in enumerate(cell.components):
        ids = [e.idx for e in c.edges]
        which = int(np.searchsorted(starts, ids[0], side="right")) - 1
        seen.append(which)
        if i == 0:
            r.eq("the first contour is the outer one", which, 0)
        r.eq("edges of a contour", sorted(ids), list(range(starts[which], starts[which + 1])))
        # a hole is described counterclockwise, its boundary runs clockwise
        step = 1 if which == 0 else -1
        m = sizes[which]
        h = num[ids[0]]
        for a in range(m):
            nxt = starts[which] + (ids[a] - starts[which] + step) % m
            r.eq("next edge of the contour", ids[(a + 1) % m], nxt)
        r.eq("vertex positions", [int(v) for v in c.vert_idx], [2 * h * a for a in range(m + 1)])
        r.eq("points of a contour", c.num_pts, 2 * h * m)
        for a, k in enumerate(ids):
            e = specs[k]
            r.eq("orientation", c.edge_orients[a], e["side"])
            t, w = nodes(e["quad"], h, p)
            ze, de, _ = RefCurve(e).eval(t)
            de = de * w
            if e["side"] < 0:
                ze, de = ze[::-1], -de[::-1]
            sl = slice(k0 + 2 * h * a, k0 + 2 * h * (a + 1))
            size = max(1.0, float(np.max(np.abs(ze))))
            r.close("sampled points", [z[sl].real, z[sl].imag], [ze[:-1].real, ze[:-1].imag], 1e-10, size)
            ln = float(np.max(np.abs(de)))
            r.close("weighted arc length elements", dx[sl], np.abs(de[:-1]), 1e-9, ln)
            good = np.abs(de[:-1]) > 1e-4 * ln
            u = de[:-1][good] / np.abs(de[:-1][good])
            r.close("tangents", [np.asarray(tx)[sl][good], np.asarray(ty)[sl][good]], [u.real, u.imag], 1e-7)
            r.close("outward normals", [np.asarray(nx)[sl][good], np.asarray(ny)[sl][good]], [u.imag, -u.real], 1e-7)
            # closest vertex: start of the edge, then start of the next one
            want = np.where(np.arange(2 * h) < h, k0 + 2 * h * a, k0 + 2 * h * ((a + 1) % m))
            got = np.asarray(cell.closest_vert_idx)[sl]
            r.eq("closest vertex", np.delete(got, h), np.delete(want, h))
            r.true(got[h] in (k0 + 2 * h * a, k0 + 2 * h * ((a + 1) % m)), "closest vertex of the middle")
        k0 += 2 * h * m
    r.eq("contours", sorted(seen), list(range(len(sizes))))


def check(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError

    describe(s["cell"], r)
    edges, specs = make(s)
    sizes = contour_sizes(s["cell"])
    given = [edges[i] for i in s["order"]]
    keep = list(given)
    cell = pf.MeshCell(idx=s["idx"], edges=given)
    r.true(len(given) == len(keep) and all(a is b for a, b in zip(given, keep)), "the caller's list was changed")
    r.eq("edges before sampling", sorted(e.idx for e in cell.get_edges()), list(range(len(edges))))
    qd = quads(s["cell"], s["n"], s["p"])
    cell.parameterize(qd, compute_interior_points=False)
    check_data(s, r, cell, specs, s["n"], s["p"], sizes)
    # sample again: same quadrature, another one, and after removing the samples
    cell.parameterize(qd, compute_interior_points=False)
    check_data(s, r, cell, specs, s["n"], s["p"], sizes)
    qd2 = quads(s["cell"], s["n2"])
    cell.parameterize(qd2, compute_interior_points=False)
    check_data(s, r, cell, specs, s["n2"], 7, sizes)
    cell.deparameterize()
    r.raises("points without samples", NotParameterizedError, cell.get_boundary_points)
    r.raises("bounding box without samples", NotParameterizedError, cell.get_bounding_box)
    r.raises("membership without samples", NotParameterizedError, cell.is_in_interior, np.zeros(2), np.zeros(2))
    r.raises("integral without samples", NotParameterizedError, cell.integrate_over_boundary, np.zeros(4))
    cell.parameterize(qd, compute_interior_points=False)
    check_data(s, r, cell, specs, s["n"], s["p"], sizes)
    r.label("edges in order" if s["order"] == sorted(s["order"]) else "edges shuffled")
    if any(e["side"] < 0 for e in specs[: sizes[0]]) and any(e["side"] > 0 for e in specs[: sizes[0]]):
        r.label("mixed orientations")
    r.nt(len(edges) > 1 and s["order"] != sorted(s["order"]))


@st.composite
def bad(draw):
    c = draw(cell_specs(max_holes=1, curved=draw(st.booleans())))
    m = sum(contour_sizes(c))
    return {
        "cell": c,
        "order": list(draw(st.permutations(list(range(m))))),
        "idx": draw(st.integers(0, 3)),
        "other": -1,
        "trap": False,
        "k": draw(st.integers(0, m - 1)),
        "what": draw(st.sampled_from(["missing", "gap", "gap_end", "foreign", "flipped", "extra", "touching"])),
        "by": draw(q(0.001, 0.3)),
        "dir": draw(q(0.0, 6.28, 100)),
    }


def check_bad(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import EmbeddingError

    what = s["what"]
    specs = cell_edges(s["cell"])
    opn = [i for i, e in enumerate(specs) if e["a"] != e["b"]]
    r.label(what)
    k = s["k"]
    scale = s["cell"]["sim"][0]
    d = scale * s["by"] * np.exp(1j * s["dir"])
    edges, specs = make(s)
    if what != "foreign":
        if not opn:
            r.label("only loops: nothing to break")
            return
        if k not in opn:
            k = opn[s["k"] % len(opn)]
    if what == "missing":
        del edges[k]
    elif what in ("gap", "gap_end"):
        end = "a" if what == "gap" else "b"

        def edit(sp):
            sp[k][end] = [sp[k][end][0] + float(d.real), sp[k][end][1] + float(d.imag)]

        edges, specs = make(s, edit)
    elif what == "foreign":
        edges[k].set_cells(s["idx"] + 1, s["idx"] + 2) if hasattr(edges[k], "set_cells") else None
        edges[k].pos_cell_idx, edges[k].neg_cell_idx = s["idx"] + 1, s["idx"] + 2
    elif what == "flipped":
        e = edges[k]
        e.pos_cell_idx, e.neg_cell_idx = e.neg_cell_idx, e.pos_cell_idx
    elif what == "extra":
        # a chord from one vertex of a contour to somewhere else
        a = specs[k]["a"]
        b = [a[0] + float(d.real), a[1] + float(d.imag)]
        edges.append(build_edge({"type": "line", "opts": {}, "a": a, "b": b}, s["idx"], -1, len(edges)))
    elif what == "touching":
        # a triangle that shares a vertex with the contour
        a = complex(*specs[k]["a"])
        t = [a, a + d, a + d * 1j]
        for i in range(3):
            u, v = t[i], t[(i + 1) % 3]
            edges.append(
                build_edge(
                    {"type": "line", "opts": {}, "a": [u.real, u.imag], "b": [v.real, v.imag]},
                    s["idx"], -1, len(edges),
                )
            )
    order = s["order"] if what not in ("missing",) else list(range(len(edges)))
    order = order + list(range(len(order), len(edges)))
    given = [edges[i] for i in order]
    r.raises("not a union of disjoint contours", EmbeddingError, pf.MeshCell, idx=s["idx"], edges=given)
    r.nt()


PROP = Prop(
    "C09",
    [
        Sub("assembly", cases(), check, quick=500, thorough=10000, shards=7,
            rule="cells with up to 3 holes, edges in any order and orientation, sampled, sampled again and compared with the exact contours; non-trivial: several edges, not in order"),
        Sub("rejected", bad(), check_bad, quick=200, thorough=4000, shards=1,
            rule="collections of edges that do not bound a cell (missing, displaced, foreign, flipped, extra, touching); non-trivial: the collection was broken"),
    ],
)
