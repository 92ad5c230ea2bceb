"""C11: topology of planar meshes."""

import numpy as np
from hypothesis import strategies as st

from ..gens import quad_of, quads
from ..core import Prop, Recorder, Sub
from ..geom import build_edge, poly_volume_integral
from ..meshgen import build_mesh, cell_labels, edges_of, label_mesh, mesh_specs, vert_labels


@st.composite
def cases(draw):
    m = draw(mesh_specs(wide=True))
    return {
        "mesh": m,
        "visit": draw(st.lists(st.integers(0, 20), min_size=2, max_size=6)),
        "n": draw(st.integers(6, 16)),
        "dup": draw(st.lists(st.integers(0, 30), max_size=3)),
        "vorder": draw(st.randoms(use_true_random=False)).random(),
    }


def snapshot(cell):
    x, y = cell.get_boundary_points()
    nx, ny = cell.get_unit_normal()
    return np.array([x, y, nx, ny, cell.get_dx_norm()])


def check(s, r: Recorder):
    import puncturedfem as pf

    spec = s["mesh"]
    label_mesh(spec, r)
    ne = len(spec["edges"])
    edges = [build_edge(dict(e, quad=quad_of(spec, e)), e["pos"], e["neg"], None) for e in spec["edges"]]
    given = list(edges)
    for d in s["dup"]:
        given.append(edges[d % ne])  # listed twice
    keep = list(given)
    mesh = pf.PlanarMesh(given, verbose=False)
    r.true(len(keep) == len(given) and all(a is b for a, b in zip(keep, given)), "the caller's list was changed")
    cells, verts = cell_labels(spec), vert_labels(spec)
    r.eq("number of edges", mesh.num_edges, ne)
    r.eq("number of cells", mesh.num_cells, len(cells))
    r.eq("number of vertices", mesh.num_verts, len(verts))
    r.eq("cells", list(mesh.cell_idx_list), cells)
    r.eq("vertices", list(mesh.vert_idx_list), verts)
    r.true(all(a is b for a, b in zip(mesh.edges, edges)), "order of the edges")
    r.eq("edge numbers", [e.idx for e in mesh.edges], list(range(ne)))
    for k, e in enumerate(spec["edges"]):
        r.eq("edge on the boundary", bool(mesh.edge_is_on_boundary(k)), min(e["pos"], e["neg"]) < 0)
    for v in verts:
        on = any(v in (e["ai"], e["bi"]) and min(e["pos"], e["neg"]) < 0 for e in spec["edges"])
        r.eq("vertex on the boundary", bool(mesh.vert_is_on_boundary(v)), on)
    for i, c in enumerate(cells):
        r.eq("position of a cell", mesh.get_abs_cell_idx(c), i)
    for c in (-1, max(cells) + 1):
        r.raises("cell that is not in the mesh", IndexError, mesh.get_cell, c)
    missing = [c for c in range(max(cells)) if c not in cells]
    if missing:
        r.raises("cell that is not in the mesh", IndexError, mesh.get_cell, missing[0])
    # cells
    holes = {}
    for c in cells:
        es = edges_of(spec, c)
        cell = mesh.get_cell(c)
        r.eq("label of the cell", cell.idx, c)
        r.eq("edges of the cell", sorted(e.idx for e in cell.get_edges()), [e["k"] for e in es])
        r.true(all(e.anchor == mesh.edges[e.idx].anchor and e.endpnt == mesh.edges[e.idx].endpnt for e in cell.get_edges()), "vertices of the edges of the cell")
        holes[c] = cell.num_holes
        for comp in cell.components:
            for e, o in zip(comp.edges, comp.edge_orients):
                r.eq("orientation in the cell", o, 1 if spec["edges"][e.idx]["pos"] == c else -1)
    # Euler's formula, from the library's counts alone
    comps = components(spec)
    loops = sum(1 for e in spec["edges"] if e["a"] == e["b"])
    total = sum(1 - h for h in holes.values())
    chi = domain_euler(spec, comps)
    r.eq("Euler characteristic", mesh.num_verts + loops - mesh.num_edges + total, chi)
    # visiting the cells in any order gives the same samples every time
    qd = quads(spec, s["n"])
    seen = {}
    areas = {}
    one = pf.Polynomial([(1.0, 0, 0)])
    from puncturedfem.locfun.poly.integrate_poly import integrate_poly_over_mesh_cell

    for v in s["visit"]:
        c = cells[v % len(cells)]
        cell = mesh.get_cell(c)
        cell.parameterize(qd, compute_interior_points=False)
        snap = snapshot(cell)
        if c in seen:
            r.close("samples of a cell visited again", snap, seen[c], 1e-12)
            r.label("visited again")
        seen[c] = snap
        areas[c] = integrate_poly_over_mesh_cell(one, cell)
    for c, a in areas.items():
        es = edges_of(spec, c)
        exact = poly_volume_integral(es, [(1.0, 0, 0)])
        r.true(0.2 * exact < a < 5 * exact, "area of a cell", a, exact)
    r.nt(len(cells) > 1)


def components(spec):
    """Connected components of the union of the edges (by endpoints)."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x

    for k, e in enumerate(spec["edges"]):
        if e["a"] == e["b"]:
            find(("loop", k))
        else:
            parent[find(e["ai"])] = find(e["bi"])
    return len({find(x) for x in list(parent)})


def domain_euler(spec, comps):
    """V - E + sum over the cells of (1 - holes), by inclusion: for a planar
    graph V - E + F = 1 + C with F faces; a face with h holes has 1 - h."""
    # number of faces that are not cells (bounded voids and the outside)
    # are found from the darts that carry no label
    void = void_contours(spec)
    # the cells have sum (1 - h) = F_cells - H_cells.  Every contour belongs
    # to one face; faces have 1 + holes contours, the outside face 'holes'.
    # V - E + C_total_contours' bookkeeping below is exact for planar graphs:
    # contours = F - 1 + C   (each component beyond the outside's adds one)
    v = len(vert_labels(spec)) + sum(1 for e in spec["edges"] if e["a"] == e["b"])
    e = len(spec["edges"])
    f = 1 + comps - v + e
    contours = 2 * comps + e - v  # faces + extra contours = F - 1 + C
    del void
    # cells: each has 1 + h contours, so sum (1-h) = 2*F_cells - contours_cells
    dart = dart_contours(spec)
    cell_contours = sum(len(x) for x in dart.values())
    assert contours == cell_contours + len(void_contours(spec)), (contours, dart)
    return v - e + 2 * len(dart) - cell_contours + 0 * f


def walk(spec, darts):
    """Cycles of darts (tail, head, id): cells keep to the left; at every
    vertex the next dart of the same cell is found by its tail.  Ambiguous
    tails (pinched voids) are resolved by angle."""
    from ..geom import RefCurve

    def tangent(k, fwd, at_start):
        rc = RefCurve(spec["edges"][k])
        z, d, _ = rc.eval(np.array([0.0, 2 * np.pi]))
        if fwd:
            return d[0] if at_start else d[1]
        return -d[1] if at_start else -d[0]

    left = {d[2:]: d for d in darts}
    cycles = []
    while left:
        key = next(iter(left))
        first = left[key]
        cyc = [first]
        del left[key]
        cur = first
        while True:
            cand = [d for d in list(left.values()) + [first] if d[0] == cur[1]]
            if not cand:
                raise AssertionError("not closed")
            if len(cand) > 1:
                t_in = -tangent(cur[2], cur[3], False)
                # the face is to the left: take the first dart clockwise
                cand.sort(key=lambda d: (np.angle(t_in / tangent(d[2], d[3], True)) % (2 * np.pi)) or 2 * np.pi)
            nxt = cand[0]
            if nxt is first:
                break
            cyc.append(nxt)
            del left[nxt[2:]]
            cur = nxt
        cycles.append(cyc)
    return cycles


def all_darts(spec, cell):
    out = []
    for k, e in enumerate(spec["edges"]):
        a, b = (e["ai"], e["bi"]) if e["a"] != e["b"] else (("l", k), ("l", k))
        if max(e["pos"], -1) == cell:
            out.append((a, b, k, True))
        if max(e["neg"], -1) == cell:
            out.append((b, a, k, False))
    return out


def dart_contours(spec):
    return {c: walk(spec, all_darts(spec, c)) for c in cell_labels(spec)}


def void_contours(spec):
    return walk(spec, all_darts(spec, -1))


@st.composite
def bad(draw):
    return {
        "mesh": draw(mesh_specs(nx=2, ny=1, sims=False)),
        "k": draw(st.integers(0, 30)),
        "what": draw(st.sampled_from(["no cell", "not an edge", "late"])),
        "v": draw(st.sampled_from([None, 1, "e"])),
    }


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    spec = s["mesh"]
    what = s["what"]
    r.label(what)
    edges = [build_edge(dict(e, quad=quad_of(spec, e)), e["pos"], e["neg"], None) for e in spec["edges"]]
    k = s["k"] % len(edges)
    if what == "no cell":
        e = spec["edges"][k]
        edges.insert(k, build_edge(e, -1, -1, None))
        r.raises("edge without a cell", ValueError, pf.PlanarMesh, edges, verbose=False)
    elif what == "not an edge":
        edges.insert(k, s["v"])
        r.raises("not an edge", TypeError, pf.PlanarMesh, edges, verbose=False)
    else:
        mesh = pf.PlanarMesh(edges, verbose=False)
        r.raises("not an edge", TypeError, mesh.add_edge, s["v"])
        mesh.add_edge(edges[k])
        r.eq("number of edges", mesh.num_edges, len(edges))
        r.eq("edges", len(mesh.edges), len(edges))
    r.nt()


PROP = Prop(
    "C11",
    [
        Sub("topology", cases(), check, quick=400, thorough=8000, shards=7,
            rule="generated meshes (grids with merged and removed cells, sectors, nested loops, filled and void punctures) with arbitrary labels, order and orientation against a combinatorial model; non-trivial: at least 2 cells"),
        Sub("rejected", bad(), check_bad, quick=60, thorough=600, shards=1,
            rule="invalid edges; non-trivial: always"),
    ],
)
