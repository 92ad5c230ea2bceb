"""C28: the library of meshes."""

import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub
from ..gens import q
from ..geom import build_edge
from ..harm import points
from ..meshgen import cell_labels, label_mesh, mesh_specs

PI = math.pi


def pegboard(nx, ny, rad):
    """What a pegboard has to look like."""
    h = 1 / max(nx, ny)
    hole = PI * (rad * h) ** 2 if rad > 0 else 0.0
    area = {}
    for k in range(nx * ny):
        area[k] = h * h - hole
        if rad > 0:
            area[nx * ny + k] = hole
    where = {}
    for i in range(ny):
        for j in range(nx):
            # centre of the square and a corner
            where[i * nx + j] = [complex((j + 0.05) * h, (i + 0.05) * h), complex((j + 0.95) * h, (i + 0.95) * h)]
            c = complex((j + 0.5) * h, (i + 0.5) * h)
            if rad > 0:
                where[nx * ny + i * nx + j] = [c, c + 0.8 * rad * h, c - 0.8j * rad * h]
                if rad < 0.44:
                    where[i * nx + j].append(c + 0.5 * (0.5 + rad) * h)
            else:
                where[i * nx + j].append(c)
    loops = nx * ny if rad > 0 else 0
    return {
        "box": (0.0, 0.0, nx * h, ny * h),
        "area": area,
        "edges": nx * (ny + 1) + ny * (nx + 1) + loops,
        "boundary": 2 * (nx + ny),
        "verts": (nx + 1) * (ny + 1),
        "inner_verts": (nx - 1) * (ny - 1),
        "loops": loops,
        "where": where,
        "holes": {k: int(rad > 0 and k < nx * ny) for k in area},
    }


def pacman(subdiv):
    mouth = 0.5 * 0.16 * PI * 5 / 3
    eye, dot, eye2 = PI * 0.01, PI * 0.01, PI * 0.09 * 0.12
    ghost = 0.6 * 0.48 + 0.5 * PI * 0.09
    extra = 2 if subdiv else 0
    return {
        "box": (0.0, 0.0, 4.0, 1.0),
        "area": {0: 1 - mouth, 1: mouth - eye, 2: eye, 3: 2 - 3 * dot, 4: dot, 5: dot, 6: dot, 7: 1 - ghost, 8: ghost - 2 * eye2, 9: eye2, 10: eye2},
        "edges": 23 + extra,
        "boundary": 8,
        "verts": 8 + 3 + 4 + extra,
        "inner_verts": 3 + 4 + extra,
        "loops": 6,
        "where": {
            0: [0.03 + 0.03j, 0.8 + 0.5j, 0.97 + 0.97j], 1: [0.45 + 0.3j, 0.2 + 0.5j, 0.6 + 0.8j], 2: [0.46 + 0.7j],
            3: [1.05 + 0.5j, 1.75 + 0.5j, 2.95 + 0.1j], 4: [1.5 + 0.55j], 5: [2.07 + 0.5j], 6: [2.5 + 0.42j],
            7: [3.05 + 0.05j, 3.95 + 0.95j, 3.1 + 0.9j], 8: [3.5 + 0.3j, 3.5 + 0.85j, 3.25 + 0.4j], 9: [3.35 + 0.6j], 10: [3.65 + 0.55j],
        },
        "holes": {k: {0: 1, 1: 1, 3: 3, 7: 1, 8: 2}.get(k, 0) for k in range(11)},
    }


def square():
    h = PI / 16
    return {
        "box": (0.0, 0.0, 1.0, 1.0), "area": {0: 1 - h, 1: h}, "edges": 5, "boundary": 4, "verts": 4, "inner_verts": 0, "loops": 1,
        "where": {0: [0.1 + 0.1j, 0.5 + 0.8j, 0.9 + 0.2j], 1: [0.5 + 0.5j, 0.7 + 0.5j, 0.5 + 0.3j]}, "holes": {0: 1, 1: 0},
    }


@st.composite
def library_cases(draw):
    name = draw(st.sampled_from(["pegboard"] * 5 + ["pacman", "pacman_subdiv", "square_circular_hole"]))
    out = {"mesh": name, "n": draw(st.sampled_from([32, 48])), "verbose": draw(st.booleans()), "pts": [[draw(q(0.01, 0.99, 97)), draw(q(0.01, 0.99, 97))] for _ in range(12)]}
    if name == "pegboard":
        out["size"] = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
        out["radius"] = draw(st.sampled_from([None, 0.25, 0, -1.0]) | q(0.05, 0.45, 100))
    return out


def check_library(s, r: Recorder):
    import puncturedfem as pf

    name = s["mesh"]
    r.label(name)
    kw = {} if s["verbose"] else {"verbose": False}
    out = io.StringIO()
    if name == "pegboard":
        nx, ny = s["size"]
        if s["radius"] is not None:
            kw["radius"] = s["radius"]
        rad = 0.25 if s["radius"] is None else float(s["radius"])
        want = pegboard(nx, ny, rad)
        with contextlib.redirect_stdout(out):
            mesh = pf.meshlib.pegboard(size=(nx, ny), **kw)
        if rad <= 0:
            r.label("no holes")
        r.nt(nx != ny and rad != 0.25)
    else:
        want = square() if name == "square_circular_hole" else pacman(name == "pacman_subdiv")
        with contextlib.redirect_stdout(out):
            mesh = getattr(pf.meshlib, name)(**kw)
        r.nt()
    if s["verbose"]:
        for k in (mesh.num_cells, mesh.num_edges, mesh.num_verts):
            r.true(str(k) in out.getvalue(), "the numbers are printed", out.getvalue())
    else:
        r.eq("printed text", out.getvalue(), "")
    examine(mesh, want, s, r)


def examine(mesh, want, s, r):
    import puncturedfem as pf

    r.true(isinstance(mesh, pf.PlanarMesh), "a planar mesh")
    r.eq("number of edges", mesh.num_edges, want["edges"])
    r.eq("number of cells", mesh.num_cells, len(want["area"]))
    r.eq("number of vertices", mesh.num_verts, want["verts"])
    r.eq("labels of the cells", sorted(mesh.cell_idx_list), sorted(want["area"]))
    r.eq("loops", sum(bool(e.is_loop) for e in mesh.edges), want["loops"])
    r.eq("edges on the boundary", sum(bool(mesh.edge_is_on_boundary(k)) for k in range(mesh.num_edges)), want["boundary"])
    r.eq("inner vertices", sum(not mesh.vert_is_on_boundary(v) for v in mesh.vert_idx_list), want["inner_verts"])
    # one place, one vertex
    place = {}
    for e in mesh.edges:
        for v in () if e.is_loop else (e.anchor, e.endpnt):
            z = place.setdefault(v.idx, (v.x, v.y))
            r.eq("place of a vertex", (v.x, v.y), z)
    z = np.array(list(place.values()))
    d = np.hypot(z[:, None, 0] - z[None, :, 0], z[:, None, 1] - z[None, :, 1]) + 10 * np.eye(len(z))
    r.true(float(np.min(d)) > 1e-3, "vertices are apart")
    x0, y0, x1, y1 = want["box"]
    quad = pf.get_quad_dict(n=s["n"], p=7)
    pts = [complex(x0 + (x1 - x0) * a, y0 + (y1 - y0) * b) for a, b in s["pts"]]
    inside = np.zeros(len(pts))
    close = np.zeros(len(pts), dtype=bool)
    bx = np.array([p.real for p in pts])
    by = np.array([p.imag for p in pts])
    total = 0.0
    for c, area in want["area"].items():
        cell = mesh.get_cell(c)
        r.eq("holes of a cell", cell.num_holes, want["holes"][c])
        cell.parameterize(quad, compute_interior_points=False)
        zz = points(cell)
        nx, ny = cell.get_unit_normal()
        a = 0.5 * cell.integrate_over_boundary(zz.real * nx + zz.imag * ny)
        r.close("area of a cell", a, area, 1e-5, area)
        total += a
        w = np.array(want["where"][c])
        r.true(bool(np.all(cell.is_in_interior(w.real.copy(), w.imag.copy()))), "points of a cell", c)
        for k, v in want["where"].items():
            if k != c:
                v = np.array(v)
                r.true(not np.any(cell.is_in_interior(v.real.copy(), v.imag.copy())), "points of another cell", c, k)
        inside += cell.is_in_interior(bx, by)
        near = np.min(np.abs(np.array(pts)[:, None] - zz[None, :]), axis=1)
        close |= near < 0.15 * math.sqrt(area)
        x_lo, x_hi, y_lo, y_hi = zz.real.min(), zz.real.max(), zz.imag.min(), zz.imag.max()
        r.true(min(x_lo - x0, x1 - x_hi, y_lo - y0, y1 - y_hi) > -1e-9, "a cell lies in the domain")
    r.close("area of the domain", total, (x1 - x0) * (y1 - y0), 1e-6, (x1 - x0) * (y1 - y0))
    r.eq("every point in one cell", inside[~close].tolist(), [1.0] * int(np.sum(~close)))
    # the edges of the boundary trace the rectangle
    length = 0.0
    for k, e in enumerate(mesh.edges):
        if not mesh.edge_is_on_boundary(k):
            continue
        e.parameterize(quad)
        x, y = e.get_sampled_points()
        gap = np.minimum(np.minimum(np.abs(x - x0), np.abs(x - x1)), np.minimum(np.abs(y - y0), np.abs(y - y1)))
        r.close("boundary of the domain", gap, np.zeros(len(gap)), 1e-9)
        length += float(np.hypot(e.anchor.x - e.endpnt.x, e.anchor.y - e.endpnt.y))
        e.deparameterize()
    r.close("length of the boundary", length, 2 * (x1 - x0 + y1 - y0), 1e-9)


@st.composite
def builder_cases(draw):
    spec = draw(mesh_specs(wide=True))
    return {"mesh": spec, "seed": draw(st.integers(0, 99)), "kw": draw(st.dictionaries(st.sampled_from(["size", "radius", "h"]), st.integers(0, 9), max_size=3)), "verbose": draw(st.booleans())}


def check_builder(s, r: Recorder):
    import puncturedfem as pf

    spec = s["mesh"]
    label_mesh(spec, r)
    at = {}
    for e in spec["edges"]:
        if e["ai"] >= 0:
            at[e["ai"]] = e["a"]
            at[e["bi"]] = e["b"]
    labels = sorted(at)
    rank = {v: k for k, v in enumerate(labels)}
    calls = []
    made = {}

    def get_verts(**kw):
        calls.append(("verts", kw))
        made["verts"] = [pf.Vert(x=at[v][0], y=at[v][1]) for v in labels]
        return made["verts"]

    def get_edges(verts, **kw):
        calls.append(("edges", kw))
        made["given"] = verts
        made["idx"] = [v.idx for v in verts]
        out = []
        for e in spec["edges"]:
            if e["a"] == e["b"] or e["type"] != "line":
                e = dict(e)
                if e["ai"] >= 0:
                    e["ai"], e["bi"] = rank[e["ai"]], rank[e["bi"]]
                out.append(build_edge(e, e["pos"], e["neg"], None))
            else:
                out.append(pf.Edge(verts[rank[e["ai"]]], verts[rank[e["bi"]]], pos_cell_idx=e["pos"], neg_cell_idx=e["neg"]))
        made["edges"] = out
        return out

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        mesh = pf.mesh_builder(get_verts, get_edges, verbose=s["verbose"], **s["kw"])
    r.eq("printed", bool(out.getvalue()), s["verbose"])
    r.eq("calls", calls, [("verts", s["kw"]), ("edges", s["kw"])])
    r.eq("vertices are numbered before the edges are made", made["idx"], list(range(len(labels))))
    r.true(all(a is b for a, b in zip(made["given"], made["verts"])), "the vertices are passed on")
    r.true(len(mesh.edges) == len(made["edges"]) and all(a is b for a, b in zip(mesh.edges, made["edges"])), "edges of the mesh")
    r.eq("cells", list(mesh.cell_idx_list), cell_labels(spec))
    r.eq("vertices", list(mesh.vert_idx_list), list(range(len(labels))))
    r.nt(bool(s["kw"]) and len(labels) > 1)


PROP = Prop(
    "C28",
    [
        Sub("library", library_cases(), check_library, quick=120, thorough=1500, shards=8,
            examples=[{"mesh": m, "n": 48, "verbose": True, "pts": [[0.1, 0.2]]} for m in ("pacman", "pacman_subdiv", "square_circular_hole")],
            rule="pegboards of any size and radius and the fixed meshes; non-trivial: not a square pegboard with the default radius"),
        Sub("builder", builder_cases(), check_builder, quick=300, thorough=20000, shards=4,
            rule="generated lists of vertices and edges with arbitrary keyword arguments; non-trivial: some keywords and vertices"),
    ],
)
