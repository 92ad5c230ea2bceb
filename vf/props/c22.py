"""C22: numbering of the global functions and conformity."""

import numpy as np
from hypothesis import strategies as st

from ..gens import quads
from ..core import Prop, Recorder, Sub
from ..harm import points, warm
from ..meshgen import build_mesh, cell_labels, edges_of, label_mesh, mesh_specs, vert_labels


@st.composite
def cases(draw):
    m = draw(mesh_specs(big=True, nx=3, ny=2, max_punctures=2))
    return {
        "mesh": m,
        "deg": draw(st.sampled_from([1, 2, 2, 3])),
        "n": draw(st.integers(10, 20)),
        "order": list(draw(st.permutations(list(range(len(cell_labels(m))))))),
        "again": draw(st.lists(st.integers(0, 20), max_size=2)),
    }


def identity(key, cell):
    """What the function with a key is."""
    if key.fun_type == "bubb":
        return ("bubb", cell, int(key.bubb_space_idx))
    if key.fun_type == "vert":
        return ("vert", int(key.vert_idx))
    return ("edge", int(key.edge_idx), int(key.edge_space_idx))


def place(cell):
    """Positions of the samples of each edge of a cell in its contours."""
    pos, out = 0, {}
    for comp in cell.components:
        for e, o in zip(comp.edges, comp.edge_orients):
            out[e.idx] = (slice(pos, pos + e.num_pts - 1), o)
            pos += e.num_pts - 1
    return out


def check(s, r: Recorder):
    import puncturedfem as pf

    spec, deg = s["mesh"], s["deg"]
    label_mesh(spec, r)
    r.label(f"degree {deg}")
    mesh = build_mesh(spec)
    gfs = pf.GlobalFunctionSpace(mesh, deg, quads(spec, s["n"]), verbose=False)
    labels, verts = cell_labels(spec), vert_labels(spec)
    nb = deg * (deg - 1) // 2
    dims = [b.num_edge_funs for b in gfs.edge_spaces]
    r.eq("one edge space per edge", [b.e.idx for b in gfs.edge_spaces], list(range(len(spec["edges"]))))
    r.true(all(b.deg == deg for b in gfs.edge_spaces), "degree of the edge spaces")
    r.true(all(len(b.edge_fun_traces) == b.num_edge_funs for b in gfs.edge_spaces), "size of the edge spaces")
    counts = (nb * len(labels), len(verts), sum(dims))
    r.eq("numbers of functions", (gfs.num_bubb_funs, gfs.num_vert_funs, gfs.num_edge_funs), counts)
    r.eq("number of functions", gfs.num_funs, sum(counts))
    visits = [labels[k] for k in s["order"]] + [labels[k % len(labels)] for k in s["again"]]
    number, flags = {}, {}
    traces = {}
    for c in visits:
        sp = gfs.build_local_function_space(
            c, verbose=False, compute_interior_values=False, compute_interior_gradient=False
        )
        cell = sp.nyst.K
        own = edges_of(spec, c)
        want = [("bubb", c, k) for k in range(nb)]
        want += [("vert", v) for v in sorted({v for e in own for v in (e["ai"], e["bi"]) if v >= 0})]
        want += [("edge", e["k"], j) for e in own for j in range(dims[e["k"]])]
        got = [identity(f.key, c) for f in sp.get_basis()]
        r.eq("functions of a cell", sorted(got), sorted(want))
        r.eq("cell of the space", cell.idx, c)
        for f, g in zip(sp.get_basis(), got):
            i = f.key.glob_idx
            r.true(number.setdefault(g, i) == i, "one number per function", g, i, number[g])
            r.eq("number from the key", gfs.get_global_idx(f.key, mesh.get_abs_cell_idx(c)), i)
            b = bool(f.key.is_on_boundary)
            r.true(flags.setdefault(g, b) == b, "one boundary flag per function")
            r.eq("flag from the key", bool(gfs.fun_is_on_boundary(f.key)), b)
        dofs = gfs.cell_dofs[labels.index(c)]
        r.eq("numbers listed for the cell", [k.glob_idx for k in dofs], [f.key.glob_idx for f in sp.get_basis()])
        z = points(cell)
        traces[c] = (z, place(cell), {g: np.asarray(f.get_trace_values()) for f, g in zip(sp.get_basis(), got)})
    r.eq("all functions are numbered", sorted(number.values()), list(range(gfs.num_funs)))
    # the boundary
    out_e = {k for k, e in enumerate(spec["edges"]) if e["pos"] < 0 or e["neg"] < 0}
    out_v = {v for k in out_e for v in (spec["edges"][k]["ai"], spec["edges"][k]["bi"]) if v >= 0}
    for g, b in flags.items():
        want = g[0] == "vert" and g[1] in out_v or g[0] == "edge" and g[1] in out_e
        r.true(b == want, "functions on the boundary", g, b, want)
    # conformity
    shared = 0
    for k, e in enumerate(spec["edges"]):
        here = {}
        for c in {x for x in (e["pos"], e["neg"]) if x >= 0}:
            z, pl, tr = traces[c]
            sl, o = pl[k]
            for g, t in tr.items():
                v = t[sl][1:] if o > 0 else t[sl][1:][::-1]
                here.setdefault(g, []).append(v)
                if k in out_e and not flags[g]:
                    r.close("functions inside vanish on the boundary", v, np.zeros(len(v)), 1e-11, float(np.max(np.abs(t))) + 1)
        if e["pos"] >= 0 and e["neg"] >= 0:
            shared += 1
            top = max(1.0, max(float(np.max(np.abs(v))) for vs in here.values() for v in vs))
            for g, vs in here.items():
                other = vs[1] if len(vs) == 2 else np.zeros(len(vs[0]))
                if len(vs) == 1 and g[0] == "bubb":
                    r.close("bubbles vanish on the edges", vs[0], other, 1e-9, 1.0)
                else:
                    r.close("the traces of a function agree", vs[0], other, 1e-10, top)
    if s["again"]:
        r.label("cells built twice")
    r.nt(len(labels) > 1 and shared > 0)


PROP = Prop(
    "C22",
    [
        Sub("numbering", cases(), check, quick=70, thorough=3000, shards=8,
            rule="meshes with curved edges, loops, holes, voids and any labels, cells built in any order and repeatedly; non-trivial: at least two cells sharing an edge"),
    ],
    warm=warm,
)
