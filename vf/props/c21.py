"""C21: the basis of the local function space of a cell."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import cell_edges, cell_specs, contour_sizes, describe, no_triangulation, poly_terms, q, quads
from ..geom import RefCurve, build_edge
from ..harm import points, resolution, resolved_cell, warm
from .c19 import gaps


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=2, big=draw(st.integers(0, 2)) == 0))
    m = sum(contour_sizes(c))
    return {
        "cell": c,
        "deg": draw(st.sampled_from([1, 1, 2, 2, 3])),
        "n": draw(st.sampled_from([32, 40])),
        "order": list(draw(st.permutations(list(range(m))))),
        "labels": list(draw(st.permutations(list(range(3 * m))))),
        "edge_labels": list(draw(st.permutations(list(range(2 * m))))),
        "given": draw(st.booleans()),
        "interior": draw(st.sampled_from(["none", "values", "gradient"])),
        "p": draw(poly_terms(deg=3, terms=4, lo=1)),
    }


def labelled(spec, labels):
    """Edge specs with the vertices numbered."""
    edges = cell_edges(spec)
    ids = {}

    def find(p):
        for k, v in ids.items():
            if abs(complex(*p) - complex(*k)) < 1e-9 * (1 + abs(complex(*p))):
                return v
        ids[tuple(p)] = labels[len(ids)]
        return ids[tuple(p)]

    for e in edges:
        if e["a"] == e["b"]:
            e["ai"] = e["bi"] = labels[-1 - len(ids)]
        else:
            e["ai"], e["bi"] = find(e["a"]), find(e["b"])
    return edges


def decided(e, deg):
    """Whether the dimension of the polynomials on the edge is clear."""
    z, d, w = RefCurve(e).gauss(pieces=6)
    cen = complex(np.mean(z.real), np.mean(z.imag))
    u = (z - cen) / np.max(np.abs(z - cen))
    wt = np.sqrt(np.abs(d) * w / np.sum(np.abs(d) * w))
    A = np.array([u.real**i * u.imag**j * wt for i in range(deg + 1) for j in range(deg + 1 - i)]).T
    S = np.linalg.svd(A, compute_uv=False)
    S = S / S[0]
    return bool(np.all((S > 2e-2) | (S < 1e-7)))


def largest(poly, x, y):
    return max((abs(c) * float(np.max(np.abs(x) ** i * np.abs(y) ** j)) for (i, j), c in pm.of_library(poly).items()), default=0.0)


def check(s, r: Recorder):
    import puncturedfem as pf

    deg = s["deg"]
    describe(s["cell"], r)
    _, _, n = resolved_cell(s["cell"], s["n"], need=2.5, nmax=90)
    specs = labelled(s["cell"], s["labels"])
    edges = []
    for i, e in enumerate(specs):
        pos, neg = (7, -1) if e["side"] > 0 else (-1, 7)
        edges.append(build_edge(e, pos, neg, s["edge_labels"][i]))
    by_label = {s["edge_labels"][i]: e for i, e in enumerate(specs)}
    cell = pf.MeshCell(idx=7, edges=[edges[i] for i in s["order"]])
    interior = s["interior"]
    no_triangulation(cell)
    cell.set_interior_mesh_size(11, 11)
    cell.parameterize(quads(s["cell"], n), compute_interior_points=interior != "none")
    spaces = [pf.EdgeSpace(e, deg) for e in cell.get_edges()]
    sp = pf.LocalPoissonSpace(
        cell,
        edge_spaces=spaces if s["given"] else None,
        deg=deg,
        compute_interior_values=interior != "none",
        compute_interior_gradient=interior == "gradient",
        verbose=False,
    )
    z = points(cell)
    # numbers
    verts = {v for e in specs if e["a"] != e["b"] for v in (e["ai"], e["bi"])}
    nv, ne, nb = len(verts), sum(b.num_edge_funs for b in spaces), deg * (deg - 1) // 2
    r.eq("number of vertex functions", (sp.num_vert_funs, len(sp.vert_funs)), (nv, nv))
    r.eq("number of edge functions", (sp.num_edge_funs, len(sp.edge_funs)), (ne, ne))
    r.eq("number of bubbles", (sp.num_bubb_funs, len(sp.bubb_funs)), (nb, nb))
    basis = sp.get_basis()
    r.eq("number of functions", (sp.num_funs, len(basis)), (nv + ne + nb, nv + ne + nb))
    r.true(len({id(f) for f in basis}) == len(basis), "the basis lists every function once")
    # keys
    r.eq("vertex keys", sorted((f.key.fun_type, f.key.vert_idx) for f in sp.vert_funs), sorted(("vert", v) for v in verts))
    want = sorted((by, k) for by, b in ((e.idx, b) for e, b in zip(cell.get_edges(), spaces)) for k in range(b.num_edge_funs))
    r.eq("edge keys", sorted((f.key.edge_idx, f.key.edge_space_idx) for f in sp.edge_funs), want)
    r.eq("bubble keys", sorted((f.key.fun_type, f.key.bubb_space_idx) for f in sp.bubb_funs), [("bubb", k) for k in range(nb)])
    # traces edge by edge
    pos, place = 0, []
    for comp in cell.components:
        for e in comp.edges:
            place.append((e, slice(pos, pos + e.num_pts - 1)))
            pos += e.num_pts - 1
    space = {e.idx: b for e, b in zip(cell.get_edges(), spaces)}
    top = 1.0
    for f in sp.vert_funs + sp.edge_funs:
        t = np.asarray(f.get_trace_values())
        top = max(top, float(np.max(np.abs(t))))
        r.true(all(abs(c) < 1e-13 for c in pm.of_library(f.poly.exact_form).values()), "vertex and edge functions are harmonic")
        for e, sl in place:
            b = space[e.idx]
            x, y = z[sl].real, z[sl].imag
            want = np.zeros(sl.stop - sl.start)
            terms = 0.0  # the largest term of the polynomial on the edge
            if f.key.fun_type == "vert":
                for k, key in enumerate(b.vert_fun_global_keys):
                    if key.vert_idx == f.key.vert_idx:
                        want = b.vert_fun_traces[k](x, y) * np.ones(len(x))
                        terms = largest(b.vert_fun_traces[k], x, y)
                g = by_label[e.idx]
                if g["a"] != g["b"]:
                    end = z[sl][0]
                    a0 = complex(*g["a"])
                    first = g["ai"] if abs(end - a0) < abs(end - complex(*g["b"])) else g["bi"]
                    r.close("vertex function at a vertex", t[sl][0], float(first == f.key.vert_idx), 1e-7)
                    if f.key.vert_idx not in (g["ai"], g["bi"]):
                        r.eq("vertex function on another edge", float(np.max(np.abs(t[sl]))), 0.0)
            elif f.key.edge_idx == e.idx:
                want = b.edge_fun_traces[f.key.edge_space_idx](x, y) * np.ones(len(x))
                terms = largest(b.edge_fun_traces[f.key.edge_space_idx], x, y)
                if not e.is_loop:
                    r.close("edge function at a vertex", t[sl][0], 0.0, 1e-6, float(np.max(np.abs(t))) + 1)
            r.close("trace of a function", t[sl], want, 3e-8, max(top, 1e-5 * terms))
    for k, f in enumerate(sp.bubb_funs):
        pl = max(1e-3, float(np.max(np.abs(f.poly.trace.values))))
        r.close("trace of a bubble", f.get_trace_values(), np.zeros(len(z)), 1e-12, pl)
    # Laplacians of the bubbles: the monomials about some point, up to factors
    width = float(np.max(np.abs(z - np.mean(z))))
    cen = (float(np.mean(z.real)), float(np.mean(z.imag)))
    order = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]
    L = []
    for f in sp.bubb_funs:
        lap = pm.laplacian(pm.make([(c, i, j) for (i, j), c in pm.of_library(f.poly.exact_form).items()]))
        px, py = pm.make([(width, 1, 0), (cen[0], 0, 0)]), pm.make([(width, 0, 1), (cen[1], 0, 0)])
        loc = pm.compose(lap, px, py)
        L.append([float(loc.get(o, 0)) for o in order])
        k = f.key.bubb_space_idx
        big = float(np.max(np.abs(L[-1])))
        r.true(big > 0, "Laplacian of a bubble")
        lead = float(loc.get(order[k], 0)) / big
        r.true(abs(lead) > 0.2, "leading term of the Laplacian of a bubble", L[-1], k)
        for i, o in enumerate(order):
            if i > k or (sum(o) == sum(order[k]) and i != k):
                r.close("other terms of the Laplacian of a bubble", L[-1][i] / big, 0.0, 1e-7)
    # independence and reproduction of polynomials
    T = np.array([f.get_trace_values() for f in sp.vert_funs + sp.edge_funs]).T
    sv = None
    if T.size:
        norm = np.maximum(np.max(np.abs(T), axis=0), 1e-12)
        sv = np.linalg.svd(T / norm, compute_uv=False)
        r.true(sv[-1] > 1e-6 * sv[0], "the functions are linearly independent", sv[-1] / sv[0])
    if L:
        L = np.array(L)
        sl = np.linalg.svd(L / np.max(np.abs(L), axis=1)[:, None], compute_uv=False)
        r.true(sl[-1] > 1e-6, "the bubbles are linearly independent")
    clear = all(decided(e, deg) for e in specs)
    p = pm.clean({k: c for k, c in pm.make(s["p"]).items() if sum(k) <= deg})
    w = (z - complex(*cen)) / width
    val = pm.eval_float(p, w.real, w.imag)
    amp = max(1.0, float(np.max(np.abs(val))))
    cond = (1 + abs(complex(*cen)) / width) ** deg
    coef, *_ = np.linalg.lstsq(T / norm, val, rcond=1e-10) if T.size else (np.zeros(0),)
    res = (T / norm) @ coef - val if T.size else val
    r.close("trace of a polynomial is in the space" if clear else "trace of a polynomial is almost in the space", res, np.zeros(len(z)), 1e-6 if clear else 0.2, amp * cond)
    r.label(f"degree {deg}", interior, "clear dimensions" if clear else "unclear dimensions")
    # straight edges: vertex functions add up to one
    if sp.vert_funs and all(e["type"] == "line" for e in specs):
        r.close("sum of the vertex functions", sum(f.get_trace_values() for f in sp.vert_funs), np.ones(len(z)), 1e-9, cond)
        r.label("straight edges")
    # values inside
    for f in basis:
        r.eq("values computed", f.int_vals is not None, interior != "none")
    if interior != "none" and clear and T.size:
        # the polynomial itself: boundary values and Laplacian
        lap = pm.laplacian(p)
        target = np.array([float(lap.get(o, 0)) for o in order]) / width**2
        if len(L):
            bc, *_ = np.linalg.lstsq(L.T, target, rcond=None)
        else:
            bc = np.zeros(0)
        pi = np.asarray(cell.int_x1) + 1j * np.asarray(cell.int_x2)
        if not len(pi):
            raise Rejected()
        ok = gaps(cell, pi) > 3
        wi = (pi - complex(*cen)) / width
        tot = sum((c / m * np.asarray(f.int_vals) for c, m, f in zip(coef, norm, sp.vert_funs + sp.edge_funs)), np.zeros(len(pi)))
        tot = tot + sum((c * np.asarray(f.int_vals) for c, f in zip(bc, sp.bubb_funs)), np.zeros(len(pi)))
        r.close("polynomial inside", tot[ok], pm.eval_float(p, wi.real, wi.imag)[ok], 2e-3, amp)
        r.label("values inside")
    r.nt(nv + ne + nb > 1 and (pm.degree(p) > 0 or deg == 1))


@st.composite
def bad(draw):
    return {"deg": draw(st.integers(-3, 0)), "what": draw(st.sampled_from(["deg", "float", "cell"]))}


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    v = pf.Vert(x=0.0, y=0.0, idx=0)
    c = pf.MeshCell(idx=0, edges=[pf.Edge(v, v, pos_cell_idx=0, curve_type="circle", quad_type="trap", idx=0)])
    c.parameterize(pf.get_quad_dict(n=8, p=7), compute_interior_points=False)
    if s["what"] == "deg":
        r.raises("degree below 1", ValueError, pf.LocalPoissonSpace, c, deg=s["deg"], verbose=False)
    elif s["what"] == "float":
        r.raises("fractional degree", TypeError, pf.LocalPoissonSpace, c, deg=s["deg"] + 2.5, verbose=False)
    else:
        r.raises("not a cell", (TypeError, AttributeError), pf.LocalPoissonSpace, None, deg=1, verbose=False)
    r.nt()


PROP = Prop(
    "C21",
    [
        Sub("basis", cases(), check, quick=110, thorough=3000, shards=8,
            rule="cells with up to 2 holes and any labels of edges and vertices, degrees 1 to 3; non-trivial: more than one function"),
        Sub("rejected", bad(), check_bad, quick=15, thorough=60, shards=1, rule="invalid arguments; non-trivial: always"),
    ],
    warm=warm,
)
