"""C25: two descriptions of one global problem."""

import cmath
import math

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import no_triangulation, poly_terms, q
from ..glob import Problem, frame, library, pull, resolved, sharpest
from ..harm import points, warm
from ..meshgen import cell_labels, label_mesh, mesh_specs, move, reverse, vert_labels
from .c19 import gaps
from .c21 import decided
from .c23 import cut

TOL = 3e-4


def far(draw):
    """A translation (polynomials are taken about the origin: digits are lost
    far away from it)."""
    return [draw(q(-1.0, 1.0, 10)), draw(q(-1.0, 1.0, 10))]


@st.composite
def cases(draw):
    spec = draw(mesh_specs(big=True, nx=2, ny=2, max_punctures=1, sims=False, curved=draw(st.booleans()), min_cells=draw(st.sampled_from([1, 2, 2, 4]))))
    edges = spec["edges"]
    cells, verts = cell_labels(spec), vert_labels(spec)
    if draw(st.booleans()):
        new = list(draw(st.permutations(cells)))
        nv = list(draw(st.permutations(verts)))
    else:
        # any labels
        new = draw(st.lists(st.integers(0, 40), min_size=len(cells), max_size=len(cells), unique=True))
        nv = draw(st.lists(st.integers(0, 60), min_size=len(verts), max_size=len(verts), unique=True))
    lines = all(e["type"] == "line" or e["a"] == e["b"] for e in edges)
    ang = st.sampled_from([0.0, 90.0, 180.0, -90.0])
    return {
        "mesh": spec,
        "cells": [[a, b] for a, b in zip(cells, new)],
        "verts": [[a, b] for a, b in zip(verts, nv)],
        "flip": [draw(st.booleans()) for _ in edges],
        "order": list(draw(st.permutations(list(range(len(edges)))))),
        "sim": [
            draw(q(0.4, 2.5, 10) | st.just(1.0) | st.sampled_from([0.01, 100.0, 1000.0])),
            draw(ang | q(-180.0, 180.0, 1)) if lines else draw(ang),
            *far(draw),
        ],
        "deg": draw(st.sampled_from([1, 2, 2, 2, 3])),
        "n": draw(st.sampled_from([32, 40])),
        "D": draw(q(0.1, 5, 10) | st.just(1.0)),
        "R": draw(q(0.1, 20, 10) | st.just(0.0)),
        "f": draw(poly_terms(deg=2, terms=3, lo=1)),
        "inside": draw(st.integers(0, 2)) > 0,
        "other": draw(st.booleans()),
    }


def described_anew(s, size):
    """The other description of the mesh."""
    cm, vm = dict(s["cells"]), dict(s["verts"])
    out = []
    for k, e in enumerate(s["mesh"]["edges"]):
        e = dict(e)
        e["pos"] = cm.get(e["pos"], e["pos"])
        e["neg"] = cm.get(e["neg"], e["neg"])
        e["ai"] = vm.get(e["ai"], -1)
        e["bi"] = vm.get(e["bi"], -1)
        if s["flip"][k]:
            if e["a"] != e["b"]:
                e = reverse(e)
            elif e["type"] in ("circle", "ellipse"):
                # a mirror image of itself
                e["ops"] = [["reflect_x"], *e.get("ops", [])]
                e["pos"], e["neg"] = e["neg"], e["pos"]
        out.append(move(e, [s["sim"][0], s["sim"][1], s["sim"][2] * s["sim"][0] * size, s["sim"][3] * s["sim"][0] * size]))
    return {"kind": s["mesh"]["kind"], "edges": [out[k] for k in s["order"]], "trap": s["mesh"]["trap"]}


def solution(P, c, u):
    """Parts of the solution on a cell."""
    basis = P.spaces[c].get_basis()
    return [float(u[v.key.glob_idx]) for v in basis], basis


def combine(co, vals):
    return sum((a * np.asarray(v) for a, v in zip(co, vals)), 0.0)


def check(s, r: Recorder):
    sa = s["mesh"]
    label_mesh(sa, r)
    if sharpest(sa) < 0.6:
        # products converge slowly on cells with sharp corners
        raise Rejected()
    n = resolved(sa, s["n"])
    D, R, deg = float(s["D"]), float(s["R"]), s["deg"]
    # the edge functions are determined up to a tolerance of the library: the
    # spaces are the same only where none is close to it
    while deg > 1 and not all(decided(e, deg) for e in sa["edges"]):
        deg -= 1
    clear = all(decided(e, deg) for e in sa["edges"])
    r.label("spaces clear" if clear else "spaces not clear")
    tol = TOL if clear else 0.1
    sc, rot, tx, ty = map(float, s["sim"])
    m = sc * cmath.exp(1j * math.pi * rot / 180)
    t = complex(tx, ty)
    cen, size = frame(sa)
    sb = described_anew(s, size)
    f = pull(cut(s["f"], 2) or pm.make([(1.0, 0, 0)]), cen, size)
    iv = 1 / m
    # translation in sizes of the mesh
    t *= size * sc
    d = -t / m
    x = pm.make([(iv.real, 1, 0), (-iv.imag, 0, 1), (d.real, 0, 0)])
    y = pm.make([(iv.imag, 1, 0), (iv.real, 0, 1), (d.imag, 0, 0)])
    g = pm.scale(pm.compose(f, x, y), 1 / sc**2)
    cm = dict(s["cells"])
    where = {}

    def coarse(cell):
        no_triangulation(cell)
        cell.set_interior_mesh_size(9, 9)
        cell.set_interior_point_tolerance(rtol=0.02, atol=1e-9)

    B = Problem(sb, deg, n, D, R / sc**2, library(g), interior=s["inside"], adjust=coarse)
    if s["inside"]:
        for c in cell_labels(sa):
            k = B.spaces[cm[c]].nyst.K
            where[c] = ((np.asarray(k.int_x1) + 1j * np.asarray(k.int_x2)) - t) / m

    def placed(cell):
        coarse(cell)
        param = cell.parameterize

        def then(*a, **k):
            param(*a, **k)
            if cell.idx in where:
                z = where[cell.idx]
                cell.int_x1, cell.int_x2 = z.real.copy(), z.imag.copy()

        cell.parameterize = then

    A = Problem(sa, deg, n, D, R, library(f), interior=s["inside"], adjust=placed)
    if clear:
        r.eq("number of functions", B.gfs.num_funs, A.gfs.num_funs)
        r.eq("number of free functions", int(np.sum(B.free)), int(np.sum(A.free)))
    u = np.asarray(A.solver.get_solution())
    v = np.asarray(B.solver.get_solution())
    r.nt(bool(np.sum(A.free) > 1) and bool(np.any(u)))
    ha, la = (np.asarray(w.todense()) for w in (A.solver.stiff_mat, A.solver.mass_mat))
    hb, lb = (np.asarray(w.todense()) for w in (B.solver.stiff_mat, B.solver.mass_mat))
    if not clear and A.gfs.num_funs != B.gfs.num_funs:
        raise Rejected()
    en, l2 = float(u @ ha @ u), float(u @ la @ u)
    if not (np.any(A.free) and np.any(B.free)):
        if clear:
            r.eq("no solution", bool(np.any(v)), False)
        return
    # a load that cancels itself gives next to nothing
    amp = sum(abs(float(c)) for c in (cut(s["f"], 2) or pm.make([(1.0, 0, 0)])).values())
    U = amp / (8 * D / size**2 + R)
    r.close("energy", float(v @ hb @ v), en, tol, en + 0.02 * U**2)
    r.close("mean square", float(v @ lb @ v) / sc**2, l2, tol, l2 + 0.005 * (U * size) ** 2)
    top = 0.05 * U
    parts = {}
    for c in cell_labels(sa):
        ca, fa = solution(A, c, u)
        cb, fb = solution(B, cm[c], v)
        parts[c] = (ca, fa, cb, fb)
        top = max([top] + [abs(a) * float(np.max(np.abs(w.get_trace_values()))) for a, w in zip(ca, fa)])
        top = max([top] + [abs(a) * 0.3 * float(np.max(np.abs(w.poly.trace.values))) for a, w in zip(ca, fa)])
    for c, (ca, fa, cb, fb) in parts.items():
        ka, kb = A.spaces[c].nyst.K, B.spaces[cm[c]].nyst.K
        za, zb = points(ka), (points(kb) - t) / m
        r.eq("number of points", len(za), len(zb))
        near = np.argmin(np.abs(zb[:, None] - za[None, :]), axis=1)
        r.close("points", np.abs(zb - za[near]), np.zeros(len(zb)), 1e-8)
        ta = combine(ca, [w.get_trace_values() for w in fa])
        tb = combine(cb, [w.get_trace_values() for w in fb])
        r.close("boundary values", tb, np.asarray(ta)[near], tol, top)
        if s["inside"] and len(where[c]):
            ok = gaps(kb, np.asarray(kb.int_x1) + 1j * np.asarray(kb.int_x2)) > 3
            ia = combine(ca, [w.int_vals for w in fa])
            ib = combine(cb, [w.int_vals for w in fb])
            if np.any(ok):
                r.close("values inside", ib[ok], ia[ok], tol, top)
                r.label("values inside")
            if s["other"]:
                w = B.solver.compute_linear_combo_on_mesh_cell(cm[c], v)
                r.close("values inside by the solver", np.asarray(w.int_vals)[ok], ia[ok], tol, top)
    if any(s["flip"]):
        r.label("sides exchanged")
    r.label(f"degree {deg}", "reaction" if R else "no reaction")


PROP = Prop(
    "C25",
    [
        Sub("described", cases(), check, quick=56, thorough=1500, shards=8, case_timeout=200,
            rule="meshes described in two ways (order, labels, sides, place, size), both solved; non-trivial: at least two free functions, solution not zero"),
    ],
    warm=warm,
)
