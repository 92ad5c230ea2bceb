"""C07: splitting an edge."""

import copy

from hypothesis import strategies as st
import numpy as np

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import edge_specs, joinable, kappa, q, transforms
from ..geom import TWO_PI, RefCurve, apply_op, build_edge
from ..ref import nodes


@st.composite
def specs(draw):
    e = draw(edge_specs())
    ops = [draw(transforms()) for _ in range(draw(st.integers(0, 4)))]
    how = draw(st.sampled_from(["one", "one", "list", "array", "num"]))
    s = {
        "e": e,
        "ops": ops,
        "how": how,
        "param": draw(st.booleans()),
        "n": draw(st.integers(4, 12)),
        "p": draw(st.integers(2, 8)),
    }
    if how == "one":
        s["at"] = draw(q(0.03, 0.97))
    elif how == "num":
        s["num"] = draw(st.integers(2, 7))
    else:
        s["at"] = draw(st.lists(q(0.03, 0.97, 50), min_size=1, max_size=5, unique=True))
    s["again"] = draw(st.none() | st.tuples(st.integers(0, 6), q(0.1, 0.9)).map(list))
    s["cells"] = [draw(st.integers(-1, 9)), draw(st.integers(-1, 9))]
    s["more"] = [draw(transforms(with_join=False)) for _ in range(draw(st.integers(0, 2)))]
    return s


def check_piece(r, piece, zfun, lo, hi, n, p, size, cells, tag):
    """The piece is the part [lo, hi] of the curve zfun (t in [0, 2 pi])."""
    import puncturedfem as pf

    r.eq(tag + "cells", (piece.pos_cell_idx, piece.neg_cell_idx), tuple(cells))
    piece.parameterize(pf.get_quad_dict(n=n, p=p))
    t, wgt = nodes("kress", n, p)
    k = (hi - lo) / TWO_PI
    z, d, dd = zfun(lo + k * t)
    d = k * d
    tang = d / np.abs(d)
    norm = -1j * tang
    curv = (dd * k * k * norm.conjugate()).real / np.abs(d) ** 2
    tol = 1e-8
    r.close(tag + "points", piece.x, np.array([z.real, z.imag]), tol, size)
    r.close(tag + "unit tangent", piece.unit_tangent, np.array([tang.real, tang.imag]), tol, 1.0)
    r.close(tag + "unit normal", piece.unit_normal, np.array([norm.real, norm.imag]), tol, 1.0)
    el = np.abs(d) * wgt
    r.close(tag + "arc length element", piece.dx_norm, el, tol, float(np.max(el)))
    cmin = 1e-3 / float(np.max(np.abs(z - z[0])))
    r.close(tag + "curvature", piece.curvature, curv, 10 * tol, max(float(np.max(np.abs(curv))), cmin))
    r.close(tag + "anchor", [piece.anchor.x, piece.anchor.y], [z[0].real, z[0].imag], tol, size)
    r.close(tag + "endpnt", [piece.endpnt.x, piece.endpnt.y], [z[-1].real, z[-1].imag], tol, size)
    return z


def check(s, r: Recorder):
    import puncturedfem as pf

    e = copy.deepcopy(s["e"])
    if not joinable(e):
        raise Rejected()
    rc = RefCurve(e)
    size = kappa(e)
    edge = build_edge(e, s["cells"][0], s["cells"][1], 4)
    if s["param"]:
        edge.parameterize(pf.get_quad_dict(n=4))
    probe = np.linspace(0.0, TWO_PI, 33)
    for op in s["ops"]:
        if op[0] == "join":
            z0, z1 = rc.ends()
            if abs(z1 - z0) < 1e-4 * size or abs(z1 - z0) < 1e-4:
                continue
        m0 = abs(rc.m)
        apply_op(edge, op)
        rc.apply(op)
        z, _, _ = rc.eval(probe)
        size = max(size * abs(rc.m) / m0, float(np.max(np.abs(z))))
    ta, tb = e.get("tb", [0.0, TWO_PI])
    how = s["how"]
    if how == "num":
        frac = np.linspace(0.0, 1.0, s["num"] + 1)
    elif how == "one":
        frac = np.array([0.0, s["at"], 1.0])
    else:
        frac = np.array([0.0] + sorted(s["at"]) + [1.0])
    cuts = frac * TWO_PI
    # pieces whose ends (nearly) coincide cannot be joined: outside the domain
    zc, _, _ = rc.eval(cuts)
    z, _, _ = rc.eval(probe)
    diam = float(np.max(np.abs(z - z[0])))
    if np.any(np.abs(np.diff(zc)) < max(1e-3 * diam, 1e-5 * size)) or diam < 1e-6:
        raise Rejected()
    if how == "num":
        pieces = pf.split_edge(edge, num_edges=s["num"])
    elif how == "one":
        pieces = pf.split_edge(edge, t_split=ta + (tb - ta) * s["at"])
        r.true(isinstance(pieces, tuple), "one parameter gives a pair")
    else:
        given = [ta + (tb - ta) * f for f in s["at"]]
        arg = np.array(given) if how == "array" else list(given)
        pieces = pf.split_edge(edge, t_split=arg)
        r.eq("the caller's parameters", [float(v) for v in arg], [float(v) for v in given])
    r.label(how, e["type"], "loop" if e["a"] == e["b"] else "open")
    if any(o[0].startswith("reflect") for o in s["ops"]):
        r.label("reflected")
    r.eq("number of pieces", len(pieces), len(frac) - 1)
    total = 0.0
    for i, piece in enumerate(pieces):
        check_piece(r, piece, rc.eval, cuts[i], cuts[i + 1], s["n"], s["p"], size, s["cells"], f"piece {i}: ")
        total += piece.integrate_over_edge(np.ones(2 * s["n"] + 1))
        if i > 0:
            r.true(pieces[i - 1].endpnt == piece.anchor, "consecutive pieces share a vertex")
    r.eq("bounds of the edge", tuple(edge.t_bounds), tuple(e.get("tb", edge.t_bounds)))
    # the edge itself is not changed
    edge.parameterize(pf.get_quad_dict(n=6))
    t, _ = nodes("kress", 6, 7)
    z, _, _ = rc.eval(t)
    r.close("the edge after the split", edge.x, np.array([z.real, z.imag]), 1e-8, size)
    # transformations of a piece, then splitting it again
    if s["again"] is not None:
        i = s["again"][0] % len(pieces)
        f = s["again"][1]
        piece = pieces[i]
        lo, hi = cuts[i], cuts[i + 1]
        mid = lo + f * (hi - lo)
        zz, _, _ = rc.eval(np.array([lo, mid, hi]))
        if np.all(np.abs(np.diff(zz)) > max(1e-3 * diam, 1e-4 * size)):
            rc2 = copy.copy(rc)
            for op in s["more"]:
                m0 = abs(rc2.m)
                apply_op(piece, op)
                rc2.apply(op)
                z, _, _ = rc2.eval(probe)
                size = max(size * abs(rc2.m) / m0, float(np.max(np.abs(z))))
            tlo = ta + (tb - ta) * lo / TWO_PI
            thi = ta + (tb - ta) * hi / TWO_PI
            q1, q2 = pf.split_edge(piece, tlo + f * (thi - tlo))
            check_piece(r, q1, rc2.eval, lo, mid, s["n"], s["p"], size, s["cells"], "split again (1): ")
            check_piece(r, q2, rc2.eval, mid, hi, s["n"], s["p"], size, s["cells"], "split again (2): ")
            r.label("split again")
    r.nt(len(pieces) > 2 or e["type"] != "line")


PROP = Prop(
    "C07",
    [
        Sub(
            "tiling",
            specs(),
            check,
            quick=1800,
            thorough=30000,
            shards=6,
            rule="an edge of any type with a history of transformations, cut "
            "at one or several parameters or into equal parts, one piece "
            "transformed and cut again; non-trivial: a curved edge or three or "
            "more pieces",
        )
    ],
)
