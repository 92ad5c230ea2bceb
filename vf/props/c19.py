"""C19: interior values and gradients of local functions."""

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, no_triangulation, quads
from ..harm import Harm, points, resolved_cell, warm
from .c17 import exact_function, functions, gsize, library_function, psize, size
from .c18 import trace_values, traces
from .. import pmodel as pm

TOL = 1e-3


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, big=draw(st.integers(0, 2)) == 0))
    return {
        "cell": c,
        "v": draw(functions(len(c["holes"]))),
        "t": draw(traces()),
        "n": draw(st.sampled_from([48, 60, 64])),
        "strategy": draw(st.sampled_from(["fft", "direct"])),
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))) if draw(st.booleans()) else None,
        "size": [draw(st.integers(9, 24)), draw(st.integers(9, 24))] if draw(st.integers(0, 7)) < 7 else [draw(st.integers(33, 50)), draw(st.integers(33, 50))],
        "old": draw(st.integers(0, 3)) == 0,
        "turn": draw(st.sampled_from(["reverse", "half"])),
        "how": draw(st.sampled_from(["both", "values", "later"])),
    }


def gaps(cell, p):
    """Distance of points to the boundary in units of the local spacing."""
    z = points(cell)
    best = np.full(len(p), np.inf)
    idx = cell.component_start_idx
    for k in range(len(cell.components)):
        a = z[idx[k] : idx[k + 1]]
        g = np.maximum(np.abs(np.roll(a, -1) - a), np.abs(a - np.roll(a, 1)))
        best = np.minimum(best, np.min(np.abs(p[:, None] - a[None, :]) / g[None, :], axis=1))
    return best


def check(s, r: Recorder):
    import puncturedfem as pf

    describe(s["cell"], r)
    v = exact_function(s["v"], s["cell"])
    deep = Harm({"c": [[0, 0]], "poles": [], "logs": []}, s["cell"])
    _, _, n = resolved_cell(s["cell"], s["n"], deep.zeta)
    cell, _ = build_cell(s["cell"], order=s["order"], param=False)
    no_triangulation(cell)
    cell.set_interior_mesh_size(*s["size"])
    cell.parameterize(quads(s["cell"], n))
    p = np.asarray(cell.int_x1) + 1j * np.asarray(cell.int_x2)
    if not len(p):
        raise Rejected()
    dist = gaps(cell, p)
    ok, far = dist > 2.5, dist > 4.0
    nyst = pf.NystromSolver(cell, antilap_strategy=s["strategy"])
    z = points(cell)
    lap = pf.Polynomial([(c, i, j) for c, i, j in pm.terms(pm.laplacian(pm.make(s["v"]["p"])))])
    how = s["how"]
    if how == "both":
        f = pf.LocalPoissonFunction(nyst, laplacian=lap, trace=v.value(z), evaluate_gradient=True)
    elif how == "values":
        f = pf.LocalPoissonFunction(nyst, laplacian=lap, trace=v.value(z))
    else:
        f = pf.LocalPoissonFunction(nyst, laplacian=lap, trace=v.value(z), evaluate_interior=False)
        r.true(f.int_vals is None and f.int_grad1 is None, "no values before they are computed")
        f.compute_interior_values()
        f.compute_interior_values(True)
    r.eq("number of values", np.shape(f.int_vals), np.shape(p))
    pl = {k: c for k, c in pm.of_library(f.poly.exact_form).items() if c}
    amp = max(size(v, z), psize(pl, z))
    r.close("values", np.asarray(f.int_vals)[ok], v.value(p[ok]), 0.1 * TOL, amp)
    if how != "values":
        g = v.grad(p[far])
        ga = max(gsize(v, pl, z), 0.1 * amp / deep.size)
        r.eq("number of derivatives", (np.shape(f.int_grad1), np.shape(f.int_grad2)), (np.shape(p), np.shape(p)))
        r.close("derivative in x", np.asarray(f.int_grad1)[far], g.real, TOL, ga)
        r.close("derivative in y", np.asarray(f.int_grad2)[far], g.imag, TOL, ga)
    # values asked for again, with derivatives, and at other points
    kept = np.array(f.int_vals, dtype=float)
    f.compute_interior_values(True)
    r.close("values asked for again", f.int_vals, kept, 1e-12, amp)
    g, ga = v.grad(p), max(gsize(v, pl, z), 0.1 * amp / deep.size)
    r.close("derivative in x, asked for afterwards", np.asarray(f.int_grad1)[far], g.real[far], TOL, ga)
    r.close("derivative in y, asked for afterwards", np.asarray(f.int_grad2)[far], g.imag[far], TOL, ga)
    moved = list(range(len(p)))[::-1] if s["turn"] == "reverse" else list(range(0, len(p), 2))
    x1, x2 = cell.int_x1, cell.int_x2
    d1, d2 = np.array(f.int_grad1, dtype=float), np.array(f.int_grad2, dtype=float)
    cell.int_x1, cell.int_x2 = np.asarray(x1)[moved].copy(), np.asarray(x2)[moved].copy()
    f.compute_interior_values(s["turn"] == "reverse")
    r.eq("number of values at other points", np.shape(f.int_vals), (len(moved),))
    r.close("values at other points", f.int_vals, kept[moved], 1e-10, amp)
    if s["turn"] == "reverse":
        r.close("derivatives at other points", [f.int_grad1, f.int_grad2], [d1[moved], d2[moved]], 1e-9, ga)
    cell.int_x1, cell.int_x2 = x1, x2
    f.compute_interior_values()
    r.close("values at the first points again", f.int_vals, kept, 1e-10, amp)
    if s["old"]:
        # the class of former versions
        o = pf.LocalFunction(nyst, laplacian=lap, trace=v.value(z), compute_int_vals=True, compute_int_grad=True)
        r.eq("number of values (LocalFunction)", (np.shape(o.int_vals), np.shape(o.int_grad1)), (np.shape(p), np.shape(p)))
        r.close("values (LocalFunction)", np.asarray(o.int_vals)[ok], v.value(p[ok]), 0.1 * TOL, amp)
        r.close("derivative in x (LocalFunction)", np.asarray(o.int_grad1)[far], g.real[far], TOL, ga)
        r.close("derivative in y (LocalFunction)", np.asarray(o.int_grad2)[far], g.imag[far], TOL, ga)
        r.label("LocalFunction")
    # harmonic functions with rough boundary values: the maximum principle
    t = trace_values(cell, s["t"])
    h = pf.LocalPoissonFunction(nyst, trace=t.copy())
    lo, hi = float(np.min(t)), float(np.max(t))
    sc = hi - lo + 1e-3
    vals = np.asarray(h.int_vals)[ok]
    if len(vals):
        r.le("maximum principle", float(np.max(vals)), hi, 2e-2, sc)
        r.le("minimum principle", lo, float(np.min(vals)), 2e-2, sc)
    # functions with the same boundary values differ by one that vanishes there:
    # the value does not depend on how the function is split up
    w = library_function(nyst, {"p": s["v"]["p"]}, v, z)
    w.compute_interior_values(False)
    r.close("values when computed later", w.int_vals, f.int_vals, 1e-9, amp)
    r.label(how, s["strategy"], "harmonic part" if s["v"]["h"] else "a polynomial")
    r.nt(np.sum(ok) > 5 and size(v, z) > 1e-2)


PROP = Prop(
    "C19",
    [
        Sub("interior", cases(), check, quick=110, thorough=4000, shards=8,
            rule="polynomials plus analytic functions with poles and logarithms in up to 3 holes, at grid points a few samples away from the boundary; non-trivial: more than 5 points and a function that is not small"),
    ],
    warm=warm,
)
