"""C17: inner products of local functions equal the exact integrals."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import cell_edges, cell_specs, contour_sizes, describe, poly_terms, q, tuples
from ..harm import Exact, Harm, Region, harm_specs, points, resolved_cell, warm

TOL = 2e-5


@st.composite
def functions(draw, holes):
    return {
        "p": draw(poly_terms(deg=4, terms=3)),
        "h": draw(harm_specs(holes, deg=3)) if draw(st.integers(0, 3)) else None,
    }


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, big=draw(st.integers(0, 2)) == 0))
    nh = len(c["holes"])
    return {
        "cell": c,
        "v": draw(functions(nh)),
        "w": draw(functions(nh)),
        "n": draw(st.sampled_from([48, 60, 64])),
        "old": draw(st.integers(0, 3)) == 0,
        "strategy": draw(st.sampled_from(["fft", "direct"])),
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))) if draw(st.booleans()) else None,
    }


def exact_function(f, cell):
    """The exact function of a spec."""
    return Exact(pm.make(f["p"]), Harm(f["h"], cell) if f["h"] else None)


def library_function(nyst, f, ex, z):
    """The library's local function with the same Laplacian and trace."""
    import puncturedfem as pf

    lap = pf.Polynomial(tuples(pm.terms(pm.laplacian(pm.make(f["p"])))))
    return pf.LocalPoissonFunction(nyst, laplacian=lap, trace=ex.value(z), evaluate_interior=False)


def check(s, r: Recorder):
    import puncturedfem as pf

    describe(s["cell"], r)
    v, w = exact_function(s["v"], s["cell"]), exact_function(s["w"], s["cell"])
    deep = Harm({"c": [[0, 0]], "poles": [], "logs": []}, s["cell"])
    cell, edges, _ = resolved_cell(s["cell"], s["n"], deep.zeta, order=s["order"])
    nyst = pf.NystromSolver(cell, antilap_strategy=s["strategy"])
    z = points(cell)
    region = Region(edges)
    lv, lw = library_function(nyst, s["v"], v, z), library_function(nyst, s["w"], w, z)
    r.close("trace", lv.get_trace_values(), v.value(z), 1e-11, size(v, z) * 100)

    # what the library splits off is a polynomial with the same Laplacian
    plv = {k: c for k, c in pm.of_library(lv.poly.exact_form).items() if c}
    plw = {k: c for k, c in pm.of_library(lw.poly.exact_form).items() if c}
    parts = [size(v, z), size(w, z), psize(plv, z), psize(plw, z)]
    av, aw = max(parts[0], parts[2]), max(parts[1], parts[3])
    gv = max(gsize(v, plv, z), 0.01 * av / region.length)
    gw = max(gsize(w, plw, z), 0.01 * aw / region.length)
    h1, l2 = region.h1(v, w), region.l2(v, w)
    s1 = region.area * gv * gw
    s2 = region.area * av * aw
    r.close("H1 product", lv.get_h1_semi_inner_prod(lw), h1, TOL, s1)
    r.close("L2 product", lv.get_l2_inner_prod(lw), l2, TOL, s2)
    r.close("H1 product, exchanged", lw.get_h1_semi_inner_prod(lv), h1, TOL, s1)
    r.close("L2 product, exchanged", lw.get_l2_inner_prod(lv), l2, TOL, s2)
    # squares
    r.close("H1 square", lv.get_h1_semi_inner_prod(lv), region.h1(v, v), TOL, region.area * gv * gv)
    r.close("L2 square", lv.get_l2_inner_prod(lv), region.l2(v, v), TOL, region.area * av * av)
    # with the parts of the other function
    from fractions import Fraction

    pw = Exact({k: Fraction(c) for k, c in plw.items()}, None)
    hw = Exact(pm.sub(w.p, pw.p), w.h)
    r.close("H1 product with a polynomial", lv.get_h1_semi_inner_prod(lw.poly), region.h1(v, pw), TOL, s1)
    r.close("L2 product with a polynomial", lv.get_l2_inner_prod(lw.poly), region.l2(v, pw), TOL, s2)
    r.close("H1 product with a harmonic function", lv.get_h1_semi_inner_prod(lw.harm), region.h1(v, hw), TOL, s1)
    r.close("L2 product with a harmonic function", lv.get_l2_inner_prod(lw.harm), region.l2(v, hw), TOL, s2)
    from puncturedfem.locfun.inner_prod import h1_semi_inner_prod, l2_inner_prod

    ph = Exact({k: Fraction(c) for k, c in plv.items()}, None)
    hv = Exact(pm.sub(v.p, ph.p), v.h)
    for a, ea, na in ((lv.poly, ph, "polynomial"), (lv.harm, hv, "harmonic")):
        for b, eb, nb in ((lw.poly, pw, "polynomial"), (lw.harm, hw, "harmonic")):
            r.close(f"H1 product of parts ({na}, {nb})", h1_semi_inner_prod(a, b, cell), region.h1(ea, eb), TOL, s1)
            r.close(f"L2 product of parts ({na}, {nb})", l2_inner_prod(a, b, cell), region.l2(ea, eb), TOL, s2)
    if s["old"]:
        # the class of former versions
        lap = [pf.Polynomial(tuples(pm.terms(pm.laplacian(pm.make(s[k]["p"]))))) for k in "vw"]
        ov, ow = (pf.LocalFunction(nyst, laplacian=p, trace=t.value(z)) for p, t in zip(lap, (v, w)))
        r.close("H1 product (LocalFunction)", ov.get_h1_semi_inner_prod(ow), h1, TOL, s1)
        r.close("L2 product (LocalFunction)", ov.get_l2_inner_prod(ow), l2, TOL, s2)
        r.close("H1 product, exchanged (LocalFunction)", ow.get_h1_semi_inner_prod(ov), h1, TOL, s1)
        r.close("L2 product, exchanged (LocalFunction)", ow.get_l2_inner_prod(ov), l2, TOL, s2)
        r.label("LocalFunction")
    r.label(s["strategy"])
    r.label("harmonic part" if s["v"]["h"] and s["w"]["h"] else "a polynomial")
    r.nt(abs(h1) > 1e-2 * s1 or abs(l2) > 1e-2 * s2)


def size(f, z):
    """Size of a function on the boundary."""
    return max(1e-3, float(np.max(np.abs(f.value(z)))))


def psize(p, z):
    """Size of a polynomial on the boundary, without cancellation of terms."""
    return float(np.max(sum((abs(c) * np.abs(z.real) ** i * np.abs(z.imag) ** j for (i, j), c in p.items()), np.zeros(len(z)))))


def gsize(f, p, z):
    """Size of the gradient of a function or its polynomial part."""
    g = float(np.max(np.abs(f.grad(z))))
    for var in (0, 1):
        d = {}
        for (i, j), c in p.items():
            k = (i, j)[var]
            if k:
                d[(i - 1, j) if var == 0 else (i, j - 1)] = c * k
        g = max(g, psize(d, z))
    return g


PROP = Prop(
    "C17",
    [
        Sub("products", cases(), check, quick=150, thorough=4000, shards=8,
            rule="pairs of functions with polynomial Laplacian (polynomials, analytic functions, poles and logarithms in the holes); non-trivial: a product is not small"),
    ],
    warm=warm,
)
