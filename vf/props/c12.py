"""C12: integrals of polynomials over cells."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, poly_terms, q, quads, tuples
from ..geom import poly_volume_integral
from ..meshgen import build_mesh, cell_labels, edges_of, label_mesh, mesh_specs


def magnitude(specs, terms):
    """Integral of the absolute values of the terms over the boundary."""
    from ..geom import RefCurve

    tot = 0.0
    for e in specs:
        z, d, w = RefCurve(e).gauss(pieces=2, order=12)
        f = sum(abs(c) * np.abs(z.real) ** i * np.abs(z.imag) ** j for c, i, j in terms) if terms else 0.0
        tot += float(np.sum(f * np.abs(z) * np.abs(d) * w))
    return tot


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, many=6, floor=0.0, big=draw(st.booleans())))
    return {
        "cell": c,
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))),
        "p": draw(poly_terms(deg=draw(st.sampled_from([1, 4, 8])), terms=4, lo=1)),
        "u": draw(poly_terms(deg=3, terms=2)),
        "c": draw(q(-3, 3, 8)),
        "n": draw(st.integers(32, 64)),
        "own": draw(st.booleans()),
        "unit": draw(st.sampled_from([1.0, 1.0, 1e-12, 1e-6, 1e6])),
    }


def terms_of(t, own, size, unit):
    """The terms of a polynomial in a unit, of coordinates relative to the size if "own"."""
    return [[unit * float(c) / (size ** (i + j) if own else 1.0), i, j] for c, i, j in tuples(t)]


def check(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.integrate_poly import integrate_poly_over_mesh_cell as integ

    describe(s["cell"], r)
    cell, specs = build_cell(s["cell"], n=s["n"], order=s["order"])
    size = s["cell"]["sim"][0]
    tp, tu = terms_of(s["p"], s["own"], size, s["unit"]), terms_of(s["u"], s["own"], size, s["unit"])
    p, u = pf.Polynomial(tuples(tp)), pf.Polynomial(tuples(tu))
    mp, mu = pm.make(tp), pm.make(tu)
    tol = 1e-8
    area = poly_volume_integral(specs, [(1.0, 0, 0)])
    mag = magnitude(specs, pm.terms(mp))
    exact = poly_volume_integral(specs, pm.terms(mp))
    r.close("integral", integ(p, cell), exact, tol, mag + abs(exact) + 1e-300)
    r.close("area", integ(pf.Polynomial([(1.0, 0, 0)]), cell), area, tol, magnitude(specs, [(1.0, 0, 0)]))
    r.close("integral of zero", integ(pf.Polynomial(), cell), 0.0, 1e-14)
    magu = magnitude(specs, pm.terms(mu))
    lin = integ(p, cell) + s["c"] * integ(u, cell)
    r.close("integral of a combination", integ(p + s["c"] * u, cell), lin, 1e-10, mag + abs(s["c"]) * magu + 1e-300)
    # divergence theorem: integral of the Laplacian = flux of the gradient
    flux = cell.integrate_over_boundary_preweighted(p.get_weighted_normal_derivative(cell))
    d = max(1, pm.degree(mp)) ** 2
    ref = poly_volume_integral(specs, pm.terms(pm.laplacian(mp)))
    x, y = cell.get_boundary_points()
    gmag = float(np.max(np.abs(np.asarray(p.get_weighted_normal_derivative(cell))))) * 20
    r.close("flux of the gradient", flux, ref, tol, max(gmag, d * mag / size**2, 1e-300))
    r.close("integral of the Laplacian", integ(p.laplacian(), cell), ref, tol, max(gmag, magnitude(specs, pm.terms(pm.laplacian(mp))), 1e-300))
    r.nt(pm.degree(mp) > 0 and (s["cell"]["holes"] or s["cell"]["outer"]["k"] == "poly"))


@st.composite
def mesh_cases(draw):
    return {
        "mesh": draw(mesh_specs(big=True, wide=True)),
        "p": draw(poly_terms(deg=4, terms=3, lo=1)),
        "n": draw(st.integers(32, 48)),
    }


def check_mesh(s, r: Recorder):
    """The integrals over the cells add up to the integral over the domain."""
    import puncturedfem as pf
    from puncturedfem.locfun.poly.integrate_poly import integrate_poly_over_mesh_cell as integ

    spec = s["mesh"]
    label_mesh(spec, r)
    mesh = build_mesh(spec)
    qd = quads(spec, s["n"])
    p, mp = pf.Polynomial(tuples(s["p"])), pm.make(s["p"])
    t = pm.terms(mp)
    total, scale = 0.0, 0.0
    for c in cell_labels(spec):
        cell = mesh.get_cell(c)
        cell.parameterize(qd, compute_interior_points=False)
        es = edges_of(spec, c)
        mag = magnitude(es, t) + 1e-300
        val = integ(p, cell)
        r.close("integral over a cell", val, poly_volume_integral(es, t), 1e-8, mag)
        total += val
        scale += mag
    outer = [dict(e, side=1 if e["pos"] >= 0 else -1) for e in spec["edges"] if min(e["pos"], e["neg"]) < 0]
    r.close("integral over the domain", total, poly_volume_integral(outer, t), 1e-8, scale)
    r.nt(len(cell_labels(spec)) > 1)


PROP = Prop(
    "C12",
    [
        Sub("cells", cases(), check, quick=500, thorough=10000, shards=5,
            rule="polynomials up to degree 8 on cells with up to 3 holes against Green's theorem on the exact curves; non-trivial: not constant, on a polygon or a punctured cell"),
        Sub("meshes", mesh_cases(), check_mesh, quick=150, thorough=3000, shards=3,
            rule="integrals over all the cells of a mesh add up to the one over the domain; non-trivial: at least 2 cells"),
    ],
)
