"""C20: equivariance of local computations under similarities and relabelling."""

import copy
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, no_triangulation, poly_terms, q, quads
from ..harm import points, resolved_cell, warm
from .c18 import trace_values, traces
from .c19 import gaps


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=2))
    m = sum(contour_sizes(c))
    scale = draw(q(0.2, 4.0, 20) | q(0.2, 4.0, 20) | st.sampled_from([1e-3, 0.004, 0.02, 30.0, 250.0]))
    # points closer than 1e-6 count as one
    scale = max(scale, 1e-4 / min([h["r"] for h in c["holes"]], default=1.0))
    far = scale if scale < 0.2 else 1.0
    return {
        "cell": c,
        "sim": [
            scale,
            draw(st.sampled_from([0.0, 90.0, 180.0]) | q(-180.0, 180.0, 1)),
            far * draw(q(-4.0, 4.0, 10)),
            far * draw(q(-4.0, 4.0, 10)),
        ],
        "flip": [draw(st.booleans()) for _ in range(m)],
        "order": list(draw(st.permutations(list(range(m))))),
        "t": [draw(traces()), draw(traces())],
        "lap": [draw(poly_terms(deg=2, terms=2)), draw(poly_terms(deg=2, terms=2))],
        "n": draw(st.sampled_from([32, 40])),
        "strategy": draw(st.sampled_from(["fft", "direct"])),
        "other": draw(st.sampled_from(["fft", "direct"])),
    }


def described_anew(spec, s):
    """The same region elsewhere, with some edges reversed."""
    out = copy.deepcopy(spec)
    out["sim"] = s["sim"]
    k = 0
    for c in [out["outer"]] + out["holes"]:
        if c["k"] == "poly":
            for i in range(len(c["f"])):
                if s["flip"][k]:
                    c["f"][i] = not c["f"][i]
                k += 1
        else:
            k += 1
    return out


def frame(sim):
    """Factor and translation of a similarity."""
    return sim[0] * np.exp(1j * np.pi * sim[1] / 180), complex(sim[2], sim[3])


def pulled_back(terms, sim):
    """p(S^-1 z) / |m|^2 as a library polynomial."""
    import puncturedfem as pf

    m, t = frame(sim)
    c = 1 / m
    d = -t / m
    F = Fraction
    x = pm.make([(F(c.real), 1, 0), (F(-c.imag), 0, 1), (F(d.real), 0, 0)])
    y = pm.make([(F(c.imag), 1, 0), (F(c.real), 0, 1), (F(d.imag), 0, 0)])
    p = pm.scale(pm.compose(pm.make(terms), x, y), F(1 / abs(m) ** 2))
    return pf.Polynomial(pm.terms(p))


def check(s, r: Recorder):
    import puncturedfem as pf

    describe(s["cell"], r)
    sa = s["cell"]
    sb = described_anew(sa, s)
    _, _, n = resolved_cell(sa, s["n"], need=2.5)
    cb, _ = build_cell(sb, order=s["order"], param=False)
    no_triangulation(cb)
    cb.set_interior_mesh_size(12, 12)
    cb.set_interior_point_tolerance(rtol=0.02, atol=1e-9)
    cb.parameterize(quads(sb, n))
    ca, _ = build_cell(sa, param=False)
    no_triangulation(ca)
    ca.set_interior_mesh_size(3, 3)
    ca.parameterize(quads(sa, n))
    za, zb = points(ca), points(cb)
    (ma, ta), (mb, tb) = frame(sa["sim"]), frame(sb["sim"])
    wa, wb = (za - ta) / ma, (zb - tb) / mb
    r.eq("number of points", len(za), len(zb))
    near = np.argmin(np.abs(wb[:, None] - wa[None, :]), axis=1)
    r.close("points", np.abs(wb - wa[near]), np.zeros(len(wb)), 1e-10)
    r.eq("every point once", sorted(near.tolist()), list(range(len(wa))))
    # corresponding interior points
    pb = np.asarray(cb.int_x1) + 1j * np.asarray(cb.int_x2)
    if not len(pb):
        raise Rejected()
    pa = (pb - tb) / mb * ma + ta
    ca.int_x1, ca.int_x2 = pa.real.copy(), pa.imag.copy()
    ok = gaps(cb, pb) > 3
    na = pf.NystromSolver(ca, antilap_strategy=s["strategy"])
    nb = pf.NystromSolver(cb, antilap_strategy=s["other"])
    fa, fb = [], []
    for t, lap in zip(s["t"], s["lap"]):
        va = trace_values(ca, t)
        fa.append(pf.LocalPoissonFunction(na, laplacian=pulled_back(lap, sa["sim"]), trace=va, evaluate_gradient=True))
        fb.append(pf.LocalPoissonFunction(nb, laplacian=pulled_back(lap, sb["sim"]), trace=va[near], evaluate_gradient=True))
    # sizes of what is added up, including what cancels
    amp = [max(mag(f), mag(g), 1e-3) for f, g in zip(fa, fb)]
    r.nt(amp[0] > 1e-2 and any(x["lap"] or not x["t"]["zero"] for x in [{"lap": s["lap"][0], "t": s["t"][0]}]))
    for i in (0, 1):
        sc = amp[i]
        r.close("trace", fb[i].get_trace_values(), fa[i].get_trace_values()[near], 1e-10, sc * 10)
        r.close("interior values", np.asarray(fb[i].int_vals)[ok], np.asarray(fa[i].int_vals)[ok], TOL, sc)
        ga = (np.asarray(fa[i].int_grad1) + 1j * np.asarray(fa[i].int_grad2)) * np.conj(ma)
        gb = (np.asarray(fb[i].int_grad1) + 1j * np.asarray(fb[i].int_grad2)) * np.conj(mb)
        d = (gb - ga)[ok]
        r.close("gradient", np.abs(d), np.zeros(len(d)), 10 * TOL, sc)
        r.close("log coefficients", sorted(fb[i].harm.log_coef), sorted(fa[i].harm.log_coef), TOL, sc)
        for j in (0, 1):
            s2 = amp[i] * amp[j]
            r.close("H1 product", fb[i].get_h1_semi_inner_prod(fb[j]), fa[i].get_h1_semi_inner_prod(fa[j]), 3 * TOL, s2)
            r.close("L2 product", fb[i].get_l2_inner_prod(fb[j]) / abs(mb) ** 2, fa[i].get_l2_inner_prod(fa[j]) / abs(ma) ** 2, 5 * TOL, s2)
    if not 0.1 < sb["sim"][0] < 10:
        r.label("extreme units")
    r.label("same strategy" if s["strategy"] == s["other"] else "other strategy")


TOL = 1e-3


def mag(f):
    """Size of a function and its parts."""
    return max(float(np.max(np.abs(f.get_trace_values()))), 0.3 * float(np.max(np.abs(f.poly.trace.values))))


PROP = Prop(
    "C20",
    [
        Sub("similar", cases(), check, quick=120, thorough=4000, shards=8,
            rule="two descriptions of one cell (moved, edges reversed and reordered) with piecewise smooth traces and polynomial Laplacians; non-trivial: the function is not zero"),
    ],
    warm=warm,
)
