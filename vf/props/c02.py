"""C02: calculus of polynomials."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, describe, num_of, poly_terms, q, tuples


@st.composite
def cases(draw):
    return {
        "p": draw(poly_terms(deg=draw(st.sampled_from([2, 5, 9, 12])), terms=6, lo=1)),
        "u": draw(poly_terms(deg=4, terms=3)),
        "c": draw(q(-3, 3, 8)),
    }


def check(s, r: Recorder):
    import puncturedfem as pf

    p, mp = pf.Polynomial(tuples(s["p"])), pm.make(s["p"])
    u, mu = pf.Polynomial(tuples(s["u"])), pm.make(s["u"])
    d = pm.degree(mp)
    r.label(f"degree {d}")
    amp = sum(abs(c) for c, _, _ in s["p"]) * max(1, d) ** 2
    px, py = pm.deriv(mp, 0), pm.deriv(mp, 1)
    pm.compare(r, "d/dx", p.partial_deriv("x"), px, amp)
    pm.compare(r, "d/dy", p.partial_deriv("y"), py, amp)
    gx, gy = p.grad()
    pm.compare(r, "gradient, x", gx, px, amp)
    pm.compare(r, "gradient, y", gy, py, amp)
    pm.compare(r, "Laplacian", p.laplacian(), pm.laplacian(mp), amp)
    big = p.anti_laplacian()
    mb = pm.make([(m.coef, m.alpha.x, m.alpha.y) for m in big.monos])
    pm.compare(r, "Laplacian of the anti-Laplacian (library)", big.laplacian(), mp, amp, 1e-9)
    # the same without the library's Laplacian
    lap = pm.laplacian(mb)
    keys = sorted(set(lap) | set(mp))
    r.close("Laplacian of the anti-Laplacian", [float(lap.get(k, 0)) for k in keys], [float(mp.get(k, 0)) for k in keys], 1e-9, amp)
    r.true(pm.degree(mb) <= d + 2, "degree of the anti-Laplacian", pm.degree(mb), d + 2)
    # derivatives of a product (Leibniz), through the library
    if pm.degree(mu) + d <= 14:
        left = (p * u).partial_deriv("x")
        pm.compare(r, "product rule", left, pm.add(pm.mul(px, mu), pm.mul(mp, pm.deriv(mu, 0))), amp * 60)
    # linearity
    comb = (p + s["c"] * u).anti_laplacian()
    ref = pm.add(mb, pm.scale(pm.make([(m.coef, m.alpha.x, m.alpha.y) for m in u.anti_laplacian().monos]), s["c"]))
    pm.compare(r, "anti-Laplacian of a combination", comb, ref, amp * 20, 1e-9)
    pm.compare(r, "operand", p, mp, amp)
    r.nt(d >= 2 and len(mp) >= 2)


@st.composite
def mono_cases(draw):
    return {
        "c": draw(q(-4, 4, 8)),
        "i": draw(st.integers(0, 9)),
        "j": draw(st.integers(0, 9)),
        "d": draw(q(-4, 4, 8)),
        "k": draw(st.integers(0, 9)),
        "l": draw(st.integers(0, 9)),
        "pt": [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))],
    }


def check_mono(s, r: Recorder):
    from puncturedfem.locfun.poly.monomial import Monomial
    from puncturedfem.locfun.poly.multi_index import MultiIndex

    a = Monomial(MultiIndex([s["i"], s["j"]]), s["c"])
    b = Monomial(MultiIndex([s["k"], s["l"]]), s["d"])
    x, y = s["pt"]

    def same(name, m, c, i, j):
        r.close(name, m.coef, c, 1e-12)
        if c != 0:
            r.eq(name + " (exponents)", (m.alpha.x, m.alpha.y), (i, j))

    i, j, c = s["i"], s["j"], s["c"]
    same("product", a * b, c * s["d"], i + s["k"], j + s["l"])
    same("multiple", a * s["d"], c * s["d"], i, j)
    same("multiple from the left", s["d"] * a, c * s["d"], i, j)
    same("negative", -a, -c, i, j)
    same("sum", a + Monomial(MultiIndex([i, j]), s["d"]), c + s["d"], i, j)
    same("d/dx", a.partial_deriv("x"), c * i, i - 1, j)
    same("d/dy", a.partial_deriv("y"), c * j, i, j - 1)
    gx, gy = a.grad()
    same("gradient x", gx, c * i, i - 1, j)
    same("gradient y", gy, c * j, i, j - 1)
    val = c * x**i * y**j
    sc = max(1.0, abs(val))
    r.close("value", a.eval(x, y), val, 1e-12, sc)
    xx = np.array([x, 0.0, 1.0, -1.5])
    yy = np.array([y, 2.0, 0.0, 1.0])
    vv = c * xx**i * yy**j
    r.close("values", a.eval(xx, yy), vv, 1e-12, max(1.0, np.max(np.abs(vv))))
    same("operand", a, c, i, j)
    same("other operand", b, s["d"], s["k"], s["l"])
    if (i, j) != (s["k"], s["l"]):
        r.raises("sum of different powers", ValueError, lambda: a + b)
        r.true(not a == b, "equal to another power")
        first = (i + j, j) > (s["k"] + s["l"], s["l"])
        r.eq("order", bool(a > b), first)
    r.nt(i + j > 0 and c != 0)


@st.composite
def trace_cases(draw):
    return {"cell": draw(cell_specs()), "p": draw(poly_terms(deg=5, terms=4, lo=1)), "n": draw(st.integers(8, 24))}


def check_trace(s, r: Recorder):
    import puncturedfem as pf

    from ..geom import RefCurve
    from ..ref import nodes

    describe(s["cell"], r)
    n = s["n"]
    cell, specs = build_cell(s["cell"], n=n)
    p, mp = pf.Polynomial(tuples(s["p"])), pm.make(s["p"])
    mx, my = pm.deriv(mp, 0), pm.deriv(mp, 1)
    nd = np.asarray(p.get_weighted_normal_derivative(cell))
    td = np.asarray(p.get_weighted_tangential_derivative(cell))
    x, y = cell.get_boundary_points()
    r.close("values at the boundary points", p(x, y), pm.eval_float(mp, x, y), 1e-10,
            max(1.0, np.max(pm.eval_float({k: abs(c) for k, c in mp.items()}, np.abs(x), np.abs(y)))))
    r.eq("number of values", (len(nd), len(td)), (cell.num_pts, cell.num_pts))
    got = np.column_stack([np.asarray(x), np.asarray(y), nd, td])
    used = np.zeros(len(nd), dtype=bool)
    for e in specs:
        m = num_of(s["cell"], e["quad"], n)
        t, w = nodes(e["quad"], m, 7)
        z, d, _ = RefCurve(e).eval(t)
        d = d * w * e["side"]
        gx, gy = pm.eval_float(mx, z.real, z.imag), pm.eval_float(my, z.real, z.imag)
        wn = gx * d.imag - gy * d.real
        wt = gx * d.real + gy * d.imag
        sc = max(1e-3, np.max(np.abs(d)) * max(1e-3, np.max(np.hypot(gx, gy))))
        size = max(1.0, np.max(np.abs(z)))
        for k in range(1, 2 * m):  # interior nodes: unique positions
            # several nodes may coincide near a corner where all vanishes
            dist = np.abs(got[:, 0] + 1j * got[:, 1] - z[k])
            near = np.flatnonzero(dist < 1e-9 * size)
            r.true(len(near) > 0, "no sampled point at a node of an edge")
            best = near[np.argmin(np.abs(nd[near] - wn[k]) + np.abs(td[near] - wt[k]))]
            used[best] = True
            r.close("weighted normal derivative", nd[best], wn[k], 1e-7, sc)
            r.close("weighted tangential derivative", td[best], wt[k], 1e-7, sc)
    per_edge = 2 * n - 1
    r.true(np.sum(used) >= len(specs) * (per_edge - 2 * n // 3), "every sampled point is accounted for")
    r.nt(pm.degree(mp) >= 1)


PROP = Prop(
    "C02",
    [
        Sub("calculus", cases(), check, quick=800, thorough=20000, shards=3,
            rule="derivatives and anti-Laplacians of polynomials up to degree 12 against exact rational arithmetic; non-trivial: degree at least 2 and at least 2 terms"),
        Sub("monomials", mono_cases(), check_mono, quick=800, thorough=10000, shards=1,
            rule="operations on monomials; non-trivial: not constant and not zero"),
        Sub("boundary", trace_cases(), check_trace, quick=150, thorough=3000, shards=3,
            rule="weighted normal and tangential derivatives of polynomials on the boundary of a cell against the exact curves; non-trivial: not constant"),
    ],
)
