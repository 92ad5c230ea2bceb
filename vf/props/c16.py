"""C16: harmonic conjugates, Neumann data, logarithmic singularities."""

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub
from ..gens import cell_specs, contour_sizes, describe, q
from ..harm import Harm, harm_specs, normal_tangent, points, resolved_cell, warm

TOL = 1e-3


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=3, many=12, big=draw(st.integers(0, 3)) == 0))
    return {
        "cell": c,
        "u": draw(harm_specs(len(c["holes"]))),
        "v": draw(harm_specs(len(c["holes"]))),
        "n": draw(st.sampled_from([48, 60, 64])),
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))) if draw(st.booleans()) else None,
        "s": [draw(q(-3, 3, 4)), draw(q(-5, 5, 4)), draw(st.sampled_from([-3, -3, -2, 3, 6]))],
        "strategy": draw(st.sampled_from(["fft", "direct"])),
    }


def spread(v):
    """Largest minus smallest value."""
    return float(np.max(v) - np.min(v))


def check(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.local_harmonic import LocalHarmonic

    describe(s["cell"], r)
    h = Harm(s["u"], s["cell"])
    h2 = Harm(s["v"], s["cell"])
    cell, _, n = resolved_cell(s["cell"], s["n"], h.zeta, order=s["order"])
    r.label("n > 64" if n > 64 else "n <= 64")
    nyst = pf.NystromSolver(cell, antilap_strategy=s["strategy"])
    z = points(cell)
    n, t, dx = normal_tangent(cell)
    xi = [complex(c.interior_point.x, c.interior_point.y) for c in cell.components[1:]]
    # the holes of the cell in the order of the library
    perm = match(h.zeta, xi)
    u = h.u(z)
    exact = h.conj_without_logs(z, [xi[perm.index(k)] for k in range(len(xi))])
    logs = [h.logs[k] for k in perm]
    sc = max(1e-3, spread(u), spread(exact), 0.01 * float(np.max(np.abs(u))))
    keep = u.copy()
    psi, a = nyst.get_harmonic_conjugate(u)
    r.eq("argument", u, keep)
    r.eq("number of log coefficients", np.shape(a), (len(xi),))
    r.close("log coefficients", a, logs, TOL, sc)
    d = np.asarray(psi) - exact
    r.close("harmonic conjugate", d - np.mean(d), np.zeros(len(z)), 3 * TOL, sc)
    # derivatives
    g = np.conj(h.deriv(z))
    s2 = max(0.05 * sc * float(np.max(dx)) / h.size, float(np.max(np.abs(g) * dx)))
    wnd = (g * np.conj(n)).real * dx
    wtd = (g * np.conj(t)).real * dx
    trace = pf.DirichletTrace(edges=cell.get_edges(), values=u.copy())
    loc = LocalHarmonic(trace, nyst)
    r.close("weighted normal derivative", loc.trace.w_norm_deriv, wnd, 5 * TOL, s2)
    r.close("trace", loc.trace.values, u, 1e-13)
    r.close("conjugate of the function", loc.conj_trace.values, psi, 1e-9, sc)
    r.close("log coefficients of the function", loc.log_coef, a, 1e-9, sc)
    r.close("conjugable part", loc.psi.values, u - sum((b * np.log(np.abs(z - x)) for b, x in zip(a, xi)), np.zeros(len(z))), 1e-11, sc * 10)
    # with the same boundary data as a local function
    f = pf.LocalPoissonFunction(nyst, trace=u.copy(), evaluate_interior=False)
    r.close("conjugate in a local function", f.harm.conj_trace.values, psi, 1e-9, sc)
    r.close("normal derivative in a local function", f.harm.trace.w_norm_deriv, loc.trace.w_norm_deriv, 1e-9, s2)
    # the Neumann problem
    v = nyst.solve_neumann_zero_average(wnd)
    d = np.asarray(v) - u
    r.close("solution of the Neumann problem", d - np.mean(d), np.zeros(len(z)), 3 * TOL, sc)
    length = float(cell.integrate_over_boundary(np.ones(len(z))))
    r.close("average of the solution", float(cell.integrate_over_boundary(v)) / length, 0.0, 1e-4, sc)
    # constants
    psi2, a2 = nyst.get_harmonic_conjugate(u + s["s"][1])
    r.close("conjugate when a constant is added", psi2, psi, TOL, sc + abs(s["s"][1]))
    r.close("log coefficients when a constant is added", a2, a, TOL, sc + abs(s["s"][1]))
    # linearity
    u2 = h2.u(z)
    sc2 = max(1e-3, spread(u2))
    k = s["s"][0]
    p2, b2 = nyst.get_harmonic_conjugate(u2)
    p3, b3 = nyst.get_harmonic_conjugate(k * u + u2)
    r.close("conjugate of a combination", p3, k * np.asarray(psi) + p2, 1e-5, (sc * abs(k) + sc2) * 10)
    r.close("log coefficients of a combination", b3, k * np.asarray(a) + b2, 1e-5, (sc * abs(k) + sc2) * 10)
    # data in other units
    unit = 10.0 ** s["s"][2] / sc
    p4, b4 = nyst.get_harmonic_conjugate(unit * u)
    r.close("conjugate in other units", np.asarray(p4) / unit, psi, 1e-5, sc)
    r.close("log coefficients in other units", np.asarray(b4) / unit, a, 1e-8, sc)
    v4 = nyst.solve_neumann_zero_average(unit * wnd)
    r.close("solution of the Neumann problem in other units", np.asarray(v4) / unit, v, 1e-5, sc)
    # logarithmic terms
    for j, x in enumerate(xi):
        lam = nyst.lam_trace[j]
        r.close("logarithmic term", lam.values, np.log(np.abs(z - x)), 1e-12, 10.0)
        gl = (z - x) / np.abs(z - x) ** 2
        s3 = float(np.max(np.abs(gl) * dx))
        r.close("normal derivative of a logarithmic term", lam.w_norm_deriv, (gl * np.conj(n)).real * dx, 1e-10, s3)
        r.close("tangential derivative of a logarithmic term", lam.w_tang_deriv, (gl * np.conj(t)).real * dx, 1e-10, s3)
    r.label("logs" if any(h.logs) else "no logs", s["strategy"])
    r.nt(spread(u) > 1e-3)


def match(zeta, xi):
    """For each point of xi the index of the nearest of zeta (a bijection:
    both are inside of the same disjoint holes)."""
    out = []
    for x in xi:
        d = [abs(x - t) for t in zeta]
        out.append(int(np.argmin(d)))
    return out


PROP = Prop(
    "C16",
    [
        Sub("harmonic", cases(), check, quick=96, thorough=4000, shards=8,
            rule="harmonic functions with poles and logarithms in up to 3 holes; non-trivial: not constant"),
    ],
    warm=warm,
)
