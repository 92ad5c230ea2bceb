"""C13: FFT derivatives and antiderivatives."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, mag, poly_terms, q, tuples


@st.composite
def cases(draw):
    n = draw(st.integers(3, 130))
    k = draw(st.integers(1, 4))
    top = (n - 1) // 2
    return {
        "N": n,
        "L": draw(st.sampled_from([6.283185307179586, 1.0, 12.566370614359172]) | mag(-2, 3)),
        "modes": [
            [draw(st.integers(0, top)), draw(q(-3, 3, 16)), draw(q(-3, 3, 16))] for _ in range(k)
        ],
        "c": draw(q(-3, 3, 16)),
        "vals": [draw(q(-2, 2, 16)) for _ in range(min(n, 12))],
    }


def check(s, r: Recorder):
    from puncturedfem.locfun.fft_deriv import fft_antiderivative, fft_derivative

    n, L = s["N"], s["L"]
    t = np.arange(n) * L / n
    w = 2 * np.pi / L
    f = np.full(n, s["c"])
    df = np.zeros(n)
    ff = np.zeros(n)
    top = 0.0
    for k, a, b in s["modes"]:
        f = f + a * np.cos(k * w * t) + b * np.sin(k * w * t)
        df = df + k * w * (-a * np.sin(k * w * t) + b * np.cos(k * w * t))
        if k:
            ff = ff + (a * np.sin(k * w * t) - b * np.cos(k * w * t)) / (k * w)
        top = max(top, (abs(a) + abs(b)) * max(k, 1))
    keep = f.copy()
    amp = max(1.0, abs(s["c"]), float(np.max(np.abs(f))))
    got = fft_derivative(f, L)
    r.close("derivative", got, df, 1e-11, w * n * amp)
    prim = fft_antiderivative(f, L)
    r.close("antiderivative", prim, ff, 1e-11, L * amp)
    r.close("mean of the antiderivative", np.mean(prim), 0.0, 1e-12, L * amp)
    r.eq("argument", f, keep)
    r.true(np.isrealobj(got) and np.isrealobj(prim), "real values")
    # any values: inverse of each other up to the mean (and, for even N, up
    # to the highest frequency, whose derivative is not represented)
    v = np.resize(np.array(s["vals"]), n) * (1 + 0.37 * np.sin(np.arange(n) ** 2))
    z = fft_antiderivative(fft_derivative(v, L), L)
    want = v - np.mean(v)
    if n % 2 == 0:
        alt = (-1.0) ** np.arange(n)
        want = want - alt * np.mean(v * alt)
    r.close("antiderivative of the derivative", z, want, 1e-10, max(1.0, float(np.max(np.abs(v)))) * n)
    z = fft_derivative(fft_antiderivative(v, L), L)
    r.close("derivative of the antiderivative", z, want, 1e-10, max(1.0, float(np.max(np.abs(v)))) * n)
    # shifting the samples shifts the derivative
    sh = fft_derivative(np.roll(v, 3), L)
    r.close("derivative of shifted values", sh, np.roll(fft_derivative(v, L), 3), 1e-11, w * n * max(1.0, float(np.max(np.abs(v)))) * 4)
    r.label("even" if n % 2 == 0 else "odd")
    r.nt(any(k and (a or b) for k, a, b in s["modes"]))


@st.composite
def cell_cases(draw):
    c = draw(cell_specs(max_holes=3, many=6, floor=0.0, big=draw(st.integers(0, 2)) == 0))
    return {
        "cell": c,
        "order": list(draw(st.permutations(list(range(sum(contour_sizes(c))))))),
        "p": draw(poly_terms(deg=4, terms=3, lo=1)),
        "n": draw(st.integers(32, 64)),
        "add": [draw(q(-2, 2, 8)) for _ in range(4)],
    }


def check_cell(s, r: Recorder):
    """Tangential derivatives of traces contour by contour."""
    import puncturedfem as pf
    from puncturedfem.locfun.fft_deriv import (
        fft_antiderivative_on_each_component,
        get_weighted_tangential_derivative_from_trace,
    )

    describe(s["cell"], r)
    cell, specs = build_cell(s["cell"], n=s["n"], order=s["order"])
    p = pf.Polynomial(tuples(s["p"]))
    mp = pm.make(s["p"])
    x, y = cell.get_boundary_points()
    f = np.asarray(p(x, y), dtype=float)
    # a different constant on every contour does not matter
    g = f.copy()
    for k in range(len(cell.components)):
        g[cell.component_start_idx[k] : cell.component_start_idx[k + 1]] += s["add"][k % 4] + k // 4
    keep = g.copy()
    gx, gy = pm.deriv(mp, 0), pm.deriv(mp, 1)
    tx, ty = cell.get_unit_tangent()
    dx = np.asarray(cell.get_dx_norm())
    exact = (pm.eval_float(gx, x, y) * np.asarray(tx) + pm.eval_float(gy, x, y) * np.asarray(ty)) * dx
    got = get_weighted_tangential_derivative_from_trace(cell, g)
    r.eq("argument", g, keep)
    sc = max(1e-3, float(np.max(np.abs(exact))), float(np.max(np.abs(f))))
    tol = 1e-5
    r.close("tangential derivative of a trace", got, exact, tol, sc)
    # integrating back: the trace up to a constant on every contour
    back = fft_antiderivative_on_each_component(cell, exact)
    for k in range(len(cell.components)):
        sl = slice(cell.component_start_idx[k], cell.component_start_idx[k + 1])
        want = f[sl] - np.mean(f[sl])
        r.close("trace from its tangential derivative", back[sl], want, 1e-6, sc)
        r.close("mean over a contour", np.mean(back[sl]), 0.0, 1e-11, sc)
    r.nt(pm.degree(mp) > 0)


PROP = Prop(
    "C13",
    [
        Sub("periodic", cases(), check, quick=1500, thorough=30000, shards=2,
            rule="trigonometric polynomials and arbitrary samples of any length and period; non-trivial: a non-constant mode"),
        Sub("cells", cell_cases(), check_cell, quick=400, thorough=8000, shards=4,
            rule="traces of polynomials on cells with up to 3 holes; non-trivial: not constant"),
    ],
)
