"""C18: local functions form an inner product space."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, describe, no_triangulation, poly_terms, q, quads, tuples
from ..harm import points, resolved_cell, warm


@st.composite
def traces(draw):
    """A continuous trace: values at vertices and bumps on edges."""
    return {
        "v": [draw(q(-2, 2, 4)) for _ in range(6)],
        "b": [draw(q(-2, 2, 4)) for _ in range(6)],
        "loop": [[draw(q(-2, 2, 4)) for _ in range(3)] for _ in range(3)],
        "zero": draw(st.integers(0, 5)) == 0,
    }


def trace_values(cell, t):
    """Values at the boundary points of the cell."""
    z = points(cell)
    out = np.zeros(len(z))
    if t["zero"]:
        return out
    k = 0
    pos = 0
    for ci, comp in enumerate(cell.components):
        m = len(comp.edges)
        for e in range(m):
            num = comp.edges[e].num_pts - 1
            sl = slice(pos, pos + num)
            pos += num
            if m == 1:
                a = z[sl]
                u = (a - np.mean(a)) / np.max(np.abs(a - np.mean(a)))
                c = t["loop"][ci % 3]
                out[sl] = c[0] + c[1] * u.real + c[2] * u.imag * u.real
                continue
            za = z[pos - num]
            zb = complex(comp.edges[e].x[0, -1], comp.edges[e].x[1, -1])
            l = ((z[sl] - za) / (zb - za)).real
            va, vb = t["v"][(e + ci) % 6], t["v"][((e + 1) % m + ci) % 6]
            out[sl] = va * (1 - l) + vb * l + t["b"][k % 6] * l * (1 - l)
            k += 1
    return out


OPS = ["add", "sub", "mul", "rmul", "div", "neg2"]


@st.composite
def cases(draw):
    c = draw(cell_specs(max_holes=2, big=draw(st.integers(0, 2)) == 0))
    unit = c["sim"][0] if not 0.25 <= c["sim"][0] <= 4.0 else 1.0
    nb = draw(st.integers(2, 3))
    prog = []
    for k in range(draw(st.integers(1, 6))):
        top = nb + k - 1
        prog.append([draw(st.sampled_from(OPS)), draw(st.integers(0, top)), draw(st.integers(0, top)),
                     draw(q(-3, 3, 4) | st.integers(-3, 3)) or 2])
    return {
        "cell": c,
        "base": [{"t": draw(traces()), "lap": [[a / unit ** (i + j + 2), i, j] for a, i, j in draw(poly_terms(deg=2, terms=2))]} for _ in range(nb)],
        "prog": prog,
        "n": draw(st.sampled_from([24, 32])),
        "interior": draw(st.integers(0, 2)) == 0,
        "strategy": draw(st.sampled_from(["fft", "direct"])),
        "const": draw(q(-4, 4, 4)) or 1.0,
    }


def fields(f):
    """Everything observable that is linear in the function."""
    out = {
        "trace": f.get_trace_values(),
        "harmonic trace": f.harm.trace.values,
        "normal derivative": f.harm.trace.w_norm_deriv,
        "tangential derivative": f.harm.trace.w_tang_deriv,
        "conjugate": f.harm.conj_trace.values,
        "conjugable part": f.harm.psi.values,
        "log coefficients": np.array(f.harm.log_coef, dtype=float),
        "anti-Laplacian": f.harm.biharmonic_trace.values,
        "normal derivative of the anti-Laplacian": f.harm.biharmonic_trace.w_norm_deriv,
        "polynomial trace": f.poly.trace.values,
        "polynomial anti-Laplacian": f.poly.antilap_trace.values,
        "polynomial normal derivative": f.poly.antilap_trace.w_norm_deriv,
    }
    for k in ("int_vals", "int_grad1", "int_grad2"):
        v = getattr(f, k)
        if v is not None:
            out[k] = v
    return {k: np.array(v, dtype=float) for k, v in out.items()}


def harmonic_fields(h):
    """Everything observable of a harmonic part."""
    t, b = h.trace, h.biharmonic_trace
    return [np.array(v, dtype=float) for v in
            (t.values, t.w_norm_deriv, t.w_tang_deriv, h.conj_trace.values, h.psi.values, h.log_coef, b.values, b.w_norm_deriv)]


def polynomial_fields(p):
    """Everything observable of a polynomial part."""
    t, b = p.trace, p.antilap_trace
    return [np.array(v, dtype=float) for v in (t.values, t.w_norm_deriv, b.values, b.w_norm_deriv)]


def apply(op, f, g, c):
    if op == "add":
        return f + g
    if op == "sub":
        return f - g
    if op == "mul":
        return f * c
    if op == "rmul":
        return c * f
    if op == "div":
        return f / c
    return c * f - g * 2


def check(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.inner_prod import h1_semi_inner_prod, l2_inner_prod

    describe(s["cell"], r)
    cell, _, n = resolved_cell(s["cell"], s["n"], need=2.5)
    if s["interior"]:
        cell, _ = build_cell(s["cell"], param=False)
        no_triangulation(cell)
        cell.parameterize(quads(s["cell"], n), compute_interior_points=True)
    nyst = pf.NystromSolver(cell, antilap_strategy=s["strategy"])
    base = []
    laps = []
    for b in s["base"]:
        lap = pf.Polynomial(tuples(b["lap"]))
        laps.append(pm.make(b["lap"]))
        v = trace_values(cell, b["t"])
        base.append(pf.LocalPoissonFunction(nyst, laplacian=lap, trace=v, evaluate_interior=s["interior"], evaluate_gradient=s["interior"]))
        r.close("trace", base[-1].get_trace_values(), v, 1e-11, max(1.0, float(np.max(np.abs(base[-1].poly.trace.values)))) * 10)
    snap = [fields(f) for f in base]
    nb = len(base)
    G1 = np.array([[f.get_h1_semi_inner_prod(g) for g in base] for f in base])
    G2 = np.array([[f.get_l2_inner_prod(g) for g in base] for f in base])
    # the program
    funs, coef = list(base), [np.eye(nb)[k] for k in range(nb)]
    for op, i, j, c in s["prog"]:
        f, g = funs[i], funs[j]
        a, b = coef[i], coef[j]
        funs.append(apply(op, f, g, c))
        coef.append(apply(op, a, b, c))
    # the same program on the parts
    for name, part, obs in (("harmonic part", lambda f: f.harm, harmonic_fields), ("polynomial part", lambda f: f.poly, polynomial_fields)):
        made = [part(f) for f in base]
        got = [obs(f) for f in made]
        for op, i, j, c in s["prog"]:
            made.append(apply(op, made[i], made[j], c))
            got.append([apply(op, u, v, c) for u, v in zip(got[i], got[j])])
        for m, (f, want) in enumerate(zip(made, got)):
            now = obs(f)
            r.eq(f"{name}: number of fields", len(now), len(want))
            for k, (u, v) in enumerate(zip(now, want)):
                r.close(f"{name} by itself, field {k}", u, v, 1e-11, sum(float(np.max(np.abs(w[k]), initial=0.0)) for w in got[: m + 1]) + 1e-200)
            for k, (u, v) in enumerate(zip(obs(part(funs[m])), want)):
                r.close(f"{name} of the combination, field {k}", u, v, 1e-11, sum(float(np.max(np.abs(w[k]), initial=0.0)) for w in got[: m + 1]) + 1e-200)
    for f, c in zip(funs[nb:], coef[nb:]):
        got = fields(f)
        r.eq("fields of a combination", sorted(got), sorted(snap[0]))
        for k, v in got.items():
            want = sum(c[m] * snap[m][k] for m in range(nb))
            big = sum((1 + abs(c[m])) * (float(np.max(np.abs(snap[m][k]))) if snap[m][k].size else 0.0) for m in range(nb))
            if k in ("trace", "int_vals"):
                # sum of a harmonic part and a polynomial, either may be larger
                for o in ("harmonic trace", "polynomial trace"):
                    big += sum((1 + abs(c[m])) * float(np.max(np.abs(snap[m][o]))) for m in range(nb))
            r.close(f"combination: {k}", v, want, 1e-12, max(big, 1e-3) * 50)
        lap = pm.of_library(f.poly.exact_form)
        mod = {}
        for m in range(nb):
            for key, val in pm.of_library(base[m].poly.exact_form).items():
                mod[key] = mod.get(key, 0.0) + c[m] * val
        for key in set(lap) | set(mod):
            r.close("combination: polynomial part", lap.get(key, 0.0), mod.get(key, 0.0), 1e-12, 50 * (1 + float(np.sum(np.abs(c)))) * max(1.0, max((pm.size(x) for x in laps), default=1.0)))
        r.true(f.mesh_cell is cell, "cell of a combination")
        big1 = (1 + float(np.sum(np.abs(c)))) * float(np.max(np.abs(G1))) + 1e-6
        big2 = (1 + float(np.sum(np.abs(c)))) * float(np.max(np.abs(G2))) + 1e-6
        for m in range(nb):
            r.close("H1 product of a combination", f.get_h1_semi_inner_prod(base[m]), float(c @ G1[:, m]), 1e-9, big1 * 10)
            r.close("L2 product of a combination", f.get_l2_inner_prod(base[m]), float(c @ G2[:, m]), 1e-9, big2 * 10)
            r.close("H1 product with a combination", base[m].get_h1_semi_inner_prod(f), float(G1[m] @ c), 1e-9, big1 * 10)
            r.close("L2 product with a combination", base[m].get_l2_inner_prod(f), float(G2[m] @ c), 1e-9, big2 * 10)
        # the parts are function spaces of their own
        m = nb - 1
        comb_h = sum((base[k].harm * float(c[k]) for k in range(1, nb)), base[0].harm * float(c[0]))
        comb_p = sum((base[k].poly * float(c[k]) for k in range(1, nb)), base[0].poly * float(c[0]))
        r.close("L2 product of combined parts", l2_inner_prod(comb_h, comb_p, cell), l2_inner_prod(f.harm, f.poly, cell), 1e-9, big2 * 100 * (1 + polyscale(base)))
        r.close("H1 product of combined parts", h1_semi_inner_prod(comb_h, comb_p, cell), h1_semi_inner_prod(f.harm, f.poly, cell), 1e-9, big1 * 100 * (1 + polyscale(base)))
    # operands
    for f, sn in zip(base, snap):
        now = fields(f)
        for k, v in sn.items():
            r.eq("operand: " + k, now[k], v)
    # laws
    z = points(cell)
    width = float(np.max(np.abs(z - np.mean(z))))
    amp = np.array([float(np.max(np.abs(f.poly.trace.values))) + float(np.max(np.abs(f.get_trace_values()))) for f in base])
    for name, G, unit in (("H1", G1, 1.0), ("L2", G2, width)):
        d = np.sqrt(np.abs(np.diag(G))) + 0.05 * amp * unit + 1e-6
        N = G / np.outer(d, d)
        r.close(f"{name} product: symmetry", N, N.T, 3e-2, 1.0)
        ev = np.linalg.eigvalsh((N + N.T) / 2)
        r.le(f"{name} product: positive", -float(ev[0]), 0.0, 1e-2)
        for a in range(nb):
            for b in range(nb):
                r.le(f"{name} product: Cauchy-Schwarz", abs(G[a, b]), float(np.sqrt(abs(G[a, a] * G[b, b]))), 1e-2, float(d[a] * d[b]))
    # constants
    one = pf.LocalPoissonFunction(nyst, trace=s["const"], evaluate_interior=False)
    for m in range(nb):
        sc = abs(s["const"]) * (float(np.sqrt(abs(G1[m, m]))) + 0.05 * amp[m]) + 1e-6
        r.close("H1 product with a constant", one.get_h1_semi_inner_prod(base[m]), 0.0, 5e-3, sc)
        r.close("H1 product with a constant, exchanged", base[m].get_h1_semi_inner_prod(one), 0.0, 5e-3, sc)
    # not admissible
    f = funs[-1]
    r.raises("adding a number", (TypeError, ValueError), lambda: f + 1)
    r.raises("subtracting a number", (TypeError, ValueError), lambda: f - 1.0)
    r.raises("product of functions", (TypeError, ValueError), lambda: f * base[0])
    r.raises("division by zero", (ValueError, ZeroDivisionError), lambda: f / 0)
    r.raises("quotient of functions", (TypeError, ValueError), lambda: f / base[0])
    r.raises("inner product with a number", TypeError, f.get_h1_semi_inner_prod, 1.0)
    r.raises("inner product with a trace", TypeError, f.get_l2_inner_prod, f.harm.trace)
    r.label(s["strategy"], "interior" if s["interior"] else "boundary only")
    r.nt(float(np.max(np.abs(G1))) > 1e-3 and any(np.any(c) for c in coef[nb:]))


def polyscale(base):
    """Size of the polynomial parts, which may cancel the harmonic ones."""
    return max(float(np.max(np.abs(f.poly.trace.values))) for f in base) ** 2


PROP = Prop(
    "C18",
    [
        Sub("space", cases(), check, quick=120, thorough=3000, shards=8,
            rule="programs over 2-3 functions with piecewise smooth traces and polynomial Laplacians; non-trivial: non-zero combinations and products"),
    ],
    warm=warm,
)
