"""C23: assembled matrices."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import poly_terms, q
from ..glob import Exact, Problem, frame, library, pull, resolved
from ..harm import warm
from ..meshgen import cell_labels, edges_of, label_mesh, mesh_specs


@st.composite
def cases(draw):
    m = draw(mesh_specs(big=True, nx=2, ny=2, max_punctures=1, min_cells=draw(st.sampled_from([1, 2, 2, 2]))))
    return {
        "mesh": m,
        "deg": draw(st.sampled_from([1, 1, 2, 2, 3])),
        "n": draw(st.sampled_from([24, 32])),
        "D": draw(q(0.1, 5, 10) | st.sampled_from([0.0, 1.0])),
        "R": draw(q(0.1, 5, 10) | st.sampled_from([0.0, 1.0])),
        "f": draw(poly_terms(deg=3, terms=4, lo=1)),
        "p": [draw(poly_terms(deg=3, terms=4, lo=1)) for _ in range(2)],
        "interior": draw(st.integers(0, 5)) == 0,
    }


def cut(p, deg):
    return pm.clean({k: c for k, c in pm.make(p).items() if sum(k) <= deg})


def check(s, r: Recorder):
    spec, deg = s["mesh"], s["deg"]
    label_mesh(spec, r)
    r.label(f"degree {deg}")
    n = resolved(spec, s["n"])
    cen, size = frame(spec)
    f = pull(cut(s["f"], 3), cen, size)
    D, R = float(s["D"]), float(s["R"])
    P = Problem(spec, deg, n, D, R, library(f))
    g = P.gfs
    A, M, G = (np.asarray(m.todense()) for m in (P.solver.stiff_mat, P.solver.mass_mat, P.solver.glob_mat))
    F = np.asarray(P.solver.glob_rhs.todense()).ravel()
    N = g.num_funs
    r.eq("sizes", (A.shape, M.shape, G.shape, F.shape, P.solver.num_funs), ((N, N), (N, N), (N, N), (N,), N))
    # sizes of what is added up in the inner products, including what cancels
    amp, area = np.zeros(N), np.zeros(N)
    regs = P.regions()
    for c, sp in P.spaces.items():
        for v in sp.get_basis():
            k = v.key.glob_idx
            amp[k] = max(amp[k], float(np.max(np.abs(v.get_trace_values()))), float(np.max(np.abs(v.poly.trace.values))))
            area[k] += regs[c].area
    da, dm = amp, amp * np.sqrt(area)
    r.true(bool(np.all(da > 0)), "functions are not zero")
    r.le("diagonal of the stiffness is positive", -float(np.min(np.diag(A) / da**2)), 0.0, TOL)
    r.le("diagonal of the mass is positive", -float(np.min(np.diag(M) / dm**2)), 0.0, TOL)
    good = (np.diag(A) > 1e-2 * da**2) & (np.diag(M) > 1e-3 * dm**2)
    r.label("all diagonals clear" if np.all(good) else "some diagonals small")
    r.close("stiffness is symmetric", A / np.outer(da, da), (A / np.outer(da, da)).T, 1e-12)
    r.close("mass is symmetric", M / np.outer(dm, dm), (M / np.outer(dm, dm)).T, 1e-12)
    la = np.linalg.eigvalsh(A / np.outer(da, da))
    lm = np.linalg.eigvalsh(M / np.outer(dm, dm))
    r.le("stiffness has no negative eigenvalues", -la[0], 0.0, 10 * TOL)
    r.le("mass has no negative eigenvalues", -lm[0], 0.0, 10 * TOL)
    # functions without a common cell
    near = np.zeros((N, N), dtype=bool)
    for sp in P.spaces.values():
        i = [v.key.glob_idx for v in sp.get_basis()]
        near[np.ix_(i, i)] = True
    for name, m in (("stiffness", A), ("mass", M), ("global", G)):
        r.true(not np.any(m[~near]), f"{name}: functions without a common cell")
    # the global system
    free = P.free
    want = D * A + R * M
    sc = np.sqrt(D) * da + np.sqrt(R) * dm + 1e-9 * amp
    r.close("rows of the global matrix", (G / np.outer(sc, sc))[free], (want / np.outer(sc, sc))[free], 1e-11)
    off = G - np.diag(np.diag(G))
    r.true(not np.any(off[~free]), "rows of boundary functions")
    r.true(bool(np.all(np.diag(G)[~free] > 0)), "diagonal of boundary functions")
    r.true(not np.any(F[~free]), "load of boundary functions")
    # local loads add up
    tot = np.zeros(N)
    for sp in P.spaces.values():
        for v in sp.get_basis():
            tot[v.key.glob_idx] += P.form.eval_rhs(v)
    fsz = 1 + float(np.max(np.abs(tot))) if N else 1.0
    r.close("load of the other functions", F[free], tot[free], 1e-11, fsz)
    # the form by itself
    r.close("form of given products", P.form.eval_with_h1_and_l2(3.25, -1.5), 3.25 * D - 1.5 * R, 1e-13, 5 * (D + R) + 1.0)
    for sp in list(P.spaces.values())[:2]:
        B = sp.get_basis()
        for i, j in ((0, 0), (0, len(B) - 1), (len(B) - 1, 0), (len(B) // 2, len(B) - 1)):
            u, v = B[i], B[j]
            h, l = u.get_h1_semi_inner_prod(v), u.get_l2_inner_prod(v)
            sc = D * abs(h) + R * abs(l) + 1e-200
            r.close("form of two functions", P.form.eval(u, v), D * h + R * l, 1e-12, sc)
            r.close("form by its parts", D * P.form.eval_h1(u, v) + R * P.form.eval_l2(u, v), D * h + R * l, 1e-12, sc)
            r.close("gradients in the form", P.form.eval_h1(u, v), h, 1e-12, abs(h) + 1e-200)
            r.close("load of a function", P.form.eval_rhs(u), P.form.eval_rhs(u * 2.0) / 2.0, 1e-9, fsz)
    # exact quadratic forms of polynomials
    ps = [cut(p, deg) for p in s["p"]]
    ps[0] = ps[0] or pm.make([(1.0, 0, 0), (1.0, 1, 0)])
    ps.append(pm.make([(1.0, 0, 0)]))
    zs = [pull(p, cen, size) for p in ps]
    cs, here = [], []
    for p in zs:
        c, res = P.coef(p)
        here.append(res < 1e-6)
        r.le("polynomials are almost in the space", res, 0.0, 0.2)
        r.true(not np.any(np.isnan(c)), "coefficients for all functions")
        cs.append(c)
    ex = [Exact(p, None) for p in zs]
    pam = [max(sum(abs(float(x)) for x in p.values()), float(np.max(np.abs(c) * amp))) + 1e-9 for p, c in zip(ps, cs)]
    area = sum(x.area for x in regs.values())
    for i in range(3):
        if not here[i]:
            # only nearly in the space: the edges are almost straight
            r.label("polynomial nearly in the space")
            continue
        for j in range(i + 1):
            if not here[j]:
                continue
            h = sum(x.h1(ex[i], ex[j]) for x in regs.values())
            l = sum(x.l2(ex[i], ex[j]) for x in regs.values())
            # rounding: sizes of what is added up
            a2 = pam[i] * pam[j]
            r.close("stiffness of polynomials", cs[i] @ A @ cs[j], h, TOL, a2 * 3)
            r.close("mass of polynomials", cs[i] @ M @ cs[j] / area, l / area, TOL, a2)
        fe = Exact(f, None)
        famp = sum(abs(float(c)) for c in cut(s["f"], 3).values()) + 1e-9
        l = sum(x.l2(fe, ex[i]) for x in regs.values())
        r.close("load of polynomials", cs[i] @ tot / area, l / area, TOL, famp * pam[i])
        if pm.degree(f) <= deg:
            r.label("load in the space")
    ones = cs[2]
    if here[2]:
        r.close("constants are in the kernel", (A @ ones) / da, np.zeros(N), TOL * 10, 1.0)
    r.nt(len(P.labels) > 1 and any(h and pm.degree(p) > 0 for p, h in zip(ps, here)))


TOL = 1e-3


PROP = Prop(
    "C23",
    [
        Sub("assembly", cases(), check, quick=70, thorough=1500, shards=8, case_timeout=120,
            rule="meshes of up to four cells and a puncture, degrees 1 to 3, any constants and loads; non-trivial: at least two cells and a polynomial that is not constant"),
    ],
    warm=warm,
)
