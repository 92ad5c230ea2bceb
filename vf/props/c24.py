"""C24: solving the global problem."""

import cmath
import math

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import poly_terms, q, traps
from ..geom import TWO_PI, RefCurve
from ..glob import Problem, frame, library, pull, resolved
from ..harm import warm
from ..meshgen import cell_labels, edge, edges_of, label_mesh, mesh_specs, move, reverse
from .c19 import gaps
from .c23 import cut


# the discrete problem ---------------------------------------------------


@st.composite
def discrete_cases(draw):
    return {
        "mesh": draw(mesh_specs(big=True, nx=2, ny=2, max_punctures=1, min_cells=draw(st.sampled_from([1, 2, 2])))),
        "deg": draw(st.sampled_from([1, 1, 2, 2, 2, 3])),
        "n": draw(st.sampled_from([16, 16, 24])),
        "more": draw(st.integers(0, 2)) == 0,
        "D": draw(q(0.1, 5, 10) | st.just(1.0)),
        "R": draw(q(0.1, 20, 10) | st.just(0.0)),
        "f": [draw(poly_terms(deg=2, terms=3, lo=1)) for _ in range(2)],
        "w": [draw(q(-3, 3, 4)), draw(q(-3, 3, 4))],
        "scale": draw(st.sampled_from([0.5, 2.0, 10.0, 0.01])),
        "explicit": draw(st.booleans()),
        "inside": draw(st.integers(0, 3)) == 0,
        "amp": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-5, 1e6])),
    }


def solve(P, explicit):
    if explicit:
        P.solver.solve()
        u = P.solver.soln
    else:
        u = P.solver.get_solution()
    return np.asarray(u)


def check_discrete(s, r: Recorder):
    spec, deg = s["mesh"], s["deg"]
    label_mesh(spec, r)
    r.label(f"degree {deg}")
    n = resolved(spec, s["n"])
    cen, size = frame(spec)
    D, R = float(s["D"]), float(s["R"])
    fs = [pull(cut(f, 2) or pm.make([(1.0, 0, 0)]), cen, size) for f in s["f"]]
    P = Problem(spec, deg, n, D, R, library(fs[0]), interior=s["inside"], gradient=s["inside"])
    N = P.gfs.num_funs
    u = solve(P, s["explicit"])
    r.eq("shape of the solution", u.shape, (N,))
    r.true(bool(np.all(np.isfinite(u))), "the solution is finite")
    r.true(bool(np.array_equal(u, np.asarray(P.solver.get_solution()))), "the same solution again")
    r.close("zero on the boundary of the domain", u[~P.free], np.zeros(int(np.sum(~P.free))), 1e-12, float(np.max(np.abs(u))) + 1e-12)
    A, M = (np.asarray(m.todense()) for m in (P.solver.stiff_mat, P.solver.mass_mat))
    B = D * A + R * M
    loads = []
    for f in fs:
        P.form.set_rhs_poly(library(f))
        t = np.zeros(N)
        for sp in P.spaces.values():
            for v in sp.get_basis():
                t[v.key.glob_idx] += P.form.eval_rhs(v)
        loads.append(t)
    P.form.set_rhs_poly(library(fs[0]))
    i = np.flatnonzero(P.free)
    if len(i):
        size_of = np.abs(B[i]) @ np.abs(u) + np.abs(loads[0][i]) + 1e-12
        # elimination on matrices scaled like 1e20 loses digits of small terms
        size_of = np.maximum(size_of, np.sqrt(np.abs(np.diag(B)[i] * (u @ B @ u))))
        res = (B @ u - loads[0])[i] / size_of
        r.close("discrete equations", res, np.zeros(len(i)), 1e-8)
    # loads and constants that combine
    from puncturedfem import BilinearForm

    w0, w1 = float(s["w"][0]), float(s["w"][1])
    mix = pm.add(pm.scale(fs[0], w0), pm.scale(fs[1], w1)) if hasattr(pm, "scale") else pm.make(
        [(w0 * float(c), a, b) for (a, b), c in fs[0].items()] + [(w1 * float(c), a, b) for (a, b), c in fs[1].items()]
    )
    k = float(s["scale"])
    sols = []
    for d, c, f in () if not (s["more"] and len(i)) else ((D, R, fs[1]), (D, R, mix), (k * D, k * R, fs[0])):
        P2 = Problem(spec, deg, n, d, c, library(f))
        sols.append(solve(P2, not s["explicit"]))
    if sols:
        # energy norm of the difference relative to those of the parts
        ref = [math.sqrt(abs(x @ B @ x)) for x in (u, sols[0])]
        top = abs(w0) * ref[0] + abs(w1) * ref[1] + 1e-12
        d = sols[1] - w0 * u - w1 * sols[0]
        r.close("linear in the load", math.sqrt(abs(d @ B @ d)), 0.0, 1e-4, top)
        d = sols[2] * k - u
        r.close("common factor of the constants", math.sqrt(abs(d @ B @ d)), 0.0, 1e-4, ref[0] + 1e-12)
        # the same solver with another form
        P.solver.set_bilinear_form(BilinearForm(diffusion_constant=k * D, reaction_constant=k * R, rhs_poly=library(mix)))
        P.solver.assemble(verbose=False, compute_interior_values=s["inside"], compute_interior_gradient=s["inside"])
        P.solver.solve()
        again = np.asarray(P.solver.soln, dtype=float)
        d = again * k - sols[1]
        r.close("solver used again with another form", math.sqrt(abs(d @ B @ d)), 0.0, 1e-4, top)
    # restriction to the cells
    co = np.arange(1, N + 1) * np.where(np.arange(N) % 2, 1.0, -1.0) / N * float(s["amp"])
    for c in P.labels:
        basis = P.spaces[c].get_basis()
        loc = np.asarray(P.solver.get_coef_on_mesh_cell(c, co))
        r.eq("coefficients on a cell", loc.tolist(), [float(co[v.key.glob_idx]) for v in basis])
        if s["inside"]:
            f = P.solver.compute_linear_combo_on_mesh_cell(c, co)
            for name, get in (("values", lambda v: v.int_vals), ("trace", lambda v: v.get_trace_values()),
                              ("gradient", lambda v: v.int_grad1), ("gradient", lambda v: v.int_grad2)):
                want = sum(x * np.asarray(get(v)) for x, v in zip(loc, basis))
                top = sum(abs(x) * np.abs(np.asarray(get(v))) for x, v in zip(loc, basis))
                sc = max(float(np.max(top)), 1e-30) if len(top) else 1.0
                if len(want):
                        r.close("combination on a cell: " + name, get(f), want, 1e-9, sc)
            r.label("combinations")
    r.label("some free functions" if len(i) else "no free functions")
    r.nt(len(i) > 1 and bool(np.any(u)))


# exact solutions --------------------------------------------------------


@st.composite
def spoke(draw):
    """A side of which the degree can be told."""
    if draw(st.integers(0, 2)):
        return ["line"]
    t = draw(q(0.3, 0.6, 100))
    return ["arc", t if draw(st.booleans()) else -t]


@st.composite
def domains(draw):
    """A mesh of a domain and a polynomial vanishing on its boundary."""
    kind = draw(st.sampled_from(["ellipse", "ellipse", "sectors", "sectors", "triangle", "segment"]))
    edges, spots = [], []
    need = 2
    one = pm.make([(1.0, 0, 0)])
    x, y = pm.make([(1.0, 1, 0)]), pm.make([(1.0, 0, 1)])
    if kind == "ellipse":
        a, b = draw(q(0.7, 1.5, 10)), draw(q(0.7, 1.5, 10))
        if draw(st.booleans()):
            a = b = 1.0
            e = {"type": "circle", "opts": {}}
        else:
            e = {"type": "ellipse", "opts": {"a": a, "b": b}}
        e.update(a=[0.0, 0.0], b=[0.0, 0.0], pos="c0", neg=None, ai=None, bi=None)
        edges.append(e)
        p = pm.make([(1.0, 0, 0), (-1 / a**2, 2, 0), (-1 / b**2, 0, 2)])
        spots = [("c0", complex(s1 * 0.4 * a, s2 * 0.15 * b), 0.25 * min(a, b)) for s1, s2 in ((1, 1), (-1, -1))]
    elif kind == "sectors":
        k = draw(st.integers(3, 5))
        ph = draw(q(0.0, 6.0, 100))
        ang = [ph + TWO_PI / k * (i + draw(q(-0.1, 0.1, 100))) for i in range(k)]
        z = [cmath.exp(1j * t) for t in ang]
        o = complex(draw(q(-0.1, 0.1, 100)), draw(q(-0.1, 0.1, 100)))
        for i in range(k):
            kd = draw(spoke())
            edges.append(edge(["arc", 0.2 if kd[1] > 0 else -0.2] if kd[0] == "arc" else kd, o, z[i], f"c{i}", f"c{(i - 1) % k}", "o", ("z", i)))
            d = ang[(i + 1) % k] + (TWO_PI if i == k - 1 else 0.0) - ang[i]
            edges.append(edge(["arc", -0.5 * d], z[i], z[(i + 1) % k], f"c{i}", None, ("z", i), ("z", (i + 1) % k)))
            if k < 5:
                spots.append((f"c{i}", 0.6 * cmath.exp(1j * (ang[i] + 0.5 * d)), 0.18))
        p = pm.make([(1.0, 0, 0), (-1.0, 2, 0), (-1.0, 0, 2)])
    elif kind == "triangle":
        need = 3
        z = [complex(draw(q(-0.1, 0.1, 100)), draw(q(-0.1, 0.1, 100))) + cmath.exp(1j * (0.3 + TWO_PI * i / 3)) for i in range(3)]
        split = draw(st.booleans())
        for i in range(3):
            edges.append(edge(["line"], z[i], z[(i + 1) % 3], f"c{i}" if split else "c0", None, i, (i + 1) % 3))
        g = sum(z) / 3
        if split:
            for i in range(3):
                kd = draw(st.sampled_from([["line"], ["arc", 0.1], ["arc", -0.1]]))
                edges.append(edge(kd, g, z[i], f"c{i}", f"c{(i - 1) % 3}", "g", i))
        else:
            spots.append(("c0", g, 0.25))
        p = one
        for i in range(3):
            u, v = z[i], z[(i + 1) % 3] - z[i]
            # positive on the left
            p = pm.mul(p, pm.make([(v.real, 0, 1), (-v.real * u.imag, 0, 0), (-v.imag, 1, 0), (v.imag * u.real, 0, 0)]))
    else:
        need = 3
        # between the chord from -1 to 1 and an arc above it
        t = draw(q(0.8, 1.5, 100))
        split = draw(st.booleans())
        if split:
            top = 1j * math.tan(0.5 * t)
            edges.append(edge(["line"], -1 + 0j, 0j, "c0", None, 0, 2))
            edges.append(edge(["line"], 0j, 1 + 0j, "c1", None, 2, 1))
            edges.append(edge(["arc", -0.5 * t], 1 + 0j, top, "c1", None, 1, 3))
            edges.append(edge(["arc", -0.5 * t], top, -1 + 0j, "c0", None, 3, 0))
            edges.append(edge(draw(spoke()), 0j, top, "c0", "c1", 2, 3))
        else:
            edges.append(edge(["line"], -1 + 0j, 1 + 0j, "c0", None, 0, 1))
            edges.append(edge(["arc", -t], 1 + 0j, -1 + 0j, "c0", None, 1, 0))
            hgt = math.tan(0.5 * t)
            spots.append(("c0", 0.5j * hgt, 0.5 * hgt * 0.7))
        # circle through -1 and 1 of half angle t: centre -i cot t, radius 1 / sin t
        c = 1 / math.tan(t)
        p = pm.mul(y, pm.make([(1 / math.sin(t) ** 2 - c * c, 0, 0), (-1.0, 2, 0), (-1.0, 0, 2), (-2 * c, 0, 1)]))
    # filled punctures
    m = draw(st.integers(0, min(2, len(spots))))
    for j in range(m):
        c, z0, rad = spots[j]
        if draw(st.integers(0, 2)):
            e = {"type": draw(st.sampled_from(["circle", "ellipse"])), "opts": {}, "a": [0.0, 0.0], "b": [0.0, 0.0], "ai": None, "bi": None}
            if e["type"] == "ellipse":
                e["opts"] = {"a": 1.0, "b": draw(q(0.6, 1.0, 10))}
            e["ops"] = [["dilate", round(0.8 * rad, 3)], ["rotate", draw(q(-180.0, 180.0, 1))], ["translate", round(z0.real, 4), round(z0.imag, 4)]]
            e["pos"], e["neg"] = f"f{j}", c
            edges.append(e)
        else:
            k = draw(st.integers(3, 4))
            ph = draw(q(0.0, 6.0, 100))
            zz = [z0 + 0.8 * rad * cmath.exp(1j * (ph + TWO_PI * i / k)) for i in range(k)]
            for i in range(k):
                edges.append(edge(["line"], zz[i], zz[(i + 1) % k], f"f{j}", c, ("f", j, i), ("f", j, (i + 1) % k)))
    # labels, orders, similarity
    cells = sorted({c for e in edges for c in (e["pos"], e["neg"]) if c is not None})
    verts = sorted({v for e in edges for v in (e["ai"], e["bi"]) if v is not None}, key=str)
    cm = dict(zip(cells, draw(st.permutations(list(range(len(cells)))))))
    vm = dict(zip(verts, draw(st.permutations(list(range(len(verts)))))))
    sim = [1.0, 0.0, 0.0, 0.0]
    if draw(st.booleans()):
        sim = [draw(q(0.4, 2.5, 10)), draw(q(-180.0, 180.0, 1)), draw(q(-2.0, 2.0, 10)), draw(q(-2.0, 2.0, 10))]
    out = []
    for e in edges:
        e = reverse(e) if draw(st.booleans()) and e["a"] != e["b"] else dict(e)
        e["pos"] = -1 if e["pos"] is None else cm[e["pos"]]
        e["neg"] = -1 if e["neg"] is None else cm[e["neg"]]
        e["ai"] = -1 if e["ai"] is None else vm[e["ai"]]
        e["bi"] = -1 if e["bi"] is None else vm[e["bi"]]
        out.append(move(e, sim))
    out = list(draw(st.permutations(out)))
    return {"kind": kind, "edges": out, "sim": sim, "trap": draw(traps()), "p": [[float(c), i, j] for (i, j), c in p.items()], "need": need}


@st.composite
def exact_cases(draw):
    d = draw(domains())
    return {
        "mesh": d,
        "deg": draw(st.sampled_from([2, 2, 3])) if d["need"] == 2 else 3,
        "n": draw(st.sampled_from([32, 40])),
        "D": draw(q(0.2, 3, 10) | st.just(1.0)),
        "R": draw(q(0.1, 10, 10) | st.just(0.0)),
        "factor": draw(q(0.25, 3, 4)),
        "inside": draw(st.integers(0, 3)) == 0,
    }


TOL = 1e-3


def check_exact(s, r: Recorder):
    m = s["mesh"]
    label_mesh(m, r)
    n = resolved(m, s["n"])
    sc, rot, tx, ty = m["sim"]
    mult = sc * cmath.exp(1j * math.pi * rot / 180)
    # p at (z - t) / mult
    iv = 1 / mult
    px = pm.make([(iv.real, 1, 0), (-iv.imag, 0, 1), (-(iv * complex(tx, ty)).real, 0, 0)])
    py = pm.make([(iv.imag, 1, 0), (iv.real, 0, 1), (-(iv * complex(tx, ty)).imag, 0, 0)])
    k = float(s["factor"]) or 1.0
    p = pm.compose(pm.make([(k * c, i, j) for c, i, j in m["p"]]), px, py)
    for e in m["edges"]:
        if -1 in (e["pos"], e["neg"]):
            z = RefCurve(e).gauss(pieces=2)[0]
            r.close("harness: exact solution on the boundary", pm.eval_float(p, z.real, z.imag), np.zeros(len(z)), 1e-8, k * 3)
    D, R = float(s["D"]), float(s["R"])
    lap = pm.laplacian(p)
    f = pm.make([(-D * float(c), i, j) for (i, j), c in lap.items()] + [(R * float(c), i, j) for (i, j), c in p.items()])
    P = Problem(m, s["deg"], n, D, R, library(f), interior=s["inside"])
    want, res = P.coef(p, k)
    if res > 1e-7:
        raise Rejected()
    u = solve(P, True)
    A, M = (np.asarray(x.todense()) for x in (P.solver.stiff_mat, P.solver.mass_mat))
    B = D * A + R * M
    d = u - want
    ref = math.sqrt(abs(want @ B @ want))
    r.close("solution of a problem with a known one: energy of the error", math.sqrt(abs(d @ B @ d)), 0.0, 10 * TOL, ref)
    # exact energy
    from ..glob import Exact

    e = Exact(p, None)
    regs = P.regions()
    en = sum(D * g.h1(e, e) + R * g.l2(e, e) for g in regs.values())
    r.close("energy of the solution", (u @ B @ u) / en, 1.0, TOL)
    l2 = sum(g.l2(e, e) for g in regs.values())
    r.close("mean square of the solution", (u @ M @ u) / l2, 1.0, 5 * TOL)
    top = k * 0.5
    if s["inside"]:
        for c in P.labels:
            w = P.solver.compute_linear_combo_on_mesh_cell(c, u)
            cell = P.spaces[c].nyst.K
            z = np.asarray(cell.int_x1) + 1j * np.asarray(cell.int_x2)
            if not len(z):
                continue
            ok = gaps(cell, z) > 3
            r.close("values of the solution", np.asarray(w.int_vals)[ok], pm.eval_float(p, z.real, z.imag)[ok], 20 * TOL, top)
            r.label("values")
    # vertices
    for sp in P.spaces.values():
        for v in sp.vert_funs:
            for g in m["edges"]:
                for a, i in ((g["a"], g["ai"]), (g["b"], g["bi"])):
                    if i == v.key.vert_idx:
                        x = float(pm.eval_float(p, np.array([a[0]]), np.array([a[1]]))[0])
                        r.close("solution at a vertex", u[v.key.glob_idx], x, 20 * TOL, top)
    r.label("reaction" if R else "no reaction", f"degree {s['deg']}")
    r.nt()


# concentric rings -------------------------------------------------------


@st.composite
def ring_cases(draw):
    m = draw(st.integers(2, 3))
    rad = sorted(draw(st.lists(st.integers(20, 100), min_size=m, max_size=m, unique=True)))
    if any(b < 1.3 * a for a, b in zip(rad, rad[1:])):
        rad = [25, 60, 100][:m]
    return {
        "rad": rad,
        "cell": list(draw(st.permutations(list(range(m - 1))))),
        "flip": [draw(st.booleans()) for _ in rad],
        "deg": draw(st.sampled_from([2, 2, 3])),
        "n": draw(st.sampled_from([32, 40])),
        "D": draw(q(0.2, 3, 10)),
        "f": draw(q(-3, 3, 4)) or 1.0,
        "c": [draw(q(-2, 2, 4)), draw(q(-2, 2, 4))],
        "trap": draw(traps()),
    }


def check_rings(s, r: Recorder):
    rad = [x / 50 for x in s["rad"]]
    edges = []
    for k, a in enumerate(rad):
        # the circle runs counterclockwise: inner cell on the left
        left = s["cell"][k - 1] if k else -1
        right = s["cell"][k] if k < len(rad) - 1 else -1
        e = {"type": "circle", "opts": {}, "a": [0.0, 0.0], "b": [0.0, 0.0], "ai": -1, "bi": -1, "pos": left, "neg": right}
        e["ops"] = [["dilate", a], ["translate", *map(float, s["c"])]]
        edges.append(e)
    spec = {"kind": "annulus", "edges": edges, "sim": [1.0, 0.0, 0.0, 0.0], "trap": s["trap"]}
    label_mesh(spec, r)
    D, f = float(s["D"]), float(s["f"])
    n = resolved(spec, s["n"])
    P = Problem(spec, s["deg"], n, D, 0.0, library(pm.make([(f, 0, 0)])))
    u = solve(P, True)
    A, M = (np.asarray(x.todense()) for x in (P.solver.stiff_mat, P.solver.mass_mat))
    # u = g (-r^2 + a + b ln r) with g = f / (4 D)
    r0, r1 = rad[0], rad[-1]
    g = f / (4 * D)
    b = (r1**2 - r0**2) / math.log(r1 / r0)
    a = r0**2 - b * math.log(r0)
    t, w = np.polynomial.legendre.leggauss(60)
    t, w = 0.5 * (r1 - r0) * t + 0.5 * (r1 + r0), 0.5 * (r1 - r0) * w
    val, der = g * (-(t**2) + a + b * np.log(t)), g * (-2 * t + b / t)
    r.close("energy on an annulus", u @ A @ u, float(np.sum(der**2 * t * w)) * TWO_PI, TOL, abs(u @ A @ u))
    l2 = float(np.sum(val**2 * t * w)) * TWO_PI
    r.close("mean square on an annulus", (u @ M @ u) / l2, 1.0, 5 * TOL)
    for sp in P.spaces.values():
        for v in sp.get_basis():
            if v.key.is_on_boundary:
                r.eq("zero on the boundary", float(u[v.key.glob_idx]), 0.0)
    r.nt()


PROP = Prop(
    "C24",
    [
        Sub("discrete", discrete_cases(), check_discrete, quick=24, thorough=1200, shards=8, case_timeout=200,
            rule="any meshes, degrees, constants and loads; non-trivial: at least two free functions and a solution that is not zero"),
        Sub("exact", exact_cases(), check_exact, quick=24, thorough=1200, shards=8, case_timeout=200,
            rule="meshes of ellipses, discs, triangles and circular segments with a polynomial solution in the space; non-trivial: always"),
        Sub("rings", ring_cases(), check_rings, quick=8, thorough=300, shards=8, case_timeout=200,
            rule="annuli of one or two cells, solution with a logarithm; non-trivial: always"),
    ],
    warm=warm,
)
