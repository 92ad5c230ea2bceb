"""C06: histories of transformations and parameterizations of an edge."""

import copy

from hypothesis import strategies as st
import numpy as np

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import edge_specs, joinable, kappa, q, points, transforms
from ..geom import RefCurve, apply_op, build_edge
from ..ref import nodes


@st.composite
def histories(draw):
    e = draw(edge_specs())
    e["quad"] = draw(st.sampled_from(["kress", "kress", "trap"]))
    steps = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.integers(0, 9))
        if k <= 1:
            steps.append(["param", draw(st.integers(4, 12)), draw(st.integers(2, 8))])
        elif k == 2:
            steps.append(["deparam"])
        else:
            steps.append(draw(transforms()))
    steps.append(["param", draw(st.integers(4, 12)), draw(st.integers(2, 8))])
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.integers(0, 3)) == 0:
            steps.append(["reverse"])
        else:
            steps.append(draw(transforms()))
    return {"e": e, "steps": steps}


def compare(r, edge, rc, quad, n, p, size, msize, rev, tag):
    t, wgt = nodes(quad, n, p)
    z, d, dd = rc.eval(t)
    speed = np.abs(d)
    tang = d / speed
    curv = (dd * (-1j * tang).conjugate()).real / speed**2
    el = speed * wgt
    if rev:
        z, tang, curv, el = z[::-1], -tang[::-1], -curv[::-1], el[::-1]
    norm = -1j * tang
    tol = 1e-8
    r.close(tag + "points", edge.x, np.array([z.real, z.imag]), tol, size)
    r.close(tag + "unit tangent", edge.unit_tangent, np.array([tang.real, tang.imag]), tol, 1.0)
    r.close(tag + "unit normal", edge.unit_normal, np.array([norm.real, norm.imag]), tol, 1.0)
    r.close(tag + "arc length element", edge.dx_norm, el, tol, float(np.max(el)))
    cmin = 1e-3 / max(float(np.max(np.abs(z - z[0]))), 1e-300)
    r.close(tag + "curvature", edge.curvature, curv, 10 * tol, max(float(np.max(np.abs(curv))), cmin))


def check(s, r: Recorder):
    import puncturedfem as pf

    e = copy.deepcopy(s["e"])
    if not joinable(e):
        raise Rejected()
    quad = e["quad"]
    edge = build_edge(e, 3, 5, 7)
    rc = RefCurve(e)
    size = kappa(e)
    npar = None
    rev = False
    done = 0
    probe = np.linspace(0.0, 2 * np.pi, 33)
    for k, step in enumerate(s["steps"]):
        tag = f"step {k} ({step[0]}): "
        if step[0] == "param":
            edge.parameterize(pf.get_quad_dict(n=step[1], p=step[2]))
            npar = (step[1], step[2])
            rev = False
            r.label("param")
        elif step[0] == "deparam":
            edge.deparameterize()
            npar = None
            rev = False
        elif step[0] == "reverse":
            edge.reverse_orientation()
            rev = not rev
            r.label("reverse")
        else:
            if step[0] == "join":
                z0, z1 = rc.ends()
                if abs(z1 - z0) < 1e-5 * size or abs(z1 - z0) < 1e-4:
                    continue
                if rev:
                    # a reversal is not recorded: joining is ambiguous
                    continue
                apply_op(edge, step)
            else:
                apply_op(edge, step)
            m0 = abs(rc.m)
            rc.apply(step)
            z, _, _ = rc.eval(probe)
            size = max(size * abs(rc.m) / m0, float(np.max(np.abs(z))))
            done += 1
            r.label(step[0], "while parameterized" if npar else "while not parameterized")
        r.eq(tag + "is_parameterized", bool(edge.is_parameterized), npar is not None)
        if npar:
            compare(r, edge, rc, quad, npar[0], npar[1], size, abs(rc.m), rev, tag)
        r.eq("cells", (edge.pos_cell_idx, edge.neg_cell_idx), (3, 5))
    # sampling again (from the record of the transformations) gives the same
    # curve, on any number of points
    for n, p in ((5, 3), (9, 7)):
        edge.parameterize(pf.get_quad_dict(n=n, p=p))
        compare(r, edge, rc, quad, n, p, size, abs(rc.m), False, "sampled again: ")
    r.nt(done >= 2)
    if done >= 4:
        r.label("4+ transformations")


# the same maps applied to points


@st.composite
def point_cases(draw):
    n = draw(st.integers(2, 9))
    num = st.integers(-8, 8) | q(-5, 5, 100)
    return {
        "x": [[draw(num) for _ in range(n)] for _ in range(2)],
        "whole": draw(st.booleans()),
        "ops": draw(st.lists(transforms(), min_size=1, max_size=6)),
    }


def check_points(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.mesh import transform as tr
    from puncturedfem.mesh.mesh_exceptions import EdgeTransformationError

    x = np.array(s["x"])
    if not s["whole"] or x.dtype.kind != "i":
        x = np.array(s["x"], dtype=float)
    else:
        r.label("integer coordinates")
    z = x[0] + 1j * x[1]
    size = float(np.max(np.abs(z))) + 1.0
    for op in s["ops"]:
        name = op[0]
        if name == "join":  # vertices have floating-point coordinates
            x = x.astype(float)
        given = x.copy()
        if name == "translate":
            out, z = tr.translate(x, pf.Vert(op[1], op[2])), z + complex(op[1], op[2])
        elif name == "rotate":
            out, z = tr.rotate(x, op[1]), z * np.exp(1j * np.pi * op[1] / 180)
        elif name == "dilate":
            out, z = tr.dilate(x, op[1]), z * op[1]
        elif name == "reflect_x":
            out, z = tr.reflect_across_x_axis(x), z.conj()
        elif name == "reflect_y":
            out, z = tr.reflect_across_y_axis(x), -z.conj()
        elif name == "join":
            a, b = complex(*op[1]), complex(*op[2])
            A, B = pf.Vert(a.real, a.imag), pf.Vert(b.real, b.imag)
            r.raises("joining to one point", EdgeTransformationError, tr.join_points, x, A, pf.Vert(a.real, a.imag))
            if abs(z[-1] - z[0]) < 1e-4 * size:
                if z[-1] == z[0]:
                    r.raises("joining a closed curve", EdgeTransformationError, tr.join_points, x, A, B)
                r.eq("points after a rejected operation", x, given)
                continue
            out = tr.join_points(x, A, B)
            z = a + (z - z[0]) * (b - a) / (z[-1] - z[0])
            size *= max(1.0, abs(b - a) / abs(z[-1] - z[0])) * 10
        else:
            Q = np.array(op[1])
            out, z = tr.apply_orthogonal_transformation(x, Q), (Q[0, 0] * z.real + Q[0, 1] * z.imag) + 1j * (Q[1, 0] * z.real + Q[1, 1] * z.imag)
        r.label(name)
        size = max(size, float(np.max(np.abs(z))) + 1.0) * (max(1.0, abs(op[1])) if name == "dilate" else 1.0)
        r.eq(f"points given to {name}", x, given)
        r.true(not np.shares_memory(out, x), "the result is an array of its own")
        r.close(f"points after {name}", out, np.array([z.real, z.imag]), 1e-11, size)
        x = np.asarray(out)
    r.raises("factor 0", EdgeTransformationError, tr.dilate, x, 0.0)
    for Q in ([[1.0, 1.0], [0.0, 1.0]], [[2.0, 0.0], [0.0, 2.0]], [[1.0, 0.0]], np.eye(3), [[0.0, 0.0], [0.0, 0.0]]):
        r.raises("matrix that is not orthogonal", EdgeTransformationError, tr.apply_orthogonal_transformation, x, np.array(Q))
    r.nt(len(s["ops"]) > 1)


PROP = Prop(
    "C06",
    [
        Sub("points", point_cases(), check_points, quick=600, thorough=20000, shards=1,
            rule="sequences of the maps applied to arrays of points against complex numbers; non-trivial: two or more maps"),
        Sub(
            "histories",
            histories(),
            check,
            quick=2400,
            thorough=40000,
            shards=6,
            rule="an edge and a history of transformations, parameterizations "
            "and deparameterizations, checked after every step and again after "
            "a final re-sampling; non-trivial: two or more transformations",
        )
    ],
)
