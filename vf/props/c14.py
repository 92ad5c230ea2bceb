"""C14: Dirichlet traces."""

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import build_cell, cell_specs, contour_sizes, describe, edge_specs, joinable, poly_terms, q, quads, tuples
from ..geom import build_edge

FUNS = {
    "sin": lambda x, y: np.sin(x) + 2 * y,
    "exp": lambda x, y: np.exp(-0.1 * (x * x + y * y)),
    "x": lambda x, y: x,
    "const": lambda x, y: 1.5 + 0 * x,
}


@st.composite
def ops(draw):
    name = draw(
        st.sampled_from(
            ["values", "values_list", "values_scalar", "edge_values", "edge_scalar",
             "wnd", "wnd_list", "wnd_edge", "wtd", "wtd_list", "wtd_edge", "wnd_scalar", "wtd_scalar",
             "funcs", "funcs_list", "func_edge", "poly_edge", "polys", "poly_all",
             "shared_list", "add", "sub", "mul", "rmul", "div", "find"]
        )
    )
    return [
        name,
        draw(st.integers(0, 7)),
        draw(st.integers(0, 7)),
        draw(st.integers(0, 30)),
        draw(q(-4, 4, 8).filter(lambda c: c != 0) | st.integers(1, 5)),
        draw(st.lists(st.sampled_from(sorted(FUNS)), min_size=1, max_size=4)),
        draw(poly_terms(deg=3, terms=3)),
        draw(poly_terms(deg=2, terms=2)),
    ]


@st.composite
def cases(draw):
    if draw(st.booleans()):
        c = draw(cell_specs(max_holes=2, many=6))
        where = {"cell": c, "order": list(draw(st.permutations(list(range(sum(contour_sizes(c)))))))}
    else:
        es = draw(st.lists(edge_specs().filter(joinable), min_size=1, max_size=4))
        where = {"edges": es}
    return {"where": where, "n": draw(st.integers(4, 16)), "again": draw(st.sampled_from([0, 4, 7, 20])), "ops": draw(st.lists(ops(), min_size=1, max_size=12)),
            "start": draw(st.sampled_from(["custom", "funcs", "values", "scalar", "list", "poly"])),
            "known": draw(st.sampled_from([["wnd"], ["wtd"], ["wnd", "wtd"], []])),
            "f": draw(st.sampled_from(sorted(FUNS))), "c": draw(q(-4, 4, 8)), "p": draw(poly_terms(deg=3, terms=3))}


def noise(seed, n):
    """Values without a pattern."""
    k = np.arange(1, n + 1)
    return np.sin(12.9898 * k + 78.233 * (seed + 1)) * 3.0


class Model:
    """What a trace should hold."""

    def __init__(self, n):
        self.v = np.zeros(n)
        self.wnd = None
        self.wtd = None
        self.funs = None

    def copy(self):
        m = Model(len(self.v))
        m.v = self.v.copy()
        m.wnd = None if self.wnd is None else self.wnd.copy()
        m.wtd = None if self.wtd is None else self.wtd.copy()
        return m

    @staticmethod
    def combine(a, b, op):
        m = Model(len(a.v))
        m.v = op(a.v, b.v)
        if a.wnd is not None and b.wnd is not None:
            m.wnd = op(a.wnd, b.wnd)
        if a.wtd is not None and b.wtd is not None:
            m.wtd = op(a.wtd, b.wtd)
        return m


def check(s, r: Recorder):
    import puncturedfem as pf

    w = s["where"]
    qd = pf.get_quad_dict(n=s["n"], p=7)
    if "cell" in w:
        where, _ = build_cell(w["cell"], n=s["n"], order=w["order"])
        edges = where.get_edges()
        x, y = where.get_boundary_points()
        describe(w["cell"], r)
        npts = where.num_pts
    else:
        edges = [build_edge(e, 0, -1, i) for i, e in enumerate(w["edges"])]
        for e in edges:
            e.parameterize(qd)
        where = edges
        x = np.concatenate([e.x[0, :-1] for e in edges])
        y = np.concatenate([e.x[1, :-1] for e in edges])
        npts = sum(e.num_pts - 1 for e in edges)
        r.label("list of edges")
    x, y = np.asarray(x), np.asarray(y)
    if float(np.max(np.abs(x))) + float(np.max(np.abs(y))) > 1e3:
        r.label("far away")
    ne = len(edges)
    ends = np.cumsum([0] + [e.num_pts - 1 for e in edges]).tolist()
    part = [slice(i, j) for i, j in zip(ends, ends[1:])]
    mk = [j - i for i, j in zip(ends, ends[1:])]
    if len(set(mk)) > 1:
        r.label("different numbers of points")
    r.eq("number of points", npts, ends[-1])

    def ev(f, k=None):
        sl = slice(None) if k is None else part[k]
        if isinstance(f, dict):
            return pm.eval_float(f, x[sl], y[sl])
        return FUNS[f](x[sl], y[sl]) + 0.0 * x[sl]

    def fn(f):
        return pf.Polynomial(pm.terms(f)) if isinstance(f, dict) else FUNS[f]

    # construct
    a = Model(npts)
    st_ = s["start"]
    r.label("from " + st_)
    if st_ == "custom":
        t = pf.DirichletTrace(where, custom=True)
        t.set_trace_values(0.0)
    elif st_ == "funcs":
        t = pf.DirichletTrace(where, funcs=FUNS[s["f"]])
        a.v, a.funs = ev(s["f"]), [s["f"]] * ne
    elif st_ == "poly":
        p = pm.make(s["p"])
        t = pf.DirichletTrace(where, funcs=fn(p))
        a.v, a.funs = ev(p), [p] * ne
    elif st_ == "values":
        a.v = noise(0, npts)
        t = pf.DirichletTrace(where, values=a.v.copy())
    elif st_ == "scalar":
        a.v = np.full(npts, s["c"])
        t = pf.DirichletTrace(where, values=s["c"])
    else:
        vals = [noise(k, mk[k]) if k % 2 else s["c"] for k in range(ne)]
        t = pf.DirichletTrace(where, values=[v.copy() if k % 2 else v for k, v in enumerate(vals)])
        for k in range(ne):
            a.v[part[k]] = vals[k]
    ts, ms = [t], [a]

    def verify(name):
        for i, (u, b) in enumerate(zip(ts, ms)):
            sc = max(1.0, float(np.max(np.abs(b.v))))
            r.close(f"{name}, trace {i}: values", u.values, b.v, 1e-11, sc)
            for what, lib, mod in (("normal derivative", u.w_norm_deriv, b.wnd), ("tangential derivative", u.w_tang_deriv, b.wtd)):
                if mod is None:
                    r.true(lib is None, f"{name}, trace {i}: {what} should not be set")
                else:
                    r.close(f"{name}, trace {i}: {what}", lib, mod, 1e-11, max(1.0, float(np.max(np.abs(mod)))))

    verify("start")
    for k in range(ne):
        r.eq("points of an edge", tuple(int(v) for v in t.get_edge_sampled_point_indices(k)), (ends[k], ends[k + 1]))
    for o in s["ops"]:
        name, i, j, k, c, fs, p1, p2 = o
        i, j, k = i % len(ts), j % len(ts), k % ne
        u, b = ts[i], ms[i]
        r.label(name)
        if name == "values":
            b.v = noise(k, npts)
            given = b.v.copy()
            u.set_trace_values(given)
            given += 1.0  # the trace keeps its own values
        elif name == "values_list":
            vals = [noise(z + 3, mk[z]) if z % 2 == k % 2 else c * z for z in range(ne)]
            u.set_trace_values([v for v in vals])
            b.v = np.concatenate([np.full(mk[z], float(v)) if np.ndim(v) == 0 else v for z, v in enumerate(vals)])
        elif name == "values_scalar":
            b.v = np.full(npts, float(c))
            u.set_trace_values(c)
        elif name == "edge_values":
            b.v[part[k]] = noise(k + 9, mk[k])
            u.set_trace_values_on_edge(k, noise(k + 9, mk[k]))
        elif name == "edge_scalar":
            b.v[part[k]] = c
            u.set_trace_values_on_edge(k, c)
        elif name in ("wnd", "wtd"):
            vals = noise(k + 20, npts)
            setattr(b, name, vals.copy())
            (u.set_weighted_normal_derivative if name == "wnd" else u.set_weighted_tangential_derivative)(vals)
            vals += 1.0
        elif name in ("wnd_scalar", "wtd_scalar"):
            setattr(b, name[:3], np.full(npts, float(c)))
            (u.set_weighted_normal_derivative if name[:3] == "wnd" else u.set_weighted_tangential_derivative)(c)
        elif name in ("wnd_list", "wtd_list"):
            vals = [noise(z + 30, mk[z]) if (z + k) % 2 else c for z in range(ne)]
            setattr(b, name[:3], np.concatenate([np.full(mk[z], float(v)) if np.ndim(v) == 0 else v for z, v in enumerate(vals)]))
            (u.set_weighted_normal_derivative if name[:3] == "wnd" else u.set_weighted_tangential_derivative)(vals)
        elif name in ("wnd_edge", "wtd_edge"):
            vals = noise(k + 40, mk[k])
            cur = getattr(b, name[:3])
            cur = np.zeros(npts) if cur is None else cur.copy()
            cur[part[k]] = vals
            setattr(b, name[:3], cur)
            (u.set_weighted_normal_derivative_on_edge if name[:3] == "wnd" else u.set_weighted_tangential_derivative_on_edge)(k, vals)
        elif name == "funcs":
            b.v, b.funs = ev(fs[0]), [fs[0]] * ne
            u.set_funcs(FUNS[fs[0]])
        elif name == "funcs_list":
            p = pm.make(p1)
            lst = [fs[z % len(fs)] if z % 3 else p for z in range(ne)]
            b.v, b.funs = np.concatenate([ev(f, z) for z, f in enumerate(lst)]), lst
            u.set_funcs([fn(f) for f in lst])
        elif name == "shared_list":
            lst = [fs[z % len(fs)] for z in range(ne)]
            given = [fn(f) for f in lst]
            keep = list(given)
            u.set_funcs(given)
            u.set_func_on_edge(k, FUNS["x"])
            r.true(all(g is h for g, h in zip(given, keep)), "the caller's list of functions was changed")
            u.find_values()
            lst[k] = "x"
            b.v, b.funs = np.concatenate([ev(f, z) for z, f in enumerate(lst)]), lst
        elif name == "poly_all":
            p = pm.make(p1)
            b.v, b.funs = ev(p), [p] * ne
            u.set_funcs_from_polys(fn(p))
        elif name == "polys":
            lst = [pm.make(p1), pm.make(p2)]
            lst = [lst[z % 2] for z in range(ne)]
            b.v, b.funs = np.concatenate([ev(f, z) for z, f in enumerate(lst)]), lst
            u.set_funcs_from_polys([fn(f) for f in lst])
        elif name in ("func_edge", "poly_edge", "find"):
            if b.funs is None:
                continue
            b.funs = list(b.funs)
            if name == "func_edge":
                b.funs[k] = fs[0]
                u.set_func_on_edge(k, FUNS[fs[0]])
                u.find_values()
            elif name == "poly_edge":
                b.funs[k] = pm.make(p1)
                u.set_func_from_poly_on_edge(k, fn(b.funs[k]))
            else:
                u.find_values()
            b.v = np.concatenate([ev(f, z) for z, f in enumerate(b.funs)])
        elif name in ("add", "sub"):
            if len(ts) > 6:
                continue
            op = (lambda g, h: g + h) if name == "add" else (lambda g, h: g - h)
            ts.append(op(u, ts[j]))
            ms.append(Model.combine(b, ms[j], op))
        else:
            if len(ts) > 6:
                continue
            new = b.copy()
            fac = 1.0 / c if name == "div" else c
            new.v = new.v * fac
            new.wnd = None if new.wnd is None else new.wnd * fac
            new.wtd = None if new.wtd is None else new.wtd * fac
            ts.append(u / c if name == "div" else (u * c if name == "mul" else c * u))
            ms.append(new)
        verify(name)
    # derivatives are known of a combination only if known of both
    plain, rich = pf.DirichletTrace(where, values=noise(50, npts)), pf.DirichletTrace(where, values=noise(51, npts))
    one, both = Model(npts), Model(npts)
    one.v, both.v = noise(50, npts), noise(51, npts)
    for what in s["known"]:
        setattr(both, what, noise(52, npts))
        (rich.set_weighted_normal_derivative if what == "wnd" else rich.set_weighted_tangential_derivative)(noise(52, npts))
    for op in (lambda g, h: g + h, lambda g, h: g - h):
        for (u, b), (u2, b2) in (((plain, one), (rich, both)), ((rich, both), (plain, one)), ((rich, both), (rich, both)), ((ts[-1], ms[-1]), (rich, both)), ((rich, both), (ts[-1], ms[-1]))):
            ts.append(op(u, u2))
            ms.append(Model.combine(b, b2, op))
    verify("known derivatives")
    # the same functions on edges sampled anew
    with_funs = [k for k, b in enumerate(ms) if b.funs is not None]
    if with_funs and s["again"]:
        n2 = s["again"]
        qd2 = quads(w["cell"], n2) if "cell" in w else pf.get_quad_dict(n=n2, p=7)
        r.label("sampled anew")
        for e in edges:
            e.parameterize(qd2)
        x = np.concatenate([e.x[0, :-1] for e in edges])
        y = np.concatenate([e.x[1, :-1] for e in edges])
        ends = np.cumsum([0] + [e.num_pts - 1 for e in edges]).tolist()
        part = [slice(i, j) for i, j in zip(ends, ends[1:])]
        for k in with_funs:
            u, b = ts[k], ms[k]
            u.find_values()
            want = np.concatenate([ev(f, z) for z, f in enumerate(b.funs)])
            r.eq("number of points when sampled anew", (u.num_pts, len(u.values)), (ends[-1],) * 2)
            r.close("values when sampled anew", u.values, want, 1e-11, max(1.0, float(np.max(np.abs(want)))) * 10)
            r.eq("places of the edges when sampled anew", [tuple(u.get_edge_sampled_point_indices(z)) for z in range(ne)], [(p.start, p.stop) for p in part])
            u.set_trace_values_on_edge(ne - 1, 2.5)
            want[part[ne - 1]] = 2.5
            r.close("values on an edge sampled anew", u.values, want, 1e-11, max(1.0, float(np.max(np.abs(want)))) * 10)
    r.nt(ne > 1 and len(s["ops"]) > 1)


@st.composite
def bad(draw):
    return {
        "edges": draw(st.lists(edge_specs().filter(joinable), min_size=1, max_size=3)),
        "what": draw(st.sampled_from(["len", "list", "edge len", "edge idx", "func idx", "div0", "add", "mul", "edges", "polys", "funcs"])),
        "d": draw(st.sampled_from([-2, -1, 1, 5])),
    }


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    edges = [build_edge(e, 0, -1, i) for i, e in enumerate(s["edges"])]
    for e in edges:
        e.parameterize(pf.get_quad_dict(n=6, p=7))
    n, ne, d = 12 * len(edges), len(edges), s["d"]
    t = pf.DirichletTrace(edges, values=noise(1, n))
    w = s["what"]
    r.label(w)
    r.nt()
    if w == "len":
        r.raises("wrong number of values", ValueError, t.set_trace_values, np.zeros(n + d))
        r.raises("wrong number of values", ValueError, t.set_weighted_normal_derivative, np.zeros(n + d))
        r.raises("wrong number of values", ValueError, t.set_weighted_tangential_derivative, np.zeros(n + d))
    elif w == "list":
        k = ne + abs(d)
        r.raises("wrong number of edges", ValueError, t.set_trace_values, [1.0] * k)
        r.raises("not a number", ValueError, t.set_trace_values, ["x"] * ne)
    elif w == "edge len":
        r.raises("wrong number of values", ValueError, t.set_trace_values_on_edge, 0, np.zeros(12 + d))
        r.raises("wrong number of values", ValueError, t.set_weighted_normal_derivative_on_edge, 0, np.zeros(12 + d))
        r.raises("wrong number of values", ValueError, t.set_weighted_tangential_derivative_on_edge, 0, np.zeros(12 + d))
    elif w == "edge idx":
        k = -abs(d) if d < 0 else ne - 1 + d
        r.raises("no such edge", ValueError, t.set_trace_values_on_edge, k, 1.0)
        r.raises("no such edge", ValueError, t.set_weighted_normal_derivative_on_edge, k, 1.0)
        r.raises("no such edge", ValueError, t.set_weighted_tangential_derivative_on_edge, k, 1.0)
    elif w == "func idx":
        t = pf.DirichletTrace(edges, funcs=FUNS["x"])
        k = -abs(d) if d < 0 else ne - 1 + d
        r.raises("no such edge", ValueError, t.set_func_on_edge, k, FUNS["sin"])
        r.raises("no such edge", ValueError, t.set_func_from_poly_on_edge, k, pf.Polynomial([(1.0, 0, 0)]))
    elif w == "div0":
        r.raises("division by zero", ValueError, lambda: t / 0)
        r.raises("division by zero", ValueError, lambda: t / 0.0)
    elif w == "add":
        r.raises("adding a number", ValueError, lambda: t + 1.0)
        if ne > 1:
            o = pf.DirichletTrace(edges[:-1], values=1.0)
            r.raises("different numbers of edges", ValueError, lambda: t + o)
    elif w == "mul":
        r.raises("not a number", ValueError, lambda: t * "x")
        r.raises("not a number", ValueError, lambda: t / "x")
    elif w == "edges":
        r.raises("not edges", ValueError, pf.DirichletTrace, [1] * ne)
        r.raises("not edges", ValueError, pf.DirichletTrace, "x")
    elif w == "polys":
        r.raises("not polynomials", ValueError, t.set_funcs_from_polys, [1.0] * ne)
        r.raises("not polynomials", ValueError, t.set_funcs_from_polys, 1.0)
        r.raises("wrong number", ValueError, t.set_funcs_from_polys, [pf.Polynomial()] * (ne + 1))
    elif w == "funcs":
        r.raises("wrong number", ValueError, t.set_funcs, [FUNS["x"]] * (ne + 1))
        r.raises("not functions", ValueError, t.set_funcs, [1.0] * ne)
    if w not in ("func idx",):
        r.close("values after a rejected operation", t.values, noise(1, n), 1e-15)


# the deprecated class for the same purpose


@st.composite
def piecewise_cases(draw):
    c = draw(cell_specs(max_holes=2))
    return {"cell": c, "p": [draw(poly_terms(deg=3, terms=3)) for _ in range(4)], "n": draw(st.integers(4, 12)), "some": draw(st.integers(0, 3)), "number": draw(st.integers(0, 9))}


def check_piecewise(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.poly_eval import get_poly_traces_edge, get_poly_vals

    K, _ = build_cell(s["cell"], n=s["n"])
    describe(s["cell"], r)
    edges = K.get_edges()
    mods = [pm.make(s["p"][i % 4]) for i in range(len(edges))]
    polys = [pf.Polynomial(pm.terms(m)) for m in mods]
    f = pf.PiecewisePolynomial(len(edges), polys, s["number"])
    r.eq("label and number of pieces", (f.idx, f.num_polys), (s["number"], len(edges)))
    want = np.concatenate([pm.eval_float(m, e.x[0], e.x[1]) * np.ones(e.num_pts) for m, e in zip(mods, edges)])
    sc = max(1.0, float(np.max(np.abs(want)))) * 10
    r.close("values on the boundary", f.eval_on_mesh_boundary(K), want, 1e-11, sc)
    r.close("values on edges", f.eval_on_edges(edges), want, 1e-11, sc)
    few = edges[: 1 + s["some"]]
    g = pf.PiecewisePolynomial(len(few), polys[: len(few)])
    r.close("values on some edges", g.eval_on_edges(few), want[: sum(e.num_pts for e in few)], 1e-11, sc)
    z = pf.PiecewisePolynomial(len(edges))
    r.true(not np.any(z.eval_on_edges(edges)), "zero without polynomials")
    r.raises("other number of edges", Exception, f.eval_on_edges, edges[:-1])
    e = edges[s["some"] % len(edges)]
    tr = np.array([pm.eval_float(m, e.x[0], e.x[1]) * np.ones(e.num_pts) for m in mods])
    sc = max(1.0, float(np.max(np.abs(tr)))) * 10
    r.close("values of several polynomials on an edge", get_poly_traces_edge(e, polys), tr, 1e-11, sc)
    r.close("values of several polynomials at points", get_poly_vals(e.x[0], e.x[1], polys), tr, 1e-11, sc)
    r.nt(len(edges) > 1 and bool(np.any(want)))


# edges that are sampled later


@st.composite
def later_cases(draw):
    m = draw(st.integers(1, 4))
    return {
        "edges": [draw(edge_specs().filter(joinable)) for _ in range(m)],
        "sampled": [draw(st.booleans()) for _ in range(m)],
        "first": draw(st.sampled_from(["one", "list", "polys", "none"])),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["func", "poly", "funcs", "polys", "sample"]), st.integers(0, 3), st.integers(0, 3), st.booleans()), max_size=4)),
        "p": [draw(poly_terms(deg=2, terms=3)) for _ in range(4)],
        "n": draw(st.integers(4, 10)),
    }


def check_later(s, r: Recorder):
    import puncturedfem as pf

    edges = [build_edge(e, 0, -1, i) for i, e in enumerate(s["edges"])]
    ne = len(edges)
    qd = pf.get_quad_dict(n=s["n"], p=7)
    for e, yes in zip(edges, s["sampled"]):
        if yes:
            e.parameterize(qd)
    names = sorted(FUNS)
    fun = [FUNS[names[k % len(names)]] for k in range(4)]
    mods = [pm.make(t) for t in s["p"]]
    poly = [pf.Polynomial(pm.terms(m)) for m in mods]
    exact = [lambda x, y, m=m: pm.eval_float(m, x, y) for m in mods]

    def ready():
        return all(e.is_parameterized for e in edges)

    if s["first"] == "one":
        t, want = pf.DirichletTrace(edges, funcs=fun[0]), [fun[0]] * ne
    elif s["first"] == "list":
        t, want = pf.DirichletTrace(edges, funcs=[fun[k % 4] for k in range(ne)]), [fun[k % 4] for k in range(ne)]
    elif s["first"] == "polys":
        t, want = pf.DirichletTrace(edges, funcs=[poly[k % 4] for k in range(ne)]), [exact[k % 4] for k in range(ne)]
    else:
        t, want = pf.DirichletTrace(edges), None

    def verify(what):
        r.eq(f"{what}: all edges are sampled", t.edges_are_parametrized(), ready())
        if not ready():
            r.raises(f"{what}: number of points", ValueError, t.find_num_pts)
            r.raises(f"{what}: values", ValueError, t.find_values)
            r.raises(f"{what}: places", ValueError, t.find_edge_sampled_indices)
            return
        if want is None:
            return
        t.find_values()
        v = np.concatenate([np.asarray(f(e.x[0, :-1], e.x[1, :-1])) * np.ones(e.num_pts - 1) for f, e in zip(want, edges)])
        r.close(f"{what}: values", t.values, v, 1e-11, max(1.0, float(np.max(np.abs(v)))) * 10)

    verify("new")
    for k, (name, i, j, comp) in enumerate(s["ops"]):
        was = ready()
        if name == "sample":
            edges[i % ne].parameterize(qd)
        elif name == "funcs":
            want = [fun[(i + z) % 4] for z in range(ne)]
            t.set_funcs(list(want), compute_vals=comp)
        elif name == "polys":
            t.set_funcs_from_polys([poly[(i + z) % 4] for z in range(ne)])
            want = [exact[(i + z) % 4] for z in range(ne)]
        elif want is not None and name == "func":
            t.set_func_on_edge(i % ne, fun[j])
            want = want[: i % ne] + [fun[j]] + want[i % ne + 1 :]
        elif want is not None:
            t.set_func_from_poly_on_edge(i % ne, poly[j], compute_vals=comp)
            want = want[: i % ne] + [exact[j]] + want[i % ne + 1 :]
        r.label(name + (", sampled" if was else ", not sampled"))
        verify(name)
    for e in edges:
        if not e.is_parameterized:
            e.parameterize(qd)
    verify("sampled")
    r.nt(not all(s["sampled"]) and want is not None)


PROP = Prop(
    "C14",
    [
        Sub("later", later_cases(), check_later, quick=200, thorough=3000, shards=1,
            rule="traces given by functions before all of their edges are sampled; non-trivial: an edge that is not sampled at first"),
        Sub("piecewise", piecewise_cases(), check_piecewise, quick=100, thorough=2000, shards=1,
            rule="piecewise polynomials on the boundary of cells; non-trivial: several edges and values that are not zero"),
        Sub("model", cases(), check, quick=900, thorough=20000, shards=6,
            rule="sequences of 1 to 12 operations on traces over cells and lists of edges against arrays; non-trivial: several edges and operations"),
        Sub("rejected", bad(), check_bad, quick=200, thorough=2000, shards=1,
            rule="invalid operations on traces leave them unchanged; non-trivial: always"),
    ],
)
