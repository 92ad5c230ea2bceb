"""C29: plots."""

import math
import re

import numpy as np
from hypothesis import strategies as st

from ..canvas import Canvas
from ..core import Prop, Recorder, Rejected, Sub
from ..gens import build_cell, cell_specs, describe, no_triangulation, poly_terms, q, quad_of, quads, tuples
from ..geom import RefCurve, build_edge
from ..glob import Problem, frame, library, pull
from ..harm import Region, normal_tangent, points, warm
from ..meshgen import build_mesh, cell_labels, edges_of, label_mesh, mesh_specs
from ..state import difference, state
from .c18 import trace_values, traces

NAMES = ["", "", "", "a.png", "sub/dir/b.pdf", "x/c.png"]
COLORS = ["k", "r", "b", "g", "m"]


def output(s, r, c, shown=True):
    """Files, windows and open figures after a plot."""
    name = s["file"]
    files = c.files()
    r.eq("files written", sorted(files), [name] if name else [])
    if name:
        r.true("the file has contents", files[name] > 100, f"{files[name]} bytes")
        head = open(f"{c.dir}/{name}", "rb").read(4)
        r.true("kind of the file", head.startswith(b"\x89PNG" if name.endswith("png") else b"%PDF"), repr(head))
    r.eq("times the plot was shown", c.shows, 1 if shown else 0)


def same_lines(r, name, lines, curves, tol=1e-9):
    """Each curve is drawn once, in either direction, and nothing else is."""
    r.eq(f"{name}: number of curves", len(lines), len(curves))
    left = list(lines)
    for k, cur in enumerate(curves):
        scale = float(np.max(np.abs(cur - cur.mean(axis=1, keepdims=True)))) + 1e-300
        best, at = math.inf, -1
        for j, l in enumerate(left):
            if l.shape == cur.shape:
                d = min(float(np.max(np.abs(l - cur))), float(np.max(np.abs(l[:, ::-1] - cur)))) / scale
                if d < best:
                    best, at = d, j
        r.true(f"{name}: curve {k} is drawn", best < max(tol, 1e-13 * float(np.max(np.abs(cur))) / scale), f"nearest is {best:.2e} away")
        left.pop(at)


# TRIANGULATIONS AND LOCAL FUNCTIONS #####################################


@st.composite
def local_cases(draw):
    holes = draw(st.sampled_from([0, 1, 1, 2]))
    return {
        "cell": draw(cell_specs(max_holes=2, min_holes=holes)),
        "n": draw(st.sampled_from([8, 12, 16])),
        "rows": draw(st.integers(8, 14)), "cols": draw(st.integers(8, 14)),
        "rtol": draw(st.sampled_from([0.02, 0.04])),
        "lap": draw(poly_terms(deg=2, terms=3)),
        "trace": draw(traces()),
        "plots": [
            {
                "type": draw(st.sampled_from(["values", "values", "grad_x1", "grad_x2", "grad_norm"])),
                "interp": draw(st.integers(0, 3)) > 0,
                "fill": draw(st.booleans()), "title": draw(st.sampled_from(["", "u", "a b"])),
                "levels": draw(st.sampled_from([None, 8, 20])), "bar": draw(st.booleans()), "axis": draw(st.booleans()),
                "boundary": draw(st.booleans()), "tri": draw(st.booleans()), "log": draw(st.integers(0, 3)) == 0,
                "clim": draw(st.sampled_from([None, [-1.0, 2.0]])),
                "show": draw(st.booleans()), "file": draw(st.sampled_from(NAMES)),
            }
            for _ in range(draw(st.integers(1, 3)))
        ],
    }


def sampled_cell(s):
    K, specs = build_cell(s["cell"], param=False)
    K.set_interior_mesh_size(s["rows"], s["cols"])
    K.set_interior_point_tolerance(rtol=s["rtol"], atol=1e-9)
    K.parameterize(quads(s["cell"], s["n"]))
    return K, specs


def outlines(K):
    out = []
    for comp in K.components:
        x, y = comp.get_sampled_points()
        out.append(x + 1j * y)
    return out


def shoelace(z):
    return abs(0.5 * float(np.sum((np.conj(z) * np.roll(z, -1)).imag)))


def inside(z, outs):
    """Points inside of the polygon and outside of its holes, and the distance
    to the polygons."""
    num = np.zeros((len(outs), len(z)), dtype=int)
    dist = np.full(len(z), np.inf)
    for k, c in enumerate(outs):
        a, b = c[:, None], np.roll(c, -1)[:, None]
        up = (a.imag <= z.imag) & (b.imag > z.imag)
        down = (a.imag > z.imag) & (b.imag <= z.imag)
        side = ((np.conj(b - a)) * (z[None, :] - a)).imag
        num[k] = np.sum(up & (side > 0), axis=0) - np.sum(down & (side < 0), axis=0)
        d = b - a
        t = np.clip(((z[None, :] - a) * np.conj(d)).real / np.maximum(np.abs(d) ** 2, 1e-300), 0, 1)
        dist = np.minimum(dist, np.min(np.abs(z[None, :] - a - t * d), axis=0))
    ok = num[0] != 0
    for k in range(1, len(outs)):
        ok &= num[k] == 0
    return ok, dist


def areas(x, y, tri):
    X, Y = x[tri], y[tri]
    return 0.5 * np.abs((X[:, 1] - X[:, 0]) * (Y[:, 2] - Y[:, 0]) - (X[:, 2] - X[:, 0]) * (Y[:, 1] - Y[:, 0]))


def check_cover(r, name, x, y, tri, mask, outs, missing=0.0):
    """Triangles that are drawn cover the cell and nothing else."""
    a = areas(x, y, tri)
    keep = ~mask
    whole = shoelace(outs[0]) - sum(shoelace(c) for c in outs[1:])
    r.close(f"{name}: area of the triangles", float(np.sum(a[keep])) + missing, whole, 0.04, whole)
    cen = np.mean(x[tri], axis=1) + 1j * np.mean(y[tri], axis=1)
    ok, dist = inside(cen, outs)
    outer = keep & ~ok
    r.le(f"{name}: area of triangles outside of the cell", float(np.sum(a[outer])), 0.0, 0.02, whole)
    # a point of the cell that is well inside is covered
    size = math.sqrt(whole)
    lost = mask & ok & (dist > 0.05 * size)
    r.le(f"{name}: area inside of the cell that is not covered", float(np.sum(a[lost])) - missing, 0.0, 0.02, whole)


def lookup(x, y, v):
    return {(float(a), float(b)): float(c) for a, b, c in zip(x, y, v)}


def has_inner_triangles(K):
    """Triangles between interior points (there is nothing to draw without)."""
    tri = np.array(K.triangulation.triangles)
    bx, by = K.get_boundary_points()
    outer = set(zip(bx.tolist(), by.tolist()))
    onb = np.array([key in outer for key in zip(K.triangulation.x.tolist(), K.triangulation.y.tolist())])
    mask = K.triangulation.mask
    keep = np.ones(len(tri), bool) if mask is None else ~np.asarray(mask, bool)
    return int(np.sum(keep & ~np.any(onb[tri], axis=1))) > 1


def check_local(s, r: Recorder):
    import puncturedfem as pf

    describe(s["cell"], r)
    K, specs = sampled_cell(s)
    del specs
    if len(K.int_x1) < 6:
        raise Rejected()
    if not has_inner_triangles(K):
        raise Rejected()
    outs = outlines(K)
    T = K.triangulation
    tri = np.array(T.triangles)
    mask = np.zeros(len(tri), bool) if T.mask is None else np.array(T.mask, bool)
    x, y = np.array(T.x), np.array(T.y)
    bx, by = K.get_boundary_points()
    want = sorted(zip(np.concatenate((K.int_x1, bx)), np.concatenate((K.int_x2, by))))
    r.eq("points of the triangulation", sorted(zip(x, y)) == want, True)
    check_cover(r, "triangulation", x, y, tri, mask, outs)
    # a function
    nyst = pf.NystromSolver(K)
    v = pf.LocalPoissonFunction(nyst, laplacian=pf.Polynomial(tuples(s["lap"])), trace=trace_values(K, s["trace"]), evaluate_interior=True, evaluate_gradient=True)
    interior = {"values": v.int_vals, "grad_x1": v.int_grad1, "grad_x2": v.int_grad2, "grad_norm": np.hypot(v.int_grad1, v.int_grad2)}
    nor, tan, wgt = normal_tangent(K)
    wnd = v.harm.trace.w_norm_deriv + v.poly.trace.w_norm_deriv
    wtd = v.harm.trace.w_tang_deriv + v.poly.trace.w_tang_deriv
    with np.errstate(all="ignore"):
        g = (nor * wnd + tan * wtd) / wgt
    boundary = {"values": v.get_trace_values(), "grad_x1": g.real, "grad_x2": g.imag, "grad_norm": np.abs(g)}
    big = float(np.max(np.abs(wgt)))
    good = np.isfinite(g) & (wgt > 1e-3 * big) & (np.abs(g) < 1e3)
    held = state([v.int_vals, v.int_grad1, v.int_grad2, v.harm.trace, v.poly.trace, K.hole_mask, K.get_boundary_points(), K.int_x1, K.int_x2])
    err = np.geterr()
    for p in s["plots"]:
        r.label(p["type"], "interpolated" if p["interp"] else "interior only", "filled" if p["fill"] else "lines", "log" if p["log"] else "linear")
        kw = {"fill": p["fill"], "title": p["title"], "show_colorbar": p["bar"], "show_axis": p["axis"], "show_boundary": p["boundary"], "show_triangulation": p["tri"], "use_log10": p["log"]}
        if p["levels"] is not None:
            kw["levels"] = p["levels"]
        vals, edge = np.array(interior[p["type"]], float), np.array(boundary[p["type"]], float)
        if p["log"]:
            vals = np.log10(np.maximum(vals, 1e-16))
            with np.errstate(all="ignore"):
                edge = np.log10(np.maximum(edge, 1e-16))
        # matplotlib cannot give a constant another range
        clim = None if p["clim"] is None or np.ptp(vals) < 1e-6 * np.max(np.abs(vals), initial=1.0) else [float(np.min(vals)) + p["clim"][0], float(np.max(vals)) + p["clim"][1]]
        if clim is not None:
            kw["clim"] = tuple(clim)
        with Canvas() as c:
            pf.plot.LocalFunctionPlot(v, use_interp=p["interp"]).draw(plot_type=p["type"], **({} if p["show"] else {"show_plot": False}), filename=p["file"], **kw)
            r.eq("open figures", c.open_figures(), 0)
            output(p, r, c, p["show"])
            r.eq("number of figures", len(c.figures), 1)
            r.eq("number of contour plots", len(c.contours), 1)
            fig, con = c.figures[0], c.contours[0]
        ax = fig["axes"][0]
        r.eq("title", ax["title"], p["title"])
        r.eq("kind of contours", con["kind"], "tricontourf" if p["fill"] else "tricontour")
        r.eq("levels", con["levels"], 32 if p["levels"] is None else p["levels"])
        r.eq("axes and colour bar", len(fig["axes"]), 2 if p["bar"] else 1)
        r.eq("axis", ax["axis"], p["axis"])
        if clim is not None:
            r.eq("colour range", tuple(con["set"].get_clim()), tuple(clim))
        lines = [l for l in ax["lines"]]
        edges = [np.array(e.get_sampled_points(ignore_endpoint=False)) for e in K.get_edges()]
        if not p["tri"]:
            same_lines(r, "edges", lines, edges if p["boundary"] else [])
        # values at the points
        inner = lookup(K.int_x1, K.int_x2, vals)
        outer = {}
        for k, key in enumerate(zip(bx.tolist(), by.tolist())):
            outer[key] = edge[k] if good[k] or p["type"] == "values" else None
        keep = ~con["mask"]
        used = np.zeros(len(con["x"]), bool)
        used[con["triangles"][keep].ravel()] = True
        iv, ie, ov, oe = [], [], [], []
        strange = 0
        for k in np.flatnonzero(used):
            key = (float(con["x"][k]), float(con["y"][k]))
            if key in inner:
                iv.append(con["z"][k])
                ie.append(inner[key])
            elif key in outer:
                if outer[key] is not None:
                    ov.append(con["z"][k])
                    oe.append(outer[key])
            else:
                strange += 1
        r.eq("points that are neither inside nor on the boundary", strange, 0)
        sc = max([1e-300] + [abs(a) for a in ie + oe])
        if p["log"]:
            # logarithms of values that are all rounding
            sc = max(sc, 16.0)
            ok = [k for k, a in enumerate(oe) if a > -6]
            ov, oe = [ov[k] for k in ok], [oe[k] for k in ok]
        r.close("values at the interior points", iv, ie, 1e-9, sc)
        r.close("values at the boundary points", ov, oe, 1e-6 if p["type"] != "values" else 1e-9, sc)
        if not p["interp"]:
            onb = np.array([(float(a), float(b)) in outer for a, b in zip(con["x"], con["y"])])
            r.eq("triangles at the boundary when values there are not used", int(np.sum(np.any(onb[con["triangles"]], axis=1) & keep)), 0)
            a = areas(con["x"], con["y"], con["triangles"])
            miss = float(np.sum(a[np.any(onb[con["triangles"]], axis=1) & ~mask])) if np.array_equal(con["triangles"], tri) else None
        else:
            # points without a gradient (corners) are left out
            bad = np.array([key in outer and outer[key] is None for key in zip(con["x"].tolist(), con["y"].tolist())])
            a = areas(con["x"], con["y"], con["triangles"])
            miss = float(np.sum(a[np.any(bad[con["triangles"]], axis=1) & con["mask"] & ~mask])) if np.array_equal(con["triangles"], tri) else None
        if miss is not None:
            check_cover(r, "drawn triangles", con["x"], con["y"], con["triangles"], con["mask"], outs, miss)
        r.eq("data after the plot", difference(held, state([v.int_vals, v.int_grad1, v.int_grad2, v.harm.trace, v.poly.trace, K.hole_mask, K.get_boundary_points(), K.int_x1, K.int_x2])), "")
        r.eq("floating-point error handling after the plot", np.geterr(), err)
    r.nt()


# TRACES #################################################################


@st.composite
def trace_cases(draw):
    m = draw(st.integers(1, 3))
    return {
        "cell": draw(cell_specs(max_holes=2) | cell_specs(max_holes=2, min_holes=2, kmin=5)),
        "n": draw(st.sampled_from([4, 8, 16])),
        "quad": draw(st.sampled_from([None, None, "trap"])),
        "p": draw(st.integers(3, 9)),
        "kinds": [draw(st.sampled_from(["array", "trace"])) for _ in range(m)],
        "alone": draw(st.booleans()),
        "fmt": draw(st.sampled_from(["default", "one", "list"])),
        "colors": [draw(st.sampled_from(COLORS)) for _ in range(m)],
        "legend": draw(st.booleans()), "title": draw(st.sampled_from(["", "t", "trace of u"])),
        "log": draw(st.booleans()), "grid": draw(st.booleans()),
        "ticks": draw(st.sampled_from([None, 2, 3, 4, 5, 7, 12])),
        "show": draw(st.booleans()), "file": draw(st.sampled_from(NAMES)),
    }


def check_traces(s, r: Recorder):
    import puncturedfem as pf
    from matplotlib.colors import to_rgba

    describe(s["cell"], r)
    K, specs = build_cell(s["cell"], n=s["n"], p=s["p"], quad=s["quad"])
    del specs
    quad = quads(s["cell"], s["n"], s["p"])
    x, y = K.get_boundary_points()
    data, given = [], []
    for k, kind in enumerate(s["kinds"]):
        v = np.cos(x + k) + y * (k + 1)
        if s["log"]:
            v = np.abs(v) + 0.1
        data.append(v)
        given.append(v.copy() if kind == "array" else pf.DirichletTrace(K, values=v.copy()))
    m = len(given)
    kw = {"title": s["title"], "log_scale": s["log"], "show_grid": s["grid"]}
    if s["fmt"] == "one":
        kw["fmt"] = s["colors"][0] + "--"
    elif s["fmt"] == "list":
        kw["fmt"] = [c + "-" for c in s["colors"]]
    names = tuple(f"f{k}" for k in range(m))
    if s["legend"]:
        kw["legend"] = names
    most = 9
    if s["ticks"] is not None:
        most = kw["max_num_ticks"] = s["ticks"]
    r.label(f"{m} traces", "log" if s["log"] else "linear", "more edges than ticks" if K.num_edges + 1 > most else "few edges")
    with Canvas() as c:
        P = pf.plot.TracePlot(given[0] if m == 1 and s["alone"] else given, K, quad, **kw)
        P.draw(**({} if s["show"] else {"show_plot": False}), filename=s["file"])
        r.eq("open figures", c.open_figures(), 0)
        output(s, r, c, s["show"])
        r.eq("number of figures", len(c.figures), 1)
        ax = c.figures[0]["axes"][0]
    t, t0 = [], 0.0
    for comp in K.components:
        for e in comp.edges:
            num = e.num_pts - 1
            one = np.array(quad[e.quad_type].t[:-1])
            r.eq("samples of the rule on an edge", len(one), num)
            t.append(t0 + one)
            t0 += 2 * math.pi
    t = np.concatenate(t)
    r.eq("number of curves", len(ax["lines"]), m)
    for k, (l, v) in enumerate(zip(ax["lines"], data)):
        r.eq("number of points of a curve", l.shape[1], len(t))
        r.close(f"parameter of curve {k}", l[0], t, 1e-12, t0)
        r.close(f"values of curve {k}", l[1], v, 1e-13, float(np.max(np.abs(v))))
        col = "k" if s["fmt"] == "default" else s["colors"][0 if s["fmt"] == "one" else k]
        r.eq(f"colour of curve {k}", ax["colors"][k], to_rgba(col))
        r.eq(f"style of curve {k}", ax["styles"][k], "--" if s["fmt"] == "one" else "-")
    r.eq("scale", ax["yscale"], "log" if s["log"] else "linear")
    r.eq("legend", ax["legend"], list(names) if s["legend"] else [])
    r.eq("title", ax["title"], s["title"])
    r.eq("grid", ax["grid"], s["grid"])
    # ticks at ends of edges
    ticks = ax["xticks"]
    r.true("number of ticks", 2 <= len(ticks) <= max(most, 2), f"{len(ticks)} of at most {most}")
    if K.num_edges + 1 <= most:
        r.eq("a tick for each end", len(ticks), K.num_edges + 1)
    rev = ticks / (2 * math.pi)
    r.close("ticks at ends of edges", rev, np.round(rev), 1e-9)
    r.true("ticks in order", bool(np.all(np.diff(ticks) > 0)), str(ticks))
    r.close("first tick", rev[0], 0.0, 1e-12)
    r.close("last tick", rev[-1], float(K.num_edges), 1e-12)
    r.eq("a label for each tick", len(ax["xlabels"]), len(ticks))
    for a, lab in zip(ticks, ax["xlabels"]):
        num = re.match(r"^(\d+)", lab)
        val = math.inf if num is None else float(num.group(1)) * (math.pi if "pi" in lab or "π" in lab else 1.0)
        r.close("label of a tick", val, float(a), 1e-9, t0)
    for g, v, kind in zip(given, data, s["kinds"]):
        r.eq("the given trace", bool(np.array_equal(g if kind == "array" else g.values, v)), True)
    r.nt()


# MESHES #################################################################


@st.composite
def mesh_cases(draw):
    return {
        "mesh": draw(mesh_specs(nx=3, ny=2, max_punctures=2)),
        "pick": draw(st.lists(st.integers(0, 40), max_size=6)),
        "n": draw(st.sampled_from([None, 4, 9, 16])),
        "sampled": draw(st.sampled_from([0, 0, 6])), "again": draw(st.booleans()),
        "orientation": draw(st.booleans()), "grid": draw(st.booleans()), "axis": draw(st.booleans()),
        "title": draw(st.sampled_from(["", "mesh"])), "pad": draw(st.sampled_from([None, 0.0, 0.3])),
        "open": draw(st.integers(0, 4)) == 0,
        "show": draw(st.booleans()), "file": draw(st.sampled_from(NAMES)),
    }


def check_mesh(s, r: Recorder):
    import puncturedfem as pf

    label_mesh(s["mesh"], r)
    M = build_mesh(s["mesh"])
    edges = M.edges
    if s["pick"]:
        some = [edges[k % len(edges)] for k in dict.fromkeys(k % len(edges) for k in s["pick"])]
    else:
        some = list(edges)
    n = 32 if s["n"] is None else s["n"]
    if s["sampled"]:
        for e in some[::2]:
            e.parameterize(pf.get_quad_dict(n=s["sampled"], p=7))
    z = np.concatenate([RefCurve(s["mesh"]["edges"][e.idx]).gauss(pieces=2)[0] for e in some])
    if min(np.ptp(z.real), np.ptp(z.imag)) < 1e-3 * max(np.ptp(z.real), np.ptp(z.imag)):
        raise Rejected()
    held = state(some)
    kw = {"show_orientation": s["orientation"], "show_grid": s["grid"], "show_axis": s["axis"], "title": s["title"], "keep_open": s["open"]}
    if s["pad"] is not None:
        kw["pad"] = s["pad"]
    args = {} if s["n"] is None else {"n": s["n"]}
    if s["again"]:
        args["reparameterize"] = True
    with Canvas() as c:
        pf.plot.MeshPlot(some, **args).draw(**({} if s["show"] else {"show_plot": False}), filename=s["file"], **kw)
        c.finish()
        r.eq("open figures", c.open_figures(), 1 if s["open"] else 0)
        output(s, r, c, s["show"])
        r.eq("number of figures", len(c.figures), 1)
        fig = c.figures[0]
        ax = fig["axes"][0]
    curves = []
    for k, e in enumerate(some):
        num = s["sampled"] if s["sampled"] and k % 2 == 0 and not s["again"] else n
        g = s["mesh"]["edges"][e.idx]
        f = build_edge(dict(g, quad=quad_of(s["mesh"], g)), 0, -1, 0)
        f.parameterize(pf.get_quad_dict(n=num))
        if s["sampled"] and k % 2 == 0 and not s["again"]:
            f = e
        curves.append(np.array(f.get_sampled_points(ignore_endpoint=False)))
    if s["orientation"]:
        r.eq("curves and arrows", (len(ax["lines"]), len(ax["arrows"])), (0, len(some)))
        left = list(ax["arrows"])
        for k, cur in enumerate(curves):
            best, at = math.inf, -1
            for j, (X, Y, U, V, _) in enumerate(left):
                if len(X) == cur.shape[1] - 1:
                    d = float(np.max(np.abs(np.array([X - cur[0, :-1], Y - cur[1, :-1], U - np.diff(cur[0]), V - np.diff(cur[1])]))))
                    if d < best:
                        best, at = d, j
            r.close(f"arrows along edge {k}", best, 0.0, 1e-9, float(np.max(np.abs(cur))) + 1)
            if at >= 0:
                left.pop(at)
        for *_, c in ax["arrows"]:
            r.eq("arrows join the points", (c.scale, c.scale_units, c.angles), (1, "xy", "xy"))
    else:
        r.eq("number of arrows", len(ax["arrows"]), 0)
        same_lines(r, "edges", ax["lines"], curves)
    pts = np.concatenate(curves, axis=1)
    lo, hi = pts.min(axis=1), pts.max(axis=1)
    pad = 0.1 if s["pad"] is None else s["pad"]
    d = hi - lo
    want = [lo[0] - pad * d[0], hi[0] + pad * d[0], lo[1] - pad * d[1], hi[1] + pad * d[1]]
    r.close("limits of the axes", ax["limits"], want, 1e-9, float(np.max(np.abs(want))))
    r.close("shape of the figure", fig["size"][0] / fig["size"][1], (want[1] - want[0]) / (want[3] - want[2]), 1e-6, (want[1] - want[0]) / (want[3] - want[2]))
    r.eq("title", ax["title"], s["title"])
    r.eq("axis", ax["axis"], s["axis"])
    r.eq("grid", ax["grid"], s["grid"])
    r.eq("the given edges", difference(held, state(some)), "")
    r.nt()


# GLOBAL FUNCTIONS #######################################################


@st.composite
def global_cases(draw):
    return {
        "mesh": draw(mesh_specs(nx=2, ny=2, max_punctures=1, sims=draw(st.booleans()))),
        "n": draw(st.sampled_from([8, 12])),
        "deg": draw(st.sampled_from([1, 1, 2])),
        "f": draw(poly_terms(deg=1, terms=2, lo=1)),
        "coef": draw(st.none() | st.lists(q(-2, 2, 8), min_size=5, max_size=5)),
        "plots": [
            {
                "type": draw(st.sampled_from(["values", "values", "grad_x1", "grad_x2", "grad_norm"])),
                "interp": draw(st.booleans()), "fill": draw(st.integers(0, 3)) > 0, "title": draw(st.sampled_from(["", "u"])),
                "bar": draw(st.booleans()), "axis": draw(st.booleans()),
                "show": draw(st.booleans()), "file": draw(st.sampled_from(NAMES)),
            }
            for _ in range(draw(st.integers(1, 3)))
        ],
    }


def check_global(s, r: Recorder):
    import puncturedfem as pf

    label_mesh(s["mesh"], r)

    def coarse(cell):
        cell.set_interior_mesh_size(9, 8)
        cell.set_interior_point_tolerance(rtol=0.03, atol=1e-9)

    P = Problem(s["mesh"], s["deg"], s["n"], 1.0, 0.5, pf.Polynomial(tuples(s["f"])), interior=True, gradient=True, adjust=coarse)
    S = P.solver
    num = P.gfs.num_funs
    if s["coef"] is None:
        r.label("solution")
        S.solve()
        u = np.array(S.soln, float)
    else:
        r.label("coefficients")
        u = np.array([s["coef"][k % 5] + 0.1 * (k % 3) for k in range(num)])
    held = u.copy()
    # the function on each cell
    cells = {}
    for c in P.labels:
        sp = P.spaces[c]
        K = sp.nyst.K
        if len(K.int_x1) < 4 or not has_inner_triangles(K):
            raise Rejected()
        B = sp.get_basis()
        co = [float(u[b.key.glob_idx]) for b in B]
        tot = {n: sum(a * np.asarray(getattr(b, n)) for a, b in zip(co, B)) for n in ("int_vals", "int_grad1", "int_grad2")}
        tr = sum(a * b.get_trace_values() for a, b in zip(co, B))
        vals = {"values": tot["int_vals"], "grad_x1": tot["int_grad1"], "grad_x2": tot["int_grad2"], "grad_norm": np.hypot(tot["int_grad1"], tot["int_grad2"])}
        cells[c] = (K, vals, tr)
    with Canvas() as c:
        G = pf.plot.GlobalFunctionPlot(S) if s["coef"] is None else pf.plot.GlobalFunctionPlot(S, u)
    for p in s["plots"]:
        r.label(p["type"], "filled" if p["fill"] else "lines")
        with Canvas() as c:
            G.draw(plot_type=p["type"], **({} if p["show"] else {"show_plot": False}), filename=p["file"], fill=p["fill"], title=p["title"], show_colorbar=p["bar"], show_axis=p["axis"], use_interp=p["interp"])
            c.finish()
            r.eq("open figures", c.open_figures(), 0)
            output(p, r, c, p["show"])
            if not p["show"] and not p["file"]:
                continue
            r.eq("number of figures", len(c.figures), 1)
            fig = c.figures[0]
            cons = list(c.contours)
        ax = fig["axes"][0]
        lo = min(float(np.min(v[p["type"]])) for _, v, _ in cells.values())
        hi = max(float(np.max(v[p["type"]])) for _, v, _ in cells.values())
        sc = max(abs(lo), abs(hi), 1e-6)
        r.eq("number of contour plots", len(cons), len(cells))
        left = dict(cells)
        for con in cons:
            r.eq("kind of contours", con["kind"], "tricontourf" if p["fill"] else "tricontour")
            r.close("colour range of a cell", con["set"].get_clim(), (lo, hi), 1e-6, sc)
            pts = set(zip(con["x"].tolist(), con["y"].tolist()))
            at = [k for k, (K, _, _) in left.items() if all(key in pts for key in zip(np.asarray(K.int_x1).tolist(), np.asarray(K.int_x2).tolist()))]
            r.true("contours of a cell", len(at) >= 1, "no cell has these points")
            K, v, tr = left.pop(at[0])
            inner = lookup(K.int_x1, K.int_x2, v[p["type"]])
            bx, by = K.get_boundary_points()
            outer = lookup(bx, by, tr)
            used = np.zeros(len(con["x"]), bool)
            used[con["triangles"][~con["mask"]].ravel()] = True
            a, b = [], []
            strange = 0
            for k in np.flatnonzero(used):
                key = (float(con["x"][k]), float(con["y"][k]))
                if key in inner:
                    a.append(con["z"][k])
                    b.append(inner[key])
                elif key in outer:
                    if p["type"] == "values":
                        a.append(con["z"][k])
                        b.append(outer[key])
                    if not p["interp"]:
                        strange += 1
                else:
                    strange += 1
            r.eq("points that do not belong to the cell", strange, 0)
            r.close("values at the points of a cell", a, b, 1e-6, sc)
            if p["interp"] and p["type"] == "values":
                check_cover(r, "drawn triangles", con["x"], con["y"], con["triangles"], con["mask"], outlines(K))
        edges = [build_edge(dict(e, quad=quad_of(s["mesh"], e)), 0, -1, k) for k, e in enumerate(s["mesh"]["edges"])]
        for e in edges:
            e.parameterize(pf.get_quad_dict(n=s["n"], p=7))
        same_lines(r, "edges", ax["lines"], [np.array(e.get_sampled_points(ignore_endpoint=False)) for e in edges], 1e-7)
        r.eq("title", ax["title"], p["title"])
        r.eq("axis", ax["axis"], p["axis"])
        bar = p["bar"] and p["fill"]
        r.eq("axes and colour bar", len(fig["axes"]), 2 if bar else 1)
        if bar and hi - lo > 1e-6 * sc:
            lim = fig["axes"][1]["limits"]
            r.close("range of the colour bar", (lim[2], lim[3]), (lo, hi), 1e-6, sc)
    r.eq("the coefficients", bool(np.array_equal(u, held)), True)
    r.nt()


PROP = Prop(
    "C29",
    [
        Sub("local", local_cases(), check_local, quick=110, thorough=1500, shards=8, case_timeout=200,
            rule="local functions on cells with up to two punctures, all kinds of plots and options; non-trivial: at least six interior points"),
        Sub("traces", trace_cases(), check_traces, quick=240, thorough=4000, shards=8,
            rule="one to three traces with formats, legends, numbers of ticks; non-trivial: always"),
        Sub("meshes", mesh_cases(), check_mesh, quick=240, thorough=4000, shards=8,
            rule="all or some of the edges of meshes, sampled or not, with options; non-trivial: the edges have an extent in both directions"),
        Sub("global", global_cases(), check_global, quick=48, thorough=700, shards=8, case_timeout=300,
            rule="solutions and other coefficients on meshes, all kinds of plots; non-trivial: at least four interior points in each cell"),
    ],
    warm=warm,
)
