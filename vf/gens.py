"""Hypothesis strategies for JSON-able specs."""

from __future__ import annotations

import math
from typing import Any

from hypothesis import strategies as st

from .geom import LOOPS, TWO_PI, RefCurve

import numpy as np


def q(lo: float, hi: float, den: int = 1000) -> Any:
    """Floats k/den in [lo, hi] (short to write down, shrink towards 0)."""
    return st.integers(math.ceil(lo * den), math.floor(hi * den)).map(
        lambda k: k / den
    )


def mag(lo: int, hi: int) -> Any:
    """Positive magnitudes m * 10^k."""
    return st.tuples(st.integers(10, 99), st.integers(lo, hi)).map(
        lambda t: float(f"{t[0] / 10}e{t[1]}")
    )


@st.composite
def signed(draw: Any, s: Any) -> float:
    """Either sign."""
    v = draw(s)
    return -v if draw(st.booleans()) else v


@st.composite
def curve_opts(draw: Any, ctype: str) -> dict[str, Any]:
    """Options of a curve type over their documented ranges."""
    if ctype == "circle":
        if draw(st.booleans()):
            return {}
        return {"radius": draw(mag(-2, 2))}
    if ctype == "ellipse":
        a = draw(mag(-1, 1))
        return {"a": a, "b": round(a * draw(q(0.1, 10.0)), 6)}
    if ctype == "cartioid":
        return {"a": draw(q(-0.95, 5.0))}
    if ctype == "teardrop":
        if draw(st.booleans()):
            return {}
        return {"alpha": draw(q(1.05, 6.0))}
    if ctype == "sine_wave":
        return {
            "amp": draw(q(-2.0, 2.0)),
            "freq": draw(st.integers(-7, 9).filter(lambda k: k != 0)),
        }
    if ctype == "circular_arc":
        return {"H": draw(q(-3.0, 3.0))}
    if ctype == "circular_arc_deg":
        return {"theta0": draw(q(5.0, 355.0, 10))}
    if ctype == "spline":
        m = draw(st.integers(4, 8))
        pts = [[0.0, 0.0]]
        for _ in range(m - 1):
            # steps of length between 0.2 and 1.5, in any direction
            r = draw(q(0.2, 1.5))
            th = draw(q(-3.1, 3.1))
            pts.append(
                [
                    round(pts[-1][0] + r * math.cos(th), 6),
                    round(pts[-1][1] + r * math.sin(th), 6),
                ]
            )
        return {"pts": [[p[0] for p in pts], [p[1] for p in pts]]}
    return {}


OPEN = ("line", "sine_wave", "circular_arc", "circular_arc_deg", "spline")
ALL_TYPES = OPEN + LOOPS


def diameter(ctype: str, opts: dict[str, Any]) -> float:
    """Rough diameter of the canonical curve."""
    from .geom import canonical

    x, y = canonical(ctype, opts, np.linspace(0, TWO_PI, 200))
    return float(np.ptp(x.v) + np.ptp(y.v))


@st.composite
def points(draw: Any, big: bool = True) -> list[float]:
    """A point of the plane."""
    if big and draw(st.integers(0, 4)) == 0:
        return [draw(signed(mag(-2, 3))), draw(signed(mag(-2, 3)))]
    return [draw(q(-4.0, 4.0)), draw(q(-4.0, 4.0))]


@st.composite
def edge_specs(
    draw: Any,
    types: Any = ALL_TYPES,
    bounds: bool = True,
    loops_with_bounds: bool = True,
) -> dict[str, Any]:
    """An edge of any type, over any part of its curve, anywhere."""
    ctype = draw(st.sampled_from(list(types)))
    opts = draw(curve_opts(ctype))
    e: dict[str, Any] = {"type": ctype, "opts": opts}
    loop = ctype in LOOPS
    if bounds and draw(st.integers(0, 2)) == 0 and (not loop or loops_with_bounds):
        # part of the curve, with distinct ends: no longer a loop
        lo = draw(q(0.0, 5.0, 100))
        hi = draw(q(0.3, 6.2, 100))
        if hi - lo < 0.3:
            hi = lo + 0.3
        e["tb"] = [lo, hi]
        loop = False
    a = draw(points())
    if loop:
        b = list(a)
    else:
        r = draw(mag(-1, 1) if draw(st.booleans()) else mag(-2, 2))
        th = draw(q(-3.15, 3.15))
        b = [a[0] + r * math.cos(th), a[1] + r * math.sin(th)]
        b = [float(f"{v:.9g}") for v in b]
    e["a"], e["b"] = a, b
    return e


def joinable(e: dict[str, Any]) -> bool:
    """The ends of the canonical piece are well separated and so are a, b."""
    from .geom import canonical

    if e["a"] == e["b"]:
        return "tb" not in e and e["type"] in LOOPS
    ta, tb = e.get("tb", [0.0, TWO_PI])
    x, y = canonical(e["type"], e["opts"], np.array([ta, tb]))
    gap = math.hypot(x.v[1] - x.v[0], y.v[1] - y.v[0])
    size = diameter(e["type"], e["opts"])
    c = math.hypot(e["a"][0] - e["b"][0], e["a"][1] - e["b"][1])
    far = abs(e["a"][0]) + abs(e["a"][1])
    return gap > 0.02 * size and gap > 1e-3 and c > 1e-6 * far and c > 1e-3


def kappa(e: dict[str, Any]) -> float:
    """Size of the numbers in play: positions, plus the magnification."""
    rc = RefCurve(e)
    z, _, _ = rc.eval(np.linspace(0, TWO_PI, 50))
    return float(np.max(np.abs(z)) + abs(rc.m) * diameter(e["type"], e["opts"]))


@st.composite
def transforms(draw: Any, with_join: bool = True) -> list[Any]:
    """One transformation of an edge."""
    names = ["translate", "dilate", "rotate", "reflect_x", "reflect_y", "orthogonal"]
    if with_join:
        names.append("join")
    name = draw(st.sampled_from(names))
    if name == "translate":
        return [name] + draw(points())
    if name == "dilate":
        return [name, draw(signed(mag(-1, 0)))]
    if name == "rotate":
        return [name, draw(st.sampled_from([90, -90, 180, 45]) | q(-400.0, 400.0, 10))]
    if name == "orthogonal":
        s = -1.0 if draw(st.booleans()) else 1.0
        if draw(st.booleans()):
            # symmetries of the square, with exact zeros
            c, d = draw(st.sampled_from([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]))
        else:
            th = draw(st.sampled_from([math.pi / 2, math.pi]) | q(-3.2, 3.2))
            c, d = math.cos(th), math.sin(th)
        return [name, [[c, -s * d], [d, s * c]]]
    if name == "join":
        a = draw(points(big=False))
        r = draw(q(0.1, 5.0))
        th = draw(q(-3.2, 3.2))
        return [name, a, [a[0] + r * math.cos(th), a[1] + r * math.sin(th)]]
    return [name]


# CELLS ######################################################################
#
# A cell spec is {"outer": contour, "holes": [contour], "sim": [scale, rot
# degrees, tx, ty]}; a contour is a list of edge descriptions in the frame of
# the unit cell:
#   {"k": "poly", "c": [x, y], "r": size, "v": [[radius, angle]...],
#    "s": [[kind, value...]...], "f": [reverse?...]}
#   {"k": "loop", "c": [x, y], "r": size, "t": type, "o": opts, "rot": deg,
#    "f": mirrored?}


@st.composite
def poly_contour(
    draw: Any,
    kmin: int = 3,
    kmax: int = 6,
    curved: bool = True,
    jitter: float = 0.12,
    rlo: float = 0.85,
    rhi: float = 1.15,
    flips: bool = True,
) -> dict[str, Any]:
    """A star-shaped polygon with slightly curved sides, of size about 1."""
    k = draw(st.integers(kmin, kmax))
    v, s, f = [], [], []
    phase = draw(q(0.0, 6.28, 100))
    for i in range(k):
        v.append(
            [
                draw(q(rlo, rhi, 100)),
                round(phase + TWO_PI / k * (i + draw(q(-jitter, jitter, 100))), 4),
            ]
        )
        tilt = 0.15 if k == 3 else 0.3
        kind = draw(
            st.sampled_from(
                ["line", "sine", "arc_in", "arc_out", "spline"]
                if curved
                else ["line"]
            )
        )
        if kind == "line":
            s.append(["line"])
        elif kind == "sine":
            w = draw(st.integers(1, 4))
            amp = draw(q(-tilt, tilt, 100)) / (math.pi * w)
            s.append(["sine", w, round(amp, 5)])
        elif kind == "spline":
            d = tilt / 8
            s.append(["spline", draw(q(-d, d, 1000)), draw(q(-d, d, 1000))])
        else:
            s.append([kind, draw(q(0.05, tilt, 100))])
        f.append(draw(st.booleans()) if flips else False)
    return {"k": "poly", "c": [0.0, 0.0], "r": 1.0, "v": v, "s": s, "f": f}


@st.composite
def lens_contour(draw: Any, around: bool = False) -> dict[str, Any]:
    """A contour of two edges, at least one of them an arc that bulges; with
    the origin well inside if `around`."""
    phase = draw(q(0.0, 6.28, 100))
    v = [[draw(q(0.85, 1.15, 100)), phase], [draw(q(0.85, 1.15, 100)), round(phase + math.pi + draw(q(-0.3, 0.3, 100)), 4)]]
    big = draw(q(0.9, 1.5, 100))
    kind = "arc_out" if around else draw(st.sampled_from(["line", "arc_out", "arc_out", "arc_in"]))
    if kind == "line":
        other: list[Any] = ["line"]
    elif kind == "arc_out":
        other = [kind, draw(q(0.7 if around else 0.1, 1.4, 100))]
    else:
        other = [kind, draw(q(0.04, max(0.05, big - 0.85), 100))]
    s = [["arc_out", big], other]
    if draw(st.booleans()):
        s.reverse()
    return {"k": "poly", "c": [0.0, 0.0], "r": 1.0, "v": v, "s": s, "f": [False, False]}


@st.composite
def loop_contour(draw: Any, corners: bool = True) -> dict[str, Any]:
    """A closed curve of size about 1."""
    t = draw(
        st.sampled_from(
            ["circle", "ellipse", "bean"]
            + (["teardrop", "cartioid"] if corners else [])
        )
    )
    o: dict[str, Any] = {}
    if t == "circle":
        o = {"radius": 1.0} if draw(st.booleans()) else {}
    elif t == "ellipse":
        o = {"a": draw(q(0.7, 1.4, 100)), "b": draw(q(0.7, 1.4, 100))}
    elif t == "teardrop":
        o = {"alpha": draw(q(1.2, 2.5, 100))} if draw(st.booleans()) else {}
    elif t == "cartioid":
        o = {"a": draw(q(-0.5, 1.0, 100))}
    return {
        "k": "loop",
        "c": [0.0, 0.0],
        "r": 1.0,
        "t": t,
        "o": o,
        "rot": draw(st.sampled_from([0.0, 90.0]) | q(-180.0, 180.0, 1)),
        "f": draw(st.booleans()),
    }


def expand_contour(c: dict[str, Any], sim: list[float], hole: bool) -> list[dict[str, Any]]:
    """Edge specs of a contour; "side" is the side on which the cell lies."""
    scale, rot, tx, ty = sim
    m = scale * np.exp(1j * math.pi * rot / 180.0)
    t0 = complex(tx, ty)
    inner = -1 if hole else 1
    out = []
    if c["k"] == "poly":
        cen = complex(*c["c"])
        z = [
            m * (cen + c["r"] * r * np.exp(1j * th)) + t0 for r, th in c["v"]
        ]
        k = len(z)
        for i in range(k):
            a, b = z[i], z[(i + 1) % k]
            s, flip = c["s"][i], c["f"][i]
            e: dict[str, Any] = {"side": inner}
            kind = s[0]
            if kind == "line":
                e["type"], e["opts"] = "line", {}
            elif kind == "sine":
                amp = s[2]
                if flip:  # same curve from the other end
                    amp = amp * (-1) ** s[1]
                e["type"], e["opts"] = "sine_wave", {"amp": amp, "freq": s[1]}
            elif kind == "spline":
                pts = [0j, complex(1 / 3, s[1]), complex(2 / 3, s[2]), 1 + 0j]
                if flip:
                    pts = [1 - p for p in pts[::-1]]
                e["type"] = "spline"
                e["opts"] = {
                    "pts": [[p.real for p in pts], [p.imag for p in pts]]
                }
            else:
                # the arc bulges to the left of its chord
                h = -0.5 / math.tan(s[1])
                e["type"], e["opts"] = "circular_arc", {"H": h}
                flip = kind == "arc_out"
            if flip:
                a, b = b, a
                e["side"] = -e["side"]
            e["a"] = [float(a.real), float(a.imag)]
            e["b"] = [float(b.real), float(b.imag)]
            out.append(e)
        return out
    o = dict(c["o"])
    e = {"type": c["t"], "opts": o, "a": [0.0, 0.0], "b": [0.0, 0.0], "side": inner}
    # centre the curve roughly at the origin
    shift = {"teardrop": -1.0}.get(c["t"], 0.0)
    ops: list[Any] = []
    if shift:
        ops.append(["translate", shift, 0.0])
    if c["f"]:
        ops.append(["reflect_x"])
        e["side"] = -e["side"]
    ops.append(["dilate", c["r"] * scale])
    ang = c["rot"] + rot
    if ang:
        ops.append(["rotate", ang])
    cen = m * complex(*c["c"]) + t0
    if cen:
        ops.append(["translate", float(cen.real), float(cen.imag)])
    e["ops"] = ops
    return [e]


def contour_points(c: dict[str, Any], sim: Any = (1.0, 0.0, 0.0, 0.0), m: int = 24) -> Any:
    """Sampled points of a contour, counterclockwise."""
    out = []
    for e in expand_contour(c, list(sim), False):
        z = RefCurve(e).eval(np.linspace(0, TWO_PI, m + 1))[0]
        out.append(z[:-1] if e["side"] > 0 else z[:0:-1])
    return np.concatenate(out)


@st.composite
def cell_specs(
    draw: Any,
    max_holes: int = 2,
    corners: bool = True,
    polys: bool = True,
    loops: bool = True,
    curved: bool = True,
    sims: bool = True,
    hole_polys: bool = True,
    min_holes: int = 0,
    big: bool = False,
    kmin: int = 3,
    many: int = 0,
    floor: float = 1e-3,
) -> dict[str, Any]:
    """A cell: an outer contour, holes well inside of it, and a similarity.
    One in `many` cells may have many edges and holes."""
    kmax = 6
    if many and draw(st.integers(0, many - 1)) == many - 1:
        kmax, max_holes = 15, 7
    if polys and (not loops or draw(st.integers(0, 3)) > 0):
        if curved and kmin == 3 and draw(st.integers(0, 9)) == 9:
            outer = draw(lens_contour())
        else:
            outer = draw(poly_contour(kmin=kmin, kmax=kmax, curved=curved))
    else:
        outer = draw(loop_contour(corners=corners))
    pts = contour_points(outer)
    # the largest disc around the best of a few candidate centres
    best, rho = 0j, 0.0
    cands = [0j, 0.25 + 0j, -0.25 + 0j, -0.4 + 0j, 0.25j, -0.25j]
    if len(outer.get("v", "...")) == 2:  # crescents
        cands = [complex(i, j) / 8 for i in range(-8, 9) for j in range(-8, 9)]
    for cand in cands:
        if outer["k"] == "loop":
            cand = cand * np.exp(1j * math.pi * outer["rot"] / 180.0)
        d = float(np.min(np.abs(pts - cand)))
        if d > rho and winding(pts, cand) != 0:
            best, rho = cand, d
    nh = draw(st.integers(min_holes, max_holes))
    holes = []
    # now and then a hole is much smaller than the cell
    tiny = st.sampled_from([1.0] * 7 + [0.03])
    for i in range(nh):
        if hole_polys and draw(st.integers(0, 3)) == 0:
            if curved and draw(st.integers(0, 5)) == 5:
                h = draw(lens_contour(around=True))
            else:
                h = draw(poly_contour(kmin=3, kmax=4, curved=curved))
        else:
            h = draw(loop_contour(corners=False))
        ext = float(np.max(np.abs(contour_points(h))))
        if nh == 1:
            room = 0.55 * rho
            frac = draw(q(0.5, 1.0, 100)) * draw(tiny)
            h["r"] = round(room * frac / ext, 6)
            off = (0.55 * rho - h["r"] * ext) * 0.9
            th = draw(q(0.0, 6.28, 100))
            cen = best + off * np.exp(1j * th)
        else:
            # nh discs of equal room around the centre
            ring = 0.45 * rho
            room = min(0.3 * rho, 0.75 * ring * math.sin(math.pi / nh))
            frac = draw(q(0.6, 1.0, 100)) * draw(tiny)
            h["r"] = round(room * frac / ext, 6)
            th = TWO_PI * i / nh + (holes[0]["th"] if holes else draw(q(0.0, 6.28, 100)))
            cen = best + ring * np.exp(1j * th)
            h["th"] = th
        h["c"] = [round(float(cen.real), 4), round(float(cen.imag), 4)]
        holes.append(h)
    sim = [1.0, 0.0, 0.0, 0.0]
    if sims and draw(st.booleans()):
        scale = draw(mag(-2, 2) | st.sampled_from([0.01, 0.03, 100.0])) if big else draw(q(0.3, 3.0, 10))
        sim = [
            scale,
            draw(st.sampled_from([0.0, 90.0, 180.0]) | q(-180.0, 180.0, 1)),
            draw(q(-3.0, 3.0, 10)) * (scale if big else 1),
            draw(q(-3.0, 3.0, 10)) * (scale if big else 1),
        ]
        # samples of the boundary less than 1e-6 apart coincide for the solver
        if holes and min(h["r"] for h in holes) * scale < floor:
            sim = [scale * 100.0, sim[1], sim[2] * 100.0, sim[3] * 100.0]
    return {"outer": outer, "holes": holes, "sim": sim, "trap": draw(traps(any(c["k"] == "loop" for c in [outer] + holes)))}


SMOOTH = ("circle", "ellipse", "bean")


@st.composite
def traps(draw: Any, loops: bool = True) -> float:
    """Whether smooth loops use the trapezoidal rule, and its number of nodes
    relative to that of the Kress rule (0: the Kress rule is used)."""
    return draw(st.sampled_from([0.0, 1.0, 1.0, 0.75, 1.5])) if loops else 0.0


def quad_of(spec: dict[str, Any], e: dict[str, Any]) -> str:
    """Name of the rule of an edge."""
    if "quad" in e:
        return str(e["quad"])
    return "trap" if spec.get("trap") and e["type"] in SMOOTH else "kress"


def num_of(spec: dict[str, Any], quad: str, n: int) -> int:
    """The n of a rule."""
    return max(4, int(round(n * spec["trap"]))) if quad == "trap" and spec.get("trap") else n


def quads(spec: dict[str, Any], n: int, p: int = 7) -> dict[str, Any]:
    """The library's quadratures for a cell or mesh of a spec."""
    import puncturedfem as pf

    out: dict[str, Any] = pf.get_quad_dict(n=n, p=p)
    m = num_of(spec, "trap", n)
    if m != n:
        out["trap"] = pf.Quad(qtype="trap", n=m)
    return out


def winding(pts: Any, z: complex) -> int:
    """Winding number of the closed polyline around z."""
    w = np.angle(np.roll(pts, -1) - z) - np.angle(pts - z)
    w = (w + np.pi) % TWO_PI - np.pi
    return int(round(float(np.sum(w)) / TWO_PI))


def cell_edges(spec: dict[str, Any]) -> list[dict[str, Any]]:
    """The edge specs of a cell, outer contour first."""
    out = expand_contour(spec["outer"], spec["sim"], False)
    for h in spec["holes"]:
        out += expand_contour(h, spec["sim"], True)
    for e in out:
        e["quad"] = quad_of(spec, e)
    return out


def contour_sizes(spec: dict[str, Any]) -> list[int]:
    """Number of edges of every contour."""
    return [
        len(c["v"]) if c["k"] == "poly" else 1
        for c in [spec["outer"]] + spec["holes"]
    ]


def describe(spec: dict[str, Any], r: Any) -> None:
    """Labels of a cell."""
    o = spec["outer"]
    r.label("outer " + (o["t"] if o["k"] == "loop" else f"polygon {len(o['v'])}"))
    r.label(f"{len(spec['holes'])} holes")
    for h in spec["holes"]:
        r.label("hole " + (h["t"] if h["k"] == "loop" else "polygon"))
    if spec["sim"] != [1.0, 0.0, 0.0, 0.0]:
        r.label("moved")
    t = spec.get("trap")
    if t:
        r.label("trapezoidal rule on loops" + ("" if t == 1 else ", other number of points"))


def build_cell(
    spec: dict[str, Any],
    n: int = 32,
    p: int = 7,
    idx: int = 0,
    order: Any = None,
    interior: bool = False,
    quad: Any = None,
    param: bool = True,
) -> tuple[Any, list[dict[str, Any]]]:
    """The library's cell of a spec and its edge specs."""
    import puncturedfem as pf

    from .geom import build_edge

    specs = cell_edges(spec)
    if quad is not None:
        for e in specs:
            e["quad"] = quad
    edges = []
    for i, e in enumerate(specs):
        pos, neg = (idx, -1) if e["side"] > 0 else (-1, idx)
        edges.append(build_edge(e, pos, neg, i))
    if order is not None:
        edges = [edges[i] for i in order]
    cell = pf.MeshCell(idx=idx, edges=edges)
    if param:
        cell.parameterize(
            quads(spec, n, p), compute_interior_points=interior
        )
    return cell, specs


# POLYNOMIALS ################################################################


@st.composite
def poly_terms(
    draw: Any, deg: int = 3, terms: int = 4, lo: int = 0, den: int = 8, big: float = 4.0
) -> list[list[Any]]:
    """Terms [coef, i, j] (dyadic coefficients, multi-indices may repeat)."""
    m = draw(st.integers(lo, terms))
    out = []
    for _ in range(m):
        d = draw(st.integers(0, deg))
        j = draw(st.integers(0, d))
        out.append([draw(q(-big, big, den)), d - j, j])
    return out


def tuples(terms: Any) -> list[tuple[float, int, int]]:
    """What the constructor of a Polynomial takes."""
    return [(c, i, j) for c, i, j in terms]


def no_triangulation(cell: Any) -> None:
    """Skip the triangulation of the interior points of this cell (it is slow
    and takes no part in computing them)."""
    if hasattr(cell, "_build_triangulation"):
        cell._build_triangulation = lambda: None
