"""Generated planar meshes.

A mesh spec is {"edges": [edge spec with "pos", "neg", "ai", "bi"], "kind"}:
edges in the order in which they are given to the library, with the labels of
the cells on either side (-1: none) and of the vertices."""

from __future__ import annotations

import cmath
import math
from typing import Any

from hypothesis import strategies as st

from .geom import TWO_PI, build_edge
from .gens import SMOOTH, expand_contour, loop_contour, q, quad_of, traps


def edge(kind: Any, a: complex, b: complex, left: Any, right: Any, va: Any, vb: Any) -> dict[str, Any]:
    """An edge from a to b with the given cells and vertices."""
    e: dict[str, Any] = {"pos": left, "neg": right, "ai": va, "bi": vb}
    name = kind[0]
    if name == "line":
        e["type"], e["opts"] = "line", {}
    elif name == "sine":
        e["type"], e["opts"] = "sine_wave", {"amp": kind[2], "freq": kind[1]}
    elif name == "arc":
        # bulges to the left by the angle kind[1] (negative: to the right)
        e["type"], e["opts"] = "circular_arc", {"H": -0.5 / math.tan(abs(kind[1]))}
        if kind[1] < 0:
            a, b = b, a
            e["pos"], e["neg"], e["ai"], e["bi"] = right, left, vb, va
    elif name == "spline":
        pts = [0j, complex(1 / 3, kind[1]), complex(2 / 3, kind[2]), 1 + 0j]
        e["type"], e["opts"] = "spline", {"pts": [[p.real for p in pts], [p.imag for p in pts]]}
    e["a"], e["b"] = [a.real, a.imag], [b.real, b.imag]
    return e


def reverse(e: dict[str, Any]) -> dict[str, Any]:
    """The same curve traversed backwards (None if it has no such form)."""
    o = dict(e)
    if e["type"] == "line":
        pass
    elif e["type"] == "sine_wave":
        f = e["opts"]["freq"]
        o["opts"] = {"amp": e["opts"]["amp"] * (-1) ** f, "freq": f}
    elif e["type"] == "spline":
        x, y = e["opts"]["pts"]
        o["opts"] = {"pts": [[1 - v for v in x[::-1]], [-v for v in y[::-1]]]}
    else:
        return e
    o["a"], o["b"], o["ai"], o["bi"] = e["b"], e["a"], e["bi"], e["ai"]
    o["pos"], o["neg"] = e["neg"], e["pos"]
    return o


@st.composite
def side(draw: Any, tilt: float) -> list[Any]:
    """A side close to its chord."""
    name = draw(st.sampled_from(["line", "line", "sine", "arc", "spline"]))
    if name == "line":
        return ["line"]
    if name == "sine":
        w = draw(st.integers(1, 3))
        return ["sine", w, round(draw(q(-tilt, tilt, 100)) / (math.pi * w), 5)]
    if name == "arc":
        t = draw(q(0.05, tilt, 100))
        return ["arc", t if draw(st.booleans()) else -t]
    d = tilt / 8
    return ["spline", draw(q(-d, d, 1000)), draw(q(-d, d, 1000))]


@st.composite
def mesh_specs(
    draw: Any,
    nx: int = 3,
    ny: int = 2,
    holes: bool = True,
    sims: bool = True,
    big: bool = False,
    curved: bool = True,
    labels: bool = True,
    kinds: Any = ("grid", "grid", "grid", "sectors", "rings"),
    max_punctures: int = 2,
    voids: bool = True,
    min_cells: int = 1,
    wide: bool = False,
) -> dict[str, Any]:
    """A planar mesh."""
    kind = draw(st.sampled_from(list(kinds)))
    edges: list[dict[str, Any]] = []
    cells: list[Any] = []
    verts: list[Any] = []
    centres: dict[Any, tuple[complex, float]] = {}
    tilt = 0.2
    if kind == "grid":
        mx = draw(st.integers(1, nx))
        my = draw(st.integers(1, ny))
        if mx * my < min_cells:
            mx, my = nx, ny
        pt = {}
        for i in range(mx + 1):
            for j in range(my + 1):
                pt[(i, j)] = complex(
                    i + draw(q(-0.1, 0.1, 100)), j + draw(q(-0.1, 0.1, 100))
                )
        owner: dict[Any, Any] = {}
        allc = [(i, j) for i in range(mx) for j in range(my)]
        for c in allc:
            owner[c] = c
        # remove cells (notches and voids)
        if voids and len(allc) - 1 >= max(min_cells, 1) and len(allc) > 2 and draw(st.integers(0, 3)) == 0:
            owner[draw(st.sampled_from(allc))] = None
        # merge two neighbours
        left = [c for c in allc if owner[c] is not None]
        if len(left) - 1 >= max(min_cells, 1) and len(left) > 2 and draw(st.integers(0, 3)) == 0:
            c = draw(st.sampled_from(left))
            nb = [d for d in ((c[0] + 1, c[1]), (c[0], c[1] + 1)) if owner.get(d) is not None]
            if nb:
                owner[nb[0]] = c

        def own(i: int, j: int) -> Any:
            return owner.get((i, j))

        for i in range(mx):
            for j in range(my + 1):
                l, r = own(i, j), own(i, j - 1)
                if l != r:
                    k = draw(side(tilt)) if curved else ["line"]
                    edges.append(edge(k, pt[(i, j)], pt[(i + 1, j)], l, r, (i, j), (i + 1, j)))
        for i in range(mx + 1):
            for j in range(my):
                l, r = own(i - 1, j), own(i, j)
                if l != r:
                    k = draw(side(tilt)) if curved else ["line"]
                    edges.append(edge(k, pt[(i, j)], pt[(i, j + 1)], l, r, (i, j), (i, j + 1)))
        for c in allc:
            if owner[c] is not None and owner[c] not in centres:
                z = sum(pt[(c[0] + a, c[1] + b)] for a in (0, 1) for b in (0, 1)) / 4
                centres[owner[c]] = (z, 1.0)
    elif kind == "sectors":
        k = draw(st.integers(2, 4))
        ph = draw(q(0.0, 6.0, 100))
        rad = draw(q(0.8, 1.5, 10))
        ang = [ph + TWO_PI / k * (i + draw(q(-0.1, 0.1, 100))) for i in range(k)]
        z = [rad * cmath.exp(1j * a) for a in ang]
        present = [True] * k
        if voids and k > 2 and k - 1 >= min_cells and draw(st.integers(0, 3)) == 0:
            present[0] = False
        for i in range(k):
            me = ("s", i) if present[i] else None
            before = ("s", (i - 1) % k) if present[(i - 1) % k] else None
            if me is None and before is None:
                continue
            kd = draw(side(0.1)) if curved else ["line"]
            edges.append(edge(kd, 0j, z[i], me, before, "o", ("z", i)))
        for i in range(k):
            if not present[i]:
                continue
            d = ang[(i + 1) % k] + (TWO_PI if i == k - 1 else 0.0) - ang[i]
            # arc of the circle: bulges to the right of z_i -> z_{i+1}
            round_ = curved and (d >= 3.1 or draw(st.integers(0, 3)) > 0)
            if round_:
                kd = ["arc", -0.5 * min(d, 3.0)]
            else:
                kd = ["line"] if d < 2.5 else ["arc", -0.3]
            edges.append(edge(kd, z[i], z[(i + 1) % k], ("s", i), None, ("z", i), ("z", (i + 1) % k)))
            mid = 0.5 * (ang[i] + ang[i] + d)
            if round_:
                centres[("s", i)] = (0.52 * rad * cmath.exp(1j * mid), 0.5 * rad * (0.8 if k > 2 else 1.0))
            elif d < 1.9:
                flat = rad * math.cos(0.5 * d)
                centres[("s", i)] = (0.58 * flat * cmath.exp(1j * mid), 0.4 * flat)
    else:
        # nested or side by side loops in a loop
        big = draw(loop_contour(corners=False))
        if big["t"] != "circle":
            big["t"], big["o"] = "ellipse", {"a": draw(q(0.8, 1.3, 100)), "b": draw(q(0.8, 1.3, 100))}
        e = expand_contour(big, [1.0, 0.0, 0.0, 0.0], False)[0]
        sgn = e.pop("side")
        e["pos"], e["neg"] = ("r", None) if sgn > 0 else (None, "r")
        e["ai"] = e["bi"] = None
        edges.append(e)
        centres["r"] = (0j, 1.6)
    cells = sorted({c for e in edges for c in (e["pos"], e["neg"]) if c is not None}, key=str)
    # punctures
    budget = draw(st.integers(0, max_punctures)) if holes else 0
    if kind == "rings" and holes and max_punctures:
        budget = max(budget, 1)
    fresh = 0
    stack = list(cells)
    while budget > 0 and stack:
        c = stack.pop(draw(st.integers(0, len(stack) - 1)))
        if c not in centres:
            continue
        z0, s0 = centres[c]
        budget -= 1
        fill: Any = ("f", fresh) if draw(st.booleans()) else None
        fresh += 1
        if draw(st.integers(0, 2)) == 0 and kind != "rings":
            # a polygon
            k = draw(st.integers(3, 4))
            rr = draw(q(0.15, 0.24, 100)) * s0
            ph = draw(q(0.0, 6.0, 100))
            zz = [z0 + rr * cmath.exp(1j * (ph + TWO_PI * i / k)) for i in range(k)]
            for i in range(k):
                kd = draw(side(0.15)) if curved else ["line"]
                edges.append(
                    edge(kd, zz[i], zz[(i + 1) % k], fill, c, ("h", fresh, i), ("h", fresh, (i + 1) % k))
                )
            if fill is not None:
                centres[fill] = (z0, 0.0)
        else:
            lc = draw(loop_contour(corners=False))
            size = 0.2 if lc["t"] == "bean" else 0.26
            lc["r"] = round(draw(q(0.5, 1.0, 100)) * size * s0 / (1.4 if lc["t"] == "ellipse" else 1.0) / (1.65 if lc["t"] == "bean" else 1.0), 4)
            lc["c"] = [round(z0.real, 4), round(z0.imag, 4)]
            e = expand_contour(lc, [1.0, 0.0, 0.0, 0.0], False)[0]
            sgn = e.pop("side")
            e["pos"], e["neg"] = (fill, c) if sgn > 0 else (c, fill)
            e["ai"] = e["bi"] = None
            edges.append(e)
            if fill is not None and lc["t"] == "circle":
                centres[fill] = (z0, lc["r"] * 1.6)
        if fill is not None and centres.get(fill, (0, 0))[1] > 0 and wide:
            stack.append(fill)
    # labels, orientation, order, similarity
    cells = sorted({c for e in edges for c in (e["pos"], e["neg"]) if c is not None}, key=str)
    verts = sorted({v for e in edges for v in (e["ai"], e["bi"]) if v is not None}, key=str)
    if labels and draw(st.booleans()):
        cl = draw(st.permutations(list(range(len(cells)))))
        gap = draw(st.integers(1, 3))
        cmap = {c: gap * k + draw(st.integers(0, gap - 1)) for c, k in zip(cells, cl)}
        vl = draw(st.permutations(list(range(len(verts)))))
        vgap = draw(st.integers(1, 3))
        vmap = {v: vgap * k + draw(st.integers(0, vgap - 1)) for v, k in zip(verts, vl)}
    else:
        cmap = {c: k for k, c in enumerate(cells)}
        vmap = {v: k for k, v in enumerate(verts)}
    loop_label = draw(st.booleans()) if labels else False
    out = []
    # any negative label means the outside
    outside = draw(st.sampled_from([1, 1, 4])) if labels else 1
    for n, e in enumerate(edges):
        if labels and draw(st.booleans()):
            e = reverse(e)
        e = dict(e)
        out_label = -1 - n % outside
        e["pos"] = out_label if e["pos"] is None else cmap[e["pos"]]
        e["neg"] = out_label if e["neg"] is None else cmap[e["neg"]]
        if e["ai"] is None:
            e["ai"] = e["bi"] = -1
        else:
            e["ai"], e["bi"] = vmap[e["ai"]], vmap[e["bi"]]
        out.append(e)
    del loop_label
    if labels:
        out = list(draw(st.permutations(out)))
    sim = [1.0, 0.0, 0.0, 0.0]
    if sims and draw(st.booleans()):
        sim = [draw(q(0.4, 2.5, 10)), draw(q(-180.0, 180.0, 1)), draw(q(-2.0, 2.0, 10)), draw(q(-2.0, 2.0, 10))]
        if big and draw(st.integers(0, 2)) == 0:
            # domains measured in other units
            unit = draw(st.sampled_from([0.01, 0.1, 10.0, 100.0, 1000.0]))
            sim = [round(sim[0] * unit, 6), sim[1], sim[2] * unit, sim[3] * unit]
        out = [move(e, sim) for e in out]
    for e in out:
        e["a"] = [float(f"{v:.12g}") for v in e["a"]]
        e["b"] = [float(f"{v:.12g}") for v in e["b"]]
    trap = draw(traps(any(e["type"] in SMOOTH for e in out)))
    return {"kind": kind, "edges": out, "sim": sim, "trap": trap}


def move(e: dict[str, Any], sim: list[float]) -> dict[str, Any]:
    """The edge mapped by a similarity."""
    s, rot, tx, ty = sim
    o = dict(e)
    if e["a"] == e["b"]:
        ops = list(e.get("ops", []))
        ops += [["dilate", s], ["rotate", rot], ["translate", tx, ty]]
        o["ops"] = ops
    else:
        m = s * cmath.exp(1j * math.pi * rot / 180)
        for k in ("a", "b"):
            z = m * complex(*e[k]) + complex(tx, ty)
            o[k] = [z.real, z.imag]
    return o


def cell_labels(spec: dict[str, Any]) -> list[int]:
    """Labels of the cells, increasing."""
    return sorted({c for e in spec["edges"] for c in (e["pos"], e["neg"]) if c >= 0})


def vert_labels(spec: dict[str, Any]) -> list[int]:
    """Labels of the vertices, increasing."""
    return sorted({v for e in spec["edges"] for v in (e["ai"], e["bi"]) if v >= 0})


def edges_of(spec: dict[str, Any], cell: int) -> list[dict[str, Any]]:
    """Edge specs of a cell, with "side" and the position "k" in the mesh."""
    out = []
    for k, e in enumerate(spec["edges"]):
        if cell in (e["pos"], e["neg"]):
            out.append(dict(e, side=1 if e["pos"] == cell else -1, k=k))
    return out


def build_mesh(spec: dict[str, Any], order: Any = None) -> Any:
    """The library's mesh (sharing vertices by label)."""
    import puncturedfem as pf

    edges = [build_edge(dict(e, quad=quad_of(spec, e)), e["pos"], e["neg"], None) for e in spec["edges"]]
    if order is not None:
        edges = [edges[k] for k in order]
    return pf.PlanarMesh(edges, verbose=False)


def label_mesh(spec: dict[str, Any], r: Any) -> None:
    """Labels of the case."""
    r.label(spec["kind"], f"{len(cell_labels(spec))} cells")
    if any(e["a"] == e["b"] for e in spec["edges"]):
        r.label("loops")
    if any(e["type"] != "line" and e["a"] != e["b"] for e in spec["edges"]):
        r.label("curved sides")
    if spec.get("trap"):
        r.label("trapezoidal rule on loops")
    c = cell_labels(spec)
    if c != list(range(len(c))):
        r.label("gaps in the labels")
