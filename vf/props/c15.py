"""C15: spaces of polynomial traces on edges."""

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import edge_specs, joinable, mag, q
from ..geom import LOOPS, RefCurve, build_edge


@st.composite
def cases(draw):
    e = draw(edge_specs(bounds=draw(st.booleans()), loops_with_bounds=True))
    t = e["type"]
    if t == "sine_wave":
        e["opts"] = {"amp": draw(q(-0.5, 0.5, 100)), "freq": draw(st.integers(1, 4))}
    elif t == "ellipse":
        e["opts"] = {"a": draw(q(0.5, 2, 100)), "b": draw(q(0.5, 2, 100))}
    elif t == "circular_arc":
        e["opts"] = {"H": draw(q(-1.5, 0.8, 100))}
    elif t == "circular_arc_deg":
        e["opts"] = {"theta0": draw(q(30, 330, 1))}
    elif t == "spline":
        m = draw(st.integers(4, 5))
        xs = [i / (m - 1) for i in range(m)]
        ys = [0.0] + [draw(q(-0.4, 0.4, 100)) for _ in range(m - 2)] + [0.0]
        e["opts"] = {"pts": [xs, ys]}
    elif t == "cartioid":
        e["opts"] = {"a": draw(q(-0.5, 1.0, 100))}
    elif t == "teardrop":
        e["opts"] = {"alpha": draw(q(1.2, 3.0, 100))}
    if t == "line" and draw(st.booleans()):
        # parallel to an axis
        L = draw(mag(-2, 2))
        T = L * draw(st.sampled_from([0, 0, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8]))
        e["b"] = [e["a"][0] + L, e["a"][1] + T] if draw(st.booleans()) else [e["a"][0] + T, e["a"][1] - L]
    e["ai"], e["bi"] = draw(st.integers(0, 20)), draw(st.integers(21, 40))
    if e["a"] == e["b"]:
        e["bi"] = e["ai"]
    return {
        "e": e,
        "deg": draw(st.sampled_from([1, 2, 2, 3, 3, 3])),
        "n": draw(st.sampled_from([32, 48, 64])),
        "idx": draw(st.integers(0, 30)),
    }


def check(s, r: Recorder):
    import puncturedfem as pf

    e, deg = s["e"], s["deg"]
    if not joinable(e):
        raise Rejected()
    rc = RefCurve(e)
    z, d, w = rc.gauss(pieces=6)
    far = float(np.max(np.abs(z)))
    cen = complex(np.mean(z.real), np.mean(z.imag))
    size = float(np.max(np.abs(z - cen)))
    if far > 30 * size:
        raise Rejected()
    edge = build_edge(e, 0, -1, s["idx"])
    edge.parameterize(pf.get_quad_dict(n=s["n"], p=7))
    sp = pf.EdgeSpace(edge, deg)
    loop = e["a"] == e["b"]
    r.label(e["type"], f"degree {deg}", "loop" if loop else "open")
    nv, ne = sp.num_vert_funs, sp.num_edge_funs
    r.eq("number of vertex functions", (nv, len(sp.vert_fun_traces)), ((0, 0) if loop else (2, 2)))
    r.eq("number of edge functions", len(sp.edge_fun_traces), ne)
    r.eq("number of functions", sp.num_funs, nv + ne)
    # keys
    r.eq("vertex keys", [k.vert_idx for k in sp.vert_fun_global_keys], [] if loop else [e["ai"], e["bi"]])
    r.eq("edge keys", [(k.edge_idx, k.edge_space_idx) for k in sp.edge_fun_global_keys], [(s["idx"], k) for k in range(ne)])
    # values at the ends
    lib = list(sp.vert_fun_traces) + list(sp.edge_fun_traces)
    a, b = rc.ends()
    amp = (1 + far / size) ** deg
    x, y = z.real, z.imag
    vals = np.array([f(x, y) for f in lib])
    top = [max(1e-3, float(np.max(np.abs(v)))) for v in vals]
    if not loop:
        for i, f in enumerate(lib):
            ends = [float(f(a.real, a.imag)), float(f(b.real, b.imag))]
            want = [float(i == 0), float(i == 1)]
            r.close("values at the ends", ends, want, 1e-6, amp * max(1.0, top[i]))
        r.close("the vertex functions along the chord", vals[0] + vals[1] if e["type"] == "line" else [1.0], np.ones(len(x)) if e["type"] == "line" else [1.0], 1e-10, amp * 10)
    for f in lib:
        r.true(max((m.alpha.order for m in f.monos), default=0) <= deg, "degree of a function")
    # the space of all the polynomials on the curve
    u = (z - cen) / size
    wt = np.sqrt(np.abs(d) * w / np.sum(np.abs(d) * w))
    A = np.array([u.real**i * u.imag**j * wt for i in range(deg + 1) for j in range(deg + 1 - i)]).T
    U, S, _ = np.linalg.svd(A, full_matrices=False)
    S = S / S[0]
    B = (vals * wt).T
    if B.shape[1]:
        B = B / np.linalg.norm(B, axis=0).clip(1e-12)
        Ub, Sb, _ = np.linalg.svd(B, full_matrices=False)
    else:
        Ub, Sb = np.zeros((len(wt), 0)), np.ones(1)
    res = A - Ub @ (Ub.T @ A)
    r.close("polynomials of the degree are in the space (roughly)", float(np.max(np.linalg.norm(res, axis=0))), 0.0, 5e-2)
    clear = np.all((S > 2e-2) | (S < 1e-7))
    if not clear:
        r.label("nearly dependent polynomials: the dimension depends on the tolerance")
        return
    rank = int(np.sum(S > 2e-2))
    r.eq("dimension", nv + ne, rank)
    r.close("every polynomial of the degree is in the space", float(np.max(np.linalg.norm(res, axis=0))), 0.0, 1e-6, amp)
    resb = B - U[:, :rank] @ (U[:, :rank].T @ B)
    r.close("the space contains only polynomials", float(np.max(np.linalg.norm(resb, axis=0))), 0.0, 1e-6, amp)
    r.true(float(Sb[-1]) > 1e-6, "the functions are linearly independent", Sb)
    r.nt(deg > 1)


@st.composite
def bad(draw):
    return {"deg": draw(st.integers(-3, 0)), "what": draw(st.sampled_from(["deg", "float", "edge"]))}


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    e = build_edge({"type": "line", "opts": {}, "a": [0, 0], "b": [1, 0]}, 0, -1, 0)
    e.parameterize(pf.get_quad_dict(n=16, p=7))
    if s["what"] == "deg":
        r.raises("degree below 1", ValueError, pf.EdgeSpace, e, s["deg"])
    elif s["what"] == "float":
        r.raises("fractional degree", TypeError, pf.EdgeSpace, e, s["deg"] + 2.5)
    else:
        r.raises("not an edge", TypeError, pf.EdgeSpace, [e], 1)
    r.nt()


PROP = Prop(
    "C15",
    [
        Sub("spaces", cases(), check, quick=1000, thorough=15000, shards=8,
            rule="edges of any type, place and size, degrees 1 to 3, against the space of all the polynomials on the exact curve; non-trivial: degree at least 2 and the dimension was decided"),
        Sub("rejected", bad(), check_bad, quick=30, thorough=100, shards=1, rule="invalid arguments; non-trivial: always"),
    ],
)
