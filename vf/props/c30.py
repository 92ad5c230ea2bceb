"""C30: algebra of vertices."""

import cmath
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub

NUM = (
    st.integers(-50, 50)
    | st.floats(-1e3, 1e3, allow_nan=False).map(lambda v: float(f"{v:.6g}"))
    | st.sampled_from([0.0, -0.0, 1.0, 1e-9, 1e12, -1e-3, 0.5])
)


@st.composite
def programs(draw):
    k = draw(st.integers(1, 3))
    start = [[draw(NUM), draw(NUM), draw(st.integers(-1, 9))] for _ in range(k)]
    ops = []
    for j in range(draw(st.integers(1, 8))):
        name = draw(st.sampled_from(["add", "sub", "mul", "rmul", "vmul", "div", "vdiv", "set", "isub", "imul"]))
        i1, i2 = draw(st.integers(0, k + j - 1)), draw(st.integers(0, k + j - 1))
        ops.append([name, i1, i2, draw(NUM), draw(NUM)])
    return {"start": start, "ops": ops}


def check_programs(s, r: Recorder):
    import puncturedfem as pf

    lib = []
    ref = []
    idx = []
    for x, y, i in s["start"]:
        lib.append(pf.Vert(x, y, i) if i >= 0 else pf.Vert(x=x, y=y))
        ref.append((float(x), float(y)))
        idx.append(i)
    used = set()
    for name, i, j, a, b in s["ops"]:
        (x, y), (u, v) = ref[i], ref[j]
        p, w = lib[i], lib[j]
        try:
            if name == "add":
                new, val = p + w, (x + u, y + v)
            elif name == "sub":
                new, val = p - w, (x - u, y - v)
            elif name == "mul":
                new, val = p * a, (x * a, y * a)
            elif name == "rmul":
                new, val = a * p, (x * a, y * a)
            elif name == "vmul":
                new, val = p * w, (x * u, y * v)
            elif name == "isub":
                new = p
                new -= w
                val = (x - u, y - v)
            elif name == "imul":
                new = p
                new *= a
                val = (x * a, y * a)
            elif name == "div":
                if a == 0:
                    r.raises("division by zero", ZeroDivisionError, lambda: p / a)
                    r.label("division by zero")
                    new, val = p + w, (x + u, y + v)
                else:
                    new, val = p / a, (x / a, y / a)
            elif name == "vdiv":
                if u == 0 or v == 0:
                    r.raises("division by zero", ZeroDivisionError, lambda: p / w)
                    r.label("division by zero")
                    new, val = p - w, (x - u, y - v)
                else:
                    new, val = p / w, (x / u, y / v)
            else:
                new = pf.Vert(x, y)
                new.set_coord(a, b)
                val = (float(a), float(b))
        except OverflowError:
            return
        if not all(math.isfinite(t) and abs(t) < 1e150 for t in val):
            return
        used.add(name)
        r.true(type(new) is pf.Vert, "the result is a vertex")
        r.true(all(new is not t for t in lib), "the result is a new vertex")
        lib.append(new)
        ref.append(val)
        idx.append(-1)
        # every vertex so far, operands included
        for t, c, k in zip(lib, ref, idx):
            sc = max(abs(c[0]), abs(c[1]), 1e-300)
            r.close("coordinates", np.array([t.x, t.y]), np.array(c), 1e-13, sc)
            r.eq("label", t.idx, k)
    for t, c, k in zip(lib, ref, idx):
        r.eq("coordinates as a pair", tuple(t.get_coord()), (t.x, t.y))
        arr = t.get_coord_array()
        r.true(isinstance(arr, np.ndarray) and arr.shape == (2,) and arr.tolist() == [t.x, t.y], "coordinates as an array")
        r.close("norm", t.norm(), math.hypot(*c), 1e-12, max(math.hypot(*c), 1e-140))
        arr[:] = 7.0
        r.true(t.get_coord() == tuple(t.get_coord()) and t.x == t.get_coord()[0], "an array of its own")
        r.close("coordinates after changing the array", np.array([t.x, t.y]), np.array(c), 1e-13, max(abs(c[0]), abs(c[1]), 1e-300))
        r.true(type(t.x) is float and type(t.y) is float, "coordinates are floats", type(t.x))
        for p, d in zip(lib, ref):
            gap = math.hypot(c[0] - d[0], c[1] - d[1])
            if gap == 0 or gap < 1e-13:
                r.true(t == p and not t != p, "equal vertices")
            elif gap > 1e-11:
                r.true(t != p and not t == p, "different vertices")
    r.nt(len(used) > 1 and len(s["ops"]) > 2)


@st.composite
def close_cases(draw):
    return {
        "v": [draw(NUM), draw(NUM), draw(st.integers(-1, 5)), draw(st.integers(-1, 5))],
        "angle": draw(st.floats(0, 6.28).map(lambda v: round(v, 3))),
        "edge": draw(st.sampled_from([0.0, 0.0, 0.0, 0.9e-12, 0.98e-12, 1.05e-12, 1.3e-12, 1.7e-12])),
        "gap": draw(st.sampled_from([0.0, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-6, 1e-3, 1.0])),
    }


def check_close(s, r: Recorder):
    import puncturedfem as pf

    x, y, i, j = s["v"]
    x, y = (float(x) if abs(x) < 2 else 0.5), (float(y) if abs(y) < 2 else -0.25)
    if s["edge"]:
        # close to the tolerance, where the rounding of coordinates would matter
        x = y = 0.0
        s = {**s, "gap": s["edge"]}
    d = s["gap"] * cmath.exp(1j * s["angle"])
    p, w = pf.Vert(x, y, i), pf.Vert(x + d.real, y + d.imag, j)
    same = s["gap"] < 1e-12
    r.eq("equality", (p == w, w == p, p != w), (same, same, not same))
    for other in (None, 1.0, (x, y), "v", np.array([x, y])[:1] if False else [x, y]):
        r.true(not p == other and p != other, "a vertex equals no other object", repr(other))
    r.label("equal" if same else "different")
    r.nt(s["gap"] > 0)


BAD = [None, "1", "x", [1.0], (1.0, 2.0), 1j, {}, b"1"]


@st.composite
def bad_cases(draw):
    return {"x": draw(NUM), "y": draw(NUM), "which": draw(st.sampled_from(["x", "y", "both", "idx", "set_idx", "set_x", "set_y"])), "bad": draw(st.integers(0, len(BAD) - 1)), "op": draw(st.integers(0, 6))}


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    bad, x, y, w = BAD[s["bad"]], s["x"], s["y"], s["which"]
    r.label(w)
    r.nt()
    if w == "x":
        r.raises("x", TypeError, pf.Vert, bad, y)
    elif w == "y":
        r.raises("y", TypeError, pf.Vert, x, bad)
    elif w == "both":
        r.raises("x and y", TypeError, pf.Vert, bad, bad)
    elif w == "idx":
        for b in (bad, 1.0, 0.5):
            r.raises("idx", TypeError, pf.Vert, x, y, b)
    v = pf.Vert(x, y, 4)
    state = (v.x, v.y, v.idx)
    for b in (bad, 2.0):
        if w == "set_idx":
            r.raises("idx", TypeError, v.set_idx, b)
    if w == "set_x":
        r.raises("x", TypeError, v.set_coord, bad, y)
    elif w == "set_y":
        r.raises("y", TypeError, v.set_coord, x, bad)
    ops = [lambda: v + bad, lambda: v - bad, lambda: v * bad, lambda: v / bad, lambda: v + 1.0, lambda: v - 1, lambda: bad * v]
    r.raises("operation with something that is not a vertex", TypeError, ops[s["op"]])
    r.eq("the vertex afterwards", (v.x, v.y, v.idx), state)


PROP = Prop(
    "C30",
    [
        Sub("programs", programs(), check_programs, quick=2500, thorough=200000, shards=4,
            rule="programs of operations on vertices against plane vectors; non-trivial: at least two kinds of operations and three operations"),
        Sub("equality", close_cases(), check_close, quick=1500, thorough=50000, shards=2,
            rule="pairs of vertices at given distances; non-trivial: not the same place"),
        Sub("invalid", bad_cases(), check_bad, quick=1500, thorough=20000, shards=2,
            rule="arguments of other types for coordinates, labels and operands; non-trivial: always"),
    ],
)
