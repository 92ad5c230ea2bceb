"""C27: the same computation again, among others."""

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Rejected, Sub
from ..gens import build_cell, cell_specs, describe, no_triangulation, poly_terms, tuples
from ..harm import warm
from ..meshgen import build_mesh, cell_labels, label_mesh, mesh_specs
from ..state import difference, state

TOL = 1e-8
KINDS = [
    "function", "function", "function", "solver", "h1", "l2", "products", "inside", "combine", "query", "resample", "other rule",
    "space", "neumann", "edge space", "trace", "again", "global", "sums",
]


class Shared:
    """Objects that several worlds use."""

    def __init__(self, s):
        import puncturedfem as pf

        self.pf = pf
        self.quads = [pf.get_quad_dict(n=s["n"], p=s["p"]), pf.get_quad_dict(n=s["n"] + s["more"], p=s["p"] if s["more"] else s["p"] - 1)]
        if s["more"]:
            self.quads[1]["trap"] = pf.Quad(qtype="trap", n=s["n"] + 4)
        self.polys = [pf.Polynomial(tuples(t)) for t in s["polys"]]
        self.mesh = build_mesh(s["mesh"]) if s["mesh"] is not None else None
        self.labels = cell_labels(s["mesh"]) if s["mesh"] is not None else []

    def inputs(self):
        return state([self.quads, self.polys, self.mesh])


class World:
    """A cell and what was made on it."""

    def __init__(self, s, k, shared, rule=0):
        self.sh = shared
        self.pf = shared.pf
        w = s["worlds"][k]
        if w["cell"] is None:
            self.K = shared.mesh.get_cell(shared.labels[w["label"] % len(shared.labels)])
        else:
            self.K, _ = build_cell(w["cell"], param=False)
        no_triangulation(self.K)
        self.K.set_interior_mesh_size(7, 6)
        self.K.set_interior_point_tolerance(rtol=0.02, atol=1e-9)
        self.rule = rule
        self.sample()

    def sample(self):
        self.K.parameterize(self.sh.quads[self.rule])
        self.clear()

    def clear(self):
        self.nyst = None
        self.funs = []
        self.arrays = []
        self.last = None

    def solver(self):
        if self.nyst is None:
            self.nyst = self.pf.NystromSolver(self.K)
        return self.nyst

    def fun(self, i):
        if not self.funs:
            self.do_function(i, i + 1, i)
        return self.funs[i % len(self.funs)]

    def own(self):
        """The objects that an operation may not change."""
        return state([self.K, self.nyst, self.arrays, [(f.laplacian, f.trace, f.harm.trace, f.poly.exact_form) if hasattr(f, "laplacian") else f for f in self.funs]])

    def do(self, op):
        out = getattr(self, "do_" + op["op"].replace(" ", "_"))(op["i"], op["j"], op["k"])
        return [np.array(x, dtype=float).ravel() for x in out]

    # operations

    def do_function(self, i, j, k):
        P = self.sh.polys
        x, y = self.K.get_boundary_points()
        t = P[j % len(P)]
        kind = k % 5
        if kind == 0:
            trace = 0.5 * (k % 7) - 1.0
        elif kind == 1:
            trace = t(x, y) * np.ones(len(x))
            self.arrays.append(trace)
        elif kind == 2:
            trace = self.pf.DirichletTrace(self.K)
            trace.set_funcs_from_polys([t] * self.K.num_edges)
        elif kind == 3:
            trace = self.pf.DirichletTrace(self.K, values=[float(m % 3) for m in range(self.K.num_edges)])
        else:
            trace = self.pf.DirichletTrace(self.K, values=np.exp(0.1 * x) * y)
        f = self.pf.LocalPoissonFunction(self.solver(), laplacian=P[i % len(P)], trace=trace, evaluate_interior=k % 2 == 0, evaluate_gradient=k % 4 == 0)
        self.funs.append(f)
        out = [f.get_trace_values(), f.harm.trace.w_norm_deriv, f.harm.trace.w_tang_deriv]
        if k % 2 == 0:
            out.append(f.int_vals)
        return out

    def do_solver(self, i, j, k):
        self.nyst = self.pf.NystromSolver(self.K, precond_type=["jacobi", "jacobi"][k % 2])
        x, y = self.K.get_boundary_points()
        return [self.nyst.single_layer_mat, self.nyst.double_layer_mat]

    def do_h1(self, i, j, k):
        return [self.fun(i).get_h1_semi_inner_prod(self.fun(j))]

    def do_l2(self, i, j, k):
        return [self.fun(i).get_l2_inner_prod(self.fun(j))]

    def do_products(self, i, j, k):
        self.fun(i)
        f = self.funs[-4:]
        return [[[a.get_h1_semi_inner_prod(b), a.get_l2_inner_prod(b)] for b in f] for a in f]

    def do_inside(self, i, j, k):
        f = self.fun(i)
        f.compute_interior_values(compute_int_grad=True)
        return [f.int_vals, f.int_grad1, f.int_grad2]

    def do_combine(self, i, j, k):
        f, g = self.fun(i), self.fun(j)
        h = f * (0.5 * (k % 5) - 1.0) + g / (1 + k % 3)
        self.funs.append(h)
        return [h.get_trace_values(), h.get_h1_semi_inner_prod(f), h.get_l2_inner_prod(g)]

    def do_sums(self, i, j, k):
        f, g = self.fun(i), self.fun(j)
        a = (f + g).get_h1_semi_inner_prod(f)
        b = (2 * f).get_l2_inner_prod(g)
        return [a, b, (f - g if hasattr(f, "__sub__") else f).get_trace_values()]

    def do_query(self, i, j, k):
        K = self.K
        x0, x1, y0, y1 = K.get_bounding_box()
        xs, ys = np.meshgrid(np.linspace(x0, x1, 5 + i % 4), np.linspace(y0, y1, 4 + j % 3))
        x, y = K.get_boundary_points()
        v = x * y + k
        return [
            [x0, x1, y0, y1], K.is_in_interior(xs, ys), K.get_distance_to_boundary(0.5 * (x0 + x1), y0), x, y,
            K.integrate_over_boundary(v), K.multiply_by_dx_norm(v), K.dot_with_normal(x, y), K.dot_with_tangent(x, y), K.int_x1, K.int_x2,
        ]

    def do_resample(self, i, j, k):
        self.K.deparameterize()
        self.sample()
        return self.do_query(i, j, k)

    def do_other_rule(self, i, j, k):
        self.rule = 1 - self.rule
        self.K.deparameterize()
        self.sample()
        return self.do_query(i, j, k)

    def do_space(self, i, j, k):
        if self.K.num_edges * self.K.num_pts > 600:
            return self.do_query(i, j, k)
        deg = 1 + k % 2 if self.K.num_edges <= 3 else 1
        es = [self.pf.EdgeSpace(e, deg) for e in self.K.get_edges()] if i % 2 else None
        sp = self.pf.LocalPoissonSpace(self.K, es, deg, compute_interior_values=False, verbose=False)
        B = sp.get_basis()
        out = [f.get_trace_values() for f in B]
        out.append([B[i % len(B)].get_h1_semi_inner_prod(B[j % len(B)]), B[j % len(B)].get_l2_inner_prod(B[i % len(B)])])
        out.extend([sp.centroid, [sp.area]])
        return out

    def do_edge_space(self, i, j, k):
        e = self.K.get_edges()[i % self.K.num_edges]
        b = self.pf.EdgeSpace(e, 1 + j % 3)
        x, y = e.get_sampled_points()
        return [f(x, y) * np.ones(len(x)) for f in b.vert_fun_traces + b.edge_fun_traces]

    def do_neumann(self, i, j, k):
        x, y = self.K.get_boundary_points()
        v = self.K.multiply_by_dx_norm(self.K.dot_with_normal(1 + 0 * x, 2 * y - 2 * y))
        u = self.solver().solve_neumann_zero_average(v)
        h, c = self.solver().get_harmonic_conjugate(x - 2 * y)
        return [u, h, c]

    def do_trace(self, i, j, k):
        P = self.sh.polys
        t = self.pf.DirichletTrace(self.K)
        u = self.pf.DirichletTrace(self.K)
        t.set_funcs_from_polys([P[(i + m) % len(P)] for m in range(self.K.num_edges)])
        u.set_funcs(lambda x, y: np.sin(x) + j * y)
        for a in (t, u):
            a.set_trace_values(a.values if hasattr(a, "values") else 0.0)
        return [(t + u).values, (t * 2).values, (u / (1 + k % 3)).values, t.values, u.values]

    def do_global(self, i, j, k):
        M = self.sh.mesh
        if M is None or self.K.num_edges > 8 or M.num_cells > 4 or M.num_edges > 6:
            return self.do_query(i, j, k)
        quad = self.sh.quads[self.rule]
        G = self.pf.GlobalFunctionSpace(M, 1, quad, verbose=False)
        f = self.sh.polys[i % len(self.sh.polys)]
        form = self.pf.BilinearForm(diffusion_constant=1.0, reaction_constant=0.5, rhs_poly=f)
        S = self.pf.Solver(G, form, verbose=False, compute_interior_values=False)
        A, b = S.glob_mat.toarray(), S.glob_rhs.toarray()
        S.solve()
        return [A, b, S.soln]


OPS = st.fixed_dictionaries({"op": st.sampled_from(KINDS), "i": st.integers(0, 7), "j": st.integers(0, 7), "k": st.integers(0, 14)})


@st.composite
def cases(draw):
    with_mesh = draw(st.booleans())
    mesh = draw(mesh_specs(nx=2, ny=2, max_punctures=1, sims=draw(st.booleans()), curved=draw(st.booleans()))) if with_mesh else None
    m = draw(st.sampled_from([2, 2, 3]))
    worlds = []
    for k in range(m):
        own = not with_mesh or (k > 0 and draw(st.integers(0, 3)) == 0)
        worlds.append({
            "cell": draw(cell_specs(max_holes=2)) if own else None,
            "label": draw(st.integers(0, 5)),
            "ops": draw(st.lists(OPS, min_size=2, max_size=6)),
        })
    turns = [k for k, w in enumerate(worlds) for _ in w["ops"]]
    return {
        "mesh": mesh, "worlds": worlds, "turns": list(draw(st.permutations(turns))),
        "polys": [draw(poly_terms(deg=2, terms=3)) for _ in range(3)],
        "n": draw(st.sampled_from([8, 12, 16])), "p": draw(st.sampled_from([5, 7])), "more": draw(st.sampled_from([8, 0])),
    }


def run(world, ops):
    """Results of operations in order."""
    out = []
    for op in ops:
        out.append(step(world, op))
    return out


def step(world, op):
    if op["op"] == "again":
        op = world.last or {"op": "query", "i": op["i"], "j": op["j"], "k": op["k"]}
    res = world.do(op)
    if op["op"] not in ("resample", "other rule"):
        world.last = op
    return op["op"], res


REPEAT = {"h1", "l2", "query", "inside", "edge space", "neumann", "trace", "sums", "global", "solver"}


def same(r, name, a, b):
    r.true(f"{name}: number of results", len(a) == len(b), f"{len(a)} and {len(b)}")
    for k, (x, y) in enumerate(zip(a, b)):
        r.true(f"{name}: shape of result {k}", x.shape == y.shape, f"{x.shape} and {y.shape}")
        r.true(f"{name}: result {k} is finite in both or in none", bool(np.array_equal(np.isfinite(x), np.isfinite(y))), "")
        if x.size:
            ok = np.isfinite(x)
            r.close(f"{name}: result {k}", x[ok], y[ok], TOL, float(np.max(np.abs(y[ok]), initial=1e-3)))


def check(s, r: Recorder):
    if s["mesh"] is not None:
        label_mesh(s["mesh"], r)
    for w in s["worlds"]:
        if w["cell"] is not None:
            describe(w["cell"], r)
    r.label(f"{len(s['worlds'])} cells", "one mesh" if s["mesh"] is not None else "no mesh")
    # each world alone
    alone = []
    for k, w in enumerate(s["worlds"]):
        world = World(s, k, Shared(s))
        alone.append(run(world, w["ops"]))
    # all of them, in turns, on shared inputs
    shared = Shared(s)
    given = shared.inputs()
    worlds = [World(s, k, shared) for k in range(len(s["worlds"]))]
    r.eq("inputs after sampling", difference(given, shared.inputs()), "")
    place = [0] * len(worlds)
    for k in s["turns"]:
        op = s["worlds"][k]["ops"][place[k]]
        world = worlds[k]
        keeps = op["op"] not in ("resample", "other rule", "solver", "inside")
        before = world.own() if keeps else None
        others = [w.own() for j, w in enumerate(worlds) if j != k]
        name, res = step(world, op)
        r.label(name)
        same(r, f"{name} among other operations", res, alone[k][place[k]][1])
        if keeps and name not in ("resample", "other rule", "solver", "inside"):
            after = world.own()
            r.eq(f"objects given to {name}", compare(before, after), "")
        r.eq(f"other objects after {name}", [difference(a, w.own()) for a, w in zip(others, [w for j, w in enumerate(worlds) if j != k])], [""] * len(others))
        r.eq(f"inputs after {name}", difference(given, shared.inputs()), "")
        if name in REPEAT:
            again, res2 = step(world, world.last)
            del again
            same(r, f"{name} carried out again", res2, res)
        if name in ("resample", "other rule"):
            # as a cell that was never sampled with another rule
            clean = World(s, k, Shared(s), world.rule)
            same(r, f"{name} and a cell sampled once", res, clean.do(dict(op, op="query")))
            fun = dict(op, op="function")
            same(r, f"function after {name} and on a cell sampled once", world.do(fun), clean.do(fun))
            world.clear()
        place[k] += 1
    r.nt()


def compare(a, b):
    """Difference of two states of a world, in which things may be added."""
    xs, ys = a[1], b[1]
    out = difference(xs[0], ys[0], "cell")
    if xs[1] != "None":
        out += difference(xs[1], ys[1], "solver")
    for k, name in ((2, "array"), (3, "function")):
        for j, (x, y) in enumerate(zip(xs[k][1], ys[k][1])):
            out += difference(x, y, f"{name} {j}")
    return out


@st.composite
def rule_cases(draw):
    return {
        "rules": draw(st.lists(st.tuples(st.sampled_from([4, 8, 12]), st.sampled_from([5, 7])), min_size=2, max_size=6)),
        "how": draw(st.lists(st.sampled_from(["replace", "nodes", "weights", "remove", "nothing"]), min_size=6, max_size=6)),
        "named": draw(st.lists(st.sampled_from(["both", "n", "positional", "none"]), min_size=6, max_size=6)),
        "which": draw(st.lists(st.sampled_from(["trap", "kress"]), min_size=6, max_size=6)),
    }


def check_rules(s, r: Recorder):
    """Rules that a caller changes are the caller's own."""
    import puncturedfem as pf

    seen = {}
    for (n, p), how, named, which in zip(s["rules"], s["how"], s["named"], s["which"]):
        if named == "n":
            p = 7
            d = pf.get_quad_dict(n=n)
        elif named == "none":
            n, p = 16, 7
            d = pf.get_quad_dict()
            one = pf.Quad()
            r.eq("rule of no arguments", (one.type, one.n), ("trap", 16))
            r.close("nodes of the rule of no arguments", one.t, d["trap"].t, 1e-13)
        elif named == "positional":
            d = pf.get_quad_dict(n, p)
        else:
            d = pf.get_quad_dict(p=p, n=n)
        r.eq("names of the rules", sorted(d), ["kress", "trap"])
        now = {k: (v.n, np.array(v.t, dtype=float), np.array(v.wgt, dtype=float)) for k, v in d.items()}
        for k, (m, t, w) in now.items():
            fresh = pf.Quad(qtype=k, n=n, p=p)
            r.eq("number of points of the rule " + k, m, n)
            r.close("nodes of the rule " + k, t, fresh.t, 1e-13)
            r.close("weights of the rule " + k, w, fresh.wgt, 1e-13)
            if (n, p, k) in seen:
                r.eq("nodes as before", t.tolist(), seen[n, p, k])
            seen[n, p, k] = t.tolist()
        r.label(how)
        if how == "replace":
            d[which] = pf.Quad(qtype=which, n=n + 3, p=p)
        elif how == "nodes":
            d[which].t = d[which].t + 0.25
        elif how == "weights":
            d[which].wgt *= 2.0
        elif how == "remove":
            del d[which]
    r.nt(len(set(s["rules"])) < len(s["rules"]) and any(h != "nothing" for h in s["how"]))


PROP = Prop(
    "C27",
    [
        Sub("interleaved", cases(), check, quick=170, thorough=2500, shards=8, case_timeout=200,
            rule="two or three cells (of one mesh or alone) with two to six operations each, carried out alone and in turns on shared rules, polynomials and meshes; non-trivial: always"),
        Sub("rules", rule_cases(), check_rules, quick=600, thorough=20000, shards=1,
            rule="rules made one after the other and changed by the caller; non-trivial: a rule made twice"),
    ],
    warm=warm,
)
