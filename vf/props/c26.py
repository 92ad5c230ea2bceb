"""C26: arguments that are not valid."""

import math

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub, Violation
from ..gens import no_triangulation
from ..harm import warm
from ..state import difference, state

NOT_INT = [1.5, 2.0, "3", [1], (2,), {}, 1j, b"1", np.array([1, 2])]
NOT_NUMBER = ["3", "x", [1.0], (2.0,), {}, b"1", None]
NEGATIVE = [-1, -2, -17, -10**6]
OBJECTS = [None, 1, 2.5, "edge", [], {}, (), object]


class World:
    """Objects the calls are made on (made anew for every case)."""

    def __init__(self, a: float = 1.0) -> None:
        import puncturedfem as pf

        self.pf = pf
        V = pf.Vert
        self.a = a
        z = [V(0.0, 0.0, 0), V(a, 0.0, 1), V(a, a, 2), V(0.0, a, 3)]
        self.verts = z
        self.edges = [pf.Edge(z[k], z[(k + 1) % 4], pos_cell_idx=0, idx=k) for k in range(4)]
        c = V(0.5 * a, 0.5 * a)
        self.loop = pf.Edge(c, c, pos_cell_idx=1, neg_cell_idx=0, quad_type="trap", curve_type="circle", radius=0.2 * a, idx=4)
        self.quad = pf.get_quad_dict(n=8, p=7)
        self.sample = self.edges[0]

    def cell(self, sampled=True):
        K = self.pf.MeshCell(idx=0, edges=self.edges + [self.loop])
        no_triangulation(K)
        if sampled:
            K.parameterize(self.quad, compute_interior_points=False)
        return K

    def edge(self, sampled=True):
        e = self.pf.Edge(self.pf.Vert(0.0, 0.0, 5), self.pf.Vert(self.a, 0.5, 6), pos_cell_idx=3, curve_type="circular_arc", H=-0.8, idx=8)
        if sampled:
            e.parameterize(self.quad)
        return e

    def mesh(self):
        return self.pf.PlanarMesh(self.edges + [self.loop], verbose=False)

    def trace(self):
        K = self.cell()
        return self.pf.DirichletTrace(K, values=1.0)

    def nyst(self):
        if not hasattr(World, "_nyst") or World._nyst_a != self.a:
            World._nyst, World._nyst_a = self.pf.NystromSolver(self.cell()), self.a
        return World._nyst

    def fun(self):
        n = self.nyst()
        x, y = n.K.get_boundary_points()
        return self.pf.LocalPoissonFunction(n, laplacian=self.pf.Polynomial([(1.0, 0, 0)]), trace=x * y, evaluate_interior=False)

    def space(self):
        return self.pf.GlobalFunctionSpace(self.mesh(), 1, self.quad, verbose=False)

    def poly(self):
        return self.pf.Polynomial([(1.0, 1, 0), (2.0, 0, 2), (-0.5, 1, 1)])


ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


class Pick:
    """Draws of a case."""

    def __init__(self, nums):
        self.nums, self.k = nums, 0

    def __call__(self, items):
        v = self.nums[self.k % len(self.nums)]
        self.k += 1
        return items[v % len(items)]

    def int(self, lo, hi):
        return self(range(lo, hi + 1))


# edges ------------------------------------------------------------------
# each entry yields (what, errors, object that must not change or None, call)
# or (what, None, None, call) for calls that have to be accepted


@entry
def edge_label(w, p):
    e = w.edge()
    yield "label that is not an integer", TypeError, e, lambda: e.set_idx(p(NOT_INT))
    yield "negative label", ValueError, e, lambda: e.set_idx(p(NEGATIVE))
    yield "label in the constructor", (TypeError, ValueError), None, lambda: w.pf.Edge(w.verts[0], w.verts[1], idx=p(NOT_INT + NEGATIVE))
    yield "label 0", None, None, lambda: e.set_idx(0)


@entry
def edge_curve(w, p):
    e = w.edge(False)
    yield "curve type that is not a name", ValueError, e, lambda: e.set_curve_type(p([1, None, 2.5, ["line"], {}]))
    yield "unknown curve type", FileExistsError, e, lambda: e.set_curve_type(p(["lines", "Circle2", "", "no such", "sine"]))
    yield "unknown curve type in the constructor", (FileExistsError, ImportError), None, lambda: w.pf.Edge(w.verts[0], w.verts[1], curve_type=p(["lines", "no such"])).parameterize(w.quad)
    yield "known curve type", None, None, lambda: e.set_curve_type("line")


@entry
def edge_bounds(w, p):
    e = w.edge(False)
    t = p([0.0, 1.0, -2.0, 3])
    yield "empty interval", ValueError, e, lambda: e.set_t_bounds((t, t - p([0, 1, 0.5, 1e-9])))
    yield "bounds that are not numbers", ValueError, e, lambda: e.set_t_bounds((p(["0", None, [0]]), 1.0))
    yield "upper bound that is not a number", ValueError, e, lambda: e.set_t_bounds((0.0, p(["1", None, [1]])))
    yield "interval", None, None, lambda: e.set_t_bounds((t, t + 1))


@entry
def edge_transformations(w, p):
    err = w.pf.mesh.mesh_exceptions.EdgeTransformationError if hasattr(w.pf.mesh, "mesh_exceptions") else Exception
    sampled = p([True, False])
    e = w.edge(sampled)
    u = w.pf.Vert(p([0.0, 1.5, -2.0]), 1.0)
    v = w.pf.Vert(u.x, 1.0)
    yield "ends that are the same", err, e, lambda: e.join_points(u, v)
    yield "factor 0", err, e, lambda: e.dilate(p([0, 0.0, -0.0]))
    th = p([0.3, 1.0, 2.0])
    R = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
    bad = [R * 1.01, R + 0.01, np.eye(3), np.zeros((2, 2)), np.array([[1.0, 1.0], [0.0, 1.0]]), R[0], np.array([[1.0, 0.0], [0.0, 2.0]]), R[:1]]
    yield "matrix that is not orthogonal", err, e, lambda: e.apply_orthogonal_transformation(p(bad))
    yield "rotation", None, None, lambda: e.apply_orthogonal_transformation(R)
    yield "reflection", None, None, lambda: e.apply_orthogonal_transformation(R @ np.diag([1.0, -1.0]))
    yield "factor", None, None, lambda: e.dilate(p([-1, 0.5, 2]))
    lp = w.loop
    lp.parameterize(w.quad)
    diary = len(lp.diary)
    yield "joining the ends of a loop", err, None, lambda: lp.join_points(w.verts[0], w.verts[2])
    del diary


@entry
def edge_not_sampled(w, p):
    err = not_sampled(w)
    e = w.edge(False)
    x = np.ones(p([16, 17, 3]))
    calls = [
        e.get_sampled_points, e.get_bounding_box, lambda: e.evaluate_function(lambda x, y: x), lambda: e.multiply_by_dx_norm(x),
        lambda: e.dot_with_tangent(x, x), lambda: e.dot_with_normal(x, x), lambda: e.integrate_over_edge(x), lambda: e.integrate_over_edge_preweighted(x),
    ]
    for call in calls:
        yield "edge without samples", err, e, call
    f = w.edge()
    f.deparameterize()
    calls = [f.get_sampled_points, f.get_bounding_box, lambda: f.evaluate_function(lambda x, y: x), lambda: f.multiply_by_dx_norm(x), lambda: f.integrate_over_edge(x)]
    for call in calls:
        yield "edge whose samples were discarded", err, f, call


def not_sampled(w):
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError

    return NotParameterizedError


def mismatch(w):
    from puncturedfem.mesh.mesh_exceptions import SizeMismatchError

    return SizeMismatchError


@entry
def edge_sizes(w, p):
    err = mismatch(w)
    e = w.edge()
    m = e.num_pts
    bad = np.ones(p([1, 2, m - 2, m + 1, 2 * m, m - 3]))
    good, full = np.ones(m - 1), np.ones(m)
    skip = p([True, False])
    yield "number of values", err, e, lambda: e.multiply_by_dx_norm(bad, skip)
    yield "number of values", err, e, lambda: e.multiply_by_dx_norm(full if skip else good, skip)
    yield "number of values", err, e, lambda: e.integrate_over_edge(bad, skip)
    yield "number of values", err, e, lambda: e.integrate_over_edge_preweighted(full if skip else good, skip)
    yield "number of values", err, e, lambda: e.integrate_over_edge_preweighted(bad, skip)
    yield "number of values", err, e, lambda: p([e.dot_with_normal, e.dot_with_tangent])(bad, bad)
    fit = good if skip else full
    for dot in (e.dot_with_normal, e.dot_with_tangent):
        yield "number of values of the first component", err, e, lambda: dot(bad, fit, skip)
        yield "number of values of the second component", err, e, lambda: dot(fit, bad, skip)
        yield "number of values", None, None, lambda: dot(fit, fit, skip)
    yield "number of values", None, None, lambda: e.integrate_over_edge_preweighted(good if skip else full, skip)
    yield "number of values", None, None, lambda: e.multiply_by_dx_norm(good if skip else full, skip)


@entry
def edge_parameters(w, p):
    E, u, v = w.pf.Edge, w.verts[0], w.verts[2]

    def sample(**k):
        E(u, v, **k).parameterize(w.quad)

    yield "angle of an arc", ValueError, None, lambda: sample(curve_type="circular_arc_deg", theta0=p([0, -1, 361, 360.5, -90]))
    yield "missing angle", ValueError, None, lambda: sample(curve_type="circular_arc_deg")
    yield "missing amplitude", ValueError, None, lambda: sample(curve_type="sine_wave", freq=2)
    yield "missing frequency", ValueError, None, lambda: sample(curve_type="sine_wave", amp=0.1)
    yield "angle of a teardrop", ValueError, None, lambda: E(u, u, curve_type="teardrop", alpha=p([1, 1.0, 0.5, 0, -2])).parameterize(w.quad)
    yield "rule", ValueError, None, lambda: sample(quad_type=p(["gauss", "", "Kress", "simpson"]))
    yield "angle", None, None, lambda: sample(curve_type="circular_arc_deg", theta0=p([1, 45, 180, 300, 359]))
    yield "teardrop", None, None, lambda: E(u, u, curve_type="teardrop", alpha=1.25).parameterize(w.quad)


@entry
def splitting(w, p):
    s = w.pf.split_edge
    e = w.edge(False)
    yield "no parts", ValueError, e, lambda: s(e)
    yield "number of parts", ValueError, e, lambda: s(e, num_edges=p([1, 0, -1, -3]))
    yield "parameters", ValueError, e, lambda: s(e, t_split=p(["1", (1.0,), ["a"], [1.0, None], {}]))
    yield "two parts", None, None, lambda: s(e, num_edges=2)
    yield "a parameter", None, None, lambda: s(e, t_split=p([1.0, 3.0]))


# quadratures ------------------------------------------------------------


@entry
def quadratures(w, p):
    Q, get = w.pf.Quad, w.pf.get_quad_dict
    t = p(["trap", "kress", "mart"])
    yield "number of points that is not an integer", TypeError, None, lambda: Q(qtype=t, n=p([4.0, 16.5, "8", None, [8]]))
    yield "too few points", ValueError, None, lambda: Q(qtype=t, n=p([3, 2, 1, -4]))
    yield "too few points for a dictionary", ValueError, None, lambda: get(n=p([3, 2, 1]))
    yield "number of points of a dictionary", TypeError, None, lambda: get(n=p([4.0, 16.5]))
    yield "order", ValueError, None, lambda: Q(qtype="kress", n=8, p=p([1, 0, -2]))
    yield "order of a dictionary", ValueError, None, lambda: get(n=8, p=p([1, 0]))
    yield "fewest points", None, None, lambda: Q(qtype=t, n=4)
    yield "lowest order", None, None, lambda: Q(qtype="kress", n=8, p=2)


# cells ------------------------------------------------------------------


@entry
def cell_label(w, p):
    K = w.cell(p([True, False]))
    yield "label that is not an integer", TypeError, K, lambda: K.set_idx(p(NOT_INT + [None]))
    yield "negative label", ValueError, K, lambda: K.set_idx(p(NEGATIVE))
    yield "label in the constructor", (TypeError, ValueError), None, lambda: w.pf.MeshCell(idx=p(NOT_INT + NEGATIVE), edges=w.edges)
    yield "label 0", None, None, lambda: K.set_idx(0)


@entry
def cell_edges(w, p):
    from puncturedfem.mesh.mesh_exceptions import EmbeddingError

    C = w.pf.MeshCell
    k = p.int(0, 3)
    some = [e for j, e in enumerate(w.edges) if j != k]
    yield "open boundary", EmbeddingError, None, lambda: C(idx=0, edges=some)
    yield "an edge missing next to a puncture", EmbeddingError, None, lambda: C(idx=0, edges=some + [w.loop])
    yield "edges of another cell", EmbeddingError, None, lambda: C(idx=p([2, 7]), edges=w.edges)
    far = w.pf.Edge(w.verts[0], w.verts[1], pos_cell_idx=9)
    yield "an edge of another cell", EmbeddingError, None, lambda: C(idx=0, edges=w.edges + [far])
    yield "all the edges", None, None, lambda: C(idx=0, edges=w.edges)
    yield "with a puncture", None, None, lambda: C(idx=0, edges=w.edges + [w.loop])


@entry
def cell_tolerances(w, p):
    K = w.cell(False)
    yield "absolute tolerance", TypeError, K, lambda: K.set_interior_point_tolerance(atol=p([0, 0.0, -1, -1e-3] + NOT_NUMBER))
    yield "relative tolerance", TypeError, None, lambda: K.set_interior_point_tolerance(rtol=p([0, 0.0, -1, -1e-3] + NOT_NUMBER))
    yield "tolerances", None, None, lambda: K.set_interior_point_tolerance(rtol=p([1e-9, 0.1, 1]), atol=p([1e-9, 0.1, 1]))


@entry
def cell_not_sampled(w, p):
    err = not_sampled(w)
    K = w.cell(False)
    x = np.ones(80)
    calls = [
        K.get_bounding_box, K.get_boundary_points, lambda: K.is_in_interior(np.zeros(1), np.zeros(1)), lambda: K.get_distance_to_boundary(0.1, 0.1),
        lambda: K.evaluate_function_on_boundary(lambda x, y: x), lambda: K.dot_with_tangent(x, x), lambda: K.dot_with_normal(x, x),
        lambda: K.multiply_by_dx_norm(x), lambda: K.integrate_over_boundary(x), lambda: K.integrate_over_boundary_preweighted(x),
    ]
    for call in calls:
        yield "cell without samples", err, K, call
    L = w.cell()
    L.deparameterize()
    calls = [L.get_boundary_points, lambda: L.integrate_over_boundary(x), lambda: L.is_in_interior(np.zeros(1), np.zeros(1)), lambda: L.multiply_by_dx_norm(x)]
    for call in calls:
        yield "cell whose samples were discarded", err, L, call


@entry
def cell_sizes(w, p):
    err = mismatch(w)
    K = w.cell()
    n = K.num_pts
    bad, good = np.ones(p([1, n - 1, n + 1, 2 * n, n - 16])), np.ones(n)
    for call in (K.multiply_by_dx_norm, K.integrate_over_boundary, K.integrate_over_boundary_preweighted):
        yield "number of values", err, K, lambda: call(bad)
    for call in (K.dot_with_normal, K.dot_with_tangent):
        yield "number of values", err, K, lambda: call(bad, good)
        yield "number of values", err, K, lambda: call(good, bad)
    yield "shapes of the coordinates", err, K, lambda: K.is_in_interior(np.zeros(3), np.zeros(p([2, 4])))
    yield "number of values", None, None, lambda: p([K.multiply_by_dx_norm, K.integrate_over_boundary, K.integrate_over_boundary_preweighted])(good)


@entry
def contours(w, p):
    err = mismatch(w)
    C = w.cell().components[0]
    n = C.num_pts
    bad, good = np.ones(p([1, n - 1, n + 1, 2 * n])), np.ones(n)
    e = w.edge()
    yield "orientation", ValueError, C, lambda: C.add_edge(e, p([0, 2, -2, None, "1"]))
    yield "number of orientations", ValueError, C, lambda: C.add_edges([e, w.loop], [1] * p([0, 1, 3]))
    for call in (C.multiply_by_dx_norm, C.integrate_over_closed_contour, C.integrate_over_closed_contour_preweighted):
        yield "number of values", err, C, lambda: call(bad)
    yield "shapes of the coordinates", err, C, lambda: C.is_in_interior_contour(np.zeros((2, 2)), np.zeros(p([2, 4])))
    yield "number of values", None, None, lambda: C.integrate_over_closed_contour(good)
    yield "label", TypeError, C, lambda: C.set_mesh_id(p(NOT_INT))
    yield "negative label", ValueError, C, lambda: C.set_mesh_id(p(NEGATIVE))
    yield "label in the constructor", (TypeError, ValueError), None, lambda: type(C)(cell_id=p(NOT_INT + NEGATIVE), edges=w.edges[:1])
    D = World(w.a).cell(False).components[0]
    calls = [
        D.find_num_pts, D.find_local_vert_idx, D.find_closest_local_vertex_index, D.find_interior_point, D.get_sampled_points, lambda: D.get_distance_to_boundary(0.1, 0.1), lambda: D.is_in_interior_contour(np.zeros(1), np.zeros(1)),
        lambda: D.evaluate_function_on_contour(lambda x, y: x), lambda: D.dot_with_tangent(good, good), lambda: D.dot_with_normal(good, good),
        lambda: D.multiply_by_dx_norm(good), lambda: D.integrate_over_closed_contour(good), lambda: D.integrate_over_closed_contour_preweighted(good),
    ]
    for call in calls:
        yield "contour without samples", not_sampled(w), D, call


# meshes -----------------------------------------------------------------


@entry
def meshes(w, p):
    M = w.mesh()
    yield "something that is not an edge", TypeError, M, lambda: M.add_edge(p(OBJECTS))
    yield "something that is not an edge in the list", TypeError, None, lambda: w.pf.PlanarMesh(w.edges + [p([None, 1, "e"])], verbose=False)
    free = w.pf.Edge(w.verts[0], w.verts[2])
    yield "an edge of no cell", ValueError, M, lambda: M.add_edge(free)
    yield "an edge of no cell in the list", ValueError, None, lambda: w.pf.PlanarMesh(w.edges + [free], verbose=False)
    yield "cell that is not there", IndexError, M, lambda: M.get_cell(p([2, 3, -1, 100]))
    yield "cell", None, None, lambda: M.get_cell(p([0, 1]))


# polynomials ------------------------------------------------------------


@entry
def multi_indices(w, p):
    from puncturedfem.locfun.poly.monomial import Monomial
    from puncturedfem.locfun.poly.multi_index import MultiIndex
    from puncturedfem.locfun.poly.poly_exceptions import InvalidVariableError, MultiIndexError

    i, j = p.int(0, 4), p.int(0, 4)
    a = MultiIndex([i, j])
    yield "multi-index that is not a list", TypeError, None, lambda: MultiIndex(p([(1, 2), "12", 3, {1: 2}]))
    yield "length of a multi-index", MultiIndexError, None, lambda: MultiIndex(p([[1], [1, 2, 3], []]))
    yield "components that are not integers", TypeError, None, lambda: MultiIndex(p([[1.0, 2], [1, "2"], [None, 1], [1, 0.5]]))
    yield "negative components", ValueError, None, lambda: MultiIndex(p([[-1, 2], [1, -2], [-1, -1]]))
    yield "comparison of a multi-index", TypeError, a, lambda: a == p([1, "a", [1, 2]])
    yield "sum of a multi-index", TypeError, a, lambda: a + p([1, "a", [1, 2]])
    m = Monomial(a, 2.0)
    yield "variable", InvalidVariableError, m, lambda: m.partial_deriv(p(["z", "X", "xy", ""]))
    yield "sum of different monomials", ValueError, m, lambda: m + Monomial(MultiIndex([i + 1, j]), 1.0)
    yield "sum of a monomial", TypeError, m, lambda: m + p([1, "a", None])
    yield "product of a monomial", TypeError, m, lambda: m * p(["a", None, [1]])
    yield "comparison of a monomial", TypeError, m, lambda: p([lambda: m == 1, lambda: m > 1.0, lambda: m == "m"])()
    yield "sum of like monomials", None, None, lambda: m + Monomial(MultiIndex([i, j]), 1.0)


@entry
def polynomials(w, p):
    from puncturedfem.locfun.poly.poly_exceptions import DegenerateTriangleError, MultiIndexError, PolynomialError

    P = w.pf.Polynomial
    f = w.poly()
    yield "terms that are not triples", MultiIndexError, None, lambda: P(p([[(1.0, 2)], [(1.0, 0, 0), (1.0, 1, 1, 1)], [(1.0,)]]))
    yield "negative exponents", ValueError, None, lambda: P([(1.0, 0, 0), (2.0, p([-1, 1]), -1)])
    yield "exponents that are not integers", TypeError, None, lambda: P([(1.0, p([0.5, 1.0, "1"]), 1)])
    yield "numbers of coefficients and exponents", PolynomialError, f, lambda: f.add_monomials_with_idxs([1.0, 2.0], [3]) if hasattr(f, "add_monomials_with_idxs") else f.add_monomials([1.0, 2.0], [3])
    yield "power", ValueError, f, lambda: f ** p([-1, -3, 0.5, 2.0, "2"])
    bad = p(["a", None, [1.0], {}, (1,)])
    yield "operation with something else", TypeError, f, p([lambda: f + bad, lambda: f - bad, lambda: f * bad, lambda: bad + f, lambda: bad - f])
    yield "quotient", TypeError, f, lambda: f / p(["a", None, f, [2.0]])
    yield "quotient by zero", ZeroDivisionError, f, lambda: f / p([0, 0.0])
    yield "comparison", TypeError, f, lambda: f == p([1, 2.5, "p", None])
    yield "power 0", None, None, lambda: f ** p([0, 1, 2])
    bc = w.pf.barycentric_coordinates
    z = [np.array([p([0.0, 1.0]), 0.5]), np.array([2.0, p([1.0, -1.0])])]
    t = p([0.5, 0.25, 2.0, -1.0])
    yield "triangle without area", DegenerateTriangleError, None, lambda: bc(z[0], z[1], (1 - t) * z[0] + t * z[1])
    yield "triangle with equal vertices", DegenerateTriangleError, None, lambda: bc(*p([(z[0], z[0], z[1]), (z[0], z[1], z[0]), (z[1], z[0], z[0])]))
    yield "triangle", None, None, lambda: bc(z[0], z[1], np.array([0.0, 9.0]))


@entry
def piecewise(w, p):
    from puncturedfem.locfun.poly.piecewise_poly import PiecewisePolynomial

    f = PiecewisePolynomial(num_polys=2)
    yield "label", TypeError, f, lambda: f.set_idx(p(NOT_INT))
    yield "negative label", ValueError, f, lambda: f.set_idx(p(NEGATIVE))
    yield "number of pieces", TypeError, f, lambda: f.set_num_polys(p(NOT_INT))
    yield "no pieces", ValueError, f, lambda: f.set_num_polys(p([0] + NEGATIVE))
    yield "one piece", None, None, lambda: f.set_num_polys(1)


# traces and local functions ---------------------------------------------


@entry
def traces(w, p):
    T = w.pf.DirichletTrace
    t = w.trace()
    m = len(t.edges)
    n = t.num_pts
    k = p.int(0, m - 1)
    size = t.edges[k].num_pts - 1
    one = p([t.set_trace_values_on_edge, t.set_weighted_normal_derivative_on_edge, t.set_weighted_tangential_derivative_on_edge])
    yield "edges", ValueError, None, lambda: T(p([None, 1, "edges", {}]))
    yield "things that are not edges", ValueError, None, lambda: T([w.edges[0], p([None, 1, "edge"])])
    yield "edges that are not sampled", (ValueError, AttributeError), None, lambda: T([w.edge(False)], values=1.0)
    yield "number of an edge", ValueError, t, lambda: one(p([-1, m, m + 3, -m]), 1.0)
    yield "values on an edge", ValueError, t, lambda: one(k, p(["1", None, [1.0], {}]))
    yield "number of values on an edge", ValueError, t, lambda: one(k, np.ones(p([size - 1, size + 1, 1, 2 * size])))
    for call in (t.set_trace_values_on_edge, t.set_weighted_normal_derivative_on_edge, t.set_weighted_tangential_derivative_on_edge):
        yield "one value on an edge", ValueError, t, lambda: call(k, np.ones(1))
    every = p([t.set_trace_values, t.set_weighted_normal_derivative, t.set_weighted_tangential_derivative])
    yield "values", ValueError, t, lambda: every(p(["1", None, {}, (1.0,)]))
    yield "number of values", ValueError, t, lambda: every(np.ones(p([n - 1, n + 1, 1, 2 * n])))
    yield "number of edges", ValueError, t, lambda: every([1.0] * p([m - 1, m + 1, 1]))
    yield "items that are not values", ValueError, t, lambda: every([1.0] * (m - 1) + [p(["1", None])])
    yield "number of an edge", ValueError, t, lambda: p([lambda i: t.set_func_on_edge(i, lambda x, y: x), lambda i: t.set_func_from_poly_on_edge(i, w.poly())])(p([-1, m, 1.0, "0"]))
    yield "functions", ValueError, t, lambda: t.set_funcs(p([1.0, "f", None, [1.0] * m]))
    yield "number of functions", ValueError, t, lambda: t.set_funcs([w.poly()] * p([m - 1, m + 1]))
    yield "polynomials", ValueError, t, lambda: t.set_funcs_from_polys(p([1.0, "p", [1.0] * m, lambda x, y: x]))
    yield "number of polynomials", ValueError, t, lambda: t.set_funcs_from_polys([w.poly()] * p([m - 1, m + 1]))
    yield "a polynomial on an edge", ValueError, t, lambda: t.set_func_from_poly_on_edge(k, p([1.0, "p", None]))
    yield "sum", ValueError, t, lambda: t + p([1.0, "t", None])
    yield "factor", ValueError, t, lambda: t * p(["2", None, [2.0]])
    yield "divisor", ValueError, t, lambda: t / p(["2", None, [2.0], 0, 0.0])
    yield "sum of traces on different edges", ValueError, t, lambda: t + T([w.edge()], values=1.0)
    yield "last edge", None, None, lambda: one(m - 1, np.ones(t.edges[m - 1].num_pts - 1))
    yield "values", None, None, lambda: every(p([1, 0.5, np.ones(n), [1.0] * m]))


@entry
def nystrom(w, p):
    N = w.pf.NystromSolver
    K = w.cell()
    yield "cell", TypeError, None, lambda: N(p([None, 1, "cell", w.mesh()]))
    yield "strategy", ValueError, None, lambda: N(K, antilap_strategy=p(["", "FFT", "lu", None, 1]))
    yield "preconditioner", ValueError, None, lambda: N(K, precond_type=p(["", "ilu", "Jacobi", 1]))
    yield "strategy", None, None, lambda: N(K, antilap_strategy=p(["fft", "direct"]))


@entry
def local_functions(w, p):
    L = w.pf.LocalPoissonFunction
    f = w.fun()
    yield "solver", (TypeError, AttributeError), None, lambda: L(p([1, "nyst", w.cell()]))
    yield "key", TypeError, None, lambda: L(w.nyst(), key=p([1, "key", (0, 1)]))
    yield "sum", TypeError, f, lambda: f + p([1, 2.5, "f", None])
    yield "factor", TypeError, f, lambda: f * p(["2", None, [1.0], f])
    yield "divisor", TypeError, f, lambda: f / p(["2", None, [1.0], f])
    yield "division by zero", ValueError, f, lambda: f / p([0, 0.0])
    yield "product", TypeError, f, lambda: p([f.get_h1_semi_inner_prod, f.get_l2_inner_prod])(p([1.0, None, "f", np.ones(3)]))
    yield "sum", None, None, lambda: f + f
    h, q = f.harm, f.poly
    yield "sum of polynomial parts", TypeError, q, lambda: p([lambda o: q + o, lambda o: q - o])(p([1, "q", None, h]))
    yield "factor of a polynomial part", TypeError, q, lambda: q * p(["2", None, [1.0]])
    yield "divisor of a polynomial part", (TypeError, ValueError), q, lambda: q / p(["2", None, 0, 0.0])
    yield "divisor of a harmonic part", (TypeError, ValueError), h, lambda: h / p(["2", None, 0, 0.0])


@entry
def inner_products(w, p):
    from puncturedfem.locfun import inner_prod as ip

    f = w.fun()
    g = p([ip.h1_semi_inner_prod, ip.l2_inner_prod])
    a = p([f.harm, f.poly])
    yield "first function", TypeError, f, lambda: g(p([1, None, f, "v"]), a, f.mesh_cell)
    yield "second function", TypeError, f, lambda: g(a, p([1, None, f, "v"]), f.mesh_cell)
    yield "cell", TypeError, f, lambda: g(a, a, p([1, None, f, "K"]))


@entry
def spaces(w, p):
    E, S = w.pf.EdgeSpace, w.pf.LocalPoissonSpace
    e = w.edge()
    yield "edge", TypeError, None, lambda: E(p([None, 1, "edge", w.verts[0]]), 1)
    yield "degree that is not an integer", TypeError, None, lambda: E(e, p(NOT_INT))
    yield "degree of an edge space", ValueError, None, lambda: E(e, p([0] + NEGATIVE))
    yield "degree of an edge space", None, None, lambda: E(e, p([1, 2]))
    n = w.nyst()
    es = [E(x, 1) for x in n.K.get_edges()]
    yield "degree of a local space that is not an integer", TypeError, None, lambda: S(n, es, p(NOT_INT), compute_interior_values=False)
    yield "degree of a local space", ValueError, None, lambda: S(n, es, p([0] + NEGATIVE), compute_interior_values=False)


@entry
def keys(w, p):
    K = w.pf.solver.globkey.GlobalKey
    t = p(["vert", "edge", "bubb"])
    k = K(t, **{"vert": {"vert_idx": 2}, "edge": {"edge_idx": 1, "edge_space_idx": 0}, "bubb": {"bubb_space_idx": 4}}[t])
    yield "kind", ValueError, None, lambda: K(p(["", "vertex", "Edge", None, 1]))
    yield "kind", ValueError, k, lambda: k.set_fun_type(p(["", "vertex", "Edge", None, 1]))
    f = p(["set_vert_idx", "set_edge_idx", "set_edge_space_idx", "set_bubb_space_idx", "set_glob_idx"])
    yield "number that is not an integer", TypeError, k, lambda: getattr(k, f)(p(NOT_INT + [None]))
    yield "negative global number", ValueError, k, lambda: k.set_glob_idx(p(NEGATIVE))
    yield "global number 0", None, None, lambda: k.set_glob_idx(0)


@entry
def global_spaces(w, p):
    G = w.pf.GlobalFunctionSpace
    yield "mesh", (TypeError, AttributeError), None, lambda: G(p([None, 1, "mesh", w.cell()]), 1, w.quad, verbose=False)
    yield "degree that is not an integer", TypeError, None, lambda: G(w.mesh(), p(NOT_INT), w.quad, verbose=False)
    yield "degree", ValueError, None, lambda: G(w.mesh(), p([0] + NEGATIVE), w.quad, verbose=False)
    yield "degree", None, None, lambda: G(w.mesh(), 1, w.quad, verbose=False)


@entry
def solvers(w, p):
    S, B = w.pf.Solver, w.pf.BilinearForm
    b = B(diffusion_constant=1.0, reaction_constant=0.0, rhs_poly=w.poly())
    g = w.space()
    yield "space", TypeError, None, lambda: S(p([None, 1, "space", w.mesh()]), b, verbose=False)
    yield "form", TypeError, g, lambda: S(g, p([None, 1, "form", w.poly()]), verbose=False)


@st.composite
def cases(draw):
    return {
        "entry": draw(st.sampled_from(sorted(ENTRIES))),
        "nums": draw(st.lists(st.integers(0, 5039), min_size=4, max_size=8)),
        "size": draw(st.sampled_from([1.0, 2.0, 0.5])),
    }


def check(s, r: Recorder):
    w, p = World(s["size"]), Pick(s["nums"])
    r.label(s["entry"])
    for what, errors, target, call in ENTRIES[s["entry"]](w, p):
        name = f"{s['entry']}: {what}"
        before = state(target) if target is not None else None
        if errors is None:
            try:
                call()
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f"{name}: a valid call raised {type(exc).__name__}: {exc}") from exc
            r.checks += 1
            continue
        r.raises(name, errors, call)
        if target is not None:
            r.eq(f"{name}: the object after the rejected call", difference(before, state(target)), "")
    r.nt()


PROP = Prop(
    "C26",
    [
        Sub("rejected", cases(), check, quick=700, thorough=12000, shards=8,
            examples=[{"entry": k, "nums": n, "size": 1.0} for k in sorted(ENTRIES) for n in ([0], [1, 2, 3, 0])],
            rule="malformed arguments for every public operation that documents an error, and valid ones at the edge of the range; non-trivial: always"),
    ],
    warm=warm,
)
