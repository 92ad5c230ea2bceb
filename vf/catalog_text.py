"""The text of the properties (see catalog.py)."""


def register(prop):
    """Register all the properties."""
    prop(
        "C05",
        "Sampled edges follow their documented curve exactly",
        "For every documented curve type and admissible options (including restriction to a parameter sub-interval), "
        "parameterizing an edge samples exactly the documented curve at the nodes of the chosen quadrature, mapped by an "
        "orientation-preserving similarity so that it starts at the anchor and ends at the endpoint (loops are translated so that the curve's origin is at the anchor). "
        "The unit tangent, the right-hand unit normal, the weighted arc length element and the signed curvature reported at "
        "each sampled point are those of that curve.",
        ["inputs", "configurations"],
        "every curve type, curve options, endpoints, parameter interval, quadrature type, n and p",
        "The tests sample a handful of curves at fixed options and compare with stored arrays; the geometry must be right for all options and placements.",
        ["mesh/edge.py", "mesh/edgelib/"],
        [("parameterization", "mesh/edge.py:parameterize"), ("curve library", "mesh/edgelib/*.py")],
        "property-based testing: generated edges vs independent closed-form curves with exact derivatives",
        "Random curve types, options, endpoints, sub-intervals and quadratures; reference curves by automatic differentiation.",
        observe="Edge.x, unit_tangent, unit_normal, dx_norm, curvature, get_sampled_points, get_bounding_box",
    )
    prop(
        "C06",
        "Edge transformations compose like plane similarities in any history",
        "After any sequence of translations, rotations, dilations (also by negative factors), reflections, orthogonal maps and "
        "joinings of an edge, interleaved with parameterizing, deparameterizing and re-parameterizing it, the sampled points are the "
        "image of the original curve under the composition of the corresponding plane maps, and tangents, right-hand normals, arc length elements and "
        "curvature are those of the image curve. Transforming before or after sampling gives the same result, and reversing the orientation of a sampled edge gives the "
        "data of the curve traversed backwards. The same maps applied to plain arrays of points give the mapped points in a new array.",
        ["histories", "inputs"],
        "every sequence of transformations and (re)parameterizations of every kind of edge",
        "Tests apply one transformation at a time to one edge; composition order, recording and replay of the history need arbitrary sequences.",
        ["mesh/edge.py", "mesh/transform.py"],
        [("transformation diary", "mesh/edge.py:run_transform_diary"), ("transformations", "mesh/edge.py:join_points..apply_orthogonal_transformation")],
        "model-based testing: generated operation histories vs complex affine maps",
        "Random histories checked after every step and again after re-sampling on other quadratures.",
        observe="Edge.x, unit_tangent, unit_normal, dx_norm, curvature after every step",
    )
    prop(
        "C07",
        "Splitting an edge tiles exactly the same curve",
        "Splitting any edge at one or several interior parameters, or into equal parts, yields consecutive edges that share "
        "vertices, belong to the same two cells and trace exactly the original curve piece by piece in parameter order, with its tangents, normals, arc length and curvature, "
        "whatever transformations (including reflections) the edge has undergone and whether or not it is a loop or was itself produced by a split. "
        "The original edge and the caller's parameters are left unchanged.",
        ["inputs", "histories"],
        "every edge, every set of split parameters, every preceding history of transformations, repeated splits",
        "Tests split two edges at fixed parameters; the tiling must hold for every curve, history and set of parameters.",
        ["mesh/split_edge.py", "mesh/edge.py"],
        [("split", "mesh/split_edge.py:split_edge")],
        "property-based testing: pieces vs the reference curve on the sub-intervals",
        "Random edges, histories, cut sets; the pieces are re-sampled, transformed and split again.",
    )
    prop(
        "C08",
        "Quadratures and integrals over edges and boundaries are correct",
        "The trapezoidal, Kress and Martensen rules have the nodes and weights of their published formulas for every n and p, so they integrate the functions "
        "they are exact for. Integrating nodal values over an edge, a contour or the boundary of a cell gives the weighted sum of these values over exactly "
        "the sampled points, consistent between the weighted, pre-weighted and endpoint-ignoring forms, and converges to the true line integral: perimeters, fluxes "
        "and circulations of smooth fields agree with the exact ones on every cell, with holes and either orientation of the edges.",
        ["inputs", "configurations"],
        "every quadrature kind, n, p; every edge and cell; every vector of values and smooth field",
        "Tests integrate one or two functions on one shape with n fixed; wrong weights, offsets per contour or orientations show only on other shapes and values.",
        ["mesh/quad.py", "mesh/edge.py", "mesh/closed_contour.py", "mesh/cell.py"],
        [("rules", "mesh/quad.py"), ("edge integrals", "mesh/edge.py:integrate_over_edge"), ("boundary integrals", "mesh/cell.py:integrate_over_boundary")],
        "property-based testing: published formulas, exact sums and Gauss-Legendre integrals of the exact curves",
        "Random rules, nodal values, fields, edges and multiply connected cells.",
    )
    prop(
        "C01",
        "Bivariate polynomials form the ring of polynomials in two variables",
        "A polynomial built by any sequence of the public operations (construction from coefficients with exponents or multi-indices, sum, difference, negation, product, scalar multiplication and division, powers, composition, in-place variants, also with itself) "
        "equals the polynomial that ordinary algebra gives, both when it is evaluated at numbers or arrays and when it is compared with another polynomial. "
        "Operations do not change their operands other than the target of an in-place one, and arguments that are not admissible raise the documented errors.",
        ["programs", "inputs"],
        "every program of polynomial operations over every coefficients and exponents, evaluated everywhere",
        "Tests evaluate a few fixed expressions; ring laws, aliasing of operands and cancellation of terms must hold for every program of operations.",
        ["locfun/poly/poly.py", "locfun/poly/monomial.py", "locfun/poly/multi_index.py"],
        [("polynomial operations", "locfun/poly/poly.py:Polynomial"), ("normal form", "locfun/poly/poly.py:consolidate")],
        "model-based testing: generated programs vs exact rational polynomial arithmetic",
        "Random straight-line programs run on the library and on an exact model, compared after every step.",
        observe="Polynomial.__call__, ==, is_zero, arithmetic operators",
    )
    prop(
        "C02",
        "Derivatives, Laplacian and anti-Laplacian of polynomials are exact",
        "The partial derivatives, the gradient and the Laplacian of any polynomial are those of calculus, and the anti-Laplacian is a polynomial of at most two more degrees whose Laplacian is the given polynomial. "
        "The normal and tangential derivatives of a polynomial sampled on the boundary of a cell are the exact directional derivatives times the arc length elements.",
        ["inputs"],
        "every polynomial, every cell with holes and curved edges",
        "Tests check a handful of polynomials of low degree; the anti-Laplacian formula changes with every exponent pair.",
        ["locfun/poly/poly.py", "locfun/poly/monomial.py"],
        [("calculus", "locfun/poly/poly.py:partial_deriv..anti_laplacian"), ("boundary derivatives", "locfun/poly/poly.py:get_weighted_normal_derivative")],
        "property-based testing: exact rational calculus and exact curve geometry",
        "Random polynomials up to degree 12; the Laplacian of the anti-Laplacian is computed exactly.",
    )
    prop(
        "C03",
        "Multi-indices are numbered by a one-to-one graded enumeration",
        "The integer of a multi-index and the multi-index of an integer are inverse of each other, and the integers enumerate the multi-indices by nondecreasing order, so that the monomials of degree at most m are the first (m+1)(m+2)/2. "
        "Building from either gives equal objects, sums add exponents, copies are independent, and negative, fractional or malformed exponents are rejected with the object left unchanged.",
        ["inputs"],
        "all multi-indices and integers, including very large ones",
        "Tests enumerate the first few; the inverse uses a floating point square root that must round correctly for every integer.",
        ["locfun/poly/multi_index.py", "locfun/poly/poly.py"],
        [("numbering", "locfun/poly/multi_index.py:MultiIndex")],
        "property-based testing: exact integer formulas",
        "Random and boundary exponents up to very large integers, vs exact integer arithmetic.",
    )
    prop(
        "C04",
        "Special polynomial families satisfy their defining identities",
        "The Legendre polynomials, their integrated versions and tensor products agree with their defining recurrences everywhere, the integrated ones vanishing at both ends. "
        "The barycentric coordinates of any triangle (either orientation) are the linear polynomials that are one at their vertex and zero at the others and add up to one; those of an edge are linear functions that are one at their own end and zero at the other. "
        "Coincident vertices are rejected.",
        ["inputs"],
        "every degree within range, every triangle and edge",
        "Tests use one counterclockwise triangle and a few degrees.",
        ["locfun/poly/legendre.py", "locfun/poly/barycentric.py"],
        [("Legendre families", "locfun/poly/legendre.py"), ("barycentric coordinates", "locfun/poly/barycentric.py")],
        "property-based testing: exact recurrences and defining identities",
        "Random degrees, triangles of any size, place and orientation.",
    )
    prop(
        "C09",
        "Mesh cells assemble any list of edges into correctly oriented contours",
        "Given the edges of a cell in any order and with any contour listed first, each oriented either way and with loops allowed, the cell finds its contours, orders the edges of each end to end, identifies the outer boundary and orients it counterclockwise and the holes clockwise. "
        "Its sampled boundary lists each sample of each edge once in that order with outward normals, tangents, arc lengths and closest-vertex indices that match, whatever quadrature is used and after re-sampling. "
        "Edges that do not form disjoint closed contours are rejected and the caller's list is left unchanged.",
        ["inputs", "configurations", "histories"],
        "all orders and orientations of the edges of all cells with any number of holes",
        "Tests list edges in one order and orientation, with the outer boundary at one place of the list.",
        ["mesh/cell.py", "mesh/closed_contour.py"],
        [("contours", "mesh/cell.py:find_closed_contours"), ("outer boundary", "mesh/cell.py:_find_outer_boundary"), ("sampled boundary", "mesh/cell.py:get_boundary_points")],
        "property-based testing: permuted generated cells vs reference contours",
        "Random multiply connected cells, orders, orientations, quadratures.",
        observe="MeshCell.components, get_boundary_points, dot_with_normal, closest_vert_idx, num_holes",
    )
    prop(
        "C10",
        "Points are classified inside or outside a cell exactly by its geometry",
        "A point farther from the sampled boundary than the sampling error is reported inside a cell (or contour) exactly when it is inside the outer boundary and outside every hole. "
        "The chosen point of each hole lies in it well away from its boundary, and the interior points of a cell are points of the documented grid that are inside the cell and not too near to the boundary, no admissible grid point being missed or listed twice. "
        "Bounding boxes are those of the sampled points.",
        ["inputs"],
        "every cell with curved, nonconvex, multiply connected boundary and every query point",
        "Tests query a few points of a disk and a square; ray casting fails at special configurations such as vertices at the height of the point.",
        ["mesh/cell.py", "mesh/closed_contour.py", "mesh/bounding_box.py"],
        [("membership", "mesh/closed_contour.py:is_in_interior_contour"), ("grid", "mesh/cell.py:generate_interior_points")],
        "property-based testing: winding numbers of the exact curves",
        "Random cells and query points (aligned with samples, near vertices, far away) vs winding numbers.",
        observe="is_in_interior, int_x1/int_x2, interior_point, bounding_box",
    )
    prop(
        "C11",
        "A planar mesh has the topology its edge labels describe",
        "A mesh built from edges labelled with the cells on their two sides has exactly the cells, vertices and edges that these labels determine: each is numbered once and consistently, edges and vertices are on the boundary exactly when they touch the outside, and each cell consists of its edges oriented with the cell on their left. "
        "The Euler characteristic agrees with the holes, cells can be requested repeatedly and in any order with the same result, and edges that belong to no cell, wrong types and absent cells are rejected.",
        ["inputs", "histories"],
        "all planar partitions with curved edges, loops, holes and any cell labels, in any order of the edges",
        "Tests build two meshes from the library of examples with consecutive labels.",
        ["mesh/planar_mesh.py", "mesh/cell.py", "mesh/vert.py"],
        [("mesh", "mesh/planar_mesh.py:PlanarMesh")],
        "property-based testing: generated planar partitions with known topology",
        "Random meshes (grids, sectors, rings, punctured and curved cells, non-consecutive labels, permuted edges).",
        observe="PlanarMesh.num_cells, num_verts, num_edges, get_cells, edge_is_on_boundary, vert_is_on_boundary, get_abs_cell_idx",
    )
    prop(
        "C12",
        "Integrals of polynomials over cells are exact volume integrals",
        "The integral of any polynomial over a mesh cell with curved edges and holes equals the exact area integral, wherever the cell lies; it is linear in the polynomial, and integrals over the cells of a mesh add up to the integral over the domain.",
        ["inputs"],
        "all polynomials and all cells and meshes",
        "Tests integrate one polynomial on one shape.",
        ["locfun/poly/poly.py", "mesh/cell.py"],
        [("reduction to the boundary", "locfun/poly/poly.py:integrate_over_cell")],
        "property-based testing: Gauss-Legendre integration along the exact curves (Green's theorem)",
        "Random polynomials over random cells and meshes.",
    )
    prop(
        "C13",
        "Spectral differentiation and integration are exact and mutually inverse",
        "The spectral derivative and antiderivative of samples of a trigonometric polynomial on a periodic interval are exact, real and of zero mean where undetermined, leave their argument unchanged and are inverse of each other up to constants. "
        "On the boundary of a cell, contour by contour, the tangential derivative of the trace of a smooth function is its exact directional derivative times the arc length, and integrating it back recovers the trace up to a constant per contour.",
        ["inputs", "configurations"],
        "all trigonometric polynomials, interval lengths, sizes; all cells with several contours and numbers of samples",
        "Tests differentiate one function on one contour.",
        ["locfun/fft_deriv.py"],
        [("FFT derivative", "locfun/fft_deriv.py")],
        "property-based testing: exact trigonometric calculus; round trips",
        "Random trigonometric polynomials and smooth functions on multiply connected cells.",
    )
    prop(
        "C14",
        "Dirichlet traces behave as functions on the edges under any operations",
        "A Dirichlet trace defined by values, polynomials, functions or edge by edge, and changed by any sequence of assignments, re-samplings, copies and arithmetic, takes at each sampled boundary point the value that its definition gives at that point of that edge. "
        "Arithmetic acts pointwise on values and functions alike without changing the operands, two traces never share state, and arguments of wrong size or type are rejected without effect. Piecewise polynomials take on each edge the values of the polynomial given for that edge.",
        ["histories", "inputs"],
        "every history of operations on traces over all collections of edges",
        "Tests set values once on one cell and check a few operators.",
        ["locfun/trace.py"],
        [("trace", "locfun/trace.py:DirichletTrace")],
        "model-based (stateful) testing: generated histories vs a model of functions and values per edge",
        "Random histories on several traces over the edges of random cells.",
        observe="DirichletTrace.values, funcs, operators, set_* methods",
    )
    prop(
        "C15",
        "Edge spaces span exactly the traces of polynomials on the edge",
        "The functions of the space of degree p over an edge are linearly independent polynomials of degree at most p that span exactly the restrictions to the edge of all such polynomials, whatever the place and the size of the edge. "
        "On an edge that is not a loop the two vertex functions are one at their own end and zero at the other, all other functions vanish at both ends, and each function has the key of its vertex or edge and index; degrees below one are rejected.",
        ["inputs"],
        "every edge type, option, place, size and degree 1 to 3",
        "Tests compare dimensions for a few edges of unit size.",
        ["locfun/edge_space.py", "locfun/poly/barycentric.py"],
        [("edge space", "locfun/edge_space.py:EdgeSpace")],
        "property-based testing: numerical rank and mutual containment with all polynomials on the exact curve",
        "Random edges and degrees; ambiguous numerical ranks are only checked for approximate containment.",
        observe="EdgeSpace.vert_fun_traces, edge_fun_traces, global keys",
    )
    prop(
        "C16",
        "Harmonic conjugates and Neumann data of harmonic functions are exact",
        "For a function harmonic in a cell with any number of holes, given by its boundary values, the solver finds the strength of its logarithmic singularity in each hole, its harmonic conjugate up to one constant once these are removed, and its weighted normal and tangential derivatives on the boundary, "
        "converging to the exact ones. Solving the Neumann problem with compatible data recovers the boundary values of the harmonic function up to one constant; results are linear in the data and do not depend on additive constants.",
        ["inputs", "configurations"],
        "all harmonic functions on all simply and multiply connected cells",
        "Tests use one function on a few cells with stored reference values.",
        ["locfun/nystrom.py", "locfun/local_harmonic.py"],
        [("Neumann solve", "locfun/nystrom.py:solve_neumann_zero_average"), ("conjugate", "locfun/nystrom.py:get_harmonic_conjugate"), ("normal derivative", "locfun/local_harmonic.py")],
        "property-based testing: exact analytic functions with poles and logarithms in the holes",
        "Random analytic functions on random cells; exact conjugates, derivatives and log coefficients.",
    )
    prop(
        "C17",
        "Inner products of local functions equal the exact integrals",
        "For functions on a cell whose Laplacian is a polynomial, given by their Laplacian and boundary values, the H1 semi-inner product and the L2 inner product computed from boundary data equal the integrals over the cell of the product of the gradients and of the functions, "
        "for simply and multiply connected cells with curved edges anywhere in the plane, also against polynomials and harmonic functions, and with either way of finding anti-Laplacians. This holds for LocalPoissonFunction and for the older LocalFunction.",
        ["inputs", "configurations"],
        "all pairs of local functions on all cells",
        "Tests compare with stored values for a few functions on three cells.",
        ["locfun/local_poisson.py", "locfun/inner_prod.py", "locfun/antilap.py", "locfun/local_harmonic.py", "locfun/local_polynomial.py"],
        [("inner products", "locfun/inner_prod.py"), ("anti-Laplacian of harmonic functions", "locfun/antilap.py")],
        "property-based testing: exact functions integrated over the exact region by Green's theorem / 2D quadrature",
        "Random polynomial plus analytic functions with logarithms and poles on random cells.",
        observe="LocalPoissonFunction.get_h1_semi_inner_prod, get_l2_inner_prod",
    )
    prop(
        "C18",
        "Local functions form an inner product space",
        "Sums, differences, scalar multiples and quotients of local functions have the traces, Laplacians, interior values and inner products of the corresponding combinations, without changing the operands. "
        "The H1 and L2 forms are symmetric, bilinear, positive (semi-)definite and satisfy the Cauchy-Schwarz inequality, and constants have zero H1 product with everything; operands that are not admissible are rejected.",
        ["programs", "inputs"],
        "every combination of local functions with arbitrary boundary values on every cell",
        "Tests never combine functions; laws over all operands cannot be sampled by a few values.",
        ["locfun/local_poisson.py", "locfun/locfun.py", "locfun/inner_prod.py", "locfun/local_polynomial.py"],
        [("algebra of local functions", "locfun/local_poisson.py:__add__..__truediv__")],
        "property-based testing: algebraic laws over generated programs of operations",
        "Random local functions with piecewise polynomial and other boundary values, combined by random programs.",
    )
    prop(
        "C19",
        "Interior values and gradients of local functions are those of the function",
        "At the interior points of a cell, the computed values and gradient of a local function approximate those of the function with the given Laplacian and boundary values, for polynomials, harmonic functions with logarithms and poles in the holes, and their sums; "
        "the values satisfy the maximum principle for harmonic functions. This holds for LocalPoissonFunction and for the older LocalFunction.",
        ["inputs"],
        "all local functions on all cells, all interior points away from the boundary",
        "Tests check interior values only for one function on a few cells.",
        ["locfun/local_poisson.py", "locfun/local_harmonic.py", "locfun/local_polynomial.py", "mesh/cell.py"],
        [("interior values", "locfun/local_poisson.py:compute_interior_values"), ("harmonic values", "locfun/local_harmonic.py")],
        "property-based testing: exact functions evaluated at the interior points",
        "Random exact functions on random cells; points nearer to the boundary than a few samples are excluded.",
        observe="LocalPoissonFunction.int_vals, int_grad1, int_grad2",
    )
    prop(
        "C20",
        "Local computations are equivariant under similarities and relabelling",
        "Moving, rotating and scaling a cell together with the data leaves L2 inner products multiplied by the area factor, H1 products unchanged, traces and interior values carried along and gradients turned and scaled; "
        "listing the edges in another order, reversing them or splitting them does not change the inner products beyond discretization error.",
        ["inputs", "configurations"],
        "all cells, local functions, similarities, orders, orientations and splittings of the edges",
        "Tests use one placement of each cell.",
        ["locfun/local_poisson.py", "locfun/nystrom.py", "locfun/antilap.py", "mesh/cell.py"],
        [("local functions", "locfun/local_poisson.py"), ("Nystrom solver", "locfun/nystrom.py")],
        "metamorphic property-based testing: images under similarities, permutations, reversals, splits",
        "Random cells, piecewise polynomial data and maps; both sides computed by the library.",
    )
    prop(
        "C21",
        "Local function spaces have the complete nodal basis of the method",
        "The local space of degree p of a cell has one function per vertex, the edge functions of each edge and p(p-1)/2 bubbles, all linearly independent: the traces of vertex and edge functions are those of the edge spaces on the edges they belong to, zero on the others, continuous around the boundary, and harmonic; bubbles vanish on the boundary and have the monomials as Laplacians up to scale. "
        "Traces of all polynomials of degree at most p on the boundary are combinations of the basis, and vertex functions add up to one for straight edges.",
        ["inputs"],
        "all cells with any edges and holes, degrees 1 to 3",
        "Tests count functions of one cell.",
        ["locfun/local_space.py", "locfun/edge_space.py", "solver/globkey.py"],
        [("local space", "locfun/local_space.py:LocalPoissonSpace")],
        "property-based testing: structural invariants and reproduction of polynomials",
        "Random cells and degrees; traces compared edge by edge.",
    )
    prop(
        "C22",
        "Global functions are numbered one-to-one and conform across cells",
        "The global space numbers the bubbles of each cell, the vertices and the edge functions of each edge exactly once each and without gaps, and every cell receives the global numbers of exactly its own functions, the same from both sides of an edge. "
        "The trace on a shared edge of a global function is the same computed in both cells, and a function is on the boundary of the domain exactly when its vertex or edge is.",
        ["inputs"],
        "all planar meshes with curved edges, loops and holes, degrees 1 to 3",
        "Tests count the functions of one mesh.",
        ["solver/globfunsp.py", "solver/globkey.py", "mesh/planar_mesh.py"],
        [("numbering", "solver/globfunsp.py:GlobalFunctionSpace"), ("keys", "solver/globkey.py:GlobalKey")],
        "property-based testing: bijection, conformity and boundary flags on generated meshes",
        "Random meshes with known topology.",
        observe="GlobalFunctionSpace.num_funs, get_global_idx, cell_dofs, fun_is_on_boundary",
    )
    prop(
        "C23",
        "Assembled matrices represent the exact bilinear forms on the mesh",
        "The stiffness and mass matrices are symmetric positive (semi-)definite and sparse only where functions share a cell, and for coefficient vectors of polynomials they give the exact integrals over the domain of products of gradients and of functions; the right-hand side gives the exact integrals against the load. "
        "The global matrix is the diffusion constant times the stiffness plus the reaction constant times the mass matrix except in the rows of boundary functions.",
        ["inputs"],
        "all meshes, degrees, diffusion and reaction constants, loads",
        "Tests solve one problem and compare one stored energy.",
        ["solver/solver.py", "solver/bilinear_form.py", "solver/globfunsp.py"],
        [("assembly", "solver/solver.py:assemble"), ("forms", "solver/bilinear_form.py")],
        "property-based testing: quadratic forms of interpolated polynomials vs exact integrals",
        "Random meshes, constants and loads.",
    )
    prop(
        "C24",
        "The Galerkin solution solves the discrete problem",
        "The computed solution vanishes on the boundary of the domain and satisfies the discrete equations at all other functions; when the exact solution belongs to the space it is reproduced, and otherwise the energy error is orthogonal to the space. "
        "The solution depends linearly on the load, is unchanged when all coefficients and the load are multiplied by the same constant, and its restriction to each cell is the combination of the local basis.",
        ["inputs"],
        "all meshes, degrees, constants and loads",
        "Tests solve one problem.",
        ["solver/solver.py", "solver/bilinear_form.py", "solver/globfunsp.py", "locfun/local_space.py"],
        [("solve", "solver/solver.py:solve"), ("restriction to a cell", "solver/solver.py:compute_linear_combo_on_mesh_cell")],
        "property-based testing: manufactured solutions and discrete residuals",
        "Random domains where exact solutions are in the space, loads and constants.",
    )
    prop(
        "C25",
        "The global solution does not depend on how the mesh is described",
        "Listing the edges in another order, renumbering cells and vertices, exchanging the two sides together with reversing an edge, and moving or turning the whole mesh do not change the solution's energy and integrals nor its values at corresponding points.",
        ["inputs", "configurations"],
        "all meshes and all relabellings",
        "Tests use one labelling of each mesh.",
        ["mesh/planar_mesh.py", "solver/globfunsp.py", "solver/solver.py"],
        [("global problem", "solver/solver.py"), ("mesh", "mesh/planar_mesh.py")],
        "metamorphic property-based testing: two descriptions of one mesh",
        "Random meshes and relabellings, both solved by the library.",
    )
    prop(
        "C26",
        "Invalid arguments are rejected with the documented errors",
        "Arguments of the wrong type, size or range given to the public classes and functions (edges, splitting, quadratures, cells, contours, meshes, polynomials, traces, the Nystrom solver, local functions and spaces, global keys, spaces and solvers) raise the exceptions the code documents for them instead of producing a result; a rejected setter or operation leaves its object as it was; and valid arguments at the edge of the allowed range (index 0, the fewest points, the lowest degree) are accepted.",
        ["inputs"],
        "all malformed arguments of the public constructors, setters and operations",
        "Tests try few malformed arguments.",
        ["mesh/edge.py", "mesh/quad.py", "mesh/split_edge.py", "mesh/vert.py", "locfun/nystrom.py", "locfun/local_poisson.py", "solver/globkey.py", "solver/solver.py", "solver/bilinear_form.py"],
        [("validation", "puncturedfem")],
        "fuzzing of arguments against the documented errors; state compared before and after",
        "Random malformed arguments.",
    )
    prop(
        "C27",
        "Computations are repeatable and leave their inputs unchanged",
        "Carrying out the same computation twice, on the same objects or on rebuilt ones, in any interleaving with other cells, functions, solvers or meshes, gives identical results, and the objects given as inputs (meshes, cells, edges, quadratures, polynomials, traces, arrays) are left as they were.",
        ["histories", "inputs"],
        "all interleavings of local and global computations on several cells and meshes",
        "Tests compute each thing once in a fresh process.",
        ["locfun/", "mesh/", "solver/"],
        [("local functions", "locfun/local_poisson.py"), ("mesh cells", "mesh/cell.py"), ("solver", "solver/solver.py")],
        "stateful property-based testing: interleaved histories vs isolated runs",
        "Random interleavings; results compared exactly.",
    )
    prop(
        "C28",
        "The mesh library builds the advertised meshes for all parameters",
        "For every size and radius pegboard(size, radius) is a rectangle of size[0] by size[1] equal squares, its longest side scaled to 1, each with a circular puncture of the given relative radius filled by a cell of its own (no punctures for a radius of 0 or less); the pacman, pacman_subdiv and square_circular_hole meshes are those described. In all of them the cells partition the domain: areas, holes, numbers of cells, vertices, edges and boundary edges are as the construction implies, and every point lies in exactly one cell. mesh_builder numbers the vertices in order, passes them and its keyword arguments on and builds the mesh of the edges it gets; text is printed only if verbose.",
        ["configurations", "inputs"],
        "all parameters of the mesh builders",
        "Tests build the meshes with one set of parameters.",
        ["mesh/meshlib/"],
        [("builders", "mesh/meshlib/*.py")],
        "property-based testing: parametric meshes vs exact areas and counts",
        "Random builder parameters.",
    )
    prop(
        "C29",
        "Plots show the data they are given",
        "The plots of meshes, traces and local and global functions draw exactly the given data: one curve per edge through its points, trace values against the boundary parameter with ticks at the ends of the edges, and interior and boundary values at the points where they belong, with the colour range of the data; "
        "triangulations cover the cell and not its holes, and figures are saved where asked and nowhere else.",
        ["inputs", "configurations"],
        "all meshes, functions and plot options",
        "Tests do not plot.",
        ["plot/"],
        [("plots", "plot/*.py")],
        "property-based testing: artists of the figure vs the data",
        "Random meshes, functions and options.",
    )
    prop(
        "C30",
        "Vertices obey plane vector algebra",
        "Sums, differences, scalar multiples and quotients, norms, comparisons and coordinates of vertices are those of plane vectors, without changing the operands; vertices with invalid coordinates or indices are rejected.",
        ["programs", "inputs"],
        "all coordinates and programs of operations",
        "Tests check a few vectors.",
        ["mesh/vert.py"],
        [("vertex", "mesh/vert.py:Vert")],
        "model-based testing vs complex numbers",
        "Random programs of operations.",
    )
