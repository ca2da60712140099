# id: (workload: what drives the code, oracle: what each answer is compared with, limits: what is not judged)
ROWS = {
"C01": ("number pairs built around the tolerance edge (exactly at it, one ulp either side), zeros, signs, denormals, huge ranges; policies: absolute, relative, direct, fraction, compound and mapped", "the defining inequality evaluated in long double; trichotomy, mirror and operator-consistency checked online on each pair", "differences within a few ulp of the tolerance are judged only where the subtraction is exact (dyadic group)"),
"C02": ("random expression trees over points and vectors of dimension 2,3,4,5,7, with units, basic operations in eight more dimensions up to 20, aliased assignment (target inside its own expression)", "scalar component arithmetic on copies; exact on small integers, rounding bound elsewhere", ""),
"C03": ("matrices 1x1..9x9 (up to 16 rows or columns for sums, products, transposes) and rectangular, integer entries (exact) and real, views of views, composites of 2-10 rows, columns and blocks, in-place assignment, inverse of random well conditioned matrices", "textbook triple loops / Leibniz determinant in 128-bit or long double", "inverse only where the condition estimate is < 1e6"),
"C04": ("matrices of several sizes with forced pivoting, permuted, scaled, singular by construction", "residual, A*A^-1, Leibniz determinant; exception for exact singularity", "condition bound as C03"),
"C05": ("translation/rotation/scale compositions in 2D/3D, unit vector pairs incl. nearly opposite and equal", "direct long double formulas; distance and signed-angle invariants", "antiparallel 3D rotation axis is not unique, only the mapping is judged"),
"C06": ("points in every quadrant/octant, on axes, all frame-to-frame conversions and accessors", "atan2/acos in long double; round trip", ""),
"C07": ("small integer grids (all degenerate triples), large integers, real points near lines", "128-bit exact determinant sign", "between-tests on zero length segments"),
"C08": ("tuples of points/segments with many ties; all triples checked for the order axioms; std::sort compared", "exact lexicographic / exact angular order by half plane and cross product", ""),
"C09": ("all segment pairs of a 3x3 grid (6561, thorough 9x9), large grids, overlaps, touching ends, near-end contacts, 3D", "exact rational intersection with 128-bit integers", "3D collinear pairs (see findings)"),
"C10": ("rays, lines and segments on integer grids, axis parallel, behind the origin, parallel, collinear", "exact sign tests, long double points; segment against hyperplane shared with C42", "parallel segment/plane (library divides by zero, callers must exclude)"),
"C11": ("star, rectilinear, comb, spiral, convex polygons with both windings; queries on vertices, edges, horizontal rays through vertices, tilings", "exact winding/crossing test in integers", ""),
"C12": ("boxes from point sets, expansion, segments and rays in 2D/3D on faces, edges, corners, zero direction components; polylines/polygons", "per-axis exact rational slab clipping", "slanted lines that graze exactly one corner"),
"C13": ("oriented boxes at integer (pythagorean) and real angles, either handedness, thin and square; points, boxes, spheres, segments in every Voronoi region", "four corners as solid convex polygon in long double", "touching within 1e-9"),
"C14": ("lines, segments, rays, circles, spheres, boxes, capsules; inside/outside/tangent/concentric starts", "closed form in long double, residual of both equations, order of parameters", "grazing within tolerance"),
"C15": ("triangles/boxes/segments on grids in 2D and 3D with every separating axis being decisive in turn", "exact separating axis test on integers", "exact touching"),
"C16": ("swept spheres and boxes, approaching, receding, starting inside, at rest, hitting face/edge/corner", "root bracketing of the exact distance function in long double", "grazing contact; box corner cases within 1e-6 of tangency"),
"C17": ("points against every primitive in 2..7 dimensions, in each Voronoi region, duplicates", "brute-force minimum in long double, membership and distance of the closest point; obb points shared with C13", ""),
"C18": ("pairs of segments/chains/polygons/boxes, crossing, touching, nested, sizes on either side of the algorithm switch-over (6 vertices)", "all-pairs minimum in long double", ""),
"C19": ("2D/3D point sets with duplicates, equal coordinates, 1..5000 points, every partition policy, ranges degenerate and on points", "linear scan multiset comparison; sanitizers for foreign memory", ""),
"C20": ("grid traits with dyadic (exact) and arbitrary cell sizes and offsets, borders, erase/clear histories on dense and hashed grids", "exact index arithmetic; std::map model", "indices of points within rounding of a cell border in the rounded group"),
"C21": ("segments along rows, columns, diagonals, through corners, zero length, near borders, all traversal variants", "exact supercover by rational cell clipping", "cells touched within rounding in the rounded group"),
"C22": ("convex polygons and disjoint holes of all shapes in grids, seeded fills with arbitrary boundaries", "exact cell/polygon overlap; BFS model with visit counting", "cells merely touched at their border may or may not be visited"),
"C23": ("2..40 segments: verticals, stars through one point, shared ends, T-junctions, dense grids, overlapping sets", "all-pairs exact rational intersections; event log matched one to one", "overlaps judged only for soundness and termination"),
"C24": ("scenes of simple polygons with rays and queries; every partition order the policy gives for shuffled input", "exact point in polygon, brute-force ray and distance", "grazing rays"),
"C25": ("node BSP from one/several polygons, batch or insertion; points on splitting lines; painter order from random eyes", "exact containment; recorded draw log: coverage of each edge and pairwise occlusion", ""),
"C26": ("shuffled directed segments of disjoint loops and chains; copy/move/assign in mid-history", "original loops and chains up to rotation, multiset of segments", "chains that run into a loop (rho shapes)"),
"C27": ("triangulated polygons and grids of triangles, points on every side, random positions at the ends of [0,1], weights", "exact location, edge matching adjacency, cumulative weights, chi-like proportion bound with a very wide margin", "points on shared edges may be in either triangle"),
"C28": ("meshes of star, comb polygons and with interior vertices; cones from every octant", "exact line-of-sight against every border edge; exact cone clipping", "vertices in the same direction"),
"C29": ("polylines with axis/pythagorean edges, split at vertices, 0, full length and between; clip front/back/both", "prefix sums in long double, concatenation check", ""),
"C30": ("polylines closed/open with collinear runs, spikes excluded, tolerances 0..large; cleaning of polygons", "subsequence + distance re-check in long double; exact corner set", ""),
"C31": ("all polygon families, both windings, 3D lines, closed/open ranges", "exact shoelace and centroid in 128 bit, box, enumerations", ""),
"C32": ("simple/non-simple polygons, holes, nested and touching polygons, transformed copies and near copies", "all-pairs exact edge test; exact containment; long double alignment", "polygons touching only along borders (containment); spikes between adjacent edges"),
"C33": ("polylines/polygons crossing, touching, overlapping, stop requests; convex pairs", "all-pairs exact relation log, Sutherland-Hodgman and midpoint classification", "convex pairs that merely touch"),
"C34": ("segments against boxes, both in and out of each of 9 regions, through corners", "Liang-Barsky with exact rationals", "slanted corner grazing (must still end)"),
"C35": ("convex polygon pairs of 3..30 vertices, uneven, both windings, moving with every relative velocity", "exact separating edge search; exact time interval by per-axis projection", "exact touching"),
"C36": ("polylines with left/right/straight joints, offsets negative, zero, large", "closed-form joint positions in long double", "U-turns; joints straight only up to rounding (trimmed variant)"),
"C37": ("binary/decimal scales at compile/run time, limits, overflow, printing round trip", "128-bit scaled integers", ""),
"C38": ("operators/functions over tagged doubles, floats and ints; geometry with boost::units lengths", "the same computation on raw numbers; compile-time type identities", ""),
"C39": ("histories of unions/differences on a line of arbitrary slope, touching/nested/reversed segments", "exact interval-set model on the parameter", ""),
"C40": ("polygons with points on each edge and vertex, extents crossing several vertices; polylines of every turn", "exact walk; nearest part in exact arithmetic; closed form curvature", "ties of nearest part"),
"C41": ("user types adapted by each access kind, construction, assignment, mixed expressions, algorithms", "the same over library types and plain arrays", ""),
"C42": ("build/assign/replace/copy/move histories of all shape classes, containers of each kind", "plain copies of the parts; formulas", ""),
"C43": ("generator/seed/copy histories, selection from containers, memo functions with counters, statistics, allocator histories, colours", "reference definitions, std models, call counters, ownership map for the allocator", "wall-clock values of timers (only counts and ordering)"),
"C44": ("plain structures with (double, float, int, long, length) components registered by the library's macros, mixed with library vectors; function matrices; fixed-point quantities", "scalar arithmetic on the components, 64-bit integer counts", ""),
"C45": ("float and long double points, vectors, matrices, segments, polygons, boxes, trees and grids: reals with full mantissas, lattices scaled so the next narrower type cannot hold them, unimodular near-straight turns", "113-bit arithmetic on the stored coordinates with tolerances of a few roundings; exact integers for decisions", "angle wrapping below double precision"),
}
