P("C01", "Tolerance comparison policies are consistent orderings",
"""For every pair of finite numbers and every non-negative tolerance, each number comparison policy (absolute tolerance, relative tolerance, direct, and the compound/neutral ones) reports exactly one of less, equal and greater; less-or-equal and greater-or-equal agree with those, and swapping the operands mirrors the answer.
Absolute tolerance calls two numbers equal exactly when their difference is at most the tolerance; relative tolerance calls two non-zero numbers equal exactly when their difference relative to each operand is within the tolerance; a zero tolerance (or the direct policy) behaves as the built-in operators.""",
"all finite double pairs (including signed zero, denormal and huge ones), plain and boost-units quantities, all tolerances",
"the tests sample a handful of pairs on the tolerance edge; the trichotomy must hold for every pair and every policy because every algorithm in the library takes its branch decisions from it",
["numeric/number_comparison_policy.hpp", "utility/floating_point_comparison.hpp"],
[("policy classes", "numeric/number_comparison_policy.hpp"), ("floating point closeness", "utility/floating_point_comparison.hpp")])

P("C02", "Vector/point expressions equal componentwise arithmetic",
"""Any expression built from points, vectors and scalars with +, -, unary minus, * and / by a scalar, dot product, cross product (2D exterior area and 3D vector), magnitude, normalize and left/right normals evaluates to what scalar arithmetic on the components gives, for every supported dimension.
How the terms are grouped does not matter beyond rounding, and an expression may be assigned to or constructed into a point or vector, including one that occurs in the expression itself.
Interpolation between unit directions, projection onto a vector and the parallel and antiparallel tests follow their component formulas, and the bisector of two vectors of any lengths is the unit direction halfway along the counter-clockwise turn from the first to the second (half turns included).""",
"all expression shapes over 2D..higher dimensional double and quantity vectors and points, all component values",
"expressions are templates: a test fixes one shape and one set of values, while the guarantee is over all compositions and all components",
["algebra/algebra.hpp", "algebra/expression.hpp", "arithmetic/vector/magnitude.hpp", "arithmetic/vector/normalize.hpp", "arithmetic/vector/perp.hpp", "algebra/dot_product.hpp", "algebra/cross_product.hpp", "algebra/exterior_product.hpp"],
[("proto expression evaluation", "algebra/expression.hpp"), ("component functions", "algebra/functions/addition.hpp")])

P("C03", "Matrix expressions obey matrix algebra",
"""For every matrix (1x1 up to at least 6x6 and rectangular where it applies) the library's sum, difference, scalar multiple, matrix-matrix product, square matrix times column vector, transpose, trace, determinant, tensor product and element-wise reciprocal equal the textbook component formulas, and row, column and minor views, and matrices composed of rows, columns and blocks, expose exactly the selected elements.
The inverse of any well conditioned square matrix multiplies with it to the identity, and the target of an assignment may occur in the assigned expression.""",
"all matrices and dimensions with well conditioned inverses",
"tests fix a few 2x2/3x3 matrices; index mistakes in one dimension, row or minor show only for particular shapes and values",
["tensor/matrix.hpp", "arithmetic/matrix_arithmetic.hpp", "arithmetic/detail/determinant.hpp", "algebra/functions/inverse.hpp", "tensor/matrix_minor_adaptor.hpp", "tensor/matrix_row.hpp", "tensor/matrix_column.hpp", "arithmetic/matrix/trace.hpp", "tensor/composite_matrix.hpp"],
[("matrix operators", "arithmetic/matrix_arithmetic.hpp"), ("determinant by minors", "arithmetic/detail/determinant.hpp")])

P("C04", "LUP decomposition solves, inverts and reconstructs",
"""For every well conditioned square matrix the LUP decomposition solves A x = b with a small residual for every right-hand side, yields an inverse that multiplies with A to the identity and a determinant equal to that of A, whatever row permutation pivoting chooses.
A matrix that is singular to working precision is reported with an exception instead of a result.""",
"all square matrices of the supported sizes, including ones needing any permutation, and all right-hand sides",
"tests decompose a couple of fixed matrices; each pivot permutation is a different path",
["algebra/lup_decomposition.hpp", "algebra/detail/preprocessed/lup_decomposition.hpp"],
[("pivoted elimination", "algebra/detail/preprocessed/lup_decomposition.hpp")])

P("C05", "Homogeneous transforms and rotations act as isometries",
"""Homogeneous coordinates append 1 for points and 0 for vectors, so a homogeneous matrix translates points but not vectors, and composing transforms equals applying them one after the other.
A rotation matrix built from two unit vectors maps the first onto the second, rotating a point about an origin keeps its distance to the origin and turns every point by that same signed angle.""",
"all points, vectors, affine matrices and pairs of unit vectors",
"tests check a few fixed matrices; the geometric law is over all inputs",
["tensor/homogeneous_adaptor.hpp", "algorithm/rotation.hpp", "algebra/functions/matrix_product.hpp"],
[("homogeneous adaptor", "tensor/homogeneous_adaptor.hpp"), ("rotation", "algorithm/rotation.hpp")])

P("C06", "Polar and Cartesian frames convert losslessly",
"""Reading or building a 2D or 3D point or vector in the polar reference frame and converting it back to Cartesian returns the original coordinates up to rounding, in every quadrant/octant and on the axes, and the radius equals the distance to the origin.
The angles reported lie in the documented ranges, and accessors of either frame agree with converting first and reading afterwards.""",
"all finite coordinates including axes and the origin",
"tests convert a few points; quadrant handling differs per sign combination",
["space/cartesian_polar_transformation.hpp", "space/polar_cartesian_transformation.hpp", "space/polar_access_traits.hpp", "space/reference_frame_transformation.hpp", "space/reference_frame_adaptor.hpp"],
[("frame transformations", "space/reference_frame_transformation.hpp")])

P("C07", "Orientation and betweenness predicates are exact on grids",
"""For points whose coordinates make the arithmetic exact, the orientation of three points, the test for a point between the ends of a non-degenerate segment, collinearity and vector-between predicates equal exact evaluation, including every collinear, coincident and axis-aligned degenerate case, and swapping two points flips the orientation.
Angle helpers agree: an angle normalised to a full turn lies in [0, 2 pi] and is equivalent to the input, and the angle between vectors and angle comparison functions order directions as exact evaluation does.
The oriented intersection of two segments reports from which side the first one properly crosses the second, an overlap for collinear segments sharing a stretch, a touch for segments sharing only an end, and none for segments apart.""",
"all points/vectors with exactly representable cross products; all finite angles",
"each of the degenerate sign combinations is its own case and tests sample few",
["algorithm/orientation.hpp", "utility/utilities.hpp"],
[("orientation tests", "algorithm/orientation.hpp"), ("is_between, is_vector_between, normalize_angle", "utility/utilities.hpp")])

P("C08", "Lexicographic and angular comparators are strict weak orders",
"""The lexicographic point and segment comparators, the point/vector angle comparators and the distance comparator are irreflexive, asymmetric and transitive with transitive equivalence, so that sorting any point set yields the order an independent exact sort yields.
Lexicographic comparison orders by the first coordinate that differs, angular comparison by counter-clockwise angle about the reference.""",
"all finite point/segment sets on a grid",
"tests sort one list; ordering laws are over all pairs and triples",
["utility/utilities.hpp", "utility/point_angle_compare.hpp", "utility/vector_angle_compare.hpp", "algorithm/distance/distance_compare.hpp"],
[("comparators", "utility/utilities.hpp")])

P("C09", "2D segment-segment intersection agrees with exact geometry",
"""For any two non-degenerate 2D segments, the intersection test reports none exactly when the closed segments are disjoint, a crossing when they cross in their interiors, an endpoint contact when an endpoint of one lies on the other, and an overlap when they are collinear and share a stretch; collinear ones sharing only one end are reported as touching there.
The reported point lies on both segments, the reported overlap interval is the exact common stretch, and the answer does not depend on the direction or order in which the segments are given.
In 3D two segments that are not collinear are reported to intersect exactly when they meet, at a point on both, with a contact at an end of either told from a crossing.""",
"all pairs of non-degenerate segments on an integer grid and of well separated real ones",
"the case split over parallel, collinear, touching and crossing configurations in both orders is far larger than the sampled tests",
["algorithm/intersection/segment_segment_intersection.hpp", "algorithm/linear_components_intersection.hpp"],
[("segment_segment_intersection", "algorithm/intersection/segment_segment_intersection.hpp")])

P("C10", "Ray and line intersection agree with exact geometry",
"""Intersecting a 2D ray or line with a segment or with another line finds a hit exactly when the point sets meet, and the reported point lies on both.
Parallel and disjoint components report none, collinear ones an overlap, and a ray never hits what lies strictly behind its origin.""",
"all rays/lines/segments on a grid including parallel, collinear and touching ones",
"tests sample a few rays; sign and parallel cases multiply",
["algorithm/intersection/ray_segment_intersection.hpp", "algorithm/intersection/ray_line_intersection.hpp", "algorithm/line_intersection.hpp"],
[("ray_segment_intersection", "algorithm/intersection/ray_segment_intersection.hpp"), ("line_line_intersect", "algorithm/line_intersection.hpp")])

P("C11", "Point containment tests match exact geometry",
"""For any simple polygon in the plane (either winding, any number of vertices, horizontal and vertical edges included) a point strictly inside is reported inside and one strictly outside is reported outside by every containment test; the border-aware test also classifies points on an edge and on a vertex as such.
Tests restricted to convex polygons, quadrilaterals and triangles, given counter-clockwise, agree with the general ones on their domain and count the border as inside.""",
"all simple polygons and query points",
"crossing-number tests break at rays through vertices and along edges, which depends on the particular polygon and point",
["algorithm/point_in_polygon.hpp"],
[("point_in_polygon", "algorithm/point_in_polygon.hpp")])

P("C12", "Axis-aligned boxes bound and intersect exactly",
"""A box made from a set of points is the smallest axis-aligned box containing all of them; expanding it by a point or box gives the smallest box containing both, and its containment and box-box intersection queries are the closed-interval tests per axis.
Segment against box (2D and 3D), ray against box, and polyline and polygon against box (2D) report a hit exactly when the closed point sets meet; the segment's parameters and points are those of entry and exit, and a ray is reported where it enters the box, or leaves it if it starts inside (a line merely grazing a corner at a slant is not decided).""",
"all boxes, points, rays, segments and polygons in 2D and 3D on a grid, including flat boxes and axis-parallel directions",
"tests sample few configurations of the slab test; each zero direction component and face is its own path",
["primitive/axis_aligned_bounding_box.hpp", "algorithm/intersection/ray_aabb_intersection.hpp", "algorithm/intersection/segment_aabb_intersection.hpp", "algorithm/intersection/aabb_aabb_intersection.hpp", "algorithm/intersection/polygon_aabb_intersection.hpp", "algorithm/intersection/polyline_aabb_intersection.hpp"],
[("axis_aligned_bounding_box", "primitive/axis_aligned_bounding_box.hpp"), ("ray_aabb slab test", "algorithm/intersection/ray_aabb_intersection.hpp")])

P("C13", "Oriented box queries match the box they describe",
"""For any 2D oriented box, point distance, closest point, containment, box-box overlap and sphere overlap equal the value obtained from the four corners of the box as a solid convex polygon, and the segment distance is the distance to its border.
The answer does not depend on which axis is called first or on axis direction.""",
"all centers, unit axes, half-extents, and query points/segments/boxes away from exact ties",
"tests use a few boxes; each separating axis, region and edge is a different path",
["primitive/oriented_bounding_box.hpp", "algorithm/distance/point_obb_distance.hpp", "algorithm/distance/segment_obb_distance.hpp", "algorithm/intersection/obb_obb_intersection.hpp", "algorithm/intersection/sphere_obb_intersection.hpp"],
[("separating axes", "algorithm/intersection/obb_obb_intersection.hpp"), ("clamping to extents", "algorithm/distance/point_obb_distance.hpp")])

P("C14", "Circle, sphere and capsule intersections lie on both shapes",
"""Intersecting a segment, ray, circle, sphere, box or capsule with a circle or sphere reports a hit exactly when the shapes meet, and each reported point or parameter satisfies both shapes' equations, in 2D and 3D, with the hits in order along the line.
Disjoint, contained and concentric configurations report what their names say, and swapping two circles gives the same points.""",
"all centers, radii, segments away from exact tangency, and exact tangency on a Pythagorean grid",
"tests sample a few layouts of the quadratic's sign cases",
["algorithm/intersection/segment_sphere_intersection.hpp", "algorithm/intersection/ray_sphere_intersection.hpp", "algorithm/intersection/circle_circle_intersection.hpp", "algorithm/intersection/sphere_sphere_intersection.hpp", "algorithm/intersection/sphere_aabb_intersection.hpp", "algorithm/intersection/segment_capsule_intersection.hpp"],
[("quadratic solution", "algorithm/intersection/segment_sphere_intersection.hpp")])

P("C15", "Triangle overlap tests match exact geometry",
"""The 2D segment-triangle test and the triangle-box overlap test in 2D and 3D report an overlap exactly when the closed sets meet, for every position and orientation of the triangle (exact touching aside).""",
"all triangles, segments and boxes away from exact touching",
"each separating axis is needed only by particular configurations",
["algorithm/intersection/segment_triangle_intersection.hpp", "algorithm/eberly_triangle_aabb_intersection.hpp", "primitive/triangle.hpp"],
[("separating axis tests", "algorithm/eberly_triangle_aabb_intersection.hpp")])

P("C16", "Swept tests report the true first time of contact",
"""For a sphere moving at constant velocity against a sphere, plane, segment, box or oriented box, and an oriented box moving against another, the swept test reports contact exactly when the moving shape touches the static one within the time horizon, and the reported time is the earliest such time.
At that time the shapes are at contact distance and at any earlier time they are apart; grazing contact is not decided.""",
"all positions, velocities, radii and extents away from grazing contact",
"contact time is a minimum over features (faces, edges, corners), each its own path",
["algorithm/intersection/moving_sphere_sphere_intersection.hpp", "algorithm/intersection/moving_sphere_plane_intersection.hpp", "algorithm/intersection/moving_sphere_segment_intersection.hpp", "algorithm/intersection/moving_sphere_aabb_intersection.hpp", "algorithm/intersection/moving_obb_obb_intersection.hpp"],
[("swept tests", "algorithm/intersection/moving_sphere_aabb_intersection.hpp")])

P("C17", "Point distances and closest points are true minima",
"""The distance from a point to a point, segment, line, box, polyline or polygon border is the minimum over that set, the squared form is its square, and the closest point returned lies on the set at exactly that distance.
This holds in 2D and 3D where offered, at corners, beyond segment ends, and for any number of vertices.""",
"all points and shapes",
"the minimum is over regions and over every edge including the closing one; tests sample a few",
["algorithm/distance/point_segment_distance.hpp", "algorithm/distance/point_segment_closest_point.hpp", "algorithm/distance/point_line_distance.hpp", "algorithm/distance/point_aabb_distance.hpp", "algorithm/distance/point_polyline_distance.hpp", "algorithm/distance/point_polygon_distance.hpp", "algorithm/distance/point_polyline_closest_point.hpp", "algorithm/distance/point_polygon_closest_point.hpp", "algorithm/distance/point_point_distance.hpp"],
[("projection and clamping", "algorithm/distance/point_segment_closest_point.hpp")])

P("C18", "Distances between extended shapes are true minima",
"""In the plane the distance between two segments, a segment and a polyline or polygon border, two polylines, two polygon borders or two boxes (boxes and segments also in space) is the minimum over all point pairs, is zero exactly when they meet, and does not depend on argument order.
The closest points returned lie one on each shape and realise that distance, for any vertex count; queries restricted to a range of edges answer for that part alone.""",
"all segment/polyline/polygon/box pairs, in particular large vertex counts where an indexed search replaces the pairwise scan",
"large inputs take a different algorithm than the small ones the tests use",
["algorithm/distance/segment_segment_distance.hpp", "algorithm/distance/segment_segment_closest_point.hpp", "algorithm/distance/eberly_segment_segment_distance.hpp", "algorithm/distance/segment_polyline_distance.hpp", "algorithm/distance/segment_polygon_distance.hpp", "algorithm/distance/polyline_polyline_distance.hpp", "algorithm/distance/polygon_polygon_distance.hpp", "algorithm/distance/polyline_polyline_closest_point.hpp", "algorithm/distance/polygon_polygon_closest_point.hpp", "algorithm/distance/aabb_aabb_distance.hpp"],
[("pairwise and divide-and-conquer search", "algorithm/distance/polygon_polygon_distance.hpp")])

P("C19", "kd-tree range search returns exactly the points in range",
"""Searching a kd-tree built from any non-empty point set in 2D or 3D with any axis-aligned range visits every stored point inside the closed range exactly as often as it was stored and no point outside it.
This holds for duplicates, equal coordinates, any point order and any valid partitioning strategy, without touching memory it does not own.""",
"all finite point sets, ranges, dimensions 2 and 3",
"tests search one tree; balance, duplicates and region pruning depend on the set and range",
["algorithm/kd_tree.hpp", "algorithm/median_partitioning_strategy.hpp"],
[("region pruning", "algorithm/kd_tree.hpp"), ("median partition", "algorithm/median_partitioning_strategy.hpp")])

P("C20", "Grids map points to cells and cells to data faithfully",
"""Every point inside a grid's bounds maps to the cell whose bounds contain it, indices are in range and never off by one at either border, and cell centroids and bounds map back to the same cell.
The dense and the hashed grid store one independent value per cell: what is written to a cell is what is read from it, erased or cleared cells disappear, and no other cell changes.""",
"all grid extents, cell sizes and points; all operation histories on cells",
"tests use one grid; rounding at cell borders depends on origin and cell size",
["algorithm/grid_traits.hpp", "algorithm/grid_2d.hpp", "algorithm/hash_grid_2d.hpp"],
[("index computation", "algorithm/grid_traits.hpp")], over=("inputs", "histories"))

P("C21", "Grid segment traversal visits the supercover connectedly",
"""Traversing a segment through a grid visits the start and end cells, every cell whose interior the segment passes through and only cells the closed segment touches, each at most once, as a chain of edge-adjacent cells, and it terminates.
Cells outside the grid are never visited; the orientation-based walk may in addition step diagonally through a cell corner the segment passes through.""",
"all segments inside (or crossing) the grid in all directions, including axis-parallel, cell-border and single-cell ones",
"tests traverse a few segments; each direction octant and boundary alignment is a different path",
["algorithm/fast_voxel_grid_traversal.hpp", "algorithm/orientation_grid_traversal.hpp"],
[("voxel stepping", "algorithm/fast_voxel_grid_traversal.hpp")])

P("C22", "Flood fill covers exactly the cells of a region",
"""Flood-filling a grid with a convex polygon, optionally with disjoint convex holes, visits exactly once every cell whose interior meets the region, and never a cell that lies off the polygon or strictly inside a hole, for any polygon inside the grid.
A fill seeded in a cell that is not on the marked boundary of a polygon of any shape visits exactly the cells edge-connected to it without crossing the boundary cells, each at most once over the life of the fill.""",
"all convex polygons, holes and grid resolutions",
"tests fill one polygon",
["algorithm/floodfill_grid_traversal.hpp"],
[("column bounds", "algorithm/floodfill_grid_traversal.hpp")])

P("C23", "Sweep-line intersection finds every crossing",
"""For any set of non-degenerate segments, no two overlapping along a length, the Bentley-Ottmann sweep reports every point where two or more of them meet (crossings, shared end points, vertical segments, many through one point), each exactly once with all segments through it, and reports no other point, matching pairwise testing.
With overlapping or repeated segments it still terminates, stays within its memory, and names at a point only segments that pass through it.""",
"all segment sets including many crossings per segment, shared end points and vertical segments",
"tests run two small sets; event queue growth and tree rebalancing depend on the arrangement",
["algorithm/bentley_ottmann_segment_intersection.hpp", "algorithm/bentley_ottmann_sweep.hpp"],
[("event queue and status tree", "algorithm/bentley_ottmann_segment_intersection.hpp")])

P("C24", "Solid BSP tree answers solidity, rays and distance correctly",
"""A solid-leaf BSP tree built from the boundary of simple polygons (each segment with the solid on its right) classifies every point off the boundary as solid or empty exactly as those polygons do, whatever partition order the build chooses.
A ray cast from an empty point returns the nearest solid boundary it hits with the right distance and original segment index, or no hit when there is none (grazing a corner is not decided), and the distance-to-solid query is the minimum over the boundary.""",
"all sets of disjoint simple polygons with consistent winding, all queries, all splitting choices",
"tree shape, splits and traversal order depend on the input; tests use a couple of rooms",
["algorithm/solid_leaf_bsp_tree.hpp", "algorithm/hyperplane_partition_policies.hpp", "algorithm/classify_simplex_to_plane.hpp"],
[("recursive partition and ray trace", "algorithm/solid_leaf_bsp_tree.hpp")])

P("C25", "Node BSP tree locates points and orders edges for painting",
"""A node-storing BSP tree built from the edges of one or several disjoint counter-clockwise simple polygons, at once or by insertion, locates every point as inside, outside or on the boundary exactly as the polygons do.
Traversal in painter's order visits every stored edge piece exactly once (the pieces of an edge cover it) and never draws a nearer piece before a farther one it occludes.""",
"all simple polygons and viewpoints off the edges' carrier lines, all partition selectors",
"tree shape depends on the polygon; tests use one",
["algorithm/node_bsp_tree_2d.hpp", "algorithm/hyperplane_partition_policies.hpp"],
[("recursive partition, painters_traversal", "algorithm/node_bsp_tree_2d.hpp")])

P("C26", "Edge list recovers the polygons and chains of its segments",
"""A doubly connected edge list built from a set of directed segments that form disjoint closed loops and open chains returns exactly those loops as polygons and those chains as polylines, independent of the order in which the segments are added, with every segment in exactly one result.
A copy or a moved-to instance of a partly built list carries on exactly as the original would.""",
"all sets of disjoint loops/chains and all segment orders",
"tests build two; linking depends on insertion order",
["algorithm/doubly_connected_edge_list.hpp"],
[("component graph and chain linking", "algorithm/doubly_connected_edge_list.hpp")], over=("inputs", "histories"))

P("C27", "Triangle mesh locates points, adjacency and area faithfully",
"""In a 2D triangle mesh every point inside a triangle's interior is located in that triangle and every point clearly outside the mesh in none; adjacency is symmetric and lists exactly the triangles sharing an edge; centroids and areas are those of the vertices, and a search over the adjacency visits exactly the triangles connected to its start, each once.
Random positions drawn from the mesh lie in the triangle they are said to lie in for every value of the random input, and spread over the triangles in proportion to their area or to the weights supplied.""",
"all valid triangulations, query points and random draws in [0,1]",
"tests query one mesh; grid caching and cumulative-area lookup depend on the layout",
["algorithm/mesh_2d.hpp"],
[("grid cached triangle lookup", "algorithm/mesh_2d.hpp")])

P("C28", "Visible-vertex search finds what the mesh lets one see",
"""Searching a triangle mesh from a point inside it, with no two vertices in the same direction, reports every mesh vertex whose line of sight stays inside the mesh and no vertex whose line of sight is cut by the outside.
The cone-segment test it rests on holds exactly when part of the segment lies in the cone, for cones under half a turn.""",
"all triangulations of simple polygons (with holes) and query points in general position",
"tests run one mesh; the search depends on cone narrowing through each edge",
["algorithm/visible_vertices_mesh_search.hpp", "algorithm/is_segment_in_range.hpp"],
[("cone search", "algorithm/visible_vertices_mesh_search.hpp")])

P("C29", "Polyline length, position, split and clip are consistent",
"""A polyline's length is the sum of its edge lengths, the point at arc position s lies on it at distance s along it, the mid point at half the length, and splitting at s (up to the full length) gives two polylines whose lengths add up to the original and which join at that point.
Clipping a length off the front, the back or both ends removes exactly that length and leaves the rest unchanged.""",
"all polylines and positions strictly inside the length",
"the segment holding the position and equality at vertices are their own paths",
["algorithm/point_sequence/length.hpp", "algorithm/point_sequence/polyline_split.hpp", "algorithm/point_sequence/polyline_mid_point.hpp", "algorithm/point_sequence/clip_polyline_ends.hpp", "primitive/point_sequence_utilities.hpp"],
[("arc length accumulation", "algorithm/point_sequence/polyline_split.hpp")])

P("C30", "Polyline simplification and cleaning stay within tolerance",
"""Ramer-Douglas-Peucker keeps the end points and a subsequence of the vertices such that every dropped vertex is within the tolerance of the kept edge that replaces it.
Removing collinear or repeated points of a simple polygon or of a polyline that does not turn back on itself keeps the shape: the same point set, area and end points, a subsequence of the vertices, no true corner lost and none left that is not one (a polygon's first vertex may stay).""",
"all polylines/polygons and tolerances",
"recursion shape depends on the input",
["algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp", "algorithm/point_sequence/remove_collinear_points.hpp", "primitive/point_sequence_utilities.hpp"],
[("recursive split", "algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp")])

P("C31", "Polygon measures and helpers match their definitions",
"""For every simple polygon the signed area is positive exactly for counter-clockwise winding and equals the exact shoelace area, the area is its magnitude, the centroid is the area centroid, the bounds are the tight box, reversal flips the winding only, and the segment ranges enumerate each edge once in order.
A vertex of a counter-clockwise polygon is concave exactly when the boundary turns right there.""",
"all simple polygons, any winding, start vertex and position",
"tests use a few shapes",
["primitive/point_sequence_utilities.hpp"],
[("get_area, get_centroid, get_bounds", "primitive/point_sequence_utilities.hpp")])

P("C32", "Simplicity, containment and congruence decisions are right",
"""A polygon is called simple exactly when no two non-adjacent edges meet, and a polygon with holes when each border is and no two borders meet; polygon-in-polygon and polyline-in-polygon containment hold exactly when the inner one lies in the closed outer polygon; a self-intersection search reports exactly the pairs of edges that meet other than in the vertex consecutive edges share.
Two polylines or polygons are called congruent exactly when a rotation and a translation carry the one onto the other vertex by vertex.""",
"all polygons/polylines on a grid whose adjacent edges share only their vertex",
"tests use a few shapes; any edge pair may be the culprit",
["algorithm/point_sequence/is_polygon_simple.hpp", "algorithm/point_sequence/polygon_polygon_containment.hpp", "algorithm/point_sequence/polygon_polyline_containment.hpp", "algorithm/point_sequence/self_intersection.hpp"],
[("pairwise and sweep checks", "algorithm/point_sequence/is_polygon_simple.hpp")])

P("C33", "Polyline and polygon intersection report every meeting point",
"""Intersecting a segment or polyline with a polyline or polygon border visits exactly the pairs of edges that meet, with the correct kind and points, and stops early only when the visitor asks to; intersecting a segment with a solid polygon yields exactly its parts inside the closed polygon.
Intersecting two counter-clockwise convex polygons that share area yields exactly their common region, and every point reported for any two lies in both.""",
"all polylines/polygons/segments on a grid",
"any edge, including the closing one, may be the one that meets",
["algorithm/intersection/segment_polygon_intersection.hpp", "algorithm/intersection/segment_polyline_intersection.hpp", "algorithm/intersection/polyline_polyline_intersection.hpp", "algorithm/intersection/convex_polygon_polygon_intersection.hpp"],
[("edge loops", "algorithm/intersection/segment_polygon_intersection.hpp")])

P("C34", "Line clipping keeps exactly the part inside the box",
"""Clipping a segment to an axis-aligned rectangle accepts exactly the segments that meet the closed rectangle (those grazing a corner at a slant aside, which still terminate) and returns the end points of their common part, keeping direction and leaving ends inside the rectangle untouched.""",
"all segments and rectangles",
"81 outcode pairs times axis-parallel cases",
["algorithm/cohen_sutherland_line_clipping.hpp"],
[("outcode loop", "algorithm/cohen_sutherland_line_clipping.hpp")])

P("C35", "Convex separation tests agree with convex geometry",
"""The static separating-axis test for convex counter-clockwise polygons reports overlap exactly when their interiors meet, whatever the vertex count, start vertex and position, exact touching aside.
The moving test for convex polygons of either winding reports exactly whether they meet within the time horizon and gives the first and last times at which they are in contact.""",
"all convex polygon pairs of the supported winding away from exact touching",
"the extremal search and each edge normal are their own paths",
["algorithm/intersection/separating_axis_convex_polygons.hpp", "algorithm/intersection/moving_separating_axis_convex_polygons.hpp", "algorithm/intersection/detail/separating_axis_common.hpp"],
[("extreme vertex search", "algorithm/intersection/detail/separating_axis_common.hpp")])

P("C36", "Offset polylines keep their distance and side",
"""Offsetting a polyline to one side, by a positive, zero or negative distance, yields edges parallel to the originals at exactly the offset distance on that side, joined at the intersection of consecutive offset edges, a straight joint moving along the normal.
The trimming variant gives the same polyline whenever every joint lies on both shifted edges or beyond both, the result does not meet itself and no slanted joint is nearly straight.""",
"all polylines with bends small compared with the offset",
"each turn direction and collinear joint is its own path",
["algorithm/point_sequence/polyline_offset.hpp", "primitive/point_sequence_utilities.hpp"],
[("joint computation", "algorithm/point_sequence/polyline_offset.hpp")])

P("C37", "Fixed-point numbers behave as scaled integers",
"""Fixed-point addition, subtraction, negation, increment, comparison between numbers of the same scale equal the exact result, and multiplication, division and conversion between scales and from or to real numbers are within one unit of the scale of it, whenever the result is representable; scales may be fixed at compile time or chosen at run time.
A product, quotient or real number that cannot be represented is rejected with an exception, and printing and reading back keeps the value to the digits it promises.""",
"all representable operands",
"tests use few values",
["numeric/fixed_point.hpp", "numeric/detail/fixed_point.hpp", "numeric/fixed_point_traits.hpp"],
[("scaling", "numeric/detail/fixed_point.hpp")])

P("C38", "Tagged and unit quantities compute like their raw values",
"""Arithmetic, comparison, assignment, swapping, conversion and math functions on tagged quantities give exactly the raw numeric result, carried by the right tag: operands of one tag or a tag and a raw number keep the tag, while two different tags never convert into each other.
Points, vectors, segments, boxes, polygons and grids whose coordinates carry units give in distances, products, normalisation, intersection, containment and grid lookups the same numbers as raw coordinates, in the right unit.""",
"all values and operators",
"tests use few values",
["utility/tagged_quantity.hpp", "numeric/boost_units_quantity.hpp", "arithmetic/boost_units_arithmetic.hpp"],
[("operators", "utility/tagged_quantity.hpp")])

P("C39", "Collinear interval sets implement set union and difference",
"""For any sequence of union and difference operations with segments of one line, applied to an interval set of disjoint segments, the set afterwards holds exactly the maximal segments covering what set algebra on the line gives, each once.
The direction in which a segment is given does not matter, and removing nothing or re-adding what is there changes nothing.""",
"all carrier lines (horizontal, vertical, oblique) and all histories of union and difference, including touching, nested and reversed segments",
"tests use a handful of steps; each overlap case at each end of each stored piece is its own path and errors accumulate over a history",
["utility/utilities.hpp"],
[("collinear_segment_union and collinear_segment_difference", "utility/utilities.hpp")], over=("inputs", "histories"))

P("C40", "Border lookup, side of a polyline, curvature and slope match their definitions",
"""The edge of a polygon's border on which a point lies, and the stretch of border around such a point of a given extent (shorter than half the perimeter) are the ones an exact walk along the border finds; a point beside a polyline is reported on the side of the polyline's nearest part (ties, straight joints and reversals not judged).
The signed curvature at an inner vertex of a polyline is the reciprocal radius of the circle through it and its neighbours (positive for a left turn), its curvature over the vertex is that magnitude times the mean length of the two adjacent edges, and an inner vertex after a turning vertex is an inflection exactly when the turns change sign there; cutting at inflections or by a curvature limit keeps the chain intact.
Splitting a segment, listing the edges of a polygon with holes, and the slope and ordinate formulas of non-vertical lines give exactly the parts, edges and values their definitions say.""",
"all polygons, polylines, border points, extents and non-vertical segments",
"tests sample a few shapes; each edge, wrap around the first vertex and each kind of joint is a branch of its own",
["algorithm/point_sequence/find_subsequence.hpp", "algorithm/point_sequence/point_polyline_orientation.hpp", "algorithm/point_sequence/curvature.hpp", "utility/utilities.hpp"],
[("border lookup", "utility/utilities.hpp"), ("side of polyline", "algorithm/point_sequence/point_polyline_orientation.hpp"), ("curvature", "algorithm/point_sequence/curvature.hpp")])

P("C41", "User-defined coordinate types behave like the library's own",
"""A user's point or vector type adapted by any of the access kinds the library offers (member functions, tuple elements, index operator, indexed sequence) is constructed, read and, where the kind allows storing, written coordinate by coordinate without mix-ups, also from a point of another kind.
Mixed expressions over such types (differences, displacements, dot, cross and exterior products, magnitude, normalization, distance) have the same values as the same expressions over the library's types.
Orientation, distances, segment intersection, area and point-in-polygon over the types with tuple, index and sequence access give the same results as over the library's types.""",
"all coordinates, all pairings of the access kinds in two and three dimensions",
"tests adapt a few types and look at one fixed expression each; every access policy has its own per-index code",
["tensor/index_operator_vector_access_policy.hpp", "tensor/tuple_vector_access_policy.hpp", "tensor/fusion_vector_access_policy.hpp", "utility/member_function_fusion_adaptor/adapt_member_function.hpp", "utility/construction_policy.hpp", "tensor/tensor_access_policy.hpp"],
[("access policies", "tensor/tensor_access_policy.hpp"), ("fusion adaptors", "utility/member_function_fusion_adaptor/adapt_member_function.hpp")])

P("C42", "Shape classes keep the parts they are given",
"""Segments, circles and balls, capsules, rectangles, lines, polylines, polygons and polygons with holes report exactly the points, radii and rings they were built or assigned from, in the given order; replacing one part leaves the others, the copies and the argument (unless it was explicitly moved from) as they were, and a line's direction, left normal and signed distance from the origin follow from its points.
The same points give the same area and the same point-in-polygon answers in every kind of container, and sizes, ends and iteration agree.
A segment reaches a line exactly when its ends lie on different sides, at the parameter and point where it crosses, and coordinate tuples are equal, or null, exactly when every coordinate is within the tolerance.""",
"all coordinates, construction routes, copies, moves and sequences of edits",
"tests build each shape once or twice and never edit it; every constructor, setter and copy is its own path, and a stale or stolen part shows only in a sequence of operations",
["primitive/segment.hpp", "primitive/sphere.hpp", "primitive/capsule.hpp", "primitive/line.hpp", "primitive/polygon.hpp", "primitive/polyline.hpp", "primitive/polygon_with_holes.hpp", "primitive/rectangle.hpp", "algorithm/intersection/segment_plane_intersection.hpp", "tensor/numeric_sequence_compare.hpp"],
[("shapes", "primitive/segment.hpp"), ("polygon with holes", "primitive/polygon_with_holes.hpp"), ("sequence traits", "primitive/point_sequence_traits.hpp")], over=("inputs", "histories"))

P("C43", "Random selection, memoisation, statistics and other utilities are exact",
"""The random generators stay in their documented half-open ranges and reach all of small ones; equal seeds give equal draws, reseeding is starting again, and a copy continues independently of its original; an element picked at random from a collection is an element of it.
A memoised function gives the function's answers while evaluating each distinct argument list once, also when it calls itself; running statistics equal the count, sum, mean and variance of the samples pushed since the last clear, and measured scopes are counted and reported with those statistics.
Colour conversion, palettes, compile-time integer sequences and containers on the private allocator equal their reference definitions.""",
"all seeds, ranges, call and sample histories, container sizes",
"tests do not touch these parts except as helpers; a rare draw, a copied generator or a cleared accumulator is needed to see a fault",
["utility/random_generator.hpp", "utility/memoize.hpp", "utility/scope_timer.hpp", "utility/scope_timer.ipp", "utility/golden_ratio_color_generator.hpp", "utility/integer_sequence.hpp", "utility/private_allocator.hpp", "algorithm/hyperplane_partition_policies.hpp"],
[("random generators", "utility/random_generator.hpp"), ("memoize", "utility/memoize.hpp"), ("running_stat", "utility/scope_timer.hpp")], over=("inputs", "histories"))

P("C44", "Structures with differently typed components compute like plain ones",
"""Vectors and matrices that are plain structures whose components have different arithmetic types or units read and set each component independently, and their sums, differences, multiples, dot and cross products, magnitudes, matrix products, transposes, determinants, traces and inverses, alone or mixed with library types, equal scalar arithmetic on the components.
A matrix of functions multiplied with a vector applies each function to its component, also when assigned back to that vector.
Quantities whose value is a fixed-point number combine with built-in numbers on either side as that number does, keeping their unit.""",
"all component values",
"tests use one or two fixed structures and mostly print",
["tensor/fusion_vector.hpp", "tensor/fusion_matrix.hpp", "tensor/fusion_vector_access_policy.hpp", "tensor/fusion_matrix_access_policy.hpp", "arithmetic/tensor_function.hpp", "numeric/boost_units_quantity_fixed_point.hpp"],
[("component access", "tensor/fusion_matrix_access_policy.hpp"), ("mixed arithmetic", "arithmetic/scalar_arithmetic.hpp")])
P("C45", "Single and extended precision coordinates give exact-geometry answers",
"""Geometry built on float or long double coordinates works as geometry on double does, with the accuracy of its own coordinate type: vector, point and matrix arithmetic, linear systems, angles of vectors, rotations and polar conversion, distances, closest points and pairs, the points, times and parameters where segments, lines, rays, boxes and circles (moving ones too) meet, lengths, positions along a polyline, areas, centroids, curvature, projections, bisectors, clipping, offsets and simplification are within a few roundings of that type of the exact result.
Orientation, betweenness, collinearity, polygon containment and simplicity are exact wherever the products of the coordinates are representable in that type, also for turns far smaller than a narrower type could tell from straight.
Range search, grid cells and traversal, and solidity queries answer as exact geometry does. Wrapping angles by multiples of pi is held only to the precision of a double.""",
"all coordinate values, both types, all sizes",
"every test uses double; narrowing to another type anywhere on the way is invisible to them",
["primitive/point.hpp", "tensor/vector.hpp", "arithmetic/arithmetic_promotion_policy.hpp", "algorithm/orientation.hpp", "utility/utilities.hpp", "algorithm/distance/point_segment_distance.hpp", "algorithm/distance/segment_segment_closest_point.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "algorithm/intersection/ray_segment_intersection.hpp", "algorithm/intersection/circle_circle_intersection.hpp", "algorithm/point_in_polygon.hpp", "algorithm/kd_tree.hpp", "algorithm/grid_traits.hpp", "algorithm/solid_leaf_bsp_tree.hpp", "algorithm/point_sequence/polyline_offset.hpp", "algorithm/point_sequence/length.hpp", "algorithm/distance/point_segment_closest_point.hpp", "algorithm/line_intersection.hpp", "algorithm/intersection/ray_aabb_intersection.hpp", "algorithm/intersection/ray_sphere_intersection.hpp", "algorithm/intersection/moving_sphere_segment_intersection.hpp", "algorithm/point_sequence/polyline_split.hpp", "algorithm/point_sequence/curvature.hpp"],
[("arithmetic type selection", "arithmetic/arithmetic_promotion_policy.hpp"), ("magnitude", "arithmetic/vector/magnitude.hpp"), ("orientation", "algorithm/orientation.hpp")])
