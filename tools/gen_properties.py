#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

K="src/kernel/"; I="src/algorithm/intersection/"; L="src/algorithm/location/"
DOM=("Finite coordinates, |value| up to about 1000 (f64), geometric coincidences either exact or further apart than the "
     "library's 1e-10 tolerance, and so the coordinates of different points; zero, negative, fractional, tiny-grid and large values alike.")

p("C01","Vectors, points and scalars follow Euclidean arithmetic",
  "Vector sums, differences, scalings, dot and cross products, lengths, normalised vectors, directed angles, point differences and point distances are the Euclidean ones. A normalised vector has length one and the direction of its source (a zero vector is left alone), and the directed angle from one vector to another lies in one counter-clockwise turn and satisfies its cosine and sine.  The supplied scalar types' functions (square root, absolute value, sine, cosine, arc cosine, arc tangents, constants, tolerance comparison) are the real ones.",
  ["inputs"],"All vectors and points with finite components from 1e-3 to 1e4 in magnitude, all scalars in the functions' domains; f64 and f32.",
  "One test checks four axis-aligned directed angles; nothing checks the other operations or other quadrants.",
  [K+"vector_2.rs",K+"point_2.rs",K+"number_type.rs"],[("component-wise operators","src/kernel/vector_2.rs"),("NumberType impls","src/kernel/number_type.rs")],["Vector2, Point2, NumberType public methods"])

p("C02","Point equality and sweep order are consistent total orders",
  "Points (and vertices) compare equal exactly when they coincide within the type's tolerance, and otherwise are ordered so that a point with smaller x, or with the same x and smaller y, is the greater one. The order is antisymmetric and transitive, partial and total comparison and equality agree with each other, and sorting any collection yields the same order however it was arranged before; points and vertices with the same coordinates are ordered alike.",
  ["inputs"],"All finite point collections whose members are either within a tenth of the tolerance of each other or differ by ten tolerances or more in a coordinate; f64 and f32.",
  "No test compares points for order; tests only use equality on a few points.",
  [K+"point_2.rs",K+"vertex_2.rs"],[("Ord/PartialEq impls","src/kernel/point_2.rs"),("Ord/PartialEq impls","src/kernel/vertex_2.rs")],["Point2/Vertex2 ==, cmp, partial_cmp, sort"])

p("C03","Turns and triangles: orientation and signed area are exact",
  "The turn made by three points is left, right or collinear exactly as the sign of their cross product says, and a triangle's orientation and signed area agree with it; both are unchanged by rotating the three points cyclically and flip when two are swapped. A triangle reports the vertices and edges it was built from in order, and reversing its orientation flips orientation and sign of area, leaves everything else alone, and undoes itself when done twice.",
  ["inputs","histories"],"All triples of points (any order, collinear and coincident ones included) and any number of reversals. "+DOM,
  "Three tests use one unit right triangle; no test calls turn or takes the area of a triangle.",
  [K+"triangle_2.rs",K+"point_2.rs"],[("calculate_orientation","src/kernel/triangle_2.rs"),("Point2::turn","src/kernel/point_2.rs")],["Point2::turn, Triangle2 public methods"])

p("C04","Polygon area, edges and convexity match their definitions",
  "A polygon keeps its vertices in order, has one edge from each vertex to the next and from the last to the first, and its signed area is the shoelace area: positive for counter-clockwise simple polygons, negative for clockwise ones, zero with fewer than three vertices. For a simple polygon the convexity test is true exactly when no two corners turn in opposite directions, vertices on straight edges included; none of this depends on which vertex comes first, and reversing the vertices only negates the area.",
  ["inputs"],"All vertex lists for edges and area (self-intersecting ones included), all simple polygons with 3 or more vertices for convexity. "+DOM,
  "One test uses a square, a bow-tie and a two-vertex polygon.",
  [K+"polygon_2.rs",K+"triangle_2.rs"],[("fan of signed triangles","src/kernel/polygon_2.rs"),("turn comparison","src/kernel/polygon_2.rs")],["Polygon2::{new,vertices,edges,area,is_convex}"])

p("C05","Locating a point against a line segment is exact",
  "A point is reported on a segment exactly when it lies on it, end points included, within tolerance; otherwise it is reported left of, right of or collinear with the segment as seen from source to target, and the yes/no query agrees. Reversing the segment swaps left and right and changes nothing else, and a segment of zero length contains only its own point.",
  ["inputs"],"All segments and points, including points exactly on the segment, on its end points, on its extension, computed by rounding along it, and zero-length segments. "+DOM,
  "Tests use one diagonal segment through the origin and about ten points.",
  [L+"point_2_line_segment_2.rs"],[("cross and dot product thresholds","src/algorithm/location/point_2_line_segment_2.rs")],["locate_point_2_line_segment_2, is_point_2_on_line_segment_2"])

p("C06","Locating a point against a triangle is exact",
  "For a non-degenerate triangle of either orientation, a point is reported on the boundary when it lies on one of the three edges, inside when strictly within them, and outside otherwise. A triangle whose corners are collinear has no inside, and a point is on it exactly when it lies on one of its edges. The answer does not depend on the order in which the corners were given.",
  ["inputs"],"All triangles, degenerate ones included, and all points: interior, exterior, on edges, on corners, and on extensions of the edges. "+DOM,
  "One test uses one triangle and three points.",
  [L+"point_2_triangle_2.rs"],[("per-edge side comparison","src/algorithm/location/point_2_triangle_2.rs")],["locate_point_2_triangle_2"])

p("C07","Locating a point against any simple polygon is exact",
  "For any simple polygon, convex or not and in either orientation, a point is reported on the boundary when it lies on an edge, inside when the polygon encloses it, and outside otherwise; the three yes/no queries agree with the located answer. The answer does not depend on the starting vertex or the direction of the vertex list.",
  ["inputs"],"All simple polygons of up to 60 vertices, convex, concave, with collinear vertices, spiral- and comb-shaped; all points including vertices, boundary points, points level with vertices and on edge extensions. "+DOM,
  "There is no test of polygon location at all.",
  [L+"point_2_polygon_2.rs"],[("boundary test then enclosure test","src/algorithm/location/point_2_polygon_2.rs")],["locate_point_2_polygon_2, is_point_2_{on,inside,outside}_polygon_2"])

p("C08","Circles and arcs: end points and point location are right",
  "A point is inside, on or outside a circle as its distance to the centre is below, equal to or above the radius. An arc runs counter-clockwise from its source angle to its target angle (equal angles mean the full circle), its end points are at those angles, and a point is on the arc exactly when it is on the supporting circle at an angle the arc covers, end points included, whatever multiples of a full turn or negative values the angles were given with.",
  ["inputs"],"All circles with radius from 1/8 to 1000, all arc angles from -2pi to 12pi with a span of at most one turn, all query points, points exactly at the ends and at the zero angle included.",
  "Tests use one circle and five points; there is no test of arc location or of angle normalisation.",
  [L+"point_2_circle_segment_2.rs",L+"point_2_arc_segment_2.rs",K+"arc_segment_2.rs",K+"circle_segment_2.rs",K+"vector_2.rs"],[("directed-angle sum","src/algorithm/location/point_2_arc_segment_2.rs"),("angle reduction","src/kernel/arc_segment_2.rs")],["ArcSegment2/CircleSegment2 accessors, locate_* and is_* for circle and arc"])

p("C09","Monotone pieces of a circle or arc cover it exactly",
  "Splitting a circle or an arc into x-monotone pieces yields consecutive pieces on the same circle, the first starting where the arc starts and the last ending where it ends, each within the upper or the lower half of the circle. Together the pieces contain every point of the arc and no point outside it, and overlap only in their end points; a piece reports itself as a top piece exactly when it lies on the upper half.",
  ["inputs"],"All circles, and all arcs with angles from -2pi to 4pi and a span of at most one turn, crossing the zero angle and half turns any number of times.",
  "No test calls the splitting functions directly; the sweep tests use arcs whose pieces are already monotone.",
  [K+"arc_segment_2.rs",K+"circle_segment_2.rs"],[("ArcSegment2::monotone","src/kernel/arc_segment_2.rs"),("CircleSegment2::monotone","src/kernel/circle_segment_2.rs")],["monotone(), is_top()"])

p("C10","Lines: construction, equality, location and meeting point",
  "The line built from two distinct points contains both of them and every point collinear with them and no other point. Two lines are equal exactly when their coefficients are proportional; two lines meet in a reported point exactly when they are not parallel, that point lies on both, and the yes/no query agrees; swapping the lines does not change the answer.",
  ["inputs"],"All lines with coefficients up to 1000 that are not degenerate, all distinct point pairs, vertical and horizontal ones included. "+DOM,
  "Tests use four coefficient pairs; location on a line is untested.",
  [K+"line_2.rs",I+"line_2_line_2.rs",L+"point_2_line_2.rs"],[("slope form / axis cases","src/kernel/line_2.rs"),("Cramer's rule","src/algorithm/intersection/line_2_line_2.rs")],["Line2::{new,from_points,==}, line_2_line_2_*, *_point_2_line_2"])

p("C11","Rays: location and meeting a line or a line segment",
  "A point is on a ray exactly when it is the origin or lies ahead of it in its direction, otherwise left, right or collinear (behind). A ray and a non-parallel line meet exactly when the crossing point is on the ray, and that point is returned; a ray and a segment meet exactly when some point of the segment is on the ray, the single crossing point (or the end points of the segment that are on the ray, when collinear) is returned, and the yes/no queries agree with the returned points. Reversing the segment does not change whether or where they meet.",
  ["inputs"],"All rays with non-zero direction of any length, all lines, all segments of positive length; crossing, touching at an end point, touching at the origin, collinear overlapping, collinear behind, parallel and missing. "+DOM,
  "Tests use six axis-parallel or through-origin configurations, all of which cross at a segment's midpoint or at the origin.",
  [K+"ray_2.rs",L+"point_2_ray_2.rs",I+"line_2_ray_2.rs",I+"line_segment_2_ray_2.rs"],[("side tests","src/algorithm/location/point_2_ray_2.rs"),("crossing parameter","src/algorithm/intersection/line_segment_2_ray_2.rs")],["Ray2, *_point_2_ray_2, line_2_ray_2_*, line_segment_2_ray_2_*"])

p("C12","Projections give the foot of the perpendicular",
  "Projecting a point on a line gives the point of the line nearest to it: it lies on the line and the connection is perpendicular to the line. Projecting on a segment gives the same foot when it falls on the segment (end points included) and nothing when it falls outside; projecting a foot again gives the same foot.",
  ["inputs"],"All non-degenerate lines and segments, all points: on the line, beside it, beyond the ends, and exactly above an end point. "+DOM,
  "Tests use the line x+y=0 and the two axes and one diagonal segment.",
  ["src/algorithm/projection/point_2_line_2.rs","src/algorithm/projection/point_2_line_segment_2.rs"],[("perpendicular through the point","src/algorithm/projection/point_2_line_2.rs"),("parameter c1/c2","src/algorithm/projection/point_2_line_segment_2.rs")],["point_2_project_line_2, point_2_project_line_segment_2"])

p("C13","Two line segments: intersection is exact and complete",
  "Two segments are reported as intersecting exactly when they share a point, and the returned points are exactly their common points: the single crossing or touching point, or the two end points of the overlap when they are collinear and overlap, or the one shared end point when they only touch. The result has no duplicates, contains only finite points and is the same set when segments are swapped or reversed.",
  ["inputs"],"All pairs of segments of positive length: crossing, touching, sharing ends, collinear overlapping, nested, equal, collinear apart, parallel, disjoint; lengths from 1e-3 to 1e3.",
  "Two tests use a handful of pairs and never collinear disjoint or small segments.",
  [I+"line_segment_2_line_segment_2.rs",I+"segment_2_segment_2.rs",L+"point_2_line_segment_2.rs"],[("side tests, end-point tests, parametric crossing","src/algorithm/intersection/line_segment_2_line_segment_2.rs")],["segment_2_segment_2_intersection, is_segment_2_segment_2_intersected"])

p("C14","Line segment against circle or arc: intersection is exact",
  "The points returned for a line segment and a circle are exactly the points of the circle lying on the segment: none, one (crossing once or tangent) or two; for an arc, exactly those of them that lie on the arc. The yes/no query is true exactly when at least one point is returned, and neither the order of the arguments nor the direction of the segment matters.",
  ["inputs"],"All circles and arcs, all segments of positive length: wholly inside, wholly outside, secant, crossing once from either side, tangent in the middle or at an end, ending on the circle, through the centre. "+DOM,
  "Tests cover unit circles with about ten segments; there is no test of segment against arc.",
  [I+"line_segment_2_circle_segment_2.rs",I+"line_segment_2_arc_segment_2.rs",I+"segment_2_segment_2.rs"],[("case split by end-point location","src/algorithm/intersection/line_segment_2_circle_segment_2.rs"),("filter by arc location","src/algorithm/intersection/line_segment_2_arc_segment_2.rs")],["segment_2_segment_2_intersection, is_segment_2_segment_2_intersected"])

p("C15","Circles and arcs against each other: intersection is exact",
  "Two circles with different centres meet in exactly the points returned: none when apart or nested, one when tangent inside or outside, two otherwise; concentric circles return none. With an arc in place of one or both circles, exactly those points that lie on the arcs are returned, and two arcs of the same circle that share points return the arc end points that lie on both; the yes/no query is true exactly when a point is returned, for every combination and order of arguments.",
  ["inputs"],"All circle/circle, circle/arc, arc/circle and arc/arc pairs: apart, nested, tangent, crossing, concentric, coincident. "+DOM,
  "Tests use circles of radius 2 to 5 with centres on the x axis, and half-circle arcs only.",
  [I+"circle_segment_2_circle_segment_2.rs",I+"circle_segment_2_arc_segment_2.rs",I+"arc_segment_2_arc_segment_2.rs",I+"segment_2_segment_2.rs"],[("radical-line construction","src/algorithm/intersection/circle_segment_2_circle_segment_2.rs"),("filter by arc location","src/algorithm/intersection/arc_segment_2_arc_segment_2.rs")],["segment_2_segment_2_intersection, is_segment_2_segment_2_intersected"])

p("C16","Any two curve segments: query, result and order agree",
  "For every combination of line segment, circle and arc, the intersection query never fails, returns only finite points lying on both arguments, and says yes exactly when the list of points is not empty. Exchanging the two arguments gives the same answer and the same set of points, and asking repeatedly gives the same result.",
  ["inputs"],"All nine ordered combinations of kinds; all segments, circles and arcs (degenerate coincidences included). "+DOM,
  "The generic two-argument entry points have no tests; the per-pair tests fix one argument order.",
  [I+"segment_2_segment_2.rs"],[("dispatch on segment kinds","src/algorithm/intersection/segment_2_segment_2.rs")],["segment_2_segment_2_intersection, is_segment_2_segment_2_intersected"])

p("C17","The sweep reports exactly the intersections of the set",
  "For any collection of line segments, circles and arcs, the sweep reports every isolated point where two different members meet (and every end point of one member lying on another), each once and listed from the largest x to the smallest (largest y first among equal x), and reports no point that does not lie on at least two members. The order in which members are added does not change the reported set.",
  ["inputs"],"All collections of up to about 30 members mixing the three kinds, in general position and with many-way crossings, shared end points, vertical and horizontal members, overlaps, tangencies and duplicates. "+DOM,
  "One test with five hand-made collections of three to five members.",
  [I+"sweep_segment_2_intersection.rs","src/data_structure/avl_tree.rs","src/data_structure/priority_queue.rs",K+"arc_segment_2.rs"],[("event queue and active set","src/algorithm/intersection/sweep_segment_2_intersection.rs"),("filter against original members","src/algorithm/intersection/sweep_segment_2_intersection.rs")],["SweepSegment2Intersection::{push_segment,intersection}"])

p("C18","A polygon is simple exactly when its edges only meet at corners",
  "A polygon with at least three vertices is reported simple exactly when adjacent edges share only their common vertex and no other two edges share any point. Self-crossings, vertices touching other edges, repeated vertices and folded-back edges are all reported as not simple, whichever vertex comes first and in whichever direction the vertices are listed.",
  ["inputs"],"All vertex lists of 3 to 40 vertices, simple or not, including polygons made simple or non-simple by a single vertex. "+DOM,
  "One test: a square, a bow-tie and a two-vertex list.",
  [K+"polygon_2.rs",I+"sweep_segment_2_intersection.rs"],[("count of edge intersections","src/kernel/polygon_2.rs")],["Polygon2::is_simple"])

p("C19","The convex hull is the minimal convex polygon of the points",
  "The hull of a set of points consists of input points only, listed counter-clockwise from the leftmost (lowest among equals), each a strict corner, and no input point lies outside it. It contains no duplicate or edge-interior points (one point for coinciding input, the two extremes for collinear input), does not depend on the order or repetition of the input, and the hull of a hull is itself.",
  ["inputs","histories"],"All point lists of 0 to 200 points: general, collinear, gridded, with repetitions, all equal; computing repeatedly on the same object. "+DOM,
  "There is no test of the convex hull.",
  ["src/algorithm/convex_hull/convex_hull_2.rs"],[("sort and two monotone chains","src/algorithm/convex_hull/convex_hull_2.rs")],["ConvexHull2::{new,convex_hull}"])

p("C20","Ear clipping yields a valid triangulation of simple polygons",
  "Triangulating a simple polygon with n vertices, convex or not and in either orientation, returns n-2 index triples; every triple names three different vertices forming a triangle of positive area inside the polygon, the triangles do not overlap, and together they cover the polygon. Triangles only use edges and diagonals of the polygon, so no vertex lies on the boundary of a triangle other than at its corners; a polygon that is not simple is refused.",
  ["inputs"],"All simple polygons of 3 to 40 vertices, convex, concave, spiral, comb, with collinear vertices, clockwise and counter-clockwise; crossing polygons for the refusal. "+DOM,
  "There is no test of triangulation.",
  ["src/algorithm/triangulation/earcut_2.rs","src/data_structure/circular_doubly_linked_list.rs",L+"point_2_triangle_2.rs",K+"polygon_2.rs"],[("ear list maintenance","src/algorithm/triangulation/earcut_2.rs"),("ear test against reflex vertices","src/algorithm/triangulation/earcut_2.rs")],["earcut_2"])

p("C21","The ordered tree behaves as a sorted multiset and stays balanced",
  "After any sequence of insertions, deletions and clears, the ordered tree lists in order exactly the values a sorted collection would hold: a set when equal values are refused, a multiset when they are kept, with a deletion removing one equal value and ignoring absent ones. After every operation each node's recorded height is right and its two subtrees differ in height by at most one, and no operation fails.",
  ["histories"],"All operation sequences up to several hundred long over small and large key ranges, both duplicate policies, ascending, descending and random.",
  "The tree has no tests; the sweep tests use it with a dozen values and never check its shape.",
  ["src/data_structure/avl_tree.rs"],[("rotations on insert and delete","src/data_structure/avl_tree.rs")],["AVLTree::{insert,delete,clear,mid_order_traversal}"],
  state=[("height","cached subtree height per node","src/data_structure/avl_tree.rs")],hook="the module is private: exported, with read-only node accessors, under cfg rcgal_verif")

p("C22","The circular list keeps ring order under any edit sequence",
  "After any sequence of insertions after a node and deletions of nodes, following next from the head visits exactly the live elements in the order a plain sequence would hold them and returns to the head, following prev visits them in reverse, head and tail are the first and last of that order, and the length is their number. Emptying the list and filling it again behaves as a new list.",
  ["histories"],"All sequences of valid insert-after and delete operations (inserting after no node only when the list is empty), including deleting the head, the tail, and the only element.",
  "The list has no tests.",
  ["src/data_structure/circular_doubly_linked_list.rs"],[("link updates on insert and delete","src/data_structure/circular_doubly_linked_list.rs")],["CircularDoubleLinkedList::{insert,delete,head,tail,len}"],
  state=[("head/tail/length","ring ends and size","src/data_structure/circular_doubly_linked_list.rs")],hook="the module is private: exported under cfg rcgal_verif")

p("C23","The priority queue pops the greatest element first",
  "After any sequence of pushes, pops and clears, popping returns the greatest of the elements held (and nothing when empty), emptiness is reported exactly when no element is held, and nothing is lost, duplicated or invented. Draining the queue therefore yields the pushed elements in descending order; points come out in sweep order, smallest x first and then smallest y.",
  ["histories"],"All push/pop/clear/is_empty sequences over integers with repetitions and over points.",
  "The queue has no tests.",
  ["src/data_structure/priority_queue.rs",K+"point_2.rs"],[("binary heap wrapper","src/data_structure/priority_queue.rs")],["PriorityQueue::{push,pop,is_empty,clear}"],hook="the module is private: exported under cfg rcgal_verif")

p("C24","The WebAssembly bindings answer as the native library does",
  "Every exported function, constructor, accessor and method of the WebAssembly module, given the same arguments, returns the same value as the corresponding native function, with points, lists, options and enumerations converted without loss or reordering. Calls that return native errors (panics) trap, and other calls do not.",
  ["inputs","histories"],"All exported functions over generated points, vectors, segments, circles, arcs, triangles, polygons and collections, and sequences of calls on one object.",
  "src/wasm is compiled only for wasm32 and no test runs it.",
  ["src/wasm/kernel/point_2.rs","src/wasm/kernel/segment_2.rs","src/wasm/kernel/triangle_2.rs","src/wasm/kernel/polygon_2.rs","src/wasm/kernel/vector_2.rs","src/wasm/kernel/arc_segment_2.rs","src/wasm/kernel/circle_segment_2.rs","src/wasm/kernel/line_segment_2.rs","src/wasm/algorithm"],[("thin wrappers over the kernel","src/wasm")],["exports of the wasm32 build"])

p("C25","All number types give the same geometry",
  "The geometry is generic: with any number type implementing the library's number trait, every construction, query and algorithm gives the same answer as with 64-bit floats when the type computes the same values. With 32-bit floats every query and algorithm whose arithmetic is exact on small integers or halves (turns, areas, locations, hulls, convexity) gives the same answer as with 64-bit floats. Every algorithm finishes within a number of arithmetic operations polynomial in the size of its input.",
  ["inputs"],"All generated inputs of the other properties for a user-defined 64-bit wrapper type; small integer and half-integer inputs for 32-bit floats; inputs of up to 40 elements for the work bound.",
  "All tests use f64 only.",
  [K+"number_type.rs","src/algorithm","src/kernel"],[("NumberType trait","src/kernel/number_type.rs")],["all generic public functions"])

p("C26","Vertex and edge records keep their incidence data",
  "An edge returns the source, target, twin, next, previous and face references last set on it (none before they are set), and converts to the line segment between its two vertices. A vertex keeps its incident edges in the order added, removing an edge removes exactly the edges equal to it and keeps the others in order, and straight edges are equal exactly when their end points coincide in order.",
  ["histories"],"All sequences of set/add/remove operations on vertices and straight edges.",
  "There is no test of vertices or edges.",
  [K+"edge_2.rs",K+"vertex_2.rs",K+"face_2.rs"],[("setters and retain","src/kernel/edge_2.rs, src/kernel/vertex_2.rs")],["Vertex2, Edge2 public methods"])

p("C27","Answers do not depend on the coordinate frame",
  "Shifting all inputs by the same vector, turning them by quarter turns, mirroring them or scaling them by a power of two shifts, turns, mirrors or scales every returned point and leaves every yes/no, count and location answer unchanged, with left/right, clockwise/counter-clockwise and signs of areas exchanged exactly when mirrored. Turning all inputs by any angle and scaling or shifting them by any real numbers moves the answers alike, up to the rounding of the coordinates. This holds for turns, triangles, polygons, locations, projections, pairwise and collection intersections, hulls and triangulations (as valid triangulations).",
  ["inputs"],"All generated inputs with every composition of a translation, quarter turns, mirroring and a scaling by 1/8 to 8, and with any rotation, scaling and translation that keeps coordinates below about 1000. "+DOM,
  "Tests are fixed examples, mostly in one quadrant near the origin.",
  ["src/kernel","src/algorithm"],[("frame-free formulas","src/algorithm, src/kernel")],["all public geometric functions"])

p("C28","Reusing a sweep gives the same answer as a fresh one",
  "Asking a sweep for its intersections again returns the same list, and adding further members after asking gives the same list as adding all members to a new sweep and asking once. Asking changes nothing about the members held.",
  ["histories"],"All interleavings of adding members (all three kinds) and asking for the intersections.",
  "The test asks every sweep exactly once.",
  [I+"sweep_segment_2_intersection.rs"],[("state reset at the start of a query","src/algorithm/intersection/sweep_segment_2_intersection.rs")],["SweepSegment2Intersection::{push_segment,intersection}"],
  state=[("queue, active set, found points","per-query working state that must not leak into the next query","src/algorithm/intersection/sweep_segment_2_intersection.rs")])

p("C29","Every finite input is answered, however degenerate",
  "For any finite input, including repeated points, zero-length segments, polygons with coinciding or nearly coinciding vertices, and collections whose points, centres, radii or angles differ by less than the library's tolerance, every construction, query and algorithm returns: it neither panics nor runs on without end, it gives finite coordinates, and the yes/no form of a question agrees with its list form. The one refusal is triangulating a polygon that the library itself reports as not simple. The number of arithmetic operations stays within a polynomial of the input's size.",
  ["inputs"],"All 23 kinds of question over coordinates clustered 0 to 12 units of 1.5e-11 to 2.3e-10 around sites of small integers, up to 45 elements; figures of sizes 1e-6 to 1e13 beside each other, and circles, arcs and segments touching or just missing to the last digits. Directions of length zero (rays, normalisation) are outside it.",
  "The tests use well separated inputs; comparisons by tolerance are not transitive, which shows only where points crowd together.",
  [I+"sweep_segment_2_intersection.rs",I+"line_segment_2_line_segment_2.rs","src/algorithm/convex_hull/convex_hull_2.rs","src/algorithm/triangulation/earcut_2.rs",K+"point_2.rs"],[("comparisons by tolerance","src/kernel/number_type.rs"),("event loop","src/algorithm/intersection/sweep_segment_2_intersection.rs")],["all public geometric functions"])

p("C30","Values hand back, compare and print what they were built from",
  "Points, vectors, lines, rays, line segments, triangles, polygons, circles and arcs hand back exactly the parts they were built from (a ray its direction at length one, an arc its angles up to full turns, with equal angles making the full circle) and report their own kind. Two values of a kind are equal exactly when all their parts are equal within tolerance, so a difference in any one of them, and a triangle's reversal, makes them unequal; a shape asked for a part it does not have refuses. A point prints its two coordinates, x first.",
  ["inputs"],"All values with components up to a few hundred, parts equal, within a fiftieth of the tolerance or apart by 1e-4 and more; f64 and f32; angles from -2pi to 12pi.",
  "Tests compare a handful of equal values and hardly any unequal ones, so an equality that forgets a part passes.",
  [K+"point_2.rs",K+"vector_2.rs",K+"line_segment_2.rs",K+"circle_segment_2.rs",K+"arc_segment_2.rs",K+"triangle_2.rs",K+"polygon_2.rs",K+"ray_2.rs",K+"line_2.rs",K+"segment_2.rs"],
  [("PartialEq and accessor impls","src/kernel/arc_segment_2.rs"),("refusing defaults","src/kernel/segment_2.rs")],["constructors, accessors, ==, Display and Debug of the kernel types"])

p("C31","Answers of different parts of the library fit together",
  "A point returned by a pairwise intersection is located on both arguments by the location queries and is among the points the sweep reports for any collection holding both; sweep points are located on at least two members and come in the points' own order. Meeting points and projections lie on the lines, rays and segments they belong to, and segment, ray and line answers about the same situation agree, as do turns, sides and triangle orientations. A simple polygon can be triangulated, its triangles' areas add up to its area, and a point is inside, on or outside it as it is in its triangles; its hull is convex, encloses it, and has the same area exactly when the polygon is convex; for any polygon at all, simple or not, a point is on, inside or outside it by question exactly as it is by location, and on it exactly when it is on an edge; a circle or arc meets a segment where its monotone pieces do.",
  ["inputs"],"All related collections of up to 7 members crossing at clear angles, all well conditioned lines, rays and segments through related points, all simple polygons of up to 16 vertices with query points on, near and away from edges, coordinates up to about 100.",
  "Every test looks at one function; nothing compares the answers of two.",
  [I+"segment_2_segment_2.rs",I+"sweep_segment_2_intersection.rs",L+"point_2_polygon_2.rs",L+"point_2_triangle_2.rs",L+"point_2_arc_segment_2.rs",L+"point_2_ray_2.rs","src/algorithm/projection/point_2_line_2.rs","src/algorithm/triangulation/earcut_2.rs","src/algorithm/convex_hull/convex_hull_2.rs",K+"polygon_2.rs",K+"arc_segment_2.rs"],
  [("location queries","src/algorithm/location"),("intersections","src/algorithm/intersection")],["public intersection, location, projection, triangulation, hull and polygon functions"])

p("C32","An answer is a function of the arguments alone",
  "Asking the same question with the same arguments gives the same answer to the last bit, list order included, whatever has been asked before, of whichever type, and however many threads are asking at the same time; nothing is remembered from one question to the next, and a question leaves its arguments as they were.",
  ["schedules","histories","inputs"],"All histories of up to 15 questions of 23 kinds over f64 and f32, and up to 4 threads asking up to 5 questions twice each at once.",
  "Tests ask every question once, in one order per thread; a remembered answer is right every time they look.",
  ["src/algorithm","src/kernel"],
  [("no statics, no caches, no interior mutability in kernel values","src/kernel"),("sweep state built per object","src/algorithm/intersection/sweep_segment_2_intersection.rs")],["all public geometric functions"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
