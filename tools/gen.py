#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, A = "src/kernel/", "src/algorithm/"
I, L, D = A + "intersection/", A + "location/", "src/data_structure/"
# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), hook=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mech=mech, hook=hook, note=note))

prop("P01", "Scalar operations and tolerant equality",
 "For both scalar types, the elementary functions return what the native type returns, the constants are the native ones, and tolerant equality says equal exactly when two values differ by less than the type's tolerance (1e-10 for double, 1e-6 for single precision), symmetrically.",
 "all pairs of finite scalars of both precisions whose difference is not within a factor of two of the tolerance",
 "The tests use a handful of doubles and no single precision; every predicate of the library rests on this relation.",
 [K+"number_type.rs"], [("number type implementations", K+"number_type.rs")])
prop("P02", "Vector arithmetic",
 "Sum, difference, scaling, division, dot product, cross product and length of vectors are the component formulas, whether written with operators or methods. Normalizing gives a vector of length one in the same direction; a vector shorter than the tolerance is returned as it is.",
 "all pairs of vectors with exactly representable products, both scalar types, including zero, parallel and perpendicular pairs",
 "One test with two vectors.", [K+"vector_2.rs"], [("operators and methods of vectors", K+"vector_2.rs")])
prop("P03", "Angle from one vector to another",
 "The angle from one non-zero vector to another lies between zero and a full turn and is the counterclockwise turn that takes the direction of the first to that of the second. The angles asked both ways add up to a full turn unless the directions are equal.",
 "all pairs of non-zero vectors, including parallel, opposite and perpendicular ones of any length",
 "No test asks for an angle in each quadrant; rounding at parallel directions decides whether the inverse cosine is defined.",
 [K+"vector_2.rs"], [("angle between vectors", K+"vector_2.rs radian_to")])
prop("P04", "Point equality, distance and turn",
 "Points are equal exactly when their distance is within the tolerance. The distance is Euclidean, and the turn of three points is left, right or collinear according to the sign of the cross product of the two steps, collinear when it is within the tolerance of zero. A printed point names its coordinates in full, x before y.",
 "all triples of points, including repeated and collinear ones, far from the origin too, and displacements on both sides of the tolerance",
 "Tests use the turn in three configurations only.", [K+"point_2.rs"], [("turn, distance and equality", K+"point_2.rs")])
prop("P05", "Points and vertices are totally ordered",
 "On points that are not almost equal the order is total and consistent with equality: of two points the one with the smaller x, and for x equal within the tolerance the smaller y, is the greater one. Sorting any set gives the same sequence as sorting by that rule; vertices compare as their points do.",
 "all finite sets of points, with repeated points and equal coordinates",
 "The order is used inside the sweep only and no test compares points; a partial order breaks sorting and trees silently.",
 [K+"point_2.rs", K+"vertex_2.rs"], [("ordering of points", K+"point_2.rs Ord"), ("ordering of vertices", K+"vertex_2.rs")])
prop("P06", "Lines and segments as built are what was asked for",
 "A line through two points or in a direction contains its points, and is equal to another exactly when both are the same set of points, whatever the scale and sign of their coefficients. Segments keep their ends and are equal when both ends are.",
 "all lines with finite coefficients of moderate slope, given by points or by coefficients over scales from 1e-12 to 1e11",
 "One test of one line; equality over scales is not tested.", [K+"line_2.rs", K+"line_segment_2.rs", K+"ray_2.rs"],
 [("line construction and equality", K+"line_2.rs"), ("segments", K+"line_segment_2.rs")])
prop("P07", "Area and orientation of triangles",
 "The area of a triangle is half the signed determinant of its corners, positive exactly when they are counterclockwise, and the orientation agrees with it. Corners and edges come in the order given; reversing swaps the orientation and twice reversing restores the triangle. Triangles are equal when their corners are, in order.",
 "all triples of points, including collinear and repeated ones, far from the origin too", "Tests reverse one triangle.",
 [K+"triangle_2.rs"], [("area, orientation, reversal", K+"triangle_2.rs")])
prop("P08", "Ends and monotone pieces of arcs and circles",
 "An arc goes counterclockwise from its start angle to its end angle, equal angles up to full turns meaning the whole circle, and its ends lie on its circle at these angles. Splitting it where it turns back horizontally gives pieces that are monotone in x, join end to start, and together are exactly the arc. Arcs are equal exactly when circle and both angles are.",
 "all arcs with angles up to thousands of turns away, including axis directions and full turns",
 "No test splits an arc; errors show only for particular combinations of quadrants.",
 [K+"arc_segment_2.rs", K+"circle_segment_2.rs"], [("arc construction and splitting", K+"arc_segment_2.rs")])
prop("P09", "Point on a line",
 "A point is located on a line exactly when its distance from the line is within the tolerance, whatever scale the coefficients of the line have.",
 "all points and lines, coefficients over scales from 1e-12 to 1e11, displacements of up to half a tolerance or from two on",
 "The tests do not reach lines whose coefficients are not of magnitude one.", [L+"point_2_line_2.rs"],
 [("location on a line", L+"point_2_line_2.rs")])
prop("P10", "Point at a ray",
 "A point within the tolerance of a ray is on it; any other point is located left, right, or, when in line behind the origin, collinear, according to the exact geometry.",
 "all points and rays of any direction and length of direction vector, far from the origin too (exact coordinates up to 2^32)", "The tests try a few rays.", [L+"point_2_ray_2.rs"],
 [("location at a ray", L+"point_2_ray_2.rs")])
prop("P11", "Point at a segment",
 "A point within the tolerance of a segment is on it, any other point is left or right of the directed segment or, when in line with it, beyond its ends, according to the exact geometry; the yes-or-no questions agree with that location. A segment of no length holds just its point.",
 "all points and segments, points in line with the segment and displaced by up to half a tolerance or from two on, also far from the origin (exact coordinates up to 2^32)",
 "The tests try one segment.", [L+"point_2_line_segment_2.rs"], [("location at a segment", L+"point_2_line_segment_2.rs")])
prop("P12", "Point in a triangle",
 "A point is on a triangle's boundary when within the tolerance of an edge, and otherwise inside or outside it according to the exact geometry, for either orientation of the corners. A flat triangle has a boundary and no inside.",
 "all points and triangles of both orientations, also flat ones, points on the lines of edges and near them, far from the origin too (exact coordinates up to 2^32)",
 "The tests try one triangle.", [L+"point_2_triangle_2.rs"], [("location in a triangle", L+"point_2_triangle_2.rs")])
prop("P13", "Point in a polygon",
 "A point is on a simple polygon's boundary when within the tolerance of an edge, and otherwise inside or outside according to the even-odd rule, for convex and other polygons in either orientation and from any first vertex.",
 "all simple polygons and points, in particular points level with vertices and edges, far from the origin too (exact coordinates up to 2^32)", "No test locates a point in a polygon.",
 [L+"point_2_polygon_2.rs"], [("location in a polygon", L+"point_2_polygon_2.rs")])
prop("P14", "Point at a circle",
 "A point is on a circle when its distance from the centre is the radius within the tolerance, and otherwise inside or outside it; the yes-or-no questions agree with that location.",
 "all points and circles, far from the origin too", "The tests try one circle.", [L+"point_2_circle_segment_2.rs"], [("location at a circle", L+"point_2_circle_segment_2.rs")])
prop("P15", "Point on an arc",
 "A point is on an arc when it is on the arc's circle and its direction lies within the counterclockwise turn from start to end, both ends included. Points on the rest of the circle or off the circle are not on it.",
 "all points and arcs of radius 1e-3 to 2e3 whose angles may be up to a turn away, arcs over the start of the circle and full turns included",
 "No test locates a point on an arc.", [L+"point_2_arc_segment_2.rs"], [("location on an arc", L+"point_2_arc_segment_2.rs")])
prop("P16", "Projection onto a line",
 "Projecting a point onto a line gives the foot of the perpendicular: a point of the line, nearest to the given one, whatever the scale of the line's coefficients. Projecting again changes nothing.",
 "all points and lines, vertical and horizontal ones included, coefficients over scales from 1e-12 to 1e11",
 "One test with one horizontal line.", [A+"projection/point_2_line_2.rs"], [("projection onto a line", A+"projection/point_2_line_2.rs")])
prop("P17", "Projection onto a segment",
 "A point projects onto a segment exactly when the foot of its perpendicular lies within the segment or within the tolerance of its ends, and then onto that foot; otherwise there is no projection. Onto a segment of no length only its own point projects.",
 "all points and segments, feet displaced past either end by up to half a tolerance or from two on, also far from the origin", "One test with one segment.",
 [A+"projection/point_2_line_segment_2.rs"], [("projection onto a segment", A+"projection/point_2_line_segment_2.rs")])
prop("P18", "Common point of two lines",
 "Two lines that are not parallel have one common point and it is reported, on both lines; parallel and identical lines have none reported. The yes-or-no question agrees and the order of the two does not matter, whatever the scale of the coefficients.",
 "all pairs of lines, coefficients over scales from 1e-12 to 1e11", "The tests try two pairs.", [I+"line_2_line_2.rs"],
 [("line and line", I+"line_2_line_2.rs")])
prop("P19", "Common point of a line and a ray",
 "A line and a ray that are not parallel have a common point exactly when the crossing of the line with the ray's line is not behind the ray's origin, and that crossing is reported; the yes-or-no question agrees. A parallel line beside the ray has none.",
 "all lines and rays, directions of any length, rays that start on the line included", "The tests try two pairs.", [I+"line_2_ray_2.rs"],
 [("line and ray", I+"line_2_ray_2.rs")])
prop("P20", "Common points of a segment and a ray",
 "All common points of a segment and a ray are reported and nothing else: the crossing or touching point, or, when they overlap, the ends of the segment that lie on the ray. The yes-or-no question agrees.",
 "all segments and rays, collinear, touching and origin-crossing ones included, also far from the origin", "The tests try two pairs.", [I+"line_segment_2_ray_2.rs"],
 [("segment and ray", I+"line_segment_2_ray_2.rs")])
prop("P21", "Common points of two segments",
 "All common points of two segments are reported and nothing else: the crossing or touching point, or the two ends of their overlap. The yes-or-no question is true exactly when there is one, also for segments that are single points, collinear or parallel, with a touch recognised within the tolerance.",
 "all pairs of segments, gaps and overlaps of up to half a tolerance or from two on, also far from the origin (exact coordinates up to 2^26)", "The tests try a few pairs.", [I+"line_segment_2_line_segment_2.rs"],
 [("segment and segment", I+"line_segment_2_line_segment_2.rs")])
prop("P22", "Common points of a segment and a circle",
 "The common points of a segment and a circle are reported and nothing else: none, one (tangent, or one end inside and one outside) or two. The yes-or-no question is true exactly when there is one, so not for a segment within the circle.",
 "all segments and circles, tangents, chords and ends on the circle included, also up to 2^20 from the origin", "The tests try a few pairs.",
 [I+"line_segment_2_circle_segment_2.rs"], [("segment and circle", I+"line_segment_2_circle_segment_2.rs")])
prop("P23", "Common points of two circles",
 "Two different circles have none, one (tangent from outside or inside) or two common points, and these are reported and nothing else. The yes-or-no question is true exactly when one is reported.",
 "all pairs of circles, tangent and concentric ones included, also up to 2^26 from the origin", "The tests try a few pairs.", [I+"circle_segment_2_circle_segment_2.rs"],
 [("circle and circle", I+"circle_segment_2_circle_segment_2.rs")])
prop("P24", "Common points of arcs with segments, circles and arcs",
 "The common points of an arc with a segment, a circle or another arc are those of its circle that lie on the arc (and on the other arc), and these are reported and nothing else; arcs on a common circle report the ends of their overlap. The yes-or-no question is true exactly when one is reported.",
 "all arcs, with angles up to a turn away, against segments, circles and arcs, tangency and touching ends included",
 "The tests try a few pairs.", [I+"arc_segment_2_arc_segment_2.rs", I+"circle_segment_2_arc_segment_2.rs", I+"line_segment_2_arc_segment_2.rs"],
 [("arc and arc", I+"arc_segment_2_arc_segment_2.rs"), ("circle and arc", I+"circle_segment_2_arc_segment_2.rs"), ("segment and arc", I+"line_segment_2_arc_segment_2.rs")])
prop("P25", "Common points do not depend on the order asked",
 "For any two of segments, circles and arcs the common points are the same set whichever is named first, the yes-or-no question is true exactly when that set is not empty, and every reported point lies on both.",
 "all pairs of segments, circles and arcs in special positions", "Tests ask each pair one way round.", [I+"segment_2_segment_2.rs"],
 [("dispatch over the kinds", I+"segment_2_segment_2.rs")])
prop("P26", "Area of a polygon",
 "The area of a polygon is the signed shoelace sum: positive counterclockwise, negated when reversed, the same from any first vertex, zero below three vertices. Its vertices are those given, and its edges join each to the next and the last to the first.",
 "all sequences of vertices, simple or not, both scalar types", "The tests ask for a square and a bow tie.", [K+"polygon_2.rs"], [("area and edges", K+"polygon_2.rs")])
prop("P27", "A polygon is simple exactly when its boundary is",
 "A polygon is reported simple exactly when its edges meet nowhere except consecutive ones in their shared vertex: no crossing, touching, repeated vertex, edge of no length or turning back. Fewer than three vertices count as simple.",
 "all sequences of vertices; different parts of the boundary at distance zero or at least 1e-6", "The tests ask for a square and a bow tie.", [K+"polygon_2.rs"],
 [("simplicity", K+"polygon_2.rs is_simple")])
prop("P28", "A polygon is convex exactly when it turns one way once around",
 "A polygon is reported convex exactly when its boundary turns one way only, straight corners allowed, and goes around just once; dents and stars are not convex, in either orientation and from any first vertex.",
 "all simple polygons, and those that are not simple but have no straight corners", "The tests ask for a square and a bow tie.", [K+"polygon_2.rs"],
 [("convexity", K+"polygon_2.rs is_convex")])
prop("P29", "The convex hull",
 "The convex hull of any set of points is reported as its corners in counterclockwise order, each a given point and named once, with all given points within; it does not depend on the order or repetition of the points, and its own hull is itself. None, one or collinear points give none, the point, or the two ends.",
 "all finite sets of points of both precisions, with repeated and collinear points", "No test computes a hull.", [A+"convex_hull/convex_hull_2.rs"],
 [("monotone chain", A+"convex_hull/convex_hull_2.rs")])
prop("P30", "Triangulation of simple polygons",
 "A simple polygon of n vertices, in either orientation, is cut into n - 2 triangles given by vertex indices, each with the orientation of the polygon, whose areas add up to its own and which fit together edge to edge with exactly the polygon's edges left over. This includes polygons with straight corners.",
 "all simple polygons of both precisions, up to 1400 vertices", "No test triangulates.", [A+"triangulation/earcut_2.rs"],
 [("ear clipping", A+"triangulation/earcut_2.rs"), ("ring of vertices", D+"circular_doubly_linked_list.rs")])
prop("P31", "Triangulation refuses polygons that are not simple",
 "Asked to triangulate a polygon whose boundary crosses or touches itself, the library refuses by a panic instead of returning triangles. Fewer than three vertices give no triangles.",
 "all sequences of vertices that are not simple", "No test asks.", [A+"triangulation/earcut_2.rs", K+"polygon_2.rs"], [("refusal", A+"triangulation/earcut_2.rs")])
prop("P32", "The sweep finds the common points of all segments",
 "For any set of segments the sweep reports exactly the points common to two or more of them, each once: crossings, touchings, shared ends and the ends of overlaps, however many segments pass through one.",
 "all finite sets of segments, vertical and overlapping ones included, with distinct event points at least 1e-6 apart, at coordinates (up to 16000) whose rounding is below the tolerance", "One test with a few segments.", [I+"sweep_segment_2_intersection.rs"],
 [("event loop", I+"sweep_segment_2_intersection.rs intersection"), ("order of the status", I+"sweep_segment_2_intersection.rs"), ("balanced tree", D+"avl_tree.rs"), ("queue", D+"priority_queue.rs")])
prop("P33", "The sweep finds the common points of segments, circles and arcs",
 "For any set of segments, circles and arcs the sweep reports exactly the points common to two or more of them, each once, tangent points included; arcs of one circle in a row report the end they share, overlapping ones the ends of the overlap.",
 "all finite sets of segments, circles and arcs whose event points are well apart, at coordinates up to 2000", "No test sweeps over a circle or arc.", [I+"sweep_segment_2_intersection.rs"],
 [("monotone pieces and their order", I+"sweep_segment_2_intersection.rs")])
prop("P34", "The sweep's answer depends on the set of segments only",
 "Asking a sweep again gives the same points, adding segments in another order, reversed or with questions in between gives the same set as one sweep over all of them, and each added segment never removes a point.",
 "all histories of adding segments, circles and arcs and asking", "The test asks once.", [I+"sweep_segment_2_intersection.rs"],
 [("state reset when asked", I+"sweep_segment_2_intersection.rs intersection")], over=("histories", "inputs"))
prop("P35", "The ordered tree is a balanced sorted collection",
 "After any history of insertions, deletions and clears the balanced tree lists exactly the elements a sorted list would hold, with equal elements kept or refused as configured, no operation needs more comparisons than the height of a balanced tree allows, and at every node the two sides differ by at most one level.",
 "all histories of insertions, deletions and clears, ascending, descending and repeated keys included", "The tree has no tests of its own.", [D+"avl_tree.rs"],
 [("rotations and heights", D+"avl_tree.rs")], over=("histories",), hook="data_structure is private: opened under cfg(rcgal_verif)")
prop("P36", "The queue returns the greatest first and loses nothing",
 "Whatever history of pushes, pops and clears, each pop returns a greatest element of those held, every element pushed comes out once unless cleared, and the queue is reported empty exactly when it is.",
 "all histories of pushes, pops and clears, with equal priorities", "The queue has no tests of its own.", [D+"priority_queue.rs"], [("heap", D+"priority_queue.rs")],
 over=("histories",), hook="data_structure is private: opened under cfg(rcgal_verif)")
prop("P37", "The circular list stays one ring",
 "After any history of insertions after a node and deletions, following the links forwards or backwards from the head visits exactly the nodes held, in order, and comes back; its ends and its length agree with that. A deleted node, and all nodes of a dropped list, go unless held from outside.",
 "all histories of insertions and deletions of head, tail and inner nodes", "The list has no tests of its own.", [D+"circular_doubly_linked_list.rs"],
 [("links", D+"circular_doubly_linked_list.rs")], over=("histories",), hook="data_structure is private: opened under cfg(rcgal_verif)")
prop("P38", "Calls keep no memory",
 "Once its results and arguments are dropped, no call of the library keeps memory, whether it returns or refuses its input; asking one sweep again and again does not make it grow.",
 "all calls and repetitions, refused triangulations included", "Tests do not measure memory.", [D+"circular_doubly_linked_list.rs", A+"triangulation/earcut_2.rs", I+"sweep_segment_2_intersection.rs"],
 [("ring of nodes freed", D+"circular_doubly_linked_list.rs Drop")], over=("inputs", "histories"))
prop("P39", "Calls depend on their arguments only and are silent",
 "The same call gives the same answer bit for bit, whatever was called before and whichever thread it runs on while others run too. The library writes nothing to standard output or standard error.",
 "all sequences of calls, in one or several threads", "Tests ask each question once.", ["src/lib.rs", A+"triangulation/earcut_2.rs", I+"sweep_segment_2_intersection.rs"],
 [("no shared state", "src/lib.rs")], over=("histories", "schedules", "inputs"))
prop("P40", "Every question about finite input is answered",
 "For finite input no call panics, loops or exhausts memory, whatever the magnitudes and however many points coincide or nearly coincide; only the triangulation of polygons that are not simple is refused.",
 "all finite coordinates below 1e150 (1e15 in single precision), radii not negative, angles below 1e300 (1e36 in single precision), sets up to several hundred points",
 "Tests only use small separated coordinates.", [I+"sweep_segment_2_intersection.rs", I+"segment_2_segment_2.rs", A+"convex_hull/convex_hull_2.rs", A+"triangulation/earcut_2.rs"],
 [("tolerant sorting", I+"sweep_segment_2_intersection.rs sort_segments"), ("each crossing queued once", I+"sweep_segment_2_intersection.rs find_intersection_points")])
W="src/wasm/"
prop("P41", "The WebAssembly interface answers as the native one",
 "Every constructor, accessor and function of the WebAssembly interface gives what the native library gives for the same arguments: the same points, numbers, indices and kinds, the same refusals. Objects are changed only by what reverses, adds or sets, and every object can be freed once, after which nothing is kept.",
 "all calls through the WebAssembly interface, on grids and on doubles, arcs off special positions",
 "The interface is compiled for WebAssembly only and has no tests.", [W+"kernel/polygon_2.rs", W+"kernel/segment_2.rs", W+"algorithm/intersection/segment_2_segment_2.rs", W+"algorithm/intersection/sweep_segment_2_intersection.rs", W+"algorithm/triangulation/earcut_2.rs"],
 [("wrappers of the kernel", W+"kernel"), ("choice by kind", W+"algorithm/intersection/segment_2_segment_2.rs")], over=("inputs", "histories"))
prop("P42", "Vertices, edges and faces of a planar graph keep their links",
 "A vertex holds exactly the edges added to it and not removed, an edge is removed wherever it is incident, and an edge keeps its ends, its neighbours and its segment as they were set; edges and vertices compare by their geometry.",
 "all histories of adding and removing edges, linking and moving ends", "No tests use vertices, edges or faces.", [K+"vertex_2.rs", K+"edge_2.rs", K+"face_2.rs"],
 [("incident edges", K+"vertex_2.rs"), ("links", K+"edge_2.rs")], over=("histories",))
prop("P43", "Polygon functions agree under any affine map",
 "For any affine image of a simple polygon, of any size, area, simplicity, triangulation and location agree with each other: the triangles' areas add up to the polygon's, a point is inside the polygon exactly when inside one of the triangles (or on a shared edge), and the area scales with the map. Sweeping over the edges gives the vertices.",
 "all affine images, of sizes from 1e-4 to 1e4 and up to 4e9 from the origin where exact, of simple polygons with parts of the boundary at least 1e-4 of that size apart", "No test relates two functions.", [K+"polygon_2.rs", A+"triangulation/earcut_2.rs", L+"point_2_polygon_2.rs", L+"point_2_triangle_2.rs"],
 [("polygons", K+"polygon_2.rs")])
prop("P44", "Hulls of arbitrary point clouds",
 "For any cloud of points, on no grid, the hull's corners are given points that turn one way, all points lie within, the polygon of the corners is simple and convex, and neither the order of the points nor taking the hull again changes it.",
 "all finite clouds of 3 to several hundred doubles, random, on circles, concentrated or stretched, up to 1e12 times their size from the origin", "No test computes a hull.", [A+"convex_hull/convex_hull_2.rs", K+"polygon_2.rs"],
 [("monotone chain", A+"convex_hull/convex_hull_2.rs")])
prop("P45", "The sweep agrees with asking all pairs",
 "For arbitrary segments, circles and arcs, on no grid, the sweep reports the same points as asking about every pair, each once.",
 "all finite sets of segments, circles and arcs, also many meeting in one point, ending on each other, in one column, or of no length, unless two different event points are within 1e-5, a pair is nearly parallel or tangent, or a segment is nearly but not vertical", "No test relates the two.", [I+"sweep_segment_2_intersection.rs", I+"segment_2_segment_2.rs"],
 [("event loop", I+"sweep_segment_2_intersection.rs")])
prop("P46", "Locations, projections and common points agree",
 "Whatever the coordinates, a reported common point is located on both objects, a projection is located on its object and nothing there is nearer, and the sides a point has of the edges of a triangle agree with its location in the triangle, the polygon, and at the rays and lines of the edges.",
 "all segments, circles, arcs, lines, rays and triangles that are not nearly parallel, tangent or flat", "No test relates two functions.", [I+"segment_2_segment_2.rs", A+"projection/point_2_line_2.rs", L+"point_2_triangle_2.rs"],
 [("locations with one tolerance", L)])

TECH = {
 "P35": "online monitor of operation histories against a sequential model, comparisons counted in the element",
 "P36": "online monitor of operation histories with element identities (order, conservation)",
 "P37": "online monitor of operation histories: ring invariants walked after every step",
 "P34": "online monitor of sweep histories against the first answer and a pairwise model",
 "P42": "online monitor of link histories against a model of identities",
 "P38": "counting global allocator around every call",
 "P39": "bitwise comparison of recorded answers over repetition, order and threads; output captured at the file descriptor",
 "P40": "supervised worker processes under hostile workloads: panics, CPU time and memory watched",
 "P41": "differential monitor: the WebAssembly build under node against the native build",
 "P43": "relational monitor over several functions under affine workloads",
 "P44": "monitor of defining conditions over random workloads",
 "P45": "differential monitor against an independent pairwise model",
 "P46": "relational monitor over several functions, independent formulas",
}
def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": p["hook"]}}) + "\n")
    m = {"version": 1, "setup_cmd": "./check.sh --build",
         "hooks": {"guard": "rcgal_verif", "enable": "RUSTFLAGS=\"--cfg rcgal_verif\"",
                   "source_commits": ["3e360cf"]},
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": "runtime monitoring: " + TECH.get(p["id"], "online oracle in exact lattice arithmetic over generated workloads"),
                     "level": "exploration",
                     "level_note": "Holds on the executions observed (their number, kinds and limits are in the evidence file). Quantified over " + p["text"] + ". The limits of the domain are listed in DESIGN.md and under assumptions in the evidence." + p["note"]}
                    for p in P],
         "not_applicable": [],
         "notes": "check.sh builds /verif/harness against /repo's working tree. VERIF_SEED chooses the cases; VERIF_BUDGET the seconds of a thorough run (480 by default). A replay file runs again with ./check.sh --replay FILE. properties.jsonl and this file are written by tools/gen.py."}
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
main()
