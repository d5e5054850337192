#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review and edit)."""
import json, os
MATH = ["src/math/vector.rs", "src/math/bivector.rs", "src/math/trivector.rs", "src/math/rotor.rs"]
U = "src/geometry/utils.rs"; PG = "src/geometry/polygon.rs"; G = "src/graph/planar_graph.rs"; L = "src/geometry/line.rs"; B = "src/math/blade.rs"; F = "src/fold/fold.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook)))

p("M01", "Products obey the geometric algebra of 3-space",
  "Multiplying two vectors, a vector by a bivector, two bivectors, two rotors, a rotor by a vector, or two trivectors gives exactly the Clifford (geometric) product of the operands: bilinear, with each basis vector squaring to +1 and distinct basis vectors anticommuting. Consequently the products are associative with one another, whatever the operands (up to floating-point rounding).",
  ["inputs"], "every pair (or triple) of operands, over every scalar type the library is instantiated with",
  "The unit tests evaluate three products on one or two fixed operands each; a wrong sign or swapped component in a term that vanishes or cancels there goes unnoticed, and vector*bivector, rotor*rotor and rotor*vector are hardly exercised.",
  MATH, [("Mul for Vector3/Bivector3/Rotor3/Trivector3, Mul<Bivector3> for Vector3, Mul<Vector3> for Rotor3", "src/math/*.rs")])
p("M02", "Inner and outer products are the right parts of the product",
  "The dot product of two like-graded elements is the scalar part of their geometric product (symmetric and bilinear) and the wedge of two vectors is its bivector part (antisymmetric, zero for parallel vectors); a bivector wedge a vector is the oriented volume, i.e. u^v^w equals the determinant of (u,v,w). For bivectors, product = dot + wedge, and a trivector wedge a trivector is zero.",
  ["inputs"], "every pair or triple of vectors, bivectors, trivectors and rotors",
  "Tests check dot and wedge on a handful of fixed operands; the trivector, rotor and mixed-grade operations have no test that looks at each component.",
  MATH, [("Contraction / Exterior impls", "src/math/*.rs"), ("trait definitions", "src/math/space.rs")])
p("M03", "Norms, unit elements and inverses are consistent",
  "For vectors, bivectors, trivectors and rotors the squared norm is the sum of the squared components (never negative) and the norm its non-negative root; normalising a non-zero element gives a positive multiple of it with norm 1. For every non-zero vector, bivector or trivector X, X times its inverse (in either order) is the scalar 1, and for a rotor the inverse is its reverse, so that rotor times inverse is its squared norm (1 for unit rotors).",
  ["inputs"], "every non-zero element (every element for the squared norm and the rotor reverse)",
  "Tests normalise and invert one element per type.",
  MATH, [("Norm impls: norm, norm_squared, normalize, inverse", "src/math/*.rs")])
p("M04", "Unit rotors are rotations, and the constructors build the right one",
  "Rotating with a unit rotor preserves all dot products, lengths and handedness; rotating with a product R1*R2 equals rotating by R2 and then R1, the identity rotor changes nothing and the inverse rotor undoes the rotation. The rotor built from two unit vectors (not opposite) is a unit rotor that takes the first to the second and fixes vectors perpendicular to both; the rotor built from an angle and a unit plane is a unit rotor that turns vectors of that plane by that angle, in the plane's orientation, and fixes its normal (likewise for the xy, xz and yz shorthands).",
  ["inputs"], "every rotor and vector, every pair of unit vectors that are not opposite, every angle and every unit plane",
  "Tests rotate three vectors with two rotors, in axis-aligned planes only; rotation about a general plane and composition are untested.",
  MATH, [("rotate, from_vectors, from_angle_plane, from_*_rotation, identity, Mul for Rotor3", "src/math/rotor.rs")])
p("M05", "Projection, reflection and angle of vectors",
  "Projecting u onto a non-zero v gives a multiple of v whose difference from u is perpendicular to v; reflecting u about a non-zero v keeps the part along v, negates the part perpendicular to v, preserves length, and reflecting twice gives u back. The angle between two non-zero vectors is a number in [0, pi] (never NaN, also for parallel vectors), symmetric, whose cosine times both lengths is the dot product.",
  ["inputs"], "every u and every non-zero v of any length",
  "One example each; rounding can push the cosine of parallel vectors above 1, which a few samples do not reveal.",
  ["src/math/vector.rs"], [("project, reflect, angle", "src/math/vector.rs")])
p("M06", "Elements form vector spaces, component by component",
  "Addition, subtraction, negation, and multiplication and division by a scalar act on every component of a vector, bivector, trivector or rotor and on nothing else, and the in-place forms give exactly what the value-returning forms give. The zero element is neutral and recognised as zero only when every component is zero; the named unit elements and the identity rotor have exactly the advertised components.",
  ["inputs"], "every operand of each of the four types and every scalar",
  "Only vector addition and subtraction have a test, on one pair; the other operators, all in-place forms and the zero tests have none.",
  MATH, [("Add/Sub/Neg/Mul<T>/Div<T> and *Assign impls, Zero impls, unit_* constructors", "src/math/*.rs")])
p("M07", "Approximate equality looks at every component",
  "Two vectors, bivectors, trivectors or rotors are approximately equal (by absolute difference, relative difference or ulps) exactly when each of their components is, under the very tolerance the caller passed; the default tolerances are those of the scalar type.",
  ["inputs"], "every pair of elements and every tolerance",
  "The comparison is what the tests use to judge everything else, and is never itself tested: one that ignored a component or a tolerance would pass.",
  MATH, [("AbsDiffEq / RelativeEq / UlpsEq impls", "src/math/*.rs")])
p("M08", "Basis-blade counts are binomial coefficients",
  "The number of basis k-blades of an n-dimensional space is n choose k for every n and k, including k = 0 (one scalar) and k > n (none), and the total number of basis blades is 2 to the n, which is the sum of those counts. No call crashes as long as the falling factorial n(n-1)...(n-k+1) fits the machine word.",
  ["inputs"], "every n and k whose intermediate products fit in a machine word",
  "There is no test of these functions at all.",
  [B], [("number_of_basis_blades, binomial_coefficient, factorial, total_number_of_basis_blades", B)])

p("G01", "Orientation predicates agree with signed area",
  "The signed double area of three points is positive exactly for counter-clockwise triples, is unchanged by cyclic rotation of the points and by translation, and changes sign when two points are swapped. For any a, b, c exactly one of the following holds: c is strictly left of ab, c is strictly left of ba, or the three are collinear; 'left or on' is the union of the first and the last.",
  ["inputs"], "every triple of points (exact arithmetic)",
  "Two triples are tested.",
  [PG], [("area2, left, left_on, collinear", PG)])
p("G02", "Segment-crossing tests are exact",
  "For two segments of non-zero length, the intersection test is true exactly when the closed segments share a point, and the proper-intersection test exactly when they cross at a single point interior to both and no endpoint of either lies on the line through the other. The betweenness test is true exactly when the point lies on the closed segment; all of these are unaffected by swapping the endpoints of a segment, and the crossing tests by swapping the segments.",
  ["inputs"], "every pair of non-degenerate segments and every point (exact arithmetic)",
  "Two betweenness queries are tested; no crossing test is asserted.",
  [PG], [("intersect, intersect_prop, between", PG)])
p("G03", "Computed intersection points exist and lie where they should",
  "Intersecting two segments returns a point exactly when the (non-parallel) closed segments meet, and the returned point lies on both. Intersecting two infinite lines returns the unique common point whenever the lines are not (nearly) parallel, wherever it falls relative to the defining segments, and nothing otherwise.",
  ["inputs"], "every pair of segments / lines (exact arithmetic; parallel inputs included)",
  "No test touches these functions, although edge splitting in the graph is built on them.",
  [U], [("calculate_line_segment_intersection, calculate_line_intersection", U)])
p("G04", "Midpoint, perpendicular foot and perpendicular bisector",
  "The midpoint is equidistant from and on the segment of its endpoints; the perpendicular point of p on line ab lies on that line and the vector from p to it is perpendicular to ab (for a different from b). The perpendicular bisector returns the midpoint together with a point at distance |offset| from it such that the line through the two is perpendicular to ab, for every segment of non-zero length including horizontal and vertical ones.",
  ["inputs"], "every pair of distinct points, every p, every offset",
  "No test touches these functions; horizontal segments divide by a zero slope.",
  [U], [("calculate_midpoint, calculate_perpendicular_point, calculate_perpendicular_bisector", U)])
p("G05", "Triangle degeneracy and incircle",
  "A triangle is reported degenerate exactly when its three points are collinear (coincident points included), and then has no incenter. For every other triangle the returned incenter is inside the triangle and at distance exactly the returned inradius from all three side lines.",
  ["inputs"], "every triple of points (exact arithmetic)",
  "One triangle and one degenerate triple are tested, and the inradius never.",
  [U], [("is_degenerate_triangle, calculate_triangle_incenter", U)])
p("G06", "Incidence tests for points, segments and lines",
  "Every point of a segment further than the tolerance from both endpoints is reported to be on it; an endpoint is reported on it exactly when the caller asked to include endpoints; a point whose detour through it exceeds the tolerance never is. Two points are 'close' exactly when their distance is within the tolerance; directions are reported parallel exactly when the absolute cosine of their angle is within the tolerance of 1 (either sense of direction, never for a zero direction); and an infinite line contains each point 'point + t * direction' and no point off the line by more than the tolerance.",
  ["inputs"], "every configuration of points (exact arithmetic, tolerances as named in the code)",
  "Two parallel queries and three containment queries are tested; the endpoint flag and the closeness test never.",
  [U, L], [("is_on_line_segment, close_to, parallel", U), ("Line::contains", L)])
p("G07", "Nearest point and duplicate removal",
  "The nearest-point query over a non-empty list returns the smallest distance to the target and the (first) index attaining it. Duplicate removal returns a sub-list, in order, in which every input point has a representative within the tolerance and no two entries are within the tolerance of each other.",
  ["inputs"], "every list of points of any length",
  "Neither function is tested; both loops quantify over lists of any length.",
  [U], [("find_closest_to, unique_points_among", U)])

p("Y01", "Polygons are built counter-clockwise from the vertices given",
  "Building a polygon fails exactly for fewer than three vertices; otherwise the polygon has the same vertices, in the same order if their signed area is non-negative and in reverse order if it is negative, so its signed area is never negative. A regular polygon has the requested number n of vertices, all at distance |circumradius| from the requested center, vertex i (counted from one end of the list or from the other) in the direction of the angle 2 pi i / n for a positive circumradius.",
  ["inputs"], "every vertex list of any length; every side count of at least three, circumradius and center",
  "Two polygons are built, both already counter-clockwise; the reversing path is never executed.",
  [PG], [("Polygon::new, Polygon::regular", PG)], state=[dict(name="Polygon.vertices", meaning="vertices in CCW order", where=PG)])
p("Y02", "Area, center and transforms",
  "The area of a polygon is the absolute value of the shoelace formula over all its vertices, whichever vertex comes first, and its center is the mean of its vertices. Translating moves every vertex by exactly the given vector and uniform scaling multiplies every vertex by the factor, for polygons of any size, so translation preserves the area and scaling by s multiplies it by s squared.",
  ["inputs"], "every polygon with any number of vertices, every translation and scale factor",
  "The area of one triangle is tested; center, translate and scale never.",
  [PG], [("area, area_poly2, center, translate, uniform_scale", PG)])
p("Y03", "Diagonals are exactly the internal chords",
  "In a polygon whose vertices are pairwise distinct points, a pair of vertices is reported a diagonal exactly when they differ, the segment between them meets no polygon edge that does not touch either of them, and the segment leaves each of its two endpoints strictly into the polygon's interior angle (convex and reflex corners alike). The answer does not depend on the order of the two vertices, and neighbouring vertices never form a diagonal.",
  ["inputs"], "every polygon with any number of (distinct) vertices, self-crossing ones included, and every pair of vertex indices",
  "The test computes diagonals of one polygon and prints them without asserting anything.",
  [PG], [("Polygon::diagonal, in_cone, get_neighbor_indices", PG)])
p("Y04", "Triangulation partitions the polygon",
  "Whenever triangulating a polygon of n vertices returns, it returns exactly n - 2 polygons of three vertices each, all vertices taken from the polygon, and the sum of the signed areas over the corner triples cut off, plus the last triangle, equals the polygon's signed area. Each triangle cut off was an ear: the chord closing it was a diagonal of the remaining polygon when its end vertices became neighbours of the vertex cut off (or at the start). The input polygon is not modified and no index error occurs.",
  ["inputs"], "every polygon with any number of vertices on which the procedure terminates",
  "One polygon is triangulated and the number of pieces printed, not checked.",
  [PG], [("Polygon::triangulate", PG)])

ST = [dict(name="PlanarGraph.nodes / edges", meaning="node list and edge list; edges refer to nodes by index", where=G)]
p("R01", "The graph never holds a dangling edge and never crashes",
  "After any sequence of node and edge additions and removals, with any arguments including out-of-range indices, every edge's two endpoints are indices of existing nodes. No such call panics.",
  ["histories", "inputs"], "every finite sequence of public mutating calls with any arguments",
  "The only graph test adds four nodes and two edges and asserts nothing; no removal is ever executed.",
  [G], [("add_node, add_edge, remove_node, remove_edge and their helpers", G)], state=ST)
p("R02", "Adding a node",
  "Adding a node within the tolerance of existing nodes changes nothing and returns the index of the nearest one with no changed edges. Otherwise the node is appended with the given position and data and its index returned, all earlier nodes are unchanged, every edge whose interior contains the new node is split there (it keeps its index, source and data and now ends at the new node, and one edge with the same data joining its former destination to the new node is appended), every other edge is unchanged, and the returned list holds exactly the indices of the edges so modified or created.",
  ["inputs", "histories"], "every graph, position and data value",
  "Nodes are only added to an edgeless graph in the tests, so no split is ever executed, and no result is asserted.",
  [G], [("add_node, split_edges_at_node", G)], state=ST)
p("R03", "Adding an edge",
  "Adding an edge with a missing endpoint fails and leaves the graph unchanged; adding one that already exists, in either direction, succeeds, reports no change and leaves the graph unchanged. Otherwise the new edge is appended and split, together with the existing edges, at points where they cross: nodes and their data are kept and new ones only appended, every edge keeps its index, source and data (an unsplit edge also its destination), every edge created by a split carries the data of the edge it came from, each crossing of the new edge with an existing one ends up (after merging crossings that coincide within the tolerance) within the tolerance of a node, and every edge index that changed or was created is in the returned list, which is never empty.",
  ["inputs", "histories"], "every graph, pair of node indices and data value",
  "The test adds two crossing edges and prints the result.",
  [G], [("add_edge, split_edges_along_edge, has_edge_between_nodes", G)], state=ST)
p("R04", "Removing a node",
  "Removing an existing node removes that node, every edge incident to it, and every neighbour left without any edge, and nothing else: all other nodes keep their positions, data and relative order, and all other edges keep their data and relative order and still join the same two nodes under their new indices. The reported lists run from the smallest removed node (edge) index to the old end of the list, so anything not reported is where it was. Removing a node that does not exist changes nothing and reports nothing.",
  ["inputs", "histories"], "every graph and node index, including isolated nodes, self-loops and the last node",
  "No test removes a node.",
  [G], [("remove_node, remove_edges_incident_to_node", G)], state=ST)
p("R05", "Removing an edge",
  "Removing an existing edge removes exactly that edge, plus whichever of its endpoints is left without any edge; all other nodes and edges survive with their positions, data and connections. If both endpoints have other edges, nodes are untouched, at most the formerly last edge changes its index (into the vacated one) and the report names the removed and the last index. Removing an edge that does not exist changes nothing and reports nothing.",
  ["inputs", "histories"], "every graph and edge index, including the last edge",
  "No test removes an edge.",
  [G], [("remove_edge", G)], state=ST)
p("R06", "Graph queries tell the truth",
  "Node and edge counts equal the number of stored nodes and edges; index queries are true, and lookups succeed, exactly for indices below those counts, index 0 included. Two nodes are reported joined exactly when some edge has them as its endpoints in either order, and the number of edges incident to a node is the number of edges having it as an endpoint, absent for a missing node.",
  ["inputs", "histories"], "every graph and every index",
  "No query result is asserted by any test.",
  [G], [("node_count, edge_count, has_node_at_index, has_edge_at_index, get_vertex, get_edge, has_edge_between_nodes, number_of_edges_incident_to, Edge::includes", G)], state=ST)
p("R07", "The drawing stays planar",
  "After any sequence of additions, no two edges of the graph cross or overlap except at shared end nodes, and no node lies in the interior of an edge.",
  ["histories", "inputs"], "every sequence of node and edge additions at any coordinates",
  "It is a whole-history geometric property of single-precision coordinates; the test adds two perpendicular edges.",
  [G, U], [("add_node, add_edge, split_edges_at_node, split_edges_along_edge", G)], state=ST)

p("F01", "FOLD data survives export and re-import",
  "Serialising a loaded FOLD document (all numbers finite) to JSON and reading it back yields the same document: every field is written under the key it is read from, with a value that is read back equal.",
  ["inputs"], "every FOLD document",
  "There is no test of the FOLD module.",
  [F], [("serde attributes on Fold", F)])
p("F02", "Reading a FOLD file fails cleanly",
  "Loading a FOLD file that is missing, unreadable or not valid JSON for the format returns an error and never panics; every file that conforms is loaded with each listed field equal to the file's value, absent fields empty and unknown keys ignored.",
  ["inputs", "fault_sequences"], "every file content",
  "There is no test of the FOLD module.",
  [F], [("Fold::from_file", F)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
