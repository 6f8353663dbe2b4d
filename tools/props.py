#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, statements and anchors)."""
import json
P = []
A = "src/core/algorithm/"; G = "src/core/geom/"; M = "src/core/math/"; U = "src/core/util/"; I = G + "implementation/"
def p(id, title, statement, text, why, files, mech, obs, over=("inputs",)):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}})

p("C01", "Envelopes form a lattice of closed boxes consistent with point membership",
  "An envelope built from or expanded by points and envelopes is exactly the least closed box covering them, and intersection of two envelopes contains exactly the points in both. Intersects, disjoint, overlaps, covers, contains, contains-properly and equality agree with point membership (closed on the boundary, infinities included), and an envelope sorts consistently with its equality. The null envelope contains nothing, intersects nothing, is neutral for expansion, equals only null and has zero extent.",
  "all envelopes (null or any two non-NaN corners) and all non-NaN points",
  "Tests use a few integer boxes; touching edges, infinities, null operands, degenerate boxes and argument order are universally quantified.",
  [G + "envelope.rs"], [("comparisons of the four bounds", G + "envelope.rs: expand_to_include_*, intersection_envelope, intersects_*, covers_*, equals, compare_to_envelope")],
  ["Envelope predicates and constructors"])
p("C02", "Envelope measures, growth, translation and distance are consistent",
  "Width, height, area, extents, diameter and centre are those of the box; growing by amounts moves each side by exactly that amount and an envelope shrunk past its extent becomes null; translating moves every bound by the offset. Distance between envelopes is symmetric, zero exactly when they intersect, and otherwise the gap between them (the single-axis gap when they overlap in the other axis, at least either gap otherwise). A null envelope is unchanged by growth and translation.",
  "all envelopes with finite bounds, all finite amounts",
  "Tests sample a handful of boxes and one or two distances; sign combinations, over-shrinking and axis symmetry are not enumerated.",
  [G + "envelope.rs"], [("bound arithmetic", G + "envelope.rs: expand_by, expand_by_delta_xy, translate, distance_envelope, centre, min_extent, max_extent")],
  ["Envelope measures"])
p("C03", "Orientation index is the exact side of a directed line",
  "The orientation index of three points is the sign of their exact cross product (counter-clockwise positive, clockwise negative, collinear zero) whenever the arithmetic involved is exact, in particular for all integer ordinates up to 2^24 in magnitude. The fast filter never returns a definite answer with the wrong sign for any finite ordinates short of overflow and underflow. Swapping two points negates the index and rotating the three points keeps it.",
  "all coordinate triples: integers up to 2^24 at any power-of-two scale for the index, any finite for the filter",
  "Tests check a few triples; near-collinear inputs decide every overlay and containment result and need an error-bound argument, not samples.",
  [A + "cg_algorithms_dd.rs", A + "orientation.rs", M + "dd.rs"], [("determinant with error-bound filter, then extended precision", A + "cg_algorithms_dd.rs: orientation_index, orientation_index_filter, signum")],
  ["Orientation::index", "CGAlgorithmsDD::orientation_index"])
p("C04", "Ring orientation matches the sign of the enclosed area",
  "For every simple closed ring with non-zero area, whatever its start vertex, repeated consecutive vertices or flat top edges, the counter-clockwise test agrees with the sign of the enclosed area, and reversing the ring flips it; the area-based variant agrees. Degenerate rings (too few points, flat, empty) are reported as not counter-clockwise and never panic. The coordinate-list and the sequence forms agree.",
  "all simple rings, all rotations and reversals of them, at any power-of-two scale",
  "Tests try around ten rings; the answer depends on where the highest vertex falls relative to the start point and on flat or repeated tops.",
  [A + "orientation.rs", A + "area.rs"], [("highest-vertex scan and cap orientation", A + "orientation.rs: is_ccw, is_ccw_seq, is_ccw_area")],
  ["Orientation::is_ccw", "Orientation::is_ccw_area"])
p("C05", "Point-in-ring and point-on-line location is exact",
  "Locating a point against a ring reports boundary exactly when the point lies on some edge of the ring and otherwise interior exactly when an odd number of edges cross the rightward ray from the point. The answer does not change when the ring is reversed or started at another vertex, and is the same through every entry point (array, sequence, incremental counter). A point is on a line exactly when it lies on one of its segments.",
  "all rings and lines of any length, all points, in the domain where orientation is exact",
  "Tests use a few rings; vertices level with the point, horizontal edges and repeated points are the hard cases and occur for arbitrary positions and lengths.",
  [A + "point_location.rs", A + "ray_crossing_counter.rs"], [("crossing count over segments", A + "ray_crossing_counter.rs: count_segment, locate_point_in_ring*"), ("segment scan", A + "point_location.rs: is_on_line, is_in_ring, locate_in_ring")],
  ["RayCrossingCounter", "PointLocation"])
p("C06", "Segment intersection is detected, classified and located correctly",
  "Two non-degenerate segments (no precision model set) are reported as intersecting exactly when they share a point; the result is a single point or a collinear overlap exactly as geometry demands, and neither the order of the segments nor their directions changes that. Every reported intersection point lies within both segments' envelopes (where rounding would leave them, the end point nearest to the other segment stands in), an end point of one segment on the other is reported exactly, and a collinear overlap is reported by its two true end points. Intersection with a single point reports exactly whether the point is on the segment.",
  "all segment pairs with integer ordinates in the domain where orientation is exact (up to 2^24), at any power-of-two scale",
  "Tests cover a few dozen pairs; touching, collinear, degenerate and near-parallel configurations in all argument orders are not enumerable by hand.",
  [A + "robust_line_intersector.rs", A + "line_intersector.rs", A + "intersection.rs"], [("envelope test, four orientations, collinear case analysis", A + "robust_line_intersector.rs: compute_intersect, compute_collinear_intersection, intersection_safe")],
  ["RobustLineIntersector"])
p("C07", "DE-9IM matrices implement the OGC predicates and patterns",
  "Every named predicate of an intersection matrix (disjoint, intersects, touches, crosses, within, contains, covers, covered-by, overlaps, equals) is true exactly when the matrix matches the OGC pattern(s) defining it for the given dimensions, and pattern matching compares all nine cells. Transposing swaps the roles of the two geometries: it is an involution, exchanges within/contains and covers/covered-by, and preserves the symmetric predicates. Copy, equality, string conversion, at-least and add act cell by cell, and the symbol tables are mutually inverse.",
  "all matrices over {*,T,F,0,1,2}^9, all dimension pairs, all nine-symbol patterns",
  "Tests check a handful of patterns out of 6^9 matrices, 6^9 patterns and all dimension pairs.",
  [G + "intersection_matrix.rs", G + "dimension.rs", G + "location.rs"], [("cell tests per predicate", G + "intersection_matrix.rs"), ("symbol tables", G + "dimension.rs, " + G + "location.rs")],
  ["IntersectionMatrix", "Dimension", "Location"])
p("C08", "Coordinate equality, ordering, ordinates and measures are coherent",
  "Planar equality and planar comparison agree and comparison is a total order on non-NaN coordinates; 3D equality treats two missing Z values as equal; tolerance equality holds exactly when every compared ordinate differs by at most the tolerance. Every constructor, named getter and setter reads and writes exactly its ordinate (x, y, z, m), index access does so for x, y and z (the documented indices), copying a coordinate carries over all its ordinates and assigning one carries over x, y and z. Distance is symmetric and zero exactly for planar-equal coordinates.",
  "all coordinates, NaN and infinite ordinates included where meaningful",
  "Tests compare a few pairs; order laws quantify over triples and ordinate access over all index values.",
  [G + "coordinate.rs", G + "coordinates.rs", U + "number_util.rs"], [("ordinate fields and comparisons", G + "coordinate.rs")],
  ["Coordinate"])
p("C09", "Line segments: orientation, equality, order and projection are coherent",
  "Normalising, reversing and topological equality treat a segment and its reverse as the same set while comparison and exact equality respect direction; minima, maxima, length, horizontal/vertical and midpoint describe the end points. The orientation of a point or segment relative to it follows the orientation index, closest point and distance lie on the segment and are never farther than an end point, and projection factors and segment fractions stay in their ranges. Projecting another segment reports none exactly when its projection lies wholly on or beyond one end, and otherwise a result clipped to the segment. Offset points lie at the offset distance to the left of the segment, and reflection mirrors a point in its line.",
  "all segments and points with integer ordinates (up to 2^24 for predicates), at any power-of-two scale",
  "Tests check isolated examples; direction symmetry, degenerate and axis-parallel cases are quantified.",
  [G + "line_segment.rs"], [("end-point case analysis and dot-product projection", G + "line_segment.rs")],
  ["LineSegment"])
p("C10", "Coordinate sequences keep their points under every sequence operation",
  "Copying, reversing, scrolling, closing into a valid ring and extending a sequence produce exactly the points (every ordinate x, y, z within the sequence's dimension; a measure has no ordinate number and is not moved) that the operation promises: reversal is an involution, scrolling is a rotation that keeps a ring closed, extension repeats the last point, closing adds only a copy of the first. Index, minimum, ring, equality and envelope queries agree with the points held, two sequences compare by their ordinates lexicographically as a total order, and none of this depends on sequence length or dimension.",
  "all sequences of any length (empty included), dimension and measure count",
  "Tests use sequences of about five points; index arithmetic at the ends and at arbitrary lengths is what breaks.",
  [G + "coordinate_array_sequences.rs", I + "coordinate_array_sequence.rs", I + "coordinate_array_sequence_factory.rs", G + "coordinate_sequence_comparator.rs"],
  [("index loops over the sequence", G + "coordinate_array_sequences.rs: reverse, scroll*, ensure_valid_ring, extend, copy*, is_equal*, index_of, min_coordinate*"), ("comparison", G + "coordinate_sequence_comparator.rs")],
  ["CoordinateArraySequence", "CoordinateArraySequences", "CoordinateSequenceComparator"])
p("C11", "Coordinate array utilities preserve and select the right points",
  "Reversing, copying, extracting a range, removing repeated or null points, scrolling and intersecting arrays by an envelope return exactly the selected points in order; comparison of arrays is lexicographic and direction-insensitive comparison identifies an array with its reverse. Ring, repeated-point, index, minimum, envelope and dimension queries agree with the points held. No valid argument (any length, empty included) panics.",
  "all coordinate arrays of any length, all index ranges",
  "Tests use arrays of up to six points; range ends, empty input and palindromes are quantified.",
  [G + "coordinate_arrays.rs"], [("index loops", G + "coordinate_arrays.rs")], ["CoordinateArrays"])
p("C12", "Coordinate lists append, insert and close without losing points",
  "Adding coordinates to a list one by one, as a range, in either direction or from another list appends exactly those coordinates in that order, dropping a coordinate only when repeats are disallowed and it equals its neighbour in the list. Closing a list appends a copy of its first point exactly when the ends differ, and conversion to an array in either direction returns all points. No valid argument (any length, empty included) panics.",
  "all lists and arrays of any length, both directions, both repeat modes",
  "Tests build two or three small lists; neighbours at either end, empty lists and reverse ranges are not covered.",
  [G + "coordinate_list.rs"], [("append and insert with neighbour check", G + "coordinate_list.rs")], ["CoordinateList"])
p("C13", "Geometries copy, reverse, compare and normalise structurally",
  "For every geometry type, a copy has the components of its source, each exactly equal, in the same order, and its precision model; reversing reverses the point order of every line and ring, keeps component order and precision model and is an involution; exact equality within a tolerance is reflexive, symmetric and structural (same type, same components in the same order). Point, line and ring queries agree with the points held: number of points, n-th point, start and end points, closedness (an empty line is not closed, an empty ring is), emptiness, envelope, length and dimension. Comparing geometries is antisymmetric and zero on a geometry and its copy, ordering component by component and then shorter first. Normal form is idempotent and a permutation or rotation of the same points: a line and its reverse have the same normal form, a polygon's shell becomes clockwise and its holes counter-clockwise, each starting at its least point. No valid geometry (empty, with holes, multi-part) makes these operations panic.",
  "all geometries of every type, including empty ones, polygons with holes and multi-part geometries",
  "Tests touch two or three geometry constructors; holes, multi-part and empty geometries are hardly exercised.",
  [G + "geometry.rs", G + "point.rs", G + "line_string.rs", G + "linear_ring.rs", G + "polygon.rs", G + "multi_point.rs", G + "multi_line_string.rs", G + "multi_polygon.rs", G + "geometry_factory.rs"],
  [("copy_internal, reverse_internal, equals_exact, compare_to and normalize per type", G + "*.rs")], ["Geometry types"])
p("C14", "Extended-precision numbers keep exactness, order and sign",
  "The extended-precision sum, difference and product of two doubles is exact: the nearest double and the exact rest (so it is exact for all integers whose result is below 2^53, and integer determinants and powers are exact there too); sums of longer numbers are exact whenever their words add without rounding, and otherwise, like products, quotients and roots, right to the last places; a division of integers without remainder is exact, and a quotient by a double is right to 2^-100 of its size. Negation, absolute value, sign and zero tests follow the real value. The comparison operators form one total order, that of the real values, consistent with each other, equality, minimum and maximum; NaN is unordered. Floor, ceiling, rounding and truncation are those of the real value. Non-mutating operations never change their operands, and the self- variants produce the same value.",
  "all normalized operands without overflow or underflow, in the stated domains (sums up to 1e60, products up to 1e18)",
  "Tests check a few dozen constants; error-free transformations have to be exact for every operand, or robust predicates silently fail.",
  [M + "dd.rs"], [("error-free transformations on a high and low word", M + "dd.rs")], ["DD"])
p("C15", "Precision models round to their grid, once",
  "Making a value precise with a fixed model scales it, rounds to the nearest whole number with ties upward and unscales: the result is a line of the grid, at most half a grid step away (up to the rounding of the two operations), monotone, and making precise twice changes nothing more (for grid indices below 2^49). A single-precision model rounds to the nearest single; a floating model leaves the value unchanged; NaN stays NaN and the model is never changed. Making a coordinate precise does this to x and y only. Comparison orders models by significant digits, equality is an equivalence (type, and scale when fixed), and scale, grid size, type and digit queries agree with the construction; a negative scale is a grid size.",
  "all finite values up to 1e20 and all scales or grid sizes between 1e-15 and 1e15",
  "Tests hardly exercise precision models; rounding at ties, negative values and repeated rounding are quantified.",
  [G + "precision_model.rs"], [("scale, round, unscale", G + "precision_model.rs: make_precise_f64, make_precise_coordinate, compare_to, equals")], ["PrecisionModel"])
p("C16", "Area and length of point strings are exact and invariant",
  "The signed area of a ring of integer ordinates is exactly the shoelace value (positive for clockwise rings), is negated by reversal, unchanged by starting at another vertex and by translation, and the unsigned area is its magnitude; the sequence and array forms agree. The length of a line is the sum of its segment lengths, non-negative, zero exactly when all points coincide, and unchanged by reversal (exactly when the segment lengths are integers, otherwise up to rounding). Rings and lines with too few points have area and length zero.",
  "all point strings of any length with integer ordinates (whose shoelace terms are below 2^53), at any power-of-two scale",
  "Tests compute two or three areas; length of the string and position of the origin are quantified.",
  [A + "area.rs", A + "length.rs"], [("shoelace loop relative to the first point; segment sum", A + "area.rs, " + A + "length.rs")], ["Area", "Length"])
p("C17", "The centroid is that of the highest-dimension parts",
  "The centroid of an areal geometry with area is its area centroid, holes subtracted, independent of ring orientation and start vertex (up to rounding of the final division); of a geometry without area the length-weighted mean of its segment midpoints (up to rounding); of one without length the mean of its points, a ring or line all of whose points coincide counting as one point; so lower-dimension parts count only when no higher-dimension part has extent. It is translated along with the geometry and lies inside the envelope of a convex polygon. Empty geometry has no centroid, its centroid point is empty, and nothing panics. The centroid point of a polygon or multi-polygon with a precision model is the unrounded one made precise.",
  "all geometries with integer ordinates (whose moments are below 2^53), at any power-of-two scale",
  "Tests compute a handful of centroids; orientation of shells and holes and degenerate parts are quantified.",
  [A + "centroid.rs"], [("triangle, line and point accumulators", A + "centroid.rs")], ["Centroid"])
p("C18", "Distances are symmetric, non-negative and zero exactly on contact",
  "Distance between points, point and line, point and segment, point and segment string and segment and segment, in the plane and in space, is non-negative, symmetric in its arguments and in the direction of each segment, and zero exactly when the arguments touch. It never exceeds the distance between any pair of points of the arguments and equals the distance to the nearest end point when the foot of the perpendicular falls outside. A degenerate segment behaves as its point. (The distance to an infinite line presumes two distinct points; in space, where the nearest points are rounded, contact gives a distance within rounding of zero.)",
  "all argument tuples with integer ordinates (up to 2^24 in the plane), at any power-of-two scale",
  "Tests check around ten distances; parallel, degenerate and touching cases in every order are quantified.",
  [A + "distance.rs", A + "cg_algorithms_3d.rs"], [("projection parameter case analysis", A + "distance.rs: point_to_segment, segment_to_segment, point_to_line_perpendicular"), ("closest-approach parameters", A + "cg_algorithms_3d.rs")],
  ["Distance", "CGAlgorithms3D"])
p("C19", "Angles are normalised into their documented ranges",
  "Normalised angles lie in (-pi, pi] or [0, 2 pi) and differ from the input by whole turns; the difference of two angles is symmetric and in [0, pi]. Acute and obtuse tests follow the sign of the dot product, turn and interior-angle results follow the orientation of the three points, and the angle between vectors is symmetric and in [0, pi]. Degree and radian conversion are mutually inverse.",
  "all finite angles (within the stated number of turns) and all point triples",
  "Tests check multiples of a quarter turn; range ends and many-turn inputs are quantified.",
  [A + "angle.rs"], [("wrap loops and comparisons", A + "angle.rs")], ["Angle"])
p("C20", "Triangle predicates and centres agree with the geometry",
  "Acute, counter-clockwise and point-in-triangle answers agree with exact orientation and dot products whatever the vertex order; a point is in a proper triangle exactly when it is on the inner side of, or on, each side (of a triangle whose corners are collinear only points of the line of the corners count). Area is the magnitude of signed area, signed area is half the determinant (clockwise positive) and is negated by swapping two vertices, perimeter, longest side, in-centre, centroid and angle bisector follow from the side lengths and corners and, up to rounding, do not depend on vertex order. The circumcentre is the point equidistant from the vertices (in extended precision exact where it is an integer point), the perpendicular bisector the line of points equidistant from both ends, and the circumradius is infinite exactly for collinear corners. Z interpolation reproduces the vertex heights and follows the plane through the corners. The triangle object and the static functions agree.",
  "all triangles with integer ordinates (up to 2^24), at any power-of-two scale",
  "Tests check a dozen triangles; all vertex orders and degenerate shapes are quantified.",
  [G + "triangle.rs"], [("determinants and side lengths", G + "triangle.rs")], ["Triangle"])
p("C21", "Octagonal envelopes bound their points and agree with box logic",
  "An octagonal envelope built from or expanded by points, lines, envelopes or other octagons is exactly the least bound in x, y, x+y and x-y of everything included. Intersects and contains, for points and for other octagons, agree with those eight bounds, growing by a distance moves each bound outward correspondingly and null absorbs or is neutral as for boxes. It never excludes a point it was built from.",
  "all octagonal envelopes and finite points",
  "There are no tests for this type at all.",
  [G + "octagonal_envelope.rs"], [("eight running extrema", G + "octagonal_envelope.rs")], ["OctagonalEnvelope"])
p("C22", "Planar and spatial vectors obey vector algebra",
  "Addition, subtraction, negation, scaling, dot product and average act componentwise, quarter-turn rotation is exact and four quarter turns are the identity, and equality is componentwise. Length is non-negative and zero exactly for the zero vector, parallelism and spatial dot products between coordinates agree with the component formulas. Creation from coordinates gives the difference of end point and start point.",
  "all vectors with finite components in the stated domains",
  "Tests check a few operations; sign and argument-order slips survive symmetric samples.",
  [M + "vector_2d.rs", M + "vector_3d.rs"], [("component formulas", M + "vector_2d.rs, " + M + "vector_3d.rs")], ["Vector2D", "Vector3D"])
p("C23", "Scalar helpers: clamping, wrapping, quadrants and positions",
  "Clamping returns the nearest value of the range and minimum/maximum the least/greatest of all arguments; wrapping gives a congruent index of the range (a negative index counting back from the maximum, as documented); ceiling division and averaging are exact. The quadrant of a direction or of two points is the half-open quarter plane it lies in, opposite and common half-plane relations follow the circle of four quadrants, and position opposition is an involution exchanging left and right. Shuffling returns a permutation of the requested range.",
  "all arguments in each function's documented domain",
  "No tests; sign conventions on the axes and range ends are quantified.",
  [U + "math_util.rs", U + "number_util.rs", G + "quadrant.rs", G + "position.rs"], [("case analysis", U + "math_util.rs, " + G + "quadrant.rs, " + G + "position.rs")], ["MathUtil", "Quadrant", "Position"])
p("C24", "Linear systems are solved or reported singular",
  "Solving a square linear system returns a vector satisfying it up to rounding, whatever row exchanges are needed, and reports no solution exactly when the matrix is singular in exact arithmetic (in floating point: whenever elimination is exact, as with a zero or repeated row or column) or the sizes do not fit. It never panics on a non-empty system.",
  "all square systems of integers, rows and columns at any power-of-two scale",
  "No tests; pivoting paths depend on the position of zeros.",
  [M + "matrix.rs"], [("Gaussian elimination with row pivoting", M + "matrix.rs: solve")], ["Matrix::solve"])
p("C25", "Packed sequences hold the same points as coordinate lists",
  "A packed sequence built from coordinates, from raw ordinates or by size reads back exactly the ordinates it was given for its dimension and measures, through every accessor; setting an ordinate changes only that ordinate and is visible through every accessor. Copies are independent and equal, envelopes cover exactly the held points, and closing, reversing, scrolling and comparing packed sequences follow the same rules as coordinate sequences, every ordinate of the dimension included (a closed or extended sequence keeps the ordinates by position).",
  "all packed sequences of any size, of dimension 2 to 4 (XY, XYZ, XYM, XYZM)",
  "Tests build a few packed sequences; index arithmetic by dimension and cached coordinates are quantified over sizes, dimensions and call histories.",
  [I + "packed_coordinate_sequence.rs", I + "packed_coordinate_sequence_double.rs", I + "packed_coordinate_sequence_factory.rs", G + "packed_coordinate_sequences.rs"],
  [("flat array with index arithmetic", I + "packed_coordinate_sequence_double.rs")], ["PackedCoordinateSequenceDouble", "PackedCoordinateSequences"], over=("inputs", "histories"))
p("C26", "Line-line intersection points are exact where representable",
  "The intersection point of two lines is none exactly when they are parallel, identical or degenerate and otherwise lies on both lines (correct to within a few units of rounding); it does not depend on the order of the lines or of the points on each beyond rounding, and each ordinate that is a double is exact in the extended-precision form. Where two segments cross, the point lies in both their boxes. Line-segment intersection is none exactly when the segment lies strictly on one side of the line, and an end of the segment on the line is returned as is. The conditioned, extended-precision and homogeneous computations agree within rounding.",
  "all line pairs with integer ordinates (homogeneous form up to 2^16, conditioned 2^15, extended precision and line-segment 2^24), at any power-of-two scale",
  "Tests check about ten pairs; parallel, axis-parallel and degenerate inputs in all orders are quantified.",
  [A + "intersection.rs", A + "hcoordinate.rs", A + "cg_algorithms_dd.rs"], [("conditioned homogeneous cross products", A + "intersection.rs: intersection, line_segment"), ("extended precision", A + "cg_algorithms_dd.rs: intersection")], ["Intersection", "HCoordinate", "CGAlgorithmsDD::intersection"])
p("C27", "Intersection points carry heights and respect the precision model",
  "A reported intersection point carries a height: an end point lying there with a known height gives it (where ends coincide, one of theirs), an end without height on the other segment takes the other segment's height there, and a proper crossing takes the mean of both segments' heights there or the only one known. A segment's height at a point is exactly an end's at that end, between both in proportion to the distance from the first end otherwise, the only known one where one end has none, and none where neither has. Heights never influence the kind or place of an intersection, and the direction of a segment does not change heights beyond rounding. With a precision model a proper crossing point is the unrounded one made precise, while end points stay exactly as they are.",
  "all pairs of non-degenerate segments with integer ordinates up to 2^20 (at any power-of-two scale) and any known or missing finite heights, all precision models",
  "Tests cover no heights and no precision model; which of four heights are known, which ends touch and in which roles multiply to many hundred cases.",
  [A + "robust_line_intersector.rs", G + "precision_model.rs"], [("height selection and interpolation", A + "robust_line_intersector.rs: get_z, get_z_or_interpolate, z_interpolate_3, z_interpolate_5, copy_with_z"), ("rounding of the crossing point", A + "robust_line_intersector.rs: intersection")], ["RobustLineIntersector::get_intersection"])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
