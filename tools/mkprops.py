"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

ALL = ["orient/planar.py"] + ["orient/core/%s.py" % m for m in
       "box contour event events_queue multipolygon multiregion multisegment polygon processing region segment sweep_line utils".split()]

prop("C01", "Queries compute only through the context the caller passed",
     "When a caller passes a context, every geometric predicate, bounding box, intersection point and constructed geometry a query uses comes from that context, at every depth. The process-wide default context is consulted only when the caller passed none, and then it alone is used.",
     ["inputs", "configurations"], "all queries, all inputs, all contexts",
     "The tests never pass a context, so every use of the default instead of the caller's context is invisible to them.",
     ALL, [("context threading", "orient/planar.py: every query"), ("context parameter of every core function", "orient/core/*.py"),
           ("predicate captured from the context", "orient/core/events_queue.py, orient/core/sweep_line.py")], ["orient.planar.*(context=...)"])
prop("C02", "Queries never modify their arguments",
     "No query changes any object reachable from its arguments - points, vertex lists, hole lists, part lists, the geometries themselves or the context - whatever the geometries are and whatever the query answers.",
     ["inputs"], "all queries, all inputs, all paths",
     "The tests build fresh geometries and compare results only; a write on a rare path leaves every assertion true.",
     ALL, [("inputs are only read; the sweep works on its own event objects", "orient/core/event.py")], ["orient.planar.*"])
prop("C03", "Queries keep no state and read nothing but their arguments",
     "The answer of a query depends only on its arguments (and the default context when none is passed): nothing a query computes is remembered for later calls (no caches, module or class level variables, mutable defaults), and no clock, random source, environment, object identity or hash order influences an answer. Hence queries can be repeated, interleaved or run in parallel threads with the same answers.",
     ["inputs", "histories", "schedules"], "all sequences and interleavings of queries",
     "Each test example makes a few calls in a fixed order; an answer that depends on an earlier call or on hash order needs a history the tests do not produce.",
     ALL, [("all sweep state is created per query", "orient/core/*.py: relate_*"), ("no module level mutable state", "orient/")], ["orient.planar.*"])
prop("C04", "Coordinates are only compared, never converted or approximated",
     "Coordinates of the input geometries influence an answer only through exact comparisons with other coordinates and through operations of the context. No query applies arithmetic, rounding, absolute value, type conversion or a tolerance to a coordinate or to a value computed from coordinates, so exact number types give exact answers.",
     ["inputs"], "all coordinate types and magnitudes",
     "The tests sample small ranges of a few number types; a conversion to float or a tolerance only shows for values closer than its error.",
     ALL, [("comparisons of coordinates", "orient/core/box.py, orient/core/region.py, orient/core/events_queue.py, orient/core/event.py"),
           ("context predicates", "orient/core/*.py")], ["orient.planar.*"])
prop("C05", "Every query answers with a value documented for its pair of kinds",
     "On every path a query returns a member of the set documented for its operand kinds: locations in segments, multisegments and contours are EXTERIOR or BOUNDARY; a linear geometry in a linear one is never COVER, ENCLOSES, ENCLOSED or WITHIN, and EQUAL only if the kinds can be equal; a linear geometry in a region, polygon or collection of them is DISJOINT, TOUCH, CROSS, COMPONENT, ENCLOSED or WITHIN; a compound in a compound one is never CROSS. No query falls off the end or returns anything else.",
     ["inputs"], "all queries, every path through them",
     "The tests check membership for sampled inputs only; a wrong member on a rarely taken branch is not sampled.",
     ALL[:1] + ["orient/core/processing.py", "orient/core/polygon.py", "orient/core/region.py", "orient/core/contour.py", "orient/core/multisegment.py",
                "orient/core/multiregion.py", "orient/core/multipolygon.py"],
     [("result selection", "orient/core/processing.py"), ("translation of sub-results", "orient/core/polygon.py, orient/core/region.py")], ["orient.planar.*"])
prop("C06", "Swapping the operands of a same-kind query complements the answer",
     "For two multisegments, contours, regions, collections of regions, polygons or multipolygons, exchanging the operands gives exactly the complementary relation: DISJOINT, TOUCH, CROSS, OVERLAP and EQUAL stay, COVER/WITHIN, ENCLOSES/ENCLOSED and COMPOSITE/COMPONENT exchange. Neither operand is treated differently from the other anywhere on the way to the answer.",
     ["inputs"], "all pairs of same-kind geometries",
     "The tests swap sampled pairs; asymmetric handling of a rare combination (several holes, shared vertices, partial overlaps) is not sampled.",
     ["orient/core/processing.py", "orient/core/polygon.py", "orient/core/events_queue.py", "orient/core/region.py", "orient/core/multiregion.py",
      "orient/core/multipolygon.py", "orient/core/multisegment.py", "orient/core/contour.py"],
     [("mirrored flags", "orient/core/processing.py"), ("mirrored branches", "orient/core/polygon.py: relate_polygon"),
      ("role-neutral primitives", "orient/core/events_queue.py")], ["orient.planar.*_in_* for equal kinds"])
prop("C07", "A query relates its first argument to its second, never the reverse",
     "X_in_Y(x, y) answers how x lies in y: COMPONENT, ENCLOSED and WITHIN mean x is the contained one, COMPOSITE, ENCLOSES and COVER mean y is. The roles are kept through every internal step, whichever operand is walked or swept first, and for every one of the queries.",
     ["inputs"], "all queries",
     "Mixed-kind queries have no swapped counterpart to compare with, and symmetric answers hide exchanged roles.",
     ALL, [("argument order", "orient/planar.py"), ("role flags given at registration", "orient/core/*.py: register(..., from_test=...)"),
           ("directional results", "orient/core/processing.py")], ["orient.planar.*"])
prop("C08", "Bounding-box and extent shortcuts never change an answer",
     "Work is skipped only when it cannot matter: two boxes count as disjoint exactly when they share no point (boxes that touch in an edge or corner are not disjoint), the boxes compared are those of the geometries concerned, the sweep never stops before the smaller of the two operands' right extents, and events exactly at that extent are still processed. Parts of a collection that are skipped because of their box still count as parts the other operand does not cover.",
     ["inputs"], "all positions of the operands' boxes relative to each other",
     "Random geometries rarely touch exactly at box edges, corners or extents, and the skipped parts only matter for special relations of the rest.",
     ["orient/core/box.py", "orient/core/events_queue.py", "orient/core/region.py", "orient/core/contour.py", "orient/core/multisegment.py",
      "orient/core/multiregion.py", "orient/core/polygon.py", "orient/core/multipolygon.py", "orient/core/processing.py"],
     [("box test", "orient/core/box.py"), ("stop coordinate", "orient/core/*.py: process_*_queue calls"), ("loop end", "orient/core/events_queue.py: sweep"),
      ("none_disjoint corrections", "orient/core/multiregion.py, orient/core/multipolygon.py")], ["orient.planar.*"])
prop("C09", "Every part of both operands takes part in the answer",
     "Whenever an answer is decided by sweeping, all edges of both operands are fed to the sweep exactly once under the right role: every segment, every contour edge including the closing one, the border and every hole of every polygon, every region and every part that was not excluded by its box. No part is fed twice, left out or attributed to the other operand.",
     ["inputs"], "all numbers of vertices, holes and parts",
     "A part dropped only for certain counts or positions (the last hole, the closing edge, a second part) changes few of the sampled answers.",
     ["orient/core/contour.py", "orient/core/region.py", "orient/core/multisegment.py", "orient/core/multiregion.py", "orient/core/polygon.py",
      "orient/core/multipolygon.py", "orient/core/events_queue.py"],
     [("edge producers", "orient/core/*.py: to_*"), ("registration", "orient/core/*.py: register")], ["events queue contents at the start of a sweep"])
prop("C10", "Answers do not depend on vertex order, start vertex or edge direction",
     "Listing a contour clockwise or counterclockwise, starting it at another vertex, or exchanging the end points of a segment never changes an answer. The side of an edge on which the interior lies is derived from the contour's geometry: the interior is on the left of border edges and holes are taken the opposite way round.",
     ["inputs"], "all listings of the same geometry",
     "The tests reverse and rotate sampled geometries, which seldom combine a reflex vertex, a given start vertex and a segment ending there.",
     ["orient/core/contour.py", "orient/core/region.py", "orient/core/multiregion.py", "orient/core/polygon.py", "orient/core/multipolygon.py", "orient/core/event.py", "orient/core/multisegment.py"],
     [("orientation and oriented edges", "orient/core/contour.py"), ("event normalisation", "orient/core/event.py: from_endpoints"),
      ("hole direction", "orient/core/polygon.py: to_oriented_edges_endpoints"), ("vertex neighbourhood", "orient/core/region.py: relate_segment")], ["orient.planar.*"])
prop("C11", "End points are processed in one fixed, strict order",
     "The sweep takes end points from left to right and, on equal x, from bottom to top; at one point all right ends come before all left ends, and among ends of the same kind the lower segment comes first (of two collinear ones, always the one of the same operand). The order is strict: no two distinct end points of valid operands are each before the other.",
     ["inputs"], "all pairs of end points, hence all heap histories",
     "A wrong order among coincident end points shows only in configurations with several edges through one vertex, which random inputs rarely have.",
     ["orient/core/events_queue.py"], [("queue key", "orient/core/events_queue.py: EventsQueueKey"), ("heap", "orient/core/events_queue.py: EventsQueue")], ["order of processed events"])
prop("C12", "Segments on the sweep line are ordered by height, strictly",
     "Two segments on the sweep line that do not cross are ordered by which lies lower over their common x-range; segments that share a start are ordered by their direction, and of two collinear ones always the one of the same operand comes first. The order is strict and antisymmetric for every mutual position, so neighbours are found and segments can be removed again.",
     ["inputs"], "all mutual positions (order types) of two segments with a common x-range",
     "Each of the many sign combinations of four orientations needs its own configuration; random inputs reach few of the degenerate ones.",
     ["orient/core/sweep_line.py"], [("sweep line key", "orient/core/sweep_line.py: SweepLineKey"), ("neighbour queries", "orient/core/sweep_line.py: SweepLine")], ["neighbours seen by the sweep"])
prop("C13", "Splitting a segment loses nothing and keeps its history",
     "When the sweep splits a segment at a point, the two pieces together cover exactly the original, meet in that point, and each keeps the operand it came from, the side of the interior, the contact found so far and the original end points. Both new ends are queued, so each piece is swept once.",
     ["inputs"], "all split points, any number of successive splits",
     "A field lost in a split only matters if a later contact happens on that very piece; tests observe the final relation only.",
     ["orient/core/event.py", "orient/core/events_queue.py"], [("split", "orient/core/event.py: divide"), ("queueing of the pieces", "orient/core/events_queue.py: _divide_segment")], ["events produced by a split"])
prop("C14", "Contacts between neighbouring segments are split out exactly",
     "When two segments on the sweep line meet, each is split at the meeting point unless the point is its own end; when they run along each other, both are split so that the shared stretch is a separate piece of each, whatever the order of their four end points, and no piece is split elsewhere. Shared stretches starting together are marked as running the same or the opposite way according to the sides of the interiors, and edges of one operand that are examined against each other and turn out to overlap are rejected with ValueError.",
     ["inputs"], "all order types of two segments in contact",
     "Partial overlaps with prescribed order of ends are rare among random inputs; the tests never pass self-overlapping operands.",
     ["orient/core/events_queue.py"], [("contact handling", "orient/core/events_queue.py: detect_intersection (both sweeps)")], ["pieces after a contact"])
prop("C15", "Inside and outside are inherited correctly from the segment below",
     "A boundary piece counts as inside the other operand exactly if the region just below it, on the side it faces, belongs to that operand: directly above an edge of the other operand it takes that edge's interior side, above an edge of its own operand it takes over what that edge had, and with nothing below it is outside. Pieces lying on the other operand's boundary are neither inside nor outside, and are told apart by running the same or the opposite way.",
     ["inputs"], "all stackings of edges of the two operands",
     "A wrong inheritance shows only for particular stackings (several parts, holes, shared stretches).",
     ["orient/core/events_queue.py", "orient/core/event.py"], [("position", "orient/core/events_queue.py: compute_position"), ("derived tests", "orient/core/event.py: inside, outside, is_common_*")], ["classification of processed edges"])
prop("C16", "All contacts at a common point are classified, pair by pair",
     "At each point where swept pieces start or end, every pair of pieces from different operands is classified - coinciding, proper crossing when neither piece has an original end there, touching otherwise - and each piece keeps the strongest contact it ever had, coincidence being final. Pieces of the same operand are never classified against each other, and every piece is reported at each of its ends.",
     ["inputs"], "any number of pieces meeting in a point, in any order",
     "More than two edges through a point and the order in which they arrive are not controlled by random generation.",
     ["orient/core/events_queue.py"], [("pairwise classification", "orient/core/events_queue.py: complete_events_relations"), ("grouping", "orient/core/events_queue.py: sweep")], ["relations of reported pieces"])
prop("C17", "Linear geometries cross at a shared vertex exactly if their rays interleave",
     "Where several edges of two linear geometries meet in one point, they are classified as crossing exactly if the edges of one do not all lie in a single sector between neighbouring edges of the other. The classification does not depend on the order of the edges, on which operand is which or on their directions.",
     ["inputs"], "all cyclic arrangements of the edges at a point",
     "Needs two or more edges of each operand through one point; the arrangement that separates correct from incorrect handling has three or more.",
     ["orient/core/events_queue.py", "orient/core/contour.py", "orient/core/multisegment.py", "orient/core/region.py"],
     [("crossing angles", "orient/core/events_queue.py: detect_crossing_angles"), ("pass through a vertex", "orient/core/contour.py: relate_segment; orient/core/multisegment.py: relate_segment; orient/core/region.py")], ["TOUCH versus CROSS answers"])
prop("C18", "The verdict of a sweep follows from the kinds of pieces it met, not their order",
     "The relation reported after a sweep is determined by which kinds of pieces occurred for each operand (inside, outside, shared with equal or opposite sides, touching, crossing, left unswept beyond the other's extent), in accordance with the definition of the relations, and by nothing else: not by their number and not by the order in which they were met. Pieces left unswept count as lying outside the other operand.",
     ["inputs", "histories"], "all sequences of pieces of any length",
     "The kinds form hundreds of combinations and any order; tests reach the common ones.",
     ["orient/core/processing.py"], [("folds over the swept pieces", "orient/core/processing.py")], ["return values of the sweep processing"])
prop("C19", "Polygon answers combine border and hole relations by set algebra",
     "For a polygon with holes, the relation of a point, segment, contour, region, collection of regions or polygon follows from its relations to the border and to the holes as the set \"border minus hole interiors\" requires, for every combination of those relations and any number of holes in any order. Being strictly inside a hole is being outside the polygon, touching a hole is touching the polygon's boundary, and covering a hole is overlapping the polygon.",
     ["inputs"], "all combinations of border and hole relations, any number and order of holes",
     "There are hundreds of combinations (of up to eleven relations each); random polygons with matching holes reach few of them.",
     ["orient/core/polygon.py"], [("combination tables", "orient/core/polygon.py: locate_point, relate_*")], ["orient.planar.*_in_polygon"])
prop("C20", "Point location follows the even-odd rule with exact boundaries",
     "A point is on the BOUNDARY of a contour-bounded geometry if any edge contains it, otherwise INTERIOR or EXTERIOR according to the parity of crossed edges, where an edge is crossed for exactly one of the two half-open ways its ends can lie about the point's level; the direction of edges is irrelevant. A point of a collection is located by the first part that does not have it in its exterior, and linear geometries have no interior.",
     ["inputs"], "all points, including those level with vertices and on edges",
     "Points exactly level with vertices, on horizontal edges or on parts beyond the first are rarely sampled.",
     ["orient/core/region.py", "orient/core/polygon.py", "orient/core/multiregion.py", "orient/core/multipolygon.py", "orient/core/contour.py", "orient/core/multisegment.py", "orient/core/segment.py"],
     [("ray crossing", "orient/core/region.py: _locate_point"), ("scan over parts", "orient/core/multi*.py: locate_point")], ["orient.planar.point_in_*"])
prop("C21", "Contours are recognised as equal up to start vertex and direction",
     "Two contours are considered equal exactly if they have the same vertices in the same cyclic order, in either direction and from any start vertex; every vertex is compared. Contours that differ in number, set or cyclic order of vertices are never considered equal.",
     ["inputs"], "all numbers of vertices, all rotations and directions",
     "The index arithmetic has a case per direction and offset; unequal contours sharing most vertices are not sampled.",
     ["orient/core/contour.py"], [("alignment and comparison", "orient/core/contour.py: equal")], ["EQUAL/COMPONENT answers of contour and region queries"])
prop("C22", "The sweep examines every pair of segments that become neighbours",
     "Each segment enters the sweep line once, when its left end is reached, and leaves it at its right end; on entering it is examined against both neighbours, and on leaving the two segments that become neighbours are examined against each other. Inside/outside of a segment is settled when it enters and again for segments found to start together, each group of ends at one point is completed before the next point is processed, including the last group, and the sweep goes on to the agreed extent.",
     ["inputs", "histories"], "all sequences of events",
     "A neighbour pair examined too seldom only matters if exactly that pair meets next; tests see only final answers.",
     ["orient/core/events_queue.py", "orient/core/sweep_line.py"], [("event loop", "orient/core/events_queue.py: sweep (both)"), ("neighbours", "orient/core/sweep_line.py: above, below")], ["calls made while sweeping"])
prop("C23", "Segment relations to chains of edges accumulate over all edges",
     "The relation of a segment to a contour, a multisegment or a region's border follows from its relations to all their edges, independently of the edges' order and directions: part of one edge or of consecutive collinear edges means COMPONENT, shared stretches mean OVERLAP, COMPOSITE or EQUAL according to what is left over, otherwise crossing any edge means CROSS and meeting any means TOUCH. A segment with both ends on a region's boundary is placed inside or outside by the side to which it leaves the boundary, at convex and reflex vertices alike.",
     ["inputs"], "all edge counts, orders and relation patterns",
     "Reflex vertices, collinear chains and the closing edge need matching segments that random generation rarely produces.",
     ["orient/core/contour.py", "orient/core/multisegment.py", "orient/core/region.py"],
     [("edge loops", "orient/core/contour.py: relate_segment, orient/core/multisegment.py: relate_segment, orient/core/region.py: relate_segment")], ["orient.planar.segment_in_*"])
prop("C24", "Operands and contexts are used only through their interfaces",
     "Queries work with any classes that implement ground's protocols: of an operand they use only the documented attributes (x and y of points, start and end, segments, vertices, border and holes, polygons), its lists only as sequences (iteration, indexing, slicing, length, index, count), and of the context only public members. They never test or use the type of an operand, compare or hash geometries other than points, or rely on what only lists or only ground's own classes offer.",
     ["inputs", "configurations"], "all queries, all geometry classes and contexts",
     "The tests use one family of geometry classes with plain lists; anything these classes happen to offer works for them.",
     ALL, [("attribute access on operands", "orient/core/*.py"), ("vertex lists", "orient/core/contour.py, orient/core/region.py")], ["orient.planar.*"])
prop("C25", "Queries need a bounded stack, whatever the size of the operands",
     "No function of the package is ever active twice within one query, directly, through other functions, callbacks or chained generators: walking vertices, parts, holes and events is done by loops, so geometries with many thousands of vertices never exhaust the stack.",
     ["inputs"], "all sizes of operands",
     "The tests use small geometries, for which recursion per vertex or per event is unnoticeable.",
     ALL, [("loops over vertices, parts and events", "orient/core/*.py")], ["orient.planar.*"])
prop("C26", "Errors of the context or of coordinates never become answers",
     "When an operation of the context or a comparison of coordinates fails (an arithmetic, type or memory error, an interrupt, an error of its own), the query fails as well: it never swallows the error and returns an answer computed without it. ValueError, KeyError and IndexError, with which lookups signal absence, are excepted.",
     ["inputs", "fault_sequences"], "all places where an error can arise",
     "The tests only use a context and coordinates that never fail.",
     ALL, [("handlers", "orient/core/sweep_line.py, orient/core/contour.py, orient/core/multisegment.py")], ["orient.planar.*"])
prop("C27", "Queries on valid operands raise nothing",
     "On valid operands, however they are positioned and listed, no query raises an exception: no lookup misses, no iterator is exhausted unexpectedly, and the ValueError kept for overlapping edges of one operand is never raised for valid ones, also after segments were split at computed points.",
     ["inputs"], "all valid operands",
     "An exception on a rare combination of positions needs exactly that combination.",
     ALL, [("lookups", "orient/core/contour.py: equal; orient/core/multisegment.py: relate_segment; orient/core/sweep_line.py"),
           ("rejection of overlapping edges", "orient/core/events_queue.py: detect_intersection")], ["orient.planar.*"])
# C31 is not decidable by this family
prop("C30", "Answers equal the point-set relation of the operands",
     "For all valid operands every query answers the relation that the definition of the relations gives for the operands as point sets.",
     ["inputs"], "all valid operands",
     "The tests check metamorphic relations on samples only; no independent oracle is used.",
     ALL, [("every query and what it calls", "orient/planar.py, orient/core/*.py")], ["orient.planar.*"])
prop("C31", "Query cost stays within the documented bounds",
     "Every query needs no more time and memory than the asymptotic bounds its documentation states.",
     ["inputs"], "all input sizes", "The tests use small inputs and have no deadline.",
     ALL, [("sweep instead of pairwise comparison", "orient/core/events_queue.py")], ["orient.planar.*"])
prop("C32", "Every query on valid operands terminates",
     "Every query on valid operands returns after finitely many steps; the sweep processes finitely many events.",
     ["inputs"], "all valid operands", "Sampling cannot exclude non-termination.",
     ALL, [("splits strictly shorten pieces", "orient/core/events_queue.py")], ["orient.planar.*"])
prop("C33", "Mapping both operands alike never changes an answer",
     "Moving, scaling, stretching, mirroring, turning or shearing both operands by the same exact affine map, including exchange of the axes, gives the same answer: no direction, position, size or sign of coordinates is special.",
     ["inputs"], "all affine maps",
     "The tests exchange the axes of sampled inputs at most; a special case for one direction (vertical edges, the leftmost vertex, negative coordinates) survives them.",
     ALL, [("order of events and of the sweep line", "orient/core/events_queue.py, orient/core/sweep_line.py"),
           ("orientation and neighbourhoods", "orient/core/contour.py, orient/core/region.py")], ["orient.planar.*"])
prop("C34", "Different queries about the same point sets agree",
     "The same points presented as different kinds get the same answers from the respective queries: a segment and its two halves, a contour and its edges as a multisegment, a region and a polygon without holes, a collection of regions and a multipolygon without holes, parts and holes in any order. The relation of a geometry also agrees with the locations of its vertices (nothing DISJOINT has a vertex on the other, everything WITHIN has all vertices in the INTERIOR, and so on).",
     ["inputs"], "all operands and presentations",
     "Each query has its own implementation of loops, shortcuts and special cases; tests compare few pairs of them on samples.",
     ALL, [("separate implementations", "orient/core/*.py")], ["orient.planar.*"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
