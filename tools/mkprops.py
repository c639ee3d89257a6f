#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["include/poly_ops/" + f if not f.startswith("py/") else f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))


CL = "include/poly_ops/clip.hpp"
OF = "include/poly_ops/offset.hpp"
LI = "include/poly_ops/large_ints.hpp"

p("C01", "Boolean operations produce exactly the region the operation defines",
  "For every pair of polygon sets, the union, intersection, xor and difference results cover exactly the points for which the operation holds of 'winds at least once around the point' in the subject set and in the clip set, up to the displacement caused by rounding new points to integer coordinates. This holds for self-intersecting, overlapping, touching, nested and oppositely oriented loops alike, for coordinates whose differences the coordinate type and its real type can hold exactly.",
  ["inputs"], "every finite set of subject and clip loops, every operation, every coordinate and index type",
  "the bitmap tests draw a few fixed and some randomly generated polygons; degenerate contacts (shared edges, vertices on edges, coincident vertical lines) are a combinatorial space they touch only by chance",
  ["clip.hpp", "sweep_set.hpp"], [("sweep that splits lines", CL + " self_intersection/check_intersection"), ("line balance", CL + " line_balance::check/result, calc_line_bal"), ("rewiring of kept and dropped runs", CL + " follow_balance, do_op")],
  ["clipper::execute", "boolean_op", "union_op"], [("lpoints", "all points and their next links", CL)])
p("C02", "Normalizing keeps every line and fills by the even-odd rule",
  "For every set of loops, the normalize operation returns loops that cover exactly the points around which the input winds an odd number of times, up to coordinate rounding (same limits on coordinates as C01). No part of any input line is dropped or duplicated: the result consists of the input's lines, possibly split and re-directed.",
  ["inputs"], "every finite set of loops, including self-overlapping ones",
  "tests use a few shapes and compare bitmaps only; lines lost in zero-area overlaps are invisible to a bitmap",
  ["clip.hpp"], [("line balance for normalize", CL + " line_balance::result"), ("virtual points for reversed runs", CL + " follow_balance")], ["clipper::execute(normalize)", "normalize_op"])
p("C03", "Result lines never cross, whatever way roundings fall",
  "For every input and every outcome of the rounding decisions made while splitting lines, no two lines of the result cross: they may only touch at shared endpoints or overlap completely. The operation always terminates, and the result keeps covering the defined region up to rounding.",
  ["inputs", "schedules"], "every input and every sequence of internal rounding choices",
  "rounding choices come from a pseudo-random generator with a fixed seed, so a test sees one sequence per input out of exponentially many",
  ["clip.hpp", "base.hpp"], [("re-inserting split segments and backing up the sweep", CL + " split_segment, events_t"), ("rounding choice", CL + " intersects, rand_bool")], ["clipper::execute"], hook="POLY_OPS_VERIF_RAND_BOOL")
p("C04", "Results are canonical: no empty edges, winding 0 or 1, stable",
  "Every loop of a result has no two equal consecutive points, and the loops of a result together wind exactly once around each covered point and zero times around every other, so outer boundaries and holes have opposite fixed orientations. Where no lines of the result coincide, loops that meet in a point only touch there: they do not cross each other or themselves. A result whose lines do not coincide is a fixed point: passing it through union or normalize again gives exactly the same directed lines.",
  ["inputs"], "every input and operation; second passes over every result",
  "tests render results with a winding-insensitive comparison of a few shapes and never feed a result back",
  ["clip.hpp"], [("orientation of kept runs", CL + " line_balance::result, follow_balance"), ("reconnecting at the sharpest turn", CL + " do_op")], ["clipper::execute"])
p("C05", "The hierarchy lists each loop under exactly the loops enclosing it",
  "When hierarchical output is requested, every loop of the result appears exactly once, and its ancestors are exactly the loops that strictly enclose it, so outer boundaries and holes alternate by depth. The loops themselves are the same as those of the flat output (where result lines coincide completely only the covered region and the absence of losses are guaranteed).",
  ["inputs"], "every input and operation, any nesting depth and insertion order",
  "the nesting test has one shape; orders, depths, touching holes and crossing sets multiply",
  ["clip.hpp"], [("anchor points and hits", CL + " do_op, insert_anchor_point"), ("arranging loops by containment", CL + " loop_hierarchy, arrange_loops")], ["clipper::execute<true>", "inner_loops()"])
p("C06", "Point tracking reports every point's creation and fate consistently",
  "A point tracker's callbacks describe exactly the points of the operation: points are announced in index order with the number of the input point they stem from, a split names the two ends of the line it splits, and every point is either part of the result or reported as merged into the point following it, exactly once. Consequently the origin set attached to each result point contains the originals of that point and of the dropped points leading to it, and only existing original numbers ever appear.",
  ["inputs", "histories"], "every input, operation and sequence of operations on one object",
  "one Python test tracks one offset shape; merge chains through dropped and reversed runs depend on the intersection pattern",
  ["clip.hpp", "offset.hpp", "mini_flat_set.hpp"], [("point_added/new_point_between/point_merge calls", CL + " point_sink, split_segment, follow_balance"), ("origin sets", OF + " origin_point_tracker")], ["i_point_tracker callbacks", "tracker value of result points"])
p("C07", "Duplicate points, closing points and degenerate loops change nothing",
  "Repeating a point consecutively, repeating the first point at the end, or adding loops with fewer than three distinct consecutive points never changes the result: it is identical to that of the cleaned input. Loops are independent of each other, whatever points their neighbours in the input start or end with.",
  ["inputs"], "every placement of repeated points and degenerate loops, every order of loops",
  "tests have one deliberately malformed input; the interaction depends on adjacency of loops in the input sequence",
  ["clip.hpp"], [("delayed insertion of points", CL + " point_sink")], ["clipper::add_loops", "clipper::add_loop", "clipper::execute"])
p("C08", "A reused object behaves like a new one after any history",
  "Whatever sequence of adding loops, executing, resetting and reading results a clipping object has gone through, the next operation gives exactly what a newly created object would give for the same loops. Loops added before a reset or before the preceding execution never influence later results, and executing with no loops gives an empty result.",
  ["histories"], "every call sequence up to the bound over a small alphabet of loops and operations, tracked and untracked",
  "tests create a new object per operation or reuse it once",
  ["clip.hpp", "offset.hpp", "sweep_set.hpp"], [("reset of all state", CL + " clipper::reset, add_loop, execute, do_op")], ["clipper", "tclipper", "point_sink"], [("ran", "whether the object holds consumed input", CL), ("_next_orig_i", "number of the next input point", CL)])
p("C09", "Results do not depend on presentation, types or entry point",
  "Up to the rounding of new points, the covered region does not depend on the order of loops, the starting point of each loop or a translation of the whole input. As long as the same rounding choices are made, the result is identical for every coordinate and index type wide enough for the input, for every accepted kind of input range, and for the free functions and class interfaces.",
  ["inputs", "configurations"], "every input under every loop order, rotation, translation and type combination in the bound",
  "tests fix one type combination and one presentation per shape",
  ["clip.hpp", "base.hpp", "large_ints.hpp"], [("events order", CL + " events_t"), ("coordinate arithmetic", "include/poly_ops/base.hpp coord_ops")], ["clipper", "union_op", "normalize_op", "boolean_op"])
p("C10", "Offsetting closed shapes moves boundaries by the requested distance",
  "For a positive magnitude, the result of offsetting clockwise-oriented closed shapes covers every point nearer to the shape than the magnitude less the permitted arc deviation, and no point farther than the magnitude, up to rounding. For a negative magnitude the result covers only points of the shape at least that far from its boundary, and all points clearly farther than that. Every entry point, operand set and kind of range gives the same points.",
  ["inputs"], "every simple closed polygon in the bound, both signs, all magnitudes and arc step sizes in the bound",
  "tests compare two or three hand-drawn shapes and magnitudes",
  ["offset.hpp"], [("moved lines and arcs", OF + " add_offset_point, _add_offset_closed")], ["offset", "add_offset"])
p("C11", "Offset points are attributed to the input points they stem from",
  "When offsetting with tracking, each generated boundary point is attributed to the number of an input point at its source position, with input points numbered consecutively over all ranges added, duplicates included. This holds whatever duplicates the input has, for closed, open and single-point inputs, and numbering continues correctly for loops added afterwards. Every entry point that takes a tracker reports to it identically.",
  ["inputs", "histories"], "every placement of duplicates, every mix of closed, open, single-point and plain loops added in sequence",
  "the one tracked offset test has no duplicates and one loop",
  ["offset.hpp"], [("numbering while offsetting", OF + " _add_offset_closed, _add_offset_open, offset_lone_point")], ["tracker value of result points", "next_orig_i()"])
p("C12", "Offsetting open lines and single points gives the thickened shape",
  "Offsetting an open line covers every point nearer to the line than the magnitude less the permitted arc deviation and no point farther than the magnitude, on both sides and around both ends. Offsetting a single point gives a disc approximated with at least three points for every magnitude and arc step size, and an empty range gives nothing. Every entry point, operand set and kind of range gives the same points.",
  ["inputs"], "every polyline up to the bound incl. repeated points and retraced segments, every magnitude and step size in the bound",
  "tests have one open line and one point with one step size",
  ["offset.hpp"], [("walk there and back", OF + " _add_offset_open"), ("circle", OF + " offset_lone_point")], ["offset(closed=false)", "add_offset"])
p("C13", "Wide integer arithmetic and comparison are exact",
  "Addition, subtraction, negation, multiplication, shifts, absolute values and comparisons of multi-word integers, signed or unsigned, with each other and with built-in integers, equal the mathematical result modulo the width of the result type, for every operand, with and without compiler-specific arithmetic. Products are exact: their type is always wide enough.",
  ["inputs", "configurations"], "every operand, widths, mixed widths and both arithmetic back ends",
  "tests use a handful of constants and few widths; carries out of several words with extreme words are missed",
  ["large_ints.hpp"], [("carry chains", LI + " _addcarry/_subborrow/_mul")], ["compound_int operators", "add, sub, mul, cmp, eq, shift_left, shift_right, abs, countl_zero"])
p("C14", "Wide integer division and conversion are exact",
  "Division of multi-word integers yields the mathematical quotient and remainder, rounded towards zero or (in the other mode) towards minus infinity with the distance as the remainder, whenever the quotient fits, and converting between widths, from and to built-in integers and to floating point preserves the value (or its truncation or nearest representable value). A literal with the suffix for wide integers has the value that is written, in a type wide enough to hold it.",
  ["inputs", "configurations"], "every dividend, divisor and width in the bound, both arithmetic back ends",
  "tests divide a handful of constants",
  ["large_ints.hpp"], [("word-by-word division", LI + " unmul, divmod"), ("conversions", LI + " compound_xint::to, casts")], ["unmul", "divmod", "conversions"])
p("C15", "Orientation predicates are exact up to the limits of the coordinate type",
  "The orientation test of three points returns exactly twice the signed area of their triangle (positive when clockwise), for every coordinate type, as long as the differences of the coordinates can be represented in that type. The winding direction of a loop is exactly twice its signed area, for every starting point, repetition of points and accepted kind of range, as long as sums and differences of its coordinates can be represented; an empty range gives zero.",
  ["inputs"], "every triple and loop over an alphabet with the extremes of each coordinate type",
  "tests do not use extreme coordinates", ["base.hpp", "large_ints.hpp"], [("wide products", "include/poly_ops/base.hpp triangle_winding, winding_dir, winding_dir_sink")], ["triangle_winding", "winding_dir", "winding_dir_sink"])
p("C16", "Rasterizing reports exactly the winding along every pixel row",
  "Scanning shapes into rows yields, row by row from top to bottom and within a row from right to left, one span with its winding number for every gap between neighbouring lines of that row around which the shapes wind, from one crossing position to the next (truncated to whole columns and clamped to the canvas), and nothing else; shapes off the canvas yield nothing. A rasterizer gives the same output after any history of reuse, and the drawing helper fills exactly the spans its fill rule selects.",
  ["inputs", "histories"], "every set of shapes over the grid in the bound, incl. off-canvas points, shared, coincident and crossing edges, crossings exactly on rows and of several lines",
  "tests draw a few shapes and otherwise use the rasterizer as an oracle for other tests",
  ["polydraw.hpp"], [("active edge sweep", "include/poly_ops/polydraw.hpp scan_lines, events_t, swap_and_check")], ["rasterizer::scan_lines", "draw"])
p("C17", "The ordered container of active lines stays ordered and complete",
  "After any sequence of insertions (by order or before a given item), removals and clearing, the container that holds the active lines of a sweep contains exactly the items inserted and not removed, in order, each found by iterating forward from the first or backward from the end, and stays a balanced tree. Inserting an item equal to a member changes nothing and reports that member; removing one reports its successor; items know whether they are members.",
  ["histories"], "every operation sequence reachable over a bounded set of items",
  "tests only use it inside complete operations, whose sweeps rarely exercise removal of every kind of node", ["sweep_set.hpp", "rbtree_algorithms.hpp"], [("red-black tree", "include/poly_ops/rbtree_algorithms.hpp"), ("header node in the shared store", "include/poly_ops/sweep_set.hpp")], ["sweep_set"])
p("C18", "Small sets of point numbers behave as mathematical sets",
  "After any sequence of inserting values and merging sets, a set of origin numbers contains exactly the inserted values, each once, in order, whichever of its storage forms it passes through, and merging, moving or clearing never leaks or shares storage.",
  ["histories"], "every operation sequence up to the bound over small values and several sets",
  "no test covers it directly", ["mini_flat_set.hpp"], [("inline and heap storage", "include/poly_ops/mini_flat_set.hpp")], ["mini_flat_set", "mini_set_proxy_vector"])
p("C19", "A failed allocation is reported and leaves the object usable",
  "If a memory allocation fails, alone or with all later ones, while an object is made, shapes are added (by range or point by point) or offset, an operation is executed or rows are scanned, the failure is reported as an exception (never by ending the program) or changes nothing, nothing is leaked or accessed out of bounds, and the object can be reused: after a reset, and after a failed execution also without one, the next operation gives the correct result, and without a tracker a shape whose addition failed is simply not there and can be added again.",
  ["fault_sequences"], "every single failing allocation of every scenario in the bound",
  "no test injects allocation failures", ["clip.hpp", "offset.hpp", "polydraw.hpp"], [("containers over memory resources", CL), ("adding points", CL + " point_sink; include/poly_ops/polydraw.hpp point_sink")], ["clipper", "tclipper", "execute", "rasterizer", "memory_resource argument"])
p("C20", "No input makes the library read or write outside its data",
  "No sequence of loops, however degenerate, makes any operation (boolean operations, offsetting, rasterizing, reading results) access memory outside its own or already released, overflow signed arithmetic, trip an internal consistency check, or never end, as long as differences of coordinates can be represented; all memory obtained from the supplied memory resource is returned to it exactly as it was obtained.",
  ["inputs", "histories"], "every degenerate input in the bound, under memory and arithmetic checkers and with internal checks on",
  "tests run without checkers on well-formed shapes", ["clip.hpp", "offset.hpp", "polydraw.hpp", "base.hpp"], [("internal checks", CL + " POLY_OPS_ASSERT, POLY_OPS_ASSERT_SLOW"), ("containers over memory resources", CL)], ["all public entry points"])
p("C21", "The Python binding returns what the C++ library returns",
  "For every supported argument form (arrays of any integer or float dtype and memory layout, nested sequences, iterables, casting and dtype options), the Python functions and classes give the same loops, hierarchy, tracked origins and orientation as the underlying library, or raise the documented exception; failing calls leave objects usable and leak no references.",
  ["inputs", "configurations", "histories"], "every function and class method over the product of argument forms, dtypes and flags",
  "the Python tests use one array form and few flag combinations", ["py/_polyops.pyx", "py/common.pxd"], [("conversion and dispatch", "py/_polyops.pyx")], ["polyops.*"])
p("C22", "Result ranges can be read in every way a range allows",
  "Result ranges, the loops in them and their inner loops can be traversed forward with any mixture of the iterator operations, repeatedly and from copies, always giving the same points in the same order, with sizes equal to the number of elements visited. Owned results stay valid after the object that made them is gone, however they are moved.",
  ["histories", "inputs"], "every sequence of iterator operations up to the bound on results of several shapes",
  "tests only use range-for", ["clip.hpp"], [("loop iterator and range facades", CL + " proto_loop_iterator, temp_polygon_proxy")], ["temp_polygon_range", "temp_polygon_tree_range", "proto_loop_iterator"])
p("C23", "Strided views visit exactly the strided elements",
  "A strided view over a buffer has exactly the stated number of elements, and element i is the one i strides from the start, for every stride including negative and zero, under every mixture of iterator arithmetic and comparison.",
  ["inputs", "histories"], "every stride, length and sequence of iterator operations up to the bound",
  "no test uses it directly; Python only traverses forward", ["strided_itr.hpp"], [("pointer arithmetic", "include/poly_ops/strided_itr.hpp")], ["strided_itr", "strided_range"])
p("C24", "Objects in use at the same time do not affect each other",
  "Operations on different objects give the same results, origins and callbacks as each of them alone, whichever way they are mixed: steps of several objects interleaved in one thread, also over one shared memory resource, a whole operation run inside a callback, range, memory resource or coordinate operation that another one is calling, or objects in different threads.",
  ["schedules", "histories"], "every interleaving, every point of nesting and every schedule of two threads up to a bound on preemptions",
  "no test has two objects in use at once", ["clip.hpp", "offset.hpp", "polydraw.hpp", "mini_flat_set.hpp"], [("no shared state between objects", CL), ("offsetting works while points are added", "include/poly_ops/offset.hpp add_offset")], ["clipper", "tclipper", "offset", "rasterizer"])
p("C25", "A user's own coordinate class gives the results of a built-in one",
  "A class that has the operations the coordinate concept asks for, with its own coord_ops, can be used with every clipping and offsetting entry point, tracked or not, flat or hierarchical, and gives exactly the results that a built-in integer of the same range gives.",
  ["inputs", "configurations"], "every shape in the bound through every entry point, in two coordinate types",
  "tests only use built-in coordinates", ["base.hpp", "clip.hpp", "offset.hpp"], [("coordinate concept and coord_ops", "include/poly_ops/base.hpp"), ("arithmetic through coord_ops", CL)], ["coord_ops", "clipper", "offset"])

p("C26", "Points behave as vectors, and conversions and rounding are exact",
  "The operators of point_t work element by element for every mixture of coordinate types, in the type the language gives the result. Points convert from and to every point-like value without change, compare equal exactly when both coordinates do, and point_less is a strict total order. vdot, square, vmag, vangle and perp_vector give the dot product, squared length, length (rounded), an angle that is never NaN, and a vector of the asked length at a right angle and on the fixed side. vround, coord_ops and mul round to nearest and compute exactly in the types they name.",
  ["inputs", "configurations"], "every pair of points and scalars of every pair of coordinate types",
  "tests use points of one type with small coordinates", ["base.hpp"], [("point operators", "include/poly_ops/base.hpp point_t"), ("rounding and wide products", "include/poly_ops/base.hpp coord_ops, vround")], ["point_t", "point_ops", "coord_ops", "point_less"])
p("C27", "A user's own exceptions pass through and leave nothing behind",
  "When code of the user that the library calls (ranges, points, trackers, a coordinate class's arithmetic, drawing functions) throws, exactly that exception reaches the caller, all memory is returned, a loop or point whose addition failed is not part of any later result, and the object gives the results of a new one after reset, or after the failed operation ended, and can be destroyed at any time.",
  ["inputs", "fault_sequences"], "every scenario in the bound and every single call of code of the user in it, throwing once or from there on",
  "no test throws from a callback, and the states between two calls of user code number in the thousands per operation", ["clip.hpp", "offset.hpp", "polydraw.hpp", "mini_flat_set.hpp"], [("incomplete loops are discarded", CL + " clipper::point_sink"), ("scopes that undo", CL + " execute"), ("unfinished offsets", OF + " add_offset_loop")], ["clipper", "tclipper", "offset", "rasterizer"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
