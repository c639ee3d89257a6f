"""What each property's check runs: harness, input families and budgets.

A job is one harness binary run over one completely enumerated family (split
into shards). `tiers` says where it belongs; `budget` caps one shard (seconds).
"""
import pybuild

Q = ("quick", "thorough")
T = ("thorough",)
CHECKS = {}


def job(src, part, tiers=Q, flags=("-DNDEBUG",), **kw):
    return dict(src=src, part=part, tiers=tiers, flags=list(flags), **kw)


def states(c, *names):
    return sum(c.get(n, 0) for n in names)


def explored(rule):
    def f(c, m):
        return dict(evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), rule=rule)
    return f


def check(pid, jobs, rule, quick=60, thorough=600, level="exploration", assumptions=(), coverage=None):
    CHECKS[pid] = dict(jobs=jobs, budget=dict(quick=quick, thorough=thorough), level=level,
                       assumptions=list(assumptions), coverage=coverage or explored(rule))


FLIP = ("-DNDEBUG", "-DVP_FLIPS")
BIG = "100000"

REGION_ASSUME = [
    "input families are bounded: at most 3 loops of at most 8 points on small grids (plus named parametric shapes), scaled; larger inputs are not enumerated",
    "the oracle compares one interior sample of every cell of the exact arrangement of input and output lines; samples closer than the margin (16 units) to any line are skipped, which absorbs coordinate rounding",
    "coordinate differences are small enough for the real type of the coordinates (below 2^52 for double)",
]


TYPES = {
    "i32z": ("std::int32_t", "std::size_t"),
    "i64u32": ("std::int64_t", "std::uint32_t"),
    "i16u16": ("std::int16_t", "std::uint16_t"),
    "i32i32": ("std::int32_t", "std::int32_t"),
}


def tflags(t):
    return ["-DVP_COORD=" + TYPES[t][0], "-DVP_INDEX=" + TYPES[t][1]] if t != "i32z" else []


def clip_jobs(mode, quick, thorough):
    """entries: (family, scale[, types])"""
    js = []
    for tiers, lst in ((Q, quick), (T, thorough)):
        for e in lst:
            t = e[2] if len(e) > 2 else "i32z"
            j = job("clip.cpp", "%s:%s:%s" % (mode, e[0], e[1]), tiers, ["-DNDEBUG"] + tflags(t))
            j["name"] = j["part"] + ("" if t == "i32z" else ":" + t)
            js.append(j)
    return js


check("C01", clip_jobs("bool",
    [("tri3xtri3", BIG), ("jtri3xquad3", BIG), ("tris23x3", BIG), ("tiles23", BIG), ("nested4", "1000"), ("stars", BIG), ("combs", "1000"), ("rects4x3", BIG), ("tri3xtri3", "1000", "i64u32"), ("tri3xtri3", "1000", "i16u16"), ("tri3xtri3", "700000000"), ("tri3xtri3", "1000000000000000", "i64u32")],
    [("tri4xtri4", BIG), ("tri3xquad3", BIG), ("quad3xquad3", BIG), ("jtri4xtri4", BIG), ("tri3xpent3", BIG), ("tiles33s", BIG), ("nested5", "1000"), ("bigstars", BIG), ("jquad3xquad3", BIG), ("tri3xquad3", "1000", "i64u32"), ("tri3xquad3", "1000", "i32i32")]),
    "every member of each family, as subject/clip pair and as two subjects, for union, intersection, xor and difference; non-trivial: the expected result has interior",
    assumptions=REGION_ASSUME)
check("C02", clip_jobs("norm",
    [("tri3xtri3", BIG), ("jtri3xquad3", BIG), ("pent3", BIG), ("hex3", BIG), ("quad4", BIG), ("tris23x3", BIG), ("stars", BIG), ("combs", "1000"), ("tiles23", BIG), ("hex3", "1000", "i64u32"), ("pent3", "700000000"), ("tris23x3", "700000000"), ("pent3", "1000000000000000", "i64u32"), ("nested5", "1000")],
    [("jhex3", BIG), ("hept3", BIG), ("pent4", BIG), ("tri4xtri4", BIG), ("quad3xquad3", BIG), ("nested6", "1000"), ("bigstars", BIG), ("tiles33s", BIG)]),
    "every member of each family, normalized; non-trivial: the expected even-odd region has interior",
    assumptions=REGION_ASSUME)
check("C04", clip_jobs("shape",
    [("tri3xtri3", BIG), ("jtri3xquad3", BIG), ("tris23x3", BIG), ("pent3", BIG), ("stars", BIG), ("combs", "1000"), ("tiles23", BIG), ("tri3xtri3", "7"), ("tri3xtri3", "700000000"), ("nested5", "1000")],
    [("tri4xtri4", BIG), ("quad3xquad3", BIG), ("hex3", BIG), ("jhex3", BIG), ("hex3", "7"), ("bigstars", BIG), ("tiles33s", BIG), ("nested5o", "1000"), ("nested6", "1000")]),
    "every member of each family under all five operations; non-trivial: the result is not empty",
    assumptions=REGION_ASSUME)
check("C05", clip_jobs("tree",
    [("nested4", "1000"), ("tri3xtri3", BIG), ("tris23x3", BIG), ("pent3", BIG), ("stars", BIG), ("combs", "1000"), ("tiles23", BIG), ("rects4x3", BIG), ("tris22x3", "700000000"), ("pent3", "1000000000000000", "i64u32")],
    [("nested5o", "1000"), ("nested6", "1000"), ("tri4xtri4", BIG), ("quad3xquad3", BIG), ("hex3", BIG), ("jhex3", BIG), ("tiles33s", BIG), ("bigstars", BIG)]),
    "every member of each family under all five operations with hierarchical output; non-trivial: the result has two or more loops",
    assumptions=REGION_ASSUME)


def flip_jobs(quick, thorough):
    """entries: (family, scale, margin, bound)"""
    return [job("clip.cpp", "cross:%s:%s:%s:%s" % e, tiers, FLIP) for tiers, lst in ((Q, quick), (T, thorough)) for e in lst]


check("C03", flip_jobs(
    [("tri3xtri3", 3, 3, 12), ("tri3xtri3", 5, 4, 12), ("quad4", 3, 3, 12), ("pent3", 3, 3, 12), ("pent3", 5, 4, 12), ("jtri3xtri3", 40, 6, 5), ("tris23x3m2", 3, 3, 4), ("stars", 20, 6, 4), ("combs", 10, 6, 4)],
    [("jtri3xtri3", 40, 6, 12), ("tris23x3", 3, 3, 12), ("stars", 20, 6, 10), ("combs", 10, 6, 10), ("jtri3xquad3", 40, 6, 8), ("tri3xquad3", 3, 3, 12), ("tri4xtri4", 2, 3, 10), ("hex3", 3, 3, 14), ("hex3", 5, 4, 12), ("pent4", 3, 3, 12), ("jhex3", 40, 6, 10), ("quad3xquad3", 3, 3, 8), ("bigstars", 15, 6, 12)]),
    "every member of each family under all five operations and every sequence of rounding choices up to the bound; non-trivial: the execution has at least one choice point with both outcomes explored",
    level="model_checking",
    coverage=lambda c, m: dict(states=c.get("choice_trees", 0), transitions=c.get("evals", 0), traces_validated_against_impl=c.get("evals", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial_trees", 0),
        rule="states: (input, operation) pairs, each the root of a tree of rounding choices; transitions: complete executions of the real library, one per leaf of those trees; every trace is an execution of the implementation. non-trivial: trees with more than one leaf",
        runs_beyond_choice_bound=c.get("runs_beyond_choice_bound", 0), deepest_choice_sequence=m.get("choices", 0)),
    assumptions=["choices beyond the bound follow one fixed sequence; runs_beyond_choice_bound counts those executions"])



def parts(src, flags, quick, thorough):
    return [job(src, p, tiers, flags) for tiers, lst in ((Q, quick), (T, thorough)) for p in lst]


check("C06", parts("track.cpp", FLIP,
    ["track:tri3xtri3:1000", "track:jtri3xquad3:100000", "track:tris23x3m2:1000", "track:pent3:1000", "track:hex3:1000", "track:stars:1000", "track:combs:1000", "track:nested4:1000", "dups:quad2:1000", "dups:tri2:1000", "paths:jtri2:1000", "paths:tri2:1000", "paths:quad3:1000", "paths:nested4:1000"],
    ["track:tri4xtri4:1000", "track:tris23x3:1000", "track:quad3xquad3:100000", "track:hept3:1000", "track:jhex3:100000", "track:bigstars:1000", "track:tiles33s:1000", "track:nested5o:1000", "paths:tri3xtri3:1000", "paths:tris23x3m2:1000", "paths:stars:1000"]),
    "every member of each family (in the dups parts with every combination of repeated, closing and degenerate points) under all five operations, flat and hierarchical; every callback is replayed on a linked-list model. non-trivial: at least one point was discarded. In the paths parts every way of entering shapes (single ranges, ranges of ranges, by the name of the set, point by point) and of running (clipper, tclipper, owned results, free functions) is compared with the first",
    assumptions=["for difference, clip lines are reversed; there a discarded point may be merged into any live point of the clip set"])
check("C07", parts("hist.cpp", FLIP,
    ["dup:tri2:1000", "dup:quad2:1000", "dup:tri1:1000"],
    ["dup:pent2:1000", "dup:jtri3xtri3s:1000", "dup:quad3:1000"]),
    "every member of each family with every combination of repeated and closing points, and with every degenerate loop over its points in every position, under all five operations, flat and hierarchical, compared with the cleaned input. non-trivial: the result is not empty",
    assumptions=["rounding choices are pinned to one fixed sequence per operation"])
check("C08", parts("hist.cpp", FLIP,
    ["hist:0:5", "hist:1:5", "hist:2:5", "hist:3:5"], ["hist:0:6", "hist:1:6", "hist:2:6", "hist:3:6"]),
    "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("histories", 0), transitions=c.get("evals", 0), traces_validated_against_impl=c.get("histories", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0),
        rule="states: complete histories of the given length over 12 actions; transitions: operations executed within them, each compared with a new object given the same loops. non-trivial: an operation on loops, preceded by other actions"),
    assumptions=["rounding choices are pinned to one fixed sequence per operation", "five fixed sets of loops are added"])
check("C09", parts("hist.cpp", FLIP,
    ["types:tri3xtri3:1000", "types:jtri2:5000", "types:pent3:1000", "types:tris22x3:1000", "entry:jtri2:5000", "entry:pent3:1000", "entry:tris22x3:1000", "entry:tri3q:1000", "present:jtri2:100000", "present:tris22x3:100000", "present:pent3:100000", "present:tri3q:100000"],
    ["types:hex3:1000", "types:tri3xquad3:1000", "types:nested4:100", "types:stars:1000", "entry:tri3xtri3:1000", "entry:hex3:1000", "entry:stars:1000", "entry:nested4:100", "present:tri3xtri3:100000", "present:jtri3xtri3:100000", "present:hex3:100000", "present:tris23x3m2:100000"])
    + parts("offways.cpp", FLIP, ["closed:2:1000", "open:2:1000", "tracked:2:1000"], []),
    "every member of each family in six coordinate and index types, through every entry point and kind of range (identical results), and in every loop order and starting point and five translations (same region); every offset of a shape of up to two points, alone or with others, through every entry point. non-trivial: the result is not empty",
    assumptions=["rounding choices are pinned to one fixed sequence per operation when results are compared exactly"])
def other_types(i64, i16):
    return [dict(job("offset.cpp", p, Q, FLIP + ("-DVP_COORD=" + t,)), name=p + ":" + n) for t, n, ps in (("std::int64_t", "i64", i64), ("std::int16_t", "i16", i16)) for p in ps]


OFFSET_ASSUME = ["shapes are on 3x3 (thorough 4x4) grids, magnitudes 0.05, 0.31, 1.03 and 3.2 times the grid width, five arc step sizes for each; coordinates are int on grids of 10000 (some parts 3000000), int64 on grids of 3000000000 and int16 on grids of 2000",
    "the allowed deviation is the distance between an arc and its chord for the stated step size, plus 16 units of rounding at grid width 10000; boundaries are probed at a fixed set of points along every edge, around every vertex and on a lattice"]
check("C10", parts("offset.cpp", FLIP,
    ["grow:tri3:10000", "grow:quad3:10000", "grow:pent3:10000", "shrink:tri3:10000", "shrink:quad3:10000", "shrink:pent3:10000", "grow:pairs:10000", "shrink:pairs:10000", "grow:tri3:3000000", "shrink:tri3:3000000"],
    ["grow:quad4:10000", "shrink:quad4:10000", "grow:hex3:10000", "shrink:hex3:10000", "grow:hept3:10000", "shrink:hept3:10000"])
    + parts("offways.cpp", FLIP, ["closed:3:1000"], ["closed:4:1000"]) + other_types(["grow:tri3:3000000000", "shrink:tri3:3000000000"], ["grow:tri3:2000", "shrink:tri3:2000"]),
    "every simple polygon of the grid, and pairs of triangles side by side, overlapping and as holes, for every magnitude and arc step size; every short sequence of points, alone, with others, and as either operand beside plain or offset shapes, through every entry point and kind of range, compared with add_offset of vectors; non-trivial: some probe must be covered",
    assumptions=OFFSET_ASSUME)
check("C11", parts("offset.cpp", FLIP, ["attr:4:1000"], ["attr:5:1000"]) + parts("offways.cpp", FLIP, ["tracked:3:1000"], ["tracked:4:1000"]) + other_types(["attr:3:3000000000"], ["attr:3:1000"]),
    "every sequence of points up to the length with every pattern of repeated and closing points, closed and open, followed by every kind of second range; every short sequence through every entry point with a tracker: callbacks, results and origins equal those of add_offset with vectors; non-trivial: ranges with at least one attributed point",
    assumptions=["points are followed to their positions in a normalized result, so one that lies on another line could be seen as discarded; the coordinates avoid that"])
check("C12", parts("offset.cpp", FLIP,
    ["open:2:10000", "open:3:10000", "lone:0:0", "open:4f:10000", "open:2:3000000"],
    ["open:4:10000", "open:5f:10000"]) + parts("offways.cpp", FLIP, ["open:3:1000"], ["open:4:1000"]) + other_types(["open:2:3000000000"], ["open:2:2000", "lone:0:0"]),
    "every polyline over the grid, including retraced and closed ones, for every magnitude and arc step size, and single points for 120 magnitudes by 16 step sizes; every short sequence through every entry point and kind of range; non-trivial: some probe must be covered",
    assumptions=OFFSET_ASSUME)
UB = ("-fsanitize=undefined", "-fno-sanitize-recover=all")
check("C25", [dict(j, control=["-DVP_CONTROL"]) for j in parts("coordclass.cpp", FLIP,
    ["clip:tri3xtri3:1000", "clip:jtri2:5000", "clip:pent3:1000", "clip:stars:1000", "clip:nested4:100", "clip:combs:1000", "clip:tris22x3:1000", "offset:3:1000"],
    ["clip:tri3xquad3:1000", "clip:hex3:1000", "clip:tris23x3:1000", "clip:jtri3xquad3:100000", "clip:bigstars:1000", "offset:4:1000", "offset:4:30000"])],
    "every member of each family under all five operations, and every short sequence of points offset by three magnitudes in three arc step sizes, closed and open, through member and free functions, flat, hierarchical and tracked, in a minimal coordinate class and in the built-in type (identical results). non-trivial: some result is not empty",
    assumptions=["rounding choices are pinned to one fixed sequence per operation", "the rasterizer, whose documentation does not name user-defined coordinates, is not covered", "the class has exactly the operations of the documented concept and its coord_ops"])
FUNCTIONS = ("-DNDEBUG", "-DVP_FUNCTIONS", "-finstrument-functions",
    "-finstrument-functions-exclude-file-list=/usr/,together.cpp,vp.hpp,families.hpp,sweep_set.hpp,rbtree_algorithms.hpp,large_ints.hpp",
    "-finstrument-functions-exclude-function-list=operator[],x,a_x,a_y,operator(),operator==,state,operator-,point_t")
check("C24", parts("together.cpp", ("-DNDEBUG",),
    ["steps:2", "steps:3", "shared:2", "shared:3", "nested:1", "nested:2", "threads:1", "threads:2"], ["threads:3"])
    + [dict(job("together.cpp", "threads:1", Q, FUNCTIONS), name="functions:1")],
    "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("schedules", 0), transitions=c.get("points", 0), traces_validated_against_impl=c.get("outcomes", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), points_of_control=m.get("points_of_control", 0),
        rule="states: complete schedules of two or three operations; transitions: steps, or points where the library calls code of its user, passed in them; traces: outcomes compared with that of the operation alone in a new process. non-trivial: a change of place strictly inside an operation"),
    assumptions=["twelve operations of six kinds", "threads change places only where the library calls code of its user (trackers, ranges, memory resources, coordinate arithmetic, callbacks) and, in one part, where one of its larger functions begins or ends; a data race with no such place between the two accesses is not seen", "two preemptions only between operations of the same kind in the quick tier, three for some of these in the thorough one"])
check("C26", parts("points.cpp", UB + ("-DNDEBUG",), ["ops", "convert", "round", "vectors:5"], ["vectors:9"]),
    "every pair of points over an alphabet with the extremes of each type, for every pair of coordinate types from 8 to 64 bits and floating point; every kind of range or class accepted as a point; every vector on a grid (5 or 9 wide, at five sizes) and every pair of them; every rounding between two neighbours. non-trivial: neither operand is zero",
    assumptions=["results that do not fit the result type are outside the property"])
check("C18", parts("smallset.cpp", UB,
    ["sets:u16:2:4", "sets:u32:3:3", "sets:u64:3:2", "sets:u32:2:4", "vec:5", "origin:5"],
    ["sets:u32:2:5", "sets:u16:3:4", "sets:u64:2:5", "vec:6", "origin:6"]),
    "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("states", 0), transitions=c.get("evals", 0), traces_validated_against_impl=c.get("evals", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), reachable_states=m.get("reachable_states", 0), depth=m.get("depth", 0),
        rule="states: distinct states of two or three real sets (contents and capacities) over the stated number of values, explored until no new one is reachable; transitions: operations executed from each on real sets and compared with std::set, plus every history of vectors of sets and of trackers up to the stated depth. non-trivial: some set needs allocated storage"),
    assumptions=["values are small; insertion of ranges uses a fixed list of ranges", "a set that was merged into another, or moved from, is only destroyed or reassigned afterwards"])
SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def hist_cov(rule):
    return lambda c, m: dict(states=c.get("ranges", 0), transitions=c.get("evals", 0), traces_validated_against_impl=c.get("evals", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), rule=rule)


check("C22", parts("ranges.cpp", SAN, ["iter:3", "owned:0"], ["iter:4"]), "", level="model_checking",
    coverage=hist_cov("states: ranges explored (results of eight scenes, flat and hierarchical, tracked and not, their loops and inner loops, constant and moved); transitions: states of two iterators reached by histories of up to the stated number of operations, at each of which every dereference, comparison, distance and subscript is compared with a list; and every sequence of four moves of an owned result between three kinds of places. non-trivial: histories of two or more operations, results that were moved"),
    assumptions=["eight fixed scenes", "the address and undefined behaviour sanitizers stand for 'stay valid'"])
check("C23", parts("strided.cpp", SAN, ["raw:4", "points:3"], ["raw:5", "points:4"]), "", level="model_checking",
    coverage=hist_cov("states: views explored (all lengths 0-4 with strides -5 to 5; points and loops of points with all combinations of five coordinate, six point and five loop strides and five type pairs); transitions: states of two iterators reached by histories of up to the stated number of operations, at each of which every dereference, comparison, distance and subscript is compared with a list. non-trivial: histories of two or more operations"),
    assumptions=["buffers of up to 96 elements"])


check("C17", parts("sweepset.cpp", ("-DNDEBUG",), ["tree:12", "multi:12", "list:6"], ["tree:14", "multi:14", "list:7"])
    + parts("sweepset.cpp", SAN, ["tree:9", "multi:9", "list:5"], ["tree:10", "list:6"]), "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("states", 0), transitions=c.get("evals", 0), traces_validated_against_impl=c.get("evals", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), reachable_states=m.get("reachable_states", 0),
        rule="states: distinct trees (members, links and colours) of up to 12 (thorough 14) nodes, for two index and container types, with different keys, with equal keys and with insertion at chosen positions, explored until no new one is reachable; transitions: operations executed from each on the real container, followed by a complete comparison with a sequence and the rules of red-black trees. non-trivial: three or more members before the operation"),
    assumptions=["items are inserted by key only while the members are in the order of their keys, as the sweeps do"])


STRICT = SAN + ("-D_GLIBCXX_ASSERTIONS", "-DPOLY_OPS_ASSERT_SLOW=assert", "-DVP_CRASH_ONLY", "-DVP_FLIPS")
check("C20", parts("safety.cpp", STRICT,
    ["loops:2:2:5:1000", "loops:3:2:4:1000:small", "loops:3:3:4:1073741823", "two:2:2:3:1000", "offset:2:2:3:100"],
    ["family:quad4:1000", "loops:3:2:6:1000", "loops:3:3:5:1000:small", "two:3:2:3:1000", "two:2:2:4:1073741823", "family:tri3xtri3:1000", "family:jtri3xquad3:40000", "family:tris22x3:1000:small", "family:stars:1000", "family:combs:1000", "family:nested4:1000", "family:hex3:3", "offset:3:2:3:10000", "offset:3:3:4:200"])
    + parts("raster.cpp", STRICT, ["hist:4", "rows:pent3:2", "rows:tris22x3:3"], ["hist:6", "rows:tri3xtri3:3", "rows:hept3:1", "rows:stars:5", "rows:combs:3", "rows:quad3xquad3:1"])
    + parts("hist.cpp", STRICT, [], ["hist:0:4", "hist:0:5", "hist:1:5", "hist:2:5", "hist:3:5"])
    + parts("offset.cpp", STRICT, ["open:2:10000"], ["open:3:10000", "lone:0:0", "attr:3:1000"]),
    "every loop of up to 5 points on small grids, with repeats, every pair of such loops and of shapes, under all five operations, flat, hierarchical and tracked, with a memory resource that guards and accounts for every block; open and closed offsets of every such loop, rows of shapes, and histories, all with the address and undefined behaviour sanitizers and all internal checks switched on. non-trivial: three or more points, or a result",
    assumptions=["coordinates whose differences fit the coordinate type; offsets whose points fit it", "the sanitizers, guard bytes and internal checks stand for 'outside its own'"])

FSAN = SAN + ("-O1", "-D_GLIBCXX_ASSERTIONS", "-DPOLY_OPS_ASSERT_SLOW=assert")
check("C19", parts("faults.cpp", ("-DNDEBUG",),
    ["clip:tri2:1000", "clip:quad2:1000", "clip:pent2:1000:3", "clip:tris22x3:1000:50", "clip:nested4:100:300", "raster:tri1:5", "raster:pent2:4", "raster:tris22x3:5", "offset:tri1:100:2"],
    ["clip:pent2:1000", "clip:tris22x3:1000", "clip:jtri3xtri3s:40000", "clip:nested4:100:30", "clip:hex3:1000:40", "clip:tiles23:1000:40", "raster:tri3xtri3:4", "raster:hex3:4", "raster:stars:2", "offset:tri1:100", "offset:tri2:100", "offset:quad2:100", "offset:tris22x3:100:20"])
    + parts("faults.cpp", FSAN, ["clip:tri2:1000:16", "raster:quad2:5"], ["clip:tri2:1000", "clip:quad2:1000", "offset:tri1:100", "raster:tris22x3:5"]), "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("scenarios", 0), transitions=c.get("faults", 0), traces_validated_against_impl=c.get("faults", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), most_allocations_in_one_scenario=m.get("allocations", 0),
        failures_by_phase={k: c.get("in_" + k, 0) for k in ("construction", "adding", "executing", "free_functions")}, failures_absorbed=c.get("absorbed", 0),
        rule="states: scenarios (input, operation, flat or hierarchical, tracked or not, ways of adding); transitions: runs of the real library with one allocation, or it and all later ones, failing, one for every allocation of the scenario and every way of carrying on (destroyed, reset and repeated, added again, executed without, the loop or the point added again). non-trivial: the result is not empty"),
    assumptions=["the pool resource of the standard library is replaced by one that hands every request on, because that of libstdc++ itself crashes when the resource below it fails", "rounding choices are pinned to one fixed sequence per operation", "in parts with a third number only one member in so many, chosen by its text, is run"])

check("C27", parts("userexc.cpp", ("-DNDEBUG",),
    ["clip:c:tri2:1000:60", "clip:c:tris22x3:1000:5000", "clip:rt:tri2:1000:4", "clip:rt:tris22x3:1000:300", "raster:rf:quad2:5", "raster:rf:pent2:4", "offset:rt:tri1:100:8", "offset:c:tri1:100:150"],
    ["clip:rt:tri2:1000", "clip:c:nested4:100:20000", "raster:rf:tris22x3:5", "clip:rt:quad2:1000:3", "clip:rt:nested4:100:100", "clip:c:tri2:1000:8", "clip:c:quad2:1000:60", "clip:c:tris22x3:1000:600", "raster:rf:tri3xtri3:4", "offset:rt:tri1:100", "offset:c:tri1:100:8", "offset:rt:quad2:100:40"])
    + parts("userexc.cpp", FSAN, ["clip:c:tri2:1000:600"], ["clip:rt:tri2:1000:20", "offset:c:tri1:100:100"]), "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("scenarios", 0), transitions=c.get("faults", 0), traces_validated_against_impl=c.get("faults", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), most_calls_in_one_scenario=m.get("calls", 0),
        thrown_by={k: c.get("by_" + k, 0) for k in ("ranges", "trackers", "coordinates", "drawing")},
        throws_by_phase={k: c.get("in_" + k, 0) for k in ("construction", "adding", "executing", "free_functions")},
        rule="states: scenarios (input, operation, flat or hierarchical, tracked or not); transitions: runs of the real library in which one call of code of the user (a range, a point, a tracker, coordinate arithmetic, a drawing function) throws, one for every such call of the scenario and every way of carrying on. non-trivial: the result is not empty"),
    assumptions=["the pool resource of the standard library is replaced by one that hands every request on", "rounding choices are pinned to one fixed sequence per operation", "in parts with a third number only one member in so many, chosen by its text, is run", "memory resources that throw are the business of C19"])


def py_jobs():
    js = []
    for prep, what, parts_ in ((pybuild.plain, "", [("forms:union", Q), ("forms:normalize", Q), ("forms:boolean_op", Q), ("forms:offset", Q), ("errors", Q), ("winding", Q), ("methods", Q), ("map", Q), ("leak", Q),
                                                    ("hist:plain:4", Q), ("hist:tracked:4", Q), ("hist:plain:5", T), ("hist:tracked:5", T)]),
                               (pybuild.asserts, ":checked", [("forms:union", Q), ("forms:boolean_op", Q), ("errors", Q), ("hist:plain:3", Q), ("hist:tracked:3", Q), ("forms:offset", T), ("forms:normalize", T), ("hist:tracked:4", T)])):
        for p, tiers in parts_:
            js.append(dict(prepare=prep, part=p, tiers=tiers, name=p + what))
    return js


check("C21", py_jobs(), "", level="model_checking",
    coverage=lambda c, m: dict(states=c.get("histories", 0), transitions=c.get("transitions", 0), traces_validated_against_impl=c.get("histories", 0),
        evaluations=c.get("evals", 0), distinct_nontrivial=c.get("nontrivial", 0), refused_as_due=c.get("refused", 0),
        rule="evaluations: calls of the real binding, one for every member of the product of functions, argument forms, element types, casting rules, result types and flags, and one for every sequence of method calls of one object up to a depth, each compared with the C++ library called directly; states and transitions: the sequences and their calls. non-trivial: the expected result is not empty"),
    assumptions=["the loops are eight fixed sets of small polygons (the geometry itself is the business of C01 to C12); both sides are built with the same fixed rounding choice", "numpy's own conversion of an object to an array and numpy.can_cast and promote_types are the specification of the same conversions here", "a failing call that adds several loops may have added those before the one that failed, or none"])


def int_jobs(groups):
    """entries: (group, part, name)"""
    js = []
    for tiers, lv in ((Q, 1), (T, 2)):
        for g, p, what in groups:
            for name, fl, cxx in (("gcc", [], "g++"), ("std", ["-DPOLY_OPS_NO_COMPILER_EXTENSIONS"], "g++"), ("clang", [], "clang++")):
                if cxx == "clang++" and g > 2:
                    continue
                j = job("intmath.cpp", "any:%d" % lv, tiers, ["-O1", "-DNDEBUG", "-DVP_GROUP=%d" % g, "-DVP_PART=%d" % p] + fl, cxx=cxx)
                j["name"] = "%s:%s:%d" % (what, name, lv)
                js.append(j)
    return js


INT_ASSUME = ["operands are all combinations of words from an alphabet of 4-14 words (0, 1, 2, 3, all ones, half ranges and their neighbours, and mixed patterns) in 1 to 4 words, and the extremes and middle values of built-in types",
    "gcc's extensions, clang's extensions (additions and products) and standard C++; the Microsoft and Intel intrinsics are not available here"]
INT_RULE = "every pair of operands over the alphabet of words, for every pair of types among signed and unsigned integers of one to four words and built-in integers, in each arithmetic back end, against arbitrary-precision arithmetic. non-trivial: pairs with an operand that is negative or longer than one word"
check("C13", int_jobs([(1, 1, "add"), (1, 2, "add built-in"), (2, 1, "multiply"), (2, 2, "multiply built-in"), (3, 1, "shift")]), INT_RULE, assumptions=INT_ASSUME)
check("C14", int_jobs([(4, 1, "divide int1-2"), (4, 2, "divide int3-4"), (4, 3, "divide uint1-2"), (4, 4, "divide uint3-4"), (4, 5, "divide by built-in"), (4, 6, "divide built-in"), (5, 1, "convert"), (6, 1, "literals")]), INT_RULE, assumptions=INT_ASSUME)
PRED = [("exh8", Q), ("tri:1", Q), ("wind:3:1", Q), ("wind:4:1", Q), ("wind:5:0", Q), ("tri:2", T), ("wind:3:2", T), ("wind:4:2", T), ("wind:5:1", T), ("wind:6:0", T)]
check("C15", [dict(job("predicates.cpp", p, t, UB if p != "exh8" else ("-DNDEBUG",)), name=p) for p, t in PRED]
    + [dict(job("predicates.cpp", p, t, ("-DNDEBUG", "-DPOLY_OPS_NO_COMPILER_EXTENSIONS")), name=p + ":std") for p, t in PRED if p in ("tri:1", "wind:4:1", "tri:2", "wind:5:1")]
    + [dict(job("predicates.cpp", p, t, ("-DNDEBUG",), cxx="clang++"), name=p + ":clang") for p, t in PRED if p in ("tri:1", "wind:4:1", "tri:2", "wind:5:1")],
    "every triangle of 8-bit points up to translation, every triple of points and every loop of up to 5 points over the alphabet of extremes for 8 to 64 bit coordinates, from every starting point, with every repeated point, reversed and closed, as eleven kinds of ranges and point by point. non-trivial: the area is not zero",
    assumptions=["all coordinate differences (for loops also sums, and the sum over all edges) fit the coordinate type (twice its width)"])
check("C16", parts("raster.cpp", ("-DNDEBUG",),
    ["rows:jtri3xtri3:40", "rows:combs:3", "rows:tiles23:3", "rows:nested4:2", "rows:hex3:3", "rows:hept3:1", "rows:stars:5", "rows:jhex3:40", "rows:tris23x3:2", "hist:6"],
    ["rows:quad3xquad3:1", "rows:quad3xquad3:3", "rows:tri4xtri4:2", "rows:bigstars:3", "rows:rects4x3:3", "rows:jquad3xquad3:40", "rows:tiles33s:2", "hist:7"])
    + parts("raster.cpp", ("-DNDEBUG", "-DVP_SMALL"), ["rows:tri3xtri3:3"], ["rows:pent4:4", "rows:tri3xquad3:5"]),
    "every member of each family in three (with small types five) placements and canvases, partly off the canvas, every row compared with winding numbers counted along the row, and all four fill rules; every history of 6 (thorough 7) out of 9 actions on one rasterizer. non-trivial: the canvas has a span",
    assumptions=["ends of spans are the crossing positions truncated towards zero; between lines that cross the row at the same position an empty span may or may not be reported", "coordinate differences fit the coordinate type"])
EXH = "bounded exhaustive enumeration of inputs on the real code against an independent exact oracle"
NOTES = {
    "C01": (EXH, "no violation for any member of the enumerated families (all triangle, quad and rectangle combinations on small grids, tilings, nestings, stars, combs); trusts the winding-number oracle; cells thinner than 16 units are not judged"),
    "C02": (EXH, "no violation for any member of the enumerated families; the kept lines are compared by total length"),
    "C03": ("stateless model checking: depth-first enumeration of all rounding-choice sequences of the real code", "all choice sequences up to the bound for every enumerated input; beyond the bound one fixed continuation; exact crossing test"),
    "C04": (EXH, "exact shape tests and a second pass on every result of the enumerated families"),
    "C05": (EXH, "hierarchy compared with containment computed from exact winding numbers of every loop; hierarchies of results with coincident lines are only checked for region and losses"),
}
NOTES.update({
    "C06": (EXH + " and a replay of every callback on a reference model", "the callback protocol is decided exactly for every enumerated input; for reversed clip lines of a difference the target of a merge is only required to be a clip point"),
    "C07": (EXH.replace("an independent exact oracle", "the result of the cleaned input"), "every pattern of repeated, closing and degenerate points over small inputs"),
    "C08": ("stateless model checking of histories: every sequence of actions up to the depth on real objects against a new object", "all histories of 5 (thorough 6) actions out of 12 for four kinds of objects; results, trackers and numbering are compared exactly"),
    "C09": (EXH, "all loop orders and starting points of the enumerated inputs, five translations, six type combinations, about 20 entry points and range kinds"),
})
NOTES.update({
    "C10": (EXH, "distance to the shape and its boundary, computed independently, at probe points along and around every edge and vertex; within the stated arc deviation and 16 units the boundary is not judged"),
    "C11": (EXH, "every pattern of duplicates in short ranges, with following ranges; each callback's source is compared with the position of the generated point"),
    "C12": (EXH, "as C10 for polylines up to 4 points (5 with fixed start in the thorough tier) and for single points"),
})
NOTES["C18"] = ("explicit-state model checking of the real code: breadth-first exploration of all reachable states of small sets, and all histories of set vectors and trackers up to a depth", "the state space over the stated values closes completely; memory resource checks alignment, bounds and returned blocks")
NOTES["C22"] = ("stateless model checking: every history of iterator operations up to a depth on real result ranges, and every sequence of moves of owned results, under sanitizers", "every mixture of operations up to 3 (thorough 4) on two iterators of every range of eight scenes")
NOTES["C23"] = ("stateless model checking: every history of iterator operations up to a depth on real strided views", "every length, stride and history in the bound, against plain indexing")
NOTES["C17"] = ("explicit-state model checking of the real code: breadth-first exploration of all reachable trees", "the state space closes for up to 12 (thorough 14) nodes with ordered insertion and 6 (7) with insertion anywhere")
NOTES["C20"] = (EXH.replace("an independent exact oracle", "memory and arithmetic sanitizers, internal checks and an accounting memory resource"), "no report for any enumerated input, history or type; only accesses to memory, overflow, failed internal checks and memory accounting are judged")
NOTES["C19"] = ("exhaustive fault injection on the real code: every allocation of every scenario fails in turn, alone and with all later ones, followed by every way of carrying on, compared with the undisturbed run", "all single failures and all exhaustions from a point on, for every enumerated scenario; failures inside libstdc++'s own pool resource are not injected")
NOTES["C21"] = ("bounded-exhaustive exploration of the real binding: all argument forms of all functions, and all histories of method calls of one object up to a depth, each compared with the C++ library", "the full product of forms, element types, casting, result types and flags; every pair of calls of the adding methods in every form; histories of up to 4 (thorough 5) calls over 16 or 17 actions, failing ones included; reference counts and memory for 776 kinds of call")
NOTES["C15"] = (EXH, "all 8-bit triangles; all triples and loops up to 5 (thorough 6) points over alphabets with the extremes of four coordinate types; values compared exactly with 128-bit arithmetic, in three builds")
NOTES["C16"] = (EXH + ", and all histories of one rasterizer up to a depth", "every row of every member of the enumerated families in three or five placements and coordinate types; empty spans where lines meet on the row are optional")
NOTES["C13"] = (EXH, "every operand pair over the word alphabet, every pair of types, three back ends")
NOTES["C14"] = (EXH, "every operand pair over the word alphabet whose quotient fits, every pair of types, both roundings, both back ends; conversions between all widths, built-in types and floating point")
NOTES["C25"] = (EXH + ", in two coordinate types", "every member of the enumerated families, compared point by point with the built-in type; a library that no longer compiles with the class (while the same harness does with the built-in type) is reported as well")
NOTES["C24"] = ("stateless model checking under a controlled scheduler: every interleaving of steps, every nesting and every thread schedule up to a preemption bound, on the real code", "all interleavings of the steps of two operations (thirds of three), every nesting up to two deep at every point where the library calls its user, and every schedule of two threads with one preemption (two for pairs of a kind; thorough: two for all); each outcome is compared with that operation alone in a process of its own")
NOTES["C26"] = (EXH, "every pair over the alphabets for every pair of types; lengths, angles and perpendicular vectors against long double arithmetic")
NOTES["C27"] = ("exhaustive fault injection on the real code: every call of the user's code of every scenario throws in turn, followed by every way of carrying on, compared with the undisturbed run", "all single throws of ranges, points, trackers, coordinate arithmetic and drawing functions, for every enumerated scenario")
NOT_APPLICABLE = {}
