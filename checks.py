"""Which harness decides which property, in which builds, with how many cases.

A run names a harness (harness/<name>.cpp), a build variant, how many cases per tier, and
optionally one workload of the harness ("only") and the monitors that count for the
property ("keys"; a crash, a sanitizer report, an escaped exception or a hang always counts).
"""


def H(h, q, t, variant="plain", only=(None,), **kw):
    out = []
    for n in only:
        r = {"harness": h, "variant": variant, "quick": q, "thorough": t}
        if n:
            r["only"] = n
        r.update(kw)
        out.append(r)
    return out


RANDOM = "Cases are drawn from a seeded generator (seed x case index). "
CHECKS = {}


# Workloads with thousands of elements: (name, quick, thorough).
LARGE = {
    "h_astar": (("graph-large", 400, 8000), ("deep", 16, 200)),
    "h_bidir": (("graph-large", 400, 8000), ("deep", 16, 200)),
    "h_rrt": (("rrt-large", 150, 3000), ("rrt-star-large", 150, 3000), ("reference-rrt-large", 150, 3000), ("reference-rrt-star-large", 150, 3000)),
    "h_maps": (("occupancy-large", 150, 3000), ("distance-large", 150, 3000), ("voronoi-large", 100, 2000)),
    "h_frontier": (("large", 200, 4000),),
    "h_tree": (("tree-large", 100, 2000), ("deep", 24, 300)),
}


def large(h, names=None, variants=("plain",), **kw):
    """The large workloads of a harness; with a sanitizer a twentieth of the cases."""
    out = []
    for v in variants:
        part = 1 if v == "plain" else 20
        for n, q, t in LARGE[h]:
            if names is None or n in names:
                out.append(H(h, max(4, q // part), max(8, t // part), v, only=(n,), **kw))
    return out


def prop(pid, rule, *runs, **kw):
    CHECKS[pid] = dict(rule=RANDOM + rule, runs=[r for rs in runs for r in rs], **kw)


prop("C01",
     "Random weighted digraphs (zero/equal/tiny weights, parallel edges, cycles, unreachable goals, consistent or null or admissible heuristics) and random "
     "occupancy grids, solved by A* and compared with Dijkstra. Non-trivial: the graph has a path of at least 2 steps or the goal is proved unreachable after more than one expansion.",
     H("h_astar", 60000, 600000), H("h_astar", 1500, 20000, "asan"), *large("h_astar"))
prop("C02",
     "As C01 for the bidirectional search, with averaged heuristic pairs built on consistent heuristics. Non-trivial: a path of at least 2 steps, or an unreachable goal.",
     H("h_bidir", 60000, 600000), H("h_bidir", 1500, 20000, "asan"), *large("h_bidir"))

HYB_C03 = ["stale-path", "stale-segments", "stale-cost", "stale-smoothing", "stats", "status", "uninitialised", "initialize-null", "fresh-status", "fresh-cost", "fresh-search", "fresh-path",
           "starts-at-start", "ends-at-goal", "reaches-goal", "empty-path", "direct-missed", "worse-than-direct", "segments-join", "path-hits", "smoothed-invalid"]
HYB_C04 = ["starts-at-start", "ends-at-goal", "reaches-goal", "empty-path", "finite", "spacing", "off-path", "too-few-poses", "too-many-poses", "segments-join", "segment-ends", "direct-missed",
           "invalid-start", "invalid-goal", "status", "stats", "initialize", "initialize-null", "uninitialised", "null-segment", "stale-path", "missing-cusp", "unexplored", "start-unexpanded"]
HYB_C05 = ["path-hits", "path-leaves", "smoothed-invalid", "segment-hits", "segment-leaves", "segment-end-invalid", "explored-hits", "explored-leaves", "invalid-start", "invalid-goal", "finite", "off-path"]
HYB_C06 = ["curvature", "jump", "side-slip", "direction", "no-direction", "segments-join", "segment-ends", "segment-length", "null-segment", "cost", "worse-than-direct", "cheaper-than-shortest",
           "smoother-curvature", "explored-set", "reaches-goal", "cost-suffix", "missed-cheaper"]
prop("C03",
     "Sequences of 2 to 5 queries on one planner object (A*, bidirectional, grid, RRT, RRT*, hybrid A*), with changed starts, goals, maps and failing queries in between, each answer compared with "
     "that of a newly built planner (hybrid A*: in a forked copy of the process, so with the same random numbers). Non-trivial: at least two queries with different answers.",
     H("h_reuse", 40000, 400000), H("h_reuse", 1000, 10000, "asan"), H("h_hybrid", 700, 8000, only=("reuse",), keys=HYB_C03), H("h_hybrid", 30, 300, only=("uninitialised",), keys=HYB_C03))
prop("C04",
     "Random maps (obstacles of all shapes, resolutions, positions), planner parameters, starts and goals (near, same, wrapped headings, blocked). Non-trivial: the solution has several segments or there are obstacles.",
     H("h_hybrid", 900, 10000, only=("plan",), keys=HYB_C04), H("h_hybrid", 400, 6000, only=("reuse",), keys=HYB_C04), H("h_hybrid", 500, 8000, only=("enclosed",), keys=HYB_C04), H("h_hybrid", 30, 300, only=("uninitialised",), keys=HYB_C04))
prop("C05", "The cases of C04; every returned pose, every segment and a sample of the explored segments is measured against the cells that are occupied.",
     H("h_hybrid", 1000, 12000, only=("plan",), keys=HYB_C05), H("h_hybrid", 400, 6000, only=("reuse",), keys=HYB_C05))
prop("C06", "The cases of C04; every segment of the graph-search path is sampled densely and its cost recomputed from the documented cost model.",
     H("h_hybrid", 1000, 12000, only=("plan",), keys=HYB_C06), H("h_hybrid", 400, 6000, only=("reuse",), keys=HYB_C06))
prop("C07", "Random 2D spaces with box obstacles, budgets, connection distances, goal biases, and maps without a solution; a scripted sampler replays the same samples into a reference RRT and RRT*. Non-trivial: the tree has more than one node.",
     H("h_rrt", 60000, 1000000), H("h_rrt", 1000, 20000, "asan"), *large("h_rrt"))
prop("C08", "Random pose pairs (near, far, aligned, mirrored, degenerate), turning radii and cost multipliers; lengths compared with an independent enumeration of Reeds-Shepp words. Non-trivial: start and goal differ.",
     H("h_rs", 400000, 4000000), H("h_rs", 8000, 100000, "asan"))
prop("C09", "Random straight, SE(2), constant-steer, Reeds-Shepp and composite paths (nested, repeated truncation, ratios 0, 1 and duplicates). Non-trivial: positive length.",
     H("h_paths", 300000, 3000000), H("h_paths", 6000, 60000, "asan"))
MAPS = "Random maps and random histories of adding, moving and removing obstacles of all shapes, with updates in between. Non-trivial: at least one cell is occupied at some point."
prop("C10", MAPS, H("h_maps", 20000, 300000, only=("occupancy", "raster")), H("h_maps", 800, 8000, "asan", only=("occupancy", "raster")), *large("h_maps", ("occupancy-large",)))
prop("C11", MAPS, H("h_maps", 25000, 400000, only=("distance",)), H("h_maps", 800, 8000, "asan", only=("distance",)), *large("h_maps", ("distance-large",)))
prop("C12", MAPS, H("h_maps", 25000, 400000, only=("voronoi",)), H("h_maps", 800, 8000, "asan", only=("voronoi",)), *large("h_maps", ("voronoi-large",)))
prop("C13", "Random maps, safe radii and interpolation distances; states and paths compared with the distance to the nearest occupied cell centre found by enumeration. Non-trivial: an obstacle or a border is within reach.",
     H("h_validator", 30000, 400000, only=("state", "path", "free", "threshold")), H("h_validator", 800, 8000, "asan", only=("state", "path", "free", "threshold")))
prop("C14", "Random sequences of push, pop, lookup, remove and reprioritise with many equal priorities, against a sorted reference. Non-trivial: at least 3 elements at once.",
     H("h_frontier", 30000, 400000), H("h_frontier", 600, 8000, "asan"), *large("h_frontier"))
prop("C15", "Random edits of node hierarchies (add, remove, replace, reparent) against a shadow tree, and random nearest-neighbour queries against a linear scan. Non-trivial: at least 3 nodes.",
     H("h_tree", 20000, 300000), H("h_tree", 600, 8000, "asan"), *large("h_tree"))
prop("C16", "Random bounds, resolutions, turning radii and obstacle maps; every lattice cell resp. grid cell compared with a reference (Reeds-Shepp at the cell, Dijkstra over the free cells). Non-trivial: more than one cell with a finite value.",
     H("h_heuristics", 8000, 100000, only=("nonholonomic", "obstacles", "combined")), H("h_heuristics", 200, 3000, "asan", only=("nonholonomic", "obstacles", "combined")))
prop("C17", "Random paths (with cusps, duplicates, at the border, near obstacles) and smoother weights; fixed points, statuses, validity of the result and the individual terms of the gradient observed through one-step runs. Non-trivial: at least 5 poses.",
     H("h_smoother", 20000, 200000), H("h_smoother", 600, 8000, "asan"))
prop("C18", "Random bounds (empty, degenerate, negative), states inside, on and outside of them, and samples. Non-trivial: bounds of positive volume.",
     H("h_geometry", 15000, 200000, only=("space-r2", "space-se2")), H("h_geometry", 800, 8000, "asan", only=("space-r2", "space-se2")))
prop("C19", "Random poses, including headings many turns away and at the ends of the range. Non-trivial: the heading is not zero.",
     H("h_geometry", 200000, 3000000, only=("pose-algebra", "pose-equality-hash", "modulo")), H("h_geometry", 3000, 60000, "asan", only=("pose-algebra", "pose-equality-hash", "modulo")))
prop("C20", "Random wheelbases, reference points, steering angles, arc lengths and directions, against closed-form circles. Non-trivial: positive arc length.",
     H("h_geometry", 600000, 5000000, only=("bicycle",)), H("h_geometry", 6000, 100000, "asan", only=("bicycle",)))
ALL = ("h_astar", "h_bidir", "h_frontier", "h_tree", "h_rrt", "h_rs", "h_paths", "h_geometry", "h_maps", "h_validator", "h_heuristics", "h_smoother", "h_reuse")
prop("C21", "The workloads of all other harnesses in an AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer build with library assertions on; only crashes, sanitizer reports, assertions, escaped exceptions and hangs count. Non-trivial: as in the other checks.",
     *[H(h, 800, 10000, "asan", keys=[]) for h in ALL], H("h_hybrid", 250, 3000, "asan", keys=[]),
     *[H(h, 500, 8000, "debug", keys=[]) for h in ALL], H("h_hybrid", 40, 600, "debug", keys=[]),
     *[r for h in LARGE for r in large(h, variants=("asan",), keys=[])])
PYW = ("geometry", "paths", "maps", "validator", "grid", "hybrid")
prop("C22", "The same scenario is run through the Python module and through the C++ library, and Python-defined callbacks (heuristics, propagators, validators, maps) are driven, with injected exceptions and early garbage collection. Non-trivial: every case.",
     H("worker", 700, 10000, "py", only=PYW), H("worker", 40, 400, "pyasan", only=PYW))
prop("C23", "Random thread counts and start skews; ThreadSanitizer watches every case. Non-trivial: at least two threads overlapped.",
     H("h_threads", 300, 6000, "tsan"), H("h_threads", 600, 20000, "prof"))
prop("C24", "Random map sizes, resolutions and positions; points on, just inside and just outside cell borders and map borders. Non-trivial: more than one cell.",
     H("h_maps", 40000, 500000, only=("frames", "grid")), H("h_maps", 2000, 20000, "asan", only=("frames", "grid")))
IMG = ["image-format", "image-size", "image-grey", "image-brightness", "image-obstacle", "image-hue"]
prop("C25", "The histories of maps of C12 and the searches of C16, with the pixmap of the diagram and of the heuristic written, read back and compared pixel by pixel with what the map and the heuristic answer. Non-trivial: the map has an occupied cell.",
     H("h_maps", 12000, 150000, only=("image",)), H("h_heuristics", 4000, 60000, only=("obstacles",), keys=IMG), H("h_maps", 500, 5000, "asan", only=("image",)), H("h_heuristics", 200, 2000, "asan", only=("obstacles",), keys=IMG))
prop("C26", "The workloads and monitors of all other harnesses in the configurations of the build files that the tests do not run in: assertions off and optimised (release), and logging, profiling and assertions on (the default).",
     H("h_log", 600, 10000, "default"), H("h_log", 200, 3000, "tsanlog"), H("h_threads", 100, 2000, "tsanlog", only=("independent-planners",)),
     *[H(h, 1500, 30000, v) for v in ("release", "default") for h in ALL], *[H("h_hybrid", 150, 2000, v) for v in ("release", "default")])
