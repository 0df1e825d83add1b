#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"
P = []

def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- concurrency
add("C01", "Parallel loops run every index exactly once with valid thread numbers",
    "A parallel loop over an integer range calls the work function exactly once for every index of the range and for no other index, for the static and the dynamic variant, range-wise and index-wise, on the OpenMP and on the async backend. "
    "The thread number handed to each call is at least 0 and less than the requested number of threads, and two calls that overlap in time never get the same thread number. "
    "The static division of a range among threads gives contiguous, disjoint, ordered pieces that cover the range and whose sizes differ by at most one.",
    ["schedules", "configurations", "inputs"],
    "every thread schedule, every range (any start, empty, shorter than the thread count), every requested thread count, and every number of threads the OpenMP runtime chooses to deliver",
    "Existing tests run a few ranges that start at 0 on a quiet machine and see one schedule per run; they never get fewer threads than requested and never control completion order.",
    [H+"parallelism.hpp", H+"openmp_helpers.hpp"],
    [("static range split", H+"parallelism.hpp: CalcStaticThreadRangeStartAndEnd"),
     ("dynamic async dispatch and thread number keeper", H+"parallelism.hpp: DynamicParallelForRangeLoop")],
    ["work function calls"])
add("C02", "Parallel loops finish, hand over results and failures, and never race",
    "A parallel loop returns only after every started work call has finished, everything written by the work calls is visible to the caller, and the loop itself adds no data race and never deadlocks. "
    "If any work call throws, the loop ends by throwing one of the thrown exceptions to the caller after all started work has stopped; if nothing throws, the loop does not throw. "
    "If a worker thread cannot be started, the loop still ends, either completing or throwing, with no work call left running.",
    ["schedules", "fault_sequences", "configurations"],
    "every thread schedule, every subset of work items that throws, every point at which thread creation fails, every backend and thread count",
    "Tests see one schedule per run, one throwing pattern, and no thread-creation failure; a lost wake-up or a missed join shows only in particular interleavings.",
    [H+"parallelism.hpp", H+"utility.hpp"],
    [("exception capture and rethrow", H+"parallelism.hpp: StaticParallelForRangeLoop, DynamicParallelForRangeLoop"),
     ("completion notification", H+"parallelism.hpp: cv / num_live_workers"),
     ("scope guard", H+"utility.hpp: OnScopeExit")],
    ["return or throw of the loop", "work calls still running at that time"])
add("C03", "Parallel distance and clustering queries equal the serial result",
    "K-nearest-neighbour search, one-sided Hausdorff distance, pairwise distance matrices, hierarchical clustering and k-means clustering asked to run in parallel are free of data races and return what the serial computation returns: the same distances, matrices, cluster partition and cluster labels. "
    "This holds for every thread schedule, every requested degree of parallelism and every smaller number of threads the runtime actually delivers, including calls made from inside another parallel region. "
    "Ties between equal distances may be broken differently, but the reported distances are still the same.",
    ["schedules", "configurations", "inputs"],
    "every schedule, every requested and delivered thread count, every small data set including ties and empty or undersized inputs",
    "Tests compare serial and parallel once on random data with all requested threads delivered.",
    [H+"simple_knearest_neighbors.hpp", H+"simple_hausdorff_distance.hpp", H+"math.hpp",
     H+"simple_hierarchical_clustering.hpp", H+"simple_kmeans_clustering.hpp"],
    [("per-thread partial results", H+"simple_knearest_neighbors.hpp"), ("per-thread maxima", H+"simple_hausdorff_distance.hpp"),
     ("per-thread closest pairs", H+"simple_hierarchical_clustering.hpp"), ("parallel relabelling", H+"simple_kmeans_clustering.hpp")],
    ["returned values"])
add("C04", "Parallel graph and roadmap work equals the serial result",
    "Pruning nodes from a graph, updating a roadmap's edges, adding states to a roadmap and building or growing a roadmap in parallel are free of data races and produce the same graph as the serial computation when driven by deterministic user functions. "
    "This holds for every thread schedule and every number of threads delivered, including fewer than requested. "
    "Nodes and edges are never lost, duplicated or left half-linked.",
    ["schedules", "configurations"],
    "every schedule, every requested and delivered thread count, small graphs and roadmaps",
    "Tests build one roadmap per run under whatever schedule the machine gives.",
    [H+"simple_graph.hpp", H+"simple_prm_planner.hpp"],
    [("parallel pruning", H+"simple_graph.hpp: PruneGraph"), ("parallel edge checks", H+"simple_prm_planner.hpp: AddNodeToRoadmap, UpdateRoadMapEdges")],
    ["the resulting graph"])
add("C05", "The copyable atomic wrapper behaves as one linearizable register",
    "Concurrent loads, stores, additions, subtractions, copies and moves on a shared atomic wrapper behave as if each load, store, addition or subtraction took effect at one instant between its call and return; a copy or move is one atomic load of the source followed by one atomic store to the destination and leaves the source unchanged. "
    "No concurrent use is a data race, and with the default or a release/acquire ordering a value read from the wrapper makes everything its writer did before visible.",
    ["schedules", "histories"],
    "every interleaving of the operations of up to three threads on up to two shared wrappers, every memory-order instantiation offered",
    "Tests check atomics with a single schedule; lost updates need a specific preemption.",
    [H+"utility.hpp"], [("atomic wrapper", H+"utility.hpp: CopyableMoveableAtomic")], ["returned values"])
add("C06", "OpenMP settings helpers report truthfully and restore what they change",
    "A scoped change of the OpenMP thread count gives parallel regions opened during its life at most the requested number of threads, and when it ends the thread count setting is what it was before, also when scopes nest, when they end by an exception and when the runtime delivers fewer threads than asked. "
    "Creating such a scope inside a parallel region of more than one thread, or with a count below one, is refused with an exception and changes nothing. "
    "The thread-count queries return what the runtime is configured to and do deliver, always at least one, without data races.",
    ["schedules", "configurations", "histories"],
    "every nesting of scopes up to a depth, every initial setting and runtime limit, inside and outside of parallel regions, every schedule",
    "Tests do not cover the scoped settings under runtime limits or nesting.",
    [H+"openmp_helpers.hpp", H+"parallelism.hpp"],
    [("RAII restore", H+"openmp_helpers.hpp: ChangeOmpNumThreadsWrapper"), ("queries in a parallel region", H+"openmp_helpers.hpp: GetNumOmpThreads")],
    ["OpenMP setting after the scope"])

add("C07", "Concurrent and nested calls that share only what they read do not interfere",
    "Any number of threads may at the same time read one object of the library through its const interface (grids, graphs, maybes, roadmaps, planner functions the library made, primitive collections), search, copy or serialize it, put overlays over it, and run the library's functions, planners and codecs on objects of their own. "
    "There is no data race inside of the library, and each call gives what it gives when it runs alone; so does a call made from inside of a user function (a distance, a validity check, a codec of elements) that another call is using. "
    "Not covered are threads that share an object which at least one of them changes, random engines and other stateful objects used by several threads, and trajectories of the time-optimal parametrization, which remember the last position queried and are for one thread at a time (copies are independent).",
    ["schedules", "inputs"],
    "every pair of operations over the parts of the library, every schedule within the preemption bound",
    "The tests run these operations in a single thread; hidden shared state (static buffers, caches behind const) shows only when two threads meet in it.",
    [H+f for f in ("voxel_grid.hpp", "dynamic_spatial_hashed_voxel_grid.hpp", "simple_graph.hpp", "simple_graph_search.hpp", "simple_rrt_planner.hpp", "simple_prm_planner.hpp", "simple_task_planner.hpp", "path_processing.hpp", "simple_dtw.hpp", "serialization.hpp", "zlib_helpers.hpp", "base64_helpers.hpp", "math.hpp")],
    [("const queries of the sparse grid", H+"dynamic_spatial_hashed_voxel_grid.hpp: GetLocationImmutable"), ("overlay over a shared base", H+"simple_graph.hpp: NonOwningGraphOverlay"), ("warping cost", H+"simple_dtw.hpp: EvaluateWarpingCost"), ("compression", "src/common_robotics_utilities/zlib_helpers.cpp")],
    ["the results of concurrent calls", "data races"])

# ---------------------------------------------------------------- data structures
add("D01", "A dense voxel grid is an exact bounded map from cells to values",
    "Every cell inside the grid's declared dimensions reads back the last value written to it, or the initial value if none was, whether it is addressed by index, by 3D or 4D position or by raw data offset, and every access outside reads as absent or refuses the write without touching any cell. "
    "Positions, cell indices, cell centres and raw offsets convert into each other consistently under any origin transform, each cell index owning exactly one raw offset. "
    "A value given to the grid may be one that the grid itself holds. "
    "Copies, clones and serialized round-trips are equal and independent of the original.",
    ["histories", "inputs", "configurations"],
    "every operation sequence up to a depth on every small grid shape, cell size and origin transform, and every index and boundary position around the grid",
    "Tests write each cell of one cubic grid once; they do not cover access sequences, non-cubic shapes, offsets versus positions at cell boundaries, or mutation of copies.",
    [H+"voxel_grid.hpp"],
    [("index <-> location <-> data index arithmetic", H+"voxel_grid.hpp: GridSizes / VoxelGridSizes"), ("bounds checks", H+"voxel_grid.hpp: VoxelGridBase Get*/Set*")],
    ["returned query results"])
add("D02", "Voxel grids tell the owner exactly which cell is about to change",
    "A voxel grid subtype that watches mutable access is told of every mutable access or write, before it happens, with the coordinates of the very cell accessed, and is never told of read-only access. "
    "If it refuses, the access is refused and no cell changes.",
    ["histories", "inputs"],
    "every access path (by index, by coordinates, by 3D and 4D position, by raw offset, whole-storage) at every cell of small non-cubic grids, with every allow/deny answer",
    "No existing test overrides the access hooks.",
    [H+"voxel_grid.hpp", H+"dynamic_spatial_hashed_voxel_grid.hpp"],
    [("access hooks", H+"voxel_grid.hpp: OnMutableAccess, OnMutableRawAccess"), ("access hooks", H+"dynamic_spatial_hashed_voxel_grid.hpp: OnMutableAccess")],
    ["hook calls"])
add("D03", "A chunked sparse voxel grid is an exact unbounded map",
    "Every position reads the last value written to its cell or to its chunk as a whole, the default value where only its chunk exists, and absent where nothing was written; writing one cell creates at most the one chunk that contains it and never alters another cell or chunk. "
    "No write to any finite position fails because of where it lies, including positions on or next to cell and chunk boundaries and on the negative side of the origin; a write to a position that is not finite is refused, and the written value may be one that the grid itself holds. "
    "Copies, clones and serialized round-trips are equal and independent, and reported chunk regions and sizes agree with the positions they serve.",
    ["histories", "inputs", "configurations"],
    "every operation sequence up to a depth over an alphabet of positions in and on the edges of neighbouring chunks, several chunk shapes, cell sizes and origin transforms",
    "Tests fill one grid of regular positions once; they never use boundary positions, non-representable cell sizes, or whole-chunk writes mixed with cell writes.",
    [H+"dynamic_spatial_hashed_voxel_grid.hpp"],
    [("chunk lookup and hashing", H+"dynamic_spatial_hashed_voxel_grid.hpp: GetContainingChunkRegion / chunk map")],
    ["returned query results"])
add("D04", "Graphs stay consistently linked and reject malformed node sets",
    "After any sequence of node and edge additions, including refused ones, a graph's outgoing and incoming edge lists mirror each other exactly as in a plain edge-list model, and queries on nodes and edges report that model. "
    "A node set is accepted as a graph if and only if every edge record names two existing, different nodes, is filed under its own end, and the node at its other end has a matching record; self-edges are refused. "
    "An operation that fails leaves the graph usable and consistently linked.",
    ["histories", "inputs"],
    "every operation sequence up to a depth on small graphs and every corruption of one edge record of every small graph",
    "Tests build one fixed graph; they do not enumerate mutation sequences or malformed node sets.",
    [H+"simple_graph.hpp"],
    [("edge insertion", H+"simple_graph.hpp: AddEdgeBetweenNodes"), ("linkage check", H+"simple_graph.hpp: CheckGraphLinkage")],
    ["graph queries"])
add("D05", "A graph overlay acts like a modified copy without touching its base",
    "A graph overlay driven through any sequence of node and edge additions reports exactly what a full copy of the base graph would report after the same sequence. "
    "The base graph is never modified, and searching the overlay gives the same answer as searching the modified copy.",
    ["histories"],
    "every operation sequence up to a depth over every small base graph, owning and non-owning overlays",
    "Tests use overlays only indirectly with one roadmap.",
    [H+"simple_graph.hpp"], [("copy-on-write node map", H+"simple_graph.hpp: NonOwningGraphOverlay")], ["overlay and base queries"])
add("D06", "Pruning a graph yields exactly the induced subgraph",
    "Removing a set of nodes from a graph yields the graph on the remaining nodes in their original order, with exactly the edges whose both ends remain, renumbered consistently and with weights, validity and scratch values kept. "
    "Members of the set that are not nodes of the graph have no effect. The source graph is unchanged, the result is consistently linked, and the result does not depend on the serial or parallel setting.",
    ["inputs", "configurations"],
    "every directed graph without self-edges up to 4 nodes and every set of nodes to remove",
    "Tests prune one fixed graph.",
    [H+"simple_graph.hpp"], [("pruning", H+"simple_graph.hpp: PruneGraph")], ["pruned graph"])
add("D07", "Maybe types hold, copy, move and release their value exactly once",
    "An owning maybe holds either nothing or one live value; after any sequence of construction, copy, move, assignment, self-assignment, reset and failed (throwing) assignment it reports and returns what the model says, and every value constructed inside it is destroyed exactly once. "
    "Copies are independent of each other, and moving moves the value instead of copying it. Reading an empty maybe throws, and a referencing maybe refers to the original object without owning it.",
    ["histories", "fault_sequences"],
    "every operation sequence up to a depth over two or three instances with every choice of a throwing copy or move",
    "Tests do one sequence per constructor with types that never throw.",
    [H+"maybe.hpp"], [("tagged union lifetime", H+"maybe.hpp: TaggedUnion")], ["construction/destruction ledger"])
add("D08", "A scope guard runs its action exactly once unless disabled",
    "An enabled scope guard runs its action exactly once when its scope is left, by normal flow or by an exception, and not before; a disabled guard never runs it. "
    "A guard cannot be created without an action, and reports whether it is enabled.",
    ["histories", "inputs"], "every sequence of enable queries, disables, nesting and exits up to a depth",
    "Tests check two straight-line uses.",
    [H+"utility.hpp"], [("scope guard", H+"utility.hpp: OnScopeExit")], ["action count"])

# ---------------------------------------------------------------- bytes
add("S01", "Serialization round-trips every supported value exactly",
    "Serializing any supported value (fixed-size types in host and network byte order, strings, pairs, vectors, maps, sets, fixed- and variable-size vectors, matrices and transforms, grids, graphs, trees) appends bytes to the buffer without disturbing those already there and reports how many. "
    "Deserializing from that place, at any offset and with any bytes following, returns an equal value and consumes exactly the bytes that were written. "
    "Network-byte-order encodings are big-endian on every host.",
    ["inputs", "histories"],
    "every shape of every supported type up to small sizes over an alphabet of edge values, at every small offset, alone and in sequence",
    "There is no dedicated serialization test; only grids are round-tripped once.",
    [H+"serialization.hpp", S+"serialization.cpp"], [("serializer/deserializer pairs", H+"serialization.hpp")], ["bytes and values"])
add("S02", "Deserializing damaged data fails cleanly",
    "Deserializing from a buffer that is truncated anywhere, read at an offset outside, or whose length headers are corrupted throws an exception or returns a value; it never reads outside the buffer, crashes, hangs or tries to allocate memory out of proportion to the buffer. "
    "A truncated encoding never deserializes successfully, and the number of bytes reported as read never passes the end of the buffer.",
    ["inputs", "fault_sequences"],
    "every truncation point and every length-header value from an alphabet of extreme values, for every supported type",
    "No test deserializes damaged data.",
    [H+"serialization.hpp", S+"serialization.cpp"], [("length checks", H+"serialization.hpp: Deserialize*")], ["exception or value"])
add("S03", "Base64 encoding round-trips and decoding any text is safe",
    "Encoding any byte string gives standard padded base64 text and decoding that text, with its padding or without it, returns the byte string. "
    "Decoding any other text never reads outside the text or the tables, and text that is not well-formed base64 is refused with an exception or decoded to bytes no longer than three quarters of it, rounded up.",
    ["inputs"], "every byte string up to 3 bytes, every position and value of longer strings by block, and every text up to 4 characters over an alphabet covering all character classes",
    "No test covers base64.",
    [S+"base64_helpers.cpp"], [("codec tables", S+"base64_helpers.cpp")], ["text and bytes"])
add("S04", "Compression round-trips and damaged compressed data is refused",
    "Decompressing what was compressed returns the original bytes for any input, of any size relative to the internal buffers, in memory and through a file. "
    "Truncated, empty or corrupted compressed data leads to an exception and never to silently shortened or wrong data, a crash or a hang.",
    ["inputs", "fault_sequences"],
    "every input length around the internal buffer sizes with compressible and incompressible content, every truncation point and every single-byte corruption of small compressed streams",
    "No test covers compression.",
    [S+"zlib_helpers.cpp"], [("inflate/deflate loops", S+"zlib_helpers.cpp")], ["bytes or exception"])
add("S05", "Saving or loading a compressed file never loses data silently",
    "When writing a compressed file returns normally, the file holds the complete data and loading it gives back exactly the bytes; if opening, any write or the final flush fails, the caller gets an exception. "
    "Loading a file that cannot be opened or fully read throws instead of returning partial data.",
    ["fault_sequences", "crash_points"],
    "every position at which open, write, read or close fails or is short, for small and multi-block data",
    "No test injects I/O faults.",
    [S+"zlib_helpers.cpp"], [("file helpers", S+"zlib_helpers.cpp: CompressAndWriteToFile, LoadFromFileAndDecompress")], ["file contents", "exceptions"])

# ---------------------------------------------------------------- search
add("G01", "Dijkstra search returns true shortest distances and usable paths",
    "Single-source search gives every node the true minimum cost of getting from it to the start node along directed edges, infinity exactly for nodes that cannot reach it, and following the recorded previous indices from any such node leads to the start along existing edges whose weights sum to that cost. "
    "A search result survives a serialized round-trip, and a start index out of range is refused.",
    ["inputs"], "every small directed graph over an alphabet of edge weights including zero and infinite, every start node",
    "Tests search one fixed graph.",
    [H+"simple_graph_search.hpp"], [("Dijkstra", H+"simple_graph_search.hpp: PerformDijkstrasAlgorithm")], ["distances and parents"])
add("G02", "A* search finds an optimal path if and only if one exists",
    "With an admissible heuristic (consistent or not), best-first search on a graph or over an implicit state space returns a path from a start to a goal along valid edges whose cost equals the reported cost and is the minimum over all starts (with their starting costs) and goals, and returns no path with infinite cost exactly when no goal is reachable. "
    "This holds with and without duplicate-state limiting, with edge validity checked eagerly or lazily and with any heuristic down to zero. "
    "Per-state bookkeeping reported in the result agrees with the returned path.",
    ["inputs", "configurations"],
    "every small weighted digraph, every pair of start and goal sets, every edge-invalidity pattern, several consistent and inconsistent admissible heuristics, every option combination",
    "Tests run one grid with one start and one goal.",
    [H+"simple_astar_search.hpp", H+"simple_graph_search.hpp"],
    [("A* search", H+"simple_astar_search.hpp: PerformAstarSearch"), ("graph A*", H+"simple_graph_search.hpp: PerformAstarSearch, PerformLazyAstarSearch")],
    ["path, cost and statistics"])
add("G03", "Roadmap construction adds exactly the valid nearby connections",
    "Adding a state to a roadmap connects it to its nearest neighbours up to the requested number (and no others), each direction only if that directed edge was found valid by the user's check and weighted with the user's distance in that direction; duplicate states are not added when this is requested. "
    "Growing or building a roadmap keeps adding only valid sampled states until told to stop, and updating edges sets each directed edge's weight to the current distance, or to infinity if it is invalid. "
    "The roadmap is always consistently linked, also when an added state is one that it already holds.",
    ["inputs", "configurations", "histories"],
    "every small roadmap and sample sequence, every answer pattern of asymmetric validity and distance functions, both connection directions, every neighbour count",
    "Tests use symmetric distance and validity functions in one environment.",
    [H+"simple_prm_planner.hpp"], [("roadmap insertion", H+"simple_prm_planner.hpp: AddNodeToRoadmap"), ("edge update", H+"simple_prm_planner.hpp: UpdateRoadMapEdges")],
    ["roadmap nodes and edges"])
add("G04", "Roadmap queries return optimal valid paths and leave the roadmap alone",
    "Querying a roadmap between start and goal states returns a path that begins at one of the starts, ends at one of the goals, moves only along valid roadmap edges or valid connections of the starts and goals, and is as cheap as any such path; it reports failure exactly when none exists. "
    "Queries on a constant roadmap leave it unchanged and agree with each other whether they use an overlay or a copy, eager or lazy edge checks, and single or multiple goals.",
    ["inputs", "configurations"],
    "every small roadmap, every edge-validity pattern, one or two starts and goals, all query variants",
    "Tests query one environment.",
    [H+"simple_prm_planner.hpp"], [("roadmap queries", H+"simple_prm_planner.hpp: QueryPath, LazyQueryPath, QueryPathAndAddNodesSingleStartSingleGoal")], ["path and cost"])
add("G05", "Tree planners return only paths that are in the tree and meet the goal",
    "Whatever the sampling, nearest-neighbour, propagation and goal-check functions answer, a single-direction tree planner keeps a consistently linked tree in which each added state hangs under the parent its propagation named, and returns exactly one path per goal state, from a root of the tree to that state along tree links. "
    "The goal check is made once for every state, as the tree stores it once the state-added callback is done with it. "
    "The state-added, goal-reached and termination callbacks are each optional where documented and called exactly when their event happens with the right index; the statistics count the samples as they happened. "
    "Single-path planning stops at the first solution.",
    ["inputs", "histories"],
    "every sequence of answers of the user functions up to a depth (including whole propagated subtrees, failed propagation and starts that already meet the goal)",
    "Tests run one random problem and check the path it finds.",
    [H+"simple_rrt_planner.hpp"], [("planner loop", H+"simple_rrt_planner.hpp: RRTPlanMultiPath"), ("tree linkage", H+"simple_rrt_planner.hpp: CheckNodeLinkage")],
    ["tree, callbacks, paths"])
add("G06", "Two-tree planners join the trees only where a connection was confirmed",
    "Whatever the user functions answer, a bidirectional tree planner extends only the active tree, and each returned path runs from a root of the start tree to a root of the goal tree along tree links, crossing once between two states that the connection check confirmed while exactly one of the trees was being extended or before planning began. "
    "Every confirmed connection yields one path, optional callbacks may be left out, callbacks get the right trees and indices, and statistics count what happened. "
    "Single-path planning stops at the first solution.",
    ["inputs", "histories"],
    "every sequence of answers of the user functions up to a depth, including tree swaps and already connected roots",
    "Tests run one random problem.",
    [H+"simple_rrt_planner.hpp"], [("planner loop", H+"simple_rrt_planner.hpp: BiRRTPlanMultiPath")], ["trees, callbacks, paths"])
add("G07", "Kinematic planner helpers take only checked, bounded steps",
    "Extend and connect propagation built from user functions produce states that start at the nearest state, are linked parent to child in order, are each at most one step size apart, and cross only edges that were checked and found valid; connect stops at the first invalid edge and otherwise reaches the target. "
    "Goal-biased sampling and uniform selection helpers return only offered states or indices, and return a goal, tree sample or tree swap exactly for the draws below the bias; invalid probabilities or step sizes are refused. "
    "Linear nearest-neighbour helpers return the index of a closest node, and timeout helpers report expiry exactly when more than the timeout has passed since they were started.",
    ["inputs"],
    "every small arrangement of states and edge-validity answers, step sizes that divide the distance or not, and draws around every threshold",
    "Tests exercise helpers through one random planning run.",
    [H+"simple_rrt_planner.hpp"], [("propagation helpers", H+"simple_rrt_planner.hpp: MakeKinematicRRT*PropagationFunction"), ("samplers", H+"simple_rrt_planner.hpp: MakeStateAndGoalsSamplingFunction")],
    ["propagated states, samples"])
add("G08", "Task planning finds optimal sequences and execution follows them",
    "Planning a task from a set of possible states returns a sequence that starts at one of them, moves only by primitives that are applicable in the state they are used in to one of their stated outcomes, and ends in a completing state at the minimum total stated cost of any such sequence; planning fails exactly when there is none. "
    "Executing a task performs, one after the other, the first primitive of an optimal sequence from the state selected among the real outcomes of the previous one, only in states where it is applicable, records every state acted from, ends with a recorded completing state or when the allowed number of executions is used up, and calls each optional callback at its event. "
    "A collection of primitives keeps the registered ones in order under unique names.",
    ["inputs", "histories"],
    "every small deterministic state machine with primitives over costs, rankings and outcome choices of the environment",
    "Tests run one example task.",
    [H+"simple_task_planner.hpp"], [("task planning and execution", H+"simple_task_planner.hpp")], ["policy and trace"])

# ---------------------------------------------------------------- paths
add("P01", "Path shortcutting keeps ends, validity and never lengthens",
    "For every sequence of random draws and every edge-validity answer, smoothing a path returns a path with the same first and last states in which every consecutive pair is an edge of the input path, a resampled piece of one, or was checked and found valid. "
    "The total length under a metric never grows, the input is not modified, checks only ever run between states of the current path or of the candidate shortcut, and the process stops at its iteration and failure limits.",
    ["inputs", "histories"],
    "every draw sequence from a grid of random values up to a bounded number of iterations, every validity pattern, option combinations, small paths",
    "Tests smooth one path with one random seed.",
    [H+"path_processing.hpp"], [("shortcut smoothing", H+"path_processing.hpp: ShortcutSmoothPath")], ["returned path and checks made"])
add("P02", "Path resampling keeps the path's shape and spacing",
    "Resampling a path returns a path with the same first and last states whose states lie on the input path in order, keeping every original state, and whose neighbouring states are no farther apart than the requested distance. "
    "Degenerate input (empty, single state, repeated states) comes back sensibly, and invalid distances are refused.",
    ["inputs"], "every small path over a grid of positions, every requested distance from an alphabet that divides the segments or not",
    "Tests resample one path.",
    [H+"path_processing.hpp"], [("resampling", H+"path_processing.hpp: ResamplePath")], ["returned path"])

# ---------------------------------------------------------------- numerics
add("N01", "K-nearest-neighbour search returns the k closest items",
    "Nearest-neighbour search returns exactly min(k, number of items) distinct items with their true distances such that no item left out is closer than one returned, in order of increasing distance whenever items are left out; results on ranges and on containers of any kind agree. "
    "A negative or zero k and an empty container behave sensibly: refused or an empty result.",
    ["inputs", "configurations"], "every small data set over a distance alphabet with ties, every k, every degree of parallelism",
    "Tests check one random set.",
    [H+"simple_knearest_neighbors.hpp"], [("KNN", H+"simple_knearest_neighbors.hpp")], ["returned items"])
add("N02", "Dynamic time warping returns the minimal alignment cost",
    "The dynamic-time-warping distance of two non-empty sequences is the minimum, over all monotone alignments that start at both beginnings and end at both ends, of the summed pairwise distances. "
    "An evaluator object gives the same answers when reused for pairs of any sizes in any order.",
    ["inputs", "histories"], "every pair of small sequences over a distance alphabet with ties, every reuse sequence",
    "Tests do not cover time warping.",
    [H+"simple_dtw.hpp"], [("DTW recurrence", H+"simple_dtw.hpp")], ["distance"])
add("N03", "Hausdorff distance and distance matrices match their definitions",
    "The one-sided Hausdorff distance from a first to a second non-empty set is the largest over the first set of the smallest distance to the second, from a distance function or from a matrix alike; empty sets and wrongly sized matrices are refused. "
    "A pairwise distance matrix holds the distance of each pair, zero on the diagonal of a set with itself.",
    ["inputs"], "every pair of small sets over a distance alphabet, serial and parallel",
    "Tests check one pair.",
    [H+"simple_hausdorff_distance.hpp", H+"math.hpp"], [("Hausdorff", H+"simple_hausdorff_distance.hpp")], ["distance"])
add("N04", "Hierarchical clustering partitions the data within the linkage limit",
    "Hierarchical clustering puts every item in exactly one cluster, merges only pairs at most the limit apart under the chosen linkage, always a closest pair first, and stops only when the closest remaining pair is farther than the limit. "
    "Single linkage thus yields the connected components at the limit, complete linkage clusters no wider than the limit, and the reported final distance is the last merge's distance; element clusters mirror index clusters.",
    ["inputs", "configurations"], "every symmetric distance matrix up to 5 items over a small alphabet with ties, every limit, both linkages",
    "Tests do not cover clustering.",
    [H+"simple_hierarchical_clustering.hpp"], [("agglomeration", H+"simple_hierarchical_clustering.hpp")], ["clusters"])
add("N05", "K-means labels every item with its nearest centre and terminates",
    "K-means clustering returns one label in range per item, terminates for every input, and on convergence every item carries the label of a closest cluster centre, where each centre is the weighted average of its items. "
    "Zero weights, more clusters than items, duplicates and a supplied initial centre set are handled or refused with an exception, never an endless loop.",
    ["inputs", "configurations"], "every small data set and weights over a grid, every cluster count, every initial choice",
    "Tests do not cover k-means.",
    [H+"simple_kmeans_clustering.hpp"], [("k-means", H+"simple_kmeans_clustering.hpp")], ["labels"])
add("N06", "Time-parametrized trajectories follow the path within the limits",
    "A time-optimal trajectory starts at rest at the first waypoint and ends at rest at the last at a positive finite duration, stays within the allowed deviation of the waypoint path, and nowhere exceeds the per-joint velocity limits or (beyond discretization) acceleration limits; reported velocity matches the change of position. "
    "After the end it stays at rest at the last waypoint. Answers depend only on the queried time, not on the order of queries, and a clone gives the same answers as the original and remains usable after the original is gone. "
    "Ill-defined input is refused with an exception, never an endless computation.",
    ["inputs", "histories"], "every small waypoint path over a grid, limit combinations and deviations, every query order up to a depth, clones taken at any time",
    "Tests do not cover trajectory parametrization.",
    [S+"time_optimal_trajectory_parametrization.cpp"], [("phase-plane integration", S+"time_optimal_trajectory_parametrization.cpp: Trajectory"), ("segment cache", S+"time_optimal_trajectory_parametrization.cpp: GetTrajectorySegment")],
    ["sampled positions and velocities"])
add("N07", "Continuous revolute arithmetic respects wrap-around",
    "Wrapping an angle gives the same angle modulo a full turn in the half-open interval from minus pi to pi; signed differences are the shortest turn from one angle to the other, distances are symmetric and at most pi, and adding the difference to the first angle gives the second. "
    "Interpolation runs along that shortest turn and hits both ends, and range and bounds checks accept exactly the angles met when turning forward from start to end.",
    ["inputs"], "every pair and triple of angles from a grid of multiples of fractions of pi over several turns with neighbouring floating-point values",
    "Tests check a few angles.",
    [S+"math.cpp"], [("wrapping", S+"math.cpp: EnforceContinuousRevoluteBounds")], ["returned angles"])
add("N08", "Interpolation, averages and vector operations match their definitions",
    "Interpolation between two values, vectors, rotations or transforms clamps the ratio to the unit interval, returns the ends at its ends, and is the linear (for rotations: shortest-arc constant-speed) blend between; linear, bilinear and trilinear lookup agree with the corner values. "
    "Weighted averages equal the weighted mean (for rotations, a unit quaternion along the principal axis of the weighted quaternions) whatever the order and sign of weights, with zero-weight items ignored. Element-wise vector operations, norms and distances match the scalar definitions, and mismatched sizes, empty input and all-zero weights are refused.",
    ["inputs"], "every combination of small vectors, weights and ratios from grids with edge values",
    "Tests check few instances of some functions.",
    [H+"math.hpp", S+"math.cpp"], [("interpolation and averaging", S+"math.cpp")], ["returned values"])
add("N09", "Projections, planes and rigid-body algebra match their identities",
    "Projection and rejection of a vector split it into a parallel and a perpendicular part that sum to it; arbitrary orthogonal vectors are non-zero and orthogonal; a fitted plane contains coplanar points; plane distances and projections agree. "
    "Skew and twist conversions invert each other, the twist between two transforms integrates from one to the other, also around half a turn, and adjoint transformation agrees with conjugation.",
    ["inputs"], "every combination of small vectors, transforms and twists from grids",
    "Tests check few instances.",
    [H+"math.hpp", S+"math.cpp"], [("projection, Hyperplane, twists", H+"math.hpp")], ["returned values"])
add("N10", "Random helpers stay in range and random generators are reproducible",
    "For every draw in the half-open unit interval, index and range helpers return a value inside the requested range, reaching both ends and every value in equal shares, and refuse empty ranges; random rotations are unit quaternions (and in-range angles) for every draw. "
    "Each pseudo-random generator gives the published sequence for its seed, re-seeding restarts it exactly, and discarding n values equals drawing n.",
    ["inputs", "histories"], "every draw from a grid incl. the extreme values, every small range, every sequence of draw, discard and reseed up to a depth",
    "Tests only sample the generators.",
    [H+"utility.hpp", H+"simple_prngs.hpp", H+"random_rotation_generator.hpp"], [("index helpers", H+"utility.hpp: GetUniformRandomIndex"), ("generators", H+"simple_prngs.hpp")], ["returned values"])
add("N11", "General utility helpers match their set, bit and clamp definitions",
    "Clamping and spreading return the value or the right limit and refuse inverted limits; bit set and get act on exactly the addressed bit of every unsigned width. "
    "Subset and equality of collections compare with multiplicity and ignore order, and conversions between maps, keys and values lose nothing; of repeated keys the last one given counts.",
    ["inputs"], "every small combination of values, limits, bit positions and collections",
    "Tests check a few collections.",
    [H+"utility.hpp"], [("helpers", H+"utility.hpp")], ["returned values"])
add("N12", "Colours stay in range and convert consistently",
    "Every way of making, setting or converting a colour yields channels between 0 and 1, byte channels round-trip exactly through floats, and out-of-range input is clamped. "
    "The hot-to-cold ramp is continuous, goes from blue to red over the range and saturates outside it; unique colours are distinct for the codes that promise it and carry the requested alpha.",
    ["inputs"], "every byte value, a dense grid of float values and ramp positions, every colour code",
    "No test covers colours.",
    [H+"color_builder.hpp"], [("colour construction", H+"color_builder.hpp")], ["channels"])
add("N13", "Transform conversions round-trip and agree with each other",
    "Roll-pitch-yaw values convert to rotations in the documented axis order (and the reverse order for the URDF forms), converting a transform to roll-pitch-yaw and back gives the same transform, and every overload agrees. "
    "Conversions between standard vectors and fixed-size vectors or quaternions keep element order and round-trip, and wrong sizes are refused.",
    ["inputs"], "every combination of angles and offsets from a grid including gimbal-lock angles, vectors of every small size",
    "No test covers conversions.",
    [S+"conversions.cpp"], [("conversions", S+"conversions.cpp")], ["returned values"])

add("N14", "Gaussian functions and samplers match their distributions",
    "For every state of the generator, a sample from a truncated Gaussian distribution lies within its bounds (however narrow, one-sided or hundreds of deviations away from the mean) and is obtained after a bounded number of draws on average; "
    "samples follow the stated distribution, and multivariate samples have the stated mean and covariance, singular ones included. Probabilities and densities match their definitions, also far out in the tails, and inverted bounds, invalid deviations and mismatched sizes are refused.",
    ["inputs", "histories"], "every sequence of extreme generator outputs up to a depth, every pair of bounds from a grid, complete grids of outputs for the distribution",
    "No test covers Gaussian distributions.",
    [H+"gaussian_distributions.hpp"], [("truncated sampler", H+"gaussian_distributions.hpp: TruncatedGaussianDistribution"), ("multivariate sampler", H+"gaussian_distributions.hpp: MultivariteGaussianDistribution")], ["samples", "returned values"])
add("N15", "Printing shows every element exactly once and in order",
    "Printing a container gives the text of each of its elements exactly once, in iteration order and separated by the given separator, however deeply containers are nested, with brackets around non-empty containers exactly when delimiters are asked for. "
    "The numbers of printed vectors, matrices, quaternions and transforms can be read back in order to twelve digits, and a printed graph shows every node with each of its edges.",
    ["inputs"], "every container kind with every small content, nesting, separator and delimiter setting",
    "Tests print three containers and look at nothing.",
    [H+"print.hpp"], [("printing", H+"print.hpp: Print")], ["returned text"])

add("N16", "ROS message conversions keep every value and every orientation",
    "Converting points, vectors, quaternions, poses and transforms between ROS messages and Eigen types, singly or in collections, keeps every coordinate, every orientation (up to the sign of its quaternion), every element in order and the given frame names, for ROS 1 and ROS 2 alike. "
    "A homogeneous point ends in 1 and a homogeneous vector in 0. Setting timestamps changes the timestamp of every message and nothing else.",
    ["inputs"], "every coordinate, orientation, collection size and name",
    "No test includes these files: they are only built where ROS is installed.",
    [H+"ros_conversions.hpp", "src/common_robotics_utilities/ros_conversions.cpp", H+"ros_helpers.hpp"], [("converting", H+"ros_conversions.hpp: namespace ros_conversions"), ("timestamps", H+"ros_helpers.hpp: SetMessageTimestamps")], ["returned messages and Eigen values"])
add("N17", "Robot models measure distances from where they are",
    "For every robot model the distances per dimension are the magnitudes of its own signed distances between the same two configurations, in that order. "
    "The distances to a configuration are those from the model's position at the time of the call, for the model and for its clones, and measuring never moves the model.",
    ["histories", "inputs"], "every model, position and order of moves, questions and clones",
    "No test calls these functions.",
    [H+"simple_robot_model_interface.hpp"], [("distances", H+"simple_robot_model_interface.hpp: SimpleRobotModelInterface")], ["returned distances", "the model's position"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
