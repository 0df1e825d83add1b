"""What each check builds and how long it may run."""
ASAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fopenmp", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]   # one allocator for instrumented and plain objects
MATH = ["-O1", "-fopenmp", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-D_GLIBCXX_ASSERTIONS"]   # slow to compile, so without the sanitizer
PLAIN = ["-O2", "-fopenmp"]
LD_ASAN = ["-fsanitize=address", "-fopenmp", "-lz", "-lpthread"]
LD_PLAIN = ["-fopenmp", "-lz", "-lpthread"]
SRC = "@repo/src/common_robotics_utilities/"


def seq(pid, repo=(), asan=True, bounds="", assumptions=(), quick=20, thorough=900, extra=(), ld=(), harness=None, hang=15, parts=()):
    f = (ASAN if asan else PLAIN) + list(extra)
    srcs = [dict(src=f"@verif/harness/{harness or pid}.cpp", flags=f), dict(src="@verif/lib/mc.cpp", flags=f)]
    srcs += [dict(src=f"@verif/harness/{p}.cpp", flags=f) for p in parts]
    srcs += [dict(src=SRC + r + ".cpp", flags=MATH if r == "math" else f) for r in repo]
    return dict(variants={"main": dict(srcs=srcs, ldflags=(LD_ASAN if asan else LD_PLAIN) + list(ld))},
                quick=quick, thorough=thorough, bounds=bounds, assumptions=list(assumptions), hang=hang)


TECHNIQUE = {
    "seq": "explicit-state model checking of the implementation: exhaustive depth-first enumeration of bounded operation/input/environment-answer sequences against a reference model",
    "sched": "stateless model checking of the implementation: exhaustive preemption-bounded schedule enumeration under a controlled scheduler with vector-clock race detection",
}
CHECKS = {}
CODECS = ["codecs_1", "codecs_2", "codecs_3", "codecs_4"]
CHECKS["D01"] = seq("D01", ["serialization"], bounds="6 grid shapes up to 4x3x4 cells, 4 origins, operation sequences of length 2 (quick) / 3 (thorough); index arithmetic of grids of up to 2^63 cells; real grids of up to 120 000 cells; locations from 1e10 to infinity and NaN; the grid's own values as arguments, sequences of 2 (3)")
CHECKS["D02"] = seq("D02", ["serialization"], bounds="dense grids up to 3x2x2 cells, sparse grid with 2x3x1-cell chunks, every access form at every cell and just outside, allow/deny, sequences of 1-2 (quick) / 2-3 (thorough) accesses; the watcher refuses the first or the second call it gets; grids of 13x40x17 cells (70x14x300) and chunks of 16x9x33 cells up to 100000 cells away")
CHECKS["D03"] = seq("D03", ["serialization"], bounds="3 chunk shapes/origins, operation sequences of length 3 (reduced alphabet after the first step in quick) over 5 cells in 4 chunks; all k*cell boundaries |k|<=20 (60 thorough) around 3 offsets, 8 cell sizes, 4 chunk lengths, -2..+2 ulp; regions of 5832 cells around 3 centres; positions up to 1e300, infinite and NaN; the grid's own values as arguments, sequences of 2 (3)")
CHECKS["D04"] = seq("D04", ["serialization"], bounds="graphs of up to 3 nodes, operation sequences of length 5 (6 thorough) incl. refused ones; all simple digraphs of up to 3 nodes with one (two for 2 nodes, thorough two) corrupted edge records; graphs of 17, 64 and 300 nodes with every kind of single wrong record at 5 places; the graph's own nodes and edges as arguments; graphs of 33 000 and 66 000 nodes; weights and scratch values of 10 and 5 kinds; edge equality over pairs of 7 indices")
CHECKS["D05"] = seq("D05", ["serialization"], bounds="all simple base digraphs of 1-3 nodes, operation sequences of length 4/3/2 (5/4/3 thorough), then all searches; overlays of bases of 40 and 200 nodes; overlays assigned over one another, overlays of overlays, their own nodes as arguments; a base of 66 000 nodes changed at 4 of 9 places")
CHECKS["D06"] = seq("D06", ["serialization"], bounds="all simple digraphs of 1-4 nodes (thorough also 5) x all node subsets, 7-node ring-with-chords x all subsets, serial and 2/3/8 threads; graphs of 33 and 150 nodes x 84 pruning patterns; 9 kinds of indices that are no nodes in the set; 300 nodes, and 8 prunings of 33 000 and 66 000 nodes")
CHECKS["G01"] = seq("G01", ["serialization"], bounds="all weighted digraphs of up to 3 nodes over {none,0,1,2,5,inf}, of 4 nodes over {none,1} ({none,1,3} thorough), all 3-edge multigraphs, layered graphs of 9-11 nodes, every start; grids, chains and hubs of 65-90 nodes, every start")
CHECKS["G02"] = seq("G02", ["serialization"], bounds="all weighted digraphs of 2-3 nodes x start sets of 1-2 with costs x all goal sets x validity x 5 heuristics (2 inconsistent) x duplicate limiting; 4-node (5 thorough) structured graphs; grids, chains and hubs of 41-60 states", quick=40)
CHECKS["D07"] = seq("D07", [], bounds="two maybes, operation sequences of length 4 (5 thorough), 3 (4) with every copy/move free to throw; vectors of maybes, sequences of 4 (6); referencing maybes, sequences of 4 (5)")
CHECKS["D08"] = seq("D08", [], bounds="up to 3 (4 thorough) nested guards, 6 disabling times x 4 ways of leaving x caught/rethrown each; 3 heap guards in every order")
CHECKS["S01"] = seq("S01", ["serialization"], parts=CODECS, bounds="about 65 codecs x 1-5 sample values x 5 prefixes x 4 suffixes; all ordered codec pairs (triples thorough); all 16-bit values, every byte value at every position of wider network types; strings, vectors, maps and sets of up to 4097 (100 003 without inner serializers) elements; deserializing into objects in use; structures of many thousand parts")
CHECKS["S02"] = seq("S02", ["serialization"], parts=CODECS, ld=["-Wl,--wrap=malloc"], bounds="about 65 codecs x all sample values: all truncations, all inner and 10 outer offsets, all 8-byte windows x ~70 hostile values, all bytes x 8 values (thorough: pairs of windows)")
CHECKS["S03"] = seq("S03", ["base64_helpers"], bounds="all byte strings to 2 bytes (3 thorough), all single-byte variations of strings of 3-17 bytes, lengths to 299; all texts to 5 (6) characters over 13 classes and to 2 (3) over all characters; 9 lengths to 262 145")
CHECKS["S04"] = seq("S04", ["zlib_helpers"], bounds="lengths 0-64 (600 thorough), +-2 around 64 KiB, 1 and 2 MiB (to 5 MiB) plain, +-3 around 1, 2 (3) MiB compressed, 4 contents; all truncations and single-byte changes of 7 small streams (thorough: byte pairs)")
CHECKS["S05"] = seq("S05", ["zlib_helpers"], asan=False, ld=["-ldl"], bounds="5 data sizes; every I/O call of the file x {success, short, EINTR, failure}, up to 2 (3 thorough) deviations; file size limits at up to 30 points")
TSAN = ["-O1", "-fsanitize=thread", "-Wno-tsan", "-fno-pie"]
RT = ["-O2", "-fno-pie", "-fno-threadsafe-statics"]
LD_SCHED = ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", "-lz", "-lpthread", "-ldl"]


def sched(pid, repo=(), omp=True, asyn=False, bounds="", assumptions=(), quick=20, thorough=900, harness=None, hang=60, weights=(1, 1), parts=(), ld=()):
    """Schedule exploration: the harness and the code under test are instrumented, the runtime is not."""
    variants = {}
    for name, on, fl, w in (("omp", omp, ["-fopenmp"], weights[0]), ("async", asyn, [], weights[1])):
        if not on:
            continue
        f = TSAN + fl
        srcs = [dict(src=f"@verif/harness/{harness or pid}.cpp", flags=f),
                dict(src="@verif/lib/mc.cpp", flags=RT), dict(src="@verif/lib/mcs.cpp", flags=RT)]
        srcs += [dict(src=f"@verif/harness/{p}.cpp", flags=f) for p in parts]
        srcs += [dict(src=SRC + r + ".cpp", flags=f) for r in repo]
        variants[name] = dict(srcs=srcs, ldflags=LD_SCHED + list(ld), weight=w)
    return dict(kind="sched", variants=variants, quick=quick, thorough=thorough, bounds=bounds, hang=hang,
                assumptions=["interleavings at synchronization operations under sequential consistency; other memory orders through happens-before race detection"] + list(assumptions))


CHECKS["C01"] = sched("C01", asyn=True, quick=24, weights=(3, 1), bounds="ranges of 0-7 indices from 5 starts, 1-6 threads, 1/2/3/all delivered, all 4 loops x 3 backends under the default schedule and single preemptions; 2-3 indices on 2-3 threads with up to 2 preemptions (3 thorough) and all blocking choices; spurious wake-ups; static division of up to 59 indices among up to 24 threads; 33, 100 and 257 indices on up to 16 threads, ranges at both ends of the 64-bit integers, ranges of up to 2^63-1 indices through the static loops; dynamic loops over such ranges left by their work; 33 000 indices through the dynamic loops")
CHECKS["C02"] = sched("C02", asyn=True, quick=24, weights=(3, 1), bounds="2-3 indices (5 for the wide scenarios) on 2-3 threads, every set of throwing indices, up to 1 preemption (2 thorough) plus all blocking choices, 2-index configurations with up to 2 (3), spurious wake-ups 1 (2), 1-3 failing thread creations")
CHECKS["C05"] = sched("C05", quick=24, bounds="programs of 1 thread x 3, 2 threads x 2 and 3 threads x 1(+1) operations (3 x 2,2,1 thorough) over 12 operations on two wrappers, every interleaving; message passing over 8 writers x 4 paths x 7 readers, every interleaving")
CHECKS["C06"] = sched("C06", asyn=True, quick=24, weights=(3, 1), bounds="4 initial settings x 3 delivered counts x 2 limits, sequences of 4 (5 thorough) operations, of 5 (6) for one configuration; teams of 2-3 with up to 3 (4) scheduling deviations")
CHECKS["C07"] = sched("C07", ["serialization", "base64_helpers", "zlib_helpers", "conversions", "math", "time_optimal_trajectory_parametrization"], parts=["C07_graphs", "C07_values", "C07_planners"], ld=["-Wl,--wrap=inflate,--wrap=deflate"], quick=40, bounds="31 operations, every pair of them in two threads that run both in opposite order, each in three threads twice; each beside itself with 1 preemption (2 thorough), every pair with 1; each called out of 6 (30) callbacks of each other one")
CHECKS["C03"] = sched("C03", asyn=True, quick=26, weights=(3, 1), bounds="data sets of up to 4-5 values (6 thorough) over 3-value alphabets with ties, larger fixed ones, 2-4 threads, 1/2/all delivered, outside and inside of a parallel region of 2; schedules with up to 2 (3) deviations on 3-4 items")
CHECKS["C04"] = sched("C04", ["serialization"], asyn=True, quick=26, weights=(3, 1), bounds="graphs and roadmaps of up to 5 nodes (6 thorough) over 6 edge shapes and 4 validity patterns, 2-4 threads, 1/2/all delivered, outside and inside of a parallel region of 2, default schedule; pruning, update, insertion, building with 3-4 items under schedules with up to 2 (3) deviations")
CHECKS["G03"] = seq("G03", ["serialization"], bounds="insertion into roadmaps of 0-3 nodes (with equal values), k 0..n+1, all distance (2-4 values) and validity answers; growing over 3 (4 thorough) samples; building up to 3 (4) nodes; edge updates on all multigraphs of up to 3 nodes; 45 insertions in a row and 18-node builds for k up to 60; roadmaps of 300 and more nodes, hundreds of tries for a state", quick=35)
CHECKS["G04"] = seq("G04", ["serialization"], bounds="roadmaps of 0-3 nodes with edge weights over {none, d, 2d, infinite} in each direction, 1-3 starts and goals (on, off and between nodes), k 0-3, all validity answers on up to 2 nodes, 5 validity patterns on 3 nodes, all options, all 6 entry points; 14 and 25 nodes with k up to 30; a roadmap of 300 nodes in a row; one of 70000 nodes, whole or cut in two", quick=35)
CHECKS["G05"] = seq("G05", ["serialization"], bounds="forests of 1-3 nodes, 1-3 samples, 4-11 propagation shapes plus 6 malformed ones, all answers; all node lists of up to 3 nodes (4 thorough) for the linkage check; tree operations of length 5 (6); runs of 60 (300) samples whose answers follow 21 arithmetic sequences; trees of 300 and 70 000 nodes, propagations of 300 states, many goals")
CHECKS["G06"] = seq("G06", ["serialization"], bounds="pairs of forests of 1-2 nodes, 1-2 rounds (3 thorough), 4-11 propagation shapes plus 6 malformed ones, all answers; runs of 60 (300) rounds whose answers follow 21 arithmetic sequences; trees of 300 and 70 000 nodes, propagations of 300 states, many bridges")
CHECKS["G07"] = seq("G07", ["serialization"], ld=["-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"], bounds="propagation over 2 starts x 9 targets x 10 step sizes (to 60 steps; 150, thorough 2000 for long ones) with all validity answers, arbitrary distance answers from 6 values; 6 biases x boundary draws; trees of up to 5 nodes (6 thorough) x 3 distances x 3 degrees of parallelism, of 17-500 nodes with the closest at each place x 6 degrees; timeout operation sequences of 6 (7)")
CHECKS["G08"] = seq("G08", ["serialization"], bounds="2-4 states x 1-2 primitives x 1-2 start states, 3-12 outcome lists per state and primitive, 3 heuristics, all applicability and completion answers; executions of up to 4 steps with 3-4 results, limits -1 to 3; collection operation sequences of 4 (5 thorough); 96 rule-made tasks of 12 and 60 (250) states; up to 300 primitives, start states and outcomes")
CHECKS["P01"] = seq("P01", ["math"], bounds="10 paths of 0-6 states, up to 1 iteration over 7x7 draws, 2 over 4x4, 3 over 3x3, every validity answer, 0-3 backtracking steps, resampling, marginal check, limits 0..iterations; paths of 20 and 60 (300) states, 80 (400) iterations, 15 draw sequences, 5 answer rules")
CHECKS["P02"] = seq("P02", [], bounds="all paths of up to 5 states (6 thorough) over 5 points, 4 (5) over 6 collinear points and 5 angles, 16 distances incl. invalid ones; long paths")
CHECKS["N01"] = seq("N01", [], bounds="0-9 items with every assignment of 2-5 distances incl. ties, negative and infinite, every range, every k incl. extreme, serial and 2-8 threads, two containers; up to 20000 items (70000)")
CHECKS["N02"] = seq("N02", [], bounds="every matrix of distances of 1x1-3x3 over 4-5 values, 3x4/4x3 over 2-3, 4x4 over 2 (thorough to 4x5); 1-3 (4) reuses of an evaluator over all sizes to 5x5; tables of up to 300x310 (1100x1000)")
CHECKS["N03"] = seq("N03", [], bounds="every distance assignment for sets of 1x1-3x2 over 5 values, 3x3 over 3 (4 thorough), 4x3/3x4 over 2; all symmetric distances of up to 5 items; serial and 2-8 threads; all set and matrix sizes to 3; sets of up to 300 (900) items")
CHECKS["N04"] = seq("N04", [], bounds="every symmetric matrix over 5 distances (incl. one ulp apart, infinite) of up to 3 items, 4 of 4, 3 of 5 (thorough: 2 of 6), 1-6 limits, both linkages, all interfaces, serial and 2-4 threads; 8-40 items in 3 kinds of arrangement; three pairs, and two pairs and an item, at distances that differ by little")
CHECKS["N06"] = seq("N06", ["time_optimal_trajectory_parametrization", "math"], bounds="2-D paths of 2-3 waypoints over 6 points and of 4 over 4 (6 thorough), 1-D and 3-D paths of 2-3, repeated waypoints, 4 limit pairs, deviations 0/0.1/0.5, steps 0.002-0.01; query and clone sequences of 3-5 (4-6) over 3 trajectories; 7 kinds of ill-defined input; paths of up to 20 waypoints and 7 joints")
CHECKS["N07"] = seq("N07", ["math"], bounds="about 3200 angles over 3 turns with neighbours; all pairs of 296 (584 thorough) angles x 7 ratios; all triples of 37 (about 150 thorough) angles")
CHECKS["N08"] = seq("N08", ["math"], bounds="vectors of 0-4 values over grids of 3-10, 13 ratios incl. infinite and one ulp outside, 28 rotations in pairs and triples, weights over 3-5 values incl. zero and negative, all corner values and query points of 1-3 dimensional lookups over 2-6 values; averages and vector operations of many values, averages of up to 100 rotations")
CHECKS["N09"] = seq("N09", ["math"], bounds="vectors of 0-3 (4 thorough) components over 3-11 values incl. tiny and huge, planes in 1-3 dimensions, 0-4 (5) points on and off planes, all pairs of 122 transforms incl. turns within 1e-13 of half a turn, twists over 3 (4) values per component; vectors and planes of up to 17 dimensions, fits of up to 100 points")
CHECKS["N05"] = seq("N05", [], bounds="every data set of 1-6 items over 3-5 points (with duplicates), weights over up to 3 values incl. zero, every number of clusters, every initial choice reached by 400 seeds; preliminary clustering of 73-120 items in 4 blocks; serial and 2-3 threads; 100-299 clusters of 300 items; 300 and 600 items that need a hundred rounds")
CHECKS["N10"] = seq("N10", [], asan=True, extra=["-fsanitize=undefined", "-fno-sanitize-recover=undefined"], ld=["-fsanitize=undefined"], bounds="8 integer types: every size 1-24 (100 thorough) and near the type's limits, every pair of 14-19 range ends incl. the widest, over draws k/n with neighbours and extremes; every triple/quadruple of draws from grids of 30-60 values; 3 generators: every operation sequence of length 4 (6 thorough) from 6 seeds")
CHECKS["N11"] = seq("N11", [], bounds="6 arithmetic types x every triple/quadruple of 7-16 values incl. the extremes; every bit x every 8-bit (thorough 16-bit) value and every value of up to two bits, their complements and predecessors for wider types; every pair of collections of up to 4 (5 thorough) items over 3 values in 6 container pairings; every map over 4 (5) keys and 4 values; alignments to 130; small hashes; futures; collections and maps of up to 1000 items")
CHECKS["N12"] = seq("N12", [], bounds="every byte in every channel, channel quadruples over 6-12 values, 16384 (2^20 thorough) float levels, ramps over 6 ranges x 400 (4000) positions with neighbours, codes 0-20 and 6 beyond x 12 alphas")
CHECKS["N13"] = seq("N13", ["conversions"], bounds="every triple of 45 (77 thorough) angles to two turns incl. gimbal lock to 1e-12 x 3 offsets; vectors of 0-9 (19) elements; element grids with extremes")
CHECKS["N14"] = seq("N14", [], bounds="3 means x 3 (4 thorough) deviations x every pair of 18 (21) bounds to 1000 deviations and infinity x every sequence of 2 (4) of 7 extreme generator outputs, 3 samples; distributions over complete grids of 160^2 (400^2) outputs for every pair of 14 bounds; functions at 25 values x all pairs of 25 bounds; all covariances L*L^T of 1-3 dimensions over 3-5 values")
CHECKS["N15"] = seq("N15", ["serialization"], bounds="15 container kinds x contents of up to 3 elements over 2-3 values, nested to 3 levels, 4 separators, with and without delimiters; vectors, matrices and transforms over 2-6 numbers; graphs of up to 3 nodes, and of 40 and 300 with up to 299 edges at one node; containers of up to 1025 items, matrices of up to 100 x 16")


def ros(pid, bounds):
    """Built once for each ROS generation, with stand-ins for the ROS messages (lib/ros)."""
    one = {n: seq(pid, ["ros_conversions"], extra=[f"-DCOMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION={n}"]) for n in (1, 2)}
    return dict(one[1], variants={f"ros{n}": dict(one[n]["variants"]["main"], weight=1) for n in one}, bounds=bounds,
                assumptions=["ROS is not installed: the message types are stand-ins with the members and defaults of the generated ones"])


CHECKS["N16"] = ros("N16", bounds="for ROS 1 and ROS 2: every point, vector and quaternion over 9 values incl. signed zeros, infinity and NaN; 648 rotations (2424 thorough) and rotations within 1e-13 of none and of half a turn x 4 offsets; collections of 0-24 (80), 255-257, 1025 and 5000 (70000) elements; 6x6 names; timestamps of 0-20 and 300 messages in 3 containers")
CHECKS["N17"] = seq("N17", [], bounds="models of 0-2 (3) joints over 7 values, every position and argument; every sequence of 4 (6) moves, questions and clones over 3 places; every answer of 0-3 (4) of 10 values incl. infinite and NaN; 5 to 1000 joints with one or two moved")
