# The property table: properties.jsonl, MANIFEST.json and checker/props.json are
# generated from it (python3 tools/gen.py).
SPEC = "semantic comparison of the anchored functions (SSA form, loops summarised) with their specification"

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, rule="", assume=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(),
                  mech=mech, state=list(state), observe=list(observe), technique=technique or SPEC, rule=rule,
                  assume=list(assume), note=note))

prop("C01", "Output lines are ordered subsets of the input vertices, both ends kept",
     "Every emitted line consists only of vertices of the input line it stands for, unchanged, without repetition and in their original order. Its first and last vertices are the input's first and last vertices. This holds for every algorithm, option set and number of lines simplified together.",
     "inputs configurations", "all lines, all option combinations, with and without feature-class mode",
     "The tests compare the output of a few dozen fixed lines; the kept set is rebuilt on several code paths (plain, feature class, after merging) that a wrong index or a lost piece corrupts only for particular lines.",
     "constdp/fc_simplify.go constdp/simplify.go constdp/fc_group.go main.go simplify.go dp/dp.go",
     [("kept-vertex set rebuilt from both ends of every final piece", "constdp Simplify / groupHullsByFC"), ("coordinates of the kept set in ascending order", "main setSimpleCoords")],
     [("SimpleSet", "ordered set of kept vertex indices", "dp.DouglasPeucker")], ["GeoJSON written to output"],
     rule="the kept set is emptied and rebuilt from both ends of exactly the final pieces on every path; the emitted coordinates are the input's at exactly those indices, ascending")

prop("C02", "Pieces always tile the line they were cut from",
     "At every stage (first decomposition, splitting, refinement, merging) the pieces of one line, taken in order, start at its first vertex, end at its last, and each begins at the vertex where the previous one ends. Every piece holds exactly the input vertices of its range, in order.",
     "inputs histories", "all lines, all sequences of splits and merges",
     "Tests look at a few splits; a piece whose coordinates and range drift apart, or a gap or overlap of one vertex, shows only for split positions the samples do not hit.",
     "decompose/decompose.go constrain/split.go constrain/toself.go split/split.go merge/merge.go node/node.go node/contig.go rng/rng.go rng/split.go geometry/pln.go constdp/decompose.go common/common.go",
     [("piece built from a range of the line with the coordinates of that range", "node CreateNode"), ("splitting a range at interior indices", "rng Split, split AtIndex"), ("joining two contiguous pieces", "merge ContiguousCoordinates")],
     [("Range", "first and last vertex index of a piece", "node.Node")], [],
     rule="every constructor of pieces yields ranges that partition its input range and coordinates sliced by the same range")

prop("C03", "Every kept segment respects the distance threshold",
     "A segment of the result replaces a run of input vertices only if the configured offset score of the run satisfies the threshold relation, or the run is a single segment. This holds for pieces made by the first decomposition, by splitting at conflicts or junctions, and by merging.",
     "inputs configurations histories", "all lines, thresholds, scores and constraint-driven split or merge sequences",
     "Tests check the vertex count or WKT of sample results; a piece that skips re-scoring after a split or merge exceeds the threshold only for particular shapes.",
     "decompose/decompose.go constdp/decompose.go constdp/simple_1.go split/split.go merge/merge.go dp/dp.go offset/dp.go offset/sed.go",
     [("recursive decomposition stops only within the threshold or at a single segment", "decompose DouglasPeucker"), ("split pieces are scored again", "constdp refine"), ("merged run is scored as a whole", "merge ContiguousFragmentsAtThreshold")],
     (), [], rule="every piece that leaves decomposition, splitting or merging is guarded by size <= 1 or relation(score(its coordinates))",
     assume=["the threshold relation is the configured comparison with the threshold"])

prop("C04", "The offset score is the largest deviation and names an interior vertex",
     "For a run of at least three vertices the score is the maximum over all interior vertices of the vertex's deviation from the chord (for the time-aware score, from the synchronised position on it), and the index returned is an interior vertex attaining it. Shorter runs score zero. The squared score is the same decision on squared deviations.",
     "inputs", "all coordinate sequences, including repeated, collinear and equal-time vertices",
     "Tests score a handful of short lines; skipping one interior vertex or dividing by a zero time span shows only where the maximum sits there.",
     "offset/dp.go offset/sed.go", [("maximum over interior vertices", "offset MaxOffset, MaxSEDOffset, squared forms")], (), [],
     rule="loop summaries of the score functions equal max-with-argmax over 1..n-2 of the specified deviation")

prop("C05", "Enabled constraints are checked on every piece and merge, disabled ones never",
     "Before a run of more than one segment is accepted as a piece or as a merge, every enabled constraint (self-intersection, geometric, minimum-distance, side) is evaluated against it and the run is rejected if any fails. A disabled constraint has no influence on the result.",
     "inputs configurations", "all lines, constraint sets and combinations of options",
     "Tests enable a few fixed combinations on friendly data; skipping one validation, or short-circuiting one by another, needs a combination and geometry they do not contain.",
     "constdp/simple_0.go constdp/simplify.go constdp/validate.go constdp/fc_simplify.go constrain/bycls.go constrain/bygeom.go constrain/bymindist.go constrain/byself.go constrain/byside.go",
     [("per-piece validation", "constdp processConstSimplification, ValidateContextRelation"), ("merge validation", "constdp ValidateMerge"), ("single verdicts", "constrain By*")],
     (), [], rule="on every path that accepts a piece, each option that is on dominates acceptance by its verdict; each option that is off is independent of it")

prop("C06", "Geometric and distance verdicts preserve the original relation",
     "The geometric verdict accepts a simplified segment against a nearby context geometry exactly when intersecting it or not is unchanged from the original run. The minimum-distance verdict accepts a context geometry when the simplified segment is at least the minimum distance away from it, or the original run was already closer than that. All nearby context geometries are examined; any single failure rejects.",
     "inputs", "all runs, segments and context geometries",
     "Tests have a few context geometries; ignoring one of several, or inverting the rule for originals already too close, needs layouts they lack.",
     "relate/geom.go relate/dist.go constrain/bygeom.go constrain/bymindist.go ctx/ctx.go ctx/ctxs.go",
     [("geometric relation verdict", "relate IsGeomRelateValid"), ("distance verdict", "relate IsDistRelateValid"), ("all context geometries examined", "constrain ByGeometricRelation, ByMinDistRelation")],
     (), [], rule="verdict functions equal their decision tables; the loops over context geometries are universal quantifiers")

prop("C07", "The side verdict is the homotopy test over all relevant context",
     "The side verdict accepts a segment exactly when the original run can be contracted to it without sweeping over a context geometry. Every context geometry not disjoint from the run's extent takes part, and a vertex is collapsed only when no context lies in the triangle it spans.",
     "inputs", "all runs and context geometries",
     "Tests exercise a few contractions; a stack or link error or a filter that drops a context geometry needs particular vertex arrangements.",
     "homotopy/homotopy.go homotopy/chain.go homotopy/deform.go constrain/byside.go relate/dir.go relate/sidedness.go",
     [("chain contraction", "homotopy chainDeformation, collapseVertex, isTriangleCollapsible"), ("context filter", "homotopy filterContext, contextDB"), ("side verdict", "constrain BySideRelation, relate IsDirRelateValid")],
     (), [], rule="the contraction loop, its link updates and its context queries equal the specified algorithm")

prop("C08", "Pieces conflicting with a new segment are found and the right ones selected",
     "When a piece's segment would cross or touch another piece improperly, the pieces to refine are chosen among the two by the rule for contiguous or separate neighbours, and every conflicting neighbour in reach is considered. Pieces of the same range in different lines are different pieces.",
     "inputs", "all neighbouring pieces of the same and of other lines",
     "Tests contain a few neighbouring pairs; a missed neighbour or a mistaken identity needs two lines with equal ranges or particular contact shapes.",
     "deform/cls.go deform/common.go deform/contig.go deform/noncontig.go deform/ln.go constrain/bycls.go constrain/byself.go knn/neighbours.go knn/knn.go node/contig.go node/collapse.go",
     [("candidate selection", "deform Select, SelectFeatureClass, contiguousCandidates, nonContiguousCandidates"), ("neighbour query", "knn NodeNeighbours"), ("feature class verdict", "constrain ByFeatureClassIntersection")],
     (), [], rule="selection functions equal their decision tables over contiguity, crossing, collapsibility and size")

prop("C09", "Refinement repeats until a clean round and never loses a piece",
     "Refinement stops only after a round that finds no conflict among the pieces it had to examine. In every round each piece that is removed from the index is replaced by its parts, the parts are examined in the next round, and pieces not in conflict stay.",
     "inputs histories", "all conflict patterns, including conflicts that appear only after earlier splits",
     "Sample lines settle in one or two rounds; stopping a round early or dropping new parts from the next one shows only with cascading conflicts.",
     "constdp/simple_0.go constdp/simplify.go constdp/fc_simplify.go constdp/simple_1.go constdp/simple_2.go constdp/common.go",
     [("round loop", "constdp Simplify, SimplifyFeatureClass"), ("split conflicting pieces", "constdp deformNodes"), ("replace in the index", "constdp cleanUpDB")],
     (), [], rule="loop shape and effects (examine, split, remove, load) equal the specification; removal and load are paired in every round")

prop("C10", "Vertices where a line meets itself or its class are kept",
     "With planar or non-planar self-intersection handling on, every vertex at which the line (or, in feature-class mode, a line of the class) coincides with or crosses another part at a vertex is an end of some piece in the result and is never merged away. Switched off, no vertex is kept for that reason.",
     "inputs configurations", "all lines and classes of lines, including coincident vertices that sort last",
     "Tests include a few self-crossing lines; coincidences at the end of the sort order or in the last line of a class are missed by samples.",
     "lnr/self.go lnr/fc.go constrain/toself.go constrain/split.go split/split.go constdp/node_aggregates.go constdp/fc_simplify.go",
     [("junction detection", "lnr SelfIntersection, FCPlanarSelfIntersection"), ("splitting at junctions", "constrain ToSelfIntersects, splitAtSelfIntersects"), ("merging never removes a junction", "constdp AggregateSimpleSegments")],
     (), [], rule="group scan over sorted vertices flushes every group; split indices and fixed set flow unchanged to splitting and merging")

prop("C11", "Only adjacent pieces are merged, when threshold and constraints allow",
     "After refinement a single-segment piece is merged only with the piece directly before or after it in the same line, across a vertex that is not a kept junction, if the joined run meets the threshold and all enabled constraints. A refused merge leaves both pieces exactly as they were, and no pair is tried twice.",
     "inputs histories", "all sequences of pieces and merge attempts",
     "Tests merge a few fragments; a refused merge that loses a piece or joins across a junction needs a particular neighbour order.",
     "constdp/node_aggregates.go merge/merge.go node/contig.go constdp/validate.go constdp/common.go",
     [("merge loop", "constdp AggregateSimpleSegments"), ("neighbour of a piece", "node Neighbours"), ("joined run", "merge ContiguousFragmentsAtThreshold")],
     (), [], rule="loop body's decision table over (size, junction, neighbour, cache, threshold, constraints) equals the specification, with its index removals and reloads")

prop("C12", "Spatial index queries return exactly the entries they should",
     "A range query returns every stored entry whose box intersects the query box and no other. A nearest-neighbour query returns entries in ascending distance and stops only at the limit or predicate. Listing returns every entry once.",
     "inputs histories", "all trees the index can build and all queries",
     "Tests query a few trees; an error in a descent or in the queue order shows only at certain depths or with boxes that merely touch.",
     "hdb/search.go hdb/knn.go hdb/kobj.go hdb/rtree.go knn/knn.go knn/neighbours.go",
     [("range query", "hdb Search"), ("nearest neighbours", "hdb Knn"), ("listing", "hdb All"), ("distance-bounded neighbours", "knn NodeNeighbours, ContextNeighbours")],
     (), [], rule="query functions equal the specified traversals; comparator of the queue orders by distance")

prop("C13", "Index updates keep every entry reachable under boxes that cover it",
     "Loading, inserting, splitting and removing keep each stored entry in exactly one leaf, every inner box covering its children, and node sizes within limits. Removing an entry removes that entry only, and clearing empties the tree.",
     "inputs histories", "all sequences of load, insert, remove and clear",
     "Tests run a few sequences on small trees; a box not widened or a child dropped on a split shows for particular sizes and shapes only.",
     "hdb/insert.go hdb/remove.go hdb/load.go hdb/build.go hdb/split.go hdb/mbr.go hdb/adj.go hdb/clear.go hdb/select.go hdb/rtree.go",
     [("bulk load", "hdb Load, buildTree"), ("insert and split", "hdb insertNode, split, splitRoot, adjustParentBBoxes"), ("remove and condense", "hdb Remove, removeItem, condense")],
     (), [], rule="update functions equal the specified algorithm, effect by effect")

prop("C14", "Every sort and queue order is a strict weak order on the right keys",
     "Comparators used for sorting and for priority queues are irreflexive, asymmetric and transitive, and order by the keys their users rely on: pieces by range, vertices by position then index, queue entries by distance, boxes by their lower edge.",
     "inputs", "all pairs and triples of elements",
     "Sorting bugs from an inconsistent comparator need particular ties; tests sort distinct keys.",
     "node/nodes.go lnr/vertices.go ctx/ctxs.go hdb/kobj.go hdb/knn.go hdb/mbr.go hdb/select.go",
     [("less functions", "node, lnr, ctx, hdb Less methods"), ("queue comparison", "hdb kobjCmp")], (), [],
     technique="specification comparison of comparators plus order-axiom enumeration over their symbolic decision tables",
     rule="each comparator's decision diagram equals its specification (lexicographic strict order)")

prop("C15", "Concurrent workers share no unsynchronised mutable state",
     "While several workers run, each writes only state of the line or piece it was handed, its own locals, channels, or state guarded by a lock or atomic; everything else they read is not written during that phase.",
     "schedules", "all interleavings of the worker goroutines",
     "The race detector sees only the schedules and inputs of a run; ownership has to hold for all.",
     "constdp/fc_simplify.go constdp/simple_0.go constdp/simplify.go",
     [("per-line workers", "constdp SimplifyInstances"), ("per-piece workers", "constdp processConstSimplification")], (), [],
     technique="ownership and effect analysis of everything reachable from go statements, plus specification comparison of the spawning functions",
     rule="write effects of goroutine bodies are confined to their own argument, fresh storage or synchronised objects")

prop("C16", "Parallel phases end and process every item exactly once",
     "Every line and every piece handed to a parallel phase is processed by exactly one worker, every result sent is received before the phase returns, and all workers, senders and closers end: no send after close, no missed completion, no deadlock, whatever the schedule.",
     "schedules inputs", "all schedules, any number of items including none and fewer than workers",
     "Tests run small inputs under one schedule; lost chunks or a completion count off by one need particular sizes or orders.",
     "constdp/fc_simplify.go constdp/simple_0.go",
     [("work distribution", "constdp chunkTasks"), ("completion and close", "constdp SimplifyInstances, processConstSimplification")], (), [],
     technique="channel and completion typestate rules, plus specification comparison of the chunking and draining functions",
     rule="adds equal spawned workers, done deferred on every path, close after wait by one closer, receive loop to close")

prop("C17", "The result does not depend on map order or scheduling",
     "For the same input and options the output is the same on every run: wherever a map is ranged over or results arrive from workers, only order-insensitive use is made of them or they are sorted before order matters. No clock, random source or mutable global takes part.",
     "schedules inputs", "all map iteration orders and schedules",
     "A test run sees one iteration order; Go randomises it, and small samples have one element.",
     "main.go encode.go constdp/fc_group.go constdp/simple_1.go constdp/simple_2.go constdp/node_aggregates.go constdp/simple_0.go lnr/fc.go",
     [("ordered emission of groups", "main groupPlnsAsGeoJSONS"), ("sort before merging", "constdp AggregateSimpleSegments")], (), [],
     technique="order-taint analysis of map ranges and channel receives, plus specification comparison of the ordering functions",
     rule="every map range and worker receive feeds an order-insensitive sink or a sort")

prop("C18", "Every input feature comes out once, in order, with its parts and properties",
     "The output holds one feature per input feature that contains lines, in input order, carrying that feature's properties (numbers as double precision values). Each feature's geometry is made of exactly its own simplified lines in their original order: a line string when there is one line, a multi line string when there are several.",
     "inputs", "all feature collections, features, bare geometries, multi-part and mixed inputs",
     "Sample files have few features; a group lost at a boundary or parts swapped between features needs several multi-part features.",
     "encode.go main.go geometry/geojson.go geometry/geojson_geom.go geometry/jsontype.go",
     [("reading features into lines", "geometry ReadInputPolylines, lineStringFromFeature"), ("grouping lines by feature", "main groupById, indices, groupPlnsAsGeoJSONS")],
     (), ["output file"], rule="reader and writer functions equal their specification (feature index, part index, order, metadata)")

prop("C19", "Coordinates are read and written unchanged",
     "Every coordinate emitted has exactly the x and y read from the input; the third values of a line are emitted unchanged when any of the kept ones differs from zero by more than the comparison tolerance, and omitted otherwise. No rounding or scaling is applied.",
     "inputs", "all coordinates in two and three dimensions",
     "Samples are two-dimensional with short decimals.",
     "encode.go geometry/geojson.go geometry/geojson_geom.go", [("coordinate extraction", "main extractCoords, isCoords3D"), ("coordinate reading", "geometry createPolyline")], (), [],
     rule="dataflow from parsed numbers to emitted numbers is the identity per ordinate")

prop("C20", "Every constraint geometry is read and takes part",
     "Every point, line, polygon and every part of their multi forms in the constraints input, under feature collections, features or bare geometries, becomes a constraint geometry of its kind with all its coordinates and rings. None is dropped, merged or changed.",
     "inputs", "all constraint files",
     "Sample constraint files use a few geometry kinds each with one part.",
     "geometry/geojson.go geometry/geojson_geom.go geometry/polygon.go geometry/pt.go constdp/constructor.go ctx/ctx.go",
     [("reading constraints", "geometry ReadInputConstraints, parseConstraintFeatures, createIGeom"), ("building the context index", "constdp BuildContextDB")], (), [],
     rule="reader functions equal their specification: every branch of the kind switch appends every part")

prop("C21", "Every configuration field reaches the engine as given",
     "Each option of the configuration input controls exactly the behaviour it names: no field is swapped with, derived from or overridden by another. The simplification type selects its score function regardless of case and surrounding blanks, and options given as a file or encoded on the command line mean the same.",
     "configurations", "all configurations",
     "Tests build options directly; the configuration path is not tested at all.",
     "cfg.go main.go simplify.go offset.go util.go opts/opts.go",
     [("configuration to options", "main optsFromCfg, parseInput"), ("score selection", "main offsetDictionary"), ("use of options", "main simplifyFeatureClass, simplifyInstances")], (), [],
     technique="field-flow analysis from configuration fields to option fields, plus specification comparison",
     rule="each option field is the identity of its own configuration field; keys and tags as documented")

prop("C22", "The command line tool fails loudly and writes only a complete result",
     "Missing or invalid arguments, unreadable files and malformed configuration end the run with a failure status before any output is written. The output file is written once, after all lines were simplified, and an error writing it is not ignored.",
     "inputs configurations fault_sequences", "all argument lists, files and write errors",
     "The command line path has no tests.",
     "main.go util.go cfg.go geometry/geojson.go", [("argument handling and output", "main")], (), [],
     technique="dominance and error-discipline rules over the entry function, plus specification comparison of its helpers",
     rule="every error result is tested before use; output write is dominated by all validations and by simplification")

prop("C23", "Input data is never modified or shared into results",
     "Simplification never writes to the coordinates, constraint geometries or options it was given, and no two pieces or results share storage through which a later step could change an earlier one.",
     "inputs histories", "all lines and sequences of splits and merges",
     "Aliasing damage appears only when spare capacity exists or a shared slice is appended to later.",
     "merge/merge.go split/split.go geometry/pln.go common/common.go encode.go simplify.go",
     [("index slices of sub-lines", "geometry SubCoordinates"), ("joined index slice in fresh storage", "merge ContiguousCoordinates")], (), [],
     technique="write-effect and freshness (escape) analysis over all reachable functions, plus specification comparison",
     rule="no reachable store into coordinate or geometry storage that is not freshly allocated")

prop("C24", "Degenerate input is skipped or passed through, never a crash",
     "Lines with fewer than two vertices, missing geometries, empty multi-part geometries and lines of two or more identical vertices are skipped or emitted unchanged; none makes the tool crash or drop other lines.",
     "inputs", "all inputs with empty, missing or degenerate parts",
     "Sample inputs are well-formed.",
     "geometry/geojson.go geometry/geojson_geom.go decompose/decompose.go common/common.go offset/dp.go",
     [("skip unusable parts", "geometry createPolylineGeoms, parseInputLinearFeatures, createIGeom"), ("single segments are final", "decompose DouglasPeucker"), ("hull of degenerate runs", "common Geometry")], (), [],
     rule="reader and decomposition functions equal their specification, including the degenerate branches")

prop("C25", "Simplification always terminates",
     "For every input and threshold, including zero and negative ones, decomposition, refinement, contraction and merging end: each recursion or round works on strictly shorter runs or strictly fewer pieces.",
     "inputs configurations", "all lines and thresholds",
     "A non-terminating case needs a degenerate run with a particular threshold.",
     "decompose/decompose.go constdp/decompose.go constdp/simple_1.go constdp/simple_0.go constdp/simplify.go homotopy/chain.go homotopy/deform.go split/split.go constdp/node_aggregates.go",
     [("recursion on strictly smaller ranges", "decompose DouglasPeucker, constdp refine, split AtScoreSelection"), ("rounds end without single-segment conflicts", "constdp deformNodes, Simplify")], (), [],
     rule="recursive calls and rounds equal the specified ones, whose ranges shrink; every loop of the anchored functions equals its specification")

prop("C26", "Lines simplified separately do not influence one another",
     "Without feature-class mode, the result for a line depends only on that line, the constraints and the options: adding, removing or reordering other lines changes nothing in its result. Each line has its own constraint index and state.",
     "inputs", "all sets of lines",
     "Tests simplify one line at a time.",
     "simplify.go constdp/fc_simplify.go constdp/constructor.go constdp/simplify.go deform/ln.go dp/dp.go",
     [("own engine per line", "main simplifyInstances, constdp NewConstDP"), ("no shared index", "constdp SimplifyInstances, Simplify")], (), [],
     rule="each line's engine is built from its own line, constraints and options; per-line work reads and writes only that engine")

prop("C30", "The node queue is a double-ended queue that many goroutines may share",
     "Pieces leave a node.Queue from either end in the order they were put in, whatever mix of goroutines uses it: every operation touches the contents only under the queue's lock (exclusively when it changes them), does exactly one operation on them, and gives the lock back when it returns and when it fails on an empty queue.",
     "schedules histories", "all interleavings of queue operations, including those on an empty queue",
     "The test uses the queue from one goroutine and never when it is empty.",
     "node/queue.go",
     [("lock around every operation", "node Queue.Append, AppendLeft, Pop, PopLeft, Clear, Size, First, Last"), ("one deque operation each", "node Queue")], (), [],
     rule="lock-state dataflow over every function that touches a structure with a mutex (guarded fields used under the lock, changed under the exclusive lock, released on every return and around operations that can fail); each operation equals its specification")

prop("C31", "Collections of pieces and contexts hold exactly what was put in them",
     "Pushing, extending, replacing, converting, sorting and swapping context or piece collections neither loses, duplicates nor reorders elements beyond what the operation says; popping drops exactly the last piece and leaves no stale copy of it behind; a context geometry reports exactly the kind it was last given.",
     "histories inputs", "all sequences of collection operations",
     "Tests check lengths of small collections only.",
     "ctx/ctxs.go ctx/ctx.go node/nodes.go",
     [("collections", "ctx ContextGeometries, node Nodes, NodePtrs, Pop, Clear"), ("context kinds", "ctx ContextGeometry As*/Is*")], (), [],
     rule="each operation equals its specification as a function from the old contents to the new; the kinds are pairwise distinct")

NA = [
 dict(id="C27", title="Geometric predicates are exact for all floating-point coordinates",
      statement="Distances, intersections and containment used in decisions are correct for every pair of finite coordinates, without rounding artefacts.",
      over=["inputs"], qtext="all finite coordinates",
      why="Rounding artefacts need adversarial coordinates.", files="ctx/ctx.go relate/geom.go relate/dist.go".split(), mech=[("geometry predicates", "external geometry library")],
      reason="the predicates are floating-point code of a dependency; their rounding behaviour is a runtime numeric quantity that no source-level dataflow rule here bounds"),
 dict(id="C28", title="The final result has no new self-intersections anywhere",
      statement="With self-intersection avoidance on, no two segments of the emitted lines cross or touch unless the input lines did there.",
      over=["inputs"], qtext="all lines and classes",
      why="Requires geometry the samples lack.", files="constdp/simple_0.go constdp/fc_simplify.go deform/cls.go".split(), mech=[("conflict search and refinement", "constdp, deform")],
      reason="a global geometric fact about runtime coordinates: the search radius, hull shapes and predicates are numeric; the decidable parts (every piece examined, every neighbour considered, clean round, merge validated) are C05, C08, C09 and C11"),
 dict(id="C29", title="An interrupted run never leaves a partial output file",
      statement="If the process is killed or the disk fills while the result is written, the output file is either absent, its previous content, or complete.",
      over=["crash_points", "fault_sequences"], qtext="all crash points during writing",
      why="Tests inject no faults.", files=["main.go"], mech=[("single write of the whole text", "main")],
      reason="writing is done by a dependency's plain truncate-and-write and the project makes no atomicity promise; crash points of the file system are not visible to a source-level rule"),
]
