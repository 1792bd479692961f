#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

T = "The Catch test builds random symmetric matrices of a few sizes and compares one level-set solve with the serial one; the two demos run one random 16x16 matrix. "

prop("C01", "Level sets are complete, minimal wavefronts, and cycles are reported",
 "For every acyclic dependence graph, each level-set builder (array based, queue based, vector based, tree based and multi-loop) returns every node exactly once, with every node one level above its deepest predecessor (so the number of levels is the longest path), and the node-to-level and depth queries agree with it. A graph with a cycle is reported as -1 by the builders documented to do so, never as a schedule.",
 ["inputs"], "all directed graphs of a dependence matrix: every acyclic edge set, every cyclic one, chains as long as the graph, empty and single-node graphs, stored with or without redundant edges",
 T + "They never look at the level structure itself, at cyclic graphs, at graphs whose depth equals their size, or at the queue, tree and vector builders.",
 ["utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp", "utils/etree.cpp"],
 [("in-degree counting BFS", "build_levelSet_CSC, buildLevelSet_CSC_Queue, HDAGG::build_levelSet_CSC"),
  ("tree level sets", "build_level_set_tree, build_level_set_tree_efficient"),
  ("vector interface", "HDAGG::computingLevelSet_CSC, computingNode2Level"), ("depth", "compute_depth"), ("fused loops", "level_set_multi_graphs")],
 observe=["return value", "levelPtr/levelSet", "node2Level"])

prop("C02", "Coarsened level sets computed from a DAG are valid parallel schedules",
 "For every acyclic dependence graph, positive node costs and admissible coarsening parameters, each DAG-based coarsening routine (sequential and parallel, with and without bin packing) terminates and returns a three-level schedule in which every iteration appears exactly once. Executing coarsened levels in order, the partitions of one level in any order or concurrently, and each partition sequentially respects every dependence: no edge joins two partitions of one level, none points to an earlier level, and inside a partition sources precede destinations.",
 ["inputs", "configurations"], "all acyclic graphs x number of parts x initial cut x level-merging factor x node costs x bin packing x thread count",
 T + "One of the four DAG-based entry points is run, on one graph, with one set of parameters, and only the numeric solution is looked at.",
 ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_utils.cpp", "utils/sparse_utilities.cpp"],
 [("height partitioning", "height_partitioning_DAG_trng"), ("connected components per l-partition", "dfs_CSC_CC / make_l_partitions"),
  ("order inside a partition", "modified_BFS_CSC"), ("bin packing", "worst_fit_bin_pack")],
 observe=["finaLevelPtr/finalPartPtr/finalNodePtr"])

prop("C03", "Coarsened level sets computed from an elimination tree are valid schedules",
 "For every symmetric sparsity pattern given by its lower or upper half, and for every tree given by its parent array, the tree-based coarsening routines terminate and return a schedule that covers every node exactly once and respects every child-to-parent (hence every matrix) dependence under any order of the partitions of a level. This holds for all positive costs and all admissible coarsening parameters.",
 ["inputs", "configurations"], "all trees and forests and all symmetric patterns x stype x number of parts x cut x merging factor x costs",
 T + "lbc_demo prints the schedule without checking it; forests, paths, stars, equal-cost trees and other parameter values are never tried.",
 ["src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/etree.cpp"],
 [("tree height partitioning", "height_partitioning"), ("subtree splitting and packing", "post_order_spliting, worst_fit_bin_pack")],
 observe=["finaLevelPtr/finalPartPtr/finalNodePtr"])

prop("C04", "Coarsened level sets of blocked (supernodal) matrices are valid schedules",
 "For every lower triangular matrix stored with supernodes, the blocked level-set and blocked coarsening routines return each supernode exactly once, in levels and partitions that respect every dependence between supernodes under any order of the partitions of a level. A trivial supernode partition (width one) yields a schedule valid for the underlying graph.",
 ["inputs", "configurations"], "all supernodal patterns (every supernode partition x every block pattern) x coarsening parameters x costs",
 T + "No blocked routine is called by any test.",
 ["src/lbc_blocked.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 [("blocked component search", "dfs_BCSC_CC"), ("blocked order", "modified_BFS_BCSC"), ("blocked levels", "build_levelSet_BCSC, level_set_bn")],
 observe=["finaLevelPtr/finalPartPtr/finalNodePtr", "levelPtr/levelSet"])

prop("C05", "Hybrid aggregation produces valid parallel schedules for every DAG",
 "For every acyclic dependence graph, non-negative node costs, number of cores, and every combination of the ordering and bin-packing options, the hybrid aggregation entry points terminate and return a schedule that contains every node exactly once and respects every dependence when coarsened levels run in order and the partitions of a level run in any order or concurrently (the order inside a partition for topologically numbered graphs). With bin packing no level has more partitions than cores, and the returned level-merging vector is a strictly increasing sequence of level boundaries that ends at the number of levels.",
 ["inputs", "configurations"], "all acyclic graphs x costs (including zero and uneven ones) x cores x {post-order, bin packing}",
 T + "None of the stable tests calls the hybrid aggregation library.",
 ["src/hdagg/hdagg.cpp"],
 [("component merging across levels", "computeCC, parallel_cc"), ("greedy window search", "HDAGG::HDAGG, GLC_V2"), ("schedule assembly", "computeSchedule"), ("simple entry", "build_coarsened_level_parallel")],
 observe=["coarse_level_ptr/coarse_part_ptr/coarse_node_ptr", "WM"])

prop("C06", "Vertex grouping yields partitions whose group graph is the exact quotient",
 "For every dependence graph of a lower triangular matrix, tree, chain and breadth-first vertex grouping assign every node to exactly one group, in contiguous arrays, and contracting the groups leaves an acyclic graph so that groups can be scheduled as units. The group graph built from any such grouping has an edge between two different groups exactly when some original edge joins them, with no edge missing, invented or duplicated.",
 ["inputs", "configurations"], "all acyclic graphs (raw and sparsified) x grouping method x Lfactor flag; all groupings for the group-graph builder",
 T + "No stable test groups vertices.",
 ["src/hdagg/hdagg.cpp"],
 [("groupings", "treeBasedGrouping, treeBasedGroupingBFS, chainGrouping"), ("quotient", "buildGroupDAG, getFinalScheduleDAG")],
 observe=["group_ptr/group_set", "group_DAG_ptr/group_DAG_set"])

prop("C07", "Row and column grouping inspectors produce executable groups",
 "For every sparse triangular matrix with a full diagonal, the row/column grouping inspectors assign each row or column to exactly one group, list the members of a group in dependence order (ascending where a group is a run of consecutive rows or columns) and return an inverse map that agrees with the groups. The dependence graph computed for those groups (or for single rows) contains every dependence between different groups, contains no edge without one, and is acyclic for the row-oriented groupings and for fixed-size blocks.",
 ["inputs", "configurations"], "all lower triangular patterns x grouping inspector x block size",
 T + "The grouping code is compiled out of the demos and not called by the Catch test.",
 ["src/group.cpp", "src/group_utils.cpp"],
 [("grouping inspectors", "group::inspection_*, NaiveGrouping"), ("dependence inspectors", "fs_csr_inspector_dep, fs_ic0csc_inspector_group, Group_DAG")],
 observe=["groupPtr/groupSet/groupInv", "DAG adjacency lists"])

prop("C08", "DAG sparsification preserves the dependence relation",
 "For every dependence graph in column form with the diagonal entry first and the others sorted, partial sparsification returns a subgraph whose transitive closure equals that of the input: it only drops edges already implied by other paths, keeps every diagonal entry, and keeps the columns in that form. This holds for every thread count, with clique simplification on (lower triangular graphs) or off, and also when the output arrays are reused from an earlier call.",
 ["inputs", "configurations", "histories"], "all acyclic graphs x thread counts x clique flag x first or repeated call",
 T + "No stable test sparsifies a graph.",
 ["src/hdagg/hdagg.cpp"],
 [("two-hop and clique edge removal", "partialSparsification")], observe=["DAG_ptr/DAG_set"])

prop("C09", "Schedule transformations keep every iteration and every dependence",
 "Expanding a grouped schedule back to nodes, converting it to supernodes, re-tiling it in two dimensions, grouping it into a schedule graph, and applying sort or post-order inside partitions, each keep every iteration exactly once in the coarsened level and partition it belonged to (tuples for two-dimensional iterations cover every nonzero exactly once). No transformation introduces an order that violates a dependence the input schedule respected.",
 ["inputs", "configurations", "histories"], "all valid schedules of small graphs (from every producer and every grouping) x transformation x ordering flags",
 T + "No stable test transforms a schedule.",
 ["src/hdagg/hdagg.cpp"],
 [("ungrouping", "ungroupingScheduleAndApplyOrdering"), ("supernodes", "convertCNScheduleToSuperNode"), ("2-D tiling", "twoDReordering"), ("schedule graph", "getFinalScheduleDAG"), ("post order", "computePostOrder")],
 observe=["final_*_ptr", "final_tuple_ptr/final_iter_ptr"])

prop("C10", "Every scheduled triangular solve equals the serial forward substitution",
 "For every nonsingular sparse lower triangular system and every valid schedule (level set, coarsened levels, groups, or grouped coarsened levels), each parallel solve kernel returns the solution of the serial forward substitution, and the serial kernel solves L x = b. Matrix and schedule are not modified, and nothing outside the solution vector is written.",
 ["inputs", "configurations"], "all lower triangular patterns x all schedules valid for them (exhaustively enumerated, not only those the library builds) x kernels",
 T + "Only the row level-set kernel is compared with the serial result, on a handful of random matrices.",
 ["example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
 [("kernels", "sptrsv_csr*, sptrsv_csc*, fs_csr_executor_sgroup, fs_csr_levelset_stat, *_stat")],
 observe=["solution vector"])

prop("C11", "Parallel triangular solves are race free and interleaving independent",
 "With OpenMP enabled, under every interleaving of the threads that execute the partitions of a level and for every thread count, each parallel solve kernel run on a valid schedule terminates, has no data race, and produces the serial solution. No iteration starts before all iterations it depends on have completed.",
 ["schedules", "inputs", "configurations"], "all thread interleavings of small systems x thread counts x kernels x valid schedules",
 T + "The build under test has OpenMP disabled, so no test runs two threads.",
 ["example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
 [("worksharing inside one parallel region per solve, implicit barrier per level", "sptrsv.cpp, executor.cpp")],
 state=[("x", "shared solution vector", "kernels")],
 observe=["solution vector", "access trace"])

prop("C12", "Parallel inspectors give a correct result under every interleaving",
 "With OpenMP enabled, under every interleaving and thread count, the parallel inspection routines (component search, parallel coarsening, hybrid aggregation, sparsification, group graph construction, cost computation, grouped dependence inspection) terminate without deadlock and return the result the single-threaded run returns, or for schedules one that is equally valid. Connected components computed concurrently are exactly the connected components of the selected levels.",
 ["schedules", "inputs", "configurations"], "all thread interleavings up to a preemption bound x small graphs x level windows x thread counts",
 T + "The build under test has OpenMP disabled, so the parallel inspectors run with one thread.",
 ["src/hdagg/hdagg.cpp", "src/lbc_csc_dag.cpp", "src/group_utils.cpp"],
 [("hooking and pointer jumping", "computeCC, parallel_cc"), ("parallel coarsening", "get_coarse_Level_set_DAG_CSC03_parallel"), ("parallel loops", "partialSparsification, buildGroupDAG, computeSchedule, costComputation")],
 state=[("node2partition", "shared component labels", "computeCC, parallel_cc"), ("change", "shared convergence flag", "computeCC")],
 observe=["labels", "schedules", "costs"])

prop("C13", "Sparse format conversions preserve the matrix",
 "Converting between compressed column and compressed row storage, copying, transposing, building from dense, trees or diagonals, expanding to dense, and shifting the index base all represent exactly the same mathematical matrix (dimensions, pattern, values) with entries of each row or column sorted when the conversion transposes. Inputs are left unchanged, and round trips are the identity, for rectangular, empty, pattern-only and diagonal-free matrices too.",
 ["inputs"], "all small matrices (shape x pattern x distinct values), including rectangular, empty columns or rows, pattern-only",
 T + "Only square random matrices with a full diagonal are converted, in one direction, and the result is only looked at through a solve.",
 ["utils/sparse_utilities.cpp", "utils/sparse_io.cpp", "include/aggregation/def.h"],
 [("conversions", "csc_to_csr, csr_to_csc, transpose_general, copy_sparse, copy_from_to, dense_to_csc, sparse2dense, tree_to_csc, diagonal, tridiag, convert_to_one_based")],
 observe=["returned matrix"])

prop("C14", "Symmetric-matrix operations preserve the represented matrix",
 "Extracting a triangular half, expanding a half to a full matrix, symmetrizing, and permuting-while-transposing a symmetric half all represent the mathematically expected matrix: half then full is the identity on symmetric matrices, symmetrization is (A+A')/2, and permuting by p gives A(p,p) stored in the opposite half. Storage type flags and counts match the contents, permutations and their inverses compose to the identity, and inputs are left unchanged.",
 ["inputs"], "all small symmetric and unsymmetric patterns x all permutations x lower/upper half",
 T + "Only make_half on a random matrix is exercised, and only through a solve.",
 ["utils/sparse_utilities.cpp"],
 [("symmetric utilities", "make_half, make_full, transpose_symmetric, make_symmetric, add, compute_inv_perm, inv_perm, reorder_array, coarsen_k_times, extract_diagonals, verify_csc_diagonal")],
 observe=["returned matrix"])

prop("C15", "Elimination tree and symbolic factor agree with Cholesky factorization",
 "For every symmetric sparsity pattern the elimination tree equals the tree defined by the Cholesky factor, the post-order is a permutation that numbers children before parents with contiguous subtrees, and row and column counts, levels and the predicted factor pattern equal those of symbolic elimination. The upper half and the full matrix give the same tree, a lower half is refused rather than misread, and the two independent elimination-tree routines agree.",
 ["inputs"], "all symmetric patterns of small order x stored half x permutation",
 T + "The demos reach the tree code on one random matrix without checking it.",
 ["utils/etree.cpp", "utils/sparse_inspector.cpp", "utils/lfactor_creation.cpp", "src/hdagg/hdagg.cpp"],
 [("etree", "compute_etree, HDAGG::computeParents, buildETree"), ("post-order", "compute_post_order (etree.cpp)"), ("counts and symbolic factor", "row_col_counts, build_L_pattern_from_col_counts, build_symbolic_simplicial_lfactor"), ("row pattern", "computeNoneZeroPatternOfRowK")],
 observe=["parent array", "counts", "L pattern"])

prop("C16", "Matrix Market files are read as the matrix they describe and round trip",
 "Reading a well formed coordinate (real, integer or pattern; general or symmetric) or array (real, general) Matrix Market file without repeated entries yields exactly the matrix it describes: size, entries in any order, empty rows and columns, comments and blank lines. Writing a matrix to a file and reading it back returns the same matrix, up to the number of digits the writer prints. The triplet routines (mm_read_mtx_crd, mm_read_unsymmetric_sparse, mm_read_mtx_crd_entry and the mm_ header routines) return type, size and entries in the order of the file for real, complex, integer and pattern files of every symmetry the format allows, the writers report success when they wrote, and what mm_write_mtx_crd writes is read back exactly.",
 ["inputs"], "all small matrices x every order of their entries x field x symmetry x comment and blank layout",
 "No stable test reads or writes a file; the demos read a file only when given one.",
 ["utils/sparse_io.cpp", "utils/external/mmio.cpp"],
 [("reader", "read_mtx, read_header, read_mtx_csc_real, read_mtx_array_real"), ("compression", "compress_triplets_to_csc"), ("writer", "CSC_to_mtx, print_csc_templated"), ("triplets", "mm_read_mtx_crd, mm_read_mtx_crd_data, mm_write_mtx_crd, mm_write_banner, mm_typecode_to_str")],
 observe=["returned matrix", "file contents"])

prop("C17", "Malformed Matrix Market input is rejected, never misread",
 "A Matrix Market file given to the matrix readers whose banner, size line or entries are malformed, truncated, out of range or of an unsupported kind is rejected with an error (an exception of the matrix error family, a null result, or a nonzero return code of the triplet routines), without writing outside the arrays sized from the header and without looping. No prefix of a valid file that lost an entry is accepted as a complete matrix.",
 ["inputs", "fault_sequences"], "every truncation point of every small file, every single-token corruption from a small alphabet",
 "No stable test reads a file.",
 ["utils/sparse_io.cpp", "utils/external/mmio.cpp", "include/aggregation/exceptions.h"],
 [("header validation", "read_header, mm_read_banner, mm_read_mtx_crd_size"), ("entry reading", "read_mtx, read_triplets_real")],
 observe=["exception or null result", "memory checker"])

prop("C18", "Node, group and subtree costs count exactly the work of the kernel",
 "The cost computed for a node equals the number of nonzeros the chosen kernel touches for that iteration, the cost of a group is the sum over its members, and a subtree cost is the sum over the subtree, for every pattern, kernel and grouping. Costs per column, tree heights and depths equal their definitions, and costs do not depend on what the output array held before.",
 ["inputs", "configurations", "histories"], "all small patterns x kernels x groupings x reused output arrays; all trees x weights",
 "No stable test computes kernel costs.",
 ["src/hdagg/hdagg.cpp", "utils/sparse_utilities.cpp"],
 [("kernel costs", "costComputation"), ("tree costs", "compute_subtree_cost, get_tree_height, get_node_depth"), ("column counts", "compute_nnz_per_col")],
 observe=["cost arrays"])

prop("C19", "Work partitioners neither lose, duplicate nor starve work",
 "Bin packing, merging of small partitions, splitting a set by weight and growing partitions breadth-first place every item in exactly one output part, never produce more parts than requested, and report part costs that equal the sum of the costs of their items. Worst-fit packing assigns each item, in decreasing cost order, to a bin of least load at that moment, so no bin exceeds the least loaded one by more than its last item.",
 ["inputs", "configurations"], "all small multisets of items and costs x thresholds x bin counts; all small graphs x weights x targets",
 "No stable test inspects the balance or completeness of a packing.",
 ["src/lbc_utils.cpp", "utils/utils.cpp", "utils/sparse_utilities.cpp"],
 [("packing", "worst_fit_bin_pack, merge_inner_part, find_min"), ("weight splitting", "partition_by_weight, partition_by_bfs"), ("tree splitting", "post_order_spliting")],
 observe=["part lists and costs"])

prop("C20", "Graph partitioner wrappers return valid permutations and partitions",
 "For every structurally symmetric matrix with a full diagonal, stored as a half or in full, the fill-reducing ordering wrappers return a permutation of the indices and the k-way partition wrappers return a part number in range for every row, including through the coarsened wrapper, where rows coarsened together share a part. The input matrix is unchanged and the graph handed to the partitioner is the matrix graph without self loops. The demo pipeline built on it returns exactly the reordered matrix, as its lower half and in full.",
 ["inputs", "configurations"], "all small symmetric patterns x part counts x coarsening factors",
 "The demos call one ordering wrapper on one random matrix.",
 ["utils/metis_interface.cpp", "utils/sparse_utilities.cpp", "utils/FusionDemo.cpp"],
 [("wrappers", "metis_perm_general, metis_perm_symmetric, metis_partition_symmetric, metis_partition_general, metis_partition_coarsened"), ("coarsening", "coarsen_k_times")],
 observe=["perm/part arrays", "arguments received by the partitioner"])

prop("C21", "Merged graphs contain exactly the edges of their parts",
 "Fusing several dependence graphs of equal size, with or without explicit inter-graph dependence, gives a graph over the concatenated iteration spaces that contains every edge of each input, shifted to its copy, and every inter-graph edge, and nothing else. If the inputs are acyclic so is the merged graph, and its schedules are valid for the fused loops.",
 ["inputs"], "all tuples of small graphs and inter-graph dependence patterns",
 "No stable test merges graphs.",
 ["utils/sparse_utilities.cpp", "utils/sparse_inspector.cpp"],
 [("merging", "merge_graph, merge_DAGs_with_partial_order, merge_graphs, bcsc_csc_bcsc_levelset")],
 observe=["returned graph"])

prop("C22", "Blocked storage and supernode detection preserve the matrix",
 "For every sorted lower triangular matrix with a full diagonal, supernode detection partitions the columns into contiguous blocks whose columns share the same structure below the block, a limit joins at most that many further columns to the first column of a block, and converting a triangular matrix to blocked storage keeps every nonzero value at its position and pads only with explicit zeros. The supernodal graph derived from it has exactly the block dependences of the matrix.",
 ["inputs", "configurations"], "all lower triangular patterns x size limits x user supplied supernode partitions",
 "No stable test uses blocked storage.",
 ["utils/BCSCMatrix.cpp", "utils/sparse_inspector.cpp"],
 [("supernodes", "BCSCMatrix::supernodes"), ("blocked storage", "BCSCMatrix::calcSize/createFormat"), ("supernodal graph", "compressed_BCSC_to_CSC")],
 observe=["supernode boundaries", "blocked arrays"])

prop("C23", "Inspection is deterministic, repeatable and side-effect free",
 "Any inspection or scheduling routine called twice with equal inputs, in any order with other routines, and with output containers that still hold results of an earlier, larger or smaller problem, returns the same result (the part of the outputs that the returned counts declare) as a first call on fresh containers. The graph, cost and schedule arrays passed as input are never modified unless documented as in/out.",
 ["histories", "inputs"], "all call sequences up to a small depth over the scheduling interface on pairs of small graphs, with reused output containers",
 "Each test calls each routine once per process on fresh outputs.",
 ["src/hdagg/hdagg.cpp", "src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "utils/sparse_inspector.cpp"],
 [("per-call work arrays and output clearing", "all entry points")], observe=["outputs of the repeated call", "input arrays"])

prop("C24", "The bundled minimum-degree ordering returns valid permutations and statuses",
 "For every square pattern in compressed column form, sorted or not, with or without duplicates, the bundled ordering returns a permutation of the columns with a success status, and reports jumbled but usable input as such. Inputs that are not a valid pattern (bad pointers, out of range indices, negative sizes, missing arrays) are reported as invalid without touching the output, and allocation failures as such. The reported pattern statistics match the pattern, the fill statistics bound symbolic elimination under the returned permutation from above, forests are ordered without fill, and dense rows come last.",
 ["inputs", "configurations"], "all small square patterns, all column orders of them, and all single-field corruptions",
 "Only reached, unchecked, when a demo is built without METIS.",
 ["utils/external/amd_1.c", "utils/external/amd_2.c", "utils/external/amd_order.c", "utils/external/amd_aat.c", "utils/external/amd_valid.c", "utils/external/amd_preprocess.c", "utils/external/amd_postorder.c"],
 [("approximate minimum degree", "amd_order and helpers")], observe=["status", "permutation", "Info array"])

prop("C25", "Profiling records are written completely or not at all",
 "Over any sequence of setting columns and committing records, the result table gains exactly one row per commit that happens when all columns were set since the previous row was written, with the last value set for each column in header order. An incomplete or empty commit adds nothing, unknown column names change nothing, and reopening an existing table appends without losing rows unless recreation was requested. A process that stops between any two operations leaves a header and every row committed so far, to which a later run can append.",
 ["histories"], "all operation sequences up to a depth over {set column, set unknown column, commit, reopen, recreate}",
 "No stable test writes a result table.",
 ["include/aggregation/csv_utils.h"],
 [("record state machine", "CSVManager")], state=[("defined_record_status", "columns set since last commit", "CSVManager")], observe=["file contents"])

prop("C26", "Comparison and checking utilities never accept a wrong result",
 "The comparison helpers report equality exactly when all compared entries agree within the tolerance and none is NaN, uniqueness tests accept exactly the arrays of distinct in-range values, and the residual and norm helpers return the value of their definition. Right-hand sides generated for a known solution reproduce it, generated random matrices are well formed, sorted, duplicate free, with a diagonal and the requested shape, and their pattern is reproducible from a nonzero seed, and overflow-checked size arithmetic flags overflow, returning zero, exactly when it happens. The demo driver inspects once, runs each repetition on freshly initialised vectors, reports the median time and announces a wrong answer.",
 ["inputs"], "all small vectors over an alphabet with NaN, infinities and values just inside and outside the tolerance; all small sizes x densities x seeds",
 "The tests rely on these helpers and never test them.",
 ["utils/test_utils.cpp", "include/aggregation/test_utils.h", "utils/utils.cpp", "utils/sparse_utilities.cpp"],
 [("comparison", "is_equal, test_unique, residual, norm"), ("generators", "random_square_sparse, generate_uniq_rand_vector, rhs_init, rhs_init_blocked"), ("sizes, times, names", "mult_size_t, add_size_t, time_median, strip_name, trim"), ("demo driver", "FusionDemo::evaluate, testing")],
 observe=["return value"])

prop("C27", "Printed and saved text contains exactly the data it was given",
 "A printed level set or coarsened level set (every level of which has a partition), a printed or saved vector or dense matrix, and a section of indented text contain exactly the given data in the documented order, so that parsing the text gives the data back (numbers at the printed precision, sections up to leading blanks, each section independently of what follows it, and a section is text without a line that starts with a blank). A row of the common statistics has one cell for each column of its header. Printing changes neither its input nor the state of standard output's redirection.",
 ["inputs"], "all small schedules, all words over an alphabet of values, all short texts and pairs of texts with every kind of following line",
 "Output is used to inspect schedules and collect results, and no test parses it.",
 ["utils/sparse_io.cpp", "include/aggregation/sparse_io.h", "utils/sparse_utilities.cpp", "utils/FusionDemo.cpp"],
 [("schedules", "print_level_set, print_hlevel_set"), ("values", "print_vec, save_vector, copy_vector, print_dense"), ("sections", "print_string, read_string"), ("statistics", "print_common_header, print_common")],
 observe=["text"])

prop("C28", "Operations give back the memory they take, and objects free only what they own",
 "After any operation of the library has returned, or has rejected its input, and the results it documents have been released by the caller (arrays with delete[], objects with delete), the heap is as before the call: repeated inspection, conversion, partitioning or file reading never accumulates memory. A matrix object releases exactly the arrays it owns: objects built on arrays of the caller refer to these arrays and leave them intact.",
 ["inputs", "histories"], "every operation on every small graph or matrix, families, whole, cut and damaged files",
 "Tests run each routine once and do not look at the heap; the leak shows only in long running use.",
 ["include/aggregation/def.h", "include/aggregation/group.h", "include/aggregation/lfactor_creation.h", "src", "utils"],
 [("inspectors", "hdagg.cpp, lbc_*.cpp, group.cpp, sparse_inspector.cpp"), ("matrices", "sparse_utilities.cpp, CSC, CSR, Dense, BCSC"), ("files", "sparse_io.cpp"), ("partitioners", "metis_interface.cpp")],
 observe=["allocated bytes"])

prop("C29", "Aggregation keeps the parallelism of the graph and balances its work",
 "For every acyclic dependence graph, positive costs and admissible parameters, each coarsened level returned by level coarsening (DAG, tree and blocked variants) and by hybrid aggregation is a run of consecutive wavefronts, following the run before it, and each partition is a union of whole connected components of the subgraph on these wavefronts: exactly one component per non-empty partition without bin packing, and at most the requested number (two or more) of non-empty partitions with it. In DAG-based coarsening every level but the first and the last spans exactly the requested number of wavefronts and, packed, uses all requested partitions when each of its wavefronts is at least twice that wide and it has as many components; packed tree-based coarsening into two or more partitions leaves no level of several components but the last to a single partition. The work of a level is balanced on its own: level coarsening packs by worst fit, so a partition without its cheapest component never costs more than the least loaded partition of the level; packed hybrid aggregation keeps each partition within its even share plus the heaviest component of the level, and merges wavefronts only when every core has work (as many cores as the first of them has nodes if none of them is wider), with a divergence from the even distribution below 0.003. Equal independent parts, a multiple of the number of cores, end up in one level.",
 ["inputs", "configurations"], "all acyclic graphs and forests x parameters x costs x cores, with and without packing",
 "The demonstrators only compare results of kernels, which a schedule that runs everything on one core passes as well.",
 ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/lbc_utils.cpp", "src/hdagg/hdagg.cpp"],
 [("wavefront cuts", "height_partitioning_DAG_trng, height_partitioning"), ("packing", "worst_fit_bin_pack"), ("merge decision", "HDAGG::HDAGG, GLC_V2"), ("assembly", "computeSchedule")],
 observe=["finaLevelPtr/finalPartPtr/finalNodePtr", "coarse_level_ptr/coarse_part_ptr/coarse_node_ptr"])

prop("C30", "Hardware-counter profiling measures every requested event in every run",
 "In the profiling configuration (PAPI and PROFILE defined), profiling a demonstrator with any list of events, any number of events per event set and any number of runs inspects and runs one fresh demonstrator per set, built from the caller's arguments, for exactly the requested number of runs. The printed header names every event once in the order asked, and row i holds for each of them the count over exactly the timed code of run i, without set-up, inspection or testing; the complete table is its rows in order. The other figures are those of the demonstrator, and zero before any run. If calls of the counter library fail, the failure is reported on standard error, the counters of that run are its true counts or all zero, never those of another run, and the other runs are not affected; the library is shut down at the end and everything is released.",
 ["configurations", "fault_sequences"], "all event lists up to a length x events per set x runs; all single and paired failing calls of the counter library, and all failures from a call on",
 "PAPI is not part of the test configuration, so no test compiles this code.",
 ["include/aggregation/Profiler.h", "include/aggregation/PAPIWrapper.h", "include/aggregation/FusionDemo.h", "utils/FusionDemo.cpp", "profiler/sptrsv_profiler_utils.h"],
 [("splitting into event sets", "Profiler::profile"), ("measured interval", "FusionDemo::evaluate, PAPIWrapper::begin_profiling/finish_profiling")],
 observe=["print_headers/print_counters", "counter_bundles_", "calls of the counter library"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
