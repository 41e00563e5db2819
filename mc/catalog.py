"""Catalogue of properties: the single source of properties.jsonl and MANIFEST.json (python3 mc/catalog.py writes both)."""
import json, os

CAT = []


def C(pid, title, statement, over, qtext, why, files, mech, tech="", note=""):
    CAT.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note))


L = "src/libscotch/"
C("C01", "Consistency checkers accept exactly the consistent graphs and meshes",
  "The graph and mesh checking calls return success if and only if the arrays describe a loop-free, symmetric, in-range graph (or bipartite mesh) with consistent non-negative loads and matching edge weights. They never modify or read outside the arrays they are given.",
  ["inputs"], "every content of the arrays of small graphs and meshes, and every single-entry corruption of every valid one, in every layout, base and load setting",
  "Tests check two good files; a checker that misses one asymmetric or mis-weighted pattern is only visible over the whole space of small arrays.",
  [L + "graph_check.c", L + "mesh_check.c", L + "library_graph_check.c", L + "library_mesh.c"],
  [("pairwise arc verification", L + "graph_check.c"), ("element/node cross verification", L + "mesh_check.c")])
C("C02", "Graph files round-trip, and load options do what they say",
  "Saving a graph and loading it back yields the same graph: same vertices, arcs, loads and labels, whatever the base, array layout and options used. The load options (forced base, ignoring vertex loads or edge loads) change exactly what they say and nothing else, and a loaded graph always passes the consistency check.",
  ["inputs", "configurations"], "every small graph, array layout, base value, load and label kind, and combination of load options",
  "Tests load a few fixed files; the guarantee covers every combination of numbering, gaps, labels and options.",
  [L + "graph_io.c", L + "library_graph.c", L + "graph_base.c", L + "library_graph_base.c"], [("graphLoad / graphSave", L + "graph_io.c")])
C("C03", "Mesh files round-trip",
  "Saving a mesh and loading it back yields the same elements, nodes, incidences and loads, whatever the base, the order of elements and nodes, and the array layout. A loaded mesh always passes the consistency check.",
  ["inputs", "configurations"], "every small element/node incidence, layout, base, numbering order and load kind",
  "Tests load a few fixed files; the guarantee covers every combination of numbering, layout and loads.",
  [L + "mesh_io.c", L + "library_mesh.c"], [("meshLoad / meshSave", L + "mesh_io.c")])
C("C04", "Damaged input files are refused or read consistently, never crash",
  "Loading any graph, mesh, mapping, ordering, geometry or target architecture file that was truncated or altered either fails with an error or yields an object that is internally consistent. It never crashes, hangs, reads outside its memory or leaks what it had allocated.",
  ["inputs"], "every truncation point and every single-token replacement, deletion, duplication, over every seed file and every kind of file",
  "Tests only feed well-formed files; robustness is about all damaged ones.",
  [L + "graph_io.c", L + "mesh_io.c", L + "arch.c", L + "mapping_io.c", L + "order_io.c", L + "common_integer.c", L + "geom.c"], [("intLoad and header checks", L + "common_integer.c")])
C("C05", "Foreign graph formats are converted faithfully",
  "Importing a Chaco/METIS, Matrix Market or Harwell-Boeing file gives the graph the file describes (self-loops dropped, structure symmetrised, weights kept), and exporting to a foreign format then importing it back gives the same graph. The imported graph always passes the consistency check.",
  ["inputs"], "every small graph or matrix pattern, in every header variant of the format",
  "Tests convert a couple of files; header variants, blank lines, weights and duplicate entries combine in many ways.",
  [L + "graph_io_chac.c", L + "graph_io_mmkt.c", L + "graph_io_habo.c", L + "graph_io_scot.c", L + "mesh_io_habo.c", "src/scotch/gcv.c", "src/scotch/mcv.c"], [("format readers", L + "graph_io_mmkt.c")])
C("C06", "Compressed streams carry the same bytes, under every schedule",
  "Reading a file through a decompressing stream gives exactly the bytes that were compressed, and data written through a compressing stream decompresses to what was written, whatever the scheduling of the helper thread. Closing the stream in the middle never blocks or crashes.",
  ["schedules", "inputs"], "every stream size around the internal buffer and pipe boundaries, every supported format, every early close point, under all schedules of reader and helper",
  "The helper thread and pipe interleave differently on each run; tests see one.",
  [L + "common_file.c", L + "common_file_compress.c", L + "common_file_decompress.c"], [("pipe plus helper thread", L + "common_file_decompress.c")])
C("C07", "Graph orderings are true permutations with exact block ranges",
  "Every ordering strategy applied to every valid graph succeeds and returns a permutation of the vertices, its exact inverse, and column blocks that partition the positions with a well-formed parent array. Partial orderings place exactly the listed vertices first, saved ordering files describe the computed ordering, and asking for fewer result arrays does not change the others.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, every graph up to isomorphism of 6 and 7, structured families, in every ordering strategy shape",
  "Tests run a handful of strategies on a few meshes and do not verify the result; degenerate graphs and strategy combinations are countless.",
  [L + "library_graph_order.c", L + "hgraph_order_nd.c", L + "hgraph_order_hf.c", L + "hgraph_order_hd.c", L + "hgraph_order_gp.c", L + "hgraph_order_cp.c", L + "hgraph_order_cc.c", L + "hgraph_order_bl.c", L + "hgraph_order_kp.c", L + "hall_order_hf.c", L + "hall_order_hx.c", L + "order.c", L + "order_io.c", L + "order_check.c"],
  [("recursive block tree filled by index ranges", L + "order.c"), ("halo approximate minimum degree/fill", L + "hall_order_hf.c")])
C("C08", "Separator trees never put adjacent vertices in unrelated blocks",
  "In the block tree returned with a complete ordering, two adjacent vertices are always in the same block or in two blocks one of which is an ancestor of the other. This holds for all nested dissection, compression, component and minimum degree strategies whose separators are kept whole.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, every graph up to isomorphism of 6 and 7, structured families, in every such strategy shape",
  "It is a global invariant of the returned tree that no test verifies; one wrong separator vertex breaks parallel factorisation silently.",
  [L + "vgraph_separate_fm.c", L + "vgraph_separate_ml.c", L + "vgraph_separate_gg.c", L + "vgraph_separate_es.c", L + "vgraph_separate_bd.c", L + "hgraph_order_nd.c", L + "order.c", L + "hall_order_hx.c"],
  [("vertex separators", L + "vgraph_separate_st.c"), ("tree construction", L + "order.c")])
C("C09", "Mesh orderings are true permutations of the nodes",
  "Every mesh ordering strategy applied to every valid mesh succeeds and returns a permutation of the nodes, its exact inverse and a well-formed partition into blocks. Two nodes sharing an element are always in the same block or in blocks one of which is an ancestor of the other.",
  ["inputs", "configurations"], "every incidence of up to 3x4 elements and nodes, structured meshes, every mesh strategy shape",
  "Tests order a few meshes and do not verify the result.",
  [L + "library_mesh_order.c", L + "hmesh_order_nd.c", L + "hmesh_order_hf.c", L + "hmesh_order_hd.c", L + "hmesh_order_cp.c", L + "hmesh_order_gp.c", L + "vmesh_separate_fm.c", L + "vmesh_separate_ml.c", L + "vmesh_separate_gg.c", L + "vmesh_separate_gr.c", L + "mesh_coarsen.c", L + "mesh_induce_sepa.c"],
  [("node nested dissection", L + "hmesh_order_nd.c")])
C("C10", "Mappings assign each vertex to a real target and keep fixed vertices",
  "Every mapping, partitioning, remapping or repartitioning of a valid graph succeeds and gives every vertex a terminal domain of the target architecture. Vertices given as fixed stay exactly where they were fixed, and the graph, the old mapping and the migration costs are left untouched.",
  ["inputs", "configurations"], "every labelled graph of up to 4 vertices and structured families, each target kind, each strategy shape, every assignment of fixed vertices and old parts of small graphs",
  "Tests map two or three meshes; fixed vertices, disconnected graphs and more parts than vertices combine freely.",
  [L + "library_graph_map.c", L + "kgraph_map_rb_map.c", L + "kgraph_map_rb_part.c", L + "kgraph_map_ml.c", L + "kgraph_map_fm.c", L + "kgraph_map_df.c", L + "kgraph_map_bd.c", L + "kgraph_map_ex.c", L + "kgraph_map_cp.c", L + "bgraph_bipart_fm.c", L + "bgraph_bipart_ml.c", L + "bgraph_bipart_df.c", L + "mapping.c"],
  [("recursive bipartition over target domains", L + "kgraph_map_rb_map.c"), ("fixed vertex array", L + "kgraph_map_rb.c")])
C("C11", "Partitions respect the requested load imbalance",
  "Partitioning an unweighted graph into k parts of a complete target with the predefined balanced strategy yields no part whose load exceeds the average load by more than the requested imbalance ratio of it plus less than one vertex; with two parts no load falls below the average by more than that either. With recursive bipartitioning only, the bound applies to each level of bipartition. When there are at least as many unit-load vertices as parts no part of a two-way partition is left empty.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, every graph up to isomorphism of 6 and 7, structured families, small part numbers",
  "Balance is the other half of what a partitioner is for; tests never measure it.",
  [L + "library_graph_map.c", L + "bgraph_bipart_ex.c", L + "bgraph_bipart_fm.c", L + "kgraph_map_ex.c"], [("exactification", L + "bgraph_bipart_ex.c")])
C("C12", "Mapping files and quality reports tell the truth",
  "A saved mapping file lists exactly the part of every vertex and loads back to the same mapping, with any vertex labels. The figures printed about a mapping (used targets, loads, cut, dilation) equal those recomputed from the graph, the target distances and the parts.",
  ["inputs", "configurations"], "every labelled graph of up to 4 vertices with every assignment to up to 3 parts, several target kinds",
  "A report is only ever eyeballed; tests just check that a tool exits.",
  [L + "library_graph_map.c", L + "library_graph_map_io.c", L + "library_graph_map_view.c", L + "mapping_io.c"], [("graphMapView", L + "library_graph_map_view.c")])
C("C13", "Partitions with overlap really separate the parts",
  "Partitioning with overlap gives each vertex a part or the separator mark, and no edge joins two vertices of different parts. It succeeds on every valid graph for any number of parts.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, atlas graphs and families, several part numbers and strategies",
  "The separating invariant is never verified by tests.",
  [L + "library_graph_part_ovl.c", L + "wgraph_part_rb.c", L + "wgraph_part_ml.c", L + "wgraph_part_fm.c", L + "wgraph_part_es.c", L + "wgraph_part_zr.c", L + "wgraph_check.c"], [("recursive separation", L + "wgraph_part_rb.c")])
C("C14", "Target architectures decompose exactly into their terminals",
  "Recursively bipartitioning a target architecture from its root always terminates, splits every domain into two disjoint parts that cover it, and ends on each terminal exactly once with consistent sizes and weights. The domain of a terminal number is found and gives back that number, and inclusion tests agree with the decomposition.",
  ["inputs", "configurations"], "all domains reachable from the root, for every architecture kind and every parameter set up to a size bound",
  "The domain tree is a state space; tests look at a few architectures through one program.",
  [L + "arch.c", L + "arch_mesh.c", L + "arch_torus.c", L + "arch_hcub.c", L + "arch_tleaf.c", L + "arch_cmplt.c", L + "arch_cmpltw.c", L + "arch_deco.c", L + "arch_deco2.c", L + "arch_sub.c", L + "arch_build.c", L + "arch_build2.c", L + "arch_vcmplt.c", L + "arch_vhcub.c"], [("domain bipartition functions", L + "arch.c")])
C("C15", "Target distances are those of the modelled network",
  "The distance between two terminals of an architecture equals the distance in the network it models (hops in meshes, tori and hypercubes, weighted level in trees, shortest path in described graphs), is symmetric, and is zero exactly between a terminal and itself.",
  ["inputs", "configurations"], "all pairs of terminals of every architecture kind and parameter set up to a size bound",
  "A distance error only shifts quality; no test compares distances.",
  [L + "arch_mesh.c", L + "arch_torus.c", L + "arch_hcub.c", L + "arch_tleaf.c", L + "arch_cmplt.c", L + "arch_deco.c", L + "arch_deco2.c", L + "arch_dist.c", L + "arch_sub.c"], [("domain distance functions", L + "arch.c")])
C("C16", "Target files round-trip and rebuilt targets are equivalent",
  "Saving a target architecture and loading it back gives an architecture with the same name, terminals, sizes, weights, decomposition and distances. Decomposition-defined and sub-architectures written by one call and read by another describe the same machine.",
  ["inputs", "configurations"], "every architecture kind and parameter set up to a size bound, every subset of terminals of small machines",
  "Only a few target files are loaded by tests.",
  [L + "arch.c", L + "library_arch.c", L + "arch_deco.c", L + "arch_deco2.c", L + "arch_sub.c", L + "arch_tleaf.c", "src/scotch/amk_grf.c", "src/scotch/acpl.c"], [("archSave / archLoad", L + "arch.c")])
C("C17", "Coarsening contracts a valid matching exactly",
  "Coarsening a graph yields a coarse graph whose vertices are disjoint pairs or singletons of fine vertices covering the fine graph, with summed vertex loads and summed edge loads and no self loops. Matching results are symmetric pairings, forbidden matings are respected, and the coarsening ratio threshold is honoured.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, atlas graphs, families, load kinds, flags and ratios, every given matching of small graphs",
  "Tests only check that coarsening returns.",
  [L + "graph_coarsen.c", L + "graph_coarsen_edge.c", L + "graph_match.c", L + "graph_match_scan.c", L + "library_graph_coarsen.c"], [("mating array and multinode table", L + "graph_coarsen.c")])
C("C18", "Induced subgraphs contain exactly the kept vertices and edges",
  "Inducing a subgraph by vertex list or by part keeps exactly the chosen vertices, in the requested order, with their loads, and exactly the edges between them with their loads. The original graph is untouched and the result passes the consistency check.",
  ["inputs"], "every labelled graph of up to 5 vertices and every subset or part array of it, every layout and load kind",
  "The set of subsets and layouts is exponential; tests use one.",
  [L + "graph_induce.c", L + "library_graph_induce.c", L + "mesh_induce_sepa.c", L + "hgraph_induce.c"], [("renumbering array", L + "graph_induce.c")])
C("C19", "Colourings are proper and use consecutive colours",
  "Graph colouring gives every vertex a colour from zero to the returned number of colours minus one, uses every such colour, and never gives adjacent vertices the same one. It terminates on every valid graph.",
  ["inputs"], "every labelled graph of up to 6 vertices, atlas graphs and families, all base values and layouts, several random states",
  "Tests colour one graph and do not verify properness.",
  [L + "library_graph_color.c"], [("random independent sets", L + "library_graph_color.c")])
C("C20", "The reported pseudo-diameter is a real distance",
  "The diameter estimate is a distance actually realised between two vertices, never exceeds the true weighted diameter and is at least half of it on connected graphs. Disconnected graphs are reported as such.",
  ["inputs"], "every labelled graph of up to 6 vertices, all load kinds, layouts and base values",
  "Tests print the value only.",
  [L + "library_graph_diam.c"], [("alternating breadth or Dijkstra sweeps", L + "library_graph_diam.c")])
C("C21", "Mesh graphs and dual graphs have exactly the right edges",
  "The graph derived from a mesh joins two nodes exactly when they share an element, with node loads kept. The dual graph joins two elements exactly when they share at least the given number of nodes.",
  ["inputs"], "every incidence of up to 4x4 elements and nodes, layouts, bases and load kinds, every sharing threshold",
  "Tests build two of them and do not verify edges.",
  [L + "mesh_graph.c", L + "library_mesh_graph.c"], [("hash-based neighbour collection", L + "mesh_graph.c")])
C("C22", "Size, data and statistics queries report the actual object",
  "Size and data queries return exactly the numbers and arrays of the object, and statistics (minimum, maximum, sum, average and deviation of loads and degrees) equal those recomputed from it. This holds for graphs and meshes in every array layout.",
  ["inputs"], "every small graph and mesh, layout, base and load kind",
  "Tests print statistics without comparing them.",
  [L + "library_graph.c", L + "library_mesh.c", L + "graph.c", L + "mesh.c"], [("graphStat / meshStat", L + "library_graph.c")])
C("C23", "Strategy strings are parsed totally and saved faithfully",
  "Parsing any strategy string either fails with an error and leaves no trace or gives a strategy; saving a strategy and parsing it again gives the same strategy, which behaves identically. Every predefined strategy flag combination is accepted.",
  ["inputs", "configurations"], "every token sequence of the strategy grammar up to a length bound, every single-character edit of seed strategies, every predefined flag combination",
  "Tests parse a handful of strings.",
  [L + "parser.c", L + "parser_yy.y", L + "parser_ll.l", L + "library_strat.c"], [("grammar and method tables", L + "parser_yy.y")])
C("C24", "Computations are reproducible and random states are isolated",
  "With the same random state, repeating any computation gives the same result, whatever was computed in between; saving and restoring the random state resumes the same sequence. Contexts have their own random state: computations bound to one context neither depend on nor disturb another.",
  ["histories"], "all sequences up to a depth of random, context and computation operations",
  "Isolation is a property of histories of calls; tests run one sequence.",
  [L + "common_integer.c", L + "library_random.c", L + "library_context.c", L + "common_context.c", L + "library_context_graph.c"], [("context random data and options", L + "common_context.c")])
C("C25", "Inputs stay untouched and every byte is given back",
  "Every call leaves the caller's constant arrays as they were, and once objects are freed all memory allocated on their behalf has been released. This holds for every sequence of creation, use and release calls.",
  ["histories", "inputs"], "all operation sequences up to a depth over graphs, meshes, architectures, mappings, orderings, strategies and contexts",
  "Leaks and stray writes depend on which code path each input takes.",
  [L + "library_graph.c", L + "library_graph_order.c", L + "library_graph_map.c", L + "library_arch.c", L + "library_mesh.c", L + "common_memory.c"], [("object exit functions", L + "graph.c")])
C("C26", "Running out of memory gives an error, not a crash",
  "When any single allocation request fails, each call returns an error status (or an equally valid result), without crashing, hanging or touching freed memory. The objects involved can still be freed and the caller's data is unharmed.",
  ["fault_sequences"], "every index of the failing allocation in every call, over small graphs and meshes",
  "Allocation failures never happen in tests.",
  [L + "common_memory.c", L + "graph_coarsen.c", L + "kgraph_map_rb_part.c", L + "hgraph_order_nd.c", L + "arch_deco.c", L + "mesh_graph.c"], [("allocation checks and clean-up paths", L + "common_memory.c")])
C("C27", "The thread pool runs each task once per thread and never blocks",
  "Launching a parallel task runs it exactly once on every thread of the context, barriers, reductions and scans return the sequential result, splitting a context gives two working disjoint pools, and termination always completes. This holds under every interleaving.",
  ["schedules"], "all interleavings up to a preemption bound of all synchronisation operations and shared accesses, for 1 to 4 threads and all short launch sequences",
  "Races and lost wake-ups need specific interleavings.",
  [L + "common_thread.c", L + "common_context.c", L + "library_context.c"], [("condition-variable based launch protocol", L + "common_thread.c"), ("barrier replacement", L + "common_thread.c")])
C("C28", "Multi-threaded algorithms are correct under every schedule",
  "Threaded matching, coarsening, bipartitioning, mapping and ordering give valid results under every interleaving of their threads, without deadlock or data race that changes validity. In deterministic mode the result does not depend on the schedule.",
  ["schedules"], "all interleavings up to a preemption bound, for 2 and 3 threads, over small graphs",
  "Thread schedules are not under test control.",
  [L + "graph_match.c", L + "graph_match_scan.c", L + "graph_coarsen.c", L + "bgraph_bipart_df.c", L + "kgraph_map_df.c", L + "hgraph_order_nd.c", L + "kgraph_map_rb_part.c", L + "wgraph_part_rb.c"], [("per-vertex locks in matching", L + "graph_match_scan.c")])
C("C29", "Independent calls may run concurrently",
  "Calls made at the same time by several user threads on distinct objects give the results they give alone. No interleaving makes one call see or corrupt the working data of another.",
  ["schedules"], "all interleavings up to a preemption bound of two user threads running library calls on distinct objects",
  "Shared hidden state only shows under particular interleavings.",
  [L + "common_context.c", L + "common_integer.c", L + "library_strat.c", L + "parser_yy.y", L + "common_memory.c"], [("per-context state", L + "common_context.c")])
C("C30", "Distributed graphs are built, checked and haloed consistently",
  "Building a distributed graph from per-process arrays gives the same global graph on every process; the distributed check accepts exactly the consistent ones on all processes alike; halo exchange gives every process the values of its remote neighbours. This holds for every distribution of vertices and every message order.",
  ["schedules", "inputs", "configurations"], "every labelled graph of up to 4 vertices, every distribution over 1 to 3 processes, every message matching order",
  "Tests run one distribution on up to 4 processes and one message order.",
  [L + "dgraph_build.c", L + "dgraph_check.c", L + "dgraph_halo.c", L + "dgraph_halo_fill.c", L + "dgraph_ghst.c", L + "library_dgraph_build.c"], [("ghost edge array", L + "dgraph_ghst.c"), ("halo send/receive", L + "dgraph_halo.c")])
C("C31", "Distributed restructuring preserves the graph",
  "Scattering, gathering, redistributing, inducing and banding a distributed graph preserve exactly the vertices, edges, loads and labels they should, for every distribution and number of processes. Gathering a scattered graph gives back the original.",
  ["schedules", "inputs", "configurations"], "every labelled graph of up to 4 vertices, every distribution over 1 to 3 processes, every part array, every message matching order",
  "Tests use a few graphs and one distribution each.",
  [L + "dgraph_scatter.c", L + "dgraph_gather.c", L + "dgraph_gather_all.c", L + "dgraph_redist.c", L + "dgraph_induce.c", L + "dgraph_band.c", L + "dgraph_band_grow.c"], [("collective data exchange", L + "dgraph_redist.c")])
C("C32", "Distributed orderings are true permutations and agree everywhere",
  "Every distributed ordering gives on all processes together one permutation of the global vertices, with a sound separator tree, and the centralised ordering and saved file agree with it. It completes for every number of processes and message order.",
  ["schedules", "inputs", "configurations"], "small graphs, every distribution over 1 to 3 processes, several strategies, message orders up to a bound",
  "Tests run one message order and do not verify the tree.",
  [L + "hdgraph_order_nd.c", L + "hdgraph_order_sq.c", L + "dorder.c", L + "dorder_perm.c", L + "dorder_gather.c", L + "dorder_tree_dist.c", L + "vdgraph_separate_ml.c", L + "vdgraph_separate_bd.c"], [("distributed nested dissection with folding", L + "hdgraph_order_nd.c")])
C("C33", "Distributed mappings assign every vertex to a real target",
  "Every distributed mapping or partitioning gives every local vertex of every process a terminal of the target, the same global mapping as the saved file and the reported figures say. It completes for every number of processes and message order.",
  ["schedules", "inputs", "configurations"], "small graphs, every distribution over 1 to 3 processes, several targets and strategies, message orders up to a bound",
  "Tests run one message order and never look at the parts.",
  [L + "kdgraph_map_rb.c", L + "kdgraph_map_rb_map.c", L + "kdgraph_map_rb_part.c", L + "bdgraph_bipart_ml.c", L + "bdgraph_bipart_bd.c", L + "bdgraph_bipart_df.c", L + "dmapping.c", L + "library_dgraph_map.c"], [("distributed dual recursive bipartitioning", L + "kdgraph_map_rb_part.c")])
C("C34", "Distributed coarsening contracts a valid matching exactly",
  "Distributed coarsening, with or without folding, yields a coarse graph whose vertices are disjoint pairs or singletons of fine vertices covering the fine graph, with summed loads, on every process layout and message order. Growing parts from seeds labels exactly the vertices within the given distance.",
  ["schedules", "inputs", "configurations"], "every labelled graph of up to 4 vertices, every distribution over 1 to 3 processes, flags, message orders up to a bound",
  "Tests only check that coarsening returns.",
  [L + "dgraph_coarsen.c", L + "dgraph_match.c", L + "dgraph_match_sync_coll.c", L + "dgraph_match_sync_ptop.c", L + "dgraph_match_scan.c", L + "dgraph_fold.c", L + "dgraph_fold_comm.c", L + "library_dgraph_coarsen.c"], [("mating request exchange", L + "dgraph_match_sync_ptop.c")])
C("C35", "Distributed files hold the same graph as the processes",
  "Loading a centralised or distributed graph file onto any number of processes gives the graph of the file, and saving it from any distribution writes files that load back to the same graph. Distributed block sizes follow the documented even split.",
  ["inputs", "configurations", "schedules"], "every labelled graph of up to 4 vertices with all load and label kinds, 1 to 3 processes",
  "Tests load one file on one layout.",
  [L + "dgraph_io_load.c", L + "dgraph_io_save.c", L + "library_dgraph_io_load.c", L + "library_dgraph_io_save.c", "src/scotch/dgscat.c"], [("dgraphLoad / dgraphSave", L + "dgraph_io_load.c")])
C("C36", "The METIS-compatible interface honours METIS conventions",
  "Through the METIS-compatible calls, partitions use the caller's numbering and every vertex gets a part in range, reported cut or volume equals the recomputed one, node orderings are inverse permutations, and mesh-to-dual conversion has exactly the right edges. Input arrays are left untouched and invalid requests are reported by the documented status.",
  ["inputs", "configurations"], "every labelled graph of up to 5 vertices, both interface versions, numberings, weights, part numbers and target weights",
  "Tests call each routine once.",
  ["src/libscotchmetis/metis_graph_part.c", "src/libscotchmetis/metis_graph_order.c", "src/libscotchmetis/metis_graph_dual.c", "src/libscotchmetis/metis_graph_part_f.c"], [("argument translation", "src/libscotchmetis/metis_graph_part.c")])
C("C37", "ESMUMPS gives a consistent elimination order and tree",
  "The ESMUMPS ordering gives for every matrix graph an acyclic parent array, with principal variables carrying the number of variables of their front and secondary ones attached to them, whose fronts cover every adjacency of the matrix. Symbolic factorisation covers every nonzero of the factor.",
  ["inputs"], "every labelled graph of up to 5 vertices, both variants, with and without weights",
  "Tests run one grid without checking the factor structure.",
  ["src/esmumps/esmumps.c", "src/esmumps/order.c", "src/esmumps/order_scotch_graph.c", "src/esmumps/symbol_fax.c", "src/esmumps/symbol_fax_graph.c", "src/esmumps/graph_graph.c"], [("symbolic factorisation", "src/esmumps/symbol_fax.c")])
C("C38", "Generators build exactly the graph families they name",
  "The graph, mesh and target generators output, for every dimension and option, exactly the vertices, edges, geometry and loads of the named family, as valid files. Options that wrap around or change stencils do only that.",
  ["inputs", "configurations"], "every dimension and option combination up to a size bound, for every generator program",
  "Tests generate one instance of some of them.",
  ["src/scotch/gmk_m2.c", "src/scotch/gmk_m3.c", "src/scotch/gmk_hy.c", "src/scotch/gmk_ub2.c", "src/scotch/gmk_msh.c", "src/scotch/mmk_m2.c", "src/scotch/mmk_m3.c", "src/scotch/amk_m2.c", "src/scotch/amk_hy.c", "src/scotch/amk_ccc.c", "src/scotch/amk_fft2.c", "src/scotch/amk_p2.c"], [("coordinate arithmetic", "src/scotch/gmk_m3.c")])
C("C39", "Command-line tools chain correctly through files",
  "The command-line programs give, on every valid input and option combination, outputs that are valid inputs for the next one and describe what the corresponding library call computes; test programs report exact figures. Invalid command lines and files end with a non-zero status and an error, never a crash.",
  ["inputs", "configurations"], "every small graph through every tool chain and option, every option letter in isolation",
  "Tests run one invocation of each tool.",
  ["src/scotch/gmap.c", "src/scotch/gord.c", "src/scotch/gtst.c", "src/scotch/gotst.c", "src/scotch/gmtst.c", "src/scotch/gbase.c", "src/scotch/gscat.c", "src/scotch/gout_c.c", "src/scotch/mord.c", "src/scotch/mtst.c", "src/scotch/atst.c", "src/scotch/gcv.c", "src/scotch/mcv.c"], [("option loops and file opening", "src/scotch/gmap.c")])
C("C40", "Internal priority structures and sorts behave as specified",
  "The gain tables and heaps used by refinement always return a best remaining element and lose none, whatever the sequence of insertions, removals and updates. The sorting routines return an ordered permutation of their input.",
  ["histories", "inputs"], "all sequences of insert, remove, update and extract up to a depth; all arrays over a small alphabet up to a length, and longer patterned arrays",
  "Operation histories are exponential; tests exercise them only through whole algorithms.",
  [L + "common_sort.c", L + "common_integer.c", L + "fibo.c", L + "gain.c"], [("Fibonacci heap", L + "fibo.c"), ("gain buckets", L + "gain.c")])

TODO = "No check of this property has been finished yet."
NA = {}


def tech(p):
    v = set(j.get("variant", "asan") for j in p["jobs"])
    if v & {"pt", "ptp"}:
        return "stateless model checking of the real code: processes run as fibers over an exploring MPI stand-in, all matching and completion orders up to a departure bound, over a bounded-exhaustive input space, judged by an independent reference model"
    if v & {"thr", "thra"}:
        return "stateless model checking of the real code: threads run as fibers under a controlled scheduler, all interleavings up to a departure bound, over a bounded-exhaustive input space"
    return "bounded-exhaustive explicit enumeration of executions of the real code against an independent reference model"


def main():
    import props
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for c in CAT:
            f.write(json.dumps(dict(id=c["id"], title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["qtext"]), why_tests_cant=c["why"],
                                    anchors=dict(files=c["files"], mechanism=[dict(name=a, where=b) for a, b in c["mech"]]))) + "\n")
    checks, na = [], []
    for c in CAT:
        p = props.PROPS.get(c["id"])
        if p:
            checks.append(dict(property=c["id"], quick_cmd="python3 mc/check.py %s" % c["id"], thorough_cmd="VERIF_TIER=thorough python3 mc/check.py %s" % c["id"],
                               evidence_file="evidence/%s.json" % c["id"], technique=tech(p),
                               level="model_checking", level_note="Exhaustive within: " + p["bounds"] + ". " + ("Assumes: " + "; ".join(p["assumptions"]) + ". " if p["assumptions"] else "") + "Every explored execution runs the real code built from the working tree."))
        else:
            na.append(dict(property=c["id"], reason=NA.get(c["id"], TODO)))
    m = dict(version=1, setup_cmd="python3 --version && gcc --version", checks=checks, not_applicable=na)
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not claimed")


if __name__ == "__main__":
    main()
