#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["src/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Point-to-point queries return the exact shortest distance",
 "For every prepared graph and every pair of its nodes, a path query terminates and reports a path exactly when the target can be reached from the source in the input graph, and the reported weight is the minimum total edge weight over all such paths. A node reaches itself with weight zero.",
 ["inputs"], "all directed graphs with positive weights (any size, shape, connectivity, ties, weight range whose distances stay below the maximum weight), all node pairs, any way of preparing the graph",
 "The tests compare 100 random graphs of 50 nodes with mean degree 2 and weights below 100, plus checksums for five maps; other shapes, sizes, densities and weight ranges are never compared to an oracle.",
 ["path_calculator.rs", "node_contractor.rs", "witness_search.rs", "preparation_graph.rs", "fast_graph_builder.rs"],
 [("bidirectional upward search with stall-on-demand", "path_calculator.rs"), ("shortcuts preserve distances", "node_contractor.rs"), ("witness search gives upper bounds only", "witness_search.rs")],
 observe=["calc_path", "PathCalculator::calc_path"])
prop("C02", "Returned node sequences are real paths with the reported weight",
 "Every path that a query returns starts at the source, ends at the target, visits no node twice, uses only edges of the input graph, and the weights of these edges (the cheapest of parallel edges) add up exactly to the reported weight. A query from a node to itself returns exactly that node.",
 ["inputs"], "all graphs, all node pairs, all preparations; in particular deeply nested shortcuts and paths with many ties",
 "The tests accept any node sequence as long as at most 10% differ from Dijkstra's; they never check that the nodes form a path of the input graph.",
 ["path_calculator.rs", "fast_graph_builder.rs", "fast_graph.rs"],
 [("shortcut unpacking", "path_calculator.rs"), ("replaced edge ids are set after contraction", "fast_graph_builder.rs")],
 observe=["ShortestPath::get_nodes", "get_source", "get_target", "get_weight"])
prop("C03", "Multi-source/multi-target queries minimise the total cost",
 "A query with weighted sources and targets returns a path minimising start weight plus path weight plus target weight over all source/target pairs, whose ends are listed nodes and whose reported weight is that total, or no path exactly when no listed pair is connected. Entries with the maximum weight count as absent, duplicates count with their smallest weight, a node that is both source and target needs no edges, and the order of the lists does not affect the weight.",
 ["inputs"], "all graphs, all non-empty source and target lists with any weights, sizes, duplicates and overlaps",
 "The tests use three random sources and targets with weights below 100 on 50-node graphs plus a few hand-made cases.",
 ["path_calculator.rs", "lib.rs"],
 [("initialisation of both searches and of the best meeting node", "path_calculator.rs")],
 observe=["calc_path_multiple_sources_and_targets"])
prop("C04", "A reused path calculator answers like a fresh one",
 "The answer of a path calculator (found or not, weight and nodes) depends only on the prepared graph and the arguments of the current query, never on earlier queries: any number and mix of earlier queries, on the same or other graphs with the same number of nodes, with or without result, including ones that were rejected with a panic.",
 ["histories"], "all query histories of one calculator, including more than 2^32 queries",
 "The tests run at most 100000 queries per calculator on a single graph, never switch graphs, never continue after a rejected query and never come near the wrap-around of the reset counter.",
 ["path_calculator.rs", "valid_flags.rs"],
 [("reset by generation counter", "valid_flags.rs"), ("heaps cleared per query", "path_calculator.rs")],
 state=[("generation counter", "marks which per-node entries belong to the current query", "valid_flags.rs")],
 observe=["PathCalculator::calc_path", "calc_path_multiple_sources_and_targets"],
 hook="fast-forward of the generation counter (verif_hooks)")
prop("C05", "Preparation parameters never affect correctness",
 "Whatever values the preparation parameters have, preparation terminates without a panic, and the resulting graph yields the exact shortest distances and valid paths.",
 ["configurations", "inputs"], "all values of the factors (zero, negative, infinite, NaN) and of the settled-node limits (zero to the maximum), for preparation with and without a given order",
 "The tests check answers only for the defaults on random graphs and for a handful of similar parameter sets on the maps.",
 ["fast_graph_builder.rs", "node_contractor.rs", "witness_search.rs"],
 [("priorities only influence the order", "fast_graph_builder.rs"), ("an aborted witness search leads to a shortcut", "witness_search.rs")],
 observe=["prepare_with_params", "prepare_with_order_with_params"])
prop("C06", "Preparation with a given order is exact for every permutation",
 "For every permutation of the node ids, preparation with that order succeeds, the result reports exactly that order as its node ordering, and its queries are exact; the ordering of any prepared graph is such a permutation and can be reused for a changed graph with the same number of nodes, whose answers then reflect the changed graph. An order of the wrong length yields an error, and a sequence that is not a permutation is never accepted.",
 ["inputs", "configurations"], "all graphs and all sequences of node ids",
 "The tests use the identity order on a few tiny graphs and the heuristic order on two maps; random permutations, invalid orders and the reported ordering are never checked.",
 ["fast_graph_builder.rs", "fast_graph.rs", "lib.rs"],
 [("validation of the order", "fast_graph_builder.rs"), ("inverse of the ranks", "fast_graph.rs")],
 observe=["prepare_with_order", "get_node_ordering"])
prop("C07", "Preparation is deterministic",
 "Preparing the same set of edges with the same parameters always yields a byte-identical prepared graph: in the same process, in another thread or process, and regardless of the order in which edges were added, of worse duplicates, of loops, of freeze/thaw cycles in between, and of whether a logger formats the messages of the library.",
 ["inputs", "histories", "configurations"], "all graphs, insertion histories, threads and processes",
 "The test prepares ten 50-node graphs twice in a row in one process.",
 ["fast_graph_builder.rs", "input_graph.rs", "preparation_graph.rs"],
 [("ordered neighbour set and deterministic queue updates", "fast_graph_builder.rs"), ("edges sorted on freeze", "input_graph.rs")],
 observe=["serialized form of FastGraph"])
prop("C08", "A frozen input graph is the canonical form of the added edges",
 "After any sequence of adding edges, freezing and thawing, the frozen graph lists exactly the distinct (from, to) pairs that were added with a positive weight and from unequal to to, sorted, each once and with the smallest weight added so far, and its node count is one more than the largest node id among the accepted edges. Adding an edge returns the number of accepted directed edges (0 for loops and zero weights, which leave the graph as it was), and edges can be added only while thawed and read only while frozen.",
 ["histories", "inputs"], "all operation sequences on an input graph",
 "The tests check two duplicate examples, one freeze/thaw cycle and single loops and zero weights.",
 ["input_graph.rs"], [("sort and dedup on freeze", "input_graph.rs"), ("frozen flag", "input_graph.rs")],
 state=[("frozen", "whether edges may be read or added", "input_graph.rs")],
 observe=["get_edges", "get_num_edges", "get_num_nodes", "add_edge", "add_edge_bidir"])
prop("C09", "Serialization round trips preserve graphs exactly",
 "Serializing a prepared graph with any Serde format and deserializing it (alone or inside a larger structure, as often as wanted) yields a graph with the same node and edge counts and node ordering and with identical answers to every query, and serializing it again yields the same bytes. The same holds for input graphs, frozen or not.",
 ["inputs"], "all prepared graphs and input graphs, self-describing and binary formats",
 "The test stores one 6-node graph and compares three counts.",
 ["fast_graph.rs", "input_graph.rs"], [("derived Serde implementations", "fast_graph.rs")],
 observe=["Serialize/Deserialize of FastGraph and InputGraph"])
prop("C10", "The 32-bit representation is exact or refused",
 "Converting a prepared graph to the 32-bit representation and back (directly, or through serialize_32 and deserialize_32) yields a graph with identical answers whenever all of its node ids, edge ids and weights, including those of shortcuts, are below 2^32-1 (that value is reserved for \"none\"). If some value is not, the conversion panics; it never returns a graph with a changed value.",
 ["inputs"], "all prepared graphs, in particular weights and shortcut weights at the 32-bit limit",
 "The tests convert one artificial structure and one 6-node graph and never query a converted graph or use a value at the limit.",
 ["fast_graph32.rs", "lib.rs"], [("checked conversion with a reserved value", "fast_graph32.rs")],
 observe=["FastGraph32::new", "convert_to_usize", "serialize_32", "deserialize_32"])
prop("C11", "Graph files round trip",
 "Writing a frozen input graph with to_file or to_dimacs_file and reading the file with the matching function yields exactly the same edges and weights, and the same number of nodes if the node with the largest id has an edge or the format is DIMACS. The DIMACS file states the true counts and uses node ids starting at one, as any DIMACS reader expects.",
 ["inputs"], "all frozen input graphs, any size, ids and weights",
 "No test writes a graph file.",
 ["input_graph.rs"], [("line based writers and readers", "input_graph.rs")],
 observe=["to_file", "from_file", "to_dimacs_file", "from_dimacs_file"])
prop("C12", "Graph file readers load what the file says or reject it",
 "The readers accept every well-formed file (comments, empty lines, extra white space, either line ending, edges in any order, duplicates, loops) and load exactly the graph the file describes, where a DIMACS file determines the number of nodes by its problem line. The DIMACS reader rejects with a panic every file with a missing or repeated problem line, a number of arc lines different from the stated one, node ids outside the stated range, malformed arcs or unknown lines, and the plain reader rejects malformed arc lines and ignores all other lines.",
 ["inputs"], "all text files",
 "No test reads a DIMACS file, and the plain reader is only used on five well-formed maps.",
 ["input_graph.rs"], [("line parser with assertions", "input_graph.rs")],
 observe=["from_file", "from_dimacs_file"])
prop("C13", "Failed writes of graph files are reported",
 "If to_file or to_dimacs_file returns Ok, the complete graph has been handed to the operating system; if the file cannot be created or any write fails, at whatever byte, the call returns an error instead of Ok and does not panic.",
 ["fault_sequences", "crash_points"], "every byte position at which a write can fail, every cause (no space, file size limit, broken pipe, invalid path)",
 "No test lets a write fail.",
 ["input_graph.rs"], [("buffered writer that is flushed before returning", "input_graph.rs")],
 observe=["result of to_file and to_dimacs_file", "content of the file"])
prop("C14", "A prepared graph can be queried concurrently",
 "Any number of threads can query one shared prepared graph at the same time, each with its own calculator (or through the free functions), and can prepare graphs at the same time: there is no data race, and every answer and every prepared graph is the same as without other threads.",
 ["schedules"], "all numbers of threads and interleavings",
 "All tests are single-threaded.",
 ["path_calculator.rs", "fast_graph.rs", "lib.rs", "valid_flags.rs"], [("no shared mutable state, queries take the graph by shared reference", "path_calculator.rs")],
 observe=["answers per thread", "ThreadSanitizer and Miri reports"])
prop("C15", "No use of the API causes undefined behaviour",
 "No sequence of calls of the safe API, with valid or invalid arguments, and no query on a deserialized graph with corrupted contents causes an out-of-bounds access, use of uninitialised or freed memory, a memory leak or any other undefined behaviour; invalid use is answered by a panic or an error at most.",
 ["inputs", "histories"], "all call sequences and arguments, all deserialized contents",
 "The tests run without sanitizers and use only valid graphs and arguments.",
 ["path_calculator.rs", "valid_flags.rs", "fast_graph.rs", "preparation_graph.rs", "witness_search.rs"], [("checked indexing, no unsafe code", "path_calculator.rs")],
 observe=["AddressSanitizer and Miri reports"])
prop("C16", "Invalid queries and calls are rejected",
 "A query whose source or target list is empty or contains a node id outside the graph, or whose graph has another number of nodes than the calculator, is always rejected by a panic, whatever else the arguments contain and even where a result could be found without looking at the bad value. Calls that the state of an input graph does not allow (adding edges while frozen, reading or preparing while thawed) and orders that are no permutation are rejected, too. After such a rejection the calculator, the prepared graph and the input graph still work correctly.",
 ["inputs", "histories"], "all invalid arguments at every position of the lists, all graphs including ones without edges or nodes",
 "No test passes invalid arguments to a query.",
 ["path_calculator.rs", "input_graph.rs", "fast_graph_builder.rs"], [("assertions on entry", "path_calculator.rs")],
 observe=["panics of calc_path and calc_path_multiple_sources_and_targets"])
prop("C17", "Prepared graphs are well-formed hierarchies of real edges",
 "In every prepared graph the ranks are a permutation, the edges of each node lead only to nodes of higher rank with at most one per direction and neighbour, every edge that is no shortcut is an input edge with its weight, and every shortcut replaces exactly two stored edges that meet at a node of lower rank and whose weights add up to its weight. Every input edge is represented by a stored edge between the same nodes whose weight is not larger.",
 ["inputs", "configurations"], "all graphs, parameters and orders",
 "The tests compare edge counts or query results only; the stored structure is never examined.",
 ["fast_graph_builder.rs", "fast_graph.rs", "node_contractor.rs", "preparation_graph.rs"], [("contraction and assignment of replaced edges", "fast_graph_builder.rs")],
 state=[("ranks, edge lists", "the hierarchy", "fast_graph.rs")],
 observe=["public fields of FastGraph32", "serialized form"])
prop("C18", "Very large weights never cause wrong answers",
 "Distances below the maximum weight are exact even if edge weights, initial weights, or the lengths of other paths and shortcuts in the graph are so large that their sum exceeds the integer range. A path whose total reaches the maximum weight counts as nonexistent, and no arithmetic overflow (wrap-around, or panic in builds with overflow checks) ever happens.",
 ["inputs", "configurations"], "all graphs with weights up to the maximum, in builds with and without overflow checks",
 "The tests use weights below 100 or those of road maps; no sum comes near the integer range.",
 ["node_contractor.rs", "witness_search.rs", "path_calculator.rs"], [("saturating sums", "node_contractor.rs")],
 observe=["query weights", "overflow panics in a checked build"])
prop("C19", "Large and deeply nested graphs do not exhaust the stack",
 "Preparation and queries work within the default stack of a thread for any number of nodes and any node order, including orders for which shortcuts are nested as deep as there are nodes.",
 ["inputs", "configurations"], "long chains and similar graphs with any permutation as order, default thread stacks",
 "The tests use graphs whose shortcuts are nested a few dozen levels at most.",
 ["path_calculator.rs", "fast_graph_builder.rs"], [("unpacking with an explicit stack", "path_calculator.rs")],
 observe=["termination of the process", "answers"])
prop("C20", "Unlimited preparation adds no needless shortcuts",
 "If the witness searches of a preparation are not limited, no shortcut is stored that bypasses a node although, when that node was contracted, the remaining graph contained another path between the same two nodes that avoids it and is not longer.",
 ["inputs", "configurations"], "all graphs and orders, settled-node limits at their maximum",
 "Two unit tests check a witness on four-node graphs; superfluous shortcuts only slow down queries, so no test notices them.",
 ["node_contractor.rs", "witness_search.rs", "preparation_graph.rs"], [("witness search before a shortcut is added", "node_contractor.rs")],
 observe=["public fields of FastGraph32"])
prop("C21", "32-bit platforms give the same results",
 "On a 32-bit platform preparation, queries and serialization work like on a 64-bit platform as long as all values fit into 32 bits: a graph prepared on a 64-bit system and stored in the 32-bit representation loads there and gives identical answers, preparing there yields the same prepared graph, and the graph can be stored in the 32-bit representation again, giving the same bytes.",
 ["configurations", "inputs"], "all graphs within the 32-bit limits, both word sizes",
 "The tests only run on the 64-bit host.",
 ["fast_graph32.rs", "lib.rs", "constants.rs", "path_calculator.rs"], [("usize based ids with a reserved maximum", "constants.rs"), ("conversion of the reserved value", "fast_graph32.rs")],
 observe=["bytes and answers of a 32-bit build"])
prop("C22", "Queries explore only a small part of a road network",
 "On road networks with 30,000 or more nodes random queries with a reused calculator execute on average less than a twentieth of the instructions of a plain Dijkstra search (which stops at the target) if the network is prepared with default parameters or its own ordering, and less than a tenth with the recommended parameters for fast preparation (0.1, 500, 2, 50). The cost of a query grows neither with the number of nodes in other parts of the graph that cannot be reached, nor with the number of nodes that are farther away from its source and target than their distance, nor with the number of earlier queries of the calculator.",
 ["inputs"], "random queries on the maps that come with the repository, and on generated road-like graphs",
 "The performance tests print times but never assert them.",
 ["path_calculator.rs", "valid_flags.rs", "node_contractor.rs"], [("upward search, stall-on-demand, stopping criterion", "path_calculator.rs"), ("constant time reset", "valid_flags.rs")],
 observe=["executed instructions per query"])
prop("C23", "Preparation effort respects the settled-node limits",
 "On road networks with 30,000 or more nodes preparation with default parameters costs less than 25 Dijkstra searches of the whole network per thousand nodes (100 on the Seattle map) and yields in each direction at most 1.1 times as many edges as the input (twice on the Seattle map); preparing again with the graph's own ordering costs less than half of that. Preparing several equal networks side by side costs proportionally. All witness searches from one neighbour of a node together settle no more nodes than the settled-node limit that applies (initial, neighbour or contraction), however many edges leave the node, and each limit affects only its own phase.",
 ["inputs", "configurations"], "the maps that come with the repository, generated road-like graphs and hub graphs",
 "The performance tests print preparation times and edge counts but never assert them.",
 ["witness_search.rs", "node_contractor.rs", "fast_graph_builder.rs"], [("limits of the witness search", "witness_search.rs"), ("early termination at the target or weight limit", "witness_search.rs")],
 observe=["executed instructions", "edge counts"])
prop("C24", "Memory is bounded by the size of the graphs",
 "Memory use is proportional to the sizes of the graphs involved: an input graph needs a bounded number of bytes per added edge (none for skipped edges, independent of how large node ids are), a prepared graph and a calculator per node and stored edge, and preparation, storing, loading and conversion need no more than a constant multiple of that temporarily and keep none of it. A calculator does not grow with the number or kind of its queries, and the working memory of a query does not depend on nodes that it cannot reach. Writing files, and lines that are ignored when reading them, need constant memory. Loading a file or a stored graph never needs more than memory in proportion to its real length (and a few MiB), whatever counts, lengths or ids are written in it.",
 ["inputs", "histories"], "all graphs, query histories, files and stored graphs including damaged ones",
 "No test looks at memory.",
 ["path_calculator.rs", "fast_graph32.rs", "fast_graph_builder.rs", "preparation_graph.rs", "witness_search.rs", "input_graph.rs"], [("search data allocated once and reused", "path_calculator.rs"), ("conversion of stored graphs", "fast_graph32.rs")],
 observe=["allocations and deallocations"])
prop("C25", "Effort grows in proportion to the input",
 "The effort of the following grows in proportion to the number of edges, nodes, lines, list entries or path nodes involved, up to a logarithmic factor: adding edges in any order and freezing (with any share of duplicates and skipped edges), thawing and freezing again, reading the edges, writing and reading files, storing, loading, cloning and converting prepared graphs, extracting the node ordering, creating a calculator, calculating a path with many nodes (however deep its shortcuts are nested), queries with one long list, and preparing graphs of bounded degree such as lines, trees and isolated edges, with or without a given order.",
 ["inputs"], "inputs of all sizes",
 "The tests use one size each and never assert the effort.",
 ["input_graph.rs", "path_calculator.rs", "fast_graph_builder.rs", "fast_graph32.rs", "fast_graph.rs"], [("sorting, removal of duplicates", "input_graph.rs"), ("unpacking of shortcuts", "path_calculator.rs")],
 observe=["executed instructions"])
prop("C26", "Equivalent ways of calling the library agree",
 "Ways of calling the library that mean the same have identical results. The functions without parameters equal the ones with default parameters, and both equal the methods of FastGraphBuilder: they yield byte-identical prepared graphs, or all refuse. A query by the free functions, by a calculator from create_calculator or from PathCalculator::new, and a query whose lists consist of one node each with weight zero all return the same path, or are all rejected; other weights of single entries only shift the weight of the result by their sum. Preparing a graph with the ordering of a graph prepared from the same edges, and with the same settled-node limit for the contraction, reproduces that prepared graph exactly. add_edge_bidir equals add_edge in both directions, InputGraph::default equals new, and copies equal their originals, whether they are made before or after freezing.",
 ["inputs", "configurations"], "all graphs, parameters, orders and queries",
 "The tests call most of these functions separately and never compare them on the same input.",
 ["lib.rs", "fast_graph_builder.rs", "path_calculator.rs", "input_graph.rs", "fast_graph.rs"], [("free functions delegate", "lib.rs"), ("the same contraction with and without a given order", "fast_graph_builder.rs")],
 observe=["results of all public functions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
