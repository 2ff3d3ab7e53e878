"""What each check runs, and what its evidence says."""

def fp(variant="std", **more):
    return dict(kind="fpmon", variant=variant, **more)

TSAN = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 second_deadlock_stack=1 history_size=4"}
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1"}

# a shorter run with overflow checks and debug assertions
CHECKED = fp("checked", args=["--scale", "0.2"])

GRAPHS = ("Graphs come from 29 topology families x 11 weight regimes (ties, 2^32, 2^53, wide ranges), five road maps and "
          "graphs with more than 2^16 nodes, with node ids relabelled and skipped edges mixed in; all are derived from "
          "VERIF_SEED. ")

PLAN = {
    "C01": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one query compared with Dijkstra in 128 bit arithmetic. A case is a graph; "
                "it is non-trivial if it has at least two edges, and distinct by the hash of its edge list."),
    "C02": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one answer whose node list is checked against the edges of the input. A "
                "case is a graph; it is non-trivial if it has at least two edges, and distinct by the hash of its edge "
                "list."),
    "C14": dict(level="exploration", parts=[fp(), fp("tsan", env=TSAN, args=["--scale", "1.0"])],
                rule="2 to 16 threads work on shared prepared graphs: queries with own calculators, free functions, rejected "
                "queries, preparations, copies, serialization, hand-over of calculators and graphs, with random delays. One "
                "evaluation is one operation whose result is compared with the one computed sequentially before. Distinct "
                "cases are graphs, and observed interleavings: hashes of the order in which the first 4096 operations were "
                "begun by which thread. The part tsan does the same under ThreadSanitizer (standard library "
                "instrumented, too)."),
}

PLAN.update({
    "C13": dict(level="fault_enumeration", parts=[dict(kind="faultio")],
                rule="For each graph and each of the two writers, every write call is made to fail in turn (ENOSPC, EIO, "
                "zero bytes, short writes, a file size limit at every tried byte, /dev/full, a closed pipe, missing "
                "directories). One evaluation is one call under a fault; distinct cases are graph x writer x fault "
                "position."),
    "C15": dict(level="exploration",
                parts=[fp("checked"), fp("asan", env=ASAN), fp("msan"), fp("std", binary="leak", label="leak"),
                       dict(kind="miri")],
                rule="Random lives of the library: building, preparing, valid and invalid queries, copies, serialization, "
                "damaged copies, threads, files. The same workload runs with the checks of debug builds (preconditions of "
                "unchecked functions), AddressSanitizer, MemorySanitizer, an allocator that counts live allocations, and "
                "Miri (stacked borrows and tree borrows, several schedules). One evaluation is one API call under an "
                "instrument; distinct cases are lives with different inputs and answers (by hash)."),
    "C16": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "One evaluation is one invalid call that has to be rejected, or one valid query afterwards "
                "that is compared with a fresh calculator. Distinct cases are graphs."),
    "C18": dict(level="exploration", parts=[fp(), fp("checked")],
                rule="Graphs of 29 families with weights of seven kinds close to 2^62, 2^63 and 2^64, and nodes whose "
                "distance is placed just below, at and above the maximum. One evaluation is one answer compared with "
                "Dijkstra in 128 bit arithmetic; distinct cases are graphs (by hash of the edges). The part checked runs "
                "with overflow checks."),
    "C19": dict(level="exploration", parts=[fp(hang=300, cpu=400)],
                rule="Chains of 60,000 to 1,100,000 nodes prepared with ten kinds of orders (shortcuts nested up to the "
                "number of nodes, measured on the prepared graph) on threads with a stack of 2 MiB. One evaluation is one "
                "query checked against prefix sums, or one preparation; distinct cases are chain x order x limit."),
})

PLAN.update({
    "C03": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "Lists of 1 to 3000 sources and targets with duplicates, overlaps, absent entries (maximum "
                "weight) and weights up to the maximum. One evaluation is one answer whose total, nodes and ends are checked "
                "against a multi-source Dijkstra in 128 bit arithmetic; distinct cases are graphs."),
    "C04": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "Histories of queries (single, lists, rejected ones, other graphs of the same size) on one "
                "calculator, up to 16.8 million (thorough: 40 million) queries, and with the internal reset counters moved close "
                "to their maximum by a guarded hook. One evaluation is one answer compared with a fresh calculator; "
                "distinct cases are graphs."),
    "C05": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "Parameters from 0, 1, limits up to the maximum, and factors that are zero, negative, huge, "
                "infinite or NaN. One evaluation is one answer compared with Dijkstra, or one preparation that has to "
                "succeed; distinct cases are graphs."),
    "C06": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "Orders: random, identity, reverse, heuristic, disturbed, of changed graphs, and invalid ones. "
                "One evaluation is one answer compared with Dijkstra, one ordering compared, or one invalid order; distinct "
                "cases are graphs."),
    "C07": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one repeated preparation (other edge order, duplicates, loops, freezing, "
                "thread, process) whose serialized bytes are compared; distinct cases are prepared graphs (by hash)."),
    "C08": dict(level="exploration", parts=[fp(), CHECKED],
                rule="Histories of add_edge, add_edge_bidir, freeze, thaw, reads and illegal calls. One evaluation is one "
                "comparison with a map of the smallest weights; distinct cases are histories (by hash)."),
    "C09": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "Binary and text formats of serde, including embedding in larger structures. One evaluation "
                "is one comparison of a deserialized object with its original; distinct cases are graphs."),
    "C10": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "Weights on both sides of 2^32, including shortcuts that exceed it. One evaluation is one "
                "conversion that has to be exact (answers and fields compared) or refused; distinct cases are graphs."),
    "C11": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one graph written by one of the writers and read by the reader, or parsed by "
                "our own parser; distinct cases are graphs."),
    "C12": dict(level="exploration", parts=[fp()],
                rule="Files generated from a grammar (comments, blank lines, extra fields, missing lines, wrong counts, wrong "
                "numbers, mutated bytes) together with what they mean. One evaluation is one file that has to be read as "
                "meant or rejected by a panic; distinct cases are files (by hash)."),
    "C17": dict(level="exploration", parts=[fp(), CHECKED],
                rule=GRAPHS + "One evaluation is one stored edge or node of a prepared graph (read through the public "
                "32-bit fields or serde) that is checked; distinct cases are graphs."),
    "C20": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one stored shortcut for which a witness is searched in the remaining graph "
                "by our own Dijkstra; distinct cases are graphs."),
})

PLAN.update({
    "C21": dict(level="exploration", parts=[dict(kind="port")],
                rule="The same program is built for 64-bit and for native 32-bit Linux. Each platform prepares graphs, "
                "answers queries and stores everything; the other one loads the graph by deserialize_32, prepares it again "
                "itself, repeats all queries, and stores both again. One evaluation is one answer or one stored byte string "
                "compared; distinct cases are graphs. The part 32_bit_alone compares the 32-bit platform with Dijkstra, with "
                "weights up to 2^32."),
})

PLAN.update({
    "C22": dict(level="exploration", parts=[dict(kind="queries")],
                rule="Instructions of the real program counted by valgrind; differences of runs with different numbers of "
                "queries. Networks: the Bremen and Seattle maps of the repository and random street networks (by seed). One "
                "evaluation is one measured average; distinct cases are network x parameters."),
    "C23": dict(level="exploration", parts=[dict(kind="preparation")],
                rule="Instructions of the real program counted by valgrind; differences of runs with and without the "
                "preparation, or with different limits. One evaluation is one measured preparation; distinct cases are "
                "network x parameters."),
})

PLAN.update({
    "C24": dict(level="exploration", parts=[fp(binary="memory", label="memory")],
                rule=GRAPHS + "An allocator counts the bytes that each thread holds. One evaluation is one measured amount "
                "(what a call needs at most, what it leaves, what is left after repetitions) compared with its bound; "
                "distinct cases are inputs (by hash). percent_* in maxima tells how much of each bound was used at most."),
    "C25": dict(level="exploration", parts=[dict(kind="scaling")],
                rule="Instructions of the real program counted by valgrind for 50 kinds of operations at two sizes (1 and 16 "
                "times; thorough: 1, 8, 64 times), as differences of runs that repeat the operation once and three times. One "
                "evaluation is one measured effort per item; distinct cases are operation x size."),
    "C26": dict(level="exploration", parts=[fp()],
                rule=GRAPHS + "One evaluation is one comparison of two results that have to be identical; distinct cases are "
                "graphs (by hash of the edges)."),
})
