#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

DYN = "include/svs/index/vamana/dynamic_index.h"
p("C01", "The dynamic index holds exactly the ids added and not deleted",
  "After any sequence of build, add, delete, consolidate, compact, save and reload, the ids the dynamic index reports (membership, size, full id listing) are exactly those successfully added and not deleted since. "
  "A rejected add (an id repeated in the batch or already present) or a rejected delete (an unknown id) raises an error and leaves the set, the size and the contents as they were. "
  "Every live id is bound to a storage slot of its own, so no two ids ever share a vector.",
  ["histories", "inputs", "configurations"],
  "all operation histories, batch shapes, slot-reuse settings, thread counts and id values",
  "The one dynamic-index test needs a dataset that is not in the tree, so the stable tests reach none of this code; and a sampled history cannot cover the slot-reuse orders.",
  [DYN, "include/svs/core/translation.h"],
  [("slot metadata and gather of empty slots", DYN + " add_points/delete_entries/consolidate/compact"),
   ("two-way id map with all-or-nothing insert", "include/svs/core/translation.h insert/delete_external/remap_internal_ids")],
  ["has_id, size, external_ids/on_ids, translate_external_id after every public call"],
  [dict(name="status", meaning="per slot: empty, valid, deleted", where=DYN)])
p("C02", "Dynamic search returns only live distinct ids, in order, at true distances",
  "Every result of a dynamic-index search is an id that is live at that moment, no id occurs twice in one answer, results come in order of distance, and each reported distance is the true distance between the query and the vector stored under that id. "
  "Deleted ids, consolidated or not, never come back, and they do not push live results out of the answer: when the search window covers the index and the live vectors are reachable, the answer is the exact nearest live vectors. "
  "When fewer results exist than were asked for, the rest of the answer is marked missing and is never a stale or foreign id.",
  ["histories", "inputs", "configurations", "schedules"],
  "all operation histories, queries, window and capacity settings, distance types, thread counts",
  "No stable test searches a dynamic index; the interesting cases need pending deletes, reused slots and short answers together.",
  [DYN, "include/svs/index/vamana/dynamic_search_buffer.h", "include/svs/index/vamana/extensions.h"],
  [("soft-deleted entries kept for routing but invalid as results", DYN + " ValidBuilder; dynamic_search_buffer.h"),
   ("translation of internal to external ids", DYN + " translate_to_external")],
  ["search() results against the live id to vector map"])
p("C03", "A vector's content stays bound to its id through every dynamic operation",
  "For every live id, the vector read back or reconstructed by that id is, component for component, the vector given when the id was last added, whatever additions, deletions, consolidations, compactions (with any batch size), slot reuses, saves and reloads happened since. "
  "This holds for contiguous and for blocked storage and for each supported element type.",
  ["histories", "inputs", "configurations"],
  "all histories, compaction batch sizes, block sizes, element types, thread counts",
  "Moves happen only on compaction and reload with holes in particular places; the stable tests exercise compaction only on a bare dataset.",
  [DYN, "include/svs/core/compact.h", "include/svs/core/data/simple.h"],
  [("order-preserving renumbering on compact", DYN + " compact"), ("batched gather and scatter", "include/svs/core/compact.h")],
  ["get_datum / reconstruct_at per live id after every operation"])
p("C04", "The dynamic index's graph stays well formed under updates",
  "After every operation on a dynamic index, each live vector's neighbour list is within the configured degree, has no self-edge and no duplicate, and names only existing slots that are live or soft-deleted; after consolidation no edge leads to a deleted vector, and after consolidating and compacting, the slots are exactly the live vectors. "
  "The search entry point is always a slot that still routes (live or soft-deleted), and a vector whose whole neighbourhood was deleted receives no edge that was not derived from its own neighbourhood.",
  ["histories", "schedules", "inputs", "configurations"],
  "all histories, thread counts and schedules of the parallel build and repair phases",
  "The consolidation test needs a missing graph file, and no stable test deletes vectors.",
  [DYN, "include/svs/index/vamana/consolidate.h", "include/svs/index/vamana/vamana_build.h"],
  [("repair of nodes with deleted neighbours", "include/svs/index/vamana/consolidate.h"),
   ("entry point replacement", DYN + " consolidate"), ("degree caps", "vamana_build.h, graph.h add_edge/replace_node")],
  ["view_graph(), entry point, status after every call"])
p("C05", "Compaction, save and reload do not change what a dynamic index answers",
  "Compacting, and saving then reloading, a consolidated dynamic index changes neither the set of ids, nor any vector, nor the answers to queries (ids and distances), nor the construction and search parameters in force; the edges between ids are the same before and after. "
  "Consolidating changes neither the ids nor the vectors, and a saved index leaves the one in memory usable and consistent.",
  ["histories", "inputs", "configurations"],
  "all histories with maintenance placed anywhere, all maintenance batch sizes and thread counts",
  "The only test that saves a dynamic index does not run here, and it looks at recall and not at equality.",
  [DYN, "include/svs/core/graph/graph.h", "include/svs/core/translation.h"],
  [("renumbering of graph, data, ids, entry point", DYN + " compact"), ("saved configuration", DYN + " save / auto_dynamic_assemble")],
  ["edges as external ids, search answers and parameters before and after maintenance"])
p("C06", "A thread pool runs a job once per worker and survives failing jobs",
  "Submitting a job to a pool of n threads runs it exactly once for each worker number 0..n-1, the call returns only after all of them finished, and their effects are then visible. "
  "If any of them throws, the call raises a single error after every other one finished, and the pool then runs later jobs normally; resizing or destroying the pool never abandons, repeats or hangs a job.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings, any subset of workers throwing any exception, any sequence of runs and resizes",
  "The tests run a few jobs with one exception pattern and do not control the schedule.",
  ["include/svs/lib/threads/threadpool.h", "include/svs/lib/threads/thread.h"],
  [("assign to workers, run own share, wait for all", "threadpool.h run"), ("restart of crashed workers", "threadpool.h manage_exception_during_run")],
  ["start/finish of every job body per worker, return or error of run()"])
p("C07", "The worker handshake never loses a job or a wake-up and always shuts down",
  "A job handed to a worker thread is executed exactly once, whether the worker is spinning, about to sleep or asleep, and whoever waits for it is released after it completes or fails, never before. "
  "A shutdown request always terminates the worker, whatever state it is in, and a worker that failed stays failed with its exception available until it is restarted.",
  ["schedules", "fault_sequences"],
  "all interleavings of one controlling thread with the worker's spin, sleep, wake, run and exit steps",
  "The race between going to sleep and being given work lasts nanoseconds and tests sample it by luck.",
  ["include/svs/lib/threads/thread.h"],
  [("state machine with compare-and-swap and condition variable", "thread.h ThreadControlBlock"), ("worker loop", "thread.h thread_main / Thread")],
  ["job execution counts, states and exceptions through the thread's public interface"],
  hook="yield/delay points between the steps of the handshake to widen its race windows")
p("C08", "Work partitioning hands every index to exactly one worker",
  "For any range of work, number of threads and (positive) grain size, static and dynamic partitioning give every element of the range to exactly one worker exactly once and nothing else; statically assigned shares are contiguous, in order and differ by at most one element. "
  "Degenerate cases (no work, one thread, fewer elements than threads) obey the same rule.",
  ["inputs", "schedules", "configurations"],
  "all range sizes, iterator kinds, thread counts, grain sizes and interleavings",
  "Tests sample some sizes; the property is universal in three integers and in the schedule.",
  ["include/svs/lib/threads/types.h", "include/svs/lib/threads/thunks.h", "include/svs/third-party/balance"],
  [("balanced split", "threads/thunks.h balance"), ("shared counter", "threads/thunks.h DynamicPartition")],
  ["indices received by each worker"])
p("C09", "Flat search is the exact nearest-neighbour answer",
  "A flat (exhaustive) search returns, for each query, the k stored vectors of least distance (greatest inner product for inner-product search) in order, with true distances and distinct ids, restricted to those a caller-supplied filter admits; missing results are marked as missing. "
  "This holds for every data batch size, query batch size, thread count and number of neighbours.",
  ["inputs", "configurations", "schedules"],
  "all datasets, queries, k, batch sizes, thread counts, filters",
  "The flat search test needs a missing dataset, and batch boundary cases are a product of four integers.",
  ["include/svs/index/flat/flat.h", "include/svs/index/flat/inserters.h"],
  [("blocking over data and queries", "flat.h search / search_subset"), ("bounded heaps with sentinels", "inserters.h")],
  ["search() results against an exact model"])
p("C10", "The search buffer keeps the best candidates in order, each once",
  "After any sequence of insertions and visits, the search buffer holds in order the best distinct candidates offered, up to its capacity; it offers for expansion the best not yet visited candidate within its search window and reports completion exactly when none is left. "
  "Resizing, sorting, clearing and skip tests agree with this rule.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, distances with ties, repeated ids, window and capacity pairs",
  "Tests replay a few insert orders; ties, repeats and window-capacity splits multiply.",
  ["include/svs/index/vamana/search_buffer.h"],
  [("sorted insertion with duplicate check", "search_buffer.h insert/insert_inner"), ("best-unvisited cursor", "search_buffer.h next/done")],
  ["return values and full buffer content after each call"])
p("C11", "The dynamic search buffer never lets deleted candidates displace live ones",
  "The buffer used over soft-deleted data keeps candidates ordered and distinct, retains enough of them that the best live ones offered are all kept up to the configured capacity, however many deleted ones lie between, and bounds the rest. "
  "It offers the best unvisited candidate for expansion while one lies within the window of live candidates, and after clean-up it contains exactly the best live candidates, in order.",
  ["histories", "inputs", "configurations"],
  "all operation sequences with any mix of live and deleted candidates, ties and repeats, all window and capacity pairs",
  "Tests check the documented invariants on a few random sequences of one shape.",
  ["include/svs/index/vamana/dynamic_search_buffer.h"],
  [("validity-counting insertion and trimming", "dynamic_search_buffer.h insert/push_back/cleanup")],
  ["return values, content and cursor after each call"])
p("C12", "Graph search is the documented best-first traversal of the graph",
  "A graph-index search starts from the entry points, repeatedly expands the best unexpanded candidate in its window and returns the best candidates met, so its answer is a function of graph, data, query, window and capacity only. "
  "Turning the visited filter on or off and changing prefetching alter nothing; a window covering the reachable part gives the exact nearest reachable vectors, and every answer has distinct in-range ids, in order, with true distances.",
  ["inputs", "configurations"],
  "all graphs, datasets, queries, window, capacity, prefetch and filter settings, distance types",
  "The search tests need missing data files and compare recall numbers.",
  ["include/svs/index/vamana/greedy_search.h", "include/svs/index/vamana/index.h", "include/svs/index/vamana/filter.h"],
  [("greedy traversal", "greedy_search.h"), ("per-thread scratch and parameters", "index.h search; extensions.h")],
  ["search results for hand-made graphs against the traversal run in the specification"])
p("C13", "A built graph is the one the documented construction defines",
  "Graph construction gives every vector a neighbour list within the configured maximum degree, of distinct existing vectors other than itself, whatever the data (including repeated vectors), parameters and thread count. "
  "With one thread the graph is exactly the one defined by the documented procedure (two passes of search, prune, and reverse edges); with many threads every edge set obeys the same bounds and construction always ends.",
  ["inputs", "schedules", "configurations"],
  "all datasets, distance types, alpha, degree, window, pool and prune-to settings, thread counts",
  "The build test needs a missing dataset and asserts recall thresholds only.",
  ["include/svs/index/vamana/vamana_build.h", "include/svs/index/vamana/prune.h", "include/svs/index/vamana/index.h"],
  [("batched generate/reverse phases", "vamana_build.h construct"), ("per-vertex locks and overflow buckets", "vamana_build.h add_reverse_edges/BackedgeBuffer")],
  ["resulting graph through the public view"])
p("C14", "Pruning keeps a bounded, ordered, diverse subset of the candidates",
  "Pruning a list of candidates ordered by distance scans it from the nearest and keeps a candidate unless one already kept is closer to it by more than the factor in force (first one, then alpha in a second scan that continues from what was kept), until the requested number is reached; the nearest candidate always comes first. "
  "The result consists of distinct candidates from the list, never the vector itself, and what is left out was left out for a kept one or for the limit. "
  "An empty candidate list gives an empty result, whatever the result list held before.",
  ["inputs", "configurations"],
  "all candidate lists, alphas, limits, distance types and prune strategies",
  "No stable test calls the pruning rule on its own.",
  ["include/svs/index/vamana/prune.h"],
  [("progressive, iterative and legacy strategies", "prune.h heuristic_prune_neighbors")],
  ["result list of a prune call"])
p("C15", "Saving and loading reproduces the object",
  "Loading what was saved gives back an equal object: datasets of every element type and storage kind, graphs, id maps, search and build parameters, and whole static, dynamic and inverted indexes, including their answers to queries. "
  "Saving does not alter the object, several objects saved in one directory do not interfere, and a moved directory still loads.",
  ["histories", "inputs", "configurations"],
  "all object contents and sizes (including one and no element), element types, save, load, move and overwrite histories",
  "Tests round-trip single objects once, never an index, and never overwrite or move a save.",
  ["include/svs/lib/saveload/save.h", "include/svs/lib/saveload/load.h", "include/svs/core/io/native.h", "include/svs/core/data/simple.h", "include/svs/core/graph/graph.h", "include/svs/index/vamana/index.h"],
  [("unique file names and uuid lookup", "save.h SaveContext, native.h find_uuid"), ("relative paths", "load.h LoadContext")],
  ["loaded object against the model's content"])
p("C16", "Loading refuses what it cannot read faithfully",
  "Loading data whose recorded schema, version, element type or fixed dimension differs from what is asked for, or whose binary file is missing or cut short, raises an error instead of returning an object. "
  "A save interrupted at any point, into a new directory or over an older save of the same object, leaves a directory that loads as exactly the old content, exactly the new content, or with an error: never as a mixture or with partial content. A save that could not write everything ends in an error.",
  ["crash_points", "inputs", "fault_sequences"],
  "all single mismatches and every prefix of the writes of a save",
  "Tests check two mismatches, and no test interrupts a save.",
  ["include/svs/lib/saveload/load.h", "include/svs/lib/saveload/save.h", "include/svs/core/data/simple.h", "include/svs/core/io/native.h"],
  [("schema and version gate", "load.h Loader::load"), ("configuration written last, uuid binding", "save.h save_to_disk, simple.h GenericSerializer")],
  ["result or error of load"])
p("C17", "Clustering for the inverted index loses no vector",
  "In every clustering made for an inverted index, each vector is a centroid or belongs to at least one cluster, to at most the configured number, and never twice to the same one, each with its true distance to the centroid. "
  "Limiting cluster sizes never removes a vector's last copy and either meets the limit or raises an error, and clusterings are the same after save and load and for all batch sizes and thread counts.",
  ["inputs", "configurations", "histories"],
  "all datasets, centroid sets, replica and epsilon settings, size limits, batch sizes, thread counts",
  "Clustering end-to-end tests need a missing dataset; size reduction is tested on one random instance.",
  ["include/svs/index/inverted/clustering.h"],
  [("batched assignment and complement", "clustering.h cluster_with"), ("replica-aware size reduction", "clustering.h reduce_maxsize"), ("save/load with size check", "clustering.h")],
  ["cluster contents after each operation"])
p("C18", "Inverted search scans the nearest clusters and returns their best members",
  "An inverted-index search returns the k best vectors among the centroids' clusters that the search parameters select: those, of the nearest found, whose distance is within the configured factor of the nearest one. "
  "Answers have distinct true ids of the original dataset, in order and with true distances, the closest cluster is always searched, and the parameters given with the call are the ones in force.",
  ["inputs", "configurations"],
  "all datasets, clusterings, queries, epsilon, k and buffer settings, distance types and storage kinds",
  "No stable test searches an inverted index.",
  ["include/svs/index/inverted/memory_based.h", "include/svs/index/inverted/extensions.h", "include/svs/index/inverted/memory_search_params.h"],
  [("cluster selection cut-off", "memory_based.h search"), ("cluster scan and id mapping", "extensions.h, memory_based.h")],
  ["search results against the exact model"])
p("C19", "Datasets and graphs keep their contents through resize and compaction",
  "Growing, shrinking, copying, viewing or compacting a dataset keeps every surviving element at its place (or moves it exactly as the given map says), for contiguous and blocked storage, whatever block and batch sizes. "
  "Edge insertion, replacement and clearing on a graph act as a bounded set of neighbours per vertex: no duplicates or self-edges appear, limits hold, and other vertices are untouched.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, sizes relative to block and batch boundaries, element types",
  "Tests use one size per case, and boundaries are where it breaks.",
  ["include/svs/core/data/simple.h", "include/svs/core/compact.h", "include/svs/core/graph/graph.h"],
  [("block arithmetic", "simple.h blocked SimpleData"), ("buffered gather", "compact.h"), ("degree header and duplicate check", "graph.h add_edge")],
  ["element-wise content after each call"])
p("C20", "External and internal ids map one to one",
  "The id map always pairs external and internal ids one to one, in both directions; an insertion that would repeat an id on either side, or a deletion of an absent id, raises an error and changes nothing; and renumbering internal ids keeps every external id on its own element. "
  "Saving and loading gives the same map.",
  ["histories", "inputs"],
  "all insert, delete, renumber, save and load sequences and id values",
  "Tests use one scripted sequence.",
  ["include/svs/core/translation.h"],
  [("checks before mutation", "translation.h check_external_free/insert"), ("remap", "translation.h remap_internal_ids")],
  ["lookups both ways, size and error outcomes after each call"])
p("C21", "An answer does not depend on its batch, thread count or past queries",
  "For a fixed index and parameters, the answer to a query is the same in any batch, at any position, with any number of threads, and after any other queries or parameter changes that were undone. "
  "Searching changes nothing that another call can observe.",
  ["schedules", "histories", "configurations"],
  "all batch compositions, thread counts, schedules and preceding calls, for flat, graph, dynamic and inverted indexes",
  "Tests run a query file once with each setting, so state left over from earlier queries goes unseen.",
  ["include/svs/index/vamana/extensions.h", "include/svs/index/vamana/index.h", DYN, "include/svs/index/flat/flat.h", "include/svs/index/inverted/memory_based.h"],
  [("fresh scratch space per thread", "index.h/dynamic_index.h search"), ("buffers reset per query", "greedy_search.h, search buffers, inserters.h")],
  ["answers to the same query across calls"])
p("C22", "Locks exclude, and concurrent reverse edges are all kept",
  "At most one thread is ever inside a section guarded by the library's spin lock, a try-lock succeeds only when it gains the lock, and everyone waiting eventually enters. "
  "A read-write protected value is always read as some value that was set, whole, and readers never see it go back; every reverse edge registered concurrently during construction is delivered to its vertex once.",
  ["schedules"],
  "all interleavings of up to the explored number of threads and operations",
  "Tests run short loops that rarely collide.",
  ["include/svs/lib/spinlock.h", "include/svs/lib/readwrite_protected.h", "include/svs/index/vamana/vamana_build.h"],
  [("test-and-test-and-set", "spinlock.h"), ("shared mutex", "readwrite_protected.h"), ("bucketed buffer", "vamana_build.h BackedgeBuffer")],
  ["values seen inside the sections"])
p("C23", "Dispatch picks the best matching method, first registered on ties",
  "Given runtime arguments, the dispatcher calls the method whose arguments match best, comparing arguments left to right, with exact matches preferred over convertible ones; among equals the first registered wins, and no method that cannot accept some argument is ever called. "
  "When none matches it raises an error, and the arguments arrive converted to what the method declared.",
  ["inputs", "programs"],
  "all sets of registered methods and all argument values up to the explored bounds",
  "Tests register one fixed set of methods.",
  ["include/svs/lib/dispatcher.h"],
  [("lexicographic comparison of match scores", "dispatcher.h LexicographicResolver, best_match")],
  ["best_match / invoke results"])
p("C24", "Calibration returns parameters that meet the target when the range allows",
  "Calibration, given a recall measure that does not decrease with window and capacity, returns search parameters whose measured recall reaches the target whenever some allowed window does, with the smallest such window when no split buffer is tried; otherwise it returns the largest allowed and tunes no further. "
  "It measures only parameters within the allowed ranges and leaves the settings it was told not to optimise as they were.",
  ["inputs", "configurations"],
  "all monotone recall measures, targets, ranges and option combinations up to the explored bounds",
  "Calibration is only tested end to end on a missing dataset.",
  ["include/svs/index/vamana/calibrate.h"],
  [("binary search over windows", "calibrate.h optimize_search_buffer"), ("split-buffer search", "calibrate.h optimize_split_buffer*"), ("prefetch sweep", "calibrate.h tune_prefetch")],
  ["returned parameters and the sequence of parameters measured"])
p("C25", "Recall k-at-n counts each true neighbour found, and rejects bad arguments",
  "The recall of a result against ground truth is the number of the first k true neighbours that occur among the first n results of the same query, summed over queries, divided by k times the number of queries. "
  "Values of k and n that exceed each other or the available columns, and differing query counts, raise an error.",
  ["inputs"],
  "all ground truth and result matrices and all k, n up to the explored bounds",
  "Tests use one random matrix family.",
  ["include/svs/core/recall.h", "include/svs/lib/algorithms.h"],
  [("set intersection", "lib/algorithms.h count_intersect"), ("argument checks", "recall.h k_recall_at_n_impl")],
  ["return value or error"])
p("C26", "The default entry point is the vector nearest the mean",
  "The entry point chosen for a graph is the admissible vector nearest to the mean of the admissible vectors, whatever the number of threads and the grouping of the parallel sum. "
  "With a filter only admitted vectors count, both for the mean and for the choice.",
  ["inputs", "schedules", "configurations"],
  "all datasets, filters, thread counts and reduction groupings",
  "The medioid test needs a missing dataset.",
  ["include/svs/core/medioid.h"],
  [("parallel sums and reduction", "medioid.h compute_medioid / find_medioid")],
  ["index returned by the medioid search"])
p("C27", "Type-erased indexes behave exactly as the index they wrap",
  "Every call on a type-erased index (Vamana, DynamicVamana, Flat, Inverted) gives what the same call on the index inside gives: the same answer, the same stored vectors, the same parameters read back as were set, an error exactly when the index inside raises one. "
  "A query element type that the index was not built for is refused, and an index saved through one interface loads through the other.",
  ["histories", "configurations"],
  "all sequences of calls, parameter values, query types and index kinds up to the explored bounds",
  "Tests use the type-erased classes for whole workflows on one dataset, never against the index inside call by call.",
  ["include/svs/orchestrators/vamana.h", "include/svs/orchestrators/dynamic_vamana.h", "include/svs/orchestrators/exhaustive.h", "include/svs/orchestrators/inverted.h", "include/svs/orchestrators/manager.h"],
  [("forwarding through virtual interfaces", "orchestrators/*.h"), ("dispatch on the query type", "orchestrators/vamana.h search")],
  ["public members of Vamana, DynamicVamana, Flat and Inverted"])
p("C28", "Distances equal their definition for every type, length and CPU",
  "The squared Euclidean, inner product and cosine functors return the value of their definition for every pair of element types, every length (known at compile time or not) and every instruction set the library has code for: exactly when all sums are exact in a float, within rounding otherwise. "
  "Memory next to the vectors plays no part, and the run-time distance selector stands for the functor, name and ordering it names.",
  ["inputs", "configurations"],
  "all element types, lengths, values and instruction sets up to the explored bounds",
  "Tests compare with a reference for a few lengths and one instruction set, with a tolerance.",
  ["include/svs/core/distance/euclidean.h", "include/svs/core/distance/inner_product.h", "include/svs/core/distance/cosine.h", "include/svs/core/distance/simd_utils.h", "include/svs/core/distance.h"],
  [("unrolled sums with a masked tail", "simd_utils.h generic_simd_op, create_mask"), ("per-type kernels", "euclidean.h, inner_product.h, cosine.h")],
  ["values returned by distance::compute"])
p("C29", "Vector files hold the vectors written to them, in every format and type",
  "A vector file written in any supported format and element type has the documented byte layout and reads back as the same vectors, whole or a leading part, through every reader; a value that the requested element type cannot hold is refused or converted, never mangled. "
  "A file cut short is refused rather than read as other vectors, identifiers find exactly the file that carries them, and a memory-mapped file shows what was written and keeps what is stored through it.",
  ["inputs", "programs"],
  "all vectors, element types, formats, truncations and mapping modes up to the explored bounds",
  "Tests read a few well-formed files of one dataset.",
  ["include/svs/core/io/vecs.h", "include/svs/core/io/native.h", "include/svs/core/io/binary.h", "include/svs/core/data/io.h", "include/svs/lib/uuid.h", "include/svs/lib/file_iterator.h", "include/svs/core/allocator.h", "include/svs/lib/memory.h"],
  [("header and element layout", "core/io/native.h, core/io/vecs.h"), ("size checks on open", "core/io/native.h, core/io/binary.h"), ("mapping of an existing file", "core/allocator.h MMapAllocator, MemoryMapper")],
  ["bytes of the files; vectors and errors from the readers"])
p("C30", "Numbers convert exactly, round as IEEE 754 says, or are refused",
  "On every CPU the library is compiled for, half-precision numbers widen to the float they stand for (subnormal numbers, zeros, infinities and NaN included) and a float becomes the nearest half-precision number, ties to the even one and overflow to infinity. "
  "A checked conversion returns the number it was given or raises an error when the target type cannot hold it, and version strings parse to the three numbers in them, in that order of significance, or raise an error when malformed.",
  ["inputs", "configurations"],
  "all 65536 half-precision numbers; floats, integers and texts sampled around every boundary",
  "Tests convert a few numbers, and only with the instructions of one CPU.",
  ["include/svs/lib/float16.h", "include/svs/lib/narrow.h", "include/svs/lib/version.h"],
  [("software and hardware conversion", "float16.h float16_to_float_untyped, float_to_float16_untyped"), ("round trip and sign check", "narrow.h narrow_impl"), ("parsing", "version.h Version(std::string_view), parse_int")],
  ["bits of the converted numbers; results or errors"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
