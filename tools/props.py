#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after an edit."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = {}
CLAIMED_FAMS = set("FM")  # families whose checks are registered
CLAIMED = {"S01", "S02", "S03", "S04", "S05", "S06", "S08", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P17"}  # further properties
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, tech, note):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    TECH[id] = (tech, note)

AI = "abstract interpretation of the SSA form (path-sensitive dataflow over linear integer facts, inferred loop and recursion invariants, goroutine start/join effects), then rules over the resulting event paths"
NOTE = ("Every function reachable from the exported API is interpreted from the current source for symbolic arguments; "
        "nothing is executed and no solver is used. Integers do not overflow; user functions return or panic.")

PAR = "parallel/parallel.go"; SPEC = "speculative/speculative.go"; SEQ = "sequential/sequential.go"; INT = "internal/internal.go"
FJ = [PAR, SPEC]
FJM = [("goroutine start, deferred recover and Done, Wait", PAR + " and " + SPEC + ": every exported function"),]

prop("F01", "Parallel fork-join calls return only after all their work has finished",
 "Every function of package parallel returns normally only after every function it was asked to run has returned, whatever the number of functions, the range or the batch count. No call deadlocks or recurses forever. The work that a call started never outlives a normal return.",
 ["schedules", "inputs"], "all schedules of the started goroutines, all argument counts, ranges and batch counts",
 "The tests run a few sizes under the schedules the runtime happens to choose; a missing wait on one branch only shows when that branch is slow.",
 [PAR, SEQ], FJM + [("recursive halving", PAR + ": recur closures")], AI, NOTE)

prop("F02", "Every supplied function is invoked exactly once",
 "When a fork-join function of packages parallel or sequential returns normally, each function it was given has been invoked exactly once, and for range functions each batch exactly once. The sequential And- and Or-style functions and the speculative functions may leave out functions or batches once the result is decided, but never invoke one twice, and on a result that required all of them have invoked each of them.",
 ["inputs", "schedules"], "all argument counts, ranges and batch counts, all schedules",
 "Tests use a handful of argument counts; skipped or duplicated elements at other split points stay unseen.",
 FJ + [SEQ], [("splitting into halves, base cases", PAR + ": all functions; " + SPEC + ": all functions")], AI, NOTE)

prop("F03", "Range batches partition the range",
 "The batches that a range function passes to its body are contiguous half-open intervals that together cover low to high without gap or overlap, and an empty range leads to exactly one call with the empty batch at low. For a positive batch count no more batches than requested are produced and, if the range is not empty, no batch is empty. This holds for every valid range, including negative bounds.",
 ["inputs"], "all low <= high and all batch counts n >= 0",
 "The partition is arithmetic over three unbounded integers; tests look at two or three ranges.",
 FJ + [SEQ, INT], [("ComputeNofBatches", INT), ("recursive splitting of the range", PAR + ", " + SPEC + ": Range*")], AI, NOTE)

prop("F04", "Panics of user functions resurface in the caller, leftmost first",
 "If functions run by a fork-join call panic in goroutines started by it, no such panic ends the program or is lost: the call itself panics, unless the documented early termination of a speculative function already returned a result. If several functions panic and the caller's own share does not, the value raised stems from the leftmost of them in argument order.",
 ["fault_sequences", "schedules", "inputs"], "all subsets of panicking functions, all schedules",
 "Each number of functions and each position of the panicking function is a case of its own; the tests panic in very few of them.",
 FJ, [("deferred recover in every goroutine, rethrow after Wait", PAR + ", " + SPEC + ": every go statement")], AI, NOTE)

prop("F05", "A rethrown panic keeps its kind and message",
 "When a panic recovered in a goroutine is raised again in the caller, a runtime error stays a runtime error, another error stays an error, and anything else becomes a string, and its text contains the original value's text. The absence of a panic is never turned into one.",
 ["inputs", "fault_sequences"], "all panic values other than nil",
 "Tests do not panic with all kinds of values from all positions.",
 [INT] + FJ, [("WrapPanic", INT), ("uses of WrapPanic", PAR + ", " + SPEC)], AI, NOTE)

prop("F06", "Results are combined in left-to-right order",
 "Every parallel and sequential function that produces a result returns the combination of the individual results in argument or range order: conjunction for And, disjunction for Or, sum or concatenation for the Sum functions, product for the Product functions, and nested applications of the given binary function to adjacent results for the general reductions. Every individual result enters exactly once, and results are never reordered, so associativity suffices and commutativity is not needed.",
 ["inputs", "schedules"], "all argument counts, ranges and batch counts, all schedules, all user functions",
 "With commutative test operations such as integer addition a swapped combination is invisible.",
 [PAR, SPEC, SEQ], [("combination of left and right results", PAR + ", " + SPEC + ", " + SEQ + ": And, Or, Reduce*, RangeReduce*")], AI, NOTE)

prop("F07", "Speculative functions stop early only on a decisive result",
 "A speculative function returns before all of its functions have finished only if a result that already arrived decides the outcome (true for Or and Do-style functions, false for And, a true second result for reductions), and the value returned is then the leftmost decisive one among the results it looked at. If the caller's own, leftmost share is decisive it does not wait for the others. Without a decisive result it waits for all and returns the same combination as the parallel function.",
 ["schedules", "inputs"], "all schedules, all result combinations",
 "Which results have arrived at the return depends on the schedule; the tests see few combinations.",
 [SPEC], [("early return before Wait", SPEC + ": every function")], AI, NOTE)

prop("F08", "Invalid ranges are rejected up front and valid ones never",
 "A range function called with low greater than high or with a negative batch count panics before any supplied function is invoked and before any goroutine is started. It never rejects a valid range with a batch count of zero or more. This holds alike for the parallel, speculative and sequential variants.",
 ["inputs"], "all triples low, high, n",
 "Tests cover one or two invalid combinations of few functions.",
 [PAR, SPEC, SEQ, INT], [("ComputeNofBatches", INT), ("its callers", PAR + ", " + SPEC + ", " + SEQ + ": Range*")], AI, NOTE)

prop("F09", "Fork-join internals are free of data races",
 "The fork-join functions never access one of their own variables from two goroutines without synchronisation between the accesses, if at least one is a write. A result or panic value written by a started goroutine is read only after that goroutine's completion was awaited.",
 ["schedules"], "all schedules, all argument counts and ranges",
 "The race detector only reports races of schedules that occur.",
 FJ, [("result and panic variables shared with goroutines", PAR + ", " + SPEC)], AI, NOTE)

prop("F10", "Package sequential mirrors package parallel",
 "Package sequential offers every function of package parallel with the same signature. Its functions start no goroutines and invoke the supplied functions in argument order and the batches in increasing range order, one after the other.",
 ["inputs", "programs"], "all functions, all argument counts and ranges",
 "The mirror is a relation between two packages that no test compares.",
 [SEQ, PAR], [("the loops over functions and batches", SEQ)], AI, NOTE)

prop("F11", "Functions run together can wait for each other",
 "The functions passed to one parallel or speculative call that runs several functions, and the batches of one range call, are each started without first waiting for another one to finish. Functions that wait for each other therefore do not deadlock because of the call.",
 ["schedules", "inputs"], "all argument counts and batch counts",
 "A call that runs two of its functions one after the other computes the same results in every test whose functions are independent.",
 FJ, [("go statement before the caller's own share", PAR + ", " + SPEC)], AI, NOTE)

prop("F12", "Range batches are even and default to one for each processor",
 "For a positive batch count n, no batch that a parallel or speculative range function passes to its body has more elements than the larger of n and the size of the range divided by n, rounded up, so a large range is never left to only a few of the batches. For a batch count of zero the same holds for a count of batches that is at least the number of available processors (GOMAXPROCS), or the size of the range if that is smaller.",
 ["inputs", "configurations"], "all low < high, all batch counts n >= 0 and all values of GOMAXPROCS",
 "An uneven division computes the same results and only loses the parallelism; the bound is non-linear arithmetic over three unbounded integers.",
 [PAR, SPEC, INT], [("ComputeNofBatches", INT), ("recursive splitting of the range", PAR + ", " + SPEC + ": Range*")], AI, NOTE)

MAP = ["sync/map.go"]
prop("M01", "Map contents are only accessed under the right lock",
 "Every operation of the parallel map holds a split's lock whenever it reads that split's contents, exclusively whenever it may change them, and the lock it holds is that of the very split it accesses. Split contents are handed to user functions only while that lock is held exclusively. Concurrent map operations therefore never race with each other.",
 ["schedules", "histories"], "all interleavings of all map operations",
 "There are no tests of the map in the tree, and the race detector sees only schedules that occur.",
 MAP, [("Lock/RLock around split.Map", "sync/map.go: all methods of Map and Split")], AI, NOTE)
prop("M02", "Map operations release their locks on every way out",
 "A map operation that has returned or panicked, including because a user function panicked, holds none of the map's locks, and it never releases a lock it does not hold. It never acquires a lock of the map while it already holds one, so map operations cannot deadlock with each other.",
 ["fault_sequences", "schedules"], "all panics of user functions, all interleavings",
 "Releasing on the panicking path only shows when a user function panics and the split is used again.",
 MAP, [("unlock statements and deferred unlocks", "sync/map.go")], AI, NOTE)
prop("M03", "User functions passed to map operations run as often and as locked as documented",
 "LoadOrCompute and DeleteOrCompute invoke their function at most once and only if the key was found absent, the former without and the latter with the lock of the key's split held; Modify invokes its function exactly once with the lock held and passes it the key's current value and presence. Traversals, predicates and reductions invoke their function with the lock of the visited split held.",
 ["histories", "schedules", "inputs"], "all map contents and interleavings",
 "Lock state during a callback is not observable in ordinary tests.",
 MAP, [("callback invocations", "sync/map.go")], AI, NOTE)
prop("M04", "Single-key map operations are atomic and report what they did",
 "Each single-key operation decides on the key's presence and acts on it within one exclusive critical section, so a value stored by another goroutine is never overwritten or lost by a decision made on stale contents. It stores, deletes and returns exactly what its documentation says for the present and the absent case: the value found, stored or deleted, and the truth about whether it was found.",
 ["schedules", "histories"], "all interleavings with other operations on the same key",
 "The window between an unlocked decision and the action is too small for tests to hit reliably.",
 MAP, [("check and act under the lock", "sync/map.go: Delete, Load, LoadOrStore, LoadOrCompute, DeleteOrStore, DeleteOrCompute, Modify")], AI, NOTE)
prop("M05", "Keys are always routed to the same existing split",
 "Every single-key operation works on the one split that the key's hash value selects, this is the split that the map returns for the key, and the selection is within bounds for every 64-bit hash value and every map size. A new map has the requested number of splits, or a positive default for sizes below one, each with an initialised, empty content of its own.",
 ["inputs"], "all hash values and all sizes",
 "Hash values above the signed range and unusual sizes do not occur in tests.",
 MAP, [("Split", "sync/map.go: Map.Split"), ("NewMap", "sync/map.go: NewMap")], AI, NOTE)
prop("M06", "Map traversals visit every split exactly once and stop when told",
 "A traversal or predicate operation visits every split at most once, and all of them unless its function's result ends it early; within a split every entry is passed once with its own value. Range and SpeculativeRange go on as long as the function returns true, And-style operations return true exactly if all predicates held, and Or-style ones exactly if one did.",
 ["inputs", "histories", "schedules"], "all map sizes and contents, all function results",
 "The polarity of an early exit and the split boundaries differ per operation, and no test visits them.",
 MAP, [("loops over splits", "sync/map.go: Range, ParallelRange, SpeculativeRange, And*, Or*")], AI, NOTE)
prop("M07", "Map reductions combine one result per split in split order",
 "Each reduction invokes its function on every split exactly once and returns the combination of these results in split order, using the given function, the sum or the product; the speculative ones stop early only on a decisive result. Parallel reductions wait for the work they started and raise a panic of a user function again in the caller.",
 ["inputs", "schedules", "fault_sequences"], "all map sizes, all schedules, all user functions",
 "There are no tests of the reductions, and a wrong split point only shows for certain numbers of splits.",
 MAP, [("Reduce, ParallelReduce, SpeculativeReduce and their typed variants", "sync/map.go")], AI, NOTE)

prop("M09", "Traversals are sequential or parallel as their names say",
 "Range, And, Or and the Reduce methods of the parallel map invoke the function they are given for one split after the other and start no goroutines, so that it need not be safe for concurrent use. The Parallel and Speculative reductions work on all splits at the same time, each split in a goroutine of its own or the caller's, none of which starts only after the work on another split has ended. ParallelRange, the Parallel and Speculative And and Or, and SpeculativeRange divide the splits among concurrent batches, of which there are at least as many as available processors or splits.",
 ["inputs", "schedules"], "all map sizes, all user functions and their results",
 "Sequential and parallel execution deliver the same results; that one took the place of the other only shows in functions that wait for each other or are not synchronised.",
 MAP, [("loops, goroutines and parallel ranges over splits", "sync/map.go: all traversals and reductions")], AI, NOTE)

QS = "sort/quicksort.go"; MS = "sort/mergesort.go"; SO = "sort/sort.go"
prop("S01", "Sort rearranges only by in-range swaps and sorts disjoint parts",
 "Sort only ever rearranges elements by swapping pairs within the collection or by sequentially sorting ranges within it, all indices it uses are within bounds, and ranges worked on at the same time are disjoint. When it splits a range around a pivot, the parts and the pivot cover the range exactly, no element that sorts after the pivot is left of it and none that sorts before it is right of it. It terminates for every collection.",
 ["inputs", "schedules"], "all collections and all comparison outcomes, including many equal elements",
 "Partition boundaries depend on comparison outcomes; tests sort random data only.",
 [QS], [("partition loop and recursion", "sort/quicksort.go: Sort")], AI, NOTE)
prop("S02", "StableSort merges cover each range exactly once",
 "StableSort divides the collection into adjacent ranges, sorts each once, and merges neighbouring sorted ranges so that every element of the inputs is assigned exactly once to a distinct place of the output range, with every index in bounds. Work done at the same time never touches overlapping ranges of a collection that is being written, and the recursive divisions and the searches for split points come to an end.",
 ["inputs", "schedules"], "all collection sizes and all comparison outcomes",
 "Off-by-one errors at range borders need special sizes and comparison outcomes to lose or duplicate an element.",
 [MS], [("pSort, pMerge, sMerge, binary searches", "sort/mergesort.go")], AI, NOTE)
prop("S03", "StableSort keeps equal elements in order",
 "When StableSort merges two neighbouring sorted ranges, an element of the left range is placed before every equal element of the right range, both in sequential and in divided merges. Comparisons are only ever interpreted as a strict order.",
 ["inputs"], "all inputs with equal elements",
 "Stability only shows with equal but distinguishable elements that fall on a split point of a large merge.",
 [MS], [("orientation of less in sMerge and in the binary searches", "sort/mergesort.go")], AI, NOTE)
prop("S04", "StableSort uses its scratch memory only after it is ready and correctly paired",
 "StableSort uses the temporary collection only after its creation has completed, on every path. Data is always read from the collection that the preceding phase wrote, and the sorted result ends up in the original collection.",
 ["schedules", "inputs"], "all schedules of the creating goroutine, all sizes",
 "A missing wait only fails if the creating goroutine is slower than sorting the quarters.",
 [MS], [("temp.Wait, T and A", "sort/mergesort.go: StableSort")], AI, NOTE)
prop("S08", "Large ranges are sorted, merged and examined in parallel",
 "Sort, StableSort and IsSorted never sort, merge or examine a range of more than 65536 elements sequentially, nor do they work on two such parts of a range one after the other that do not depend on each other: they divide it and work on the parts at the same time. StableSort and IsSorted divide a range into parts of at most half its size, and merges into parts of at most three quarters, each up to a few elements; IsSorted may instead use concurrent batches, at least as many as there are processors. The partitioning of a range by Sort, copying a range that has nothing to be merged with, and the end of an examination that found a pair out of order are not meant.",
 ["inputs", "schedules"], "all collections and all comparison outcomes",
 "A sequential sort delivers the same result as a parallel one, only later.",
 [QS, MS, SO], [("grain sizes and calls of parallel.Do and parallel.And", "sort/quicksort.go: Sort; sort/mergesort.go: StableSort, pMerge; sort/sort.go: IsSorted")], AI, NOTE)
prop("S05", "IsSorted examines every adjacent pair",
 "IsSorted returns true only if it compared every adjacent pair of the collection and none was out of order, and returns false only if it saw a pair out of order. All comparisons are within bounds and have finished when it returns.",
 ["inputs", "schedules"], "all sizes, all positions of the first inversion, all schedules",
 "One skipped pair at a split point is missed by tests on random data.",
 [SO], [("prefix loop and parallel test", "sort/sort.go: IsSorted")], AI, NOTE)
prop("S06", "The predefined slice types are consistent collections",
 "For the predefined slice types, Len is the length, Less is the order used by their sequential sort (a strict weak order also with NaN values), Swap exchanges exactly the two elements, the temporary collection is separate and of the same length, and assignment copies exactly the given range from source to receiver. The sequential sort sorts exactly the given range and is stable.",
 ["inputs"], "all slices, indices and element values",
 "Tests use one slice type with unremarkable values.",
 [SO], [("IntSlice, Float64Slice, StringSlice", "sort/sort.go")], AI, NOTE)

PL = "pipeline/pipeline.go"; LP = "pipeline/lparnode.go"; PN = "pipeline/parnode.go"; SN = "pipeline/seqnode.go"; ON = "pipeline/strictordnode.go"
SRC = "pipeline/source.go"; FI = "pipeline/filters.go"; FL = "pipeline/filter.go"; NODES = [LP, PN, SN, ON]
prop("P01", "Every batch passes all filters of every node exactly once",
 "Unless the pipeline is cancelled, every batch fetched from the source is passed exactly once through every receiver of every node in the order in which the filters were added, each receiver seeing the result of the one before it, with the sequence number the batch got at the source. The result of a node's last receiver is forwarded to the following node exactly once, even if it is empty.",
 ["schedules", "inputs", "programs"], "all node sequences, all batches, all schedules without cancellation",
 "Loss or duplication depends on node combinations and schedules that tests do not enumerate.",
 [PL, FL] + NODES, [("feed, FeedForward", FL + ", " + PL), ("Feed and worker goroutines", "pipeline/*node.go")], AI, NOTE)
prop("P02", "Ordered nodes receive batches in encounter order",
 "The filters of ordered and strictly ordered nodes see batches in strictly increasing sequence number order without gaps, one at a time, in whatever order the batches arrive at the node. A batch that arrives early is kept until all earlier ones have been processed.",
 ["schedules"], "all arrival orders",
 "Tests see only the arrival orders that the scheduler produces, mostly nearly sorted ones.",
 [SN, ON, LP], [("stash and run", SN), ("cond and run", ON + ", " + LP)], AI, NOTE)
prop("P03", "Nodes respect their degree of parallelism",
 "The filters of sequential and ordered nodes never process two batches at the same time, and the filters of a limited parallel node process at most as many at a time as its limit says, and as many if enough batches are there, also after nodes have been merged. Parallel nodes start a goroutine for every batch, so a feeder never waits for a filter. A limit of one means sequential execution and a limit below one a positive default.",
 ["schedules", "configurations"], "all schedules, all limits",
 "Overlap of two filter invocations shows only under particular schedules.",
 NODES + [FI], [("one goroutine per sequential node, limit goroutines per limited node", "pipeline/*node.go: Begin")], AI, NOTE)
prop("P04", "Cancellation unblocks every node",
 "Whenever a node blocks, because it sends or receives a batch or waits for its turn, it also proceeds when the pipeline's context is cancelled, and the notification of the cancellation cannot be missed between the check and the wait. Processing of further batches stops after a cancellation.",
 ["schedules", "fault_sequences"], "all cancellation points relative to all blocking operations",
 "A lost wake-up needs the cancellation to fall into a window of a few instructions.",
 NODES, [("select with the context, broadcast under the lock", "pipeline/*node.go")], AI, NOTE)
prop("P05", "Nodes that wait for their turn cannot deadlock the pipeline",
 "A node that makes feeders wait for their turn lets every feeder go on once all earlier batches have been taken: it announces every step to all waiting feeders, does so before processing the batch itself, and holds no lock while it processes or while a feeder waits. If a strictly ordered node exists, all earlier sequential and limited nodes hand on batches in encounter order, so that the batch it waits for is never stuck behind a later one.",
 ["schedules", "programs"], "all node combinations, all schedules",
 "The deadlock needs a particular node combination and arrival order.",
 [ON, LP, PL], [("broadcast of run", ON + ", " + LP), ("kind changes before a strictly ordered node", PL + ": RunWithContext")], AI, NOTE)
prop("P06", "Finalizers run exactly once after all batches were processed",
 "When a node is ended, it waits until all of its goroutines have finished all batches and then invokes each finalizer exactly once, in the order in which the filters were added, and returns only after all of them have. A pipeline that has not failed ends each node exactly once and in order, after its last batch was fed and its predecessors have been ended, and feeds no batch to an ended node.",
 ["schedules", "programs"], "all schedules, all node sequences",
 "A finalizer that runs too early computes the right result in most schedules.",
 NODES + [PL], [("End", "pipeline/*node.go"), ("calls of End", PL + ": RunWithContext")], AI, NOTE)
prop("P07", "The first error wins and cancels the pipeline",
 "The first non-nil error set for a pipeline stays its error, setting it reports success and cancels the pipeline, and later attempts report failure and change nothing. All accesses to the error are mutually exclusive, every access releases the lock again and no lock is held while the cancel function runs. Cancel cancels the context of the run, which is what Context returns.",
 ["schedules", "fault_sequences"], "all interleavings of setting and reading errors",
 "Two errors at the same time are a schedule tests do not produce.",
 [PL], [("Err, SetErr, RunWithContext", PL)], AI, NOTE)
prop("P08", "The pipeline fetches in sequence until the source ends, fails or is cancelled",
 "Run runs the pipeline with a new context, which it cancels when it is done, not before. Running a pipeline prepares the source once and announces the size it reports to the nodes, each of which is told its index, then fetches one batch after the other and feeds each, numbered from zero without gaps, to the first node before fetching the next one. Nothing is fetched if the pipeline has already failed when its nodes have begun. It stops at the first empty fetch, at an error of the source or the pipeline, or after a cancellation, and an error of the source becomes the pipeline's error. NofBatches and SetVariableBatchSize configure exactly the positive values they are given; NofBatches with a number below one only asks for the current number, by default one not below the number of available processors (GOMAXPROCS). Requested batch sizes are always positive; they are fixed and yield about the configured number of batches for sources of known size, and grow by the configured increment up to the configured maximum otherwise.",
 ["inputs", "configurations", "fault_sequences"], "all sources, sizes and batch configurations",
 "Tests run with one source and default batch sizes.",
 [PL], [("fetch loops, batch sizes", PL + ": RunWithContext, NofBatches, SetVariableBatchSize")], AI, NOTE)
prop("P09", "Sources deliver every element once and in order",
 "Each predefined source delivers the elements of the underlying array, slice, string, channel or reader exactly once and in order over its successive batches, never more than requested per batch, reports the size of the batch it hands out, and reports zero only when there are no more or, for channels, when the pipeline was cancelled. A known total size is reported as such and an unknown one as -1. Batches do not share memory that a later fetch overwrites. A Func source passes on exactly what its function returns, including its error; the scanners report the error of their reader, and the other sources never one.",
 ["inputs", "histories"], "all data, all sequences of requested sizes",
 "The remainder handling depends on the sequence of requested sizes.",
 [SRC], [("Prepare, Fetch, Data of every source", SRC)], AI, NOTE)
prop("P10", "Predicate filters report the truth about the batches they saw",
 "After a run, the results of the Every, NotEvery, Some and NotAny filters equal all, not all, any and none of the predicate's results for the batches they saw, for sequential and parallel nodes alike. With cancellation requested they cancel the pipeline exactly when a batch has decided the result. They pass every batch on unmodified.",
 ["inputs", "schedules"], "all predicate outcomes, all node kinds, all schedules",
 "Each filter has two variants and two outcomes of which tests see few.",
 [FI], [("Every, NotEvery, Some, NotAny", FI)], AI, NOTE)
prop("P11", "Slice and Count account for every batch they see",
 "The Slice filter appends every batch it sees to its result exactly once, in the order of processing, and reports an error for a result that is not a settable slice. The Count filter sets its result to the total number of elements, from the known size if there is one and else by adding the size of each batch once. Both pass every batch on unmodified.",
 ["inputs", "schedules"], "all batches, node kinds and schedules",
 "Lost updates in parallel nodes show only in some schedules.",
 [FI], [("Slice, Count", FI)], AI, NOTE)
prop("P12", "Limit and Skip pass on exactly the requested elements",
 "Limit passes on the first n elements over all batches and Skip all but the first n, cutting the batch on the border at the right place, for every distribution of the elements over batches. Both adjust the size announced to later filters accordingly, and treat negative arguments as documented. With cancellation requested, Limit cancels the pipeline when the limit is reached, unless the announced size shows that no further elements follow, and never before.",
 ["inputs", "histories"], "all n and all sequences of batch sizes",
 "The border falls differently for every sequence of batch sizes.",
 [FI], [("Limit, Skip", FI)], AI, NOTE)
prop("P13", "Predefined filters are safe in parallel nodes",
 "When run in a parallel node, the receivers of the predefined filters access the state they share between batches only atomically or under a lock, which they release before they return, and write results of the caller only from a finalizer or under that lock.",
 ["schedules"], "all schedules of concurrent receiver invocations",
 "The race detector sees only schedules that occur, and no test uses these filters in parallel nodes.",
 [FI], [("receivers for parallel nodes", FI)], AI, NOTE)
prop("P14", "Merging nodes keeps all filters, their order and their guarantees",
 "When two adjacent nodes are merged, the result has all filters, receivers and finalizers of the first followed by those of the second, and gives to all of them at least the ordering and at most the parallelism that their own nodes promised. Nodes of incompatible kinds are not merged, and an unmerged or dropped node never loses another node's filters.",
 ["programs", "configurations"], "all sequences of node kinds and limits",
 "There is a quadratic number of pairs of nodes; tests merge very few.",
 NODES + [PL], [("TryMerge", "pipeline/*node.go"), ("Add, merging and dropping of nodes", PL)], AI, NOTE)
prop("P15", "Filters accept the empty batches of other filters",
 "Filters that drop all elements of a batch hand on an empty batch without data, and every predefined filter accepts such a batch without failing and without counting or appending anything for it.",
 ["inputs", "programs"], "all combinations of predefined filters",
 "It needs one filter that drops a whole batch before one that looks into it.",
 [FI], [("receivers", FI)], AI, NOTE)
prop("P17", "Filters made of given functions are these functions",
 "Receive, Finalize and ReceiveAndFinalize create filters that return the given receiver and finalizer, whatever the node and the announced size, and nil for what was not given; Identity returns neither. These filters change nothing and call nothing else.",
 ["inputs", "configurations"], "all receivers and finalizers, all kinds of nodes",
 "No test looks at what these filters return for every kind of node.",
 [FI], [("Receive, Finalize, ReceiveAndFinalize, Identity", FI)], AI, NOTE)

NA += [
 ("S07", "Sort and StableSort leave every collection sorted",
  "After Sort or StableSort returned, the collection is a permutation of its former contents in non-decreasing order, for every comparison that is a strict weak order.",
  ["inputs", "schedules"], "all collections", "Sortedness of arbitrary data is an inductive property over unbounded collections; tests sort random slices.",
  [QS, MS], [("Sort, StableSort", QS + ", " + MS)],
  "Full functional sortedness needs quantified invariants over array contents and transitivity of the user's comparison, which no sound dataflow or abstract interpretation in reach infers; the structural conditions it rests on (partition, tiling, orientation, pairing) are decided as S01 to S06."),
 ("M08", "Histories of concurrent map operations are linearizable",
  "Every concurrent history of single-key map operations is equivalent to a sequential one that respects real-time order.",
  ["schedules", "histories"], "all concurrent histories", "Histories are unbounded; there are no concurrent map tests.",
  MAP, [("single-key operations", "sync/map.go")],
  "Linearizability quantifies over unbounded histories of the whole map and needs a simulation argument; statically decided are the parts it follows from: locking (M01, M02), one critical section per decision (M04) and routing (M05)."),
 ("P16", "Pipelines need bounded memory for batches in flight",
  "The number of batches that a pipeline holds at any time is bounded independently of the size of the source.",
  ["schedules", "inputs"], "all sources and schedules", "Memory use is not observed by tests.",
  NODES, [("goroutines of parallel nodes, stash of ordered nodes", PN + ", " + SN)],
  "Unlimited parallel nodes start one goroutine per batch by design and the stash of ordered nodes grows with the disorder of arrivals, both run-time quantities without a static bound."),
]

def main():
    claimed = [p for p in P if p["id"][0] in CLAIMED_FAMS or p["id"] in CLAIMED]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
        for id, title, st, over, q, why, files, mech, _ in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "bash /verif/check.sh " + p["id"], "thorough_cmd": "bash /verif/check.sh " + p["id"] + " thorough",
                     "technique": TECH[p["id"]][0], "level": "other", "level_note": TECH[p["id"]][1]} for p in claimed],
         "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA] + [{"property": p["id"], "reason": "The rules for this property are being written."} for p in P if p not in claimed],
         "notes": "See DESIGN.md. The checker in checker/ loads /repo's current source with go/packages, builds SSA and decides every property by abstract interpretation; check.sh rebuilds the checker (cached) and runs it for one property."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
