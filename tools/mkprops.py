#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as data so that MANIFEST and DESIGN stay in step)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))]))
    if state: d["anchors"]["state"]=state
    P.append(d)
PAR="parallel/parallel.go"; SPE="speculative/speculative.go"; SEQ="sequential/sequential.go"; INT="internal/internal.go"; MAP="sync/map.go"
MS="sort/mergesort.go"; QS="sort/quicksort.go"; SO="sort/sort.go"
def pl(*a): return ["pipeline/"+x for x in a]

prop("C01","Range functions partition the index range exactly",
 "Every Range function (in the parallel, sequential and speculative packages) invokes its range callback only on non-empty, pairwise disjoint subranges of [low, high), and on every normal return of a parallel or sequential call (and of a speculative call that was not decided early) those subranges cover every index exactly once; no index is ever handed out twice. Let m be n (2*GOMAXPROCS when n is 0), or the size of the range if that is smaller: at most m subranges are used, and at least half of m (exactly m if they can be equally large) unless a speculative call is decided early. An empty range leads to exactly one invocation, with (low, high). All of this also holds for ranges at the ends of the integers, where index arithmetic could overflow.",
 ["inputs","schedules"],"for every low <= high (at most 2^62 indices), every n >= 0, every callback behaviour and every schedule",
 "The tests run a handful of fixed ranges and batch counts; the partition arithmetic (rounding, batches that would be empty, n larger than the range) must be right for all integer triples and in all 33 copies of the recursion.",
 [PAR,SEQ,SPE,INT],"divide and conquer on (low, high, n): mid = low + batchSize*half, right part takes n-half batches")
prop("C02","List functions invoke every given function exactly once",
 "Do, And, Or and all Reduce functions of the parallel package invoke every function they are given exactly once, and never index outside their argument list, for any number of functions. The sequential package does the same, except that And and Or may stop invoking once the result is known. The speculative package invokes every function at most once, and exactly once each unless the call is decided early.",
 ["inputs","schedules"],"for every number of function arguments, every callback behaviour and every schedule",
 "Tests call these functions with two or three thunks; the recursive halving of the variadic slice (and of first/more in Reduce) must be right for every length.",
 [PAR,SEQ,SPE],"recursive halving of the variadic argument slice; the cases 0, 1 and 2 are special-cased")
prop("C03","Parallel functions return only after all work has terminated",
 "When a function of the parallel package, or a Parallel method of sync.Map, returns normally, every invocation of a user callback it caused has terminated, and that termination happens before the return, so that all effects of the callbacks are visible to the caller without further synchronization. The same holds for a speculative function whose call was not decided early. Every such call terminates if all user callbacks terminate.",
 ["inputs","schedules"],"for every input and every interleaving of the goroutines involved",
 "A missing or misplaced join is invisible unless a callback happens to be slow in the right place; tests see only fast schedules.",
 [PAR,SPE,MAP],"one WaitGroup per fork: Add(1) before go, Done in the deferred function after the panic value is stored, Wait before the results are combined")
prop("C04","Reductions combine the results of all parts in argument order",
 "The value returned by a Reduce, RangeReduce, And, Or, Sum or Product function is an in-order combination of exactly the values returned by its callbacks: every value is used once, and operand i stands left of operand i+1, so the result equals a left-to-right fold for every associative, not necessarily commutative, operation. Sum, Product, And and Or use +, *, && and || respectively, and return the neutral element 0, 1, \"\", true or false for an empty argument list.",
 ["inputs","schedules"],"for every number of parts, every values returned, every (also non-commutative) join function and every schedule",
 "Tests use commutative sums of small examples, for which swapped, dropped or duplicated operands are mostly invisible.",
 [PAR,SEQ,MAP],"left and right results are kept in separate variables and joined as join(left, right) after the join point")
prop("C05","Panics in callbacks are never lost and the left-most one wins",
 "If an invocation of a user callback panics, the function of the parallel or sequential package (or Parallel method of sync.Map) it belongs to panics too instead of returning normally, and the program does not crash because of a panic in a goroutine it started. The value it panics with derives from the left-most panicking invocation: all invocations to the left of it completed without a panic. The same holds for a speculative call for all invocations to the left of the deciding one.",
 ["inputs","schedules"],"for every set of panicking callbacks, every panic value and every schedule",
 "Only a few fixed panic placements could be sampled by tests (none does today); the claim is about all subsets of panicking callbacks and all interleavings.",
 [PAR,SPE,SEQ,MAP,INT],"goroutines recover in a deferred function, store the wrapped value, and the forking side rethrows it after the join point")
prop("C06","Speculative results are those of the left-most deciding invocation",
 "A speculative function returns the value of the left-most callback that signals early termination (true for Do, Range and Or, false for And, the second result for the Reduce functions), together with that signal; all invocations to the left of it completed without a signal and without a panic. If no callback signals, it returns the in-order combination of all results (including the early termination signal of the join function itself), the neutral result for Do, Range, And and Or.",
 ["inputs","schedules"],"for every combination of signals and values returned by the callbacks and every schedule",
 "Which goroutine finishes first is schedule dependent, and tests cover only calls of one or two thunks; the claim is for every number of parts and every order of termination.",
 [SPE],"left flag is checked before the join point, right flag after it")
prop("C07","Speculative functions do not wait for work right of the decision",
 "Once some callback of a speculative function has signalled early termination and all callbacks to the left of it have completed, the call returns without waiting for the termination of any callback to the right of the deciding one. This also holds when these other callbacks never return.",
 ["schedules","inputs"],"for every position of the deciding callback and every (also non-terminating) behaviour of the callbacks to its right",
 "A superfluous wait only shows when the remaining callbacks are slow or never return; no test does that.",
 [SPE],"early return between evaluating the left part and wg.Wait()")
prop("C08","Parallel and speculative calls run all parts concurrently",
 "Functions of the parallel and speculative packages never make the start of one callback invocation depend on the termination of another one: all invocations of one call can be in progress at the same time, so callbacks may wait for each other.",
 ["schedules","inputs"],"for every input and every pattern of callbacks waiting for each other",
 "Serializing two parts still returns the same result, so no functional test notices; only callbacks that depend on each other, for every position in the recursion, do.",
 [PAR,SPE],"the right part is forked before the left part is evaluated by the calling goroutine")
prop("C09","Sequential functions invoke callbacks one at a time from left to right",
 "Functions of the sequential package and the sequential methods of sync.Map invoke their callbacks on the calling goroutine, one after the other in argument or index order, and start no goroutines; a callback that panics ends the call with exactly that panic value, and no further callback is invoked.",
 ["inputs"],"for every input and callback behaviour",
 "No test of the sequential package exists; order must hold for every number of functions and every range and batch count.",
 [SEQ,MAP],"plain loops over the variadic slice, and left-before-right recursion for ranges")
prop("C10","Invalid ranges and batch counts are rejected before any work starts",
 "Every Range function panics, before it invokes its callback, if and only if n is negative or high is smaller than low; in all other cases the function itself does not panic.",
 ["inputs"],"for every integer triple (low, high, n)",
 "Tests contain only valid arguments.",
 [INT,PAR,SEQ,SPE],"batch count is computed and validated by one shared internal function")
prop("C11","Rethrown panic values keep their kind and text",
 "A panic value that crosses a goroutine boundary in this library is replaced by a value of the same kind: nil stays nil and anything else is replaced by a non-nil value, an error stays an error, a runtime error stays a runtime error, and a value that is no error does not become one. The text of the original panic value is contained in the text of the new one.",
 ["inputs"],"for every panic value",
 "No test panics; the claim ranges over all dynamic types of panic values.",
 [INT],"type switch on error and runtime.Error, text includes the original value formatted with %v and the stack")
prop("C12","Per-key operations of sync.Map are linearizable",
 "Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute and Modify each take effect atomically at one point between their invocation and their return, with exactly the effect and results of the corresponding sequential map operation on the given key; no other key is changed. Two operations on equal keys always use the same split of the map. Callbacks run at most once per operation, and LoadOrCompute and DeleteOrCompute call theirs only after they have found the key to be absent.",
 ["schedules","histories","inputs"],"for every concurrent history of operations on any keys, any hash values and any number of splits",
 "There are no tests of the map; a check-then-act window between two critical sections only shows up in rare interleavings.",
 [MAP],"each operation decides and modifies inside one critical section of the write lock of the split selected by hash modulo number of splits; the read-locked fast path only decides loads")
prop("C13","sync.Map locks are used correctly and always released",
 "Every access of a sync.Map method to the contents of a split happens while the lock of that same split is held, in write mode if the contents may be modified. Every lock is released exactly once, whether the method returns normally or a user callback panics, and LoadOrCompute holds no lock while its callback runs, while DeleteOrCompute, Modify and the iteration, predicate and reduction methods hold the write lock of the split in question.",
 ["schedules","inputs"],"for every input, callback behaviour (including panics) and schedule",
 "A lock that leaks on a panic, or an unprotected access, needs a panicking callback or a particular interleaving; no test has either.",
 [MAP],"Lock/Unlock pairs and deferred unlocks around every access of split.Map")
prop("C14","Map iteration visits every entry exactly once until stopped",
 "Range, ParallelRange and SpeculativeRange invoke their callback with every key of the map together with its current value, never twice for one key; all entries are visited unless the callback of Range or SpeculativeRange returns false. After the callback has returned false, Range visits no further entry, and SpeculativeRange visits no further entry of the same split.",
 ["inputs","schedules"],"for every map contents, number of splits, callback behaviour and schedule",
 "There are no tests of the map; an entry or split can be skipped for particular split counts or callback results only.",
 [MAP],"loop over all splits (forked by parallel.Range or speculative.Range) with an inner loop over the locked map of the split")
prop("C15","Map predicates and reductions cover every split exactly once, in order",
 "The And, Or and Reduce methods of sync.Map, and their Parallel and Speculative forms, invoke their callback with the map of every split exactly once (at most once after the result of And, Or or a Speculative form is decided) and combine the results in split order with &&, ||, +, * or the given join function; they return what the functions of the sequential, parallel or speculative packages of the same name return for the list of splits. The number of splits is the size passed to NewMap, or GOMAXPROCS if that is not positive. A Speculative method whose result is decided by callbacks that have returned does not wait for the callbacks of splits to the right of the deciding one.",
 ["inputs","schedules"],"for every number of splits, every callback behaviour and every schedule",
 "There are no tests of the map; dropped, repeated or swapped splits, in any of the 27 methods, only show for particular split counts.",
 [MAP],"recursive halving of the split slice, or parallel.RangeAnd/RangeOr and speculative.RangeAnd/RangeOr over the split indices")
prop("C16","Sort sorts in place and only permutes",
 "After sort.Sort returns, the collection is sorted according to its Less method and is a permutation of its original contents, for every length and contents. It only calls Less, Swap and SequentialSort with indices inside the collection, and never touches one part of the collection from two goroutines at the same time.",
 ["inputs","schedules"],"for every length, contents and strict weak order, and every schedule",
 "Tests sort random slices of one fixed size; the partition loop has to be right for every arrangement, in particular duplicates, the extreme elements and the sizes around the grain size.",
 [QS,SO],"parallel quicksort with pseudo-median pivot; both partitions are sorted in parallel, small ones sequentially")
prop("C17","StableSort sorts stably and only permutes",
 "After sort.StableSort returns, the collection is sorted according to its Less method, is a permutation of its original contents, and elements that are equal with respect to Less keep their original order, for every length and contents. It never touches one part of the collection or of the temporary collection from two goroutines at the same time.",
 ["inputs","schedules"],"for every length, contents and strict weak order, and every schedule",
 "Stability of the parallel merge depends on which side equal elements are split to, which random tests with few equal elements at the split points do not reach; the size must exceed the grain size for the parallel code to run at all.",
 [MS,SO],"four-way parallel merge sort through a temporary collection; the parallel merge splits the larger run in the middle and the other by binary search")
prop("C18","IsSorted returns true exactly for sorted collections",
 "sort.IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true if and only if no element of the collection is less than its predecessor, for every length and contents, and every schedule, and do not access the collection any more after they have returned.",
 ["inputs","schedules"],"for every length and contents, in particular a single inversion at any position, and every schedule",
 "Tests check one sorted slice; a pair of neighbours that no goroutine compares is only found by an inversion at exactly that position.",
 [SO],"sequential prefix, then recursive halving with parallel.And; an atomic flag stops the other goroutines early")
prop("C19","The predefined sortable slice types implement the sorting interfaces",
 "For IntSlice, Float64Slice and StringSlice: Less is the strict weak order < (with NaN before all other values), Swap exchanges exactly two elements, SequentialSort(i, j) sorts exactly the elements in [i, j) stably by Less, NewTemp returns a separate collection of the same length, and the function returned by Assign(source) copies exactly the given number of elements between the given positions and changes nothing else.",
 ["inputs"],"for every slice contents and every valid index arguments",
 "Tests use the types only through complete sorts of random slices without NaNs.",
 [SO],"thin adapters over the standard library")
prop("C20","Pipeline sources deliver every element exactly once and in order",
 "For a slice, string, array, channel, SingletonChan, Scanner, BytesScanner or Func source, the concatenation of the batches it delivers, in the order in which they are fetched, is exactly the sequence of its elements, for every sequence of requested batch sizes; every batch has the reported size and at most the requested one, and a size of 0 is reported only when there is nothing left or the pipeline is canceled. A batch that was delivered is not changed by later fetches.",
 ["inputs","histories"],"for every contents and every sequence of requested batch sizes",
 "Tests run one text file through one scanner; the boundary arithmetic of fetches must hold for all sizes.",
 pl("source.go"),"slicing off the front part of the remaining value; loops that collect up to n elements")
prop("C21","Ordered nodes process batches in encounter order, one at a time",
 "The receivers of Ord and StrictOrd nodes (and of the Limit and Skip nodes) are invoked for the batches 0, 1, 2, ... in exactly that order, never concurrently, whatever the order in which the preceding nodes deliver these batches; no batch is skipped or repeated unless the pipeline is canceled.",
 ["schedules","histories"],"for every order in which batches arrive and every schedule",
 "Out-of-order arrival depends on the speed of preceding parallel nodes; tests see few arrival orders.",
 pl("seqnode.go","strictordnode.go","lparnode.go","pipeline.go"),"one goroutine per node with a stash of early batches and a run counter; condition variable that admits the batch with number run")
prop("C22","Every batch passes through all receivers of all nodes exactly once",
 "Every batch fetched from the source is passed to every receiver of every node exactly once, in the order in which the nodes and their filters were added, each receiver getting the value returned by the previous one, and with its sequence number unchanged, unless the pipeline is canceled. Merging neighbouring nodes, and removing nodes without receivers and finalizers, does not change which receivers and finalizers run, nor their order.",
 ["inputs","schedules","configurations"],"for every configuration of nodes and filters, every number of batches and every schedule",
 "Tests run a few fixed pipelines; node merging and removal depend on the combination of node kinds and of nil receivers.",
 pl("pipeline.go","filter.go","seqnode.go","parnode.go","lparnode.go","strictordnode.go"),"Feed/FeedForward chain over the node slice; TryMerge appends filters, receivers and finalizers")
prop("C23","Finalizers run once, after all batches have passed all receivers",
 "When a pipeline that is not stopped by an error ends, the finalizers of all filters are called exactly once each, in the order of the nodes and filters, after all receiver invocations of that node have terminated and after no more batches can arrive at that node. Run and RunWithContext return only after that.",
 ["schedules","inputs"],"for every pipeline configuration and every schedule",
 "Calling a finalizer before a slow receiver is done is visible only in unlucky schedules.",
 pl("pipeline.go","seqnode.go","parnode.go","lparnode.go","strictordnode.go"),"End closes the channel of the node, waits for its goroutines, then calls the finalizers; nodes are ended in pipeline order")
prop("C24","Pipelines do not block forever, also when they are canceled",
 "A pipeline whose source and filters terminate always terminates: no goroutine of a node waits forever for a batch, a free receiver or a turn. After the pipeline is canceled, or an error is set, feeding goroutines and node goroutines stop waiting and no further batches are fetched from the source once the cancellation is observed.",
 ["schedules","fault_sequences"],"for every schedule and every point at which the pipeline is canceled or an error is set",
 "Lost wake-ups and stuck feeders need a cancellation at a particular point of the schedule.",
 pl("pipeline.go","seqnode.go","parnode.go","lparnode.go","strictordnode.go"),"every channel operation selects on ctx.Done; waiting for a turn happens on a condition variable that is broadcast under its lock")
prop("C25","Batch sizes follow the configured batch counts and limits",
 "For a source of known size the pipeline requests batches of one size such that at most the configured number of batches (2*GOMAXPROCS by default) is needed for all elements, and for a source of unknown size it starts with the configured batch increment, increases the size by that increment for every further batch, and never requests more than the configured maximum; requested sizes are always positive.",
 ["inputs"],"for every data size, batch count, batch increment and maximum batch size",
 "Tests use the default sizes only; rounding and overflow matter at the boundaries.",
 pl("pipeline.go"),"rounded-up division by the batch count; nextBatchSize saturating at the maximum")
prop("C26","Every, NotEvery, Some and NotAny compute the quantified predicate",
 "After an uncanceled pipeline has ended, Every, NotEvery, Some and NotAny have set their result to whether the predicate held for all, not all, at least one, or none of the batches, in every kind of node and for every number of batches including none. They pass batches on unchanged, and with cancelWhenKnown set they cancel the pipeline exactly when the result is known, which then is the result.",
 ["inputs","schedules"],"for every sequence of batches, every predicate, every node kind and every schedule",
 "No test uses these filters; the parallel versions must not lose an update in any interleaving.",
 pl("filters.go"),"atomic flag in parallel nodes that the finalizer copies to the result; direct store otherwise")
prop("C27","Count and Slice see every element exactly once",
 "After an uncanceled pipeline has ended, the result of Count is the total size of all batches that reached the filter (whether or not the data size was known), and the slice given to Slice has been extended by exactly the elements of all batches that reached the filter, contiguously per batch, and in encounter order in an ordered node. Both pass batches on unchanged and tolerate nil batches, and Slice sets an error if its argument does not point to a settable slice.",
 ["inputs","schedules"],"for every sequence of batches (including nil and empty ones), every node kind and every schedule",
 "Tests use Slice in two examples; concurrent updates and reuse of a filter are not exercised.",
 pl("filters.go"),"atomic counter or mutex in parallel nodes, direct update otherwise")
prop("C28","Limit and Skip cut the element stream at exactly the given position",
 "Limit(n) passes exactly the first n elements of the stream on (all of them if n is negative or there are fewer), and Skip(n) exactly all but the first n elements, in encounter order and for any partition into batches, including nil batches. The data size they report to subsequent filters is the number of elements that remain if the size was known, a negative n makes Skip set an error and pass nothing on, and Limit with cancelWhenReached cancels the pipeline exactly when the limit is reached.",
 ["inputs","histories"],"for every n, every stream of elements and every partition of the stream into batches",
 "No test uses these filters; cuts inside, at the start and at the end of a batch are all needed.",
 pl("filters.go"),"a counter of elements seen so far; slicing of the batch in which the limit falls")
prop("C29","The first pipeline error wins and cancels the pipeline",
 "SetErr stores the error and returns true exactly if the pipeline had no error before, in which case it also cancels the pipeline; otherwise it returns false and changes nothing. Err returns the stored error, both are safe for concurrent use and never leave the lock held, and an error reported by the source during or at the end of a run is what Err returns afterwards if no other error was set before.",
 ["schedules","inputs"],"for every sequence and interleaving of SetErr and Err calls",
 "No test sets errors concurrently.",
 pl("pipeline.go"),"error field protected by a mutex; check and store in one critical section")
prop("C30","Sequential and limited parallel nodes respect their limits",
 "The receivers of a sequential, ordered, strictly ordered or LimitedPar(1) node never process two batches at the same time, and a LimitedPar(limit) node uses at most limit goroutines, and so processes at most limit batches at the same time (if limit is not positive, it is still limited, by GOMAXPROCS at its construction). This also holds for the receivers of nodes that are merged with neighbouring nodes by the pipeline.",
 ["schedules","inputs","configurations"],"for every limit, every combination of neighbouring nodes, every number of batches and every schedule",
 "No test measures the concurrency of a node; merging depends on combinations of node kinds and limits, some of which only become neighbours when a node without receivers is removed.",
 pl("seqnode.go","lparnode.go","strictordnode.go","pipeline.go"),"a fixed number of goroutines takes batches from the channel of the node; nodes are merged only with equal limits")
out=open("/verif/properties.jsonl","w")
for p in P:
    assert len(p["title"])<=80,p["title"]
    out.write(json.dumps(p)+"\n")
out.close()
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))
