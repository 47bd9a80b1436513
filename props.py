"""The properties: text (properties.jsonl), bounds (evidence) and manifest entries. `python3 props.py` regenerates both files."""
import json, os
TECH = "symbolic execution of the compiled library (LLVM IR) with Z3: all inputs within bounds"
TECHC = "symbolic execution of all thread interleavings (LLVM IR, partial-order reduced) with Z3"
COMMON = [
 "the compiler front end (clang 18 -O0/-O1 IR for x86-64, hosted) represents the library's source; sampled paths are replayed against gcc and clang builds with sanitizers to check this",
 "Z3's verdicts are right (thorough tier re-decides a sample of the queries with cvc5 and a newer z3)",
 "the executor's models of malloc/free, memcpy-like functions, exceptions and, where used, mutex/condition variable/atomics are right",
 "the C++ standard library templates used are executed as they are, from their installed headers",
]
I, H, S, F, P, CF = "inputs", "histories", "schedules", "fault_sequences", "programs", "configurations"
PROPS = []
def p(id, title, statement, over, text, why, files, mech, bounds, outside, extra=(), tech=TECH, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, outside=outside, extra=list(extra), tech=tech, note=note))
SEQ, PRE, CYC, ENU, MAY, SRT, STR, IO, CON, NUM, SCI, MET, FMT, CU = ["include/efp/%s.hpp" % x for x in "sequence prelude cyclic enum maybe sort string io concurrency numeric scientific meta format c_utility".split()]

p("C01", "The growable vector behaves as a list under every history of operations",
  "After any sequence of constructions, insertions (at the back or at any position, of fresh values or of the vector's own elements), removals, resizes, capacity changes, element writes and assignments, a dynamically growing vector holds exactly the elements a plain list would, in the same order, through every way of reading it. Operations on positions that do not exist (removing from an empty vector, inserting past the end, erasing a position that holds no element) are refused with an exception and change nothing.",
  [H, I], "every history of operations, storage state (exact fit, spare capacity, shrunk) and element value; every position, including out-of-range ones",
  "Tests build one or two short vectors with literal values; the combinations of operation order, spare capacity, position and aliasing are unbounded.",
  [SEQ], [("grow, shift and relocate elements in insert/erase/reserve/resize", SEQ)],
  "initial length 0..3 in 4 storage states, then every sequence of 2 (thorough 3) operations out of 16 with symbolic values and 64-bit symbolic positions; one operation at every position of a 33-element vector; sequences of 300 elements with a free value at ten positions; vectors of vectors: every 3 operations out of 12, among them pushing and inserting own elements",
  "longer histories; elements whose copy or move throws; allocation failure; copy-assigning a vector from one inside its own elements (as for std::vector; moving from it is covered)")
p("C02", "Fixed-capacity sequences behave as lists and refuse to exceed their capacity",
  "A fixed-capacity vector holds exactly the elements a list would after any history of operations, and any operation that would exceed the capacity or name a position that does not exist is refused with an exception and leaves the contents unchanged. A fixed-length array always holds exactly its declared number of valid elements, and refuses to be built from, or resized to, any other length.",
  [H, I], "every history of operations, element value and position within and beyond the capacity, for several capacities",
  "Tests push a few literal values well inside the capacity; the boundary cases in every operation and their effect on the contents are not sampled.",
  [SEQ], [("bounds checks in push_back/insert/erase/resize/reserve of the fixed-capacity types", SEQ)],
  "capacities 1, 3, 4 and 20; every initial length, then every sequence of up to 3 operations out of 13 with symbolic values and 64-bit symbolic positions; arrays of 3 and 5 with every 2 operations; construction lists of 0..3 elements; sequences of 300 elements with a free value at ten positions; bounded vectors of vectors: every 3 operations out of 12",
  "longer histories, larger capacities; elements whose copy or move throws")
p("C03", "Owning sequences construct and destroy every element exactly once",
  "Whatever is done with the owning sequences (array, fixed-capacity vector, growable vector), every element that comes into existence is destroyed exactly once, no operation reads, assigns to or destroys storage that holds no element, nothing outside owned memory is touched, and all memory obtained is released. This also holds when an operation is refused, when an element of the sequence is passed to an operation on that sequence, and for moved-from sequences.",
  [H, I], "every history of operations over elements that own resources, every storage state, including refused operations and self-referencing arguments",
  "The existing tests count no constructions or destructions, and address sanitizers only see the few histories that are run with trivially copyable elements.",
  [SEQ], [("placement construction and explicit destruction in raw storage", SEQ)],
  "as C01, C02 and C04 (up to 300 elements), with an element type that records construction, use and destruction of each address; every load and store checked against object bounds, liveness and initialisation; elements of 64-byte alignment",
  "as C01, C02 and C04")
p("C04", "Copies of sequences are equal and independent; equality is element-wise",
  "Copying, moving, assigning (also to itself) or converting an owning sequence yields a sequence with exactly the source's elements whatever both held before, and later changes to one are never visible in the other; a moved-from sequence can be assigned to and used again. Two owning sequences compare equal exactly when they have the same length and equal elements. Views of plain (non-character) elements are equal exactly when they name the same elements, and a view made from a sequence or another view names exactly the same elements.",
  [H, I], "every pair of contents and storage states of source and target, every kind of copy, move, assignment and conversion",
  "Tests copy one literal sequence into a fresh one; the cases that matter (longer or shorter target, spare capacity, empty source, self assignment) are combinations.",
  [SEQ], [("copy/move constructors, assignment operators, converting constructors, operator==", SEQ)],
  "sources of 0..3 elements, targets of 0..4, 3 storage states each, 7 kinds of copying, symbolic element values; 6 kinds of conversion; sequences of 300 elements with a free value at ten positions; sequences of sequences (copies change independently, equality compares the inner elements)",
  "longer sequences")
p("C05", "A cyclic buffer is always the window of the most recent values",
  "At every moment a cyclic buffer of size n presents, oldest first and contiguously in memory, exactly the last n values pushed (preceded by default values while fewer than n were pushed), through iteration, indexing and the raw data pointer. This holds after any number of pushes, including pushes of one of its own elements.",
  [H, I], "every number of pushes (all wrap-around phases) and every pushed value, for several sizes",
  "Tests push a handful of values into one or two sizes; the wrap-around phases and sizes multiply.",
  [CYC], [("doubled buffer with mirrored writes", CYC)],
  "sizes 1, 2, 3, 5 and 16 with up to 8, 8, 10, 16 and 50 pushes of symbolic values; elements with checked lifetimes for sizes up to 3, their own elements among the pushes; buffers of vectors (size 2, 3 operations from every phase); a ring of 300 elements after up to 700 pushes",
  "other sizes, more pushes than three turns of the buffer")
p("C06", "A bounded cyclic queue is first-in first-out and drops only its oldest element",
  "A bounded queue yields its elements in the order they were pushed; pushing to a full queue discards exactly the oldest element and nothing else. Size, emptiness, indexing, iteration and the raw data pointer always present exactly the queued elements, oldest first, whatever mix of pushes and pops went before.",
  [H, I], "every interleaving of pushes and pops from every phase of the ring, every value, several capacities; pushes of the queue's own elements",
  "Tests run one short script per type; the phase of the ring times the fill level times the operation sequence is not sampled.",
  [CYC], [("read/write positions with wrap-around over a doubled buffer", CYC)],
  "capacities 1, 2, 3, 4 and 12; every ring phase and fill level, then every sequence of 6, 6, 5, 4 and 2 operations with symbolic values, then drained; a queue of vectors (capacity 3, every 6 pushes and pops); a ring of 300 elements after up to 700 pushes",
  "other capacities, longer sequences; popping an empty queue (a precondition of the library)")
p("C07", "Cyclic buffers and queues copy, move and destroy their elements correctly",
  "A copied, moved or assigned (also self-assigned) cyclic buffer or queue holds exactly the source's elements in order at any phase and fill level of source and target, continues to work independently of the source, and the source of a move can be assigned to again. Every element of such a container is constructed and destroyed exactly once and no slot without an element is ever read.",
  [H, I], "every phase and fill level of source and target, every kind of copy, move and assignment, followed by further use",
  "Tests copy at most one freshly filled container; the slots involved depend on the phase.",
  [CYC], [("slot-by-slot copy and move over the doubled buffer", CYC)],
  "sizes 1, 2 and 3; every phase and fill of source and target; 6 kinds of copying followed by up to 3 further operations; symbolic values; elements that are vectors themselves (every phase, 3 operations); rings of 300 elements after up to 700 pushes; elements of 64-byte alignment",
  "larger sizes")
p("C08", "A sum type holds exactly one alternative, the one last stored",
  "Whatever sequence of constructions, copies, moves and assignments (between different alternatives, to itself, from its own contents) happened, a sum-type value reports the alternative stored last, yields exactly the stored value for it, and refuses access as any other alternative with an exception. Each stored alternative is constructed and destroyed exactly once, two values are equal exactly when they hold the same alternative with equal values, and this is so for any number of alternatives.",
  [H, I, CF], "every history of stores, copies and moves over alternatives of different size, alignment and triviality; every alternative of sum types of 1 to 255 alternatives",
  "Tests use three or four alternatives and a single assignment; the pairs of (old alternative, new alternative) and the dispatch width multiply.",
  [ENU], [("tag and raw storage with per-alternative copy/move/destroy dispatch", ENU)],
  "5 alternatives (two with checked lifetimes), every sequence of 3 (thorough 4) operations out of 9 from every pair of alternatives; sum types of 1, 2, 3, 4, 7, 9, 17, 33, 66, 128, 129 and 255 alternatives (up to 17 every alternative, beyond that chosen ones); alternatives of 1 to 64 bytes alignment behind other members and on the heap; alternatives that are vectors, strings and options, every 3 operations out of 7; trees assigned a part of themselves by copy and move; alternatives with an initializer list constructor; equality of options",
  "longer histories; 256 alternatives (not supported)")
p("C09", "Pattern matching runs exactly the branch of the held alternative",
  "Matching on a sum-type value runs exactly one branch exactly once: the branch for the held alternative, or the wildcard branch if and only if no branch for it was given, with the held value as argument and the branch's result as result. The order in which branches are written does not matter and matching does not change the value.",
  [I, P], "every held alternative and value, branch orders and partial branch lists with a wildcard, sum types of 1 to 255 alternatives",
  "Tests match a few literal values; which branch runs is a function of alternative, branch list and dispatch width.",
  [ENU], [("recursive switch over the tag, overload resolution over the branches", ENU)],
  "5 alternatives, 6 branch lists, symbolic values, C++11/17/20; sum types of 1, 2, 3, 4, 7, 9, 17, 33, 66, 128, 129 and 255 alternatives (up to 17 every alternative, beyond that chosen ones)",
  "other branch lists")
p("C10", "The optional type obeys the functor and monad laws and never invents a value",
  "An optional value holds either nothing or the value last stored; asking nothing for its value is refused with an exception. Mapping or chaining functions runs each function exactly once when a value is present and never on nothing, and satisfies the identity, composition, unit and associativity laws; applying an optional function yields a value exactly when both are present.",
  [I, H], "every value, presence and function from a symbolic family; every history of stores, resets, copies and moves",
  "The laws are universally quantified over values and functions; tests check single instances.",
  [MAY, ENU], [("optional type as two-way sum type, fmap/bind/ap", MAY)],
  "symbolic values, presence flags and functions (adding a symbolic constant, failing below a symbolic limit), C++11 and 17; every sequence of 5 (thorough 6) operations out of 7 with lifetime-checked elements; options of vectors; equality for every pair",
  "other functions")
p("C12", "Mapping, filtering, folding and iteration visit elements once, in order",
  "Map, filter, folds and the for-each family over one or several sequences of any kind call the given function exactly once per element (per position up to the shortest sequence for several), in order and with the right elements and indices, and return exactly the corresponding results in order; the mutating forms change exactly the visited elements and the others change nothing. The result is of static size or capacity whenever the arguments determine it, and is then produced without allocating memory.",
  [I, P], "every element value, length, result returned by the function and combination of sequence kinds (library, view and standard containers)",
  "Tests use one literal sequence per function; combinations of sequence kinds, unequal lengths and empty sequences are not sampled.",
  [PRE, SEQ], [("index loops over the minimum length; compile-time choice of result type", PRE)],
  "lengths 0..3 (arrays of 1 to 3), 8 sequence kinds, 7 pairs and 4 triples of kinds (every form, whichever is the shortest), functions returning an unconstrained symbolic result per call; lengths around 6 to 100 with arranged elements and symbolic ones at chosen places; sequences of 300 elements with a free value at ten positions and index loops of 301 and 300x3 positions; filter predicates by a log of their arguments",
  "longer sequences of free elements, more than three sequences at once")
p("C13", "Building functions produce exactly the specified elements in order",
  "Appending sequences yields the elements of the arguments one after another; concatenating a sequence of sequences does the same for the inner ones, and intercalating inserts the delimiter exactly between consecutive ones. Building from a function applies it to 0, 1, 2, ... in order, and the cartesian forms visit every combination exactly once with the last sequence varying fastest; results are static and allocation-free whenever the arguments determine that.",
  [I, P], "every element value, every combination of lengths (including empty inner sequences and no inner sequence) and sequence kinds",
  "Tests use one or two literal examples; empty pieces and mixed kinds are where order and counting go wrong.",
  [PRE], [("append/concat/intercalate/from_function/cartesian_map", PRE)],
  "up to 3 sequences of up to 3 elements, 4 kinds of combination for append, 5 for nested sequences, 4 for cartesian products; unconstrained symbolic values and function results; arranged sequences of up to 100 elements; sequences of 300 elements with a free value at ten positions",
  "longer sequences of free elements")
p("C14", "Slices and views name exactly the specified part of the source",
  "Head, last, tail, init, take, drop, slice, take-while and drop-while name exactly the specified elements of their source, in place, for every sequence kind, and requests that exceed the sequence are clamped to it. Asking the empty sequence for its head, last, tail or init is refused with an exception; no view ever reaches outside its source and the source is unchanged.",
  [I], "every length, every 64-bit bound (also reversed or beyond the end), static and dynamic bounds, every sequence kind",
  "Tests take in-range literal slices; the bounds that exceed the length or are reversed, per sequence kind, are not sampled.",
  [PRE, SEQ], [("view construction with clamped bounds", PRE)],
  "lengths 0..3 (arrays 3 and 4), 8 sequence kinds, 64-bit symbolic bounds for take, drop and slice, static lengths 0, 2 and 5, compositions of two views; arranged sequences of 6 to 100 elements; sequences of 300 elements with a free value at ten positions",
  "longer sequences of free elements; the unsafe variants outside their preconditions")
p("C15", "Searching finds the first match, all matches, and nothing else",
  "Membership, search by value and search by predicate report a match exactly when one exists; the index forms yield the first matching position, and the plural forms list every matching position once in ascending order. Nothing is reported for the empty sequence, and the source is unchanged.",
  [I], "every content, key and threshold, every sequence kind and length",
  "Tests search a literal sequence for one present and one absent value; duplicates and positions multiply.",
  [PRE], [("linear scans", PRE)],
  "lengths 0..4, 8 sequence kinds, symbolic elements, key and predicate threshold; lengths of 6 to 100 with matches at chosen places; sequences of 300 elements with a free value at ten positions", "longer sequences of free elements, other predicates")
p("C16", "Every sort returns an ordered permutation of its input",
  "Every sorting function, with the default order or any strict weak order given, leaves the sequence with exactly the same elements, each as often as before, arranged so that no later element precedes an earlier one in that order. Sorting a part of a sequence leaves everything outside the part in place, and sorting never reads outside the sequence or loses an element that owns a resource.",
  [I, P], "every content (all orders, all patterns of duplicates), several orders, every sub-range, lengths from 0 on, including more elements than one internal run or block",
  "There are n! orders and many duplicate patterns; tests sort a few literal vectors.",
  [SRT], [("timsort, merge sort, quicksort, heapsort, introsort, insertion sort", SRT)],
  "lengths 0..6 (thorough 0..7) with fully symbolic keys for the default order; 0..5 (6) for descending, coarse and symbolic orders; every sub-range of 5; inputs of 6 to 9 elements with every third key symbolic; inputs of 8 to 65 elements in 9 shapes with one symbolic key at 3 places, also for sub-ranges; inputs of 257 and 300 elements in several shapes for every sort; up to 4 (5) elements that are vectors",
  "fully symbolic contents beyond those lengths; comparison functions that are not strict weak orders")
p("C17", "The stable sorts keep equal elements in their original order",
  "The sorts documented or chosen as stable (the default sort, with or without a given order, and the run-merging and insertion sorts it is made of) keep elements that compare equal in their original relative order, for every input and every order. The result is ordered and a permutation at the same time, also for inputs longer than one internal run.",
  [I, P], "every content and duplicate pattern, several orders, lengths across the boundaries of internal runs",
  "Stability is invisible on plain numbers, which is all that the tests sort.",
  [SRT], [("run detection, insertion sort of runs, stable merge", SRT)],
  "lengths 0..6 (thorough 0..7) fully symbolic, 0..5 (6) with coarse orders; inputs of 8 to 200 elements in up to 9 shapes with symbolic keys at run boundaries; 257 and 300 elements; up to 4 (5) elements that are vectors",
  "fully symbolic contents beyond those lengths")
p("C18", "Strings behave as lists of characters and are always properly terminated",
  "After any history of appending and inserting (also of the string itself or a part of its own text), erasing, assigning, taking substrings, copying, moving and clearing, a string of any character type holds exactly the characters a list would, and its C-string form holds the same characters followed by a terminator inside owned memory. Positions beyond the end are refused with an exception and change nothing; joining strings with a delimiter puts it exactly between consecutive strings.",
  [H, I], "every history of operations, every character value (including zero), length, position and count, four character types",
  "Tests use short literal words; exact-fit capacity, empty strings, self-append and embedded zero characters are not sampled.",
  [STR, PRE], [("string specialisation of the vector with one extra slot for the terminator", STR)],
  "6 ways of construction, then every sequence of 2 (thorough 3; other character types 1 and 2) operations out of 20, pieces of up to 2 characters, all read paths after every step; joins of up to 3 strings; one operation at every position of strings of up to 40 characters; strings of 300 characters with a free one at ten positions",
  "longer strings and histories")
p("C19", "String comparison, equality and conversion agree on the characters",
  "Two strings or string views are equal exactly when they have the same characters, whatever memory holds them, and comparison orders them lexicographically with a proper prefix first, consistently in both directions. Equality with a C string, views of strings and C strings, and conversions to the standard string keep every character including embedded zero characters.",
  [I], "every pair of contents of length up to the bound, every character value, three or four character types",
  "Tests compare a few literal words of equal length.",
  [STR], [("compare, operator==, view and std::string conversions", STR)],
  "pairs of strings of 0..3 symbolic characters each; sub-range comparisons at every position and length 0..3; C strings of 0..3 characters; arranged strings of up to 40 characters that differ in one free character or in length",
  "longer strings of free characters")
p("C20", "Files deliver exact lines, write exact bytes and close every stream once",
  "Reading lines yields exactly the pieces of the file between newlines, ending at the end of the data or at a device error, and writing stores exactly the given bytes in order and reports success exactly when all were accepted. Through any sequence of moves, failed opens and failed closes each opened stream is owned by exactly one file object, is closed exactly once and never used afterwards, and operations on a closed file fail without touching a stream.",
  [H, I, F], "every file content and written byte, every point at which the device stops accepting or delivering bytes, failing open/close/flush/seek, every sequence of moves and closes",
  "Tests write one text file and read it back; no fault is ever injected and no byte value outside text is written.",
  [IO], [("owning wrapper over a C stream", IO)],
  "files of up to 6 (thorough 8) symbolic bytes cut off at any point; 3 (4) writes of up to 3 symbolic bytes each under any device budget up to 7 (9); every sequence of 4 (6) ownership operations out of 8; one line or one write of 15 to 600 symbolic bytes; files of up to 12 lines",
  "the operating system's own behaviour: the C stream functions are replaced by a model of one file with faults")
p("C21", "The blocking queue delivers every item exactly once, in order, without races",
  "Whatever the interleaving of producers and consumers, every item put into the blocking queue is taken exactly once and unchanged, the items of one producer reach a consumer in the order they were put, and a consumer waiting on an empty queue is always woken when an item arrives. No execution has a data race, a deadlock or a lost wake-up, also under spurious wake-ups; used from one thread the queue is strictly first-in first-out (the bounded form dropping its oldest item when full).",
  [S, I], "every interleaving of up to two producers and two consumers, spurious wake-ups, item values",
  "Tests run one consumer and one producer once on whatever schedule the machine picks.",
  [CON], [("mutex and condition variable around a queue", CON)],
  "1..3 producers x 1..3 consumers, up to 4 items in total, every interleaving (partial-order reduced), one spurious wake-up per run (none with 2x2x2 items and with 3 threads on a side); a bounded queue filled beyond its capacity; single-thread histories of 5 operations, also with lifetime-checked elements and items that are vectors; backlogs of up to 606 items",
  "more threads and items; weak memory effects beyond data races (none occur: accesses are shown race-free)", tech=TECHC)
p("C22", "The non-blocking queue never loses, duplicates or reorders items, without races",
  "Whatever the interleaving of producers and polling consumers, every item put into the non-blocking queue is obtained exactly once or still queued, unchanged and in order per producer; polling yields nothing exactly when the queue is empty at that moment, and never blocks. No execution has a data race, including emptiness queries made while others put and poll.",
  [S, I], "every interleaving of producers, pollers and emptiness queries, item values",
  "Tests poll from one thread on one schedule.",
  [CON], [("mutex around a queue", CON)],
  "1..3 producers x 1..2 pollers plus one observer, up to 4 items, every interleaving (partial-order reduced); queues stocked beforehand and filled beyond their capacity; single-thread histories of 5 operations, also with lifetime-checked elements and items that are vectors; backlogs of up to 606 items",
  "more threads and items", tech=TECHC)
p("C23", "The double buffer hands over every item exactly once, in order, without races",
  "Items put by any number of producers while one consumer swaps and drains the double buffer come out exactly once, unchanged and in order per producer, as long as no more items than the capacity are put between two swaps; beyond it only the oldest are dropped. No interleaving has a data race between putting, swapping and draining, and putting or swapping never blocks forever.",
  [S, I, H], "every interleaving of up to two producers with the swapping consumer, item values, and every single-thread history",
  "Tests swap once on one thread.",
  [CON, CYC], [("spin lock around the write side and the swap of the two buffers", CON)],
  "1..3 producers, up to 4 items, up to 3 swaps, every interleaving (partial-order reduced), also beyond the capacity; single-thread histories of 6 operations at capacity 2, also with lifetime-checked elements and items that are vectors; backlogs of up to 301 items",
  "more threads and items; several consumers (the consumer side is not synchronised by design)", tech=TECHC)
p("C11", "Tuples hold each component separately and compare component-wise",
  "A tuple yields, for every position and through every accessor (also on constant tuples), exactly the component it was built with, and a write through an accessor changes that component and no other. Copies are equal and independent, two tuples are equal exactly when all components are, matching passes all components to the function once and in order, and every component is constructed and destroyed exactly once.",
  [I, P], "every component value, tuples of several lengths with mixed, nested and resource-owning components",
  "Tests read one or two literal pairs; which component an accessor reaches depends on position and length.",
  [PRE, MET], [("recursive leaf storage, get/p/fst/snd/match, operator==", "include/efp/prelude.hpp")],
  "tuples of 1 to 5 and 12 components with symbolic values, writes through every accessor, mixed sizes, nested tuples, lifetime-checked components, C++11 and 17",
  "other lengths and component types")
p("C24", "Numeric reductions and comparisons are exact for every element type",
  "Sum, product, largest and smallest element (alone or together) of any non-empty sequence are exactly the mathematical ones whenever the result is representable, for integers of every width and sign and for floating-point elements including negative ones and infinities; the extremes are always elements of the sequence. The scalar forms (maximum, minimum, clamp, absolute value, square, arithmetic and comparison function objects, swap) agree with arithmetic, and the approximate comparison is true exactly when the difference is within the tolerance.",
  [I], "every element value (including the limits of the type, negative and infinite ones), length and element type",
  "Tests reduce one literal sequence of small positive numbers; negative extremes, type limits and mixed types are not sampled.",
  [NUM, PRE], [("folds with an initial element; scalar templates with mixed argument types", NUM)],
  "lengths 1..4 (and 0 for sum and product) of int8, uint16, int, int64, float and double with symbolic elements; sums bounded so that they are representable, extremes over all values; arranged sequences of 33 elements with one free element at every position; scalars and written-out lists of up to four over all values; sequences of 300 elements with a free value at ten positions",
  "results that are not representable; rounding of floating-point sums; NaN elements")
p("C25", "Statistics compute the textbook value for every sequence",
  "Mean, variance, standard deviation, root mean square, removal of the mean, auto- and cross-covariance and correlation with a lag, error sums and means, linear regression and removal of a linear trend equal their textbook definitions for every sequence of samples, up to rounding of the arithmetic. They do not depend on the kind of sequence, do not change it, handle integer samples without losing the fraction, and are right for long sequences too.",
  [I], "every real sample value, several lengths and sequence kinds, lags and sample types",
  "Tests compare one literal series; errors in one term, an index or an accumulated type show only for other lengths, values and types.",
  [SCI, NUM], [("folds over samples; index sums; centred products", SCI)],
  "lengths 1..5 (pairs of sequences 1..3) of arbitrary real samples (floating-point operations read as exact real operations, agreement to 1e-6); every lag; integer samples of 8 to 64 bits; 33 arranged samples; 1290 and 1400 samples for regression; 150 8-bit samples for trend removal",
  "rounding of floating-point arithmetic; longer series of free samples",
  extra=["floating-point operations of the statistics are read as operations on real numbers"],
  tech="symbolic execution of the compiled library (LLVM IR) over exact reals with Z3 (nonlinear real arithmetic) and cvc5: all inputs within bounds")
p("C26", "Formatted text is exactly the arguments' text in place",
  "Formatting replaces each field by exactly the text of its argument (decimal numeral of any integer, the characters of a string or view whatever their number, true or false, other bases, signs, padding and alignment as asked), in the position and order the fields name, and leaves all other text unchanged. Sequences and cyclic buffers are written as their elements in order, separated by a comma and a space, in brackets, for every length including none. Printing writes exactly the formatted text (with one newline for the line form) to standard output.",
  [I], "every argument value within the bounds, sequence kind, length and ring phase",
  "Tests format two or three literals; number lengths, empty sequences and long text are not sampled.",
  [FMT, STR], [("formatter specialisations for the library's types over the bundled format library", FMT)],
  "all 8-bit integers, integers up to +-1100 (thorough all 16-bit), wider integers around every change of length and at the limits; 12 format specifications with values -130..300; strings of 0..5 symbolic characters and up to 600 characters; sequences of 0..3 elements of 5 kinds at every ring phase and of 16 to 300 elements; sequences of up to 2 sequences, strings, views or C strings; printing with and without a newline through a model of standard output",
  "floating-point arguments; deeper nesting; `std::string` arguments (not supported)")
p("C27", "Composed functions and function pointers call exactly the given functions",
  "A composition of any number of functions calls each exactly once per call, innermost first, each with the previous result, and owns what it was made from, so it stays usable after its parts are gone, when copied, and when composed again. A plain function pointer made from a function object calls that very object with exactly the given arguments and returns its result, the one of its type converted last, each object type having its own pointer.",
  [I, P], "every argument and result value, compositions of two to five functions of different kinds, several objects made into pointers",
  "Tests call one composition at once, while its parts are alive, on one literal.",
  [PRE, CU], [("recursive composition object; one static slot per function type", CU)],
  "compositions of 2 to 5 functions (functions, function objects, closures, compositions), unconstrained symbolic results per call, resource-owning captures and arguments (as values, references and given away), C++11 and 17; function pointers of 4 signatures",
  "an earlier pointer used after a second object of its type was converted (they share one slot by design)")
p("C28", "Vectors and strings use exactly the allocator they were given",
  "A vector or string with an allocator of its own obtains all its storage from it, returns every block exactly once, to the allocator it came from and with the size it was requested with, never returns a block that was not obtained, never uses memory outside the blocks it holds and takes no memory from elsewhere. Apart from that it behaves exactly as one with the default allocator, under every history of operations, copies, moves and assignments.",
  [H, I], "every history of operations on vectors and strings with a recording allocator",
  "The tests never instantiate the containers with another allocator.",
  [SEQ, STR], [("allocate/deallocate calls through allocator_traits-like members", SEQ)],
  "vectors of integers and of lifetime-checked elements and strings: every sequence of 2 (thorough 3) operations with copies, moves, assignments, growth and shrinking, allocators that can be told apart; vectors of 63 to 300 elements",
  "longer histories; the freestanding configuration (does not compile with the installed standard library)")
NA = []

def main():
    root = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for q in PROPS:
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                                    anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=["public interface of the library"], hook_needed=None))) + "\n")
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3 vfdriver.py --setup", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's headers as they are", source_commits=[]),
             checks=[dict(property=q["id"], quick_cmd="python3 vfdriver.py %s" % q["id"], thorough_cmd="python3 vfdriver.py %s --tier thorough" % q["id"], evidence_file="evidence/%s.json" % q["id"], technique=q["tech"], level="model_checking",
                          level_note="Every path of the harness through the real code within the bounds is decided by the solver, none sampled. Bounds: %s. Outside: %s. %s" % (q["bounds"], q["outside"], q["note"] or "Trusted: clang's IR, Z3, the executor's models of the C runtime; sampled paths and every counterexample are replayed natively.")) for q in PROPS if q["id"] not in na],
             not_applicable=NA, notes="One symbolic executor (engine/) built from source by setup_cmd; harnesses in harness/, jobs and bounds in jobs.py, property texts in props.py. See DESIGN.md.")
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
    try:
        import jsonschema
        sm = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, sm); sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(root, "properties.jsonl")): jsonschema.validate(json.loads(l), sp)
    except ImportError: pass
if __name__ == "__main__": main()
