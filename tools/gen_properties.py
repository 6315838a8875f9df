#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
H = "include/boost/segmented_tree/seq.hpp"
P = []
def prop(id, title, statement, over, text, why, mech, state=(), observe=(), files=(H,), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
TREE = (("tree shape", "node lengths, subtree sizes, parent links, segment lengths", H),)

prop("S01", "Single insertion is an exact list edit at every position",
 "Inserting one element (insert, emplace, push_front, push_back) at any position of any sequence yields exactly the old contents with that one value added at that position: size grows by one, no other element changes, is lost, is duplicated or changes order. The returned iterator refers to the inserted element.",
 ["inputs", "histories", "configurations"], "every sequence reachable by any history, every position 0..size, every value, every segment/node capacity",
 "Tests insert into 5-element sequences or follow one seeded random history; which split, at which level, on which side of the midpoint depends on the shape and position.",
 [("insert_single_segment/leaf/branch: split at the midpoint, size propagation", H)], TREE, ["iteration, nth, operator[] and size after the call"])
prop("S02", "Single erasure is an exact list edit at every position",
 "Erasing one element (erase, pop_front, pop_back) at any valid position of any sequence yields exactly the old contents without that element: size shrinks by one and every other element keeps its value and relative order. The returned iterator refers to the element that followed the erased one, or is the end iterator.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every position, every segment/node capacity",
 "Borrowing from the left or right neighbour and merging with either, at each tree level, depend on the neighbours' fill; the tests erase in one fixed order and check only the final size and one element.",
 [("erase_single_segment/leaf/branch: borrow, merge, root collapse", H)], TREE, ["iteration, nth, operator[] and size after the call"])
prop("S03", "Bulk edits equal the corresponding list edits",
 "Constructors from a count, range or list, multi-element insert, range erase, assign, list assignment, resize and clear leave exactly the contents that the same operation on an ordinary list would leave, for every count (zero included), position and range; the range may be given by iterators of any category, over elements of any type that converts to the element type. The returned iterators refer to the first inserted element, or to the element after the erased range; an insert of nothing returns the given position.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every position, sub-range and count",
 "Tests use one position and one count per overload and ignore the returned iterators; crossings of segment and node boundaries are position dependent.",
 [("emplace_count / emplace_range / erase_range / assign_count / assign_range / resize_count", H)], TREE, ["contents and returned iterators"])
prop("S04", "Every way of reaching position i reaches the same element",
 "For every sequence and every index i, indexing, checked access, nth(i), begin advanced by i, stepping from the front or from the back, and front/back/penultimate where applicable all refer to the same element object, and index_of of each of those iterators is i. Checked access throws out_of_range exactly when i >= size; nth(i) is the end iterator for every i >= size.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every index including ones far beyond the size",
 "Tests look at indices 0 and 1 of a two-element sequence; wrong subtree counts show only at particular indices of particular shapes.",
 [("find_index_*, find_first_*, find_last_*, find_end_*", H), ("at() bound check", H)], TREE, ["addresses of the referenced elements"])
prop("S05", "Random-access iterator arithmetic is exact",
 "For every two positions a and b of a sequence (the end position included), moving an iterator from a by b-a with any of ++, --, +=, -=, +, - or [] reaches position b and its element, and the distance and all six comparisons between iterators at a and b agree with the integers a and b. The same holds for const and reverse iterators, copies of an iterator move independently, and value-initialized iterators compare equal.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every pair of positions, every iterator flavour",
 "Tests step by 1, 10, ..., 10000 from the ends and compare sums only; jumps that climb past several levels and land exactly on a boundary or on the end depend on the shape.",
 [("move_next_*, move_prev_*, move_*_count, difference, comparisons", H)], TREE, ["position and referenced element"])
prop("S06", "Segment-wise traversal covers each element exactly once, in order",
 "At every iterator the exposed contiguous block [begin, end) contains the current element, consists of consecutive elements of the sequence, and the blocks visited by moving after (or before) the current block, starting from either end, partition the sequence in order. Moving after the block by n lands n elements past its end and moving before it by n lands n elements before its last predecessor, with a consistent index, both in place and as a copy.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every position and every in-range count",
 "No test calls any of the segment-traversal members.",
 [("move_after_segment*, move_before_segment*, first/current/last_element", H)], TREE, ["pointers and indices exposed by iterators"])
prop("S07", "Iterators returned by edits are fully usable",
 "The iterator returned by any insertion or erasure behaves, for stepping in both directions, jumping, block exposure, comparison and as the position of a further edit, exactly like an iterator freshly obtained for the same index. Chained edits through returned iterators therefore never lose or misplace an element.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every chain of up to three edits through returned iterators",
 "Tests never use a returned iterator; a stale block, node or offset inside one is visible only after specific splits or merges.",
 [("iterator fields maintained through insert_single_*/erase_single_*", H)], TREE, ["iterator behaviour after the edit"])
prop("S08", "The tree stays balanced and half full",
 "The height is 0 exactly when the sequence is empty and otherwise never exceeds the logarithmic bound implied by half-full nodes, for every history of insertions and erasures; in particular erasing shrinks the height again. The number of memory blocks held is likewise bounded by the half-full rule for the current size.",
 ["histories", "inputs", "configurations"], "every history of insertions and erasures at any positions",
 "Tests check the height of the empty and one-element sequence only; degradation does not change contents.",
 [("segment_min/base_min thresholds; root creation and collapse", H)], TREE, ["height() and the allocator's live block count"])
prop("S09", "Every block is allocated once and released once, nothing leaks",
 "Every block obtained from the allocator is returned exactly once, with the same element count and to an equal allocator, and nothing that was not obtained is ever returned; the element-destroying operations release what they no longer need. After clear or destruction, whatever the history, no block is outstanding, and an empty sequence holds none.",
 ["histories", "inputs", "configurations"], "every history of the public operations ending in clear or destruction",
 "Tests use malloc-backed allocators that ignore the count and never account for blocks.",
 [("allocate_*/deallocate_*/purge_*; merges and root collapse", H)], (), ["a recording allocator"])
prop("S10", "Elements live exactly as long as they are in the sequence",
 "Every element object is constructed exactly once on raw storage and destroyed exactly once; no operation reads, assigns to, moves from or destroys storage that holds no live element, and between operations the number of live objects equals the size. No operation touches memory outside live blocks or lets uninitialised data influence behaviour.",
 ["histories", "inputs", "configurations"], "every history of public operations, every capacity, trivially copyable and other element types",
 "The tests' element types are integers and short strings in ordinary builds; reads of dead or raw storage go unnoticed.",
 [("construct/destroy/assign discipline in insert_single_segment, erase_single_segment, construct_range_segment, purge_segment", H)], (), ["an element type that records its lifetime per address; memory access checks"])
prop("S11", "Allocation failure never corrupts, leaks or half-applies",
 "If any memory allocation made by a single-element insertion fails, the exception reaches the caller and the sequence has exactly its previous contents, with nothing leaked. For multi-element operations, construction and copying, a failed allocation leaves every involved sequence valid, holding only whole elements, destructible without leak, and a failed construction leaks nothing.",
 ["fault_sequences", "histories", "inputs"], "every choice of which allocations fail, in every reachable state, at every position",
 "The retry test fails allocations at random but its allocator leaks undetected and it checks only the final checksum.",
 [("alloc_nodes_single pre-allocates and rolls back", H)], (), ["contents, outstanding blocks, live elements after the exception"])
prop("S12", "Throwing element constructors and assignments keep the guarantees",
 "If the construction or copy of the new element throws, single-element insertion leaves the sequence exactly as before (strong guarantee), and so does resize to a given count with value-initialised elements. Multi-element insertion, assignment and construction from values give the basic guarantee: no leak, no double destruction, a valid sequence whose contents are whole elements, and destruction is clean.",
 ["fault_sequences", "histories", "inputs"], "every choice of which element constructions or copy assignments throw (moves do not throw), every reachable state and position",
 "Only one test throws from construction and it observes neither leaks nor intermediate contents.",
 [("value is built before any structural change; delegating constructors", H)], (), ["contents, outstanding blocks, live elements after the exception"])
prop("S13", "Copies are equal, independent and leave the source alone",
 "Copy construction and copy assignment make the target equal to the source whatever the target held before, never change the source, and afterwards neither is affected by edits of the other. Self-assignment changes nothing.",
 ["inputs", "histories"], "every pair of reachable sequences (longer, shorter, empty), every later edit",
 "Tests copy between two fixed short sequences and never edit a copy or self-assign.",
 [("copy constructors, operator=(seq const&), assign_range", H)], (), ["contents of both sequences"])
prop("S14", "Moves and swaps transfer ownership without touching elements",
 "Move construction, move assignment and swap, whenever the allocators are equal or propagate, transfer the whole contents without copying, moving or relocating any element, so iterators and references stay valid and refer to the same elements in the new owner. A moved-from sequence is empty and reusable, self-move leaves a valid sequence, and everything the target held before is released. Containers of sequences therefore grow, shift, sort and swap them without touching their elements.",
 ["inputs", "histories"], "every pair of reachable sequences",
 "Tests compare contents after moving one 5-element sequence and cannot see element copies, leaks or dangling iterators.",
 [("steal, move constructors, move_assign, swap", H)], (), ["contents, element addresses, element-operation counts, outstanding blocks"])
prop("S15", "Memory always belongs to the right allocator",
 "Each sequence allocates and releases only with its own current allocator: after copy, move, allocator-extended construction and swap, for every combination of propagation traits and of equal or unequal allocators, the allocator each sequence reports is the one the standard container rules prescribe, and every block is released through an allocator equal to the one that provided it. With unequal non-propagating allocators a move transfers the elements one by one.",
 ["configurations", "inputs", "histories"], "every combination of propagation traits, equal/unequal allocator states, pairs of reachable sequences",
 "The tests' allocators all compare equal and do not propagate.",
 [("copy_assign_alloc, move_assign_alloc, move_assign, swap_allocator, select_on_container_copy_construction", H)], (), ["allocator identity recorded per block"])
prop("S16", "Comparisons are lexicographic",
 "For every two sequences, == holds exactly when sizes and all elements are equal, < is the lexicographic order of the contents, and !=, >, <=, >= are consistent with them.",
 ["inputs"], "every pair of reachable sequences with any element values",
 "The operators are not tested at all.",
 [("operator==, operator< and the derived operators", H)], (), ["returned booleans"])
prop("S17", "Sort and merge give stable sorted permutations",
 "sort leaves a permutation of the old contents that is ordered by the comparator with equivalent elements in their old order; merging two sorted sequences leaves the stable sorted union in the target (target elements before equivalent source elements) and the source empty.",
 ["inputs", "histories"], "every reachable sequence(s) and all element values, including duplicates, with default and custom comparators",
 "Tests sort five distinct integers and merge one fixed pair; stability is never observed.",
 [("sort, merge", H)], (), ["contents including identity tags"])
prop("S18", "Splice transfers exactly the named elements",
 "Splicing a whole sequence, one element or a range to any position inserts exactly those elements in order at that position and removes exactly those from the source, leaving all other elements of both in place. Elements are transferred by move, never by copy.",
 ["inputs", "histories"], "every pair of reachable sequences, every target position, every source element or range",
 "Tests use one position of two 5-element sequences and cannot tell a copy from a move.",
 [("splice overloads", H)], (), ["contents of both sequences, element copy counts"])
prop("S19", "remove, remove_if, unique and reverse equal their list meaning",
 "remove and remove_if erase exactly the matching elements and keep the others in order, unique keeps exactly the first element of every run of equivalent neighbours, and reverse yields the contents in opposite order, for all element values and sizes.",
 ["inputs", "histories"], "every reachable sequence and all element values, with default and custom predicates",
 "Tests run each on one fixed sequence; the kept/erased pattern decides which segments shrink or merge.",
 [("remove, remove_if, unique, reverse over iterators plus range erase", H)], (), ["contents"])
prop("S20", "Arguments may refer to elements of the same sequence",
 "Passing a reference to an element of the sequence itself as the value of a single insertion (copying, moving in place, emplacing), of a counted insertion, of resize or of remove has the same effect as passing a separate equal value. The reference is never read after the element it names was moved or destroyed.",
 ["inputs", "histories"], "every reachable sequence, every element referenced, every position and count",
 "No test passes an element of the sequence to itself.",
 [("value taken by copy before structural change", H)], (), ["contents, lifetime records"])
prop("S21", "Single edits and lookups cost logarithmic work",
 "One insertion or erasure performs a number of element moves bounded by a small multiple of the segment capacity, whatever the size, and at most one block allocation (insertion) or release (erasure) per tree level plus one new root; lookups, iteration and iterator arithmetic perform no element operation and no allocation. Bulk release and traversal visit every element at most a constant number of times. The total work of one lookup, jump, distance, comparison, insertion or erasure is bounded by a constant times height and node capacity (plus segment capacity for edits), of a full traversal or clear by a constant per element, and of a move or swap by a constant.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every position",
 "Tests observe results only; an accidental linear shift or copy of the whole sequence passes them.",
 [("per-level split/merge; find_* descend one path", H)], (), ["element-operation counts, allocator call counts, basic blocks executed"])
prop("S22", "Fast paths and allocator hooks do not change behaviour",
 "For the same history, sequences of trivially copyable elements, of elements with full special members, and of elements whose allocator supplies its own construct hook end with the same contents, size and height. When the allocator supplies a construct hook, every element object is created through it.",
 ["configurations", "histories", "inputs"], "every short history of edits, every element kind and capacity",
 "The bytewise paths are chosen by type traits at compile time; tests check the traits for two types but never compare outcomes.",
 [("assign_forward/backward_segment, construct_range_segment dispatch, is_alloc_move_construct_default", H)], (), ["contents and hook call counts"])
prop("S23", "Single-pass input ranges are read once, in order",
 "Construction, assignment and insertion from a single-pass input range read each source element exactly once, in order, never read past the end and never revisit a position, and the result equals the range's contents.",
 ["inputs", "histories"], "every reachable target, position and range length",
 "Tests pass only multi-pass ranges.",
 [("emplace_range, assign_range", H)], (), ["a recording input iterator"])
prop("S24", "Read-only operations never write",
 "Observers of a sequence (size queries, element access, iterator creation, movement and dereference, comparison, copying from it) write neither to the sequence object nor to any memory it owns or to static data of the library, so any number of threads may read the same sequence concurrently in any interleaving.",
 ["schedules", "inputs", "histories"], "every reachable sequence, every observer and argument; every interleaving of readers",
 "Tests are single threaded and a write of an equal value is invisible to them.",
 [("const members delegate to the find_*/move_* functions", H)], (), ["stores to memory reachable from the sequence"])
prop("S25", "Workload helpers stay in range and visit what they claim",
 "The bounded random helper, used with a result type at least as wide as the generator's, returns a value below its bound for every generator output and rejects exactly so many outputs that the accepted ones divide evenly over the results; the accumulate helpers visit exactly the elements their stride defines, and the insert/erase drivers apply the recorded edits in order and undo them in reverse.",
 ["inputs"], "every generator output and bound, every container content and stride, every valid edit list",
 "Tests use a few fixed seeds and compare checksums.",
 [("bounded_rand", "common/common.hpp"), ("accumulate_*", "common/iterator.hpp"), ("insert_single/erase_single", "common/single.hpp"), ("insert_range/erase_range", "common/range.hpp")],
 (), ["returned values and container contents"], files=("common/common.hpp", "common/iterator.hpp", "common/single.hpp", "common/range.hpp"))

prop("S26", "Multi-element operations have their documented cost",
 "Inserting or erasing M elements of N, and splicing them between sequences, takes work bounded by M times a logarithm of N (plus one segment per touched end), not by N; splicing a whole sequence is bounded by the smaller part times the height. Assignment, comparison, reverse, clear and removal are linear with a constant per element, merge makes a linear and sort an N log N number of comparisons.",
 ["inputs", "histories", "configurations"], "every reachable sequence, position and count, every ordering of the values",
 "Tests observe results only; a quadratic loop gives the same result on the sizes they use.",
 [("insert/erase/assign/splice/sort/merge/reverse/comparison members", H)], (), ["basic blocks executed, comparator and element-operation counts"])
prop("S27", "Exceptions from the caller's callbacks leave whole sequences",
 "When a predicate, comparator, input iterator or comparison of elements supplied by the caller throws at any of its calls during remove, remove_if, unique, sort, merge, range insertion, range assignment or range construction, the exception reaches the caller, no element object leaks or dies twice, every sequence involved stays a valid run of whole elements and usable, a failed construction leaks nothing, a merge keeps the total number of elements, and source elements stay untouched.",
 ["fault_sequences", "inputs", "histories"], "every callback invocation as the throwing one, every reachable sequence and all element values",
 "Tests never throw from a callback.",
 [("algorithms that call user code between structural edits", H)], (), ["lifetime records, contents, size"])
prop("S28", "Every route to an element reads and writes the same object",
 "References and pointers obtained through subscript, at, front, back, data access, nth, and forward, backward and reverse iterators (by * and by ->) to the same position denote the same object: a write through one route changes exactly that element and is seen through every other. Sorting and reversing keep all iterators valid, each at its position.",
 ["inputs", "histories"], "every reachable sequence, every pair of routes and positions, all values written",
 "Tests read through one route at a time and never keep an iterator across sort or reverse.",
 [("at/operator[]/nth/begin/end/rbegin/iterator dereference", H)], (), ["values read back through every route"])

prop("S29", "Sequences work right up to max_size() elements",
 "max_size() is never below a size the sequence reaches, and whatever the allocator's size_type and node capacities, a sequence of any size up to that type's largest value behaves exactly like a smaller one: lookups, iterator arithmetic and traversal, every edit, bulk edit, copy, splice, sort and merge whose result still fits are exact, with no wrap-around in sizes, counts or indices.",
 ["configurations", "inputs", "histories"], "every allocator size_type, every size up to its largest value, every operation whose result fits",
 "Tests use the 64-bit default size_type and at most some ten thousand elements, so no intermediate sum ever comes near a limit.",
 [("subtree sizes and counts kept in the allocator's size_type", H)], TREE, ["contents, indices and iterators near the limit"])
prop("S30", "Elements are copied only when asked to, and never from a source to itself",
 "Insertion of an rvalue, emplacement, erasure, resize by default-constructed elements, sort, reverse, merge, splice, predicate removal, swap, every move and the insertion of moved-from ranges copy no element, whether or not moves are noexcept; rvalues and move ranges are moved from. Insertion, assignment or construction from an lvalue, count, range or sequence makes exactly one copy per element given (plus at most one protective copy of a single value) and leaves its sources unchanged. No element is ever assigned to itself and no moved-from element stays in a sequence.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every position, count and range, equal and unequal allocators, throwing-declared and noexcept moves",
 "Tests use values for which copy and move look alike and observe no source afterwards.",
 [("move/forward in the emplace, insert, splice, erase and assignment paths", H)], (), ["copies, moves and self-assignments counted by the element type, state of the sources"])
prop("S31", "Standard algorithms on the iterators give what they give on an array",
 "Applied to any sub-range [i, j) of a sequence, the standard library's algorithms (rotate, reverse, copy, copy_backward, swap_ranges, fill, sort, stable_sort, partial_sort, nth_element, heap operations, partition, inplace_merge, binary searches, unique, remove_if, permutations, searches), the insert iterators, reverse iterators, advance/distance/next/prev, swapped iterators and range-based loops leave the same elements in the same order, and return the same position, as over an array of the same elements.",
 ["inputs", "histories", "configurations"], "every reachable sequence, every sub-range, every element value the outcome of the algorithm depends on",
 "Tests use the iterators in hand-written loops only; algorithms combine jumps, comparisons, differences and swaps of many live iterators.",
 [("iterator_t and its traits, move_iterator_count, difference", H)], (), ["algorithm over the sequence against the same algorithm over an array"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
