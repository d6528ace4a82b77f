#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing; nothing reads this at check time)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/sfl/"
SEQF = [I + x for x in ("vector.hpp", "small_vector.hpp", "static_vector.hpp", "compact_vector.hpp", "devector.hpp", "segmented_vector.hpp", "segmented_devector.hpp")]
ORDU = [I + s + x for s in ("small_", "static_") for x in ("flat_set.hpp", "flat_map.hpp")]
ORDM = [I + s + x for s in ("small_", "static_") for x in ("flat_multiset.hpp", "flat_multimap.hpp")]
UNU = [I + s + x for s in ("small_", "static_") for x in ("unordered_flat_set.hpp", "unordered_flat_map.hpp")]
UNM = [I + s + x for s in ("small_", "static_") for x in ("unordered_flat_multiset.hpp", "unordered_flat_multimap.hpp")]
FLATF = ORDU + ORDM + UNU + UNM; PRIV = [I + "private.hpp"]; ALLF = SEQF + FLATF + PRIV
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
H = ["histories", "inputs"]; HF = ["histories", "inputs", "fault_sequences"]
T0 = "The unit tests run a few hand-written sequences of calls on fixed element values; "
p("C01", "Contiguous vectors behave as an ideal sequence",
  "vector, small_vector, static_vector and compact_vector hold, after every sequence of public operations, exactly the elements in exactly the order of an ideal mathematical sequence to which the same operations were applied. Returned iterators and references denote the element documented (first inserted, or the one after the erased), elements are contiguous from data(), and insertion moves from rvalue arguments while const arguments and source ranges are left unmodified.",
  H, "every sequence of operations from an empty or range-constructed container, every position, count and source size",
  T0 + "a defect that needs a particular combination of size, spare capacity, position and count (or a state left by an earlier operation) is not sampled.",
  SEQF[:4] + PRIV, [("insertion with and without reallocation", "insert_aux / emplace / insert(pos, first, last) in each header"), ("algorithms over uninitialized and initialized memory", I + "private.hpp")])
p("C02", "devector behaves as an ideal double-ended sequence",
  "A devector holds, after every sequence of operations at both ends and in the middle, exactly the elements and order of an ideal double-ended sequence, whatever the distribution of free space at its two ends. Returned iterators and references denote the documented element and storage stays contiguous.",
  H, "every sequence of operations; every reachable split of the free space between front and back",
  T0 + "the shift direction, reuse of free space at either end and reallocation depend on the size, position and free space left by the whole history, of which the tests visit a handful.",
  [I + "devector.hpp"] + PRIV, [("shifting towards the front or the back", "devector.hpp insert_aux and emplace"), ("recentering, reserve_front/reserve_back", "devector.hpp")])
p("C03", "Segmented containers behave as an ideal sequence",
  "segmented_vector and segmented_devector hold, after every sequence of operations, exactly the elements and order of an ideal (double-ended) sequence, for every segment size and every position of the first element inside its segment. Returned iterators and references denote the documented element.",
  H, "every sequence of operations; segment sizes 1, 2, 3; every offset of the elements over the segments",
  T0 + "segment boundaries make copy, move and insertion algorithms branch on offsets modulo the segment size, which only a systematic enumeration covers.",
  SEQF[5:] + PRIV, [("segmented iterator and segmented algorithms", I + "private.hpp"), ("segment table growth and shrinking", "segmented_vector.hpp, segmented_devector.hpp")])
FT = ("A {0} holds, after every sequence of operations, exactly the elements {1}. {2} and every lookup (find, count, contains{3}) answers as the ideal container would, for present and absent keys.")
p("C04", "Ordered unique flat containers behave as ideal sorted sets and maps",
  "small_ and static_ flat_set and flat_map hold, after every sequence of operations, exactly the elements an ideal set/map holds: sorted by the comparison object, no two equivalent keys, an insertion of an existing key leaves container and (for insert) element unchanged and reports false. Every lookup (find, count, contains, lower_bound, upper_bound, equal_range, at) and every returned iterator answers as the ideal container, for present and absent keys.",
  H, "every sequence of operations with every relative position of keys, including duplicates inside inserted ranges, under ascending and descending stateful comparators",
  T0 + "order and uniqueness are invariants of all histories; the tests insert a few fixed permutations.",
  ORDU + PRIV, [("binary search and insertion", "insert_aux / emplace / lower_bound in each header"), ("range insertion", "insert_range_aux in each header")])
p("C05", "Ordered multi flat containers behave as ideal sorted multisets and multimaps",
  "small_ and static_ flat_multiset and flat_multimap hold, after every sequence of operations, exactly the inserted and not erased elements, sorted by the comparison object; an operation never changes the relative order of the other elements, and a new element goes into the range of its equivalents (exactly before a valid hint). Every lookup and count answers as the ideal container would, and erase(key) removes exactly the equivalent elements and returns their number.",
  H, "every sequence of operations with every multiplicity pattern and relative position of keys",
  T0 + "the order among equivalent elements and hints at every position of a run are not enumerated.",
  ORDM + PRIV, [("upper_bound insertion and hints", "insert_aux / insert_hint_aux in each header")])
p("C06", "Unordered unique flat containers behave as ideal sets and maps",
  "small_ and static_ unordered_flat_set and unordered_flat_map hold, after every sequence of operations, exactly the elements an ideal set/map holds under the container's equality object, with no two equal keys; an insertion of an existing key changes nothing and reports false. Every lookup answers as the ideal container, for present and absent keys, and erase returns an iterator from which all elements not yet visited are visited exactly once.",
  H, "every sequence of operations with every equality pattern of keys",
  T0 + "swap-with-last erasure and uniqueness are invariants of all histories.",
  UNU + PRIV, [("linear search, append, swap-with-last erase", "insert_aux / emplace / erase in each header")])
p("C07", "Unordered multi flat containers behave as ideal multisets and multimaps",
  "small_ and static_ unordered_flat_multiset and unordered_flat_multimap hold, after every sequence of operations, exactly the multiset of elements inserted and not erased. Lookups and counts agree with the ideal container for present and absent keys; erase(key) removes exactly all equal elements and returns their number; erasing while iterating visits every other element exactly once.",
  H, "every sequence of operations with every multiplicity pattern",
  T0 + "swap-with-last erasure of several equal elements depends on where they stand.",
  UNM + PRIV, [("append, swap-with-last erase, erase by key", "each header")])
p("C08", "Lifetime and memory discipline of every operation",
  "No operation of any container constructs an element over a live one, destroys, copies, moves, assigns or compares a dead one, leaks an element or an allocation, writes outside its storage, or gives memory back with a pointer, count or allocator other than the one it was obtained with. After destruction every element has been destroyed exactly once and every allocation returned.",
  HF, "every sequence of operations, including those interrupted by exceptions",
  T0 + "leak and lifetime errors appear on particular paths (reallocation, shifting, exceptional exits) and mostly do not change values a test can see.",
  ALLF, [("scope guards and uninitialized algorithms", I + "private.hpp"), ("storage management", "every container header: initialize/allocate/deallocate/reset")])
p("C09", "Basic exception guarantee",
  "If an allocation, or any operation of the element, comparator, predicate or source iterator throws during any container operation, the container stays valid: size, capacity and iteration agree, every element is alive, nothing leaks, and it can be used and destroyed normally. Flat containers whose elements do not throw when moved also keep order and uniqueness, and an interrupted insertion loses none of the earlier elements.",
  ["fault_sequences", "histories", "inputs"], "an exception at each possible point of each operation in each reachable state, followed by further operations",
  "The tests throw from a few chosen operations; an exception at every event of every operation in every state, and the use of the container afterwards, is never exercised.",
  ALLF, [("scope guards, construct-before-shift", I + "private.hpp and the insertion functions of every container")])
p("C10", "Documented strong exception guarantees",
  "If reserve, reserve_front, reserve_back or shrink_to_fit throws, or a single element insertion at an end of vector, small_vector, static_vector, compact_vector or a segmented container (for devector: with elements that do not throw when moved) throws, the container is unchanged: same elements at the same addresses, and after reserve/shrink the same capacity. A length_error of any operation on a multi-pass range leaves the container unchanged.",
  ["fault_sequences", "histories"], "each point at which these operations can throw, in every reachable state, for copyable and move-only elements",
  "The tests observe success paths; a strong guarantee is a statement about every failure point.",
  [f for f in SEQF] + [f for f in FLATF if "small_" in f] + PRIV, [("reallocation builds the new storage completely before giving up the old one", "reserve, shrink_to_fit, emplace_back reallocation paths")])
p("C11", "Allocator awareness",
  "Every container with an allocator uses only its own allocator (an equal one to free what it obtained), constructs and destroys elements in its storage through it, follows propagate_on_container_{copy_assignment,move_assignment,swap} and select_on_container_copy_construction, and works with allocators that return class-type pointers. get_allocator() always returns the allocator these rules prescribe, and moving between containers with unequal non-propagating allocators transfers the elements one by one.",
  ["configurations", "histories", "fault_sequences"], "combinations of the propagation traits, equal and unequal allocators, raw and fancy pointers; every pair of small states",
  "The tests use one or two allocator types; errors show only for particular trait combinations with unequal allocators.",
  [f for f in SEQF if "static" not in f] + [f for f in FLATF if "small_" in f] + PRIV, [("assign_aux / swap_aux / constructors with allocator", "every container with an allocator")])
p("C12", "Copy, move, swap and moved-from containers",
  "Copying gives an equal independent container and leaves the source unchanged; moving gives the former content of the source; swapping exchanges contents; assignment replaces the whole former content and returns *this; self-assignment by copy and self-swap change nothing. A moved-from container is valid and fully usable (empty where the documentation says so), and move and swap of the containers that own their whole storage transfer it instead of touching elements.",
  H, "every pair of reachable states (this, other), all ways of copying, moving and swapping, followed by further operations on both",
  T0 + "the result depends on the storage state of both operands (internal or external, sizes, capacities, free space).",
  ALLF, [("copy/move constructors, operator=, swap", "every container header")])
p("C13", "Capacity, inline storage and documented reservation",
  "capacity() >= size() always; static containers never allocate and hold up to N elements; small containers use internal storage exactly while their capacity is N and do not allocate for up to N elements; compact_vector keeps capacity() == size(). reserve makes the reserved number of elements insertable without further allocation, available(), available_front() and available_back() tell truthfully how many can be pushed without allocation, shrink_to_fit returns unused memory, and no other operation except assignment, move and swap reduces the capacity.",
  H, "every reachable (size, capacity) state and every argument",
  T0 + "whether capacity bookkeeping stays truthful is an invariant of all histories.",
  ALLF, [("reserve*, shrink_to_fit, growth", "every container header")])
p("C14", "Reference and iterator stability",
  "An operation that is not documented to reallocate keeps all elements before the affected position (for double-ended containers: elements not at the affected end) at their addresses. segmented_vector and segmented_devector never move elements on push, emplace or pop at an end, reserve or shrink_to_fit; vectors with enough capacity do not move elements before the insertion position; swap and move of containers owning heap storage keep references valid.",
  H, "every operation in every reachable state",
  T0 + "addresses before and after are compared in few places, and never across all capacity and segment states.",
  SEQF + FLATF, [("in-place insertion and growth", "every container header")])
p("C15", "Iterator laws",
  "Iterators and const_iterators of every container obey the random access laws: for all positions i and j, it + (j - i), differences, comparisons, ++/--, +=/-=, [] and reverse iteration agree with indices, iterator converts to const_iterator, and nth(i)/index_of are inverse and agree with begin() + i. operator[], front(), back(), data() and at() refer to the same elements as the iterators.",
  ["inputs", "histories"], "every pair of positions (also end) in every reachable state, segment sizes 1, 2 and 3, every offset in the first segment",
  T0 + "jumps across segment boundaries forwards and backwards depend on the position in the segment.",
  PRIV + ALLF, [("normal_iterator, segmented_iterator", I + "private.hpp")])
p("C16", "Arguments that refer into the container itself",
  "Inserting, emplacing, pushing, resizing with, or (for flat containers) erasing by a reference to an element or key of the same container has the same effect as with an independent copy of that value, for every position and with or without reallocation. insert_or_assign, try_emplace and operator[] of maps accept references to own keys or values as well.",
  H, "every argument position, insertion position and count in every reachable state",
  T0 + "aliasing matters only for particular position and capacity combinations, because the element is shifted, moved or freed before it is read.",
  ALLF, [("temporary value before shifting", "emplace/insert in every container")])
p("C17", "Transparent and key lookup",
  "With a transparent comparator, find, count, contains, lower_bound, upper_bound, equal_range, at, erase, insert, try_emplace, insert_or_assign and operator[] taking a heterogeneous key give the result of the equivalent homogeneous key, including heterogeneous keys equivalent to several elements of a multi container. Only the container's own comparison object is used, const and non-const lookups agree, and no lookup modifies the container.",
  H, "every key, present or absent, in every reachable state",
  T0 + "boundaries (before the first, between, after the last) are sampled only.",
  FLATF, [("overloads for is_transparent comparators", "every flat container")])
p("C18", "Any kind of source range",
  "Construction, assign and insert from a range give the same elements whatever the category of the source iterators: single-pass input, forward, bidirectional, random access, pointers, initializer lists, move iterators, iterators over convertible values and iterators of segmented containers. Single-pass ranges are read exactly once in order, and multi-pass source elements are not modified.",
  H, "range lengths from 0, every position, in every reachable state, including capacity boundaries",
  T0 + "input-iterator paths insert element by element and reallocate in the middle of the operation.",
  ALLF, [("range constructors, assign_range, insert_range", "every container header")])
p("C19", "Documented complexity of operations",
  "The work an operation does stays within its documented complexity. Counted in element constructions, copies, moves, assignments and destructions: constant for insertion and removal at an end (amortized where documented), at most linear in the distance to the affected (devector, segmented_devector: nearer) end for one insertion or erasure elsewhere, linear in the number of elements for construction, assignment, clear, resize and reserve. A series of n insertions at an end does O(n) element operations and, for containers that grow geometrically, O(log n) allocations. Lookup in an ordered flat container compares O(log n) times, in an unordered one O(n) times; erase_if calls its predicate once per element; comparing containers of different sizes for equality compares no element.",
  H, "every operation, position and count on every size and distribution of free capacity in the bound, and long series of insertions and removals from each of them",
  "Tests check results, not operation counts; a quadratic or linear step hides in correct results.",
  ALLF, [("growth strategy, shift direction, binary search, erase_if", "every container header")])
p("C20", "Limits and bounds errors",
  "An operation whose result would exceed max_size() throws std::length_error, never allocates more than max_size(), and (for multi-pass or counted arguments) leaves the container unchanged; an operation whose result fits does not throw it (double-ended and segmented containers may give up earlier when growing near the limit). at(i) throws std::out_of_range exactly for i >= size(), and at(key) of maps exactly for absent keys.",
  H, "every operation in states around a small max_size(); every index and key in and out of range",
  T0 + "max_size is astronomically large for the allocators used in the tests, so overflow handling near it is not exercised.",
  ALLF, [("calculate_new_capacity, length checks, at()", "every container header")])
p("C21", "Relational operators, erase and erase_if",
  "==, !=, <, <=, >, >= of two containers of the same type agree with element-wise comparison (as multisets or sets for the unordered ones that provide it). sfl::erase and sfl::erase_if remove exactly the matching elements, keep the rest in order (any order for unordered containers), return the number removed, and call the predicate only on elements of the container.",
  H, "every assignment of small values to two containers and every subset of positions to remove",
  T0 + "only a few pairs of contents and one or two predicates are tried.",
  ALLF, [("non-member functions", "end of every header")])
p("C22", "Map access operations",
  "On small_/static_ flat_map and unordered_flat_map, operator[] and try_emplace insert a value for an absent key and leave an existing element untouched (arguments not consumed), insert_or_assign inserts or assigns exactly the given value, and each returns the element of the key and whether it was inserted. A failing one leaves all earlier elements in place.",
  HF, "every present and absent key, every hint, in every reachable state, with exceptions at every point",
  T0 + "argument consumption and failure atomicity are not observed.",
  [f for f in ORDU + UNU if "map" in f], [("try_emplace / insert_or_assign / operator[]", "each map header")])
p("C23", "Hinted insertion is correct for every hint",
  "insert, emplace, try_emplace and insert_or_assign with a hint give the same container (same elements, sorted, unique where required) and return an iterator to the element with the key as without a hint, for every hint from begin() to end(), right or wrong. In ordered multi containers a valid hint puts the element exactly before the hint.",
  H, "every (state, key, hint) triple",
  T0 + "wrong hints at all distances from the right position are not enumerated.",
  FLATF, [("hint checks before the binary search", "insert_hint_aux / emplace_hint in each flat container")])
p("C24", "Violated preconditions are caught by assertions",
  "With assertions enabled (NDEBUG not defined), a call whose arguments violate a precondition that the container checks - an iterator, index, position, range or hint outside [begin(), end()] or reversed, an element access or removal on an empty container, an insertion into a full static container, a swap of containers with unequal non-propagating allocators - stops in an assertion before it touches memory outside the container or changes any element; and no call that meets the documented preconditions ever triggers an assertion.",
  H, "every state and every out-of-range argument adjacent to the valid range, and every valid call",
  "Tests never call with violated preconditions, and check only a few states with assertions on.",
  ALLF, [("SFL_ASSERT at the entry of public functions", "every container header"), ("SFL_ASSERT definition", "private.hpp")])
p("C25", "The same behaviour in every build configuration",
  "With NDEBUG, with SFL_NO_EXCEPTIONS (and -fno-exceptions), with g++ and with clang++, as C++17 and C++20, every operation has the result, the element lifetimes and the storage that the ideal container prescribes: assertions contain nothing the operation depends on, and without exceptions an error that would otherwise throw (length_error, out_of_range) ends the program instead of continuing, and nothing else ends it.",
  ["configurations", "histories", "inputs"], "every operation in every reachable state, in each configuration",
  "The unit tests are built in one configuration (assertions on, exceptions on).",
  ALLF, [("SFL_ASSERT, SFL_TRY/SFL_CATCH/SFL_RETHROW and the throw_* functions", "private.hpp"), ("version-dependent code (SFL_CPP_VERSION)", "every header")])
p("C26", "Const operations can run concurrently, containers share nothing",
  "Const member functions, begin/end/find/operator[] and the other functions that the standard library treats as const, comparisons and iterator operations perform no write to the memory of the container or of anything it refers to, and no operation writes to memory of static storage duration of the library. So any number of threads may read one container at the same time, and threads may use different containers at the same time, without a data race.",
  H + ["schedules"], "every read-only operation in every reachable state, in any interleaving with any others",
  "The unit tests are single-threaded, and a data race on a hidden cache or static would not show in a single-threaded result.",
  ALLF, [("const member functions and iterators", "every container header"), ("no mutable members and no function-local statics", "every header")])
json.dump  # keep import used
props = P
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
REASONS = CLAIMED.get("not_applicable", {})
exec(open(os.path.join(V, "tools", "spec2.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec2.py")) else None
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
TECH = "explicit-state model checking of the real containers (exhaustive breadth-first exploration of operation histories with all single faults, against a reference model)"
TECHS = dict(
  C19="explicit-state model checking of the real containers: exhaustive enumeration of states and operations, operation counters checked against documented complexity bounds on every one",
  C24="explicit-state model checking of the real containers: every out-of-contract call adjacent to the valid range in every reachable state must end in an assertion, every valid call must not",
  C25="explicit-state model checking of the real containers in further build configurations, against the same reference model",
  C26="explicit-state model checking of the real containers with write-protected memory for every read-only operation and every write of every operation monitored (no writes by readers implies that all interleavings of them commute)")
TECHS = globals().get("TECHS", {}); NOTES = globals().get("NOTES", {})
NOTE = "Holds on every state, operation, argument and fault schedule within the bounds recorded in the evidence file; assumes single-threaded use, g++ 13 -O1 on x86-64, and that instrumented element/allocator/comparator types stand for user types. Larger sizes are not covered except by depth-1 runs."
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"",
         hooks=dict(guard="SFL_VERIF", enable="not needed: no hooks were added to /repo; the checks include /repo/include directly", source_commits=[]),
         checks=[dict(property=x["id"], quick_cmd=f"python3 check.py {x['id']} quick", thorough_cmd=f"python3 check.py {x['id']} thorough",
                      technique=TECHS.get(x["id"], TECH), level="model_checking", level_note=NOTES.get(x["id"], NOTE), evidence_file=f"evidence/{x['id']}.json") for x in P if x["id"] in CLAIMED["claimed"]],
         not_applicable=[dict(property=x["id"], reason=REASONS.get(x["id"], "check under construction")) for x in P if x["id"] not in CLAIMED["claimed"]],
         notes="See DESIGN.md. Known findings: KNOWN_FINDINGS.jsonl. tools/spec.py regenerates this file and properties.jsonl.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
