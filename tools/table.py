CB = "callbacks of the Node trait"
EXEC = "Evidence of executions only: what the monitors observed on the generated, hostile and stress workloads; trusts the harness' reference models and its Node implementations."

prop("C01", "Sharing-aware functions decide equality of any finite graphs exactly",
 "cycle_safe::equiv, cycle_safe::precheck_equiv, robust::equiv, robust::precheck_equiv and every generic instantiation that uses the interleave mode report equivalence if and only if the two graphs unfold to the same (possibly infinite) tree of node values and amounts of edges, nodes with equal ids counting as equal by definition. This holds for every finite graph - cyclic, sharing, degenerate, deep or wide - and does not depend on the random numbers drawn, on the interleave constants, on the hash function, nor on the order of the arguments. In particular a difference that is reachable only through shared or cyclic structure is never missed, and none is ever invented.",
 ["inputs", "schedules", "configurations"], "all pairs of finite graphs, all draws of the random numbers (which choose the schedule of fast and slow phases), all constants",
 "The tests compare a few dozen fixed shapes with one fixed generator and the default constants; a schedule-dependent wrong answer needs a specific draw on a specific shape.",
 [CS, EC, G, RO], [M_MAIN, M_INT, M_UF, M_PRE], ["returned value"],
 "differential runtime oracle (partition refinement on the unfoldings) over generated and hostile graphs with scripted random numbers", EXEC)

prop("C02", "The plain functions are exact wherever the traversal is finite",
 "basic::equiv, deep_safe::equiv, wide_safe::equiv, and the limited_equiv functions whenever they do not report that the limit was reached, return on acyclic graphs (and on any graphs whose pairwise traversal ends) exactly what a plain pairwise traversal in their documented order gives: equivalence if and only if the unfoldings are the same. All functions of the crate, plain or sharing-aware, agree on equivalence wherever the plain ones terminate.",
 ["inputs"], "all pairs of graphs with a finite pairwise traversal, all limits, all comparison, id and index types",
 "The tests use a handful of shapes per module and compare functions with each other only on those.",
 [B, DS, WS, G, U], [M_MAIN, M_CALL, M_LAZY, M_ITER], ["returned value"],
 "differential runtime oracle (naive traversal) on generated graphs", EXEC)

prop("C03", "The value returned is that of the first difference in traversal order",
 "When the graphs differ, the value returned is exactly the comparison value of the first inequivalent pair that the traversal order reaches (depth-first preorder, or breadth-first, with edges by increasing index): the value given for those two nodes, with the first argument's node on the left, or the ordering of their amounts of edges (Less when the first argument's node has fewer). For breadth-first functions this is exact for every graph, for depth-first ones for every acyclic graph, whatever sharing was detected; on cyclic graphs a depth-first function's value is always that of some pair of counterparts that really differ. The precheck never changes which difference is reported.",
 ["inputs", "schedules"], "all pairs of differing graphs, all schedules of the interleave, all comparison types",
 "The tests check a few orderings on small shapes; that skipping of shared structure never changes which difference comes first needs arbitrary sharing and schedules.",
 [G, B, DS, WS, CS, RO], [M_MAIN, M_ITER, M_LAZY, M_CALL, M_INT], ["returned value, with a comparison type that names the two nodes"],
 "runtime oracle: reference traversal gives the first difference, values carry the identity of the nodes", EXEC)

prop("C04", "Orderings are reflexive, antisymmetric and transitive",
 "With a comparison type that orders the nodes' own values totally, comparing a graph with itself or with any copy gives equal, swapping the arguments reverses the result and never turns a difference into equality, and for three graphs x<=y and y<=z imply x<=z, for every function of the crate. Equality is transitive and consistent with the ordering.",
 ["inputs"], "all pairs and triples of graphs, all functions",
 "Laws over pairs and triples of graphs; the tests never compare a pair in both directions systematically, nor triples.",
 [G, LI, B, DS, WS, CS, RO], [M_MAIN, M_ITER, ("Cmp for Ordering", LI)], ["returned Ordering"],
 "runtime metamorphic oracle on pairs in both directions and on triples", EXEC + " Known finding: depth-first sharing-aware functions are not transitive on differing cyclic graphs.")

prop("C05", "Traversal: documented order, true counterparts, nothing omitted wrongly",
 "The pairs of nodes visited are always counterparts (reached by the same path from the roots), visited in documented order - depth-first preorder with the call-stack and the stack mode, breadth-first with the queue mode, siblings by increasing index - and the comparison ends immediately at the first inequivalent pair. No pair is omitted, except those below counterparts that are identical or, with the interleave mode, that are already known to be equivalent (related through counterparts whose edges were already followed in this comparison); the plain modes omit nothing but below identical nodes. No pair of edges is followed twice for the same occurrence.",
 ["inputs", "schedules"], "all graphs, all functions, all schedules of the interleave",
 "The tests look at results and at a few counts; the order and completeness of a traversal are properties of whole histories.",
 [G, CS, B, DS, WS, U], [M_MAIN, M_ITER, M_LAZY, M_INT, M_UF], [CB],
 "offline trace checker over the recorded history of visited pairs, with a congruence closure as the oracle of what may be skipped", EXEC)

prop("C06", "Node callbacks: the documented contract is kept towards the implementor",
 "On every node object, get_edge is called with indexes incrementing one by one from the default (zero), at most twice for each index, and never beyond the index for which it returned None. equiv_modulo_edges is called only on counterparts that are not identical, with the first argument's node as self, and at most once for each occurrence of a pair; edges of identical counterparts, or of ones whose own values differ, are never asked for.",
 ["inputs", "schedules"], "all graphs, all functions, all schedules",
 "The documented limit on calls was broken in the original code (fixed) without any test noticing; it needs the callbacks to be monitored, on shapes with unequal amounts of edges in the middle of a traversal.",
 [G, LI, U], [M_MAIN, M_ITER, M_LAZY], [CB],
 "online monitor inside the node type, on every callback", EXEC)

prop("C07", "Limited comparison: the limit is exact, for every ticker type",
 "limited_equiv with limit n returns LimitReached if and only if the plain traversal needs to visit more than n pairs of nodes (of any kind, leaves and identical ones included) to decide, and otherwise returns what the unlimited function returns, having visited at most n pairs; it then never continues past the limit. This holds for each unsigned integer type and at its extreme values (0, 1, exact, one less, maximum), and cyclic graphs always end with a difference or LimitReached.",
 ["inputs"], "all graphs, all limits of all six ticker types, three traversal modes",
 "The tests try a few limits with u32 on one mode.",
 [B, DS, WS], [M_LIM, M_MAIN], ["returned value", CB],
 "runtime oracle: exact count of pairs by reference traversal, limits around it", EXEC)

prop("C08", "The precheck is transparent and cheap",
 "precheck_equiv and generic::precheck_interleave::equiv give the same answer as the corresponding comparison without precheck, visiting at most PRECHECK_LIMIT pairs before falling back, and the fallback starts over from the roots with nothing left over from the precheck. When the precheck decides - exactly when the traversal needs at most PRECHECK_LIMIT pairs - no id is hashed, no random number is drawn and no table is created; when it does not, the interleave decides the result.",
 ["inputs", "configurations"], "all graphs with sizes around the limit, all combinations of recursion modes for the two parts, all PRECHECK_LIMIT values",
 "The tests use only the limit of 400 on large-or-tiny shapes; what is left over from an aborted precheck matters only when it aborts in the middle of particular shapes.",
 [G, CS, RO, DS, WS], [M_PRE, M_LIM, ("RecurQueue::reset, RecurStack::reset", DS)], [CB, "hash calls", "draws"],
 "trace monitor of restart point, hashing, draws; differential oracle", EXEC)

prop("C09", "Sharing-aware functions always end, with bounded work",
 "On every finite graph, the functions that use the interleave mode return, having visited at most 1 + d*(m + (FAST_LIMIT_MAX+1)*(m/SLOW_LIMIT)) pairs plus PRECHECK_LIMIT, with m one less than the number of distinct nodes with edges, d the greatest amount of edges, and a SLOW_LIMIT of zero counting as one. So the work is linear in the size of the graph for fixed constants, even on degenerate graphs (whose unfolding is exponential) and cyclic graphs (whose unfolding is infinite), whatever random numbers are drawn.",
 ["inputs", "schedules", "configurations"], "all finite graphs, all random numbers, all constants (including the extremes 0 and 65535)",
 "Termination and worst-case bounds over all schedules; with some legal constants the original code never ended (fixed).",
 [CS, EC, G], [M_INT, M_UF], [CB, "count of visits"],
 "runtime budget monitor against the analytical bound, under adversarial shapes, constants and scripted draws", EXEC)

prop("C10", "Call-stack usage is bounded",
 "deep_safe, wide_safe and robust functions, and generic instantiations with the queue or stack recursion mode, use a constant amount of call stack whatever the depth, width, sharing or cycles of the graphs, including while dropping everything at the end. The functions that recur on the call-stack use an amount proportional to the depth of the traversal, which with the interleave mode is bounded by the number of distinct nodes and does not grow along already-known shared or cyclic structure; the equivalence-class structures never recur deeply.",
 ["inputs", "schedules"], "all depths and shapes up to millions of nodes, all schedules",
 "The tests have some deep shapes with the default stack size, so only very gross regressions overflow; drop recursion and shape-dependent growth are not measured.",
 [DS, WS, RO, G, EC, U], [M_LAZY, M_UF, M_MAIN, M_INT], ["stack pointer at each callback", "overflow of a small thread stack"],
 "stack-depth monitor at every callback on small thread stacks", EXEC)

prop("C11", "Memory usage is bounded as documented",
 "The queue mode keeps at most the pairs of sibling lists still to be visited of about one level (very deep graphs take very little memory), the stack mode at most those of the current path (very wide graphs take very little, and exhausted lists of edges are removed at once, giving the analogue of tail-call elimination for long lists whose last edge is the tail); edges are generated lazily, never all of a node's at once. The interleave mode's table holds each distinct branch node's id at most once. Nothing else grows with the graphs.",
 ["inputs", "schedules"], "all shapes (long lists both ways, wide, deep, degenerate), all schedules",
 "No test measures memory.",
 [U, DS, WS, G, EC], [M_LAZY, M_ITER, M_UF], ["live node objects", "live ids", "counting allocator"],
 "online monitor of live node objects, ids and heap bytes against the reference traversal's pending set", EXEC)

prop("C12", "Everything is released, however the comparison ends",
 "When a comparison returns - equivalent, different, or LimitReached - or when any callback panics at any point, every node, id and allocation that the comparison had acquired is released exactly once, and nothing is retained (no reference cycles among equivalence classes, no global state). The panic propagates unchanged to the caller.",
 ["inputs", "fault_sequences", "schedules"], "all graphs, all functions, a panic at each callback",
 "No test injects a panic or counts drops.",
 [G, EC, U, DS, WS], [M_UF, M_LAZY, M_MAIN], ["drops of nodes and ids", "counting allocator", "panic payload"],
 "leak and double-drop accounting with fault injection at every callback", EXEC)

prop("C13", "Custom descend modes are obeyed exactly",
 "With any DescendMode: do_traverse is asked once for every pair of counterparts, before anything is asked of the nodes, and do_edges once for every pair of non-identical equivalent counterparts that have edges, with those two nodes in argument order. An answer of false skips exactly that pair (or exactly its descendents) and nothing else, treating it as equivalent; an error at any call ends the comparison immediately, returns exactly that error converted, and no further callback of any kind happens.",
 ["inputs", "fault_sequences"], "all graphs, all sequences of answers, an error at every single call, three recursion modes",
 "The tests exercise only the crate's own modes; a wrong reaction to an error needs an error at a specific point.",
 [G, B, DS, WS], [M_MAIN, M_CALL, M_LAZY], ["DescendMode calls", CB, "returned error"],
 "fault enumeration: scripted answers and errors at every call point, judged against a reference traversal", EXEC, level="fault_enumeration")

prop("C14", "Custom recursion modes are obeyed, and the edges iterator is sound",
 "With any RecurMode implementation that keeps its documented contract (descending at once, later, in any order, or partially erroring), the comparison decides equivalence exactly, an error or an inequivalent value from recur or next ends the comparison immediately with exactly that (converted) result, and next is consulted after each equivalent pair until it gives None. The edges iterator given to recur is lazy and finite: it yields the pairs of children in increasing-index order, first argument's child first, then at most one Err with the ordering of the amounts of edges, then None forever, whichever methods of iterators it is used through. Reusing a recursion mode through Equiv::from or into resets it first, and custom Table, Rc and random-number types are used only through their traits.",
 ["inputs", "fault_sequences", "configurations"], "all graphs, all contract-keeping recursion modes, an error at every call",
 "The tests have one custom recursion mode (a bounded stack); the original iterator yielded Err forever (fixed), which no test saw.",
 [G, B, DS, WS], [M_MAIN, M_ITER, M_PRE], ["RecurMode calls", "items of the edges iterator", "returned value or error"],
 "runtime monitor on custom recursion modes (eager, lazy, random-order, hybrid, erroring) against the reference equality", EXEC)

prop("C15", "Known-equivalent bookkeeping is exactly an equivalence closure, and fast",
 "The interleave mode's slow phase answers that descendents may be skipped if and only if the two ids are related by the reflexive-symmetric-transitive closure of the pairs it was previously asked about in its slow phases (identical hashes, table and pointer types notwithstanding); asking relates them. Each such query costs amortised near-constant time - a logarithmic number of steps at worst, and repeated queries of the same nodes become constant - because classes are merged smaller into larger and paths are shortened.",
 ["histories", "inputs"], "all sequences of queries over any number of ids, all Table and Rc implementations",
 "The unit test makes some 15 queries on 7 keys; wrong merges or lost path shortening need particular long histories.",
 [EC, CS], [M_UF], ["answers of the descend mode", "dereferences of a counting Rc"],
 "online checker: congruence-closure model plus counted pointer dereferences on adversarial union histories", EXEC)

prop("C16", "The interleave follows its schedule of slow and fast phases",
 "A comparison in interleave mode starts in the slow phase, which lasts until SLOW_LIMIT (at least one) consecutive pairs with edges were not already known to be equivalent, each known one restarting the count; then, at the next pair with edges, exactly one random number r in 0..=FAST_LIMIT_MAX is drawn, and that pair and the next r ones are descended unconditionally, without consulting the table, before the slow phase resumes. Leaves, identical pairs and unequal pairs do not count, and the defaults are 400, twice the precheck limit, and a tenth of the precheck limit.",
 ["schedules", "histories", "configurations"], "all histories of known and unknown pairs, all constants, all random numbers",
 "The schedule is invisible to the tests, which only see results.",
 [CS], [M_INT], ["table lookups", "draws with their bound", "answers of the descend mode"],
 "online schedule automaton over table lookups and draws", EXEC)

prop("C17", "Random-number generators give every number of the range and none else",
 "Each provided generator returns, for every exclusive end from 1 to 65535, only numbers below it, never fails, and over repeated draws from a default-constructed instance covers the range without gross bias or short repetition; the default generator is the highest-priority enabled one.",
 ["inputs", "histories"], "every bound, long histories of draws, every generator",
 "The tests draw only through comparisons.",
 RNGS, [("NumberGenerator::rand_upto", RN)], ["values drawn"],
 "exhaustive bounds with runtime range, coverage and uniformity monitors", EXEC)

prop("C18", "RefId identifies nodes by address, consistently across all its traits",
 "Two RefId values are equal exactly when their targets have the same address and, for fat references, the same metadata; what is hashed is the same exactly for equal ones; and all comparison operators (==, !=, <, <=, >, >=, cmp, partial_cmp, max, min) agree with one total order, for every kind of pointer (&T, &mut, Box, Rc, Arc, slices, str, trait objects). It never compares the pointed-to values, and while the algorithm holds one its target stays alive, so distinct live nodes are never taken for identical.",
 ["inputs", "histories"], "all pointer kinds and aliasing patterns, graphs generated lazily with nodes that live only through their ids",
 "The tests use RefId with plain references only.",
 [U, EC], [("RefId trait implementations", U)], ["trait results", "hash values", "returned value on lazily generated graphs"],
 "runtime law checker over all pairs of a zoo of pointers; lazily generated graphs with address reuse", EXEC)

prop("C19", "Edge indexes work to the very end of every index type",
 "For every provided integer index type, increment gives the next value and None exactly at the maximum, and nodes with as many edges as the type can number (0 up to its maximum) are compared completely, ending after the last representable index without overflow, wrap-around or repetition. Custom index types, including non-numeric ones, are used only through their documented traits, starting from their Default.",
 ["inputs"], "all values of small types and the extremes of the others; nodes with full-capacity amounts of edges; custom index types",
 "The tests never have a node with more edges than a few, far from the maximum of an index type.",
 [LA, G], [("Step for the integer types", LA), M_ITER], ["increment results", "indexes asked of get_edge"],
 "exhaustive increments and full-capacity nodes under the callback monitor", EXEC)

prop("C20", "Comparisons are isolated from one another",
 "Each call's result depends only on the graphs as they are during that call: repeating it, running it after others (with other graphs, with the same ids but changed data, after ones that ended by limit, error or panic), inside a callback of another comparison, or concurrently on other threads (also on the same graphs) gives the same result as in isolation, having visited the same pairs (with a random-number generator whose state is its own, as the default one's is). The comparison never modifies the graphs.",
 ["histories", "schedules", "fault_sequences"], "all sequences, nestings and concurrent mixtures of comparisons",
 "Every test makes its own comparisons in isolation.",
 [CS, EC, G, RO] + RNGS[3:], [M_INT, M_UF, M_PRE], ["returned values"],
 "runtime oracle on histories: mixed, nested, concurrent and after-panic comparisons against the isolated answers", EXEC)

prop("C21", "No panic or overflow of the crate's own, however hostile the use",
 "The crate never panics, aborts, overflows an integer or loops forever on its own account - with debug assertions and overflow checks on - for any graphs, any constants within their documented types, any limits, and any Node, Id, RNG or Table implementation that returns, even one that breaks its contract (inconsistent edges, ids, values, hashes or out-of-range random numbers) as long as the data it presents is finite.",
 ["inputs", "configurations", "fault_sequences"], "all legal configurations; inconsistent node implementations over finite data",
 "The tests use well-behaved nodes and the default constants.",
 [G, CS, EC, B, U], [M_INT, M_LIM, M_UF, M_ITER], ["panics", "budget of callbacks"],
 "stress with lying callbacks on a build with debug assertions and overflow checks", EXEC)

prop("C22", "Same answers in every feature, generator and build configuration",
 "Every function available in a configuration (each random-number feature alone or combined, std, alloc only, core only, debug or release build) gives exactly the same answers and visits as in any other, up to the random schedule, and the crate compiles in each documented combination of features.",
 ["configurations", "inputs"], "all documented feature combinations and build profiles, all graphs",
 "The tests run in one configuration at a time and nothing compares them.",
 [LI, "Cargo.toml", CS] + RNGS, [("cfg_if selection of the generator and of the modules", RN), M_MAIN], ["digests of answers over a fixed workload"],
 "differential execution: one workload, every configuration, digests compared", EXEC)

prop("C23", "No undefined behaviour, memory errors or data races",
 "Running any function of the crate on any graphs, with plain references, Rc, Arc and RefId ids, on one thread or many, causes no undefined behaviour, invalid or leaked memory, or data race, also when a callback panics.",
 ["inputs", "schedules", "fault_sequences"], "all executions",
 "Ordinary tests cannot see undefined behaviour; the crate forbids unsafe code, but relies on its dependencies and on the allocator.",
 [EC, U, G, "Cargo.toml"], [M_UF, M_LAZY], ["Miri, AddressSanitizer, LeakSanitizer, ThreadSanitizer"],
 "Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer (thorough: MemorySanitizer) watching a workload of real pointers, threads and panics", EXEC)
