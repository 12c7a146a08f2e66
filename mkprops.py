#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the single source of the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

HK = "node hash keys (guarded by LBDD_SIM in src/bdd_node.cpp)"
p("C01", "Boolean operations compute the exact function in every history",
  "Conjunction, disjunction, exclusive-or, negation, if-then-else and (negated) projection - in binary, variadic, iterator-range and operator form - return a handle that denotes exactly the named Boolean function of the operands' functions. "
  "This holds whatever operations, handle releases and garbage collections happened before on that manager, for every draw of hash keys, memory layout and content of uninitialised memory.",
  ["histories", "schedules", "inputs", "configurations"],
  "all interleavings of client operations, releases and collections on one manager; all hash key draws and heap layouts; all operands",
  "The tests run a handful of fixed formulas on a fresh manager; results depend on memo cache, unique table and node reuse state left by earlier operations and on random hash keys, which tests neither vary nor control.",
  ["src/bdd_mgr.cpp", "include/bdd_mgr.h", "src/bdd_memo_cache.cpp", "src/bdd_var.cpp"],
  [("and_rec/or_rec/xor_rec/ite_rec/negate recursion", "src/bdd_mgr.cpp"), ("operation memo cache", "src/bdd_memo_cache.cpp"), ("unique table lookup/insert", "src/bdd_var.cpp unique_find")],
  ["node_ref::evaluate", "node_ref low/high/variable"], HK,
  [("memo cache", "results of earlier operations, keyed by node addresses", "include/bdd_memo_cache.h memos"), ("unique table", "one hash table of nodes per variable", "include/bdd_var.h base/mask/free")])
p("C02", "Equal functions have equal handles; diagrams stay ordered and reduced",
  "Two handles of one manager compare equal (and then have equal hash values) if and only if they denote the same Boolean function, no matter by which operations, when, and on which side of table growth or garbage collection they were obtained. "
  "Every diagram reachable from a handle tests variables in strictly increasing index order on every path, has no node whose two children are the same, and no two distinct nodes with the same variable and children.",
  ["histories", "schedules", "inputs", "configurations"],
  "all histories mixing construction, growth, release and collection; all hash key draws",
  "Tests compare a few handles built minutes apart on tiny tables; duplicates only appear after rehashing, probing collisions or collection.",
  ["src/bdd_var.cpp", "src/bdd_mgr.cpp"],
  [("unique_find / unique_table_lookup", "src/bdd_var.cpp"), ("double_cache rehash", "src/bdd_var.cpp"), ("top variable selection", "src/bdd_mgr.cpp")],
  ["node_ref::operator==", "node_ref low/high/variable"], HK)
p("C03", "A held handle never changes",
  "While a handle is held, the function it denotes, its diagram's node identities and structure, and its node count stay exactly as they were when it was obtained. "
  "No operation by any client, release of other handles, copy, move, assignment or self-assignment of handles, variable addition, table growth or garbage collection alters it.",
  ["histories", "schedules", "configurations"],
  "all histories of all clients sharing the manager while the handle is held",
  "Tests never release handles and collect garbage while holding others (the only test that collects is excluded as flaky).",
  ["src/bdd_node.cpp", "src/bdd_var.cpp", "src/bdd_mgr.cpp"],
  [("reference counting in node_ref", "src/bdd_node.cpp"), ("remove_dead_nodes", "src/bdd_var.cpp"), ("moving var_struct on vector growth", "src/bdd_var.cpp")],
  ["node_ref::evaluate", "node_ref::address", "node_ref::nr_nodes"], HK)
p("C04", "Garbage collection reclaims exactly what no handle reaches",
  "After garbage collection the manager's node count equals the two sinks plus the number of distinct nodes reachable from live handles, every live handle is unaffected, and each surviving node's reference count equals its handles plus its parents. "
  "Collection always terminates, a second collection changes nothing, and operations carried out afterwards are correct and may reuse the reclaimed nodes.",
  ["histories", "schedules", "configurations"],
  "collections at every point between operations, in every reachable table, memo and pool state",
  "No stable test calls collect_garbage at all.",
  ["src/bdd_var.cpp", "src/bdd_mgr.cpp", "src/bdd_memo_cache.cpp", "src/bdd_node_cache.cpp"],
  [("remove_dead_nodes", "src/bdd_var.cpp"), ("memo_cache::purge", "src/bdd_memo_cache.cpp"), ("bdd_node_cache::free_node", "src/bdd_node_cache.cpp")],
  ["bdd_mgr::nr_nodes", "node_ref::reference_count"], HK)
p("C05", "Node and page pools hand out exclusive storage and recycle it",
  "A node reserved from the node pool, or a page reserved from a unique-table page pool, belongs to its holder alone until freed: it never overlaps another reserved one, its contents are not disturbed by other pool traffic, and a reserved page is empty. "
  "The pools' counts are exact after every reserve and free, and freed storage is handed out again before new storage is allocated; a failed allocation leaves the pool usable.",
  ["histories", "fault_sequences"],
  "all sequences of reserves, frees and allocation failures, on every page size class",
  "Two tests do one pass of reserve-all then free-all; no reuse, interleaving or failure.",
  ["include/bdd_var.h", "src/bdd_node_cache.cpp", "include/bdd_node_cache.h"],
  [("unique_table_page_cache reserve/free free list", "include/bdd_var.h"), ("bdd_node_cache reserve/free", "src/bdd_node_cache.cpp")],
  ["reserve_node", "free_node", "nr_nodes", "reserve_page", "free_page", "nr_pages"])
p("C06", "Traversals and counts describe exactly the diagram",
  "For any handle, the node count, the variable list, the post-order and breadth-first node lists, evaluation and the exactly-one-solution test agree with the diagram: each internal node is listed exactly once, children precede parents in post-order, breadth-first order starts at the root with non-decreasing distance, variables are the sorted distinct support, evaluation gives the function value, and exactly-one-solution holds iff one assignment of the support satisfies it. "
  "For constants the count is zero and the lists are empty; answers do not depend on earlier queries or operations.",
  ["histories", "inputs", "configurations"],
  "all diagrams reachable by any history, queried in any order by any client, with arbitrary uninitialised memory",
  "Tests query single simplex diagrams once; the mark bits shared by all traversals make answers depend on query history.",
  ["src/bdd_node.cpp", "include/bdd_node.h"],
  [("mark bits and unmark", "src/bdd_node.cpp"), ("nodes_bfs queue", "src/bdd_node.cpp")],
  ["node_ref::nr_nodes", "variables", "nodes_postorder", "nodes_bfs", "evaluate", "exactly_one_solution"])
p("C07", "Queries leave no trace, even when they fail midway",
  "Counting, listing, evaluating and printing a diagram leaves marks, reference counts, node count and all diagrams exactly as before. "
  "This includes queries that end in an exception because an allocation failed or the output stream raised an error: afterwards no node is left marked and the same query on any handle gives its normal answer.",
  ["fault_sequences", "histories", "crash_points"],
  "all points at which an allocation or a stream write inside a query can fail",
  "Tests never make an allocation or a stream fail.",
  ["src/bdd_node.cpp", "include/bdd_node.h"],
  [("mark/unmark around traversals", "src/bdd_node.cpp"), ("print", "include/bdd_node.h")],
  ["node_ref::marked", "reference_count", "print", "nodes_postorder"])
p("C08", "Cardinality constraints denote exactly their count condition",
  "Given operands (variables or arbitrary diagrams, with repetitions) and a bound, all-false, at-most-one, at-least-one, simplex (exactly one), at-least-b, at-most-b and exactly-b return the diagram that is true exactly on the assignments where the number of true operands meets the condition. "
  "This holds for every operand count from one up, every bound including zero and bounds above the operand count, and whatever state the manager is in.",
  ["inputs", "histories", "configurations"],
  "all operand lists and bounds, in any manager history",
  "Tests cover 2-5 plain variables with bounds up to 2, on a fresh manager.",
  ["include/bdd_mgr.h"],
  [("divide-and-conquer constructors", "include/bdd_mgr.h all_false/simplex/at_most_one/at_least/at_most/cardinality")],
  ["node_ref::evaluate"], HK)
p("C09", "Node-limited conjunction is exact or refused, and refusal is harmless",
  "The node-limited conjunction returns the same handle as the unlimited conjunction, together with its node count, exactly when that conjunction has fewer nodes than the limit, and otherwise a null handle with the maximum size value. "
  "A refused attempt does not affect any handle or the outcome of any later operation.",
  ["histories", "inputs", "configurations"],
  "all operand pairs and limits, in any manager state, mixed with unlimited operations and collections",
  "One test with two operand pairs and two limits.",
  ["src/bdd_mgr.cpp", "include/bdd_mgr.h"],
  [("and_rec_limited early abort and shared memo entries", "src/bdd_mgr.cpp")],
  ["and_rec_limited result tuple"], HK)
p("C10", "Rebasing renames variables and nothing else",
  "Rebasing a diagram by an order-preserving variable map (given as hash map, ordered map or iterator range) yields the handle of the same function with each variable replaced by its image, adding variables to the manager as needed. "
  "The original handle and all other handles are unchanged, rebasing by the identity returns the same handle, and constants map to themselves.",
  ["histories", "inputs", "configurations"],
  "all diagrams and order-preserving maps, in any manager state",
  "One flaky (excluded) test and one chain test use a single shift map.",
  ["include/bdd_mgr.h"],
  [("postorder copy through unique_find", "include/bdd_mgr.h rebase")],
  ["node_ref::evaluate", "node_ref::variables"], HK)
p("C11", "A collection keeps every stored diagram's meaning and number",
  "In a diagram collection every stored diagram keeps its function, size and number under additions, conjunctions, refused conjunctions, disjunctions with literals and rebasing of other diagrams; rebasing a diagram renames exactly its own variables by the order-preserving map. "
  "Removing a set of diagrams leaves the remaining ones with unchanged functions, renumbered consecutively in their old order, and the disjunction with positive and negative literals denotes the original function or any of those literals.",
  ["histories", "inputs"],
  "all sequences of collection operations on one collection",
  "Tests do one removal and one literal disjunction, with loops that only ever visit the all-zero assignment.",
  ["include/bdd_collection.h", "src/bdd_collection.cpp"],
  [("offset-relative instruction array and remove() compaction", "include/bdd_collection.h"), ("reduce()", "src/bdd_collection.cpp")],
  ["bdd_collection::evaluate", "nr_bdds", "nr_bdd_nodes", "variables"])
p("C12", "Collection conjunction is exact, minimal and honours its node limit",
  "Conjunction of two or more stored diagrams (binary, entry operator and range form) appends a diagram that denotes the conjunction of their functions, constants included, and is reduced, so its node count is that of the unique reduced ordered diagram plus the two terminals. "
  "With a node limit it is appended exactly when that count does not exceed the limit; otherwise the refusal value is returned and the collection is as before.",
  ["inputs", "histories", "configurations"],
  "all operand tuples (2 to 49 operands, repeats allowed) and limits, after any history including refused conjunctions",
  "Tests evaluate only the all-zero assignment of one conjunction and try one limit.",
  ["src/bdd_collection.cpp", "include/bdd_collection.h"],
  [("template melding on a scratch stack, reduction map, early abort", "src/bdd_collection.cpp bdd_and/bdd_and_impl")],
  ["evaluate", "nr_bdd_nodes", "nr_bdds"])
p("C13", "Transfers between managers and collections preserve the diagram",
  "Adding a manager's diagram to a collection stores the same function with one entry per node plus the two terminals, and exporting or importing a stored diagram into a manager yields the canonical handle of the same function: the very handle it came from, or that an equal diagram there already has. "
  "This holds for constants, for any number and total size of stored diagrams, and for transfer into a different manager with the variables present.",
  ["histories", "inputs", "configurations"],
  "all diagrams, any collection content and size, any two managers, any interleaving with collections of garbage",
  "Tests transfer one or two 9-node diagrams within one manager.",
  ["src/bdd_collection.cpp", "src/bdd_mgr.cpp"],
  [("add_bdd node numbering", "src/bdd_collection.cpp"), ("export_bdd", "src/bdd_collection.cpp"), ("bdd_mgr::add_bdd", "src/bdd_mgr.cpp")],
  ["node_ref::operator==", "bdd_collection::evaluate"], HK)
p("C14", "A manager survives failed allocations",
  "When a memory allocation fails inside any manager operation, the operation either ends with std::bad_alloc or succeeds without the memory, every live handle keeps its function and structure, and no storage is leaked once everything is destroyed. "
  "As soon as memory is available again, the same operation succeeds with the correct result, and so do all others, including garbage collection.",
  ["fault_sequences", "crash_points", "histories"],
  "every allocation inside every operation failing, alone or in bursts, in any history",
  "Tests never make an allocation fail.",
  ["src/bdd_var.cpp", "src/bdd_memo_cache.cpp", "src/bdd_node_cache.cpp", "include/bdd_var.h", "src/bdd_mgr.cpp"],
  [("double_cache ordering of allocation and state change", "src/bdd_var.cpp"), ("increase_cache", "src/bdd_node_cache.cpp, include/bdd_var.h"), ("memo double_cache", "src/bdd_memo_cache.cpp")],
  ["all manager operations"], HK)
p("C15", "A collection survives failed allocations",
  "When a memory allocation fails inside a collection operation and the operation ends with std::bad_alloc, the collection holds exactly the diagrams it held before, with the same numbers and functions. "
  "Repeating the operation once memory is available succeeds with the same outcome as if nothing had failed, and no reference to a manager's diagrams is left behind.",
  ["fault_sequences", "crash_points", "histories"],
  "every allocation inside every collection operation failing, alone or in bursts, in any history",
  "Tests never make an allocation fail.",
  ["src/bdd_collection.cpp", "include/bdd_collection.h"],
  [("scratch state (stack, generated nodes, reduction, node map) and delimiters", "src/bdd_collection.cpp")],
  ["all collection operations"])
p("C16", "Independent managers and collections do not interfere",
  "Operations on one manager or collection never affect handles, counts or results of another, under any interleaving of their operations, including creation and destruction of the others. "
  "When separate threads each use only their own managers and collections, no memory is accessed by two of them without synchronisation, and each obtains the same results as when running alone.",
  ["schedules", "histories"],
  "all interleavings of clients on separate managers at operation and memory-access granularity",
  "Every test uses one manager in one thread.",
  ["src/bdd_node.cpp", "src/bdd_mgr.cpp", "src/bdd_collection.cpp"],
  [("all state held in the manager; generator of hash keys is function-local static", "src/bdd_node.cpp init_new_node")],
  ["results per client", "data-race oracle over memory accesses"], HK)
p("C17", "Observable results do not depend on hash keys or memory",
  "Running the same sequence of operations with different random hash keys, different memory addresses and different contents of uninitialised memory gives the same observable results: the same functions, diagram structures up to addresses, node counts after collection, variable lists, orders of traversals, refusals and exceptions.",
  ["configurations", "histories"],
  "all pairs of environments for every operation sequence",
  "Hash keys come from std::random_device and addresses from the allocator; a test run sees one uncontrolled draw.",
  ["src/bdd_node.cpp", "src/bdd_memo_cache.cpp", "src/bdd_var.cpp", "src/bdd_node_cache.cpp"],
  [("random hash key per node", "src/bdd_node.cpp"), ("address-ordered operands and address-hashed memo", "src/bdd_mgr.cpp, src/bdd_memo_cache.cpp")],
  ["observable log of a run"], HK)
p("C18", "Growth in variables and nodes is seamless",
  "Adding variables returns consecutive indices and leaves existing diagrams intact, and projecting onto a variable that does not exist yet adds exactly the missing ones. "
  "However many nodes one variable or the manager accumulates - up to the table's capacity of 2^20 for a single variable - every node stays retrievable as the same handle, no duplicate is created, and the node count grows by exactly one per new node; a node refused with an exception because its variable's table is full changes nothing, and room is made again by a collection.",
  ["histories", "configurations"],
  "all growth sequences across every table, memo and pool size step, with any hash keys",
  "Tests add 10000 unused variables and otherwise keep tables at their initial sizes, far from the size steps.",
  ["src/bdd_var.cpp", "src/bdd_mgr.cpp", "src/bdd_memo_cache.cpp", "src/bdd_node_cache.cpp"],
  [("double_cache and page classes", "src/bdd_var.cpp new_page/free_page"), ("memo double_cache", "src/bdd_memo_cache.cpp"), ("node page chaining", "src/bdd_node_cache.cpp")],
  ["bdd_mgr::unique_find", "projection", "nr_nodes", "nr_variables"], HK)
p("C19", "Destruction releases everything exactly once",
  "After all handles are released, destroying managers and collections - in any order, at any time, after any history of growth, collection, transfers and failed operations - returns every allocation exactly once, in the form (single object or array, size) in which it was made, and accesses no released memory.",
  ["histories", "fault_sequences"],
  "all histories and destruction orders",
  "Tests do not check for leaks or invalid accesses and destroy one manager at exit.",
  ["src/bdd_mgr.cpp", "src/bdd_var.cpp", "include/bdd_var.h", "src/bdd_node_cache.cpp"],
  [("release_nodes, destructors, page ownership", "src/bdd_var.cpp, include/bdd_var.h")],
  ["allocator balance", "address sanitizer"], HK)
p("C20", "Graph output describes exactly the diagram on any stream",
  "Printing a handle or exporting a stored diagram (constants included in an export) writes a graph whose nodes and arcs are exactly those of the diagram, so that the function can be read back from it. "
  "If the stream fails or throws part-way, what was written is a prefix of the full output and neither the diagram, the manager nor the collection is affected.",
  ["fault_sequences", "inputs", "histories"],
  "all diagrams and all points at which the stream stops accepting data, with stream exceptions on or off",
  "One test writes one file and never reads it.",
  ["include/bdd_node.h", "include/bdd_collection.h"],
  [("print/print_rec", "include/bdd_node.h"), ("export_graphviz", "include/bdd_collection.h")],
  ["text written to the stream"])
p("C21", "Collection views navigate exactly the stored diagram",
  "The entry and node views of a collection - root, low and high child, variable, terminal tests, terminals, indexing, post-order stepping, node counts and support - describe exactly the stored diagram, whether it was added from a manager, computed by conjunction or literal disjunction, or moved by a removal. "
  "Following a view from the root by an assignment reaches the terminal that evaluation gives, and post-order stepping visits every internal node once, children before parents, ending at the root.",
  ["histories", "inputs"],
  "all diagrams of a collection after any sequence of collection operations",
  "No test uses the views.",
  ["include/bdd_collection.h", "src/bdd_collection.cpp"],
  [("bdd_collection_entry / bdd_collection_node", "src/bdd_collection.cpp")],
  ["bdd_collection_entry", "bdd_collection_node"])
p("C22", "Diagrams built by hand in a collection are stored as specified",
  "A diagram built node by node through the collection's builder (new diagram, add node, set low/high arcs to later nodes or terminals, close) is stored with exactly those nodes and arcs, denotes the function they spell, and works in every other operation; diagrams already stored are unaffected, also when a diagram begun is given up and removed. "
  "Closing a diagram with an unset arc is reported as an error, after which the diagram can be completed, closed and used like any other.",
  ["histories", "inputs"],
  "all reduced ordered diagrams entered through the builder, in any collection state",
  "No test uses the builder.",
  ["include/bdd_collection.h", "src/bdd_collection.cpp"],
  [("new_bdd/add_bdd_node/close_bdd and arc setters", "src/bdd_collection.cpp")],
  ["bdd_collection::evaluate", "builder exceptions"])
p("C23", "Depth bookkeeping is exact for any diagrams entered children first",
  "A depth register into which diagrams are entered children before parents - in any other order, nodes of several diagrams mixed, shared nodes once - reports for every node one more than the larger depth of its two children, terminals having depth zero. "
  "This holds for any number of nodes, any depth and any node addresses, and if memory fails while a node is entered, the register is as before and the node can be entered again with the right result.",
  ["histories", "fault_sequences", "configurations"],
  "all children-first orders over all sets of diagrams, all heap layouts, every allocation inside the register failing",
  "bdd_node_depth has no test at all.",
  ["include/bdd_node_depth.h", "src/bdd_node_depth.cpp"], [("add_node / add_botsink / add_topsink", "src/bdd_node_depth.cpp")], ["bdd_node_depth::add_node"])
p("C24", "Diagrams thousands of levels deep are handled exactly on an ordinary stack",
  "Managers with tens of thousands of variables and diagrams up to ten thousand levels deep are handled like small ones: Boolean operations, limited and n-ary conjunctions, cardinality constraints over thousands of operands, queries, traversals, printing, rebasing (also to variable indices beyond 2^16), garbage collection, and all operations of collections and transfers give exactly the right diagram and complete within the 8 MB of call stack a program has by default. "
  "This holds in any history of such operations, also when an allocation failed deep inside one of them.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "all histories over diagrams with up to 10000 levels and some 50000 nodes, hash keys as drawn, failing allocations at any depth",
  "Tests use diagrams of a few levels; recursion depth, variable indices beyond 2^14 and costs that grow with the square of the depth never show.",
  ["src/bdd_mgr.cpp", "src/bdd_node.cpp", "src/bdd_collection.cpp", "include/bdd_mgr.h", "include/bdd_collection.h"],
  [("recursive operations (README lists non-recursive versions as planned)", "src/bdd_mgr.cpp"), ("recursive traversals", "src/bdd_node.cpp"), ("recursive melding", "src/bdd_collection.cpp")],
  ["operation completes", "structure of the result"], HK)
p("C25", "The work of an operation follows the nodes involved, not the paths",
  "Boolean operations, limited and n-ary conjunctions, rebasing, traversals, support, transfers, literal disjunctions and removals finish after a number of steps in proportion to the diagram nodes (for binary, ternary and n-ary operations: the tuples of operand nodes) that they have to look at, "
  "however many paths the operands have and whatever was computed, released, collected or resized before.",
  ["histories", "inputs"],
  "all diagrams with many shared nodes (10-60 variables, up to 2^28 paths and more) or many levels (up to 8000) in any manager or collection state, hash keys as drawn",
  "Tests use diagrams with few paths or none that are shared; a lost memo entry costs them nothing.",
  ["src/bdd_mgr.cpp", "src/bdd_memo_cache.cpp", "src/bdd_collection.cpp", "src/bdd_node.cpp", "src/bdd_var.cpp"],
  [("memo cache and its growth", "src/bdd_memo_cache.cpp"), ("generated_nodes / reduction tables", "src/bdd_collection.cpp"), ("node marks", "src/bdd_node.cpp")],
  ["steps of the simulated clock per operation"], HK)
with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
