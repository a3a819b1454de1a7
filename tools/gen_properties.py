#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
L, ST, BAL, NM, NI, NL, AD, AR, UT, IT = ("src/lib.rs", "src/storage.rs", "src/balancing.rs", "src/node/mod.rs",
    "src/node/internal.rs", "src/node/leaf.rs", "src/node/addr.rs", "src/utils/array.rs", "src/utils/mod.rs", "src/item.rs")

prop("C01", "Keyed operations behave like a sorted map",
 "After any sequence of insert, remove, get, get_mut, first, last (and their _mut forms), len and is_empty with a consistent total order, every result equals that of a sorted map holding at most one item per equivalence class of the comparator. Insert returns exactly the item it replaced (or None), remove returns exactly the stored matching item (or None), get/get_mut find an item if and only if a matching one is stored, first/last are the least/greatest stored items, and mutations made through the _mut accessors are seen by every later read.",
 ["inputs", "histories"], "Every history of keyed operations, every key distribution and insertion/removal order, every tree size, every comparator that is a consistent total order (including ones coarser than equality and heterogeneous key types), every storage.",
 "tests/basic.rs inserts and removes one fixed list of 100 keys; get, get_mut, first, last are never called, replacement of an equal item is never observed, and trees never exceed three levels.",
 [L, ST, BAL, NM, NI, NL, UT],
 [("RawBTree::insert/remove/get/get_mut/first/last", L), ("Storage::address_in", ST), ("binary_search_min", UT), ("rebalance", BAL)],
 [("len", "number of stored items", L), ("root", "root node identifier", L)], ["return values of the keyed API"])

prop("C02", "Shared iteration is complete, ordered, double-ended and exact",
 "For any tree, iter() yields every stored item exactly once in tree order from the front and in reverse order from the back; under any interleaving of front and back steps the two ends meet without skipping or repeating an item. size_hint and len are always the exact number of items left, the iterator stays exhausted once it returned None, and a copy of a partially consumed iterator continues independently with the same remaining items.",
 ["inputs", "histories"], "Every reachable tree shape and size, every interleaving of next/next_back/nth/nth_back/adaptor calls, every copy point.",
 "tests/iter.rs iterates one 10-item tree forward; next_back on Iter, size hints, copies and multi-level shapes produced by removals are not exercised.",
 [L, ST], [("Iter::next / next_back / size_hint / Clone", L), ("Storage::next_item_address / previous_item_address", ST)],
 [("Iter.len", "remaining item count", L), ("Iter.addr / Iter.end", "front and back cursors", L)], ["items yielded by Iter"])

prop("C03", "Owning iteration hands out each item exactly once",
 "into_iter() yields every stored item by value exactly once, in tree order from the front and reverse order from the back under any interleaving, with exact size hints and fused exhaustion. Dropping the iterator after any prefix of such steps drops each item not yet yielded exactly once, never touches the items already yielded, and releases all of the tree's nodes.",
 ["inputs", "histories"], "Every reachable tree, every interleaving of next/next_back, every point at which the iterator is dropped.",
 "tests/iter.rs fully consumes 100-item trees in four fixed patterns; partial consumption, other shapes and node release are not observed.",
 [L, ST, NM], [("IntoIter::next / next_back / Drop", L), ("RawBTree::forget", L)],
 [("IntoIter.len / addr / end", "remaining count and cursors", L)], ["items yielded", "item destructors", "Storage release/drop events"])

prop("C04", "Mutable iteration visits each item once and writes persist",
 "iter_mut() yields a mutable reference to every stored item exactly once, in tree order from the front and reverse order from the back under any interleaving, with exact size hints and fused exhaustion; no two references yielded by one iterator designate the same item. Every write made through a yielded reference is the value read by any later access to the tree, and nothing else in the tree changes.",
 ["inputs", "histories"], "Every reachable tree, every interleaving of next/next_back, every subset of items written.",
 "No test calls iter_mut.",
 [L, ST], [("IterMut::next / next_back / size_hint", L), ("Storage::next_item_address / previous_item_address", ST)],
 [("IterMut.len / addr / end", "remaining count and cursors", L)], ["references yielded", "tree content afterwards"])

prop("C05", "The tree stays a balanced B-tree after every operation",
 "After every completed operation all leaves are at the same depth; every node except the root holds between M/2-1 and M items, an internal node has one more child than items, and a root holds at least one item; every child records its actual parent and the root has none; in-order traversal is strictly increasing for the comparator used; and len() equals the number of items in the nodes. Hence the height is logarithmic in len().",
 ["inputs", "histories"], "Every history of insertions and removals, by key or by address, including clone, clear and re-use, for every size and storage.",
 "tests validate one 100-key history (three levels at most); validate() does not check len, and internal-node rotations and merges in both directions on deeper trees are not reached.",
 [BAL, NI, NL, NM, L, ST], [("rebalance / try_rotate_left / try_rotate_right / merge", BAL), ("split / is_overflowing / is_underflowing", NI + ", " + NL), ("RawBTree::validate", L)],
 [("parent", "parent link of each node", NI + ", " + NL)], ["RawBTree::root / node / Node accessors"])

prop("C06", "Every item is returned or dropped exactly once",
 "Across any history of operations, each item given to a tree is at any time either stored in exactly one place, returned to the caller, or dropped; its destructor runs exactly once if the tree, or an iterator or clone of it, disposed of it and never while it is stored or after it was returned. No item is duplicated or lost by rebalancing, replacement, removal, cloning, clearing, consuming or dropping a tree.",
 ["inputs", "histories"], "Every history mixing keyed and addressed insertions, replacements, removals, clones, clears, forgets and (partial) consumption, ended by dropping everything.",
 "Tests count drops only for full consumption of a 100-item into_iter; nothing observes drops on remove, replace, clear, clone or drop of deep trees.",
 [L, ST, BAL, AR, NI, NL], [("Array::{insert,remove,drain,append,pop}", AR), ("RawBTree::clear / Drop", L), ("Storage::remove_at / replace_at", ST)],
 [], ["item constructors, clones and destructors"])

prop("C07", "Safe use is free of undefined behaviour and leaks",
 "No sequence of calls to the tree's safe API, nor of its unsafe API within the documented safety conditions, reads or writes out of bounds, uses freed or uninitialised memory, frees twice, misaligns an access, breaks Rust's aliasing rules or leaks a node, for any item type (zero-sized, over-aligned, large, heap-owning).",
 ["inputs", "histories"], "Every history of API calls and every item layout, executed under AddressSanitizer/LeakSanitizer and under Miri with both of its aliasing models.",
 "The tests run without any sanitizer or interpreter; undefined behaviour that happens to work passes them (forget/IntoIter did).",
 [L, ST, AR, BAL, NM], [("BoxStorage / BoxDrop", ST), ("Array (MaybeUninit buffer)", AR), ("IntoIter::next (ptr::read)", L), ("visit_from_leaves_mut (transmute)", L + ", " + NM)],
 [], ["sanitizer and Miri diagnostics"])

prop("C08", "Any conforming storage is used within its contract",
 "With any Storage implementation that honours the trait's contract, the tree accesses a node only through an identifier of that same storage that is currently allocated, and never accesses or releases an identifier after releasing it. Every node allocated is released or dropped exactly once by the time the tree is cleared, forgotten, consumed or dropped (through the dropper when the storage provides one, and left to the storage when it does not), and the tree behaves the same whatever the storage, including when identifiers are recycled.",
 ["inputs", "histories", "configurations"], "Every history and every conforming storage: with or without dropper, with unique or immediately recycled identifiers.",
 "Tests only use the default boxed storage, where a stale access or a leaked node has no visible effect.",
 [ST, BAL, L], [("Storage default methods", ST), ("merge / rebalance (release_node)", BAL), ("clear / forget (start_dropping)", L)],
 [], ["Storage::{allocate_node, release_node, get, get_mut, start_dropping}", "Dropper::drop_node"])

prop("C09", "Addressed lookup and insertion designate the exact position",
 "address_of returns Ok with the address of the stored matching item if there is one, and otherwise Err with an insertion address that keeps the tree ordered (Err(None) only for an empty tree). insert_at places the item immediately before the item the address designates, or at the end of that node's range when the address is one past its items, insert_exactly_at does the same at a leaf address (and panics, changing nothing, at an internal address without a right child); both return the address at which the inserted item can then be read, shift no other item's relative order, and get_at, get_mut_at and replace_at act on exactly the designated item.",
 ["inputs", "histories"], "Every tree shape, every back address of it (item addresses and one-past-the-end addresses of leaves and internal nodes), every item; including splits that cascade to the root.",
 "All address tests in tests/basic.rs are commented out.",
 [L, ST, BAL, AD], [("RawBTree::address_of / insert_at / insert_exactly_at / replace_at / get_at", L), ("Storage::leaf_address", ST), ("rebalance (Overflow, address tracking)", BAL)],
 [], ["returned addresses", "in-order item sequence"])

prop("C10", "Removal by address returns the item and a valid reinsertion point",
 "remove_at on the address of an item removes exactly that item, returns it, and keeps the order of all the others; on an address that holds no item it returns None and changes nothing. The returned address is None exactly when the tree became empty, and otherwise inserting any item there with insert_at puts it exactly where the removed item was, so that removing and reinserting restores the original sequence.",
 ["inputs", "histories"], "Every item position (leaf or internal) of every tree shape, including removals that rotate, merge and shrink the tree.",
 "The remove_addresses test is commented out; remove() discards the returned address.",
 [L, ST, BAL, AD], [("Storage::remove_at / next_item_or_back_address", ST), ("rebalance (Underflow, address tracking), try_rotate_left, try_rotate_right, merge", BAL)],
 [], ["RemovedItem", "sequence after insert_at"])

prop("C11", "Next/previous item addresses walk the tree in order",
 "Starting from first_item_address, repeatedly applying next_item_address yields the address of every stored item exactly once in tree order and then None; previous_item_address is its exact inverse, ending with None before the first item. From any valid address, occupied or not, they give the nearest item after, respectively before, that position, or None if there is none.",
 ["inputs", "histories"], "Every tree shape and every valid address of it (offsets -1 to item count of each node).",
 "The item_addresses test is commented out; iterators only walk from the two ends of small trees.",
 [ST, L, AD], [("Storage::next_item_address / previous_item_address", ST), ("first_item_address / last_item_address", L)],
 [], ["returned addresses"])

prop("C12", "Front, back, leaf and normalized addresses keep their position",
 "next_back_address and previous_front_address step through back (0..=n), respectively front (-1..n-1), addresses: from any valid address their iteration visits every later, respectively earlier, item address exactly once in order, never moves backwards, and ends with None. normalize maps any address that holds no item to the next item (None after the last) and leaves item addresses unchanged; leaf_address maps any back address to a leaf address at the same insertion position; next_item_or_back_address gives the next item, or a back address at the very end of the tree when there is none.",
 ["inputs", "histories"], "Every tree shape and every valid address of it.",
 "The valid_addresses test is commented out; no test calls these functions.",
 [ST, L, AD], [("Storage::normalize / leaf_address / previous_front_address / next_back_address / next_item_or_back_address", ST)],
 [], ["returned addresses"])

prop("C13", "A clone is an equal and independent tree",
 "clone() produces a well-formed tree holding a clone of every item, each cloned exactly once, in the same order and number, in nodes of its own. Afterwards no operation on, or destruction of, either tree has any effect on the other.",
 ["inputs", "histories"], "Every tree shape and every history of operations applied to the original and to the clone after cloning, in any order, including dropping either first and cloning clones.",
 "The clone test clones one 100-item tree and only validates it.",
 [L, NI, NL, AR], [("Clone for RawBTree (clone_node)", L), ("Array::clone", AR), ("Storage::insert_node", ST)],
 [], ["content and shape of both trees", "item clones and destructors"])

prop("C14", "clear and forget empty the tree and leave it usable",
 "After clear() or forget() the tree is empty in every observable way (len 0, is_empty, no root, nothing found or iterated) and behaves like a newly created tree. clear() runs the destructor of every stored item exactly once, forget() runs none, and both give back all nodes.",
 ["inputs", "histories"], "Every tree shape, repeated calls, interleaved with any operations before and after, every storage.",
 "No test calls clear or forget on a tree and uses it again.",
 [L, NM], [("RawBTree::clear / forget", L), ("Node::forget", NM)],
 [], ["tree state", "item destructors", "storage release events"])

prop("C15", "Leaf-first visitors visit every node once, children first",
 "visit_from_leaves and visit_from_leaves_mut call the visitor exactly once for each node of the tree, every node after all of its descendants and the root last, and not at all on an empty tree; the mutable visitor receives the very node the identifier designates, so that changes to its items persist. Node::visit_from_leaves and its variants visit exactly the proper descendants of that node in the same manner.",
 ["inputs", "histories"], "Every tree shape and storage, every node as starting point.",
 "No test calls a visitor directly.",
 [L, NM], [("RawBTree::visit_from_leaves(_mut)", L), ("Node::visit_from_leaves(_with/_mut/_mut_with)", NM), ("Children", NM)],
 [], ["visitor calls"])

prop("C16", "The DOT export describes exactly the tree",
 "With the dot feature, dot_write emits one well-formed digraph in which each node of the tree appears exactly once, labelled with its own identifier, its parent's identifier if any, and its items in order whatever characters their text holds, and in which there is exactly one edge from each internal node to each of its children and no other. Write errors are reported to the caller.",
 ["inputs", "histories", "configurations"], "Every tree shape, item rendering, writer failing at any point.",
 "No test enables or calls dot_write.",
 [L, NM, NI, NL], [("dot_write / dot_write_node", L), ("dot_write_label", NI + ", " + NL)],
 [], ["bytes written"])

prop("C17", "validate accepts every sound tree and rejects malformed ones",
 "In debug builds, validate() returns normally on every tree produced through the API with a consistent order. It panics on any tree having a wrong parent link, items out of order within a node or with respect to the enclosing separators, a non-root node holding too few or too many items, an internal root without items, or leaves at different depths. validate_node judges so the subtree of one node, given its parent and enclosing separators, and returns its depth; Node::validate judges one node: its parent, its occupancy when a separator is given, its order, and its items being strictly between the separators.",
 ["inputs", "histories"], "Every reachable tree, and every single corruption of one of those kinds at any node of it.",
 "Tests call validate only on sound trees; a validate that checks nothing passes them, and every structural test rests on it.",
 [L, NI, NL], [("RawBTree::validate / validate_node", L), ("Internal::validate", NI), ("Leaf::validate", NL), ("separators", NM)],
 [], ["whether validate panics"])

prop("C18", "Comparators are called as (stored item, key) and may panic safely",
 "Every comparator call made by a lookup, insertion or removal passes an item currently stored in the tree as first argument and the searched key, or the inserted item, as second argument. If the comparator panics, the panic reaches the caller and the tree holds exactly the same items in the same order as before the call, remaining fully usable; an item that was to be inserted is dropped exactly once.",
 ["inputs", "histories", "fault_sequences"], "Every operation taking a comparator, every tree shape, a panic at each comparator call.",
 "Tests use symmetric total orders on one type, which never panic.",
 [L, ST, UT, NI, NL], [("address_of before mutation", L), ("binary_search_min", UT)],
 [], ["comparator arguments", "tree content after a caught panic"])

prop("C19", "An inconsistent comparator cannot corrupt the tree",
 "Whatever a comparator returns (random, non-transitive, or changing over time), operations terminate without corruption: the tree stays balanced with correct links, len() equals the number of items stored and iterated, each item stays stored, returned or dropped exactly once, and no undefined behaviour occurs; only which items are found, and their order, are unspecified.",
 ["inputs", "histories"], "Every sequence of operations with comparators answering arbitrarily.",
 "Tests only use lawful orders.",
 [L, ST, UT, BAL], [("binary_search_min bounds", UT), ("rebalance independent of the order", BAL)],
 [], ["shape, len, iteration, item destructors"])

prop("C20", "Panicking destructors, clones, closures and visitors cause no corruption",
 "If an item's destructor panics while a tree is cleared, dropped, or while an owning iterator is dropped, or an item's clone panics while a tree is cloned, or a visitor or a closure run over an iterator panics, the panic propagates, no item's destructor runs twice, no item already returned is dropped, no freed node is accessed, and a surviving tree remains sound and usable (empty after clear, unchanged after a failed clone, visit or borrowing iteration). Leaking the remaining items is permitted.",
 ["inputs", "histories", "fault_sequences"], "Every tree shape, a panic injected at every item position (and every partially consumed state of the iterator).",
 "No test panics inside user code.",
 [L, AR, ST], [("RawBTree::clear / Drop", L), ("IntoIter::drop", L), ("Array::drop / clone", AR), ("clone_node", L)],
 [], ["item destructors", "storage events", "tree after the caught panic"])

prop("C21", "Trees are thread-safe exactly when their items are",
 "A tree, its node identifiers and its iterators may be sent to or shared with other threads only if the item type allows it, and can be when it does: concurrent readers of a shared tree never race and each sees the full content, and a tree moved to another thread can be used, consumed and dropped there.",
 ["schedules", "configurations", "histories"], "Every interleaving of concurrent readers, every transfer between threads, every combination of Send/Sync item types.",
 "No test uses threads or checks the auto traits.",
 [ST, L], [("unsafe impl Send/Sync for BoxPtr", ST), ("&self read paths", L)],
 [], ["race detector reports", "auto-trait probes"])

prop("C22", "Item compares by key alone and keeps its parts",
 "Item equality, partial and total ordering, and key_cmp depend only on the keys and agree with the key type's own, including partial orders and borrowed key forms. as_pair and into_pair return exactly the key and value it was built from, clone copies both, and Display shows both as (key, value).",
 ["inputs"], "Every pair of items, keys equal, smaller, greater or incomparable, with arbitrary values.",
 "Tests use Item::cmp and key_cmp with distinct usize keys only.",
 [IT], [("PartialEq/PartialOrd/Ord/key_cmp/Display for Item", IT)], [], ["return values"])

prop("C23", "Nodes behave like bounded sorted sequences",
 "Each public node operation on a leaf or internal node (search, insertion and removal by offset or key, replace, push and pop at either end, split, merge, append, item and child access, children and separators) acts as the corresponding operation on the node's item sequence and child sequence, and reports exactly the offsets, items, children and balance it documents. Pops refuse to make a node underflow, splits yield two non-underflowing halves around the median, and item access and leaf_remove at an offset that holds no item answer None. A call the node cannot carry out (an offset out of range, an operation of the other kind of node, splitting a node that is not overflowing) panics and leaves the node as it was.",
 ["inputs", "histories"], "Every fill level of a node, every offset, every sequence of node operations within capacity.",
 "No test manipulates nodes; only the combinations made by the tree's own balancing on one history are reached.",
 [NM, NI, NL, AR, UT], [("Leaf", NL), ("Internal", NI), ("Node dispatch, Children, ChildrenWithSeparators", NM), ("Array", AR)],
 [], ["return values, item and child sequences of nodes"])

prop("C24", "Offsets and addresses are ordered and compared consistently",
 "The before-first offset is smaller than every other offset and every integer, and comparisons between offsets, and between an offset and an integer, otherwise agree with integer order and with equality, as a total order. incr and decr step by one through before-first, 0, 1, ..., value and is_before are consistent with them, and two addresses are equal exactly when their node and offset are; Display and Debug print the before-first offset as -1 and an address as @node:offset.",
 ["inputs"], "Every pair of offsets and integers, every node identifier.",
 "No test touches Offset or Address.",
 [NM, AD], [("Offset", NM), ("Address", AD)], [], ["return values"])

prop("C25", "Operations touch O(log n) nodes and comparisons",
 "A lookup, insertion or removal in a tree of n items calls the comparator at most a small constant times per level of the tree and accesses a number of nodes proportional to its height, never to n; get, first and last allocate nothing, and an insertion or removal allocates and releases at most one node per level (plus a root). A full iteration in either direction accesses O(n) nodes in total.",
 ["inputs", "histories"], "Every history and size; measured by counting comparator calls and storage accesses, not time.",
 "Tests measure no cost; a linear scan or repeated rebalancing passes them.",
 [ST, UT, BAL, L], [("address_in", ST), ("binary_search_min", UT), ("rebalance", BAL), ("next_item_address / previous_item_address", ST)],
 [], ["comparator calls", "Storage get/get_mut/allocate/release calls per operation"])

prop("C26", "The item array of a leaf is a sound bounded vector",
 "The array given by LeafNode::items and taken by LeafNode::new acts as a vector of bounded capacity: push, pop, insert, remove, append, extend, drain (of any range), clear, clone, collection, slice access and by-value iteration give the same contents, results and exact size hints as on a vector. A push, insert, remove or drain out of bounds or beyond the capacity panics or answers None and leaves the items as they were. Every item is returned or dropped exactly once and none is read after that, even if a destructor, a clone or the source of extend panics, or if a drain or iterator is forgotten (only leaking items is then permitted).",
 ["inputs", "histories", "fault_sequences"], "Every sequence of array operations, every range and partially consumed drain or iterator, a panic injected at any item.",
 "No test uses the array directly: every split, merge, rotation and shift of the tree goes through it, on item types where an extra bitwise copy goes unseen.",
 [AR, NL], [("Array::insert / remove / push / pop", AR), ("Array::drain / Drain::shift", AR), ("IntoIter / Drain drop", AR), ("LeafNode::items / new", NL)],
 [("Array.len", "number of initialised slots", AR)], ["array contents and item destructors after each call"])

prop("C27", "Storage operations act on the tree they are given and no other",
 "The operations of the Storage trait, called directly with the root of one of several trees kept in the same storage (address_in, insert_at, insert_exactly_at, replace_at, remove_at, normalize, leaf_address and the address steps), act on that tree as the corresponding tree operations do and report its new root, item and address exactly. They leave every node, link and item of the other trees as they were and release exactly the nodes they make useless. insert_node makes every child of the new node record it as its parent; remove_rightmost_leaf_of takes the greatest item of the given subtree and names the leaf it came from; insert_exactly_at with a subtree (as deep as its new siblings, no node of it underflowing, its root recording the addressed node as its parent) puts the item at an internal address with that subtree directly on its right, and keeps the tree balanced, ordered and correctly linked.",
 ["inputs", "histories"], "Every history of storage operations over any number of trees sharing a storage, every internal address and subtree, every storage.",
 "No test calls a Storage method: the tests use one tree per storage through RawBTree, which never passes a right child to insert_exactly_at, so that splits carrying a foreign subtree are not executed.",
 [ST, BAL, NI], [("Storage::insert_node / insert_exactly_at / remove_at / remove_rightmost_leaf_of / address_in", ST), ("rebalance", BAL), ("InternalNode::insert / split", NI)],
 [("RemovedItem", "new root, item and reinsertion address", ST)], ["every node of the storage after each call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
