#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so the text can be reviewed and diffed)."""
import json, os
L = "src/lib.rs"; IT = "src/iter.rs"; RP = "src/generic_impl/rope.rs"; GB = "src/generic_impl/gap_buffer.rs"
OR = "src/generic_impl/ord.rs"; LF = "src/generic_impl/len_finder.rs"; RL = "src/rle.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
SMALL = "cfg(vp_small) shrinks the node fan-out (and the rope chunk size) so that all small tree shapes can be enumerated; everything observed is public API"

p("C01", "A rope always equals the plain text it was edited into",
  "After any sequence of insertions at valid positions, range deletions (any kind of bounds, out-of-range ends clamped) and clears, a rope's text, length and emptiness equal those of a plain byte string that received the same edits. The result never depends on where earlier edits happened, how the text is chunked internally, or any position the rope remembers between calls. No edit within the text panics and the rope's self-check passes after each.",
  ["histories", "inputs"], "every edit history, every position and length, including chunk-boundary positions, multi-chunk insertions and edits right after a clear or after the rope became empty",
  "The repository's fuzz regressions replay eight recorded histories; the remembered edit position and the gap buffer make the outcome depend on pairs and triples of edits that those samples hit only by accident.",
  [RP, GB, L, IT], [("insert / delete_range with remembered edit position", RP), ("gap buffer insert/split/delete/merge", GB), ("multi-leaf deletion through drain", IT)],
  [("cursor", "remembered leaf and its start position; must be invalidated when the leaf goes away", RP)], ["Display", "len", "is_empty", "check"], SMALL)

p("C02", "The ordered map and set equal a sorted map",
  "After any sequence of insertions, overwrites and deletions, including deletions of absent keys, the ordered tree map holds exactly the keys and latest values a standard sorted map would hold, and the set holds exactly the keys. Deletion returns the removed entry for a present key and nothing, changing nothing, for an absent one. Iteration is in strictly increasing key order and the length and emptiness equal the number of entries.",
  ["histories"], "every history of insert, overwrite and delete over any keys, present or absent, in any order",
  "Unit tests insert one random permutation and delete present keys only; the fuzz target never deletes an absent key and is not run by the test suite.",
  [OR, L], [("key search through min/max summaries", OR), ("insert without diffs, explicit split", OR), ("delete via search then leaf removal", OR)],
  [("len", "entry count kept beside the tree", OR)], ["insert", "delete", "iter", "iter_key", "len", "is_empty"], SMALL)

p("C03", "Insertion puts exactly the given data at exactly the given place",
  "Inserting an element at any cursor or searched position, appending or prepending it, changes the tree's content into the old content with the new data inserted exactly there, whether the data becomes a new element, is absorbed by or merged into a neighbour, or forces splits at any number of levels. The returned cursor points at the first unit of the inserted data. All other guarantees (summaries, well-formedness, lookup) hold in the resulting tree.",
  ["histories", "inputs"], "every reachable tree, every cursor in every element (start, middle, end), every element length and mergeability, for trees whose summaries use or do not use diffs",
  "Tests use one element type per scenario and append-dominated histories; which of merge, absorb, split element, split node and split root happens depends on tree shape and position combinations they do not enumerate.",
  [L, RL], [("insert_by_path / insert / push / prepend", L), ("leaf split at cursor", L), ("node and root split", L)], (), ["iter", "query", "root_cache", "returned Cursor"], SMALL)

p("C04", "Every stored summary equals the summary of what is below it",
  "After every completed public mutation, the summary stored for the whole tree, for each inner node and for each element equals the summary computed directly from the elements beneath it. This holds both for trees that propagate summary differences and for trees that recompute, and a tree that declares it does not use differences is never asked to apply one by operations that carry none. Refreshing the summaries after an in-place edit of an element restores the same equality.",
  ["histories"], "every history of public mutations (insert, push, prepend, remove, updates, drain, bulk insert, build, clear) from every reachable tree",
  "The self-check is only called at the end of a few histories and only with length summaries; a diff applied at the wrong node, twice, or not at all on one path needs particular shapes and operation orders.",
  [L, IT], [("recursive summary refresh with and without diffs", L), ("dirty-leaf batch propagation", L), ("summary fix-up after split, merge, borrow and drain", L+", "+IT)],
  [("per-child cache and root cache", "summary of the subtree", L)], ["root_cache", "summaries shown to queries"], SMALL)

p("C05", "The tree stays well-formed and balanced",
  "After every completed public mutation all elements are at the same depth, no inner node other than an empty root is empty, none is left filled to capacity (there is always room for the next child), parent links agree with child lists, and no node exists that the tree cannot reach. The built-in self-check accepts every reachable tree. A tree grown and shrunk only by inserting and removing whole elements one at a time keeps every node except the root at least half full, so its height stays logarithmic; the reported depth and average number of children are the real ones.",
  ["histories"], "every history of public mutations; every tree shape they can reach",
  "Node split, borrow, merge and level reduction trigger only for particular occupancy combinations at several levels; sampled histories reach few of them and never check for leaked nodes or minimum occupancy.",
  [L, IT], [("split / split_root", L), ("lack handling: borrow and merge", L), ("level reduction", L), ("drain boundary repair", IT)],
  [("parent, parent_slot", "back links used by every upward walk", L)], ["check", "node_len", "depth", "child lists shown to queries"], SMALL)

p("C06", "Searching by position finds the element that holds that position",
  "For every position inside the tree, searching by length returns the element containing that unit and the offset of the unit inside it, marked as found; for a position at or past the end it returns the last element and reports not found. Elements of zero length are never returned for a position that another element holds. Searching a pair of positions gives the two single searches, the finder handed back names the node and slot that hold the element, and searching an empty tree gives nothing.",
  ["histories", "inputs"], "every position in, at the end of and past the end of every reachable tree, after every kind of mutation",
  "Tests search a few positions in a rope; off-by-one errors at element and node boundaries depend on the shape and on zero-length elements.",
  [LF, L], [("LengthFinder descent", LF), ("query / range", L)], (), ["query", "query_with_finder_return", "range"], SMALL)

p("C07", "Cursor movement and comparison follow content order",
  "From any cursor in any reachable tree, stepping to the next or previous element, shifting forward by one unit, preferring the left or right side of a boundary, and the first, last, start and end cursors all agree with the order in which the elements are iterated; stepping off either end gives nothing. Comparing two cursors gives less, equal or greater exactly according to that order. Zero-length elements are skipped when shifting by one unit, and crossing node boundaries makes no difference.",
  ["histories", "inputs"], "every cursor and every pair of cursors in every reachable tree",
  "One unit test compares cursors in one two-level tree; movement across node boundaries depends on parent links left behind by splits, merges and drains.",
  [L], [("next/prev at the same level", L), ("compare_pos", L), ("shift_path_by_one_offset", L)], (), ["next_elem", "prev_elem", "shift_path_by_one_offset", "prefer_left", "prefer_right", "compare_pos", "first_leaf", "last_leaf", "start_cursor", "end_cursor"], SMALL)

p("C08", "Iteration yields exactly the requested elements, in order, once each",
  "Iterating the whole tree yields every element once in content order. Iterating a range between two ordered cursors yields exactly the elements from the one holding the start to the one holding the end, with the start offset marked on the first and the end offset marked on the last; an exclusive end at the very start of an element leaves that element out, and unbounded ends reach the first and last element. Iteration of an empty tree yields nothing.",
  ["histories", "inputs"], "every ordered pair of cursors and every bound kind in every reachable tree",
  "No test covers ranges of cursors across node boundaries; the iterator walks paths rebuilt from parent links.",
  [L, IT], [("iter", L), ("iter_range", L), ("path iterator", IT)], (), ["iter", "iter_range"], SMALL)

p("C09", "Draining a range removes exactly that range",
  "Draining between two cursors or searched positions yields, in order, exactly the content of the range, split at the range's ends where they fall inside elements, and leaves the rest of the content in order. Dropping the drain early removes the whole range just the same. An empty range, a range at the very end, or an empty tree drains nothing and never panics, and the tree afterwards satisfies every other guarantee.",
  ["histories", "inputs"], "every range (both ends anywhere, including across any number of nodes and levels) of every reachable tree, consumed fully, partly or not at all",
  "Tests drain three or four ranges of one tree; the boundary repair depends on which nodes on both boundary paths become empty or under-full and at which levels.",
  [IT, L], [("Drain construction, iteration and drop", IT), ("sealing of the boundary", IT)], (("start/end path snapshot", "paths of both boundaries before removal", IT),), ["drain", "drain_by_query", "iter::Drain", "iter", "query"], SMALL)

p("C10", "A range update touches exactly that range",
  "Updating a range of cursors calls the update function exactly once, in order, for every piece of content in the range, split at the range's ends where they fall inside elements, and never for content outside it. Elements that the function makes removable disappear; everything else keeps its place. Summaries agree with the contents afterwards whenever the function reported its changes, and the pieces created by splitting are reported.",
  ["histories", "inputs"], "every range of every reachable tree and every mix of changed, removed and untouched elements",
  "The method itself is marked as needing better test coverage; tests use it on runs of equal-length elements with no removal.",
  [L], [("update with split, dirty map and deferred removal", L)], (), ["update", "iter", "root_cache", "returned split leaves"], SMALL)

p("C11", "Updating one element replaces it in place by the pieces given",
  "Updating one element by handle, or by search, replaces it by its new value followed by the extra pieces returned, leaving out the removable ones, with everything else unchanged. The call says whether the element's handle is still valid, which is false exactly when nothing of it is left, and reports every element that received an extra piece. The tree satisfies every other guarantee afterwards.",
  ["histories", "inputs"], "every element of every reachable tree and every combination of kept, emptied, grown, shrunk and split results with removable or non-removable extra pieces",
  "Tests exercise shrink-to-empty and single split; the normalisation of pieces, merging into the neighbour and node splits in the middle of the call depend on result combinations and occupancy.",
  [L], [("update_leaf", L), ("update_leaf_by_search", L)], (), ["update_leaf", "update_leaf_by_search"], SMALL)

p("C12", "Updating sub-ranges of many elements applies each update to its range only",
  "Given any set of sub-ranges of elements, each with an argument, the call applies each argument's update to exactly the content of its sub-range, splitting elements as needed and keeping all content in order; empty sub-ranges affect nothing. Overlapping sub-ranges receive all their updates. Every piece split off is reported, and summaries agree with the contents afterwards.",
  ["inputs", "histories"], "every choice of up to several sub-ranges over the elements of every reachable tree, including overlapping, nested, touching, full and empty ones",
  "No test calls this method.",
  [L], [("update_leaves_with_arg_in_ranges", L)], (), ["update_leaves_with_arg_in_ranges", "iter"], SMALL)

p("C13", "Bulk insertion equals inserting the items one after another",
  "Inserting a sequence of items at a cursor, or into an empty tree, changes the content into the old content with all items inserted there in the given order, however many there are and however they merge with each other or with the neighbours. Inserting no items changes nothing. The tree satisfies every other guarantee afterwards.",
  ["inputs", "histories"], "every sequence of mergeable and non-mergeable items, every length from none to several nodes' worth, every cursor of every reachable tree, and the empty tree",
  "Only ropes use it in tests, with chunks that are full and therefore never merge with each other or with the neighbour.",
  [L], [("insert_many_by_cursor", L), ("adjacent merge", L), ("subtree construction", L)], (), ["insert_many_by_cursor", "iter", "root_cache"], SMALL)

p("C14", "Building from an iterator gives exactly that sequence, ready for use",
  "A tree collected from any number of items contains exactly those items in order, is well-formed, has correct summaries at every level, and answers every search and traversal accordingly. Every later operation behaves on it as on a tree grown by insertion. Collecting nothing gives an empty tree.",
  ["inputs", "histories"], "every item count (none, one, node and level boundaries, beyond), followed by any operation",
  "One test collects one count and never modifies the result.",
  [L], [("FromIterator", L)], (), ["collect", "check", "query", "iter"], SMALL)

p("C15", "Element handles stay valid, and edits report what they moved",
  "The handle of an element that an operation does not target keeps denoting that element with unchanged content, through any splits, merges and level changes of the tree. After insertions and updates, content that is no longer under the handle it had is found under a handle the call reported. The handle of a removed element resolves to nothing, also after its place has been used again (clearing, which is documented to make a new tree, is the exception: what is inserted afterwards may get the same handles).",
  ["histories"], "every operation on every reachable tree and every handle held before it",
  "No test holds handles across operations, yet users keep them in external indexes.",
  [L, IT], [("arena handles independent of position", L), ("SplittedLeaves reporting", L)], (), ["get_elem", "returned cursors and split leaves"], SMALL)

p("C16", "Removing an element by handle removes it and nothing else",
  "Removing the element a cursor points into returns that element and leaves the content without it, everything else in place. Removing through a handle that is no longer valid returns nothing and changes nothing. Removing elements in any order down to an empty tree keeps every other guarantee at every step.",
  ["histories"], "every removal order from every reachable tree",
  "Tests remove in one random order; borrow, merge and level reduction depend on the occupancy of neighbours at each level.",
  [L], [("remove_leaf", L), ("lack handling", L), ("remove_internal_node", L)], (), ["remove_leaf", "iter", "get_elem"], SMALL)

p("C17", "A clone is equal and independent",
  "A cloned tree has the same content, summaries, shape and handles as the original. Any operation on either one has the same effect as it would have had on the original alone, and leaves the other unchanged.",
  ["histories"], "every reachable tree and every operation on the clone or the original",
  "No test clones a tree.",
  [L], [("Clone for the tree and its nodes", L)], (), ["clone", "iter", "root_cache", "query"], SMALL)

p("C18", "Emptied and cleared containers behave like new ones",
  "Once the last element is gone, by removal, draining, updating or clearing, a tree reports empty with the summary of a new tree, holds no leftover nodes, and every later operation behaves as on a new tree; the same holds for ropes and ordered containers. Read operations on an empty container give empty answers and do not panic.",
  ["histories"], "every way of becoming empty from every reachable container, followed by any operation",
  "Tests clear one tree with a single element and check that one insertion works.",
  [L, IT, RP, OR], [("clear", L+", "+RP), ("last-element removal paths", L+", "+IT)], (), ["is_empty", "root_cache", "node_len", "iter", "query", "drain_by_query"], SMALL)

p("C19", "Slicing helpers partition an element exactly",
  "For an element type that only defines how to take a slice, the provided helpers behave accordingly: slicing accepts every kind of bounds, splitting keeps the left part and returns the right part, and their concatenation is the original. Updating a sub-range applies the function to exactly that part, keeps the leftmost piece in place and returns the remaining pieces in order; an empty range changes nothing.",
  ["inputs"], "every element length and every pair and kind of bounds",
  "No test calls the update helper; the others are only exercised through types that override them.",
  [RL], [("Sliceable default methods", RL)], (), ["slice", "slice_", "split", "update_with_split"], None)

p("C20", "Filtered traversal visits exactly the selected elements",
  "Iterating with a filter yields, in order and once each, exactly the elements all of whose enclosing summaries, their own included, pass the filter, each with the accumulated value of everything before it. Editing with a filter calls the edit function exactly once for each such element and touches nothing else. The filter is consulted only below accepted summaries.",
  ["histories", "inputs"], "every reachable tree and every filter over summaries",
  "No test calls either method.",
  [L], [("iter_with_filter", L), ("update_cache_and_elem_with_filter", L)], (), ["iter_with_filter", "update_cache_and_elem_with_filter"], SMALL)

p("C21", "A range map built on the tree equals an array",
  "A map from ranges of positions to numbers built from the tree's public operations (search, range update, append, drain) always equals an array that received the same assignments, increments and removals, position by position. Adjacent ranges may be merged or split internally without any visible effect.",
  ["histories"], "every history of range assignments, range increments, removals and lookups",
  "The integration tests run five fixed histories and only check selected positions.",
  ["tests/range_num_map/mod.rs", L, IT, LF], [("composition of range search, update, push and drain", L)], (), ["get, iterate and length of the map"], SMALL)

p("C22", "Visiting what precedes a cursor covers exactly the content before it",
  "For any cursor, the visited summaries and elements, taken in the order they are presented, cover exactly the content before the cursor's element once and in order, followed by the element itself with the offset; a subtree that lies wholly before the cursor is visited as one summary. Adding them up therefore gives the absolute position of the cursor, the inverse of searching by position.",
  ["histories", "inputs"], "every cursor of every reachable tree, for order-sensitive summaries too",
  "Only a rope test helper uses it, with a length summary that cannot tell order.",
  [L], [("visit_previous_caches", L)], (), ["visit_previous_caches"], SMALL)

p("C23", "A user-defined search is shown the tree as it is and acts where it leads",
  "A user-defined search is shown, level by level from the root, exactly the children of the node it chose before, in order and with their current summaries, and is then asked to confirm the chosen element, each once. The result is that element with the offset the search gave, found exactly when every step said so; an empty tree consults nothing and gives nothing. Inserting, updating and draining by such a search, also when it says the target is missing, act at exactly the place it leads to.",
  ["histories", "inputs"], "every reachable tree, every element as goal, every step that may call the target missing",
  "Tests use two searches, by length and by key, and only on a few trees.",
  [L], [("query_with_finder_return", L), ("update_leaf_by_search", L), ("drain_by_query", L), ("fn insert", L)], (), ["query, range, insert, update_leaf_by_search, drain_by_query"], SMALL)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
