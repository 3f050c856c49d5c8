#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

H = "every history of operations, every configuration with max_children >= 2 and any min_children, every key set"
prop("C01", "The stored entries are exactly what the history of operations says",
 "After any history of insert, insert_unique, remove, in-place value writes and clones, a full iteration yields every entry that the history left in the map exactly once and nothing else, as a multimap starting empty would. len() is the number of those entries and is_empty() is true exactly when there are none. However an iterator is drawn from (next, nth, count, fold, ...), it gives the same, and its size_hint() is true.",
 ["histories", "inputs", "configurations"], H + " (duplicates, equal bounds with different keys, identical entries)",
 "The tests replay two fixed 50-entry histories with unique random keys and one configuration (4,2); most histories, duplicate keys, other configurations and deep trees with cascading reinsertion are never reached.",
 ["src/lib.rs", "src/node.rs", "src/fc_vec.rs", "src/split.rs", "src/select.rs", "src/iter.rs"],
 [("contents", "the bag of (key, value) entries in the leaves", "node.rs NodeChildren::leaf")],
 [("insert / split / branch", "node.rs NodeRefMut::insert, self_insert, NodeContainer::branch; split.rs"),
  ("remove / reinsert / unbranch", "node.rs NodeContainer::remove, NodeRefMut::remove"),
  ("full iteration", "iter.rs Iter::next")],
 ["RTree::iter", "RTree::len", "RTree::is_empty", "&RTree IntoIterator"])
prop("C02", "Lookup finds a key exactly when it is stored",
 "get and get_mut return a value exactly when an entry with an equal key is stored, namely the value of the first such entry in iteration order. This holds for the key type and for every borrowed form of it, and a lookup changes nothing.",
 ["histories", "inputs", "configurations"], "every reachable tree, every stored and absent key, owned and borrowed key forms",
 "get and get_mut are tested on a one-entry tree and three keys; trees where several overlapping nodes contain the key, duplicates and borrowed keys are never queried.",
 ["src/lib.rs", "src/node.rs", "src/bounds.rs"],
 [("contents", "the bag of entries", "node.rs leaves")],
 [("contains-pruned search", "node.rs NodeRef::get, NodeRefMut::into_get_mut, get_mut"), ("AABB::contains", "bounds.rs")],
 ["RTree::get", "RTree::get_mut"])
prop("C03", "insert_unique replaces the first equal entry or adds one, never duplicates",
 "If an equal key is stored, insert_unique replaces the value of the first such entry, returns the previous value and changes nothing else, not even the stored key; otherwise it adds the entry and returns None. A tree modified only through insert_unique and remove never holds two equal keys.",
 ["histories", "inputs", "configurations"], H,
 "One unique insert and one replacement of the same key are tested; the code has separate paths for no, one and several children containing the key and for splits below each, which only particular layouts reach.",
 ["src/lib.rs", "src/node.rs", "src/util.rs"],
 [("contents", "the bag of entries", "node.rs leaves")],
 [("get_only dispatch", "node.rs NodeRefMut::insert_unique; util.rs get_only")],
 ["RTree::insert_unique", "RTree::iter"])
prop("C04", "remove deletes exactly the first entry with an equal key",
 "If an equal key is stored, remove takes out exactly the first such entry in iteration order and returns its value, leaving every other entry stored and findable; otherwise it returns None and the tree is unchanged. This holds for borrowed key forms and however many nodes become underfull.",
 ["histories", "inputs", "configurations"], H,
 "The remove test empties one tree of unique keys in insertion order; removals with duplicates, absent keys, overlapping nodes, cascades over three levels and min_children of 0, 1 or more than half are not reached.",
 ["src/lib.rs", "src/node.rs", "src/fc_vec.rs"],
 [("orphans", "children of dissolved nodes awaiting reinsertion, one list per level", "node.rs NodeContainer::remove reinsert_entries")],
 [("search, dissolve, reinsert, shrink", "node.rs NodeRefMut::remove, NodeContainer::remove, try_unbranch")],
 ["RTree::remove", "RTree::iter", "RTree::get"])
prop("C05", "Bounds of every group cover its entries and are tight for boxes",
 "At every point of every history, the bounds that filters and rankings are shown for a group of entries contain the bounds of every entry and every group below it. When the union operation of the bounds type is exact, as for axis-aligned boxes, they equal the union of the bounds below, so no slack is left behind by splits or removals.",
 ["histories", "inputs", "configurations"], H + ", bounds types with exact and with over-approximating union",
 "The bounds are asserted for two random histories of one box type and one configuration only.",
 ["src/node.rs", "src/split.rs", "src/bounds.rs"],
 [("bounds", "bounding volume of a node", "node.rs Node::bounds")],
 [("incremental and recomputed unions", "node.rs insert, self_insert, insert_unique, remove, branch; split.rs split")],
 ["bounds passed to SpatialFilter::test_bounds", "Debug output of RTree"])
prop("C06", "The tree stays balanced with node sizes within the configured limits",
 "All entries are at the same depth, no node has more than max_children children, and every node except the root has at least min_children (at least one) children whenever 2*min_children <= max_children+1. A root above leaf level has at least two children.",
 ["histories", "configurations", "inputs"], H,
 "Minimum occupancy is asserted after 50 inserts with one configuration and never after a removal; the maximum, the depth and the root are not asserted.",
 ["src/node.rs", "src/split.rs", "src/fc_vec.rs"],
 [("children", "fixed capacity child vectors and the implicit level", "node.rs Node, NodeContainer::level")],
 [("quadratic split with minimum fill", "split.rs QuadraticSplitter::split"), ("condense and shrink", "node.rs remove, try_unbranch")],
 ["Debug output of RTree", "sequence of SpatialFilter callbacks"])
prop("C07", "Filtered iteration yields exactly the matching entries, each once",
 "For every tree and every filter whose bounds test accepts all bounds that contain a matching key, filter_iter and filter_iter_mut yield each entry whose key passes the key test exactly once and no other entry. The same holds when the filter works on a borrowed form of the key, and for a tree that is empty or rejected as a whole.",
 ["histories", "inputs", "configurations"], "every reachable tree and every conservative filter",
 "No reliable test checks the result of a filtered iteration at all (the only one needs a data file that is absent).",
 ["src/iter.rs", "src/iter_stack.rs", "src/filter.rs", "src/lib.rs"],
 [("stack", "one pending child iterator per level", "iter.rs TreeIter")],
 [("level-stack traversal", "iter.rs Iter::next, IterMut::next, FilterIter::new")],
 ["RTree::filter_iter", "RTree::filter_iter_mut"])
prop("C08", "A rejected group is pruned: nothing inside it is tested or yielded",
 "When a filter's bounds test rejects the bounds of a group, the filter iterators test and yield no key and no group inside it. When a join filter rejects a pair of groups, join and left_join test no pair of keys from inside that pair.",
 ["histories", "inputs", "configurations"], "every reachable tree or pair of trees and every filter",
 "No test observes which bounds and keys a filter is asked about.",
 ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/filter.rs"],
 [("callback sequence", "the calls a user filter receives", "filter.rs SpatialFilter, JoinFilter")],
 [("find with test_bounds before descending", "iter.rs Iter::next; join.rs JoinIter::next; left_join.rs LeftJoinIter::next")],
 ["SpatialFilter::test_bounds/test_key calls", "JoinFilter::test_bounds/test_key calls"])
prop("C09", "Ranked iteration is sorted and complete",
 "For every tree and every ranking whose lower bounds are valid, iter_asc_by and iter_asc_by_mut yield every entry exactly once in non-decreasing metric order, and filter_iter_asc_by and filter_iter_asc_by_mut do so for exactly the entries whose metric is Some. min_by, min_by_mut, filter_min_by and filter_min_by_mut return an entry of minimal metric, or None exactly when there is no candidate.",
 ["histories", "inputs", "configurations"], "every reachable tree and every valid ranking, with ties and loose lower bounds",
 "One 10x10 grid with one centre and iter_asc_by only is tested; the mutable, filtering and minimum variants, loose bounds, ties and empty trees are not.",
 ["src/iter.rs", "src/ranking.rs", "src/lib.rs"],
 [("heap", "pending groups and entries by (metric, level)", "iter.rs SortedIter::entries")],
 [("best-first search", "iter.rs SortedIter::next and its mutable and filtering variants")],
 ["RTree::iter_asc_by", "RTree::iter_asc_by_mut", "RTree::filter_iter_asc_by", "RTree::filter_iter_asc_by_mut", "RTree::min_by*", "RTree::filter_min_by*"])
prop("C10", "Ranked search is lazy: it opens only groups that can matter so far",
 "Before a ranked iteration yields an entry, it ranks the contents only of groups whose own lower bound is at most that entry's metric. A filtering ranked iteration never ranks the contents of a group whose lower bound is None.",
 ["histories", "inputs", "configurations"], "every reachable tree, every valid ranking, every prefix of the iteration",
 "No test observes which groups a ranking is asked about.",
 ["src/iter.rs", "src/ranking.rs"],
 [("callback sequence", "bounds_min and rank_key calls before each yield", "ranking.rs Ranking")],
 [("expand the least element of the heap only", "iter.rs SortedIter::next")],
 ["Ranking::bounds_min/rank_key calls"])
prop("C11", "Join yields exactly the matching pairs, each once",
 "For every two trees, of whatever heights and types, and every join filter that accepts all pairs of bounds containing a matching pair of keys, join yields each pair of entries whose keys pass the key test exactly once and no other pair.",
 ["histories", "inputs", "configurations"], "every pair of reachable trees (including empty ones and all height differences) and every conservative join filter",
 "join is not tested at all; only its product iterator is, on two 2-element arrays.",
 ["src/join.rs", "src/iter_stack.rs", "src/filter.rs"],
 [("stack", "one product iterator per level, padded for the shorter tree", "join.rs JoinIter")],
 [("simultaneous descent", "join.rs JoinIter::new, start_join, next; ProductIter")],
 ["RTree::join"])
prop("C12", "Left join yields every left entry once with exactly its matching right entries",
 "For every two trees and every conservative join filter, left_join yields each left entry exactly once, and the iterator yielded with it produces each right entry matching that left entry exactly once and no other. The inner iterators do not depend on each other or on the progress of the outer one: they may be advanced, kept or dropped in any order.",
 ["histories", "inputs", "configurations", "schedules"], "every pair of reachable trees, every conservative join filter, every interleaving of advancing and dropping outer and inner iterators",
 "One pair of same-height trees is joined, consuming each inner iterator at once, and left entries without matches are not checked.",
 ["src/left_join.rs", "src/rc_mut.rs", "src/iter_stack.rs", "src/iter.rs", "src/filter.rs"],
 [("left, right", "traversal stack of the left tree and rewindable stack of the right tree", "left_join.rs LeftJoinIter"),
  ("shared", "whether a stack buffer is lent to an inner iterator", "rc_mut.rs RcMutBox")],
 [("descend, ascend, rewind", "left_join.rs LeftJoinIter::next, rewind"), ("buffer reuse", "rc_mut.rs RcMutAlloc::make_mut_init_raw, RcMut::drop")],
 ["RTree::left_join and the iterators it yields"])
prop("C13", "In-place mutation reaches each entry once and changes only values",
 "Each mutable iteration (full, filtered, ranked) hands out a distinct mutable value for each entry it covers, all of which may be held at once, and paired with the key of that entry. A value written through any mutable access is what every later access finds for that entry, while the keys, the other values, the bounds and the arrangement of the tree stay as they were.",
 ["histories", "inputs", "configurations"], "every reachable tree, every mutable access path, every set of written entries",
 "get_mut is tested on a one-entry tree; no mutable iterator is tested.",
 ["src/lib.rs", "src/iter.rs", "src/node.rs"],
 [("contents", "entries and their values", "node.rs leaves")],
 [("mutable traversals", "iter.rs IterMut, FilterIterMut, SortedIterMut, FilterSortedIterMut; node.rs into_get_mut")],
 ["RTree::iter_mut", "RTree::filter_iter_mut", "RTree::iter_asc_by_mut", "RTree::filter_iter_asc_by_mut", "RTree::get_mut", "RTree::min_by_mut", "RTree::filter_min_by_mut"])
prop("C14", "Every key, value and allocation is released exactly once",
 "Each key, value and bounds object handed to or created by a tree is dropped exactly once, no later than when the tree, its clones and the iterators over them are gone, and a value that is removed or replaced is handed to the caller intact while the key that leaves with it is dropped during that operation. Every block of memory the library allocates is freed exactly once with the size and alignment it was allocated with, and is never written outside its extent.",
 ["histories", "inputs", "configurations", "schedules"], "every history including dropping trees and iterators at any point and in any order",
 "One test counts drops after inserts only; removal, replacement, clones, partially used iterators and the memory blocks themselves are not observed.",
 ["src/fc_vec.rs", "src/node.rs", "src/rc_mut.rs", "src/iter_stack.rs"],
 [("owner", "which container owns a key, value or buffer", "fc_vec.rs, node.rs NodeContainer, rc_mut.rs")],
 [("manual ownership transfer", "node.rs leak, children, drop; fc_vec.rs IntoIter, FCVecRefMut::drop; rc_mut.rs Drop; iter_stack.rs into_box, Drop")],
 ["Drop of keys, values and bounds", "the global allocator"])
prop("C15", "A clone is equal to the original and independent of it",
 "A cloned tree holds clones of exactly the same entries, yields them in the same order and has the same configuration and arrangement. Afterwards no operation on either tree is visible in the other, and either may be dropped first.",
 ["histories", "inputs", "configurations"], "every reachable tree and every pair of later histories of the two copies",
 "One clone of one tree is compared once, and neither copy is used afterwards.",
 ["src/lib.rs", "src/node.rs", "src/fc_vec.rs"],
 [("two trees", "original and copy", "lib.rs RTree")],
 [("recursive clone", "node.rs Alloc::clone_node, clone_children; fc_vec.rs Alloc::clone")],
 ["RTree::clone", "RTree::iter of both copies"])
prop("C16", "A panic in user code never causes a double drop or use of dropped data",
 "If a user-supplied operation (bounds, equality, union, containment, volume, clone, filter, ranking or drop) panics during any call, then afterwards every key, value and bounds object has been dropped at most once, what the tree still yields is undropped, pairwise distinct and was stored before or being inserted, and the tree can still be iterated and dropped.",
 ["fault_sequences", "histories", "inputs"], "every history, every operation and every user callback within it at which a panic can strike",
 "No test panics inside a callback.",
 ["src/node.rs", "src/fc_vec.rs", "src/split.rs", "src/rc_mut.rs", "src/iter_stack.rs"],
 [("ownership during an operation", "who owns moved-out entries while user code runs", "node.rs branch, remove; split.rs split")],
 [("user code runs only while all data has exactly one owner", "node.rs branch, leak, swap_remove; fc_vec.rs pop, IntoIter::drop; iter_stack.rs Guard")],
 ["catch_unwind around every public call", "Drop of keys, values and bounds"])
prop("C17", "Axis-aligned box operations agree with point-set semantics",
 "For boxes of any dimension and scalar type: a box contains or intersects a point or another (non-empty) box exactly when the (closed) point sets do, a point intersects a box exactly when the box contains it, the union is the least box containing both, union_all is the union of all members with the empty box for none, and the empty box is the identity of union. The volume is the product of the side lengths even where a side length exceeds the scalar type; where it has to be rounded, a flat box still has none and a union at least that of its members. Vectors are compared, and the least and greatest of two taken, componentwise.",
 ["inputs"], "all pairs of boxes and points, all dimensions, signed, unsigned and floating scalars, touching and degenerate boxes, extreme coordinates",
 "One pair of overlapping boxes is tested for intersection in one dimension count and scalar type; contains, union, empty and volume are not tested.",
 ["src/bounds.rs", "src/vector.rs", "src/contains.rs", "src/intersects.rs"],
 [("min, max", "corners of the box", "bounds.rs AABB")],
 [("componentwise comparisons", "bounds.rs AABB impls; vector.rs Vector for SVec")],
 ["AABB::contains", "AABB::intersects", "AABB::union", "AABB::union_all", "AABB::empty", "Volume::volume", "Bounded::bounds", "Vector::{all_le, all_ge, componentwise_min, componentwise_max}"])
prop("C18", "Line, ray and sphere predicates agree with exact geometry",
 "A line segment intersects a box exactly when it shares a point with the closed box; a ray (of non-zero direction) exactly when a point at or after its origin in its direction lies in the closed box; a sphere intersects a point exactly when their distance is at most the radius. The bounds of a line or sphere are the least box containing it, and both argument orders of a predicate agree. (For cases decided by rounding alone, either answer is accepted.)",
 ["inputs"], "all segments, rays, spheres, boxes and points, including axis-parallel, degenerate, touching and behind-the-origin cases, any number of dimensions",
 "Three line cases are tested, all in two dimensions; no ray or sphere is tested.",
 ["src/intersects.rs", "src/geom/line.rs", "src/geom/ray.rs", "src/geom/sphere.rs", "src/vector.rs", "src/bounds.rs"],
 [("t range", "parameter interval of the part inside the box", "intersects.rs")],
 [("slab clipping", "intersects.rs ray_bounds_intersect, line_bounds_intersect"), ("sphere test", "geom/sphere.rs")],
 ["Line::intersects", "Ray::intersects", "Sphere::intersects", "Line::bounds", "Sphere::bounds"])
prop("C19", "Distances are exact and lower-bound what lies inside a box",
 "The squared distance from a point to a point, from a point to a box, and between two boxes is the minimum over the points of the closed sets, zero exactly when they touch or overlap; that between two boxes for all coordinates of the scalar type whose squares f64 can represent. Hence the distance to a box never exceeds the distance to anything inside it, and nearest-neighbour iteration by EuclideanDistanceRanking visits entries in the order of their true distance. The length of a segment is the distance of its ends, its vector their difference; vectors are added and subtracted componentwise.",
 ["inputs", "histories"], "all points and boxes with representable squared distances, all dimensions and scalar types, all reachable trees",
 "One grid of points and one centre is tested; distances to boxes and between boxes are not tested directly.",
 ["src/ranking.rs", "src/bounds.rs", "src/vector.rs"],
 [("metric", "squared euclidean distance", "ranking.rs PointDistance")],
 [("clamping to the box", "ranking.rs PointDistance for AABB; bounds.rs sq_dist_to; vector.rs sq_mag")],
 ["PointDistance::dist_sq", "AABB::sq_dist_to", "Line::{delta, sq_len, len}", "SVec::sq_mag, +, -", "EuclideanDistanceRanking through RTree::iter_asc_by"])
prop("C20", "The built-in filters return what their geometry says, whatever the tree",
 "Querying a tree with IntersectsFilter, BoundedIntersectsFilter, ContainsFilter or BoundedContainsFilter over boxes, points, lines, rays and spheres yields exactly the entries whose key has the named geometric relation to the query shape. The result never depends on the shape of the tree.",
 ["inputs", "histories", "configurations"], "all query shapes and reachable trees with box, point and line keys in any number of dimensions",
 "The one test using a built-in filter needs a data file that is absent and checks no result; the benchmark ignores the results.",
 ["src/filter.rs", "src/iter.rs", "src/intersects.rs", "src/bounds.rs", "src/geom/line.rs", "src/geom/sphere.rs", "src/vector.rs"],
 [("filter", "query shape and its bounds", "filter.rs")],
 [("bounds test implied by the key test", "filter.rs SpatialFilter impls")],
 ["RTree::filter_iter with each built-in filter"])
prop("C21", "Every operation on valid input returns: no panic, no hang",
 "With max_children >= 2 and well-behaved user types, every operation and every iteration terminates without panicking on every reachable tree, including empty trees, any min_children (and any max_children for which a node fits in memory), duplicate or identical keys, and coordinates anywhere in the range of the scalar type (built-in distances, lines, rays and spheres: as long as the coordinate differences and squares are representable).",
 ["inputs", "histories", "configurations"], "every history and query, every configuration with max_children >= 2, every coordinate",
 "The tests use small positive coordinates, non-empty trees and min_children = 2.",
 ["src/lib.rs", "src/node.rs", "src/split.rs", "src/select.rs", "src/bounds.rs", "src/iter.rs", "src/join.rs", "src/left_join.rs"],
 [("tree", "any reachable tree", "lib.rs RTree")],
 [("empty-root guards, occupancy invariants behind unwrap/unreachable", "node.rs, iter.rs, split.rs")],
 ["every public function"])
prop("C22", "Threads share and exchange trees exactly as far as their parts allow",
 "A tree may be sent to another thread exactly when its bounds, keys and values may be, and shared between threads exactly when they may be. An iterator may be sent only if what it gives access to may be, the iterators of a left join, which share memory, never. Queries that several threads make of one tree at the same time each return what they would return alone, and trees (also clones of each other) that are changed by different threads or passed between them do not affect each other.",
 ["schedules", "inputs", "histories"], "every combination of sendable and shareable part types, every reachable tree, every interleaving of threads",
 "No test uses a second thread, or a type that must not go to one; the manual Send and Sync impls and the shared buffer of left joins are checked by nobody.",
 ["src/fc_vec.rs", "src/rc_mut.rs", "src/left_join.rs", "src/iter.rs", "src/node.rs"],
 [("owner", "raw buffers behind NonNull and Cell", "fc_vec.rs FCVecData; rc_mut.rs RcMutBox")],
 [("manual Send and Sync impls", "fc_vec.rs"), ("no interior mutability outside left joins", "rc_mut.rs")],
 ["trait selection by the compiler", "RTree queries from several threads"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), [len(p["title"]) for p in P if len(p["title"]) > 80])
