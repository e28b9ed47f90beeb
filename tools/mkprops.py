import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Contents equal the multiset built by the history of operations",
 "After any sequence of insert, insert_unique and remove on any valid configuration (1 <= min_children <= max_children/2), iterating the tree yields exactly the multiset of (key, value) pairs that a plain list model of the same history holds: nothing lost, duplicated or re-paired. len() is the size of that multiset and is_empty() is true exactly when it is 0. No operation in such a history panics.",
 ["histories","inputs","configurations"],"every finite history of mutating calls, every key geometry (including duplicates, nested and touching boxes), every valid min/max configuration and tree height",
 "The insert/remove tests run one seeded random sequence at max=4,min=2 and only check len, or that every removal returns the right value; multi-level splits, underflow re-insertion at several levels and root collapse are hit only by luck.",
 ["src/lib.rs","src/node.rs","src/split.rs","src/select.rs","src/fc_vec.rs"],
 [("insert descends, splits, grows the root","src/node.rs NodeRefMut::insert/self_insert, NodeContainer::branch"),("remove with re-insertion of underfull nodes' children","src/node.rs NodeContainer::remove"),("partition into two groups","src/split.rs QuadraticSplitter::split")],
 ["RTree::iter","RTree::len","RTree::is_empty"],
 [("root","the tree and its height","src/node.rs NodeContainer")])

p("C02","get and get_mut find a stored key exactly when it is present",
 "For every tree and every key (owned or borrowed form), get and get_mut return a value if and only if an entry with an equal key is stored. When several entries have that key they return the value of the entry that comes first in iteration order, and a write through get_mut changes that entry's value and nothing else.",
 ["inputs","histories"],"all trees reachable by any history, all probe keys present or absent, including keys whose bounds touch or lie inside several nodes, and duplicate keys",
 "The get/get_mut tests look up the single key of a one-entry tree; lookups through inner nodes with overlapping bounds and duplicates are never asserted.",
 ["src/lib.rs","src/node.rs"],
 [("descent into children whose bounds contain the key's bounds","src/node.rs NodeRef::get, NodeRefMut::into_get_mut"),("box containment","src/bounds.rs Contains for AABB")],
 ["RTree::get","RTree::get_mut"])

p("C03","insert_unique replaces the existing value or adds one entry, never both",
 "If the tree holds an entry with an equal key, insert_unique returns the previous value of the first such entry in iteration order, stores the new value in that entry and leaves the number of entries and every other entry unchanged. Otherwise it returns None and adds exactly one entry. A tree filled only through insert_unique never holds two entries with the same key.",
 ["inputs","histories","configurations"],"all trees, all keys, all overlaps of node bounds with the key (no node, one node, several nodes containing it), all valid configurations",
 "The test calls it twice on one key outside all existing bounds; the paths where one or several nodes contain the key, or where the unique insertion splits nodes up to the root, are unasserted.",
 ["src/lib.rs","src/node.rs"],
 [("none/only/multiple candidate child cases","src/node.rs NodeRefMut::insert_unique"),("single-candidate test","src/util.rs get_only")],
 ["RTree::insert_unique","RTree::iter"])

p("C04","remove takes out exactly one matching entry, the first, and keeps all others",
 "remove(key) returns None and leaves the entries unchanged if no entry has an equal key. Otherwise it removes exactly one such entry - the first one in iteration order, the one get(key) reports - and returns its value, and every other entry remains stored with its value. This holds however many nodes become underfull, are dissolved and have their children re-inserted, and when the root collapses.",
 ["inputs","histories","configurations"],"all trees, all keys present/absent/duplicated, all patterns of underfull nodes up to the root, all valid configurations",
 "The remove test removes unique random boxes and checks the returned values and emptiness at the end; duplicates, survivors' values after re-insertion, and deep underflow chains are not checked.",
 ["src/lib.rs","src/node.rs"],
 [("search, removal, underflow handling","src/node.rs NodeRefMut::remove"),("re-insertion per level and root collapse","src/node.rs NodeContainer::remove, try_unbranch")],
 ["RTree::remove","RTree::get","RTree::iter"])

p("C05","Every bounds object shown to a query is exactly the union of what lies below it",
 "After any history, each bounds value that a search passes to a filter or ranking is the union of the bounds of exactly the entries stored below that node: it covers every one of them (so pruning can never lose an entry) and covers nothing that was removed or moved elsewhere (so pruning stays effective).",
 ["histories","inputs","configurations"],"all histories of insert/insert_unique/remove, all key geometries, all node levels, all valid configurations",
 "The private BVH assertion is run on one random history at max=4,min=2 in two dimensions after plain insertions and removals; insert_unique paths and other shapes are not covered.",
 ["src/node.rs","src/split.rs","src/bounds.rs"],
 [("bounds maintenance on insertion, split and root growth","src/node.rs self_insert/insert/insert_unique/branch"),("bounds recomputation on removal","src/node.rs NodeRefMut::remove"),("group bounds","src/split.rs QuadraticSplitter::split")],
 ["SpatialFilter::test_bounds arguments seen through RTree::filter_iter"],
 [("Node::bounds","union of the children's bounds","src/node.rs Node")])

p("C06","The tree stays balanced and every node respects the configured child counts",
 "After any history on a valid configuration (1 <= min_children <= max_children/2) all leaves are at the same depth, no node has more than max_children children, every node except the root has at least min_children, and a root that is not a leaf has at least 2.",
 ["histories","inputs","configurations"],"all histories of insert/insert_unique/remove, all valid (min,max) pairs, all key geometries including many identical keys",
 "Occupancy is asserted by a private helper on one random insertion history at max=4,min=2; it is not asserted after removals, nor at other ratios such as odd max or min=max/2 at larger max.",
 ["src/node.rs","src/split.rs"],
 [("split keeps both groups at min_children","src/split.rs QuadraticSplitter::split"),("underfull nodes dissolved","src/node.rs NodeRefMut::remove"),("root growth and collapse","src/node.rs branch, try_unbranch")],
 ["sequence of test_bounds/test_key calls of RTree::filter_iter"])

p("C07","Filtered iteration returns exactly the matching entries, and prunes as told",
 "For every tree and every filter that satisfies the SpatialFilter contract, filter_iter yields each entry whose key the filter accepts exactly once, in the same relative order as iter(), and yields nothing else; after the end it keeps returning None. When the filter rejects a bounds, no key or bounds below that node is tested. A key is only tested after the bounds of a node it lies in were shown to the filter and accepted.",
 ["inputs","histories"],"all trees of any height, all filters (arbitrary accept/reject answers consistent with the contract)",
 "Filtered iteration is only exercised by the ignored-by-default cosmic test and the benchmark, and no test asserts its results.",
 ["src/iter.rs","src/lib.rs","src/iter_stack.rs"],
 [("stack of per-level iterators","src/iter.rs Iter::next, FilterIter")],
 ["RTree::filter_iter","RTree::iter"])

p("C08","Mutable traversals visit the same entries, once each, and writes stick",
 "iter_mut, filter_iter_mut, iter_asc_by_mut, filter_iter_asc_by_mut, min_by_mut and filter_min_by_mut yield the same entries as their shared counterparts (in the same order for the unranked ones, in valid rank order for the ranked ones), each at most once, so no two yielded &mut refer to the same value. Writes made through them are visible to later queries on exactly the entries they were made through.",
 ["inputs","histories"],"all trees, all filters and rankings satisfying their contracts, all subsets of entries written",
 "No existing test uses any of the mutable iterators.",
 ["src/iter.rs","src/lib.rs","src/node.rs"],
 [("mutable stack iteration","src/iter.rs IterMut, FilterIterMut"),("mutable best-first search","src/iter.rs SortedIterMut, FilterSortedIterMut")],
 ["RTree::iter_mut","RTree::filter_iter_mut","RTree::iter_asc_by_mut","RTree::filter_iter_asc_by_mut"])

p("C09","Ranked iteration yields every entry once, in ascending rank",
 "For every tree and every Ranking that satisfies its contract, iter_asc_by yields each entry exactly once in non-decreasing order of its key's metric, and min_by returns an entry of minimal metric (None only for an empty tree). A node is opened only if its lower bound does not exceed the metric of the next entry yielded.",
 ["inputs","histories"],"all trees, all rankings whose bounds_min is a lower bound that is monotone under containment, including ties between entries and between entries and nodes",
 "One 10x10 grid and one query point are tested, with the squared euclidean ranking only; min_by is never called.",
 ["src/iter.rs","src/lib.rs","src/ranking.rs"],
 [("best-first search with a heap keyed by (metric, level)","src/iter.rs SortedIter")],
 ["RTree::iter_asc_by","RTree::min_by"])

p("C10","Filtered ranked iteration drops exactly the entries whose metric is None",
 "For every tree and every Ranking with an optional metric that satisfies the contract, filter_iter_asc_by yields exactly the entries whose key metric is Some, each once, in non-decreasing metric order, and filter_min_by returns a minimal one of them or None if there is none.",
 ["inputs","histories"],"all trees, all optional-metric rankings consistent with the contract, including bounds that are None at any level",
 "Neither filter_iter_asc_by nor filter_min_by is called by any test.",
 ["src/iter.rs","src/lib.rs"],
 [("best-first search skipping None","src/iter.rs FilterSortedIter")],
 ["RTree::filter_iter_asc_by","RTree::filter_min_by"])

p("C11","join yields exactly the matching pairs, once each, for trees of any heights",
 "For any two trees (of equal or different heights and of different bounds, key and value types) and every JoinFilter satisfying its contract, join yields every pair of a left and a right entry whose keys match exactly once and nothing else. When the filter rejects a pair of bounds, no pair below it is tested.",
 ["inputs","histories"],"all pairs of trees with any combination of heights and sizes (including empty), all filters consistent with the contract",
 "join() itself is never called by a test (the test named join exercises left_join on two trees of equal size); only the product iterator of two slices is checked.",
 ["src/join.rs","src/lib.rs"],
 [("simultaneous descent with height padding","src/join.rs JoinIter::start_join/next"),("cartesian product of children","src/join.rs ProductIter")],
 ["RTree::join"])

p("C12","left_join yields every left entry once with exactly its matching right entries",
 "For any two trees of any heights and every JoinFilter satisfying its contract, left_join yields every left entry exactly once (also when nothing on the right matches), paired with an iterator that yields exactly the right entries whose keys match that left key, each once.",
 ["inputs","histories"],"all pairs of trees with any combination of heights and sizes (including empty), all filters consistent with the contract",
 "One pair of 50-entry point sets of similar height with one distance filter is compared; different heights, empty sides and left entries without matches are not.",
 ["src/left_join.rs","src/lib.rs","src/iter_stack.rs"],
 [("left traversal with rewindable right stack","src/left_join.rs LeftJoinIter::next, rewind"),("snapshot of the right stack per left entry","src/iter_stack.rs map_into")],
 ["RTree::left_join"])

p("C13","left_join's inner iterators stay valid and independent however they are used",
 "The inner iterator handed out for a left entry yields the same right entries whether it is drained at once, advanced partly and kept while the outer iterator moves on, or kept after the outer iterator was dropped; advancing one never affects another or the outer iterator. Every buffer they share is released exactly once, whatever the order in which outer and inner iterators are dropped.",
 ["schedules","histories","inputs"],"all interleavings of outer next, inner next, inner drop and outer drop, on trees of any heights",
 "The only test drains each inner iterator before the next outer step, so the case where a second buffer must be allocated is never reached through the API.",
 ["src/left_join.rs","src/rc_mut.rs","src/iter_stack.rs"],
 [("reusable shared box","src/rc_mut.rs RcMutAlloc::make_mut_init_raw, RcMut"),("layout of the boxed stack","src/iter_stack.rs IterStackAllocHelper")],
 ["RTree::left_join"],[("RcMutBox::shared","whether both sides still own the box","src/rc_mut.rs")])

p("C14","A clone is equal to and independent of its original",
 "clone() produces a tree with the same configuration and the same entries in the same structure (same iteration order, same bounds); afterwards any mutation of either tree leaves the other unchanged, the clone responds to further operations exactly as the original would have, and dropping either leaves the other usable.",
 ["histories","inputs"],"all trees of any height, all operations applied to either copy afterwards",
 "The clone test compares one freshly cloned tree; it never mutates or drops either copy afterwards.",
 ["src/node.rs","src/fc_vec.rs","src/lib.rs"],
 [("deep copy per level","src/node.rs Alloc::clone_node/clone_children"),("vector copy","src/fc_vec.rs Alloc::clone")],
 ["RTree::clone"])

p("C15","Every key and value is dropped exactly once and all memory is released",
 "Over any history of operations and any use of iterators (drained, abandoned part-way), each key and each value handed to the tree is either returned to the caller or dropped exactly once, at the latest when the tree is dropped, and then every allocation made by the tree has been freed. A key superseded by insert_unique, or belonging to a removed entry, is dropped by that call.",
 ["histories","inputs","configurations"],"all histories of insert/insert_unique/remove/clone/query followed by drop, all valid configurations",
 "test_drop counts drops after 50 insertions and one final drop; removal, re-insertion, replacement and clone are not covered, and heap blocks are never counted.",
 ["src/node.rs","src/fc_vec.rs","src/iter_stack.rs","src/rc_mut.rs"],
 [("manual drop of nodes","src/node.rs NodeRefMut::drop, InnerNodeChildrenRefMut::drop"),("vector drop and into_iter","src/fc_vec.rs FCVecRefMut::drop, IntoIter")],
 ["Drop of user keys/values","global allocator"])

p("C16","No call sequence touches memory it does not own",
 "Whatever safe calls a program makes (any history, any entry type including zero-sized and over-aligned ones, iterators abandoned or forgotten), the library never reads uninitialised, freed or out-of-bounds memory, never frees a block twice or with a layout other than the one it was allocated with, and never requests a zero-sized block from the global allocator.",
 ["histories","inputs","configurations"],"all histories of public calls, entry types of any size and alignment, all valid configurations",
 "The implementation is unsafe throughout; tests run natively without a memory checker and only with 4- and 8-byte aligned, non-zero-sized entries.",
 ["src/fc_vec.rs","src/node.rs","src/iter_stack.rs","src/rc_mut.rs","src/iter.rs","src/util.rs"],
 [("raw fixed-capacity vector","src/fc_vec.rs"),("implicit node levels selecting union variants","src/node.rs NodeChildren"),("iterator stack in a raw box","src/iter_stack.rs")],
 ["every public method of RTree and its iterators"])

p("C17","A panicking user callback never causes a double drop or invalid access",
 "If a user-supplied callback (bounds computation, key comparison, union, volume, filter, ranking, clone) panics at any point during any operation and the panic is caught, no key or value is dropped twice then or later, and the tree can still be iterated, queried and dropped without touching freed or uninitialised memory (entries may be lost or leaked).",
 ["fault_sequences","histories","inputs"],"every operation, every callback invocation index at which the panic is raised, all small trees",
 "No test contains a callback that panics.",
 ["src/node.rs","src/split.rs","src/fc_vec.rs","src/iter_stack.rs"],
 [("ptr::read/write windows without user code","src/node.rs branch, children, leak"),("initialisation guard","src/iter_stack.rs init_into Guard")],
 ["catch_unwind around every public method"])

p("C18","Box and vector algebra agrees with point-set geometry",
 "For axis-aligned boxes with min <= max: a box contains (and intersects) a point exactly when the point lies inside it, boundary included; it contains another box exactly when it contains both its corners; two boxes intersect exactly when they share a point, symmetrically; union is the smallest box containing both, commutative and associative, with empty() as identity (so union_all of nothing is empty()); a point, or a segment, is inside the box bounds() returns for it. volume() is the product of the side lengths, and vector arithmetic is componentwise.",
 ["inputs"],"all coordinates (whole range of the scalar type wherever no difference has to be formed), dimensions 1 to 3",
 "One pair of overlapping boxes is tested for intersects; contains, union, empty and volume are never asserted.",
 ["src/bounds.rs","src/vector.rs","src/contains.rs","src/intersects.rs","src/geom/line.rs"],
 [("AABB trait implementations","src/bounds.rs"),("componentwise operations","src/vector.rs")],
 ["Contains/Intersects/Bounds/Bounded/Volume for AABB","Vector for SVec"])

p("C19","The built-in filters return exactly the keys that geometrically match",
 "Searching a tree with IntersectsFilter, BoundedIntersectsFilter, ContainsFilter, BoundedContainsFilter or NoFilter built from a point, box or sphere yields exactly the entries whose key geometrically intersects (or lies inside) that shape, boundary included: a key that matches is never pruned by a bounds test of any box containing it.",
 ["inputs","histories"],"all integer query shapes and keys whose coordinate differences are representable, dimensions 1 and 2, all trees",
 "The only test using a built-in filter (a sphere over a star catalogue) needs a data file that is not in the repository; the benchmark discards the results.",
 ["src/filter.rs","src/bounds.rs","src/vector.rs","src/geom/sphere.rs"],
 [("bounds/key tests of the filters","src/filter.rs"),("shape bounds","src/geom/sphere.rs Bounded for Sphere")],
 ["RTree::filter_iter with built-in filters","Intersects/Contains for SVec, AABB, Sphere"])

p("C20","Segment and ray tests against boxes agree with exact geometry",
 "For integer coordinates, a Line (segment) or Ray (half-line from its origin along its direction) reports an intersection with a box whenever it passes through the box's interior or, when parallel to an axis, runs along or crosses its boundary, and reports none whenever it stays clear of the box by a margin above rounding error; a box behind a ray's origin is not hit, and flat (zero-width) boxes are not missed. If it reports a box it also reports every larger box containing that box, so searches never prune a match.",
 ["inputs"],"all small integer boxes, origins and directions including axis-parallel and zero components, dimensions 1 and 2 (3 for monotonicity)",
 "Three concrete segments are tested and no ray; boundary contact, zero direction components and boxes behind the origin are untested.",
 ["src/intersects.rs","src/geom/line.rs","src/geom/ray.rs","src/bounds.rs"],
 [("slab test","src/intersects.rs line_bounds_intersect, ray_bounds_intersect")],
 ["Intersects<SAABB> for Line and Ray and the reverse impls"])

p("C21","Distances are exact and box distances are lower bounds of key distances",
 "dist_sq between points is the sum of squared coordinate differences; a box's dist_sq to a point is the minimum over the points of the box (0 inside), so it never exceeds the distance to any key inside and never decreases when the box shrinks; sq_dist_to between two boxes is the minimum over pairs of their points and is symmetric. Hence EuclideanDistanceRanking satisfies the Ranking contract and a nearest-neighbour search by it returns a truly nearest entry.",
 ["inputs","histories"],"all integer coordinates whose differences and squares are representable in the metric, dimensions 1 to 3, all trees",
 "One grid with one centre is sorted by distance; box distances are never compared with an independent computation.",
 ["src/ranking.rs","src/bounds.rs","src/vector.rs"],
 [("clamping to the box","src/ranking.rs PointDistance for AABB"),("per-axis gap","src/bounds.rs SAABB::sq_dist_to")],
 ["PointDistance::dist_sq","SAABB::sq_dist_to","EuclideanDistanceRanking","RTree::min_by"])

p("C22","Queries on an empty tree return nothing and never panic",
 "On a tree that holds no entries - new, or emptied by removals - every query (iteration, filtered, ranked, join and left_join on either side, get, remove, clone) with every built-in filter and ranking and any in-range query shape completes without panicking and yields nothing (left_join still yields each left entry when only the right side is empty).",
 ["inputs","histories","configurations"],"all built-in filters and rankings, all query coordinates, new and emptied trees, all valid configurations",
 "No test queries an empty tree.",
 ["src/iter.rs","src/join.rs","src/left_join.rs","src/lib.rs"],
 [("handling of the root's bounds when it has no entries","src/iter.rs constructors, src/join.rs JoinIter::new, src/left_join.rs LeftJoinIter::next")],
 ["all query methods of RTree"])

p("C23","Lookups look only where the key can be, and stop at the first match",
 "get, get_mut and insert_unique compare the key looked for only with stored keys of nodes whose bounds contain its bounds, and remove only with keys of nodes whose bounds meet its bounds (on every level below the root); none of them compares a key stored after the first equal one in iteration order. So an exact lookup does not search the whole tree, and bounds that agree with the keys are all it relies on.",
 ["histories","inputs"],"all histories, configurations and keys",
 "No test counts comparisons; a lookup that scans every entry passes them all.",
 ["src/node.rs","src/lib.rs"],
 [("descent by bounds in lookups","src/node.rs NodeRef::get, NodeRefMut::{get_mut, insert_unique, remove}")],
 ["RTree::{get, get_mut, insert_unique, remove}"])

p("C24","A new entry goes to the child whose bounds grow least, then the smaller one",
 "On every level, insert and insert_unique (when it adds an entry) descend into a child whose bounds' volume grows least when united with the new key's bounds; among children that grow alike, insert takes one of smallest volume. Only the leaf reached this way takes the entry (or is split by it); all other leaves keep their entries.",
 ["histories","inputs"],"all histories, configurations, keys and volume functions that grow with the bounds",
 "Tests check bounds and child counts only; inserting into an arbitrary child passes them but makes searches degenerate.",
 ["src/select.rs","src/node.rs"],
 [("choice of the child","src/select.rs MinimalVolumeIncreaseSelector::select"),("descent","src/node.rs NodeRefMut::insert")],
 ["RTree::{insert, insert_unique}"])

p("C25","A JoiningFilter search yields exactly the right entries that join one key",
 "Searching a tree with JoiningFilter::new(key, join_filter) yields exactly the entries the join filter matches with that key, in iteration order, for every contract-honouring join filter; it asks the join filter only about that key and that key's own bounds, and skips every right key below bounds the join filter rejects for them.",
 ["histories","inputs"],"all trees, left keys and contract-honouring join filters, different types and dimensions on the two sides",
 "No test uses JoiningFilter.",
 ["src/filter.rs","src/iter.rs"],
 [("adapter from a join filter to a search filter","src/filter.rs JoiningFilter")],
 ["JoiningFilter::new","RTree::filter_iter","RTree::filter_iter_mut"])

p("C26","Joins test each pair of keys at most once, and only below accepted bounds",
 "For any two trees and every contract-honouring JoinFilter, join and left_join test a pair of keys only if the filter was shown, and accepted, the bounds of the leaves that hold them (in left_join: those of the right leaf, with some bounds the left key lies in); below a pair of bounds it rejected, neither keys nor bounds are tested; and no pair of keys is tested more than once, left_join's inner iterators included.",
 ["histories","inputs"],"all pairs of trees of any heights and all contract-honouring join filters",
 "Tests compare the yielded pairs with a nested loop; a join that is that nested loop passes them.",
 ["src/join.rs","src/left_join.rs","src/iter.rs"],
 [("pairing of children","src/join.rs JoinIter"),("candidate lists per level","src/left_join.rs LeftJoinIter")],
 ["RTree::join","RTree::left_join"])

p("C27","Searches ask about each node and key at most once, and not ahead of need",
 "A search or ranked search evaluates the filter or ranking at most once on each node's bounds and at most once on each key, however far it is driven. Filtered iteration is lazy: when an entry is yielded, no key stored after it, and no bounds of a node that only holds entries after it, has been tested yet.",
 ["histories","inputs"],"all trees and all contract-honouring filters and rankings",
 "Tests never count evaluations.",
 ["src/iter.rs","src/iter_stack.rs"],
 [("descent","src/iter.rs FilterIter*, SortedIter*, FilterSortedIter*")],
 ["RTree::{filter_iter, filter_iter_mut, iter_asc_by, iter_asc_by_mut, filter_iter_asc_by, filter_iter_asc_by_mut, min_by, min_by_mut, filter_min_by, filter_min_by_mut}"])

p("C28","A split separates two groups of children that are far apart",
 "When, in a tree of one-dimensional keys, an insert or insert_unique overfills a node, and the bounds of its max_children + 1 children fall into two groups, each of more than min_children members and each of an extent smaller than the gap between them, then the node is split into exactly these two groups: leaves and inner nodes alike, whatever the order of the children, the new one's place among them and the number of them.",
 ["inputs","histories","configurations"],"all trees, keys, configurations with min_children <= max_children/2 and orders of children",
 "Tests never look at the structure a split produces; any valid partition passes them, although a bad one costs every later query.",
 ["src/split.rs","src/node.rs"],
 [("seeds and assignment of the rest","src/split.rs QuadraticSplitter, worst_combination, best_candidate_for_group"),("overfull nodes","src/node.rs self_insert")],
 ["RTree::insert","RTree::insert_unique","filter_iter (through a filter that records the bounds it is shown)"])

p("C29","Equal histories build equal trees, and only effective calls change one",
 "A tree's structure (its levels, the entries of each node, the bounds shown to searches and the iteration order) is determined by its configuration and its sequence of inserts, insert_uniques and removes that added or removed an entry: two trees built by the same calls are alike in all of this. A remove that finds nothing, an insert_unique that only replaces a value, get, get_mut, cloning, and every search or join, drained or abandoned, leave it exactly as it was.",
 ["histories","inputs","configurations"],"all pairs of histories that differ only in calls without effect, all trees and keys",
 "Tests never compare two trees' structures, nor a tree before and after a lookup or a failed removal.",
 ["src/lib.rs","src/node.rs","src/split.rs","src/select.rs"],
 [("failed removal and replacement","src/node.rs NodeRefMut::remove, insert_unique"),("lookups by mutable reference","src/node.rs into_get_mut, src/iter.rs *Mut"),("choice among equals","src/select.rs, src/split.rs")],
 ["RTree::{iter, filter_iter} (through a filter that records the bounds it is shown)"])

p("N01","Trees and iterators cross threads only when their parts may",
 "RTree and its iterators implement Send and Sync exactly when the key, value, bounds (and filter) types make that sound.",
 ["programs"],"all key, value and bounds types",
 "Tests are single-threaded and never assert auto traits.",
 ["src/fc_vec.rs","src/node.rs","src/rc_mut.rs","src/iter.rs"],
 [("manual Send/Sync impls","src/fc_vec.rs")],["type checker"])
p("N02","No safe call violates Rust's pointer aliasing rules",
 "No sequence of safe calls makes the library break Rust's aliasing model (two live &mut to one place, a shared reference invalidated by a write), even where every access is in bounds of live memory.",
 ["histories","inputs"],"all histories of public calls",
 "Tests are not run under an aliasing checker.",
 ["src/iter.rs","src/iter_stack.rs","src/rc_mut.rs","src/node.rs"],
 [("raw pointer casts between stack views","src/iter_stack.rs")],["every public method of RTree and its iterators"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
