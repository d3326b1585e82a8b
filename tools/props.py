ONEIN = "the unit tests trace a handful of rays through one scene"

prop("C01", "Box tests never cull a hit and never accept disjoint slabs",
     "A single-ray, packet, binary-node or four-wide-node box test reports a hit whenever the three slabs of the ray overlap, the overlap ends after the start of the ray and begins before the ray's current hit distance. It reports no hit when the slabs do not overlap, and any distance it reports lies inside of the overlap. A packet hits exactly when one of its rays does, independently of the other rays.",
     ["inputs"], "every finite box and every ray or packet with NaN-free slab distances, all lanes independent",
     "Which comparison is decisive depends on the order of nine distances (and four rays or boxes at once); " + ONEIN + ", so most orderings and lane mixes are never seen.",
     ["src/aabb.rs", "src/bvh_node.rs", "src/mbvh_node.rs", "src/ray.rs"],
     [("slab tests", "src/aabb.rs Aabb::intersect, intersects, intersect4"), ("four-wide tests", "src/mbvh_node.rs MbvhNode::intersect, intersect4")],
     VF + "+ finite order-type abstraction",
     "Sound and complete over real arithmetic for every ordering of the slab distances; lanes are eliminated one at a time, so the packet result is shown to be the disjunction of the per-ray results. Rounding is outside; a boundary case (equal distances) may go either way." + TRUST)

prop("C05", "Unusable build input is reported as the documented error",
     "Every way to build a binary tree returns an error for zero primitives, an error carrying both counts when the number of boxes differs from the number of primitives, and a tree for all other input. None of them panics or starts to build before the input was accepted.",
     ["inputs"], "every number of primitives and boxes, boxes given or not, any leaf limit, all build algorithms",
     "The tests build one well-formed scene; error cases and count combinations are not visited for each algorithm.",
     ["src/bvh.rs", "src/builders/mod.rs"], [("input checks", "src/bvh.rs Builder::construct_*")],
     VF + "(decision diagram of the result compared with the error table)",
     "Complete over lengths: the result of each constructor is compared as a function of the two lengths." + TRUST)

prop("C06", "Construction uses the box of each primitive at that primitive's index",
     "During construction the box used for a primitive is the caller's box with the same index or, when none were given, the primitive's own computed box; primitives and the leaf limit reach the algorithm unchanged. Worker scheduling does not affect the pairing.",
     ["inputs", "schedules"], "every primitive slice, with and without boxes, every thread schedule of the box computation",
     "Whether parallel computation permutes the boxes depends on the scheduler and on large inputs; the tests compare neither.",
     ["src/bvh.rs"], [("box collection", "src/bvh.rs Builder::construct_*")],
     VF + "(element-wise identity of collections at the construction entry)",
     "Holds for a symbolic index, so for all indices; order-preserving collection of indexed parallel iterators is rayon's contract." + TRUST)

prop("C10", "Clustering keeps every node: each round moves or pairs it exactly once",
     "A tree built by clustering starts from one leaf per primitive, in the order of the index list, with a box around its primitive. Each round moves every node of the current level to exactly one slot of the next: an unpaired node unchanged, the two nodes of a mutual pair to the two child slots of a new interior node whose box contains both. Finished levels are carried over unchanged, rounds go on until one node is left, and that tree with all 2n-1 nodes is the result; very small inputs give one leaf with all primitives.",
     ["inputs"], "every primitive list, every neighbour relation within the level, every round",
     "The tests build one teapot and look at its outer bounds; a node lost or doubled in one round for one pairing pattern, or a range off by one in a late round, changes neither.",
     ["src/builders/locb.rs", "src/utils.rs"],
     [("pairing and moves", "src/builders/locb.rs cluster"), ("ranks", "src/utils.rs prefix_sum"), ("rounds and leaves", "src/builders/locb.rs build")],
     VF + "of one round and of the build loop, slot indices decided by linear integer reasoning; loop invariants of the ranges",
     "Complete over all neighbour lists that stay inside of the level; that the nearest neighbour search gives such lists is property C32." + TRUST)

prop("C11", "Refitting makes every box bound its subtree again and keeps the tree",
     "After refitting with new primitive boxes, every leaf box contains the new boxes of all its primitives and every interior box contains its children's, without growing by more than a small padding. Topology, leaf ranges, primitive indices and node count stay the same.",
     ["inputs", "histories"], "every tree whose children are stored after their parent, every slice of new boxes",
     "A refit that is wrong for one node, one axis or one shape of tree only loses hits for particular rays after particular motion; the tests refit one scene.",
     ["src/bvh.rs", "src/aabb.rs"], [("bottom-up pass", "src/bvh.rs Bvh::refit")],
     VF + "(loop transition of the node array)",
     "One symbolic iteration covers all nodes; the children-after-parents storage order is an assumption decided separately for the builders. Boxes within +-1e30." + TRUST)

prop("C16", "Box algebra",
     "Unions, growth, intersections, offsets, list constructions, corners, centres, lengths, areas and volume of boxes equal their componentwise definitions for all operands; corner views, conversions, indexing by axis and the extents of a box agree with its two corners. A box made by the aabb! macro is that of all its vertices. In-place updates leave the payload slots of the box alone, and comparison and containment agree with the coordinates.",
     ["inputs"], "all operand boxes and points (real arithmetic), lists of any length",
     "Each operation has per-axis code; a slip on one axis or operand order shows only for particular operands, and most operations have no test at all.",
     ["src/aabb.rs"], [("box operations", "src/aabb.rs impl Aabb, BoundingBox for Aabb")],
     VF + "(symbolic equality with the definition)",
     "Equality of normal forms over the reals for every coordinate; list-built boxes may be padded by at most 0.01." + TRUST)

prop("C17", "Rays and packets are consistent however they are made",
     "Every public way to make a ray or packet stores an inverse direction that is the componentwise reciprocal of the direction, signs that select the near and far planes correctly (also for negative zero), and the given origin and direction in the right lane. A fresh or reset ray has an empty hit distance, and a ray taken out of a packet equals its lane and starts where every new ray does.",
     ["inputs"], "all directions and origins (including zero and negative zero components), every lane",
     "The tests make rays with a few fixed directions; the lane bookkeeping and zero components are not covered.",
     ["src/ray.rs"], [("constructors", "src/ray.rs Ray::new, RayPacket4::new, RayPacket4::ray, conversions")],
     VF + "(symbolic equality with the definition)",
     "Equality of normal forms per component and lane; the reciprocal of zero is treated as a formal inverse." + TRUST)

prop("C02", "A binary-tree traversal yields exactly the primitives of the hit leaves",
     "Iterating a binary tree with a ray or a packet yields, for every leaf whose chain of boxes is hit, each of its primitive ids once and in stored order, nothing else, and ends only when no pending node is left. An empty tree or a ray that is not a number yields nothing. The index iterators and the primitive iterators visit the same leaves.",
     ["inputs", "histories"], "every well-formed tree, ray, packet and state of a partly consumed iterator (the caller may shorten the ray between steps)",
     "Which branch a step takes depends on the stack and cursor left by all earlier steps; " + ONEIN + ".",
     ["src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs", "src/bvh.rs"],
     [("iterator step", "src/iter.rs, src/iter_indices.rs next()"), ("child ordering", "src/bvh_node.rs BvhNode::sort_nodes"), ("entry points", "src/bvh.rs Bvh::traverse_iter*")],
     VF + "(loop transition of the pending-work multiset)",
     "Each step is shown to keep the multiset of pending work for a symbolic stack, so the result follows by induction over steps for every tree. Box tests are those of C01; memory safety of the stack is C04." + TRUST)

prop("C03", "A wide-tree traversal yields exactly the primitives of the hit lanes",
     "Iterating a four-wide tree with a ray or a packet yields, for every leaf lane whose chain of lane boxes is hit, each of its primitive ids once and in stored order, nothing else, and ends only when nothing is pending. Dead lanes are never visited; an empty tree yields nothing.",
     ["inputs", "histories"], "every well-formed wide tree, ray, packet and state of a partly consumed iterator",
     "A step depends on the lane index, range cursor and hit mask left behind by earlier steps and on the order of four hit distances; " + ONEIN + ".",
     ["src/iter.rs", "src/iter_indices.rs", "src/mbvh_node.rs", "src/bvh.rs"],
     [("iterator step", "src/iter.rs, src/iter_indices.rs next()"), ("entry points", "src/bvh.rs Mbvh::traverse_iter*")],
     VF + "(loop transition of the pending-work multiset)",
     "As C02; a node is expanded into a hit mask and lane order, and each lane is shown to be taken exactly once." + TRUST)

prop("C12", "Making a tree four-wide keeps every leaf once, under a box around it",
     "Turning a binary tree into a wide one puts every leaf of the binary tree into exactly one lane, with its primitive range and a box that contains the leaf's box, reachable from wide node 0 through lanes whose boxes contain it. All other lanes are dead, every wide node is used by at most one lane, nodes and indices of the binary tree are kept. This also holds for trees that are a single leaf, for small trees copied directly and for the empty tree.",
     ["inputs"], "every well-formed binary tree of any size whose parent boxes contain the child boxes",
     "Which of eight leaf/inner combinations a node has decides the lane layout; the tests collapse two scenes and compare hit distances only.",
     ["src/mbvh_node.rs", "src/bvh.rs"], [("collapse", "src/mbvh_node.rs MbvhNode::merge_nodes"), ("constructors", "src/bvh.rs Mbvh::construct, construct_from_raw")],
     VF + "(one inductive collapse step for a symbolic node)",
     "One step with its recursive calls is decided for every shape of the two levels below a node; the rest is induction over the tree." + TRUST)

prop("C13", "The C interface builds trees from the caller's arrays",
     "The exported build functions read element i of the caller's boxes, centres and triangle vertices at the documented strides as primitive i, however large the arrays are, treat a null box array as absent and leaf limit 0 as unset, run the requested algorithm, and answer null arguments with an error. C structs have the documented layout and match the Rust structs they are read as, and their conversions keep every component.",
     ["inputs"], "all arrays, counts and strides (multiples of four), both algorithms and centre strides, every primitive index",
     "Stride and offset arithmetic goes wrong only for particular layouts; no test calls the C interface.",
     ["rtbvh_ffi/src/lib.rs"], [("build functions", "rtbvh_ffi/src/lib.rs create_bvh, create_spatial_Bvh, copy_aabbs"), ("layout", "rtbvh_ffi/src/lib.rs RTAabb, RTBvhNode, RTMbvhNode")],
     VF + "(symbolic element identity) and layout comparison",
     "Decided for a symbolic primitive index and symbolic strides; an offset that is a product of index and stride may not be kept in 32 bits anywhere." + TRUST)

prop("C14", "The C intersection functions hand rays, hits and results through",
     "Each exported intersection function answers a null tree with an error and a non-number with Nan without writing or calling back; otherwise it traverses the caller's nodes and indices with the caller's ray or packet and distances, calls back once per visited primitive with that ray's distance and the user pointer, stops when the callback says so, and afterwards the caller's distances are the ray's.",
     ["inputs", "histories"], "every tree handle, ray, packet, distance and callback behaviour",
     "The interplay of callback results, shortened distances and early outs is driven by foreign code; no test calls the C interface.",
     ["rtbvh_ffi/src/lib.rs"], [("hit loops", "rtbvh_ffi/src/lib.rs intersect, intersect_packet, intersect_mbvh, intersect_mbvh_packet")],
     VF + "(symbolic iteration of each hit loop)",
     "The callback is an arbitrary function that may change the distances; what the traversal visits is C02 and C03." + TRUST)

prop("C15", "C handles name exactly one stored tree, for as long as it is not freed",
     "A successful build or conversion through the C interface stores exactly one tree and returns a handle with that tree's index, counts and addresses; a failed one stores nothing and reports its cause. Refit and conversion work on the handle's own tree, refit reads one box per referenced primitive, unknown handles are answered with an error, and freeing a tree empties only it and never renumbers others.",
     ["inputs", "histories"], "every sequence of calls, every handle value, every state of the registries",
     "Mixed-up handles show only after particular histories of building, converting and freeing; no test calls the C interface.",
     ["rtbvh_ffi/src/lib.rs"], [("registries", "rtbvh_ffi/src/lib.rs BvhManager, store, create_mbvh, refit, free_bvh, free_mbvh, init")],
     VF + "(effects on the registry state compared with the specified transition)",
     "Each exported call is one transition on symbolic registry contents, so sequences follow by induction. Fewer than 2^32 trees. Locks: C31." + TRUST)

prop("C31", "The locks of the C interface cannot deadlock and no callback runs under one",
     "Concurrent calls into the C interface never wait for each other in a cycle, no lock is taken again while the same call holds it, the caller's callback functions run with no lock held so that they may call the interface themselves, and every lock taken is released on return.",
     ["schedules"], "every interleaving of calls from any number of threads, callbacks that call back in",
     "A lock cycle needs two threads inside of two calls at the same instant; no test calls the C interface at all.",
     ["rtbvh_ffi/src/lib.rs"], [("locks", "rtbvh_ffi/src/lib.rs BvhManager and its users")],
     "may-held lock dataflow over MIR with call summaries; cycle check of the lock-order graph; no guard leaks or lock bypasses",
     "Sound for all paths and schedules over lock classes told apart by the protected type; trusts the MIR extraction and parking_lot.")

prop("C04", "Traversal never reads outside of the tree, the indices or its own stack",
     "During a traversal of a well-formed tree every access to the node array, the index array, the primitive slice and the traversal stack is inside of that array, for trees of any depth, and a pushed entry is what a later pop returns. No traversal path reads a stack slot that was not written.",
     ["inputs", "histories"], "every well-formed tree of any depth and shape, every ray and packet, every number of steps",
     "Unchecked accesses go wrong for deep or degenerate trees only, and then often silently; " + ONEIN + ".",
     ["src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs", "src/mbvh_node.rs", "src/utils.rs"],
     [("stack", "src/iter.rs TraversalStack"), ("unchecked accesses", "src/iter.rs, src/iter_indices.rs next()")],
     VF + "(index-range obligations under an inductive invariant)",
     "A lemma on the stack (length, inline and spilled part) and an invariant of each iterator, shown for the constructors and kept by every step; every index expression must follow from them." + TRUST)

prop("C21", "Vector loads read memory that is large enough and aligned for them",
     "Every aligned SIMD load or store and every reference made by casting a pointer to a more strictly aligned or differently laid out type refers to memory that the type of its owner guarantees to be aligned and large enough, in the library and in the C interface, for objects on the stack, in vectors and in callers' hands.",
     ["inputs"], "every object the library can be handed, at any address its type allows",
     "A misaligned vector load faults only at some addresses, which the allocator and the stack layout choose; the tests see one layout.",
     ["src/aabb.rs", "src/bvh_node.rs", "src/mbvh_node.rs", "src/ray.rs", "src/lib.rs", "rtbvh_ffi/src/lib.rs"],
     [("vector loads", "src/aabb.rs, src/mbvh_node.rs"), ("pointer casts", "src/bvh_node.rs, src/lib.rs, rtbvh_ffi/src/lib.rs")],
     "provenance dataflow over MIR: each load and cast is traced to a typed place whose layout gives its alignment and size",
     "Covers every vector load and every alignment-raising pointer cast in both crates; layouts are the compiler's. Memory that C callers own is trusted to have the alignment of the documented struct.")

prop("C23", "Triangle intersection reports exactly the nearest hits inside of a triangle",
     "The provided triangle tests, for one ray and for a packet, report a hit only for a point of the ray that lies in the triangle, after the start distance and not beyond the ray's current hit distance, and report every such point, on edges too, of a triangle that is not seen edge-on. On a hit the ray's distance becomes the distance of that point, otherwise it and everything else stays as it was; lanes of a packet are independent.",
     ["inputs"], "all triangles, rays, packets, start and hit distances (real arithmetic)",
     "A wrong sign, edge or lane in the determinant formulas loses or invents hits for particular rays only; the tests trace few rays and never the packet version against the single one.",
     ["src/builders/spatial_sah.rs"], [("triangle tests", "src/builders/spatial_sah.rs SpatialTriangle::intersect, intersect4")],
     VF + "(rational normal forms) + finite order-type abstraction",
     "The compared quantities are shown to be the barycentric coordinates and the distance as rational functions, and the hit condition to follow from their order. Rounding and determinants below 0.001 are outside." + TRUST)

prop("C24", "Cutting a triangle yields boxes that cover its two parts and stay on their side",
     "Splitting a triangle by an axis-aligned plane returns two boxes: each contains the part of the triangle on its side of the plane, neither reaches past the plane (beyond a small padding), and neither is larger than the bounding box of its part. Corners exactly on the plane belong to both parts.",
     ["inputs"], "all triangles, all three axes, all plane positions (real arithmetic)",
     "Each of three edges has its own crossing code and each vertex its side; a slip loses a sliver of geometry only for particular triangles, and no test looks at the boxes.",
     ["src/builders/spatial_sah.rs"], [("triangle split", "src/builders/spatial_sah.rs SpatialTriangle::split")],
     VF + "(rational normal forms) + finite order-type abstraction",
     "Three runs per axis with each vertex as base cover all sign patterns; crossing points are exact rational functions." + TRUST)

prop("C07", "The binned SAH builder puts every primitive into exactly one leaf",
     "A tree built by the binned SAH builder from n primitives refers to each of the ids 0..n in exactly one leaf: its index array is a permutation of 0..n, the leaf ranges cut it into adjoining non-empty parts, the two children of a node are a pair of nodes of their own, and the returned node array holds exactly the allocated nodes, which always fit.",
     ["inputs", "schedules"], "every primitive and box array, bin count, leaf size and depth limit, and every order in which worker threads run the tasks",
     "An id that is lost or doubled at one of the split edge cases (empty sides, equal centres, depth limit, many primitives) makes a primitive invisible; tests build one mesh and compare pictures.",
     ["src/builders/binned_sah.rs", "src/utils.rs"], [("task", "src/builders/binned_sah.rs Task::run"), ("root task and result", "src/builders/binned_sah.rs build"), ("partition", "src/utils.rs partition")],
     VF + "+ linear integer reasoning on the branches (convex polyhedra)",
     "Each obligation is about one task with symbolic range, node and split; the induction over tasks is by the rules themselves. The partition loop has an inductive lemma." + TRUST)

prop("C08", "The boxes of a binned SAH tree contain every primitive below them",
     "In a tree built by the binned SAH builder the box of every node contains the boxes of all primitives in the leaves below it, also when coordinates fall exactly on bin borders or rounding moves them across: the computation that fills the bins and the one that distributes the primitives agree for every value.",
     ["inputs"], "all primitive boxes and centres (finite floats, with their rounding), all split choices",
     "A box that misses a primitive loses hits only for rays through the missing sliver; it needs a centre on a bin border or a rounding difference between two formulas, which the one mesh of the tests does not have.",
     ["src/builders/binned_sah.rs", "src/aabb.rs"], [("bins and boxes", "src/builders/binned_sah.rs Task::run"), ("root box", "src/builders/binned_sah.rs build")],
     VF + "with uninterpreted rounding float operations + linear integer reasoning on the branches",
     "Exact about rounding: only identical floating point computations are considered equal. Boxes are followed from the nodes through the bins to the filling loop." + TRUST)

prop("C19", "Every build task runs exactly once and a worker's panic is passed on",
     "Whatever number of threads, work sizes and depths: every build task that a builder or a running task creates is run exactly once before the build returns. None is dropped, overwritten, duplicated or left behind in a queue. A panic in a worker thread reaches the caller instead of leaving a silently incomplete tree.",
     ["schedules", "inputs"], "every thread schedule, task tree, work size threshold and queue state",
     "Which tasks are spawned and which are queued depends on work sizes around the threshold and on timing; the tests build trees of one size, and a task that is lost under rare conditions leaves parts of the tree empty.",
     ["src/utils.rs", "src/builders/binned_sah.rs", "src/builders/spatial_sah.rs"],
     [("task queue", "src/utils.rs TaskSpawner::run_task"), ("entry", "src/utils.rs TaskSpawner::run"), ("task creation", "src/builders/*_sah.rs build, Task::run")],
     "ownership (linear typestate) dataflow over MIR",
     "A may-analysis to a fixpoint over every body that can own a task, with facts about emptiness and variants; unknown uses of a task are reported. Trusts crossbeam to run a spawned closure once and the MIR extraction.")

prop("C20", "Concurrent node allocation hands out each pair of nodes once, in bounds",
     "Under every interleaving of worker threads an allocation returns two nodes that no other allocation returns, never the root, always inside of the node pool, with numbers that match the references. Clones of the allocator share the pool and counter. The slice wrapper below it gives exactly the elements asked for.",
     ["schedules", "histories"], "every interleaving of any number of allocations by any number of threads, every pool size the builders use",
     "Two threads that get the same node need an interleaving inside of the allocation that tests practically never produce, and its effect is a corrupted tree somewhere else.",
     ["src/builders/mod.rs", "src/utils.rs", "src/builders/binned_sah.rs", "src/builders/spatial_sah.rs"],
     [("allocation", "src/builders/mod.rs AtomicNodeStack"), ("shared slices", "src/utils.rs UnsafeSliceWrapper"), ("pools", "src/builders/*_sah.rs build")],
     VF + "+ effect analysis of the shared counter and the private fields",
     "The claim about interleavings rests on one atomic read-modify-write being the only access that changes the counter, which is checked." + TRUST)

prop("C18", "Every order used for sorting is a total preorder, even with NaN coordinates",
     "Whatever numbers the primitives contain, including NaN, infinities and signed zeros, the order by which the builders sort references or Morton codes is reflexive, antisymmetric and transitive, and comparing never panics. A sort therefore never panics and always gives a sorted permutation.",
     ["inputs"], "every three elements, every key value including NaN",
     "An order that breaks only for NaN keys, or whose equivalence is not transitive, sorts test data correctly; the standard library may panic on it for other data.",
     ["src/builders/spatial_sah.rs", "src/morton.rs"],
     [("comparators", "src/builders/spatial_sah.rs find_object_split, src/morton.rs get_sorted_indices")],
     VF + "(laws of a total preorder on the comparator's decision diagram for three symbolic elements)",
     "Complete over key orders; every sorting call found in the intermediate representation is covered, and floating-point keys must be compared by a total order." + TRUST)

prop("C09", "A spatial SAH tree keeps every primitive in its leaves",
     "In a tree built by the spatial SAH builder each of the primitives 0..n is referred to by at least one leaf, and wherever a primitive was cut the two pieces together cover what was there and end up in the two parts of the tree. Leaf ranges cut the index array into adjoining parts with no made-up ids. No task reads or writes references outside of the space it was given, however much free space there is and however the splits fall.",
     ["inputs", "schedules"], "every primitive and box array, split space, threshold, leaf size and depth limit, every split the heuristic may choose, every order of running tasks",
     "References are moved, swapped and cut in place in three arrays; a slip at an edge (no space left, everything on one side, no left space) loses one primitive in one subtree, and only for inputs in which boxes overlap enough to make spatial splits happen.",
     ["src/builders/spatial_sah.rs", "src/utils.rs"], [("splits", "src/builders/spatial_sah.rs apply_object_split, apply_spatial_split"), ("space", "src/builders/spatial_sah.rs allocate_children"), ("leaves", "src/builders/spatial_sah.rs Task::run"), ("root", "src/builders/spatial_sah.rs build")],
     VF + "+ linear integer invariants of the reference loops, array contents as chains of swaps, copies and stores",
     "Each obligation is about one task with symbolic range, space and split; the induction over tasks is by the rules themselves." + TRUST)

prop("C25", "The boxes of a spatial SAH tree contain every piece below them",
     "In a tree built by the spatial SAH builder the box given to a node contains the boxes of all references (primitives or the pieces left after cutting) of the leaves below it, for object splits, the median split that is used when nothing is worth it, spatial splits with and without free space, and the fallback when all references lie on one side.",
     ["inputs"], "all references (finite boxes), every split the heuristic may choose, every amount of free space",
     "A reference that goes to a side whose box was not grown by it is invisible for rays through the missing part; it needs a full split space or a degenerate split, which the mesh of the tests does not reach in every branch.",
     ["src/builders/spatial_sah.rs"], [("sweep", "src/builders/spatial_sah.rs find_object_split"), ("cut", "src/builders/spatial_sah.rs apply_spatial_split"), ("median", "src/builders/spatial_sah.rs Task::run"), ("children", "src/builders/spatial_sah.rs allocate_children")],
     VF + "with inferred and checked invariants about which range of references an accumulated box covers",
     "Complete over contents, ranges and splits of one task. Measures (area, cost) are arbitrary numbers, so the result holds for every heuristic." + TRUST)

prop("C26", "Trees are handed out, viewed and stored as they are",
     "The views, raw parts, counts and boxes that a Bvh or Mbvh gives out are its own nodes and primitive indices, whole and in order. A count or child index put into a node is read back as it is, for every value below 2^31, an absent one as absent, and nothing else in the node changes; the kind a node says it is agrees with what can be read from it. A tree names the builder that made it. With the serde feature every field of a tree, node, box or ray is written, and is read back into the same field.",
     ["inputs"], "every tree, node and value; every type that can be stored",
     "Renderers upload raw nodes to a GPU or store built trees; a swapped or truncated part, or a field that is skipped, is noticed only there. No test reads back a node or stores a tree.",
     ["src/bvh.rs", "src/bvh_node.rs", "src/mbvh_node.rs", "src/aabb.rs", "src/ray.rs"],
     [("accessors", "src/bvh.rs nodes, indices, quad_nodes, into_raw*, bounds, prim_count"), ("node codec", "src/bvh_node.rs set_count, set_left_first, get_*, is_*"), ("serde", "derived impls, feature serde")],
     VF + "compared with the stored fields; field-order check of the derived serialisation",
     "Complete for accessors and the node codec. Serialisation is checked for sequence order, names in self-describing formats are not." + TRUST)

prop("C36", "Views and traversals cannot outlive what they borrow; trees own what they need",
     "Code that keeps a view of a tree (nodes, indices), a traversal or a ray or primitive yielded by one beyond the life of the tree, slices, primitives or ray it was made from is refused by the compiler, and so is code that changes the tree or uses the ray elsewhere while the traversal is still in use. This holds for both trees and each way to start a traversal. A built tree owns its contents: it outlives boxes, primitives and the tree it was made from. Trees, boxes, rays and errors can be sent to and shared among threads, and a tree can be traversed by many threads at once.",
     ["inputs", "schedules"], "every program that uses the public interface of trees, views and traversals in one of the enumerated ways",
     "The traversals hand out references made by unsafe code, so only their signatures keep a safe program from reading freed memory. A test can only contain programs that compile.",
     ["src/bvh.rs", "src/iter.rs", "src/iter_indices.rs"], [("traversals", "src/iter.rs, src/iter_indices.rs new, from_slices"), ("views", "src/bvh.rs nodes, indices, quad_nodes, traverse_iter*")],
     "compile-fail witnesses in pairs (accepted twin, refused twin), judged by the borrow checker",
     "Enumerated over views, traversals, ways to make them and operands. That two items yielded by one traversal alias the ray is the interface's design and not part of the claim." + TRUST)

prop("C27", "Validation says whether every primitive is in the tree",
     "Bvh::validate(n) is true exactly if every primitive index below n is listed in a leaf that can be reached from the root: every entry of every leaf counts, both children of every inner node are visited, and one missing index makes the answer false wherever it is. An empty tree has nothing.",
     ["inputs"], "every tree and every n",
     "Applications use the answer to trust a tree that was loaded or refitted; the tests only ever ask about good trees, so an answer that is always true passes them.",
     ["src/bvh.rs"], [("walk", "src/bvh.rs traverse_check"), ("answer", "src/bvh.rs validate")],
     VF + "of one level of the recursion and of the loop that makes the answer (last-update abstraction)",
     "Complete for acyclic trees, by induction over the tree. An index of n or more panics, as documented for slices, and is outside of the claim." + TRUST)

prop("C28", "SAH trees keep the depth limit and the leaf size that was asked for",
     "A build task of the SAH builders at the depth limit, or with one reference, makes a leaf and every other task with more references than the leaf limit is split, unless its split leaves one side empty (binned) or no split was found (spatial); the median fallback always splits. The leaf limit is Builder::primitives_per_leaf, one reference if nothing was asked for, through every construct function; the depth limit is a constant of at most 64.",
     ["inputs"], "every task, every leaf limit, every outcome of the searches",
     "A leaf above the limit overflows fixed leaf loops of a renderer and costs speed silently; a task that is split at the limit makes paths longer than a traversal stack expects, only for degenerate meshes of thousands of equal boxes. The tests have none.",
     ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/bvh.rs"],
     [("ways out of a task", "Task::run of both builders"), ("options", "src/bvh.rs construct_*, builders' new")],
     "path-condition analysis of the task's ways out (value flow over MIR, linear integer reasoning); option flow through the constructors",
     "Complete over tasks and limits. Where a split cannot separate the boxes the leaf stays large; that is part of the statement." + TRUST)

prop("C29", "Morton codes interleave the clamped grid cell; sorting by them permutes",
     "The code of a point has bit i of its grid coordinate k at position 3i+k, where coordinate k is the point's position in the box scaled to the grid, cut off to 0 below and to the last cell above the grid. The grid of every encoder fits the code and its box covers all primitive boxes. The sorted index list holds every primitive index once, in ascending order of the code of that primitive's centre; the codes are returned in primitive order.",
     ["inputs"], "every point, box and grid of 1 to 1024 cells per axis, every primitive list",
     "The unit test splits four numbers; carries between masks, coordinates outside of the grid and order of large lists are not visited.",
     ["src/morton.rs", "src/utils.rs", "src/builders/locb.rs"],
     [("interleaving", "src/morton.rs morton_split, morton_encode"), ("grid", "src/morton.rs MortonEncoder::new, encode"), ("order", "src/morton.rs get_sorted_indices"), ("use", "src/builders/locb.rs new")],
     "bit-provenance abstract interpretation of the interleaving; " + VF + "of the grid position and the order",
     "Complete for the interleaving (every bit of the code is shown to be the wanted input bit) and for clamping; the affine map to the grid is compared over real arithmetic." + TRUST)

prop("C32", "Every node gets its nearest window neighbour; ties go to the lower index",
     "In each clustering round every node of the level is given one other node of the level: among those at most the search radius away in the order of the level, the one with the smallest half area of the box around both, and the one that comes first if several are equally near. Who looks at whom does not depend on the side. Cached distances are those of the pair they are read for.",
     ["inputs"], "every level, every search radius of at least 1, every number of processors, every distance below f32::MAX",
     "With two nodes preferring each other only under consistent ties, a changed comparison makes clustering run forever on equal boxes alone; cache rows are only wrong at chunk starts on machines with another number of processors. The tests have one mesh on one machine.",
     ["src/builders/locb.rs", "src/utils.rs"],
     [("search", "src/builders/locb.rs cluster, search_range"), ("cache rows", "src/utils.rs move_backward"), ("radius", "src/builders/locb.rs new")],
     VF + "of the search loops; last-update abstraction of the best candidate, linear integer reasoning on windows, chunks and cache indices",
     "Complete over levels, radii and chunk counts. The induction over rounds of the cache (each row belongs to one node and moves up once per node) is on paper, its steps are checked." + TRUST)

prop("C33", "The SAH builders choose the cheapest of the splits they consider",
     "Of the candidate splits a SAH builder looks at, the one with the lowest surface-area cost is applied, and the tree's expected traversal cost is no higher than that of a median-split tree over the same boxes.",
     ["inputs"], "every list of boxes",
     "A slightly worse choice still gives a correct tree; the tests do not measure cost.",
     ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs"], [("cost", "find_split, find_object_split, find_spatial_split")],
     na="The cost of the tree is a sum of rounded products of data-dependent areas over a search the heuristic itself truncates; no static bound compares it with another tree's. "
        "Correctness of the result (C07, C08, C09, C25, C28) is decided instead, whatever split is chosen.")

prop("C34", "Traversal is watertight under floating-point rounding",
     "A ray that hits a primitive in the arithmetic of the machine is also found by the traversal, for rays grazing box faces, edges shared by triangles and directions with zero components.",
     ["inputs"], "every ray and mesh of finite floats, including rounding of the slab products",
     "Rounding matters for isolated inputs only; the tests trace a few dozen rays.",
     ["src/aabb.rs", "src/mbvh_node.rs", "src/ray.rs"], [("slab tests", "src/aabb.rs Aabb::intersect")],
     na="The slab test carries no error margin, so whether rounding loses a hit depends on the bit patterns of the ray and box; the analyses here treat arithmetic as real. "
        "C01 and C23 decide the same statement over the reals.")

prop("C35", "No numeric input makes construction or refitting panic or run forever",
     "Construction and refitting end with a tree or a documented error for every list of boxes, including infinite, NaN and inverted ones, on any stack size.",
     ["inputs"], "every list of boxes of any float bit patterns, every recursion depth",
     "The inputs that matter (infinite distances, thousands of equal boxes) are not in the tests.",
     ["src/builders/locb.rs", "src/builders/spatial_sah.rs", "src/bvh.rs"], [("rounds", "src/builders/locb.rs build"), ("recursion", "src/bvh.rs")],
     na="False for boxes with infinite coordinates (all distances are infinite and no neighbour is found), and otherwise a matter of how many levels and rounds data-dependent float comparisons give, "
        "which no sound static bound in reach limits. Parts that can be decided are: C05 (counts), C18 (orders with NaN), C10 and C32 (each round pairs something).")
