#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when the property list changes)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
LINKS=[("prev/next/head/tail/up","sibling list, ends of the child list and parent link of a node","src/node.rs struct Node")]
SIZE=[("size.degree/size.descendants","number of children / of proper descendants","src/node.rs, src/size.rs")]
p("C01","Links stay consistent after every edit",
 "After any sequence of API operations, walking a node's children from the first one forwards and from the last one backwards visits the same children in opposite orders, ends after exactly the reported number of children, and every child visited reports that node as its parent; a root reports no parent and the parent of a top-level node of a forest is none. This holds for every node of every live tree and forest, whether nodes are stored scattered or piled.",
 ["histories","inputs"],"all trees and forests, all finite sequences of push/pop/insert/detach/prepend/append/abandon, on any node",
 "Unit and doc tests run a handful of edits on trees of at most 7 nodes and compare printed strings, which follow forward links only; they never check back links, parent links, or link state after longer histories.",
 ["src/node.rs","src/tree.rs","src/forest.rs","src/heap.rs"],
 [("push_front/push_back/pop_front/pop_back","src/node.rs"),("insert_prev_sib/insert_next_sib/detach","src/node.rs"),("prepend/append, Forest::set_up, Forest::clear","src/node.rs, src/forest.rs"),("connect_next/set_up/set_head/set_tail","src/node.rs"),("abandon/from_node","src/tree.rs"),("parent","src/node.rs")],LINKS,["Node::iter, Node::front, Node::back, Node::parent, RcNode::parent"])
p("C02","Edits act exactly as list operations on children",
 "push_front, push_back, pop_front, pop_back, prepend, append, insert_prev_sib, insert_next_sib, detach and abandon change the ordered child sequence of the one node they address exactly as the corresponding list operation does, hand over exactly the named subtree unchanged, and leave the payload and the child sequence of every other node as they were. Popping from an empty node returns None and changes nothing; detaching a node while its siblings are being iterated leaves the remaining siblings in order.",
 ["inputs","histories"],"all trees/forests as operands, every node position (first, middle, last, only child), empty and non-empty operands",
 "Tests print one or two small results per operation; they do not vary operand shapes, positions or prior histories, and never check that unrelated nodes stay unchanged.",
 ["src/node.rs","src/tree.rs","src/forest.rs","src/rc.rs"],
 [("child-list editing","src/node.rs push_*/pop_*/insert_*/detach/prepend/append"),("abandon","src/tree.rs"),("wrappers","src/tree.rs, src/forest.rs")],LINKS)
p("C03","Degree and node count are exact for every node",
 "At every moment, for every node, degree() equals the number of its children and node_count() equals the number of nodes in the subtree rooted there (for a forest: the total number of its nodes, without any virtual root). In particular an edit deep inside a tree is reflected in all ancestors and in no other node.",
 ["histories","inputs"],"all edit histories and all nodes, at any depth",
 "Tests check counts on a few static trees; sizes of ancestors after deep edits, or after moving whole forests, are not observed by printing.",
 ["src/node.rs","src/size.rs","src/forest.rs","src/tree.rs","src/tuple.rs"],
 [("inc_sizes/dec_sizes","src/node.rs"),("node_count/degree/is_forest","src/node.rs"),("Size arithmetic","src/size.rs"),("callers that pass node_count of the moved part","src/node.rs"),("SIZE constants for tuple-built trees","src/tuple.rs")],SIZE)
p("C04","Child iterators are exact, ordered and stable",
 "Iterating the children of a node or forest (shared, mutable, or consuming) yields each child exactly once, in order, and at every step the reported remaining length equals the number of children still to come; after the end it keeps returning None. Detaching, dropping or editing below children that were already yielded does not affect what is yielded later.",
 ["inputs","histories"],"all nodes/forests, all positions of partial iteration, all edits of already yielded children",
 "Tests iterate short child lists once; exact lengths at each step, polling after the end and structural edits during iteration are checked for single examples only.",
 ["src/iter.rs","src/into_iter.rs","src/node.rs"],
 [("UncountedRawIter/CountedRawIter/Iter/IterMut next, size_hint","src/iter.rs"),("IntoIter::next/size_hint, into_iter","src/into_iter.rs"),("iter/iter_mut","src/node.rs, src/forest.rs")])
p("C05","Every payload and node is released exactly once",
 "Whenever trees, forests and consuming iterators are created, edited, split, partially consumed and dropped in any order, each payload is dropped exactly once or handed to the caller exactly once, and every node's storage is released exactly once, no earlier than when its tree is gone. The piled storage of a tuple-built tree or forest is released when, and only when, its last node is gone, even if its nodes have been distributed over several trees.",
 ["histories","inputs"],"all histories of safe owning operations over scattered and piled nodes, including partial consumption and abandon",
 "The tests use integers, which have no observable drop; leaks, double drops and use after free stay invisible without counting every release over arbitrary histories.",
 ["src/heap.rs","src/node_vec.rs","src/tree.rs","src/forest.rs","src/node.rs","src/into_iter.rs","src/bfs_impls.rs"],
 [("make_node/drop_node","src/heap.rs"),("Drop for Tree/Forest, into_data, abandon","src/tree.rs, src/forest.rs"),("Data::take/replace/into_inner","src/node.rs"),("NodeVec::decr_ref, Drop for NodeVec","src/node_vec.rs"),("Drop for IntoIter, Splitted over Tree","src/into_iter.rs, src/bfs_impls.rs")],
 [("ref_cnt","number of live nodes and handles of a piled buffer","src/node_vec.rs"),("Rc strong count","one per owner or handle of a scattered node","src/heap.rs")])
p("C06","Breadth-first iteration is in exact level order",
 "Iterating a tree, a node or a forest breadth first (shared, mutable, consuming, with or without the root, mapped or not) yields every node exactly once, level by level and within a level in sibling order, each paired with its exact number of children and of descendants. The sizes the iteration announces up front equal those of what it yields.",
 ["inputs"],"all trees and forests of any shape, each of the bfs entry points",
 "Tests compare one two-level, seven-node example per entry point; deep, skewed, wide and empty shapes are not covered.",
 ["src/bfs.rs","src/bfs_impls.rs"],
 [("Splitted::next queue","src/bfs.rs"),("Split impls, bfs/bfs_mut/bfs_children/into_bfs","src/bfs_impls.rs"),("BfsTree/BfsForest from/wrap/map, Bfs","src/bfs.rs")])
p("C07","Rebuilding from breadth-first order and cloning are faithful",
 "Collecting the breadth-first iteration of any tree or forest into a new tree or forest reproduces exactly its shape, payloads, child order and sizes; deep_clone and Clone give an equal tree or forest in storage of its own and leave the source unchanged. Later edits of one never show in the other, and mapping payloads on the way changes payloads only.",
 ["inputs"],"all source trees/forests and nodes, all payload mappings",
 "Tests clone or collect one seven-node tree; the index arithmetic that links parents to children in the flat buffer depends on every shape.",
 ["src/bfs_impls.rs","src/node_vec.rs","src/bfs.rs","src/tree.rs","src/forest.rs","src/rc.rs"],
 [("From<BfsTree> for Tree, From<BfsForest> for Forest","src/bfs_impls.rs"),("append_child/make_node/non_null_node","src/node_vec.rs"),("deep_clone, deep_clone_forest, Clone","src/bfs_impls.rs, src/tree.rs, src/forest.rs, src/rc.rs")])
p("C08","Depth-first walk is the exact Euler tour",
 "Repeatedly advancing a depth-first cursor over any tree or forest visits every leaf exactly once as Leaf and every inner node exactly twice, as Begin before all its descendants and as End right after them, siblings in order, and then reports completion, from where it can be restarted. Nothing but the position changes: the tree or forest taken back from the cursor is unchanged.",
 ["inputs"],"all trees and forests of any shape and depth",
 "Tests step through one seven-node tree.",
 ["src/walk.rs"],[("Walk::forward/next/get/on_node/on_forest/init_visit","src/walk.rs"),("TreeWalk/ForestWalk conversions","src/walk.rs")],
 [("path/direction/visit_type","stack of the walk, where to go next and what the current visit is","src/walk.rs struct Walk")])
p("C09","Depth-first jumps land where they say and never derail",
 "to_parent, to_child(n), to_sib(n), get_parent and revisit move to (or report) exactly the node their name says, return None exactly when there is no such node, and never panic, whatever sequence of moves came before. Advancing after a jump continues the normal depth-first order from the landing position: to_parent lands at the end of the parent, a missed child or sibling leaves the rest of the walk intact.",
 ["histories","inputs"],"all trees/forests and all finite sequences of cursor operations with any n",
 "Tests perform each jump once or twice from one position in a seven-node tree and never jump past the last sibling or combine jumps.",
 ["src/walk.rs"],[("to_parent/get_parent/to_sib/to_child/revisit","src/walk.rs")],
 [("path/direction/visit_type/origin","stack of the walk, next direction, current visit and restart point","src/walk.rs struct Walk")])
p("C10","Tuple notation builds exactly the tree written",
 "from_tuple builds, for every nesting of tuples the notation accepts, the tree or forest whose shape, child order and payloads are those of the tuple, with exact sizes and consistent links. The tuple's payloads are each moved into the result exactly once.",
 ["inputs"],"all tuple nestings up to the notation's arity limit of 32, any depth",
 "Tests build tuples whose branches all end in a leaf; placement of nodes in the flat buffer depends on the whole nesting.",
 ["src/node_vec.rs","src/tuple.rs","src/tree.rs","src/forest.rs"],
 [("construct_tree/construct_forest","src/node_vec.rs"),("SIZE/height/descendants/preorder_with_size_hint","src/tuple.rs"),("from_tuple","src/tree.rs, src/forest.rs")])
p("C11","Tuple traversals report every node in the stated order",
 "Traversing a tuple in preorder reports each leaf once, and each branch once before its children with a closing frame event after them; in postorder an opening frame event comes before the children and the branch after them. The announced sizes, heights and per-level counts equal those of the written tuple, and the variants with size hints emit the same events as those without, each with the size of its node.",
 ["inputs"],"all tuple nestings and arities 0 to 32, for trees and forests",
 "No existing test runs the traversals directly; one arity out of 32 may be wrong without any test noticing.",
 ["src/tuple.rs"],[("TupleTree/TupleForest impls for arities 0..32","src/tuple.rs impl_tuple_tree!/impl_tuple_forest!")])
p("C12","Operator notation builds exactly the tree written",
 "In expressions built from tr(), fr(), `-` and `/`, `-` joins trees and forests as siblings in written order, and `/` hangs its right operand, a tree or all trees of a forest, below the left tree after its existing children. This holds for every combination of operands by value or by reference, including empty forests; an operand given by reference is copied and stays unchanged, and no node is lost, duplicated or reordered.",
 ["inputs"],"all operand kinds and shapes of each operator implementation",
 "Tests use a few literal expressions; most of the operator implementations are never exercised on empty or forest operands.",
 ["src/notation.rs"],[("Sub/Div/Neg impls, tr, fr","src/notation.rs")])
p("C13","Shared nodes live exactly as long as they are reachable",
 "A node handed out as a shared handle stays valid with its payload as long as any strong handle to it or a tree containing it exists, and is released exactly once when none is left, its then parentless children surviving exactly if they have handles of their own. A weak handle never keeps a node alive; it upgrades exactly while the node is alive. This holds for any order of cloning, downgrading, upgrading, detaching and dropping, for scattered and piled nodes alike.",
 ["histories"],"all histories of handle operations (clone, downgrade, upgrade, navigate, pop, detach, drop) on scattered and piled trees",
 "Tests hold a few handles to one small scattered tree; handles to piled nodes are never cloned, downgraded or upgraded, and no test observes releases.",
 ["src/rc.rs","src/node_vec.rs","src/heap.rs","src/iter_rc.rs"],
 [("Clone/Drop for RcNode, downgrade, upgrade, Drop for WeakNode","src/rc.rs"),("Node::rc/into_rc, From<Tree> for RcNode","src/rc.rs"),("incr/decr, decr_ref","src/rc.rs, src/node_vec.rs"),("IterRc","src/iter_rc.rs")],
 [("Shared::count / ref_cnt","strong handles of one piled node / handles and nodes of the buffer","src/rc.rs, src/node_vec.rs")])
p("C14","Shared handles edit and navigate like exclusive ones",
 "Through a shared handle, reading, navigating (front, back, parent, is_root, iter_rc) and editing (push, pop, prepend, append, insert, detach, extend) have exactly the effect of the corresponding operation on the node itself, and the handles returned refer to exactly those nodes. Converting a tree to a handle and a sole root handle back to a tree preserves it.",
 ["histories","inputs"],"all trees, nodes and operation sequences through RcNode",
 "Doc tests cover one call of each method on a tiny scattered tree and compare by printing.",
 ["src/rc.rs","src/iter_rc.rs"],[("RcNode accessors and mutators, into_tree, From<Tree>","src/rc.rs"),("IterRc::next","src/iter_rc.rs")])
p("C15","Equality, ordering and hashing agree with structure",
 "Two nodes, trees, forests or shared handles compare equal exactly when they have the same shape and equal payloads in the same positions; ordering compares payloads first and then child sequences lexicographically, and is consistent with equality. Equal values always hash equally, independent of how they were built or stored, and the hash covers every payload in depth-first order.",
 ["inputs"],"all pairs of trees/forests/nodes/handles of any shape over any totally ordered payload type",
 "Tests compare a few equal literals; different shapes with equal flattenings, prefixes and storage kinds are not compared.",
 ["src/macros.rs","src/node.rs","src/tree.rs","src/forest.rs","src/rc.rs"],[("impl_order_relations_for_*/impl_hash_for_*","src/macros.rs")])
p("C16","Printed form is the canonical notation of the structure",
 "Printing a node, tree, forest or shared handle with Display gives its payload followed, if it has children, by the space-separated printed children in parentheses; a forest prints as a parenthesised list of its trees. Every node's payload appears exactly once, in depth-first order.",
 ["inputs"],"all trees/forests/nodes/handles of any shape",
 "Tests print a few small trees.",
 ["src/macros.rs"],[("impl_debug_display_for_*","src/macros.rs")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
