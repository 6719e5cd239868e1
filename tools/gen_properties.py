#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

HIST="every finite sequence of safe API calls on any number of trees and forests, whose nodes come from single-node construction, tuple notation, operator notation, breadth-first collection or cloning, in any mixture (call-stack-deep trees excepted)"
p("C01","Editing any node is exact ordered-list editing",
  "After any sequence of push, pop, prepend, append, sibling insertion, detach and abandon at any node, every tree and forest holds exactly the data, parent-child relation and child order that an ordinary ordered tree would hold after the same edits. What an edit returns is exactly the subtree(s) taken out, in order, and every other tree or forest in the program is unaffected.",
  ["histories"],HIST,"the doc-tests do one or two edits on trees of at most 3 children, nearly all one level below the root and never on a mix of the two storage kinds",
  ["src/node.rs","src/tree.rs","src/forest.rs"],
  [("sibling/parent link surgery","src/node.rs: insert_prev_sib, insert_next_sib, detach, push_*, pop_*, prepend, append"),("abandon turns the root into a forest","src/tree.rs: abandon")],
  ["Tree/Node/Forest::iter, data, pop results"],
  [dict(name="prev/next/head/tail/up",meaning="intrusive links of a node",where="src/node.rs struct Node")])
p("C02","Degree and node counts are always exact",
  "At every moment the reported degree of every node and forest equals its number of children, and the reported node count equals the number of nodes in that subtree (a forest counts its nodes only). Being childless is reported exactly when the degree is zero, and Size values add and subtract component-wise.",
  ["histories"],HIST+"; observed at every node of every tree after every step","tests read counts on trees that were never edited below depth 1; the counters are maintained incrementally along the whole ancestor chain",
  ["src/node.rs","src/forest.rs","src/size.rs","src/node_vec.rs"],[("incremental counters","src/node.rs: inc_sizes, dec_sizes"),("const sizes of tuples","src/tuple.rs: SIZE")],["degree, node_count, has_no_child"],
  [dict(name="size",meaning="degree and descendants",where="src/node.rs struct Node")])
p("C03","Navigation links agree with each other in both directions",
  "For every node reachable in any tree or forest, each child reports that node as its parent, tree roots and top-level forest nodes report no parent, and first/last child are the two ends of the child sequence. Consuming the children from the back yields exactly the reverse of the sequence seen from the front.",
  ["histories"],HIST,"doc-tests check one parent() call and two-child lists; backward links are never traversed after sibling insertion, prepend or detach",
  ["src/node.rs","src/forest.rs","src/tree.rs"],[("up links skip forest roots","src/node.rs: parent"),("backward links","src/node.rs: connect_next, pop_back")],["parent, front, back, front_mut, back_mut, pop_back"])
p("C04","Every data value is owned by one node and dropped exactly once",
  "A value put into a tree stays alive and identical (moved, never duplicated or lost) until it is handed back to the caller or until the tree, forest, iterator or walker that holds it is dropped, at which point it is dropped exactly once. This holds however far an owning iterator has been consumed.",
  ["histories"],HIST+", including partially consumed owning iterators","the tests use Copy integers, for which a lost, duplicated or twice-dropped value is invisible",
  ["src/node.rs","src/heap.rs","src/node_vec.rs","src/into_iter.rs","src/bfs_impls.rs","src/tree.rs","src/forest.rs"],[("Data state machine","src/node.rs: Data::take/replace/into_inner"),("drop paths","src/heap.rs: drop_node; src/tree.rs, src/forest.rs: Drop")],["destructor calls of the data type"])
p("C05","Exclusive ownership never misuses or leaks memory",
  "No sequence of safe calls on trees, forests, their iterators and walkers reads or writes freed or out-of-bounds memory, frees anything twice, or leaves memory allocated once the last of these objects is dropped.",
  ["histories"],HIST,"no test runs under a memory checker and none mixes pieces of one contiguous buffer with independently allocated nodes and drops them in different orders",
  ["src/node.rs","src/heap.rs","src/node_vec.rs","src/tree.rs","src/forest.rs"],[("buffer reference count","src/node_vec.rs: ref_cnt, decr_ref"),("node allocation","src/heap.rs")],["allocator traffic, sanitizer reports"])
p("C06","Nodes never move in memory",
  "Once created, a node keeps its address while it lives, however its subtree is popped, detached, pushed, appended, wrapped in or taken out of a forest, a walker or a shared handle.",
  ["histories"],HIST,"no test compares addresses; pinned references handed to users and the intrusive links both depend on it",
  ["src/node.rs","src/tree.rs","src/forest.rs","src/walk.rs","src/rc.rs"],[("Pin<&mut Node>","src/tree.rs: root_mut; src/node.rs: front_mut, iter_mut")],["addresses of &Node"])
p("C07","Child iteration is exact and exactly sized",
  "Iterating the children of a tree, node, forest or shared node - by shared, mutable, shared-ownership or owning iteration - yields every child exactly once, in order, reports the exact remaining length before each step, and keeps returning nothing after the end. A single node or tree used as an iterable yields exactly itself.",
  ["histories","inputs"],"every child list reachable by any editing history, at every point of consumption","doc-tests iterate over lists of 0 to 3 children and never look at size hints",
  ["src/iter.rs","src/into_iter.rs","src/iter_rc.rs"],[("counted raw iterator","src/iter.rs: CountedRawIter")],["iter, iter_mut, into_iter, iter_rc, len, size_hint"])
p("C08","Editing while iterating visits exactly the original children",
  "While the children of a node or forest are iterated mutably (or through shared handles), inserting siblings before or after the current child, detaching it, or editing below it does not change which children are visited: exactly those present at the start, each once and in order. When the loop is over the child list is exactly what those edits denote.",
  ["histories"],"every child list and every assignment of edits (insert before/after any number of times, detach, edit below, change data) to the children visited","the doc-tests apply one fixed edit to each of two children",
  ["src/iter.rs","src/iter_rc.rs","src/node.rs","src/rc.rs"],[("iterator advances before handing out the child","src/iter.rs: UncountedRawIter::next")],["iter_mut / iter_rc sequences, final child list"])
p("C09","Tuple notation builds exactly the tree it spells",
  "For every nesting of tuples, at any depth and any width the notation supports, the constructed tree or forest has exactly the shape, order and data spelled by the tuple, with exact sizes at every node, and can afterwards be edited and dropped like any other tree.",
  ["programs","inputs"],"all tuple shapes up to a node bound exhaustively, plus random larger ones, every supported arity up to 32, for trees and forests, with leaves written bare or as 1-tuples","each shape is a different program (types drive the layout), and the tests use five shapes of depth at most 2",
  ["src/tuple.rs","src/node_vec.rs","src/tree.rs","src/forest.rs"],[("slot assignment per depth","src/node_vec.rs: construct_tree, construct_forest"),("per-arity impls","src/tuple.rs")],["Tree::from_tuple, Forest::from_tuple"])
p("C10","Tuple visitors report true preorder, postorder, sizes and height",
  "For every nesting of tuples, the visitors present every datum once, branches before (preorder) or after (postorder) all their descendants with matching frames, the variants with size hints visit in the same order as those without and give each node's true size, and the reported height and per-level counts are those of the shape.",
  ["programs","inputs"],"the same tuple shapes as C09","four tests on one shape; the size-hint variants, height and per-level counts are never tested directly",
  ["src/tuple.rs"],[("visitor impls","src/tuple.rs: preorder*, postorder*, SIZE, height, descendants")],["TupleTree / TupleForest methods"])
p("C11","Operator notation denotes the tree it spells",
  "Every expression built from `-` and `/` over trees, forests and unit, with each operand owned or borrowed, denotes the corresponding ordered tree or forest: `-` juxtaposes in order, `/` appends children in order. Borrowed operands are left unchanged and owned operands are moved, not copied.",
  ["inputs","programs"],"every well-typed operator/operand-ownership combination over arbitrary operand trees and forests (including empty forests and trees that already have children)","doc-tests and unit tests use the owned forms only, on leaf operands; the 13 borrowed forms are untested",
  ["src/notation.rs"],[("operator impls","src/notation.rs: impl_notations")],["values of the expressions"])
p("C12","Breadth-first traversal visits every node once, level by level, with true sizes",
  "Breadth-first iteration over a tree, a node, its descendants or a forest yields each node of that range exactly once, by level and in sibling order, with its true degree and descendant count, and mutable traversal gives access to exactly those data. The size announced for the whole traversal is that of the range.",
  ["inputs","histories"],"every tree shape (any storage mix, any editing history), starting at any node, consumed to any point","three fixed trees of 7 nodes",
  ["src/bfs.rs","src/bfs_impls.rs"],[("queue of child iterators","src/bfs.rs: Splitted::next")],["bfs, bfs_mut, bfs_children, bfs_children_mut, into_bfs, wrap, map"])
p("C13","Collecting a breadth-first traversal rebuilds the tree exactly",
  "Building a tree or forest from the breadth-first traversal (borrowed, mapped or owning) of any tree, node or forest gives one of the same shape, order and (mapped) data with exact sizes. The owning traversal moves the data: nothing is copied, lost or dropped early, even if it is abandoned midway.",
  ["inputs","histories"],"every tree/forest shape and storage mix, including single nodes, empty forests, chains, stars and uneven levels","four unit tests with balanced shapes",
  ["src/bfs_impls.rs","src/bfs.rs","src/node_vec.rs"],[("parent/child cursor while filling the buffer","src/bfs_impls.rs: From<BfsTree>, From<BfsForest>"),("owning split","src/bfs_impls.rs: Split for Tree")],["Tree::from, Forest::from, into_bfs"])
p("C14","Clones are deep, equal and independent",
  "Cloning a tree, forest, node or the descendants of a node (directly or through a shared handle) yields a parentless tree or forest of equal shape, order and data, made by cloning each datum exactly once. Later edits or drops of either side never affect the other.",
  ["inputs","histories"],"every tree/forest/inner node, any storage mix, followed by arbitrary edits on both sides","two doc-tests compare a clone for equality and never edit afterwards",
  ["src/bfs_impls.rs","src/tree.rs","src/forest.rs","src/rc.rs"],[("deep_clone via breadth-first collection","src/bfs_impls.rs: deep_clone, deep_clone_forest")],["clone, deep_clone, deep_clone_forest"])
p("C15","Depth-first walk enumerates the tree in depth-first order and ends",
  "Advancing a walker from its start visits, in depth-first order, each childless node once as a leaf and each branch node once at its beginning and once at its end around its descendants; then it reports completion and keeps doing so. The current item is stable between advances, and a walker over an empty forest is complete from the start.",
  ["inputs","histories"],"every tree and forest shape and storage mix, including trees that were cut out of larger ones","two fixed trees of 7 nodes and flat lists",
  ["src/walk.rs"],[("path stack with direction","src/walk.rs: Walk::forward, get")],["TreeWalk/ForestWalk get, forward, next"])
p("C16","Cursor jumps stay on the tree and never fail",
  "From any cursor state, jumping to the parent, the n-th child, or the n-th next sibling lands on exactly that node, or reports that it does not exist; revisiting restarts the current node (or the whole traversal once complete); and depth-first order continues from wherever the cursor is. No sequence of jumps, advances and queries panics or yields a node outside the walked tree.",
  ["histories"],"every sequence of forward/next/to_parent/to_child/to_sib/revisit/get/get_parent calls with arbitrary n on every tree and forest","doc-tests make one jump from a Begin or Leaf state with an in-range n; out-of-range jumps and jumps from End or completed states are untested",
  ["src/walk.rs"],[("jump functions","src/walk.rs: to_parent, to_child, to_sib, revisit, get_parent")],["TreeWalk/ForestWalk"])
p("C17","Turning a tree into a walker and back is lossless",
  "Converting a tree or forest into a walker and back, with any walking in between and at any cursor position, returns the same tree or forest with the same nodes, data and sizes; dropping the walker instead drops each datum exactly once.",
  ["histories"],"every tree/forest and every cursor history","conversion back is never tested",
  ["src/walk.rs"],[("From impls","src/walk.rs")],["Tree::from(walk), Forest::from(walk)"])
p("C18","Text form is the documented one",
  "The displayed text of a tree, node, shared node or forest is the datum followed, if there are children, by the parenthesised, space-separated texts of the children in order; a forest is the parenthesised list of its trees and an empty forest is `()`. The text depends only on shape and data. The debug text has the same structure, with each datum's debug text followed by an address (of the node itself for trees, nodes and forests). A writer's error ends the writing and is returned.",
  ["inputs"],"every shape, any data text (including empty and multi-byte), any storage mix, all four types","only integers, depth at most 2",
  ["src/macros.rs","src/node.rs","src/rc.rs","src/forest.rs"],[("Display macros","src/macros.rs")],["to_string"])
p("C19","Equality and ordering are structural and lexicographic",
  "Two trees, nodes, shared nodes or forests are equal exactly when they have the same shape and equal data in order, and compare lexicographically by root datum and then child by child (a proper prefix of a child list is smaller), so that ordering is total when the data ordering is. `!=`, `<`, `partial_cmp` and `cmp` agree, and data that do not compare are reported as incomparable.",
  ["inputs"],"pairs and triples of related trees, any storage mix, totally and partially ordered data","ordering is not tested at all, inequality hardly",
  ["src/macros.rs","src/iter.rs"],[("relation macros","src/macros.rs")],["eq, ne, partial_cmp, cmp"])
p("C20","Equal trees hash equally",
  "Equal trees, nodes, shared nodes and forests feed identical input to any hasher, whatever their storage or editing history, so they are interchangeable as hash-map keys.",
  ["inputs","histories"],"pairs of equal trees/forests reached by different histories and storage kinds","hashing is not tested",
  ["src/macros.rs"],[("hash macros","src/macros.rs")],["Hash"])
RH="every sequence of calls on shared handles (create from a tree of any storage mix, clone, navigate, edit, pop, detach, extend, drop) with arbitrarily many handles alive"
p("C21","Shared handles see and make exact ordered-tree edits",
  "Edits made through any shared handle are exactly the ordered-tree edits they name, and every other handle to the same tree sees the result at once: same data, children, parent, root status, degree and node count. Handles obtained along different routes to a node denote the same node.",
  ["histories"],RH,"the rc tests hold at most three handles and make one edit",
  ["src/rc.rs","src/node.rs"],[("handle to node mapping","src/rc.rs: Node::rc, into_rc, node_borrow"),("edits delegate to Node","src/rc.rs: RcNode methods")],["RcNode"])
p("C22","A shared node lives exactly as long as a handle or a live parent holds it",
  "A node and its data stay alive and usable while any handle to it exists or its parent is alive, and are dropped exactly once as soon as neither is the case, whatever the storage kind. When a node dies, children still held by handles survive with their subtrees as roots of their own; the others die with it.",
  ["histories"],RH,"one unit test drops one handle of a scattered tree; clones of handles into contiguous storage are never dropped in any test",
  ["src/rc.rs","src/node_vec.rs","src/heap.rs"],[("per-node and per-buffer counts","src/rc.rs: Shared::count, NodeVec::ref_cnt, Clone, Drop")],["destructor calls, data(), is_root()"],
  [dict(name="Shared.count / NodeVec.ref_cnt",meaning="strong count of a contiguous node / alive count of the buffer",where="src/rc.rs, src/node_vec.rs")])
p("C23","Weak handles upgrade exactly while the node is alive",
  "A weak handle never keeps a node or its data alive; it upgrades to a handle to the same node while that node is alive and to nothing from its death on. Creating, upgrading and dropping weak handles in any order never disturbs the tree.",
  ["histories"],RH+", together with creating, upgrading and dropping weak handles at any time, including after the whole tree is gone","weak handles are not tested at all",
  ["src/rc.rs"],[("WeakNode","src/rc.rs: downgrade, upgrade, Drop")],["WeakNode::upgrade"])
p("C24","Shared ownership never misuses or leaks memory",
  "No sequence of safe calls on shared and weak handles reads or writes freed or out-of-bounds memory, frees anything twice, or leaves memory allocated once the last handle, weak handle and iterator is dropped.",
  ["histories"],RH+", weak handles and iterators included","no test runs under a memory checker",
  ["src/rc.rs","src/node_vec.rs","src/heap.rs","src/iter_rc.rs"],[("reference counts","src/rc.rs; src/node_vec.rs: decr_ref")],["allocator traffic, sanitizer reports"])
p("C25","Conflicting dynamic borrows are refused without side effects",
  "While a node's data is borrowed through one handle, a conflicting access to that node through any handle (mutable data access, or an edit at it; any access while it is mutably borrowed) panics and changes nothing, non-conflicting access succeeds, and once the borrow ends everything works again.",
  ["histories"],"every interleaving of taking and releasing shared/mutable data borrows with accesses and edits through any handles","no test holds a borrow across another call",
  ["src/rc.rs"],[("RefCell per node","src/rc.rs: node_borrow, node_borrow_mut")],["data, data_mut, edits through RcNode"])
p("C26","Conversion between exclusive and shared ownership is lossless",
  "Turning a tree into a shared root and a sole shared root back into a tree, any number of times and with edits in between, keeps the same nodes, data, order and sizes in either direction and for either storage kind; turning a non-root handle into a tree panics and leaves its tree intact. A weak handle left over from the shared phase finds nothing once the tree is gone.",
  ["histories"],"every tree, storage mix and edit history between conversions","two one-shot conversions of unedited trees",
  ["src/rc.rs","src/tree.rs"],[("From<Tree>, into_tree","src/rc.rs")],["RcNode::from, into_tree"])
p("C27","Shared-ownership child iterators stay valid under any edit",
  "A running child iterator obtained from a shared handle may be advanced at any time, whatever has been inserted, removed, detached or dropped meanwhile (including every handle to the parent): it only ever yields handles to live nodes that are or were children of that node, and at most as many as there were at the start. Removing children it has already yielded does not disturb the rest of the sequence.",
  ["histories"],RH+" interleaved with creating, advancing, cloning and dropping child iterators","tests only insert around or detach the child just yielded",
  ["src/iter_rc.rs","src/rc.rs"],[("iterator position","src/iter_rc.rs: IterRc::next")],["RcNode::iter_rc"])
p("C28","Sibling operations on a root are refused without side effects",
  "Detaching a tree root, or inserting a sibling beside it (through exclusive or shared access), panics without altering the tree, and the tree offered for insertion is dropped exactly once.",
  ["inputs","histories"],"every tree (any storage mix and history) including ones just cut out of larger trees and forests","not tested; a stale parent link would turn the refusal into corruption of an unrelated tree",
  ["src/node.rs","src/rc.rs","src/tree.rs"],[("parent link cleared on every removal","src/tree.rs: from_node; src/node.rs: detach")],["detach, insert_prev_sib, insert_next_sib"])
p("C29","A panic in user code never corrupts trees",
  "If the data type's clone, comparison, formatting, hashing or destructor, or a caller's closure or iterator, panics in the middle of an operation, then no value is dropped twice, no memory is misused, trees that were only being read are unchanged, and all other trees and handles stay fully usable.",
  ["fault_sequences","histories"],"a panic injected at the k-th call of each kind of user code, for every k, during every operation that calls it, over arbitrary trees, storage mixes and sets of live handles","no test has panicking user code",
  ["src/bfs_impls.rs","src/tree.rs","src/forest.rs","src/rc.rs","src/into_iter.rs","src/node_vec.rs"],[("drop loops","src/tree.rs, src/forest.rs, src/rc.rs: Drop"),("buffer filled while user code runs","src/bfs_impls.rs, src/node_vec.rs")],["destructor calls, later operations"])
p("C30","Ill-sized breadth-first input never corrupts memory",
  "Building a tree or forest from a breadth-first sequence whose announced sizes do not match its items (a partially consumed traversal, or hand-made visits) either panics or yields a tree over the given data; it never writes outside its storage and never drops a datum twice.",
  ["inputs"],"arbitrary visit sequences with arbitrary announced degrees and descendant counts, and traversals with a consumed prefix","tests only collect complete traversals",
  ["src/bfs_impls.rs","src/node_vec.rs","src/bfs.rs"],[("buffer indexing","src/node_vec.rs: make_node, non_null_node, append_child")],["Tree::from(BfsTree), Forest::from(BfsForest)"])
p("C31","The no_std configuration behaves identically",
  "Built with the no_std feature, the library gives for every history of calls exactly the observations that the default build gives.",
  ["configurations","histories"],"the two feature configurations times the histories of the other properties","the test suite is never built with the feature",
  ["src/lib.rs","src/rc.rs"],[("facade module","src/lib.rs: mod rust")],["every observation of the other properties"])
p("C32","Walkers may cross threads without data races",
  "A walker over a tree or forest of sendable data may be moved to another thread and used and dropped there, even if its nodes came from the same construction as trees that stay behind, without a data race, lost or repeated drop, or misuse of memory; several threads may read one walker. No tree, walker, iterator or handle carries data into threads where it may not go (by `Send` and `Sync`).",
  ["schedules","histories"],"every way of cutting contiguously built trees into pieces and distributing them over threads as walkers, under any schedule","no test uses threads; a race on shared bookkeeping shows only under particular timings",
  ["src/walk.rs","src/node_vec.rs"],[("Send/Sync impls","src/walk.rs"),("buffer reference count shared by pieces","src/node_vec.rs: ref_cnt")],["TreeWalk, ForestWalk across threads"])
p("C33","Trees built at once are stored contiguously and released as a whole",
  "The nodes of a tree or forest built by tuple notation or collected from a breadth-first traversal occupy consecutive equal-sized slots of one memory block. The block stays valid until the last of its nodes, wherever it has been moved to, is gone, and is then released.",
  ["inputs","histories"],"every shape, then every order of cutting the tree into pieces, moving them into other trees and dropping them","no test looks at addresses or at the lifetime of a piece outliving the rest",
  ["src/node_vec.rs","src/bfs_impls.rs","src/heap.rs"],[("one buffer per construction","src/node_vec.rs: NodeVec")],["node addresses, allocator traffic"])
p("C34","Storage kind is unobservable except for addresses",
  "The same history of calls gives the same observations - contents, sizes, order, text, comparisons, traversals, panics and destructor calls - whether its initial trees were stored contiguously or node by node.",
  ["histories","configurations"],"pairs of runs of one history with different storage kinds, for exclusive and shared ownership","tests exercise the two kinds on different examples and never compare them",
  ["src/node.rs","src/rc.rs","src/heap.rs","src/node_vec.rs"],[("Data variants","src/node.rs: Data"),("RcNode/WeakNode variants","src/rc.rs")],["all observations"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P:
        assert len(r["title"])<=80,(r["id"],len(r["title"]))
        f.write(json.dumps(r)+"\n")
print(len(P))
