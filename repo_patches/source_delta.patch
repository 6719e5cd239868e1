From 2805b54e5487ab7bcf7425ff3a82930a77948532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 01/12] fix: tuple notation put nodes after consecutive closing
 brackets at the wrong place

A branch that closed right after another one did not advance the slot
of its level, so later nodes overwrote earlier ones.
---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From 08e586b075ab0c775517c39cd922d4a37a38eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 02/12] fix: postorder_with_size_hint visited branches before
 their descendants

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From edc3b12157c8dc296068849dfa687d1cac0b284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 03/12] fix: cloning a piled RcNode did not count the new
 handle on its NodeVec

Dropping the clone gave back a count never taken, so the storage was
released while nodes in it were still alive.
---
 src/rc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..aad9bb4 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,6 +113,7 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
+                    node_vec.as_ref().ref_cnt.incr();
                     let node = node_vec.as_ref().buf.get_unchecked( *index );
                     node.count.incr();
                 }
-- 
2.43.0


From 3a46864894e821ea22bdcc2f4b3bda3e0c1e2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 04/12] fix: piled weak handles and upgrades were not counted
 on their NodeVec

Dropping them gave back counts never taken, so the storage was released
while nodes in it were still alive.
---
 src/rc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index aad9bb4..3b11b69 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -456,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -545,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From f15074030102de0592e0480b14b8f4c918900f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 05/12] fix: IterRc kept a raw pointer to a node that may be
 dropped while iterating

The iterator now holds a handle to the upcoming child.
---
 src/iter_rc.rs | 31 +++++++++++++++++++------------
 src/lib.rs     |  1 -
 src/rc.rs      | 13 ++++++++++++-
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..61ffea1 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::RcNode;
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,38 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    next : Option<RcNode<T>>, // keeps the upcoming child alive, whatever happens to its siblings and parent.
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        match self.next.take() {
+            Some( item ) => {
+                self.len -= 1;
+                if self.len > 0 {
+                    self.next = item.next_sib_rc();
+                }
+                Some( item )
+            },
+            None => {
+                self.len = 0;
+                None
+            },
+        }
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { (self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
-    }
+    pub(crate) fn new( next: Option<RcNode<T>>, len: usize ) -> Self { IterRc{ next, len }}
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ next: self.next.clone(), len: self.len }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index 3b11b69..a7c63bd 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -448,7 +448,18 @@ impl<T> RcNode<T> {
         if node.has_no_child() {
             IterRc::new( None, 0 )
         } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
+            IterRc::new( node.front().map( |front| front.rc() ), node.degree() )
+        }
+    }
+
+    // Does not borrow the node, so that iterators are not affected by borrows of its data.
+    pub(crate) fn next_sib_rc( &self ) -> Option<RcNode<T>> {
+        unsafe {
+            let node = match self {
+                RcNode::Scattered( ScatteredRcNode( rc )) => rc.as_ptr(),
+                RcNode::Piled( PiledRcNode( node_vec, index )) => node_vec.as_ref().buf.get_unchecked( *index ).as_ptr(),
+            };
+            (*node).next.map( |next| next.as_ref().rc() )
         }
     }
 
-- 
2.43.0


From 81875c3c738ce83c7cb5437234dca835b8fcac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 06/12] fix: a cursor moved past the last sibling panicked on
 the next query

to_sib() and to_child() left the visit type of the previous node behind
when the sibling they were asked for does not exist.
---
 src/walk.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..35ccbfb 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -94,7 +94,11 @@ impl<T> Walk<T> {
     fn revisit( &mut self ) {
         if self.origin.is_some() {
             match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
+                VisitType::None => if self.path.is_empty() {
+                    self.path.push( Nodes::sibs( self.origin ));
+                } else {
+                    return; // no current node after `to_sib()`/`to_child()` failed.
+                },
                 _ => (),
             }
             self.direction = Direction::Down;
@@ -206,10 +210,14 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel {
+                return None;
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -230,6 +238,9 @@ impl<T> Walk<T> {
     fn to_child( &mut self, n: usize ) -> Option<Visit<T>> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel {
+                return None;
+            }
             unsafe {
                 let node = nodes.node.unwrap();
                 if node.as_ref().has_no_child() {
-- 
2.43.0


From 8c47a0edd88afcf00e7046dd3b70a6376eede7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 07/12] fix: collecting a breadth-first iterator with too many
 items wrote out of bounds

---
 src/node_vec.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..ae6f63b 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -30,7 +30,7 @@ impl<T> NodeVec<T> {
 
     pub(crate) fn non_null_node( &self, index: usize ) -> NonNull<Node<T>> {
         unsafe {
-            NonNull::new_unchecked( self.buf.get_unchecked( index ).try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
+            NonNull::new_unchecked( self.buf[ index ].try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
         }
     }
 
@@ -42,15 +42,12 @@ impl<T> NodeVec<T> {
     }
 
     pub(crate) fn make_node( &mut self, parent: Option<NonNull<Node<T>>>, index: usize, data: Data<T>, size: Size ) -> NonNull<Node<T>> {
-        unsafe {
-            let node = self.buf.get_unchecked_mut( index );
-            let mut node = node.deref().borrow_mut();
-            node.up = parent;
-            node.size = size;
-            node.data = data;
+        let mut node = self.buf[ index ].deref().borrow_mut(); // the caller's iterator may yield more nodes than it announced
+        node.up = parent;
+        node.size = size;
+        node.data = data;
 
-            node.non_null()
-        }
+        node.non_null()
     }
 
     pub(crate) fn append_child( &mut self, parent: usize, child: usize, data: T, size: Size ) {
-- 
2.43.0


From a75ec39ba54d74a42f40aee5c6f95303c3dcc440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 08/12] fix: weak handles found piled nodes that had been
 dropped by their tree

A root turned back into a tree kept its count after the tree was gone,
so weak handles upgraded to a node without data.
---
 src/heap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.rs b/src/heap.rs
index 4648017..883ab13 100644
--- a/src/heap.rs
+++ b/src/heap.rs
@@ -1,6 +1,6 @@
 #![doc( hidden )]
 
-use super::{Data, Node, NodeVec, Size};
+use super::{Data, Node, NodeVec, Size, rc::{RefCount, Shared}};
 
 use crate::rust::*;
 
@@ -39,6 +39,9 @@ pub(crate) fn drop_node<T>( mut node: NonNull<Node<T>> ) {
             },
             Data::PiledNone    { owner     } |
             Data::Piled        { owner, .. } => {
+                let index = ( node.as_ptr() as usize - owner.as_ref().buf.as_ptr() as usize )
+                    / mem::size_of::<Shared<RefCell<Node<T>>>>();
+                owner.as_ref().buf[ index ].count.decr(); // weak handles must not find it any more
                 NodeVec::decr_ref( owner );
             },
         }
-- 
2.43.0


From f175facab01fcb3089c6e360d3142e5e3d0f042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 09/12] fix: the count of a NodeVec was not atomic although
 walkers over its nodes are Send

Walkers over parts of one construction raced on it when dropped in
different threads.
---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76d64dd..00689a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{self, AtomicUsize};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index ae6f63b..fad0e4d 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count, shared by walkers in different threads
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index a7c63bd..b938978 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,22 @@ impl RefCount for Cell<usize> {
     }
 }
 
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        let count = self.fetch_add( 1, atomic::Ordering::Relaxed );
+        if count == 0 || count == usize::MAX {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        match self.fetch_sub( 1, atomic::Ordering::AcqRel ).checked_sub( 1 ) {
+            Some( count ) => count,
+            None => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From 3f68cfac4305ad67e15fcc77757b4b787f3d24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 10/12] fix: a panicking destructor left surviving children
 with a dangling parent

Dropping the last handle to a node now releases all of its children even
if dropping one of them panics.
---
 src/rc.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index b938978..b57bf34 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -139,20 +139,36 @@ impl<T> Clone for RcNode<T> {
     }
 }
 
+impl<T> RcNode<T> {
+    // Releases all children even if the destructor of one of them panics, as those held by others must not
+    // refer to this node any more.
+    fn drop_children( &self ) {
+        struct DropGuard<'a,T>( &'a RcNode<T> );
+
+        impl<'a,T> Drop for DropGuard<'a,T> {
+            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+        }
+
+        let guard = DropGuard( self );
+        while let Some(_) = self.pop_front() {}
+        forget( guard );
+    }
+}
+
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
         let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    self.drop_children();
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    self.drop_children();
                 }
             },
         }
-- 
2.43.0


From cbd373a5605a060c92fb235091cb613d9c669d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 11/12] fix: RcNode::deep_clone walked raw node references
 while user code may edit the tree by other handles

---
 src/rc.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index b57bf34..7bbf098 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -3,6 +3,7 @@
 use crate::rust::*;
 
 use super::{Data, Forest, Node, NodeVec, IterRc, Tree};
+use super::bfs::{BfsTree, Visit};
 
 // Replacement of std::rc::Rc to avoid heap allocations.
 pub(crate) struct Shared<T> {
@@ -552,7 +553,23 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        // Holds all the nodes by handles, because cloning data runs user code which may edit the tree by other handles.
+        let size = self.node_borrow().bfs().size;
+        let mut nodes = Vec::with_capacity( self.node_count() );
+        nodes.push( self.clone() );
+        let mut index = 0;
+        while index < nodes.len() {
+            let children = nodes[ index ].iter_rc();
+            nodes.extend( children );
+            index += 1;
+        }
+        let visits = nodes.into_iter()
+            .map( |node| { let size = node.node_borrow().size; Visit{ data: node, size }})
+            .collect::<Vec<_>>();
+
+        Tree::from( BfsTree{ iter: visits.into_iter().map( |visit| Visit{ data: visit.data.data().clone(), size: visit.size }), size })
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From f0902d92f693cd64f3fb70265833a8cff0102608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 12/12] fix: a dying contiguously stored node refused its
 children, and a leaked borrow aborted the release of a node's children

---
 src/rc.rs | 57 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 7bbf098..aad67a7 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -144,45 +144,62 @@ impl<T> RcNode<T> {
     // Releases all children even if the destructor of one of them panics, as those held by others must not
     // refer to this node any more.
     fn drop_children( &self ) {
-        struct DropGuard<'a,T>( &'a RcNode<T> );
+        struct DropGuard<T>( *mut Node<T> );
 
-        impl<'a,T> Drop for DropGuard<'a,T> {
-            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+        impl<T> Drop for DropGuard<T> {
+            fn drop( &mut self ) { while let Some(_) = pop_front( self.0 ) {} }
         }
 
-        let guard = DropGuard( self );
-        while let Some(_) = self.pop_front() {}
+        // Does not borrow the node, for which it might be too late: a borrow may have been leaked.
+        fn pop_front<T>( node: *mut Node<T> ) -> Option<RcNode<T>> {
+            unsafe{ &mut *node }.pop_front().map( RcNode::from )
+        }
+
+        let guard = DropGuard( self.as_ptr() );
+        while let Some(_) = pop_front( guard.0 ) {}
         forget( guard );
     }
+
+    fn as_ptr( &self ) -> *mut Node<T> {
+        match self {
+            RcNode::Scattered( ScatteredRcNode( rc )) => rc.as_ptr(),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe{ node_vec.as_ref().buf.get_unchecked( *index ).as_ptr() },
+        }
+    }
 }
 
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
-        let mut drop_piled = false;
+        // Gives up the handle even if the destructor of a child panics.
+        struct DropGuard<T>( NonNull<NodeVec<T>>, usize );
+
+        impl<T> Drop for DropGuard<T> {
+            fn drop( &mut self ) {
+                unsafe {
+                    let node = self.0.as_mut().buf.get_unchecked_mut( self.1 );
+                    if node.count.decr() == 0 {
+                        ptr::drop_in_place( &mut node.data );
+                    }
+                }
+                NodeVec::decr_ref( self.0 );
+            }
+        }
+
+        // As long as it has children the node is alive, so that their destructors may refer to it.
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
                     self.drop_children();
                 }
             },
-            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
-                let node = node_vec.as_ref().buf.get_unchecked( *index );
-                if node.count.decr() == 0 {
-                    drop_piled = true;
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                let _guard = DropGuard( *node_vec, *index );
+                let count = unsafe{ node_vec.as_ref().buf.get_unchecked( *index ).count.get() };
+                if count == 1 {
                     self.drop_children();
                 }
             },
         }
-        match self {
-            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
-                if drop_piled {
-                    let node = node_vec.as_mut().buf.get_unchecked_mut( *index );
-                    ptr::drop_in_place( &mut node.data );
-                }
-                NodeVec::decr_ref( *node_vec );
-            }
-            _ => (),
-        }
     }
 }
 
-- 
2.43.0

