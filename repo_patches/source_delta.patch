From fd5b6dc600dc83df0ed71023789acd4dfa2a0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 1/5] fix: from_tuple misplaced nodes following a branch whose
 last child is a branch

---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From 7466bfa123351b7413411574cc5d0dee91c7d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 2/5] fix: count cloned, upgraded and downgraded handles of
 piled nodes

---
 src/rc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..0c3a2c6 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,7 +113,9 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
-                    let node = node_vec.as_ref().buf.get_unchecked( *index );
+                    let node_vec = node_vec.as_ref();
+                    node_vec.ref_cnt.incr();
+                    let node = node_vec.buf.get_unchecked( *index );
                     node.count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
@@ -455,7 +457,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -545,6 +550,7 @@ impl<T> WeakNode<T> {
                     None
                 } else {
                     node.count.incr();
+                    node_vec.as_ref().ref_cnt.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
             },
-- 
2.43.0


From 01c85e6f29069c1623e8be6f6ab8a544595c531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 3/5] fix: postorder_with_size_hint emitted branches in
 preorder

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From aef33a38576afec73fa2857b1cd4022f07bf7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 4/5] fix: keep the next node of iter_rc() alive

---
 src/iter_rc.rs | 26 ++++++++++++++------------
 src/lib.rs     |  1 -
 src/rc.rs      | 13 ++++++++++++-
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..29505d3 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::RcNode;
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,33 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    curr : Option<RcNode<T>>, // keeps the node to be yielded alive.
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        if self.len == 0 {
+            None
+        } else {
+            self.len -= 1;
+            let curr = self.curr.take();
+            self.curr = curr.as_ref().and_then( |curr| curr.next_sib() );
+            curr
+        }
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { ( self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
-    }
+    pub(crate) fn new( curr: Option<RcNode<T>>, len: usize ) -> Self { IterRc{ curr, len }}
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ curr: self.curr.clone(), len: self.len }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index 0c3a2c6..5995088 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -449,10 +449,21 @@ impl<T> RcNode<T> {
         if node.has_no_child() {
             IterRc::new( None, 0 )
         } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
+            IterRc::new( node.front().map( |front| front.rc() ), node.degree() )
         }
     }
 
+    // the next sibling, regardless of whether `self` or its siblings are borrowed.
+    pub(crate) fn next_sib( &self ) -> Option<RcNode<T>> {
+        let node: *const Node<T> = match self {
+            RcNode::Scattered( ScatteredRcNode( rc )) => rc.deref().as_ptr() as *const _,
+            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
+                node_vec.as_ref().buf.get_unchecked( *index ).deref().as_ptr()
+            },
+        };
+        unsafe{ (*node).next.map( |next| next.as_ref().rc() )}
+    }
+
     /// Creates a new weak pointer to this node.
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
-- 
2.43.0


From 273174fb0a4057494c1ff29d5649b5c72b535cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 5/5] fix: cursor moved beyond the last sibling no longer
 panics in get/revisit/to_sib/to_child

---
 src/walk.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..965b7db 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -93,9 +93,9 @@ impl<T> Walk<T> {
 
     fn revisit( &mut self ) {
         if self.origin.is_some() {
-            match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
-                _ => (),
+            match self.path.last() {
+                None => self.path.push( Nodes::sibs( self.origin )),
+                Some( nodes ) => if nodes.node.is_none() { return; } // beyond the last sibling
             }
             self.direction = Direction::Down;
             self.init_visit();
@@ -206,10 +206,14 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node.is_none() {
+                return None;
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -231,7 +235,10 @@ impl<T> Walk<T> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
             unsafe {
-                let node = nodes.node.unwrap();
+                let node = match nodes.node {
+                    Some( node ) => node,
+                    None => return None,
+                };
                 if node.as_ref().has_no_child() {
                     self.direction = Direction::Right;
                     return None;
-- 
2.43.0

