From e1c208fbaed416d03c30e53cc5820f2896a94338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 01/12] fix: from_tuple must advance past a branch that ends
 with another branch

construct_tree/construct_forest skipped the offset bump on a Frame that
directly followed another Frame, so e.g. (0,(1,(2,3)),4) overwrote node 1
and left dangling links.
---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From 7630a4dd89c0281ec8dc34f208d2eed53fa35fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 02/12] fix: count every handle of a contiguously stored node

RcNode::clone, downgrade and upgrade did not increment NodeVec::ref_cnt
although dropping the handle decrements it, so the node vector was freed
while still in use.
---
 src/rc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..7c8b61f 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,8 +113,9 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
-                    let node = node_vec.as_ref().buf.get_unchecked( *index );
-                    node.count.incr();
+                    let node_vec = node_vec.as_ref();
+                    node_vec.ref_cnt.incr();
+                    node_vec.buf.get_unchecked( *index ).count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
             },
@@ -455,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -544,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From 4718c2561c0f5903018587152ef548a931b9abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 03/12] fix: a weak handle of a contiguously stored node must
 not upgrade after the node is dropped

Dropping a Tree (obtained back by into_tree) left the node's own count at
one, so WeakNode::upgrade returned a handle of a dead node.
---
 src/heap.rs     | 1 +
 src/node_vec.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/heap.rs b/src/heap.rs
index 4648017..b646957 100644
--- a/src/heap.rs
+++ b/src/heap.rs
@@ -39,6 +39,7 @@ pub(crate) fn drop_node<T>( mut node: NonNull<Node<T>> ) {
             },
             Data::PiledNone    { owner     } |
             Data::Piled        { owner, .. } => {
+                owner.as_ref().release_node( node );
                 NodeVec::decr_ref( owner );
             },
         }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..c61a966 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -158,6 +158,14 @@ impl<T> NodeVec<T> {
         Tuple::preorder_with_size_hint( tuple, &mut f );
     }
 
+    // The node is dead, so weak pointers to it can no longer be upgraded.
+    pub(crate) fn release_node( &self, node: NonNull<Node<T>> ) {
+        use super::rc::RefCount;
+        let index = ( node.as_ptr() as usize - self.buf.as_ptr() as usize )
+            / mem::size_of::<Shared<RefCell<Node<T>>>>();
+        unsafe{ self.buf.get_unchecked( index ).count.decr(); }
+    }
+
     pub(crate) fn decr_ref( owner: NonNull<NodeVec<T>> ) {
         unsafe {
             let node_vec = owner.as_ref();
-- 
2.43.0


From 46278958ba0c9f637a8e87d6974433c3139297ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 04/12] fix: a walk stays usable after a jump to a missing
 child or sibling

to_sib/to_child past the last sibling left the cursor on no node with a
stale visit type: get, revisit, to_sib and to_child then panicked.
---
 src/walk.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..18b373d 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -94,7 +94,11 @@ impl<T> Walk<T> {
     fn revisit( &mut self ) {
         if self.origin.is_some() {
             match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
+                VisitType::None => if self.path.is_empty() {
+                    self.path.push( Nodes::sibs( self.origin ));
+                } else {
+                    return; // past the last sibling, no node to revisit.
+                },
                 _ => (),
             }
             self.direction = Direction::Down;
@@ -206,10 +210,19 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node.is_none() {
+                return None;
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
-                    self.direction = Direction::Up;
+                    nodes.node = None;
+                    if self.path.len() == 1 {
+                        self.reset();
+                    } else {
+                        self.direction = Direction::Up;
+                        self.visit_type = VisitType::None;
+                    }
                     return None;
                 }
             }
@@ -231,7 +244,7 @@ impl<T> Walk<T> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
             unsafe {
-                let node = nodes.node.unwrap();
+                let node = nodes.node?;
                 if node.as_ref().has_no_child() {
                     self.direction = Direction::Right;
                     return None;
-- 
2.43.0


From 8bd7bd80c4ab926086170265e5f392fff15c29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/12] fix: postorder_with_size_hint must emit the events of
 postorder

It emitted the preorder sequence (Branch first, Frame last).
---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From 3d9c08df9e7ec6ded9fbb7269c278032e60d6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 06/12] fix: the reference count of contiguous storage must be
 atomic

TreeWalk and ForestWalk are Send, and trees cut from one contiguously
stored tree share NodeVec::ref_cnt, so dropping them on different threads
was a data race.
---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..7626393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{AtomicUsize, Ordering as AtomicOrdering};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{AtomicUsize, Ordering as AtomicOrdering};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index c61a966..63e1a72 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count, shared by trees which may be sent to different threads
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index 7c8b61f..3928808 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,22 @@ impl RefCount for Cell<usize> {
     }
 }
 
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        let count = self.fetch_add( 1, AtomicOrdering::Relaxed );
+        if count == 0 || count == !0 {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        match self.fetch_sub( 1, AtomicOrdering::AcqRel ).checked_sub( 1 ) {
+            Some( count ) => count,
+            None => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From 846bb1e2c02a65a980324e0e0a7008099682f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 07/12] fix: rebuilding from a bfs stream must check the sizes
 it is told

Sizes that do not fit the visits made From<BfsTree>/From<BfsForest> write
out of bounds or yield trees with dangling or missing nodes.
---
 src/bfs_impls.rs | 16 ++++++++++++++--
 src/node_vec.rs  |  9 +++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..87a17b0 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -268,13 +268,17 @@ impl<T> Tree<T> {
     }
 }
 
+fn node_count_of( size: Size ) -> usize {
+    size.descendants.checked_add( 1 ).expect( "bfs stream tells a size out of range" )
+}
+
 impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
     where Iter: Iterator<Item=Visit<T>>
 {
     fn from( tree_iter: BfsTree<Iter> ) -> Self {
         let mut iter = tree_iter.wrap().iter();
         let visit_root = iter.next().unwrap();
-        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants+1);
+        let (degree, node_cnt) = (visit_root.size.degree, node_count_of( visit_root.size ));
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
@@ -287,6 +291,7 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains > 0 && child < node_cnt, "bfs stream has more visits than its sizes tell" );
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -301,6 +306,9 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
             child += 1;
         }
 
+        assert!( remains == 0 && child == node_cnt, "bfs stream has less visits than its sizes tell" );
+        unsafe{ node_vec.as_ref().assert_descendants(); }
+
         Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
@@ -322,7 +330,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
 {
     fn from( forest_iter: BfsForest<Iter> ) -> Self {
         let (mut iter, size) = forest_iter.wrap().iter_and_size();
-        let (degree, node_cnt) = (size.degree, size.descendants+1);
+        let (degree, node_cnt) = (size.degree, node_count_of( size ));
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
@@ -336,6 +344,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains > 0 && child < node_cnt, "bfs stream has more visits than its sizes tell" );
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -350,6 +359,9 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
             child += 1;
         }
 
+        assert!( remains == 0 && child == node_cnt, "bfs stream has less visits than its sizes tell" );
+        unsafe{ node_vec.as_ref().assert_descendants(); }
+
         Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index 63e1a72..1d95863 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -64,6 +64,15 @@ impl<T> NodeVec<T> {
         self.node_mut( parent ).tail = Some( child );
     }
 
+    // Sizes reported by bfs visits must fit the nodes actually linked.
+    pub(crate) fn assert_descendants( &self ) {
+        for index in (0..self.buf.len()).rev() { // children always come after their parent
+            let node = self.node( index );
+            let descendants = node.iter().map( |child| child.size.descendants + 1 ).sum::<usize>();
+            assert_eq!( node.size.descendants, descendants, "bfs stream has inconsistent sizes" );
+        }
+    }
+
     pub(crate) fn construct_tree<Tuple,Shape>( &mut self, tuple: Tuple )
         where Tuple: TupleTree<T,Shape>
     {
-- 
2.43.0


From ca315872e52d311154d2014ee5f8fd0f92e91849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 08/12] fix: iter_rc must own the node it will yield next

IterRc kept a raw pointer to the next sibling, so removing and dropping
that sibling, or dropping the whole tree, during iteration made it read
freed memory.
---
 src/iter_rc.rs | 26 ++++++++++++++++++--------
 src/rc.rs      | 10 ++++++++++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..8b9b127 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::{Node, RcNode};
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,41 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    next : Option<RcNode<T>>, // owned, because it may be removed and released before being yielded.
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        let curr = self.next.take();
+        if let Some( curr ) = curr.as_ref() {
+            self.len -= 1;
+            if self.len > 0 {
+                self.next = unsafe{ curr.non_null().as_ref().next.map( |next| next.as_ref().rc() )};
+            }
+        }
+        if self.next.is_none() {
+            self.len = 0;
+        }
+        curr
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { (self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
     pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
         IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
+            next: curr.map( |node| unsafe{ node.as_ref().rc() }),
+            len ,
         }
     }
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ next: self.next.clone(), len: self.len }
     }
 }
diff --git a/src/rc.rs b/src/rc.rs
index 3928808..09ca53e 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -225,6 +225,16 @@ impl<T> RcNode<T> {
         }
     }
 
+    // Not a dynamic borrow.
+    pub(crate) fn non_null( &self ) -> NonNull<Node<T>> {
+        unsafe {
+            NonNull::new_unchecked( match self {
+                RcNode::Scattered( ScatteredRcNode( rc )) => rc.as_ptr(),
+                RcNode::Piled( PiledRcNode( node_vec, index )) => node_vec.as_ref().buf.get_unchecked( *index ).as_ptr(),
+            })
+        }
+    }
+
     /// Returns `true` if this `Node` has no child node, otherwise `false`.
     ///
     /// # Examples
-- 
2.43.0


From b14e40036cbcb08228454675c8388af05ccdf2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 09/12] fix: RcNode::deep_clone must borrow every node it reads

It read the descendants through raw pointers, ignoring outstanding mutable
borrows, and followed freed links if cloning the data edited the tree.
---
 src/rc.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 09ca53e..040a05a 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -2,7 +2,8 @@
 
 use crate::rust::*;
 
-use super::{Data, Forest, Node, NodeVec, IterRc, Tree};
+use super::{Data, Forest, Node, NodeVec, IterRc, Size, Tree};
+use super::bfs::{self, BfsTree};
 
 // Replacement of std::rc::Rc to avoid heap allocations.
 pub(crate) struct Shared<T> {
@@ -535,7 +536,19 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        let mut visits = Vec::new();
+        let mut nodes = VecDeque::new();
+        nodes.push_back( self.clone() );
+        while let Some( node ) = nodes.pop_front() {
+            let data = node.data().clone(); // every node is dynamically borrowed
+            visits.push( bfs::Visit{ data, size: node.node_borrow().size });
+            nodes.extend( node.iter_rc() );
+        }
+
+        let size = Size{ degree: 1, descendants: visits.len()-1 };
+        Tree::from( BfsTree{ iter: visits.into_iter(), size })
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From 3ad92a786f85e3aed09640af0fa4ea66cc697866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 10/12] fix: a panic while releasing a shared parent must not
 leave its children linked to it

---
 src/rc.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 040a05a..625a400 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -146,14 +146,14 @@ impl<T> Drop for RcNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    self.release_children();
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    self.release_children();
                 }
             },
         }
@@ -171,6 +171,19 @@ impl<T> Drop for RcNode<T> {
 }
 
 impl<T> RcNode<T> {
+    // The parent is going away: all its children must become roots, even if dropping one of them panics.
+    fn release_children( &self ) {
+        struct Guard<'a,T>( &'a RcNode<T> );
+
+        impl<'a,T> Drop for Guard<'a,T> {
+            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+        }
+
+        let guard = Guard( self );
+        while let Some(_) = self.pop_front() {}
+        mem::forget( guard );
+    }
+
     /// Checks if it is a root node.
     ///
     /// # Examples
-- 
2.43.0


From 367c1dfe6190fe0113e6e5370d808e6b8f78148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:56 +0000
Subject: [PATCH 11/12] fix: a child's destructor may ask for the shared parent
 being released

---
 src/rc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 625a400..b920c01 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -151,10 +151,10 @@ impl<T> Drop for RcNode<T> {
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
-                if node.count.decr() == 0 {
-                    drop_piled = true;
-                    self.release_children();
+                if node.count.get() == 1 {
+                    self.release_children(); // still counted: a child's destructor may ask for its parent
                 }
+                drop_piled = node.count.decr() == 0;
             },
         }
         match self {
-- 
2.43.0


From d84ed4266cc9308c3914f4c8f00f813d4255554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:12 +0000
Subject: [PATCH 12/12] fix: give up a shared parent even if dropping one of
 its children panics

---
 src/rc.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index b920c01..8619f86 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -176,7 +176,18 @@ impl<T> RcNode<T> {
         struct Guard<'a,T>( &'a RcNode<T> );
 
         impl<'a,T> Drop for Guard<'a,T> {
-            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+            fn drop( &mut self ) {
+                while let Some(_) = self.0.pop_front() {}
+                if let RcNode::Piled( PiledRcNode( mut node_vec, index )) = *self.0 { // Drop::drop() is being unwound
+                    unsafe {
+                        let node = node_vec.as_mut().buf.get_unchecked_mut( index );
+                        if node.count.decr() == 0 {
+                            ptr::drop_in_place( &mut node.data );
+                        }
+                        NodeVec::decr_ref( node_vec );
+                    }
+                }
+            }
         }
 
         let guard = Guard( self );
-- 
2.43.0

