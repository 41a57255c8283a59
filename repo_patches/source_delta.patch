From ed4d62e0e3641c6df06b98926141f88300eb028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 01/11] verif: reporting atomics and tree accessors under
 cfg(masstree_verif)

---
 src/internode.rs                |   3 +
 src/leaf24.rs                   |   3 +
 src/lib.rs                      |   2 +
 src/nodeversion.rs              |   3 +
 src/permuter24.rs               |   3 +
 src/tree.rs                     |   5 +
 src/tree/generic.rs             |  12 +-
 src/tree/split/propagation.rs   |   3 +
 src/tree/split/root_creation.rs |   3 +
 src/tree/verif_access.rs        |  35 ++++++
 src/verif.rs                    | 204 ++++++++++++++++++++++++++++++++
 11 files changed, 270 insertions(+), 6 deletions(-)
 create mode 100644 src/tree/verif_access.rs
 create mode 100644 src/verif.rs

diff --git a/src/internode.rs b/src/internode.rs
index 48c37bb..0024a02 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -59,7 +59,10 @@ use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::mem as StdMem;
 use std::ptr as StdPtr;
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
 
 use crate::leaf_trait::TreeInternode;
 use crate::nodeversion::NodeVersion;
diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..c1a784b 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -14,7 +14,10 @@
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::ptr as StdPtr;
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64};
 
 use crate::nodeversion::NodeVersion;
 use crate::ordering::{READ_ORD, RELAXED, WRITE_ORD};
diff --git a/src/lib.rs b/src/lib.rs
index abf6582..5471cf3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -187,6 +187,8 @@ pub mod suffix;
 mod tracing_helpers;
 pub mod tree;
 pub mod value;
+#[cfg(masstree_verif)]
+pub mod verif;
 
 // Re-export freeze types for convenience
 pub use freeze24::Freeze24Utils;
diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index 1996bbd..d6c8c53 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -22,7 +22,10 @@
 
 use std::marker::PhantomData;
 use std::sync::atomic::compiler_fence;
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicU32, Ordering, fence};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicU32, Ordering, fence};
 use std::time::{Duration, Instant};
 
 // ============================================================================
diff --git a/src/permuter24.rs b/src/permuter24.rs
index ccd0ca4..654f734 100644
--- a/src/permuter24.rs
+++ b/src/permuter24.rs
@@ -15,7 +15,10 @@
 //! Size:   bits 0-4 (5 bits, values 0-24)
 //! ```
 
+#[cfg(not(masstree_verif))]
 use portable_atomic::{AtomicU128, Ordering};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicU128, Ordering};
 
 use crate::{leaf_trait::TreePermutation, suffix::PermutationProvider};
 
diff --git a/src/tree.rs b/src/tree.rs
index 1fe66cd..cb9b361 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -7,7 +7,10 @@
 
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
 
 use crate::slot::ValueSlot;
 use crate::value::{LeafValue, LeafValueIndex};
@@ -18,6 +21,8 @@ mod generic;
 mod index;
 mod optimistic;
 mod split;
+#[cfg(masstree_verif)]
+mod verif_access;
 
 #[cfg(test)]
 pub mod test_hooks;
diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..76d3cd7 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1,11 +1,11 @@
 #[cfg(feature = "tracing")]
 use std::time::Instant;
-use std::{
-    cmp::Ordering,
-    marker::PhantomData,
-    ptr as StdPtr,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering},
-};
+#[cfg(not(masstree_verif))]
+use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+use std::{cmp::Ordering, marker::PhantomData, ptr as StdPtr};
+
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
 
 use parking_lot::{Condvar, Mutex};
 use seize::{Collector, Guard, LocalGuard};
diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index e09736b..28c689d 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -36,7 +36,10 @@
 #[cfg(feature = "tracing")]
 use std::time::Instant;
 
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering};
 
 use seize::LocalGuard;
 
diff --git a/src/tree/split/root_creation.rs b/src/tree/split/root_creation.rs
index b870863..8f2b73a 100644
--- a/src/tree/split/root_creation.rs
+++ b/src/tree/split/root_creation.rs
@@ -9,7 +9,10 @@
 //! NOT retired. It remains tracked by the allocator and will be freed
 //! when the allocator drops. This prevents double-free.
 
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
 
 use crate::NodeAllocatorGeneric;
 use crate::leaf_trait::{LayerCapableLeaf, TreeInternode};
diff --git a/src/tree/verif_access.rs b/src/tree/verif_access.rs
new file mode 100644
index 0000000..0557279
--- /dev/null
+++ b/src/tree/verif_access.rs
@@ -0,0 +1,35 @@
+//! Filepath: src/tree/verif_access.rs
+//!
+//! Read access to private tree state for verification (`--cfg masstree_verif` only).
+
+use seize::Collector;
+
+use super::MassTreeGeneric;
+use crate::{NodeAllocatorGeneric, TreeLeafNode, slot::ValueSlot};
+
+impl<S, L, A> MassTreeGeneric<S, L, A>
+where
+    S: ValueSlot,
+    L: TreeLeafNode<S>,
+    A: NodeAllocatorGeneric<S, L>,
+{
+    /// The raw root pointer.
+    pub fn verif_root_ptr(&self) -> *mut u8 {
+        self.root_ptr.load(super::AtomicOrdering::Acquire)
+    }
+
+    /// Address of the atomic that holds the root pointer.
+    pub fn verif_root_addr(&self) -> usize {
+        std::ptr::from_ref(&self.root_ptr) as usize
+    }
+
+    /// The collector that retires this tree's memory.
+    pub fn verif_collector(&self) -> &Collector {
+        &self.collector
+    }
+
+    /// Replace the collector of a tree nobody uses yet.
+    pub fn verif_set_collector(&mut self, collector: Collector) {
+        self.collector = collector;
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..55a36a5
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,204 @@
+//! Filepath: src/verif.rs
+//!
+//! Verification hooks, compiled only under `--cfg masstree_verif`.
+//!
+//! [`atomic`] has drop-in replacements for the atomic types used by the tree. Every
+//! operation reports itself to one installable function immediately before and
+//! immediately after it takes effect; with no function installed, and always when the
+//! cfg is off, the tree behaves exactly as with the standard types.
+
+use std::sync::atomic::{AtomicUsize as StdAtomicUsize, Ordering as StdOrdering};
+
+/// When a report is made relative to the operation it describes.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Phase {
+    /// The operation has not happened yet.
+    Before,
+    /// The operation has just happened.
+    After,
+}
+
+/// The kind of memory operation.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Op {
+    /// An atomic load.
+    Load,
+    /// An atomic store.
+    Store,
+    /// An atomic read-modify-write, including a failed compare-exchange.
+    Rmw,
+}
+
+/// One report.
+#[derive(Debug, Clone, Copy)]
+pub struct Access {
+    /// Before or after the operation.
+    pub phase: Phase,
+    /// The kind of operation.
+    pub op: Op,
+    /// Address of the atomic.
+    pub addr: usize,
+    /// Size of the atomic in bytes.
+    pub size: usize,
+    /// After: the value loaded (load), stored (store), or found (rmw); truncated to 64 bits.
+    pub value: u64,
+}
+
+/// A function that receives reports.
+pub type Hook = fn(&Access);
+
+static HOOK: StdAtomicUsize = StdAtomicUsize::new(0);
+
+/// Install (or remove) the function that receives reports.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.store(hook.map_or(0, |f| f as usize), StdOrdering::SeqCst);
+}
+
+#[inline]
+fn report(phase: Phase, op: Op, addr: usize, size: usize, value: u64) {
+    let raw: usize = HOOK.load(StdOrdering::Relaxed);
+    if raw != 0 {
+        // SAFETY: the only non-zero values stored in HOOK are `Hook` function pointers.
+        let hook: Hook = unsafe { std::mem::transmute::<usize, Hook>(raw) };
+        hook(&Access {
+            phase,
+            op,
+            addr,
+            size,
+            value,
+        });
+    }
+}
+
+/// Reporting versions of the standard atomic types.
+#[allow(missing_docs, missing_debug_implementations, clippy::all, clippy::pedantic)]
+pub mod atomic {
+    use super::{Op, Phase, report};
+    pub use std::sync::atomic::{Ordering, compiler_fence, fence};
+
+    macro_rules! common {
+        ($name:ident [$($g:tt)*] $inner:ty, $val:ty, $conv:expr) => {
+            #[repr(transparent)]
+            pub struct $name $($g)* {
+                inner: $inner,
+            }
+
+            impl $($g)* std::fmt::Debug for $name $($g)* {
+                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    self.inner.fmt(f)
+                }
+            }
+
+            impl $($g)* $name $($g)* {
+                #[inline]
+                pub const fn new(v: $val) -> Self {
+                    Self { inner: <$inner>::new(v) }
+                }
+
+                #[inline]
+                fn at(&self) -> usize {
+                    std::ptr::from_ref(self) as usize
+                }
+
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $val {
+                    let size = std::mem::size_of::<Self>();
+                    report(Phase::Before, Op::Load, self.at(), size, 0);
+                    let v = self.inner.load(order);
+                    report(Phase::After, Op::Load, self.at(), size, $conv(v));
+                    v
+                }
+
+                #[inline]
+                pub fn store(&self, v: $val, order: Ordering) {
+                    let size = std::mem::size_of::<Self>();
+                    report(Phase::Before, Op::Store, self.at(), size, $conv(v));
+                    self.inner.store(v, order);
+                    report(Phase::After, Op::Store, self.at(), size, $conv(v));
+                }
+
+                #[inline]
+                pub fn swap(&self, v: $val, order: Ordering) -> $val {
+                    let size = std::mem::size_of::<Self>();
+                    report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                    let old = self.inner.swap(v, order);
+                    report(Phase::After, Op::Rmw, self.at(), size, $conv(old));
+                    old
+                }
+
+                #[inline]
+                pub fn compare_exchange(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    let size = std::mem::size_of::<Self>();
+                    report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                    let r = self.inner.compare_exchange(current, new, success, failure);
+                    let found = match r { Ok(v) | Err(v) => v };
+                    report(Phase::After, Op::Rmw, self.at(), size, $conv(found));
+                    r
+                }
+
+                #[inline]
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+
+                #[inline]
+                pub fn get_mut(&mut self) -> &mut $val {
+                    self.inner.get_mut()
+                }
+
+                #[inline]
+                pub fn into_inner(self) -> $val {
+                    self.inner.into_inner()
+                }
+            }
+        };
+    }
+
+    macro_rules! arith {
+        ($name:ident, $val:ty) => {
+            impl $name {
+                arith!(@op $val, fetch_add);
+                arith!(@op $val, fetch_sub);
+                arith!(@op $val, fetch_and);
+                arith!(@op $val, fetch_or);
+                arith!(@op $val, fetch_xor);
+                arith!(@op $val, fetch_max);
+                arith!(@op $val, fetch_min);
+            }
+        };
+        (@op $val:ty, $f:ident) => {
+            #[inline]
+            pub fn $f(&self, v: $val, order: Ordering) -> $val {
+                let size = std::mem::size_of::<Self>();
+                report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                let old = self.inner.$f(v, order);
+                report(Phase::After, Op::Rmw, self.at(), size, old as u64);
+                old
+            }
+        };
+    }
+
+    common!(AtomicU8 [] std::sync::atomic::AtomicU8, u8, u64::from);
+    common!(AtomicU32 [] std::sync::atomic::AtomicU32, u32, u64::from);
+    common!(AtomicU64 [] std::sync::atomic::AtomicU64, u64, u64::from);
+    common!(AtomicUsize [] std::sync::atomic::AtomicUsize, usize, |v| v as u64);
+    common!(AtomicU128 [] portable_atomic::AtomicU128, u128, |v| v as u64);
+    common!(AtomicPtr [<T>] std::sync::atomic::AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u64);
+    arith!(AtomicU8, u8);
+    arith!(AtomicU32, u32);
+    arith!(AtomicU64, u64);
+    arith!(AtomicUsize, usize);
+    arith!(AtomicU128, u128);
+}
-- 
2.43.0


From a2ed07a51f55e55520d586a0fde79ddbabb16649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 02/11] fix: keep keys with the same slice in one leaf when a
 split is triggered by a larger key

calculate_split_point stopped on a split point inside a group of keys sharing
an eight-byte slice when the inserted slice was larger than the group's, so the
group was torn apart and lookups lost the part left behind. Move the split
point to the right end of the group instead.
---
 src/leaf24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index c1a784b..3abe8d4 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1223,8 +1223,8 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
                         split_pos -= 1;
                     }
                     std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
+                        // Insert goes right of the group - keep the group whole on the left
+                        split_pos += 1;
                     }
                 }
             } else {
-- 
2.43.0


From 94f34637497c750a47e525d8147d9f9879489f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 03/11] fix: readers must not accept a node that is being
 modified

has_changed ignores the lock and inserting bits by design, so a reader could
validate a read that overlapped a locked modification: a lookup could miss an
existing key while its slot was turned into a layer, and a descent through an
interior node being inserted into could be routed too far right, where a lookup
misses the key and an insert stores it out of reach. Use the existing
has_changed_or_locked for the three optimistic validations.
---
 src/tree/generic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 76d3cd7..be34a60 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -584,7 +584,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -742,7 +742,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
@@ -909,7 +909,7 @@ where
             }
 
             // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From 99307ed63fface8c817bfa9d04c94b34b6258526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 04/11] fix: after too many sibling hops in a sublayer, retry
 in that sublayer

The retry restarted at the root of the whole tree although the key had already
been shifted past the upper layers, so the remainder of the key was inserted
into the wrong layer: the key was lost and a foreign key appeared. Restart at
the root of the current layer.
---
 src/tree/generic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index be34a60..4952221 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1586,9 +1586,12 @@ where
             // B-link advance if needed
             let (leaf, exceeded_hop_limit) = self.advance_to_key_by_bound_generic(leaf, key, guard);
 
-            // If we exceeded the hop limit, re-traverse from root
+            // If we exceeded the hop limit, re-traverse from the root of the current
+            // layer (the key is already shifted past the layers above it)
             if exceeded_hop_limit {
-                layer_root = self.load_root_ptr_generic(guard);
+                if !in_sublayer {
+                    layer_root = self.load_root_ptr_generic(guard);
+                }
                 continue;
             }
 
-- 
2.43.0


From 95d1ba79ad0331608897c618f9a0d82512947a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 05/11] verif: import all reporting atomics, with the rest of
 their methods

---
 src/internode.rs                |  3 +-
 src/leaf24.rs                   |  3 +-
 src/nodeversion.rs              |  3 +-
 src/permuter24.rs               |  3 +-
 src/tree.rs                     |  3 +-
 src/tree/generic.rs             |  3 +-
 src/tree/split/propagation.rs   |  3 +-
 src/tree/split/root_creation.rs |  3 +-
 src/verif.rs                    | 55 +++++++++++++++++++++++++++++++++
 9 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/src/internode.rs b/src/internode.rs
index 0024a02..eba3593 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -62,7 +62,8 @@ use std::ptr as StdPtr;
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
+#[allow(unused_imports)]
+use crate::verif::atomic::*;
 
 use crate::leaf_trait::TreeInternode;
 use crate::nodeversion::NodeVersion;
diff --git a/src/leaf24.rs b/src/leaf24.rs
index 3abe8d4..42c3561 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -17,7 +17,8 @@ use std::ptr as StdPtr;
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64};
+#[allow(unused_imports)]
+use crate::verif::atomic::*;
 
 use crate::nodeversion::NodeVersion;
 use crate::ordering::{READ_ORD, RELAXED, WRITE_ORD};
diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index d6c8c53..8965b53 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -25,7 +25,8 @@ use std::sync::atomic::compiler_fence;
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicU32, Ordering, fence};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicU32, Ordering, fence};
+#[allow(unused_imports)]
+use crate::verif::atomic::*;
 use std::time::{Duration, Instant};
 
 // ============================================================================
diff --git a/src/permuter24.rs b/src/permuter24.rs
index 654f734..247af87 100644
--- a/src/permuter24.rs
+++ b/src/permuter24.rs
@@ -18,7 +18,8 @@
 #[cfg(not(masstree_verif))]
 use portable_atomic::{AtomicU128, Ordering};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicU128, Ordering};
+#[allow(unused_imports)]
+use crate::verif::atomic::*;
 
 use crate::{leaf_trait::TreePermutation, suffix::PermutationProvider};
 
diff --git a/src/tree.rs b/src/tree.rs
index cb9b361..5308756 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -10,7 +10,8 @@ use std::marker::PhantomData;
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+#[allow(unused_imports)]
+use crate::verif::atomic::{*, Ordering as AtomicOrdering};
 
 use crate::slot::ValueSlot;
 use crate::value::{LeafValue, LeafValueIndex};
diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 4952221..4167abe 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -5,7 +5,8 @@ use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
 use std::{cmp::Ordering, marker::PhantomData, ptr as StdPtr};
 
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+#[allow(unused_imports)]
+use crate::verif::atomic::{*, Ordering as AtomicOrdering};
 
 use parking_lot::{Condvar, Mutex};
 use seize::{Collector, Guard, LocalGuard};
diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index 28c689d..4569329 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -39,7 +39,8 @@ use std::time::Instant;
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering};
+#[allow(unused_imports)]
+use crate::verif::atomic::{*, Ordering as AtomicOrdering};
 
 use seize::LocalGuard;
 
diff --git a/src/tree/split/root_creation.rs b/src/tree/split/root_creation.rs
index 8f2b73a..b882e26 100644
--- a/src/tree/split/root_creation.rs
+++ b/src/tree/split/root_creation.rs
@@ -12,7 +12,8 @@
 #[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
 #[cfg(masstree_verif)]
-use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
+#[allow(unused_imports)]
+use crate::verif::atomic::{*, Ordering as AtomicOrdering, fence as atomic_fence};
 
 use crate::NodeAllocatorGeneric;
 use crate::leaf_trait::{LayerCapableLeaf, TreeInternode};
diff --git a/src/verif.rs b/src/verif.rs
index 55a36a5..e2500b8 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -153,6 +153,28 @@ pub mod atomic {
                     self.compare_exchange(current, new, success, failure)
                 }
 
+                #[inline]
+                pub fn fetch_update<F: FnMut($val) -> Option<$val>>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$val, $val> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange(prev, next, set_order, fetch_order) {
+                            Ok(v) => return Ok(v),
+                            Err(v) => prev = v,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                #[inline]
+                pub const fn as_ptr(&self) -> *mut $val {
+                    self.inner.as_ptr()
+                }
+
                 #[inline]
                 pub fn get_mut(&mut self) -> &mut $val {
                     self.inner.get_mut()
@@ -190,12 +212,45 @@ pub mod atomic {
         };
     }
 
+    macro_rules! from {
+        ($($name:ident $val:ty),*) => {$(
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(<$val>::default())
+                }
+            }
+            impl From<$val> for $name {
+                fn from(v: $val) -> Self {
+                    Self::new(v)
+                }
+            }
+        )*};
+    }
+
+    common!(AtomicBool [] std::sync::atomic::AtomicBool, bool, u64::from);
+    common!(AtomicI32 [] std::sync::atomic::AtomicI32, i32, |v| v as u64);
+    common!(AtomicI64 [] std::sync::atomic::AtomicI64, i64, |v| v as u64);
+    common!(AtomicIsize [] std::sync::atomic::AtomicIsize, isize, |v| v as u64);
+    common!(AtomicU16 [] std::sync::atomic::AtomicU16, u16, u64::from);
     common!(AtomicU8 [] std::sync::atomic::AtomicU8, u8, u64::from);
     common!(AtomicU32 [] std::sync::atomic::AtomicU32, u32, u64::from);
     common!(AtomicU64 [] std::sync::atomic::AtomicU64, u64, u64::from);
     common!(AtomicUsize [] std::sync::atomic::AtomicUsize, usize, |v| v as u64);
     common!(AtomicU128 [] portable_atomic::AtomicU128, u128, |v| v as u64);
     common!(AtomicPtr [<T>] std::sync::atomic::AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u64);
+    from!(AtomicBool bool, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16);
+    from!(AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicU128 u128);
+
+    impl<T> Default for AtomicPtr<T> {
+        fn default() -> Self {
+            Self::new(std::ptr::null_mut())
+        }
+    }
+
+    arith!(AtomicI32, i32);
+    arith!(AtomicI64, i64);
+    arith!(AtomicIsize, isize);
+    arith!(AtomicU16, u16);
     arith!(AtomicU8, u8);
     arith!(AtomicU32, u32);
     arith!(AtomicU64, u64);
-- 
2.43.0


From 986e683b42f7d3cd0629805d886a75bc80a0550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 06/11] fix: get and get_ref follow the link to the right
 sibling also while it is marked

A lookup that found its key gone from a leaf, because an earlier split had moved
it to the right sibling, treated a link marked by a second split of the same leaf
as the end of the chain and reported the key absent.
---
 src/tree/generic.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 4167abe..98ec130 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -505,7 +505,7 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        use crate::link::unmark_ptr;
 
         // Start at tree root
         let mut layer_root: *const u8 = self.load_root_ptr_generic(guard);
@@ -623,7 +623,7 @@ where
 
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -647,7 +647,7 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        use crate::link::unmark_ptr;
 
         #[cfg(feature = "tracing")]
         let target_ikey_for_trace: u64 = key.ikey();
@@ -786,9 +786,11 @@ where
                     }
 
                     // Check if key belongs to a right sibling via B-link
+                    // (also when the link is marked because this leaf is splitting again:
+                    // an earlier split may have moved the key there)
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
@@ -816,7 +818,7 @@ where
                         leaf_ptr = ?std::ptr::from_ref(leaf),
                         perm_size = perm.size(),
                         next_ptr = ?next_ptr,
-                        is_marked = is_marked(next_raw),
+                        is_marked = crate::link::is_marked(next_raw),
                         "get: NOT_FOUND"
                     );
                     #[cfg(feature = "tracing")]
-- 
2.43.0


From 4571e86a9482c0cc908cfbd44eec0382c10728d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 07/11] fix: a split does not give up because others keep
 splitting its parent

---
 src/tree/split/propagation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index 4569329..ea2906c 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -315,6 +315,7 @@ impl Propagation {
                 );
                 drop(parent_lock); // RAII: auto-unlock
                 stale_parent_retries = 0; // Reset: parent changed, not stale
+                iterations -= 1; // Others split the parent: not a step up the tree
                 std::hint::spin_loop();
                 continue;
             }
-- 
2.43.0


From 3c7ab90cb5caf59756b9f06d4d59a8eb61287ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 08/11] verif: report orderings and fences, let a hook decide
 what loads return

---
 src/verif.rs | 116 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 90 insertions(+), 26 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index e2500b8..509a360 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -27,6 +27,8 @@ pub enum Op {
     Store,
     /// An atomic read-modify-write, including a failed compare-exchange.
     Rmw,
+    /// A fence; it has no address.
+    Fence,
 }
 
 /// One report.
@@ -42,11 +44,18 @@ pub struct Access {
     pub size: usize,
     /// After: the value loaded (load), stored (store), or found (rmw); truncated to 64 bits.
     pub value: u64,
+    /// The declared ordering; after a failed compare-exchange, the one for failure.
+    pub order: StdOrdering,
+    /// After: whether something was stored.
+    pub wrote: bool,
 }
 
 /// A function that receives reports.
 pub type Hook = fn(&Access);
 
+/// A function that is told what a load found and says what the load shall return.
+pub type Loaded = fn(&Access, u128) -> u128;
+
 static HOOK: StdAtomicUsize = StdAtomicUsize::new(0);
 
 /// Install (or remove) the function that receives reports.
@@ -54,8 +63,46 @@ pub fn set_hook(hook: Option<Hook>) {
     HOOK.store(hook.map_or(0, |f| f as usize), StdOrdering::SeqCst);
 }
 
+static LOADED: StdAtomicUsize = StdAtomicUsize::new(0);
+
+/// Install (or remove) the function that decides what loads return. It must answer with a
+/// value the location has held, and is for executions weaker than the hardware's own.
+pub fn set_loaded(f: Option<Loaded>) {
+    LOADED.store(f.map_or(0, |f| f as usize), StdOrdering::SeqCst);
+}
+
+#[inline]
+fn loaded(addr: usize, size: usize, order: StdOrdering, found: u128) -> u128 {
+    let raw: usize = LOADED.load(StdOrdering::Relaxed);
+    if raw == 0 {
+        return found;
+    }
+    // SAFETY: the only non-zero values stored in LOADED are `Loaded` function pointers.
+    let f: Loaded = unsafe { std::mem::transmute::<usize, Loaded>(raw) };
+    f(
+        &Access {
+            phase: Phase::After,
+            op: Op::Load,
+            addr,
+            size,
+            value: found as u64,
+            order,
+            wrote: false,
+        },
+        found,
+    )
+}
+
 #[inline]
-fn report(phase: Phase, op: Op, addr: usize, size: usize, value: u64) {
+fn report(
+    phase: Phase,
+    op: Op,
+    addr: usize,
+    size: usize,
+    value: u64,
+    order: StdOrdering,
+    wrote: bool,
+) {
     let raw: usize = HOOK.load(StdOrdering::Relaxed);
     if raw != 0 {
         // SAFETY: the only non-zero values stored in HOOK are `Hook` function pointers.
@@ -66,6 +113,8 @@ fn report(phase: Phase, op: Op, addr: usize, size: usize, value: u64) {
             addr,
             size,
             value,
+            order,
+            wrote,
         });
     }
 }
@@ -73,11 +122,18 @@ fn report(phase: Phase, op: Op, addr: usize, size: usize, value: u64) {
 /// Reporting versions of the standard atomic types.
 #[allow(missing_docs, missing_debug_implementations, clippy::all, clippy::pedantic)]
 pub mod atomic {
-    use super::{Op, Phase, report};
-    pub use std::sync::atomic::{Ordering, compiler_fence, fence};
+    use super::{Op, Phase, loaded, report};
+    pub use std::sync::atomic::{Ordering, compiler_fence};
+
+    #[inline]
+    pub fn fence(order: Ordering) {
+        report(Phase::Before, Op::Fence, 0, 0, 0, order, false);
+        std::sync::atomic::fence(order);
+        report(Phase::After, Op::Fence, 0, 0, 0, order, false);
+    }
 
     macro_rules! common {
-        ($name:ident [$($g:tt)*] $inner:ty, $val:ty, $conv:expr) => {
+        ($name:ident [$($g:tt)*] $inner:ty, $val:ty, $conv:expr, $back:expr) => {
             #[repr(transparent)]
             pub struct $name $($g)* {
                 inner: $inner,
@@ -103,26 +159,33 @@ pub mod atomic {
                 #[inline]
                 pub fn load(&self, order: Ordering) -> $val {
                     let size = std::mem::size_of::<Self>();
-                    report(Phase::Before, Op::Load, self.at(), size, 0);
+                    report(Phase::Before, Op::Load, self.at(), size, 0, order, false);
                     let v = self.inner.load(order);
-                    report(Phase::After, Op::Load, self.at(), size, $conv(v));
+                    let wide: fn($val) -> u128 = $conv;
+                    let back: fn(u128) -> $val = $back;
+                    let found = wide(v);
+                    let told = loaded(self.at(), size, order, found);
+                    let v = if told == found { v } else { back(told) };
+                    report(Phase::After, Op::Load, self.at(), size, told as u64, order, false);
                     v
                 }
 
                 #[inline]
                 pub fn store(&self, v: $val, order: Ordering) {
                     let size = std::mem::size_of::<Self>();
-                    report(Phase::Before, Op::Store, self.at(), size, $conv(v));
+                    let wide: fn($val) -> u128 = $conv;
+                    report(Phase::Before, Op::Store, self.at(), size, wide(v) as u64, order, false);
                     self.inner.store(v, order);
-                    report(Phase::After, Op::Store, self.at(), size, $conv(v));
+                    report(Phase::After, Op::Store, self.at(), size, wide(v) as u64, order, true);
                 }
 
                 #[inline]
                 pub fn swap(&self, v: $val, order: Ordering) -> $val {
                     let size = std::mem::size_of::<Self>();
-                    report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                    let wide: fn($val) -> u128 = $conv;
+                    report(Phase::Before, Op::Rmw, self.at(), size, 0, order, false);
                     let old = self.inner.swap(v, order);
-                    report(Phase::After, Op::Rmw, self.at(), size, $conv(old));
+                    report(Phase::After, Op::Rmw, self.at(), size, wide(old) as u64, order, true);
                     old
                 }
 
@@ -135,10 +198,11 @@ pub mod atomic {
                     failure: Ordering,
                 ) -> Result<$val, $val> {
                     let size = std::mem::size_of::<Self>();
-                    report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                    let wide: fn($val) -> u128 = $conv;
+                    report(Phase::Before, Op::Rmw, self.at(), size, 0, success, false);
                     let r = self.inner.compare_exchange(current, new, success, failure);
-                    let found = match r { Ok(v) | Err(v) => v };
-                    report(Phase::After, Op::Rmw, self.at(), size, $conv(found));
+                    let (found, order) = match r { Ok(v) => (v, success), Err(v) => (v, failure) };
+                    report(Phase::After, Op::Rmw, self.at(), size, wide(found) as u64, order, r.is_ok());
                     r
                 }
 
@@ -204,9 +268,9 @@ pub mod atomic {
             #[inline]
             pub fn $f(&self, v: $val, order: Ordering) -> $val {
                 let size = std::mem::size_of::<Self>();
-                report(Phase::Before, Op::Rmw, self.at(), size, 0);
+                report(Phase::Before, Op::Rmw, self.at(), size, 0, order, false);
                 let old = self.inner.$f(v, order);
-                report(Phase::After, Op::Rmw, self.at(), size, old as u64);
+                report(Phase::After, Op::Rmw, self.at(), size, old as u64, order, true);
                 old
             }
         };
@@ -227,17 +291,17 @@ pub mod atomic {
         )*};
     }
 
-    common!(AtomicBool [] std::sync::atomic::AtomicBool, bool, u64::from);
-    common!(AtomicI32 [] std::sync::atomic::AtomicI32, i32, |v| v as u64);
-    common!(AtomicI64 [] std::sync::atomic::AtomicI64, i64, |v| v as u64);
-    common!(AtomicIsize [] std::sync::atomic::AtomicIsize, isize, |v| v as u64);
-    common!(AtomicU16 [] std::sync::atomic::AtomicU16, u16, u64::from);
-    common!(AtomicU8 [] std::sync::atomic::AtomicU8, u8, u64::from);
-    common!(AtomicU32 [] std::sync::atomic::AtomicU32, u32, u64::from);
-    common!(AtomicU64 [] std::sync::atomic::AtomicU64, u64, u64::from);
-    common!(AtomicUsize [] std::sync::atomic::AtomicUsize, usize, |v| v as u64);
-    common!(AtomicU128 [] portable_atomic::AtomicU128, u128, |v| v as u64);
-    common!(AtomicPtr [<T>] std::sync::atomic::AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u64);
+    common!(AtomicBool [] std::sync::atomic::AtomicBool, bool, u128::from, |w| w != 0);
+    common!(AtomicI32 [] std::sync::atomic::AtomicI32, i32, |v| v as u64 as u128, |w| w as i32);
+    common!(AtomicI64 [] std::sync::atomic::AtomicI64, i64, |v| v as u64 as u128, |w| w as i64);
+    common!(AtomicIsize [] std::sync::atomic::AtomicIsize, isize, |v| v as u64 as u128, |w| w as isize);
+    common!(AtomicU16 [] std::sync::atomic::AtomicU16, u16, |v| v as u64 as u128, |w| w as u16);
+    common!(AtomicU8 [] std::sync::atomic::AtomicU8, u8, |v| v as u64 as u128, |w| w as u8);
+    common!(AtomicU32 [] std::sync::atomic::AtomicU32, u32, |v| v as u64 as u128, |w| w as u32);
+    common!(AtomicU64 [] std::sync::atomic::AtomicU64, u64, |v| v as u64 as u128, |w| w as u64);
+    common!(AtomicUsize [] std::sync::atomic::AtomicUsize, usize, |v| v as u64 as u128, |w| w as usize);
+    common!(AtomicU128 [] portable_atomic::AtomicU128, u128, |v| v, |w| w);
+    common!(AtomicPtr [<T>] std::sync::atomic::AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u128, |w| std::ptr::with_exposed_provenance_mut(w as usize));
     from!(AtomicBool bool, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16);
     from!(AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicU128 u128);
 
-- 
2.43.0


From 3aa9f2fbc622edf0dda35c26fb944277e5d9fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 09/11] fix: the mark set by a lock precedes relaxed stores
 made under it

Writers store keys and pointers with relaxed ordering after the CAS(Acquire)
that sets the lock and insert marks. Nothing kept those stores behind the mark,
so a reader could read them and still validate against the old version.
---
 src/nodeversion.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index 8965b53..e604cec 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -639,6 +639,10 @@ impl NodeVersion {
                     .compare_exchange_weak(value, locked, Ordering::Acquire, Ordering::Relaxed)
                     .is_ok()
                 {
+                    // The mark comes before every store made under the lock, relaxed ones
+                    // included: whoever reads such a store finds the version changed.
+                    fence(Ordering::Release);
+
                     #[expect(clippy::cast_possible_truncation)]
                     #[cfg(feature = "tracing")]
                     {
@@ -704,12 +708,17 @@ impl NodeVersion {
             .value
             .compare_exchange(value, locked, Ordering::Acquire, Ordering::Relaxed)
         {
-            Ok(_) => Some(LockGuard {
-                version: std::ptr::from_ref(self),
-                locked_value: locked,
-                _lifetime: PhantomData,
-                _marker: PhantomData,
-            }),
+            Ok(_) => {
+                // As in `lock()`: the mark comes before every store made under the lock.
+                fence(Ordering::Release);
+
+                Some(LockGuard {
+                    version: std::ptr::from_ref(self),
+                    locked_value: locked,
+                    _lifetime: PhantomData,
+                    _marker: PhantomData,
+                })
+            }
 
             Err(_) => None,
         }
-- 
2.43.0


From fe6a6c4fda6fa4af026de7f570f43caace48deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 10/11] verif: report the fence in link_sibling

---
 src/leaf24.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 42c3561..cfaf41c 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1479,6 +1479,8 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
 
         // Step 4: Release fence ensures new_sibling is fully visible before publishing
         std::sync::atomic::fence(std::sync::atomic::Ordering::Release);
+        #[cfg(masstree_verif)]
+        fence(Ordering::Release);
 
         // Step 5: Store new_sibling (unmarked) - atomically publishes the link
         // This also "unlocks" the next pointer by clearing the mark bit
-- 
2.43.0


From 1634b8d0a543ee46ff280ecee26b737e73dfedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 11/11] fix: count_le_u64 compares keys as unsigned also with
 AVX2

The vector comparison is signed, so keys from 2^63 on counted as smaller than
all others.
---
 src/ksearch/simd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index ed63f5b..619d606 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -256,13 +256,17 @@ mod avx2_impl {
         }
 
         unsafe {
-            let target_vec = _mm256_set1_epi64x(target as i64);
+            // The comparison is signed: with the top bit flipped on both sides it
+            // orders unsigned keys.
+            let sign = _mm256_set1_epi64x(i64::MIN);
+            let target_vec = _mm256_xor_si256(_mm256_set1_epi64x(target as i64), sign);
             let mut count = 0;
             let mut i = 0;
 
             // Process 4 keys at a time
             while i + 4 <= size {
                 let keys_vec = _mm256_loadu_si256(keys.as_ptr().add(i).cast());
+                let keys_vec = _mm256_xor_si256(keys_vec, sign);
 
                 // AVX2 has _mm256_cmpgt_epi64: gives 1s where key > target
                 // We want key <= target, which is !(key > target)
-- 
2.43.0

