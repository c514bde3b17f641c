From 02e3a6a319af1e1e0687267addc5fab1b14b3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 01/16] fix: reject stale successor in
 ChainArena::are_neighbors

The generation of `p_next` was ignored, so a stale pointer was accepted as a
neighbor and `insert` could store it as an interlink.
---
 triple_arena/src/chain/chain_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..5d74e8b 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -471,7 +471,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
-- 
2.43.0


From 53e8202e702e5c1fedd28f5ee8775a81b28647fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 02/16] fix: reject stale successor in
 ChainNoGenArena::are_neighbors

The interlinks carry no generation, so the validity of `p_next` has to be
checked separately.
---
 triple_arena/src/chain/chain_no_gen_arena.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..86babd0 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -394,8 +394,8 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p == p_next.inx() {
-                    // `p1` must implicitly exist if the invariants hold
+                // the interlink has no generation, so `p_next` can still be stale
+                if (p == p_next.inx()) && self.a.contains(p_next) {
                     are_neighbors = true;
                 }
             }
-- 
2.43.0


From 7d343eece8e9ef2e82f56915ae841e610b4dc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 03/16] fix: let Arena::insert_with fill the arena up to the
 index maximum

Unlike `insert`, the growth amount was not clamped, so doubling past the
maximum index made `reserve` panic with unused indexes remaining.
---
 triple_arena/src/arena/base_arena.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..1a074bf 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,8 +477,19 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
-            self.freelist_root.unwrap()
+            match self.freelist_root {
+                Some(inx) => inx,
+                None => panic!(
+                    "called `insert_with` on an `Arena<P, T>` with maximum length `P::Inx::max()`"
+                ),
+            }
         };
         let ptr = P::_from_raw(inx, self.generation());
         self.unwrap_replace_free(inx, self.generation(), create(ptr));
-- 
2.43.0


From 64b255ad9728451a77ae1139f6dd0fe64a1c67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 04/16] fix: do not compute an index past the maximum in
 Arena::clear

Clearing an arena whose capacity equals the maximum of the index type
converted `capacity + 1` to the index type, which panics.
---
 triple_arena/src/arena/base_arena.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 1a074bf..11d6eb6 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -764,10 +764,12 @@ impl<P: Ptr, T> Arena<P, T> {
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
         // drop all `T` and recreate the freelist
+        let len = self.m.len();
         for i in self.m.nziter() {
             // Safety: `isize::MAX` guarantee
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
+                // the last one is redone below, but `len + 1` may not fit in `P::Inx`
+                let next = ptrinx_unchecked(i.get().wrapping_add(1).min(len));
                 *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
             }
         }
-- 
2.43.0


From 340f618cca71c1f30b746fd6ddd81785d3dd52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 05/16] fix: keep key to value relations in
 SurjectArena::clone_from_with

The index of the key was used as the index of its value.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..5bca561 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -754,7 +754,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From bdf0708f6303a056c1ce3c9ffac7c8b8f5c526d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 06/16] fix: compare against the keys of the other arena in
 SurjectArena::eq

---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5bca561..883f1a3 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -850,7 +850,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From fb8c993eab8555a0c8167abba74d8c566594684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 07/16] fix: copy the root and end pointers in
 OrdArena::clone_from_with

---
 triple_arena/src/ord/ord_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..2564553 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -491,6 +491,9 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
         source: &OrdArena<P, K, V1>,
         mut map: F,
     ) {
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
         self.a.clone_from_with(&source.a, |p, link| Node {
             k: link.t.k.clone(),
             v: map(p, &link.t.v),
-- 
2.43.0


From 3130c7fe981e331474a522128abcba3bbb8b099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 08/16] fix: do not spend a generation per element in consuming
 iteration

Consuming an arena by value overflowed small generation types.
---
 triple_arena/src/arena/arena_iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 6a550fd..9623d85 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -166,7 +166,7 @@ impl<P: Ptr, T> Iterator for CapacityDrain<P, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.adv
             .advance(&self.arena)
-            .map(|p| (p, self.arena.remove(p).unwrap()))
+            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))
     }
 }
 
-- 
2.43.0


From 5d2939c91d884cbf5fcafc827d3c0a0f77bdeb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 09/16] fix: do not spend a generation per link when
 compressing chains

The generation is already advanced once at the start and the emptied arena is
discarded, but each removal advanced it again, overflowing small generation
types.
---
 triple_arena/src/chain/chain_arena.rs        |  6 +++---
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index 5d74e8b..d0f51bf 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -768,7 +768,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next().map(|p| p.inx());
@@ -792,7 +792,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next().map(|p| p.inx());
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -819,7 +819,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev().map(|p| p.inx());
                     let t = link.t;
                     let q = new.insert(Link::new((None, Some(q_next)), t));
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 86babd0..aa90bf1 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -724,7 +724,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next();
@@ -749,7 +749,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next();
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -777,7 +777,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev();
                     let t = link.t;
                     let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));
@@ -805,7 +805,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut new = Arena::<P, LinkNoGen<P, T>>::with_capacity(self.len());
         new.set_gen(generation);
         let p_init = first_link;
-        let link = self.a.remove(p_init).unwrap();
+        let link = self.a.remove_internal(p_init, false).unwrap();
         let mut p_next = link.next();
         let mut q_prev = new.insert(LinkNoGen::new((None, None), link.t));
         map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);
@@ -813,7 +813,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             p_next = if let Some(p_next) = p_next {
                 let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                 let p = Ptr::_from_raw(p_next, p_gen);
-                let link = self.a.remove(p).unwrap();
+                let link = self.a.remove_internal(p, false).unwrap();
                 let tmp_next = link.next();
                 let t = link.t;
                 let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));
-- 
2.43.0


From 1c368749d018322dcba315d22679815d6ea7c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 10/16] fix: do not spend a generation per entry when consuming
 an OrdArena

Consuming the arena by value advanced the generation for every entry, which
overflowed small generation types.
---
 triple_arena/src/chain/chain_no_gen_arena.rs | 8 +++++++-
 triple_arena/src/ord/ord_iterators.rs        | 2 +-
 triple_arena/src/ord/remove.rs               | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index aa90bf1..7a94ac4 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -479,7 +479,13 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     /// chain remains continuous. Returns `None` if `p` is not valid.
     #[must_use]
     pub fn remove(&mut self, p: P) -> Option<LinkNoGen<P, T>> {
-        let link = self.a.remove(p)?;
+        self.remove_internal(p, true)
+    }
+
+    /// `remove` but with optional generation counter increment
+    #[must_use]
+    pub(crate) fn remove_internal(&mut self, p: P, inc_gen: bool) -> Option<LinkNoGen<P, T>> {
+        let link = self.a.remove_internal(p, inc_gen)?;
         match link.prev_next() {
             (None, None) => (),
             (None, Some(p1)) => {
diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..69b2eda 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -161,7 +161,7 @@ impl<P: Ptr, K, V> Iterator for CapacityDrain<P, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         // TODO we can definitely do this more efficiently
         self.adv.advance(&self.arena).map(|p| {
-            let res = self.arena.remove(p).unwrap();
+            let res = self.arena.remove_internal(p, false).unwrap();
             (p, res.0, res.1)
         })
     }
diff --git a/triple_arena/src/ord/remove.rs b/triple_arena/src/ord/remove.rs
index 81d32d6..51d5e49 100644
--- a/triple_arena/src/ord/remove.rs
+++ b/triple_arena/src/ord/remove.rs
@@ -4,7 +4,13 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// Removes the key-value pair at `p`. Returns `None` if `p` is invalid.
     #[must_use]
     pub fn remove(&mut self, p: P) -> Option<(K, V)> {
-        let link = self.a.remove(p)?;
+        self.remove_internal(p, true)
+    }
+
+    /// `remove` but with optional generation counter increment
+    #[must_use]
+    pub(crate) fn remove_internal(&mut self, p: P, inc_gen: bool) -> Option<(K, V)> {
+        let link = self.a.remove_internal(p, inc_gen)?;
         // when removing a nonleaf node of the tree, its place in the tree is
         // replaced by a similar node, and if that node is nonleaf then it is
         // replaced again. We reach a leaf node in 2 replacements in the worst case:
-- 
2.43.0


From 615dd991408c726744f6d789e58d946801de0c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 11/16] fix: return nothing when walking a surject from a stale
 pointer

`iter_surject` panicked and `advancer_surject` walked whatever surject now
occupies the index.
---
 triple_arena/src/surject/surject_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..a16a2d7 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: if self.contains(p_init) {
+                Some(p_init.inx())
+            } else {
+                None
+            },
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From 6664e6e70cebc240ce4f6ff1aa8dc2cb5f05fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 12/16] fix: return nothing when advancing an OrdArena from a
 stale pointer

The generation of `p_start` was ignored, contrary to the documentation.
---
 triple_arena/src/ord/ord_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 69b2eda..763c771 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,11 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: if self.contains(p_start) {
+                Some(p_start.inx())
+            } else {
+                None
+            },
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From b50f2e5668051187d50c9382e4116c6fba335ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 13/16] fix: deserialize an empty OrdArena

Rebuilding the tree assumes at least one entry, so the serialized form of an
empty arena panicked.
---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From 6a687e547825394f3a6a0e7ce658fcabc9de9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 14/16] fix: return an error when deserializing too many
 OrdArena entries

More entries than the index type can represent panicked.
---
 triple_arena/src/traits/serde.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 9608b35..5562849 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -444,6 +444,12 @@ where
         let mut i = 1usize;
         let mut last = None;
         while let Some((k, v)) = access.next_entry::<K, V>()? {
+            if i > <P::Inx as PtrInx>::max().get() {
+                return Err(Error::custom(
+                    "when deserializing a `triple_arena` arena, encountered more entries than \
+                     `P::Inx::max()`",
+                ))
+            }
             let p = PtrInx::new(NonZeroUsize::new(i).unwrap());
             if let Some(last) = last {
                 a.get_inx_mut_unwrap(last).prev_next.1 = Some(p);
-- 
2.43.0


From e73e16d96758c095f9394de49c1000452737aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:29 +0000
Subject: [PATCH 15/16] fix: reject key chains that mix values when checking
 surjects

The check followed each key chain by count only, so deserialization accepted
chains that cross between the key sets of different values.
---
 triple_arena/src/surject/surject_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 883f1a3..d8b5828 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -202,6 +202,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != this.keys.get(p).unwrap().p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
-- 
2.43.0


From a4adb3a0795f6d5662dc257323f8ea9dc1be0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:30 +0000
Subject: [PATCH 16/16] fix: reserving an overflowing capacity did nothing in
 release builds

`NonZeroInxVec::reserve` wrapped on overflow and returned without
reserving when overflow checks are off. `Arena::reserve` then built a
freelist with an out of range node. It now panics as documented.
---
 triple_arena/src/arena/nonzero_inx_vec.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/arena/nonzero_inx_vec.rs b/triple_arena/src/arena/nonzero_inx_vec.rs
index 94736c7..1e4cf68 100644
--- a/triple_arena/src/arena/nonzero_inx_vec.rs
+++ b/triple_arena/src/arena/nonzero_inx_vec.rs
@@ -181,8 +181,14 @@ impl<T> NonZeroInxVec<T> {
             // capacity, where the user probably knows the exact needed amount
             max(minimum, additional)
         } else {
-            let minimum = self.len().wrapping_add(additional);
-            let bumped = minimum.next_power_of_two();
+            // an overflow here is also a capacity overflow
+            let bumped = self
+                .len()
+                .checked_add(additional)
+                .and_then(usize::checked_next_power_of_two)
+                .expect(
+                    "`NonZeroInxVec::reserve` layout capacity overflow beyond `isize::MAX` bytes",
+                );
             if bumped <= self.capacity() {
                 // already have the needed capacity
                 return
-- 
2.43.0

