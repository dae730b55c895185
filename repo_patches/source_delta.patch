From 7e2b5d7996d2bca72793d452a70055bf84954506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:02 +0000
Subject: [PATCH 1/3] fix: scalar collections holding both extremes of a 64-bit
 type overflow while being built

max - min + 1 does not fit in usize when the keys span the whole range of the type: building panicked
with overflow checks on, and analysed a range of zero with them off.
---
 frozen-collections-core/src/analyzers/scalar_key_analyzer.rs | 2 +-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..52bde42 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,7 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    let needed_count = (max - min).saturating_add(1);
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 0cf157b71d1d2b02d03a59a3cfe541d734702708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 2/3] fix: the lower size hint of a union exceeds what is left

The elements of the smaller set may all be in the larger one, so their number is no lower bound
once iteration of the larger set has begun.
---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..70e83af 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // The larger set is always yielded in full, the other one only where it differs.
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From 0b9299614165be004d93f6c6b435f8ef4ffa2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 3/3] fix: string collections cannot be deserialised from
 streamed or escaped input

Keys were read as borrowed strings, which a deserialiser can only provide for unescaped text held in memory.
---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0

