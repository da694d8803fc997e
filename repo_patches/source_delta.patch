From c27bdf9047197d26585c64a215ad82bd1d496a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 01/13] fix: count of a partially consumed set iterator

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From 15fb0a93f07f9e40f5beeffd63b991a9cf85ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/13] fix: RightSliceMap hashed a reversed byte range

---
 .../src/specialized_maps/right_slice_map.rs               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..7091cba 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,7 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                k.hash(&bh, k.len() - range.end..k.len() - range.start)
             }),
             bh,
             range,
@@ -76,10 +76,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From dedbb66f29c6e7a054219b464f21ef0fdae4ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/13] fix: right-justified subslice analysis ran past the end
 of keys

---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From 6bfeb5565a9e5c48ac3fb4810835df8ac419dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 04/13] fix: slice maps filed keys shorter than the range
 without checking their length

---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 .../src/specialized_maps/right_slice_map.rs                 | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 7091cba..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
-- 
2.43.0


From 79505d7c6654a56660b8e0b2668b4dad361a04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 05/13] fix: SliceHash::hash is safe and must check the range
 it is given

---
 frozen-collections-core/src/traits/slice_hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/traits/slice_hash.rs b/frozen-collections-core/src/traits/slice_hash.rs
index 9bbb91c..29f4872 100644
--- a/frozen-collections-core/src/traits/slice_hash.rs
+++ b/frozen-collections-core/src/traits/slice_hash.rs
@@ -12,7 +12,7 @@ impl SliceHash for String {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.as_bytes().get_unchecked(range) };
+        let b = &self.as_bytes()[range];
         h.write(b);
         h.finish()
     }
@@ -22,7 +22,7 @@ impl SliceHash for [u8] {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.get_unchecked(range) };
+        let b = &self[range];
         h.write(b);
         h.finish()
     }
-- 
2.43.0


From 0a43fc97c18003124c1f4f1f0dc841857c202f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 06/13] fix: duplicate keys could pass for a continuous range,
 and wide ones overflowed

---
 .../src/analyzers/int_key_analyzer.rs         | 31 ++++++++++---------
 .../src/specialized_maps/integer_range_map.rs |  8 +++++
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..ba39d89 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -16,21 +16,24 @@ where
     K: PrimInt,
     I: Iterator<Item = K>,
 {
-    let mut min = K::max_value();
-    let mut max = K::min_value();
-    let mut count = K::zero();
-    for key in keys {
-        min = min.min(key);
-        max = max.max(key);
-        count = count + K::one();
-    }
+    let mut keys: Vec<K> = keys.collect();
+    keys.sort_unstable();
+
+    match (keys.first(), keys.last()) {
+        // the distance between the smallest and largest key must be representable
+        (Some(min), Some(max)) if max.checked_sub(min).is_some() => {
+            let contiguous = keys
+                .windows(2)
+                .all(|w| w[0].checked_add(&K::one()) == Some(w[1]));
+
+            if contiguous {
+                IntKeyAnalysisResult::Range
+            } else {
+                IntKeyAnalysisResult::Normal
+            }
+        }
 
-    if count == K::zero() {
-        IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
-        IntKeyAnalysisResult::Range
-    } else {
-        IntKeyAnalysisResult::Normal
+        _ => IntKeyAnalysisResult::Normal,
     }
 }
 
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..7c3df43 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -45,6 +45,14 @@ where
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
+        // a duplicate key could otherwise make up for a gap
+        assert!(
+            payload
+                .windows(2)
+                .all(|w| w[0].0.checked_add(&K::one()) == Some(w[1].0)),
+            "IntegerRangeMap requires that the map keys be in a continuous range"
+        );
+
         Self {
             min,
             max,
-- 
2.43.0


From 8e14d22e07a07075dd22cf1d9ccea46e0ce141b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 07/13] fix: looking up zero in an empty IntegerRangeMap
 panicked

---
 .../src/specialized_maps/integer_range_map.rs                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 7c3df43..b7f6c35 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -28,7 +28,7 @@ where
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
             return Self {
-                min: K::zero(),
+                min: K::one(), // no key lies between one and zero
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From ebb8c87d04e2f9c761b42e18fe35a835b2636bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 08/13] fix: get_many_mut made mutable references from shared
 ones and could alias them

---
 .../src/facades/frozen_map.rs                 | 52 ++++++++++++-------
 .../src/specialized_maps/common_map.rs        | 24 ++++-----
 .../src/specialized_maps/integer_map.rs       | 24 ++++-----
 .../src/specialized_maps/integer_range_map.rs | 19 ++++---
 .../src/specialized_maps/left_slice_map.rs    | 24 ++++-----
 .../src/specialized_maps/length_map.rs        | 24 ++++-----
 .../src/specialized_maps/right_slice_map.rs   | 24 ++++-----
 .../src/specialized_maps/scanning_map.rs      | 22 ++++----
 8 files changed, 113 insertions(+), 100 deletions(-)

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..9f10f2f 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -3,7 +3,6 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::mem::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Index;
 use std::ops::IndexMut;
 
@@ -489,26 +488,43 @@ where
     /// ]);
     /// assert_eq!(got, None);
     /// ```
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<const N: usize>(&mut self, keys: [&K; N]) -> Option<[&mut V; N]> {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
+        match &mut self.map_impl {
+            MapTypes::Scanning(m) => m.get_many_mut(keys),
+            MapTypes::CommonSmall(m) => m.get_many_mut(keys),
+            MapTypes::CommonLarge(m) => m.get_many_mut(keys),
+            MapTypes::U32Small(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
             }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            MapTypes::U32Large(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::U32Range(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::LeftStringSliceSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::LeftStringSliceLarge(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::RightStringSliceSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::RightStringSliceLarge(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::StringLengthSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
             }
-
-            Some(result.assume_init())
         }
     }
 
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..1367cc4 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -117,7 +115,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -132,16 +129,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let position = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + position;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..9e70bd8 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -82,7 +80,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -97,16 +94,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let position = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + position;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index b7f6c35..ca8a1d9 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
 use num_traits::PrimInt;
@@ -92,7 +90,6 @@ impl<K, V> IntegerRangeMap<K, V> {
         }
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -107,16 +104,18 @@ impl<K, V> IntegerRangeMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            if *key < *self.min.borrow() || *key > *self.max.borrow() {
+                return None;
             }
 
-            Some(result.assume_init())
+            *index = (*key - *self.min.borrow()).to_usize()?;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index 98e8e61..1f0031a 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -143,7 +141,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -158,16 +155,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let position = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + position;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..f10a365 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -102,7 +100,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -117,16 +114,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let position = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + position;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index cf2ccf0..8f38dab 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -146,7 +144,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -161,16 +158,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let position = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + position;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..42a659a 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
 use crate::specialized_maps::{Iter, Keys, Values};
@@ -74,7 +72,6 @@ impl<K, V> ScanningMap<K, V> {
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -89,16 +86,17 @@ impl<K, V> ScanningMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            *index = self
+                .entries
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
         }
+
+        // never hands out an entry twice, even if an inconsistent `Eq` let duplicate keys through
+        let entries = self.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
-- 
2.43.0


From 1a0d09dc710ff7d182f78e1d6c0cc8be4ec80349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 09/13] fix: frozen_map! with contiguous integer keys never
 compiled

---
 frozen-collections-core/src/macros/frozen_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..2166f8d 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -159,6 +159,13 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         }
     );
 
+    // IntegerRangeMap is positional, it has no slots to size
+    let type_args = if int_analysis == IntKeyAnalysisResult::Range {
+        quote!(#ty, _)
+    } else {
+        quote!(#ty, _, #payload_size)
+    };
+
     match slice_analysis {
         SliceKeyAnalysisResult::LeftHandSubslice {
             subslice_index,
@@ -188,7 +195,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
 
         _ => quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#type_args> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0


From 36113bc8b540cf65ec1820a0ee1306c37f04259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/13] fix: frozen_map! with few pairs ignored the declared
 key type

---
 frozen-collections-core/src/macros/frozen_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2166f8d..53d73b4 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -72,8 +72,9 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     let mut kv_pairs = input.entries;
 
     if kv_pairs.len() < 3 {
+        let ty = input.ty;
         return quote!({
-            let m = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::ScanningMap<#ty, _> = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0


From ffbe0960b2d6a41226527b9bbfb6c77cb07236d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/13] fix: size_hint of a partially consumed Union

---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..78e458e 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        let (s1_lower, s1_upper) = self.s1_iter.size_hint();
+        let (s2_lower, s2_upper) = self.s2_iter.size_hint();
+
+        // all that is left of the larger set is yielded, the smaller one may add nothing
+        let lower = if self.s1.len() > self.s2.len() {
+            s1_lower
+        } else {
+            s2_lower
+        };
+
+        let upper = match (s1_upper, s2_upper) {
+            (Some(s1_upper), Some(s2_upper)) => s1_upper.checked_add(s2_upper),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From 8be6a652be3cb8c9b1ed04ced49d31dbacc2e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 12/13] fix: types named like u32 or String were reinterpreted
 as these

---
 .../src/facades/frozen_map.rs                 |  6 ++--
 .../src/facades/frozen_set.rs                 |  6 ++--
 frozen-collections-core/src/facades/mod.rs    |  1 +
 .../src/facades/type_identity.rs              | 33 +++++++++++++++++++
 4 files changed, 40 insertions(+), 6 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/type_identity.rs

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 9f10f2f..4701cb9 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -10,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::type_identity::is_same_type;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -212,9 +212,9 @@ where
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
-            } else if type_name::<K>() == type_name::<u32>() {
+            } else if is_same_type::<K, u32>() {
                 Self::new_u32_map(payload)
-            } else if type_name::<K>() == type_name::<String>() {
+            } else if is_same_type::<K, String>() {
                 Self::new_string_map(payload, bh)
             } else {
                 Self::new_common_map(payload, bh)
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index 22cefd9..d2d7bb9 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::collections::HashSet;
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -9,6 +8,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::type_identity::is_same_type;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -198,9 +198,9 @@ where
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
-            } else if type_name::<T>() == type_name::<u32>() {
+            } else if is_same_type::<T, u32>() {
                 Self::new_u32_set(payload)
-            } else if type_name::<T>() == type_name::<String>() {
+            } else if is_same_type::<T, String>() {
                 Self::new_string_set(payload, bh)
             } else {
                 Self::new_common_set(payload, bh)
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index 4dabde2..88b729b 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -3,6 +3,7 @@ pub use frozen_set::*;
 
 mod frozen_map;
 mod frozen_set;
+mod type_identity;
 
 #[cfg(test)]
 mod frozen_map_tests;
diff --git a/frozen-collections-core/src/facades/type_identity.rs b/frozen-collections-core/src/facades/type_identity.rs
new file mode 100644
index 0000000..0a54a1b
--- /dev/null
+++ b/frozen-collections-core/src/facades/type_identity.rs
@@ -0,0 +1,33 @@
+use std::any::TypeId;
+use std::marker::PhantomData;
+use std::mem::transmute;
+
+/// Whether `A` and `B` are the same type.
+///
+/// Unlike type names, which different types can share, type ids are unique. They are only available
+/// for `'static` types, so the lifetimes in `A` are erased. As `B` has no lifetimes, `A` cannot be
+/// mistaken for it.
+pub fn is_same_type<A, B>() -> bool
+where
+    B: 'static,
+{
+    trait Identified {
+        fn id(&self) -> TypeId
+        where
+            Self: 'static;
+    }
+
+    impl<T> Identified for PhantomData<T> {
+        fn id(&self) -> TypeId
+        where
+            Self: 'static,
+        {
+            TypeId::of::<T>()
+        }
+    }
+
+    let a = PhantomData::<A>;
+    let a: &dyn Identified = &a;
+    let a: &(dyn Identified + 'static) = unsafe { transmute(a) };
+    a.id() == TypeId::of::<B>()
+}
-- 
2.43.0


From 4f2131041bfc88fecb22793e33bedf61018d6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:12 +0000
Subject: [PATCH 13/13] fix: positions of a caller-supplied type led lookups
 out of bounds

Implementations of PrimInt and Unsigned are safe code and may report anything, yet what they report
selected the entries read without checks.
---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 3fc85f9..8e812d5 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -104,7 +104,11 @@ where
         let hash_slot_index = (hash_code % self.num_slots).as_usize();
         let hash_slot = unsafe { self.slots.get_unchecked(hash_slot_index) };
 
-        hash_slot.min_index.to_usize().unwrap()..hash_slot.max_index.to_usize().unwrap()
+        // S can be any implementation of safe traits, so nothing it reports can be relied upon for memory safety
+        let max_index = hash_slot.max_index.to_usize().unwrap().min(self.entries.len());
+        let min_index = hash_slot.min_index.to_usize().unwrap().min(max_index);
+
+        min_index..max_index
     }
 }
 
-- 
2.43.0

