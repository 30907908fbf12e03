From 55dbb01f1e5c19a0135a5086d4a332abbb84837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 01/53] starky: re-export private modules for model-checking
 harnesses under cfg(mc_hooks)

---
 starky/src/lib.rs      |  3 +++
 starky/src/mc_hooks.rs | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)
 create mode 100644 starky/src/mc_hooks.rs

diff --git a/starky/src/lib.rs b/starky/src/lib.rs
index c52bbea..c7b4674 100644
--- a/starky/src/lib.rs
+++ b/starky/src/lib.rs
@@ -73,6 +73,9 @@ pub mod zkin_join;
 
 pub mod dev;
 
+#[cfg(mc_hooks)]
+pub mod mc_hooks;
+
 #[macro_use]
 extern crate serde_json;
 
diff --git a/starky/src/mc_hooks.rs b/starky/src/mc_hooks.rs
new file mode 100644
index 0000000..f7fa988
--- /dev/null
+++ b/starky/src/mc_hooks.rs
@@ -0,0 +1,17 @@
+//! Re-exports of crate-private modules for the model-checking harnesses. Only compiled with
+//! `--cfg mc_hooks`; nothing here changes what the crate does.
+pub mod fri {
+    pub use crate::fri::*;
+}
+pub mod field_bls12381 {
+    pub use crate::field_bls12381::*;
+}
+pub mod poseidon_bn128 {
+    pub use crate::poseidon_bn128::*;
+}
+pub mod poseidon_bls12381 {
+    pub use crate::poseidon_bls12381::*;
+}
+pub mod digest {
+    pub use crate::digest::*;
+}
-- 
2.43.0


From 3899e06ec1b58cbdda2304d76aeb9b318416763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 02/53] fix: F5G ordering and negation of extension elements

gt ignored the leading coordinate unless all others were equal, lt called itself
without end whenever gt was true, and neg panicked for dimension 5.
---
 starky/src/f5g.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
@@ -488,9 +484,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From 34f039162fcd327c628b4a949ea7c38fd83921f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 03/53] fix: FrRepr::num_bits counted 64 bits too many for its
 single limb

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From 4b1066d2f2ea9110b3b63f304166bb53d0ac1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 04/53] fix: F3G/F5G conversions from negative i32 and from
 non-canonical bytes panicked

---
 starky/src/f3g.rs | 7 ++++---
 starky/src/f5g.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/starky/src/f3g.rs b/starky/src/f3g.rs
index 2f896ec..f3ba4e7 100644
--- a/starky/src/f3g.rs
+++ b/starky/src/f3g.rs
@@ -502,7 +502,8 @@ impl From<u64> for F3G {
 impl From<i32> for F3G {
     #[inline]
     fn from(value: i32) -> Self {
-        Self::from(Fr::from(value as u64))
+        let abs = Fr::from(value.unsigned_abs() as u64);
+        Self::from(if value < 0 { -abs } else { abs })
     }
 }
 
@@ -523,7 +524,7 @@ impl From<usize> for F3G {
 impl From<&i32> for F3G {
     #[inline]
     fn from(value: &i32) -> Self {
-        Self::from(Fr::from(*value as u64))
+        Self::from(*value)
     }
 }
 
@@ -558,7 +559,7 @@ impl From<[u8; 8]> for F3G {
     #[inline]
     fn from(bytes: [u8; 8]) -> Self {
         let value = u64::from_le_bytes(bytes);
-        Self::from(value)
+        Self::from(value % fields::field_gl::MODULUS.0[0])
     }
 }
 
diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index c631731..301cac9 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -513,7 +513,8 @@ impl From<u64> for F5G {
 impl From<i32> for F5G {
     #[inline]
     fn from(value: i32) -> Self {
-        Self::from(Fr::from(value as u64))
+        let abs = Fr::from(value.unsigned_abs() as u64);
+        Self::from(if value < 0 { -abs } else { abs })
     }
 }
 
@@ -534,7 +535,7 @@ impl From<usize> for F5G {
 impl From<&i32> for F5G {
     #[inline]
     fn from(value: &i32) -> Self {
-        Self::from(Fr::from(*value as u64))
+        Self::from(*value)
     }
 }
 
@@ -569,7 +570,7 @@ impl From<[u8; 8]> for F5G {
     #[inline]
     fn from(bytes: [u8; 8]) -> Self {
         let value = u64::from_le_bytes(bytes);
-        Self::from(value)
+        Self::from(value % fields::field_gl::MODULUS.0[0])
     }
 }
 
-- 
2.43.0


From 15615651577e4d76c81c70f8be9c93afa900f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/53] fix: get_max_workers was 0 on a single CPU, dividing by
 zero in fft_p, merkelize and the prover

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..9869fec 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    std::cmp::max(num_cpus::get() - 1, 1)
 }
-- 
2.43.0


From 71bb8a57b34bd39bceeaeb16b61cdc4438d0dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 06/53] fix: log2_any only looked at the low 32 bits

---
 starky/src/helper.rs | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/starky/src/helper.rs b/starky/src/helper.rs
index fd054fd..efcf441 100644
--- a/starky/src/helper.rs
+++ b/starky/src/helper.rs
@@ -24,28 +24,7 @@ pub fn get_ks(n: usize) -> Vec<FGL> {
 
 #[inline(always)]
 pub fn log2_any(val: usize) -> usize {
-    let mut val = val;
-    (if (val & 0xFFFF0000) != 0 {
-        val &= 0xFFFF0000;
-        16
-    } else {
-        0
-    }) | (if (val & 0xFF00FF00) != 0 {
-        val &= 0xFF00FF00;
-        8
-    } else {
-        0
-    }) | (if (val & 0xF0F0F0F0) != 0 {
-        val &= 0xF0F0F0F0;
-        4
-    } else {
-        0
-    }) | (if (val & 0xCCCCCCCC) != 0 {
-        val &= 0xCCCCCCCC;
-        2
-    } else {
-        0
-    }) | (if (val & 0xAAAAAAAA) != 0 { 1 } else { 0 })
+    (usize::BITS - 1 - (val | 1).leading_zeros()) as usize
 }
 
 #[inline(always)]
-- 
2.43.0


From 5aaf7360a473ed94e9b82c563ce998c66fae306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 07/53] fix: BN128/BLS12-381 Merkle paths were not bound to the
 opened leaf

---
 starky/src/merklehash_bls12381.rs | 4 +++-
 starky/src/merklehash_bn128.rs    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..f08f4cb 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,14 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // The path carries the node itself along with its siblings: bind it to the computed one.
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..5f429da 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,14 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // The path carries the node itself along with its siblings: bind it to the computed one.
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
-- 
2.43.0


From 6d5b86d5b1719d9461ca546b984968304e848d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 08/53] fix: BN128/BLS12-381 leaf hash of 4-element rows
 overflowed the field and differed from the verifier's

---
 starky/src/linearhash_bls12381.rs | 2 +-
 starky/src/linearhash_bn128.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..aaac5ef 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,7 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..8cc56d0 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,7 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From b89a01b30bc2bfa17837a71104fc806ab5730a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 09/53] fix: BN128/BLS12-381 transcripts served stale words
 after absorbing

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From b83119913c4ca5e988caf6e9382f8d47539f7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 10/53] fix: the root of a one-row Merkle tree was zero
 whatever the row

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..4ddcb66 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -45,6 +45,10 @@ pub struct MerkleTreeGL {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is its own root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index f08f4cb..26ccf88 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is its own root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 5f429da..f6e355d 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is its own root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From 0c3b89f78d5cf574e1a8eafd767d882d2b480fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 11/53] fix: deserializing malformed field elements and digests
 panicked or dropped data

---
 starky/src/digest.rs         | 10 ++++++----
 starky/src/field_bls12381.rs |  3 ++-
 starky/src/field_bn128.rs    |  3 ++-
 starky/src/serializer.rs     | 27 ++++++++++++++++++---------
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/starky/src/digest.rs b/starky/src/digest.rs
index a4a4ea7..d9bbb83 100644
--- a/starky/src/digest.rs
+++ b/starky/src/digest.rs
@@ -131,8 +131,10 @@ impl<'de, const N: usize, F: PrimeField + Default> Deserialize<'de> for ElementD
             {
                 let mut entries = Vec::new();
                 while let Some(entry) = seq.next_element::<String>()? {
-                    let entry: u64 = entry.parse().unwrap();
-                    entries.push(FGL::from(entry));
+                    entries.push(crate::serializer::fgl_from_dec(&entry)?);
+                }
+                if entries.len() != N {
+                    return Err(de::Error::invalid_length(entries.len(), &self));
                 }
                 Ok(ElementDigest::<N, F>::new(&entries))
             }
@@ -145,11 +147,11 @@ impl<'de, const N: usize, F: PrimeField + Default> Deserialize<'de> for ElementD
                 let source = TypeId::of::<F>();
                 if source == TypeId::of::<FGL>() {
                     // one-dim GL elements
-                    let value = FGL::from_str(s).unwrap();
+                    let value = crate::serializer::fgl_from_dec::<E>(s)?;
                     Ok(ElementDigest::<N, F>::new(&[value, FGL::ZERO, FGL::ZERO, FGL::ZERO]))
                 } else {
                     // BN128 or BLS12381
-                    let t = F::from_str(s).unwrap();
+                    let t = F::from_str(s).ok_or_else(|| E::invalid_value(de::Unexpected::Str(s), &self))?;
                     Ok(ElementDigest::<N, F>::from_scalar(&t))
                 }
             }
diff --git a/starky/src/field_bls12381.rs b/starky/src/field_bls12381.rs
index aaa6b7d..0b6b7ba 100644
--- a/starky/src/field_bls12381.rs
+++ b/starky/src/field_bls12381.rs
@@ -40,7 +40,8 @@ impl<'de> Deserialize<'de> for Fr {
             where
                 E: Error,
             {
-                Ok(Self::Value::from_str(v).unwrap())
+                Self::Value::from_str(v)
+                    .ok_or_else(|| E::invalid_value(de::Unexpected::Str(v), &self))
             }
         }
         deserializer.deserialize_any(EntriesVisitor)
diff --git a/starky/src/field_bn128.rs b/starky/src/field_bn128.rs
index e29d009..a2b19aa 100644
--- a/starky/src/field_bn128.rs
+++ b/starky/src/field_bn128.rs
@@ -40,7 +40,8 @@ impl<'de> Deserialize<'de> for Fr {
             where
                 E: Error,
             {
-                Ok(Self::Value::from_str(v).unwrap())
+                Self::Value::from_str(v)
+                    .ok_or_else(|| E::invalid_value(de::Unexpected::Str(v), &self))
             }
         }
         deserializer.deserialize_any(EntriesVisitor)
diff --git a/starky/src/serializer.rs b/starky/src/serializer.rs
index d24ca26..fe302f9 100644
--- a/starky/src/serializer.rs
+++ b/starky/src/serializer.rs
@@ -7,7 +7,8 @@ use crate::fri::Query;
 use crate::stark_gen::StarkProof;
 use crate::traits::FieldExtension;
 use crate::traits::{MTNodeType, MerkleTree};
-use fields::field_gl::Fr as FGL;
+use fields::field_gl::{Fr as FGL, FrRepr};
+use fields::PrimeField;
 use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
 use serde::{
     de::{self, MapAccess, SeqAccess, Visitor},
@@ -18,6 +19,12 @@ use std::collections::HashMap;
 use std::fmt;
 use std::marker::PhantomData;
 
+/// parse a canonical Goldilocks element, as the serializers write it
+pub(crate) fn fgl_from_dec<E: de::Error>(s: &str) -> Result<FGL, E> {
+    let n: u64 = s.parse().map_err(E::custom)?;
+    FGL::from_repr(FrRepr::from(n)).map_err(E::custom)
+}
+
 impl Serialize for F3G {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -58,8 +65,10 @@ impl<'de> Deserialize<'de> for F3G {
             {
                 let mut entries = Vec::new();
                 while let Some(entry) = seq.next_element::<String>()? {
-                    let entry: u64 = entry.parse().unwrap();
-                    entries.push(FGL::from(entry));
+                    entries.push(fgl_from_dec(&entry)?);
+                }
+                if entries.len() != 3 {
+                    return Err(de::Error::invalid_length(entries.len(), &self));
                 }
                 Ok(F3G::from_vec(entries))
             }
@@ -68,8 +77,7 @@ impl<'de> Deserialize<'de> for F3G {
             where
                 E: de::Error,
             {
-                let ien: u64 = s.parse().unwrap();
-                Ok(F3G::from(ien))
+                Ok(F3G::from(fgl_from_dec::<E>(s)?))
             }
         }
         deserializer.deserialize_any(EntriesVisitor)
@@ -116,8 +124,10 @@ impl<'de> Deserialize<'de> for F5G {
             {
                 let mut entries = Vec::new();
                 while let Some(entry) = seq.next_element::<String>()? {
-                    let entry: u64 = entry.parse().unwrap();
-                    entries.push(FGL::from(entry));
+                    entries.push(fgl_from_dec(&entry)?);
+                }
+                if entries.len() != 5 {
+                    return Err(de::Error::invalid_length(entries.len(), &self));
                 }
                 Ok(F5G::from_vec(entries))
             }
@@ -126,8 +136,7 @@ impl<'de> Deserialize<'de> for F5G {
             where
                 E: de::Error,
             {
-                let ien: u64 = s.parse().unwrap();
-                Ok(F5G::from(ien))
+                Ok(F5G::from(fgl_from_dec::<E>(s)?))
             }
         }
         deserializer.deserialize_any(EntriesVisitor)
-- 
2.43.0


From b15632f8c58bdc9561d399af49c47a39f87fc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 12/53] fix: deserializing a malformed proof panicked or
 dropped opened values

---
 starky/src/serializer.rs | 113 +++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 64 deletions(-)

diff --git a/starky/src/serializer.rs b/starky/src/serializer.rs
index fe302f9..1e93bed 100644
--- a/starky/src/serializer.rs
+++ b/starky/src/serializer.rs
@@ -273,6 +273,24 @@ impl<M: MerkleTree> Serialize for StarkProof<M> {
     }
 }
 
+/// one entry of a serialized proof
+fn entry<T: de::DeserializeOwned, E: de::Error>(
+    map: &HashMap<String, serde_json::Value>,
+    key: &str,
+) -> Result<T, E> {
+    let v = map.get(key).ok_or_else(|| E::custom(format!("missing field {key}")))?;
+    serde_json::from_value(v.clone()).map_err(|e| E::custom(format!("{key}: {e}")))
+}
+
+/// opened values are elements of the base field
+fn base_elements<E: de::Error>(vals: Vec<Vec<F3G>>) -> Result<Vec<Vec<FGL>>, E> {
+    let to_base = |e: F3G| match e.dim {
+        1 => Ok(e.to_be()),
+        _ => Err(E::custom(format!("not a base field element: {e}"))),
+    };
+    vals.into_iter().map(|v| v.into_iter().map(to_base).collect()).collect()
+}
+
 impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -297,35 +315,24 @@ impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
                     map.insert(key, value);
                 }
                 let mut sp: StarkProof<MT> = Default::default();
-                let root: MT::MTNode =
-                    serde_json::from_value(map.get("root1").unwrap().clone()).unwrap();
-                sp.root1 = root;
-
-                let root: MT::MTNode =
-                    serde_json::from_value(map.get("root2").unwrap().clone()).unwrap();
-                sp.root2 = root;
-
-                let root: MT::MTNode =
-                    serde_json::from_value(map.get("root3").unwrap().clone()).unwrap();
-                sp.root3 = root;
-
-                let root: MT::MTNode =
-                    serde_json::from_value(map.get("root4").unwrap().clone()).unwrap();
-                sp.root4 = root;
-
-                let root = map.get("rootC");
-                if let Some(root_value) = root {
-                    let root: MT::MTNode = serde_json::from_value(root_value.clone()).unwrap();
-                    sp.rootC = Some(root);
+                sp.root1 = entry(&map, "root1")?;
+
+                sp.root2 = entry(&map, "root2")?;
+
+                sp.root3 = entry(&map, "root3")?;
+
+                sp.root4 = entry(&map, "root4")?;
+
+                if map.contains_key("rootC") {
+                    sp.rootC = Some(entry(&map, "rootC")?);
                 }
 
-                let prover_addr = map.get("proverAddr");
-                if let Some(prover_addr_value) = prover_addr {
-                    sp.prover_addr = serde_json::from_value(prover_addr_value.clone()).unwrap();
+                if map.contains_key("proverAddr") {
+                    sp.prover_addr = entry(&map, "proverAddr")?;
                 }
-                sp.evals = serde_json::from_value(map.get("evals").unwrap().clone()).unwrap();
+                sp.evals = entry(&map, "evals")?;
 
-                sp.publics = serde_json::from_value(map.get("publics").unwrap().clone()).unwrap();
+                sp.publics = entry(&map, "publics")?;
 
                 let mut fri_proof: FRIProof<MT::ExtendField, MT> = FRIProof::default();
 
@@ -357,25 +364,14 @@ impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
                         s0_siblings_all.push(vec![]);
                         continue;
                     }
-                    let s0_vals: Vec<Vec<F3G>> =
-                        serde_json::from_value(key.unwrap().clone()).unwrap();
-                    let s0_vals: Vec<Vec<FGL>> = s0_vals
-                        .iter()
-                        .map(|e| {
-                            let iv: Vec<FGL> = e
-                                .iter()
-                                .map(|e2| {
-                                    let ea = e2.as_elements();
-                                    ea[0]
-                                })
-                                .collect();
-                            iv
-                        })
-                        .collect();
+                    let s0_vals: Vec<Vec<F3G>> = entry(&map, &format!("s0_vals{j}"))?;
+                    let s0_vals = base_elements(s0_vals)?;
 
-                    let key = map.get(&format!("s0_siblings{j}"));
                     let s0_siblings: Vec<Vec<Vec<MT::MTNode>>> =
-                        serde_json::from_value(key.unwrap().clone()).unwrap();
+                        entry(&map, &format!("s0_siblings{j}"))?;
+                    if s0_siblings.len() != s0_vals.len() {
+                        return Err(de::Error::invalid_length(s0_siblings.len(), &self));
+                    }
                     s0_vals_all.push(s0_vals);
                     s0_siblings_all.push(s0_siblings);
                 }
@@ -393,6 +389,9 @@ impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
                 // We have:
                 // qe[i][k] = s0_vals_all[k][i], k in [0, 5)
                 let num_pol_queries = s0_vals_all[0].len();
+                if let Some(v) = s0_vals_all.iter().find(|v| v.len() > num_pol_queries) {
+                    return Err(de::Error::invalid_length(v.len(), &self));
+                }
                 fri_proof.queries[0].pol_queries = vec![vec![]; num_pol_queries];
                 for i in 0..num_pol_queries {
                     fri_proof.queries[0].pol_queries[i] = vec![(vec![], vec![]); 5];
@@ -417,29 +416,16 @@ impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
 
                 // handle query 1 to num_query
                 for i in 1..=num_query {
-                    let key = map.get(&format!("s{i}_root"));
-                    let root: MT::MTNode = serde_json::from_value(key.unwrap().clone()).unwrap();
-                    fri_proof.queries[i].root = root;
+                    fri_proof.queries[i].root = entry(&map, &format!("s{i}_root"))?;
 
-                    let key = map.get(&format!("s{i}_vals"));
-                    let val: Vec<Vec<F3G>> = serde_json::from_value(key.unwrap().clone()).unwrap();
-                    let vals: Vec<Vec<FGL>> = val
-                        .iter()
-                        .map(|e| {
-                            let iv: Vec<FGL> = e
-                                .iter()
-                                .map(|e2| {
-                                    let ea = e2.as_elements();
-                                    ea[0]
-                                })
-                                .collect();
-                            iv
-                        })
-                        .collect();
+                    let val: Vec<Vec<F3G>> = entry(&map, &format!("s{i}_vals"))?;
+                    let vals = base_elements(val)?;
 
-                    let key = map.get(&format!("s{i}_siblings"));
                     let sibs: Vec<Vec<Vec<MT::MTNode>>> =
-                        serde_json::from_value(key.unwrap().clone()).unwrap();
+                        entry(&map, &format!("s{i}_siblings"))?;
+                    if vals.len() != num_pol_queries || sibs.len() != num_pol_queries {
+                        return Err(de::Error::invalid_length(vals.len(), &self));
+                    }
                     fri_proof.queries[i].pol_queries = vec![vec![]; num_pol_queries];
                     for q in 0..num_pol_queries {
                         let node_to_bf = crate::traits::mt_node_to_basefield::<MT>(&sibs[q]);
@@ -448,8 +434,7 @@ impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {
                 }
 
                 // handle finalPol
-                let key = map.get("finalPol");
-                fri_proof.last = serde_json::from_value(key.unwrap().clone()).unwrap();
+                fri_proof.last = entry(&map, "finalPol")?;
                 sp.fri_proof = fri_proof;
                 Ok(sp)
             }
-- 
2.43.0


From fca545a6d94b7bd3516c8e4bfa8fa643cbc7114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 13/53] fix: FRI accepted a final polynomial of one degree too
 many

---
 starky/src/fri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..018427e 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -277,16 +277,17 @@ impl FRI {
         let last_pol_e = proof.last.clone();
 
         #[allow(unused_assignments)]
-        let mut max_deg = 0usize;
+        let mut max_deg = 1usize;
         if pol_bits < (self.in_nbits - self.max_deg_nbits) {
-            max_deg = 0;
+            max_deg = 1;
         } else {
             max_deg = 1 << (pol_bits - (self.in_nbits - self.max_deg_nbits));
         }
 
         let last_pol_c = standard_fft.ifft(&last_pol_e);
 
-        for i in (max_deg + 1)..last_pol_c.len() {
+        // degree below max_deg: coefficients from max_deg on vanish
+        for i in max_deg..last_pol_c.len() {
             if !last_pol_c[i].is_zero() {
                 log::error!("check last pol c failed");
                 return Ok(false);
-- 
2.43.0


From a5e68005121e16d438f34afe48387d7ec717c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 14/53] fix: the STARK verifier did not check the sizes of
 rows, paths and lists in a proof

---
 starky/src/merklehash.rs          |  7 +++++
 starky/src/merklehash_bls12381.rs |  7 +++++
 starky/src/merklehash_bn128.rs    |  7 +++++
 starky/src/stark_verify.rs        | 43 +++++++++++++++++++++++++++++++
 starky/src/traits.rs              |  2 ++
 5 files changed, 66 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index 4ddcb66..b76a88e 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -441,6 +441,10 @@ impl MerkleTree for MerkleTreeGL {
         Ok((v, mp))
     }
 
+    fn proof_depth(n_bits: usize) -> usize {
+        n_bits
+    }
+
     fn eq_root(&self, r1: &Self::MTNode, r2: &Self::MTNode) -> bool {
         r1 == r2
     }
@@ -452,6 +456,9 @@ impl MerkleTree for MerkleTreeGL {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        if mp.iter().any(|level| level.len() != 4) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 26ccf88..2183898 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -248,6 +248,10 @@ impl MerkleTree for MerkleTreeBLS12381 {
         Ok((v, mp))
     }
 
+    fn proof_depth(n_bits: usize) -> usize {
+        n_bits.div_ceil(4)
+    }
+
     fn eq_root(&self, r1: &Self::MTNode, r2: &Self::MTNode) -> bool {
         r1 == r2
     }
@@ -259,6 +263,9 @@ impl MerkleTree for MerkleTreeBLS12381 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        if mp.iter().any(|level| level.len() != 16) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index f6e355d..3a99167 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -244,6 +244,10 @@ impl MerkleTree for MerkleTreeBN128 {
         Ok((v, mp))
     }
 
+    fn proof_depth(n_bits: usize) -> usize {
+        n_bits.div_ceil(4)
+    }
+
     fn eq_root(&self, r1: &Self::MTNode, r2: &Self::MTNode) -> bool {
         r1 == r2
     }
@@ -255,6 +259,9 @@ impl MerkleTree for MerkleTreeBN128 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        if mp.iter().any(|level| level.len() != 16) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/stark_verify.rs b/starky/src/stark_verify.rs
index 172b954..b7961cd 100644
--- a/starky/src/stark_verify.rs
+++ b/starky/src/stark_verify.rs
@@ -24,6 +24,11 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     stark_struct: &StarkStruct,
     program: &Program,
 ) -> Result<bool> {
+    if !check_shape(proof, starkinfo, stark_struct) {
+        log::error!("the proof does not have the shape of this circuit's proofs");
+        return Ok(false);
+    }
+
     let mut transcript = T::new();
 
     let mut ctx = StarkContext::default();
@@ -135,6 +140,44 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     fri.verify(&mut transcript, &proof.fri_proof, check_query)
 }
 
+/// Whether every part of the proof has the size that the circuit and the parameters dictate: the
+/// Merkle trees do not fix the length of rows and paths themselves.
+fn check_shape<M: MerkleTree>(
+    proof: &StarkProof<M>,
+    starkinfo: &StarkInfo,
+    stark_struct: &StarkStruct,
+) -> bool {
+    let steps = &stark_struct.steps;
+    let fri = &proof.fri_proof;
+    let sections = &starkinfo.map_sectionsN;
+    proof.publics.len() == starkinfo.publics.len()
+        && proof.evals.len() == starkinfo.ev_map.len()
+        && fri.queries.len() == steps.len()
+        && fri.last.len() == 1 << steps[steps.len() - 1].nBits
+        && fri.last.iter().all(|e| e.dim() == 3)
+        && fri.queries.iter().enumerate().all(|(si, query)| {
+            let widths = match si {
+                0 => vec![
+                    sections.cm1_n,
+                    sections.cm2_n,
+                    sections.cm3_n,
+                    sections.cm4_n,
+                    starkinfo.n_constants,
+                ],
+                _ => vec![3 << (steps[si - 1].nBits - steps[si].nBits)],
+            };
+            let depth = M::proof_depth(steps[si].nBits);
+            query.pol_queries.len() == stark_struct.nQueries
+                && query.pol_queries.iter().all(|trees| {
+                    trees.len() == widths.len()
+                        && trees
+                            .iter()
+                            .zip(&widths)
+                            .all(|((row, path), w)| row.len() == *w && path.len() == depth)
+                })
+        })
+}
+
 fn execute_code<F: FieldExtension>(ctx: &StarkContext<F>, code: &Vec<Section>) -> F {
     let mut tmp: HashMap<usize, F> = HashMap::new();
 
diff --git a/starky/src/traits.rs b/starky/src/traits.rs
index 027136a..1df8f7c 100644
--- a/starky/src/traits.rs
+++ b/starky/src/traits.rs
@@ -50,6 +50,8 @@ where
         group_elements: &[FGL],
     ) -> Result<bool>;
     fn root(&self) -> Self::MTNode;
+    /// number of levels of an opening in a tree of 2^n_bits rows
+    fn proof_depth(n_bits: usize) -> usize;
     fn eq_root(&self, r1: &Self::MTNode, r2: &Self::MTNode) -> bool;
     fn element_size(&self) -> usize;
 }
-- 
2.43.0


From 1dcb113bce91b424110ca281e39bf43a1d79441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 15/53] fix: deserializing a BN128/BLS12-381 digest that
 Goldilocks limbs cannot hold panicked

---
 starky/src/digest.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starky/src/digest.rs b/starky/src/digest.rs
index d9bbb83..130560e 100644
--- a/starky/src/digest.rs
+++ b/starky/src/digest.rs
@@ -152,6 +152,11 @@ impl<'de, const N: usize, F: PrimeField + Default> Deserialize<'de> for ElementD
                 } else {
                     // BN128 or BLS12381
                     let t = F::from_str(s).ok_or_else(|| E::invalid_value(de::Unexpected::Str(s), &self))?;
+                    // a digest holds the raw limbs as Goldilocks elements
+                    let raw = t.into_raw_repr();
+                    if raw.as_ref().iter().any(|l| *l >= 0xFFFFFFFF00000001) {
+                        return Err(E::invalid_value(de::Unexpected::Str(s), &self));
+                    }
                     Ok(ElementDigest::<N, F>::from_scalar(&t))
                 }
             }
-- 
2.43.0


From ddfb397ff5192a4bc3464700544cacd2aecaa12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 16/53] fix: prover program of a public is found by the
 public's position

Publics that are plain columns got no entry in publics_code, so that an
expression public listed after one used another public's code or none.
---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..0838f11 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -316,6 +316,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // publics_code is indexed by the public's position
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From c754380ba06fc296783dcc734a36e354ce5f21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 17/53] fix: setup refuses a circuit whose constraints do not
 fit the blowup

It went on with an empty quotient, and no proof it led to could verify.
---
 starky/src/starkinfo_cp_prover.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starky/src/starkinfo_cp_prover.rs b/starky/src/starkinfo_cp_prover.rs
index 3fdfb6e..ac7d506 100644
--- a/starky/src/starkinfo_cp_prover.rs
+++ b/starky/src/starkinfo_cp_prover.rs
@@ -4,7 +4,7 @@ use crate::starkinfo_codegen::Section;
 use crate::starkinfo_codegen::{build_code, pil_code_gen, Context, Node};
 use crate::types::Expression;
 use crate::types::{StarkStruct, PIL};
-use anyhow::Result;
+use anyhow::{bail, Result};
 use std::collections::HashMap;
 
 impl StarkInfo {
@@ -34,6 +34,7 @@ impl StarkInfo {
             }
         }
         self.q_deg = 0;
+        let mut feasible = false;
         let max_deg = (1 << (stark_struct.nBitsExt - stark_struct.nBits)) + 1;
         for d in 2..=max_deg {
             let (im_exps, q_deg) = calculate_im_pols(pil, &c_exp, d)?;
@@ -44,8 +45,12 @@ impl StarkInfo {
             {
                 self.q_deg = q_deg as usize;
                 self.im_exps = im_exps.unwrap();
+                feasible = true;
             }
         }
+        if !feasible {
+            bail!("The degree of a constraint exceeds the degree {max_deg} of this blowup");
+        }
 
         //log::trace!("im_exps: {:?} q_deg {}", self.im_exps, self.q_deg);
 
-- 
2.43.0


From 05ff4b1b289f02e3d0cae37048990f1abb7c4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 18/53] fix: a connection of a single column needs no coset
 factor

get_ks(0) indexed an empty vector, so that setup panicked.
---
 starky/src/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starky/src/helper.rs b/starky/src/helper.rs
index efcf441..3264c67 100644
--- a/starky/src/helper.rs
+++ b/starky/src/helper.rs
@@ -14,8 +14,7 @@ use std::ops::Mul;
 ///    return ks;
 ///}
 pub fn get_ks(n: usize) -> Vec<FGL> {
-    let mut ks: Vec<FGL> = vec![FGL::ZERO; n];
-    ks[0] = FGL::from(12275445934081160404u64);
+    let mut ks: Vec<FGL> = vec![FGL::from(12275445934081160404u64); n];
     for i in 1..n {
         ks[i] = ks[i - 1].mul(ks[0])
     }
-- 
2.43.0


From e6139ac8a16d06a8764f49f098cb60737da4b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 19/53] fix: numbers below minus the modulus were reduced
 wrongly in constraints

---
 starky/src/types.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..5432b9f 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -220,16 +220,12 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
+    let n_val: i128 = match raw_val.starts_with("0x") {
         true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
         _ => raw_val.parse::<i128>().unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
-    }
-    n_val %= 18446744069414584321;
-    n_val as u64
+    n_val.rem_euclid(18446744069414584321) as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From a97404f965c694e4b81280a63c6868438a69c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 20/53] fix: PolsArray::def kept only one of a namespace's
 columns

---
 starky/src/polsarray.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..dfda3fb 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -85,9 +85,7 @@ impl PolsArray {
                         polDeg: ref_.polDeg,
                     };
                     let arrayPols: Vec<usize> = vec![ref_.id];
-                    let mut ns: HashMap<String, Vec<usize>> = HashMap::new();
-                    ns.insert(namePols, arrayPols);
-                    def.insert(nameSpace, ns);
+                    def.entry(nameSpace).or_default().insert(namePols, arrayPols);
                     array[ref_.id] = vec![FGL::default(); ref_.polDeg];
                 }
             }
-- 
2.43.0


From d5b46f9a43386aa1835cdd3d0e0ce4ec4dfc38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 21/53] fix: loading a column file hung on a truncated file and
 misplaced values after a short read

---
 starky/src/polsarray.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index dfda3fb..554c7aa 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -1,6 +1,6 @@
 #![allow(non_snake_case)]
 use crate::{traits::FieldExtension, types::PIL};
-use anyhow::Result;
+use anyhow::{bail, Result};
 use fields::field_gl::Fr as FGL;
 use profiler_macro::time_profiler;
 use rayon::prelude::*;
@@ -148,24 +148,20 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            f.read_exact(&mut buff8[..(n * 8)])?;
+            log::trace!("read size: n = {}, k = {}, totalSize = {}", n, k, totalSize);
             let buff: &[u64] = unsafe {
                 std::slice::from_raw_parts(
                     buff8.as_ptr() as *const u64,
                     buff8.len() / std::mem::size_of::<u64>(),
                 )
             };
-            n = rs / 8;
 
             for l in 0..n {
+                if buff[l] >= 0xFFFFFFFF00000001 {
+                    bail!("{}: not a field element: {}", fileName, buff[l]);
+                }
                 self.array[i][j] = FGL::from(buff[l]);
                 i += 1;
                 if i == self.nPols {
-- 
2.43.0


From caf00fc7dfe2547f21466d974f383dbcdecc9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 22/53] fix: saving columns beyond one buffer appended stale
 words

---
 starky/src/polsarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 554c7aa..d70a39c 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -202,7 +202,7 @@ impl PolsArray {
             let buff8: &[u8] = unsafe {
                 std::slice::from_raw_parts(
                     buff.as_ptr() as *const u8,
-                    buff.len() * std::mem::size_of::<u64>(),
+                    p * std::mem::size_of::<u64>(),
                 )
             };
             writer.write_all(buff8)?;
-- 
2.43.0


From 161049562a6cdb509c4abf13dfc52df107d47f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 23/53] fix: R1CS reader panicked, hung or accepted malformed
 files

Missing sections, unterminated gate names, empty wire maps and huge counts
panicked, looped forever or allocated without bound; sizes of sections, the
prime of the field and the range of wires were not checked.
---
 algebraic-gpu/src/r1cs_file.rs | 115 ++++++++++++++++++++-------------
 algebraic/src/r1cs_file.rs     | 114 +++++++++++++++++++-------------
 2 files changed, 141 insertions(+), 88 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..77292cc 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -6,7 +6,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use ff::PrimeField;
 use std::{
     collections::BTreeMap,
-    io::{Error, ErrorKind, Read, Result, Seek, SeekFrom},
+    io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Take},
 };
 
 // R1CSFile's header
@@ -54,11 +54,17 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
+    if !(field_size == 32 || field_size == 8) {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-bytes or 8-bytes fields",
+        ));
+    }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -78,10 +84,14 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = vec![];
     for _ in 0..n_vec {
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= header.n_wires {
+            return Err(Error::new(ErrorKind::InvalidData, "Wire of a constraint out of range"));
+        }
         vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
+            wire as usize,
             read_field::<&mut R, E>(&mut reader)?,
         ));
         // sort by key
@@ -91,19 +101,20 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
 }
 
 fn read_constraints<R: Read, E: PrimeField>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
-    // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut reader = reader.take(size);
+    let mut vec = vec![];
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
         ));
     }
+    section_end(&reader)?;
     Ok(vec)
 }
 
@@ -111,79 +122,83 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
+/// nothing of a section may be left over
+fn section_end<R>(reader: &Take<R>) -> Result<()> {
+    match reader.limit() {
+        0 => Ok(()),
+        _ => Err(Error::new(ErrorKind::InvalidData, "Invalid section size")),
+    }
+}
+
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGates<E>>> {
+    let mut reader = reader.take(size);
     let num = reader.read_u32::<LittleEndian>()?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
-            custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
+            custom_gate.parameters.push(read_field::<_, E>(&mut reader)?);
         }
         custom_gates.push(custom_gate);
     }
+    section_end(&reader)?;
     Ok(custom_gates)
 }
 
 fn read_custom_gates_uses_list<R: Read>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGatesUses>> {
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
-    let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
-    for _ in 0..sz {
-        b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
-    }
-
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let mut reader = reader.take(size);
+    let n_custom_gate_uses = reader.read_u32::<LittleEndian>()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses {
+            id: reader.read_u32::<LittleEndian>()? as u64,
+            ..Default::default()
+        };
+        let num_signals = reader.read_u32::<LittleEndian>()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = reader.read_u32::<LittleEndian>()? as u64;
+            let MSB = reader.read_u32::<LittleEndian>()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
     }
+    section_end(&reader)?;
     Ok(custom_gates_uses)
 }
 
@@ -212,9 +227,18 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.stream_position()?;
-        section_offsets.insert(section_type, offset);
+        if section_offsets.insert(section_type, offset).is_some() {
+            return Err(Error::new(ErrorKind::InvalidData, "Duplicate section"));
+        }
         section_sizes.insert(section_type, section_size);
-        reader.seek(SeekFrom::Current(section_size as i64))?;
+        let section_size = i64::try_from(section_size)
+            .map_err(|_| Error::new(ErrorKind::InvalidData, "Invalid section size"))?;
+        reader.seek(SeekFrom::Current(section_size))?;
+    }
+    for section_type in [HEADER_TYPE, CONSTRAINT_TYPE, WIRE2LABEL_TYPE] {
+        if !section_offsets.contains_key(&section_type) {
+            return Err(Error::new(ErrorKind::InvalidData, "Missing section"));
+        }
     }
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
@@ -224,12 +248,6 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         header.use_custom_gates = true;
     }
-    if !(header.field_size == 32 || header.field_size == 8) {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-bytes or 8-bytes fields",
-        ));
-    }
     if header.field_size != E::NUM_BITS.div_ceil(8) {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
@@ -241,6 +259,15 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    // the repr of -1 is one less than the (odd) modulus
+    let mut prime = (-E::ONE).to_repr().as_ref().to_vec();
+    prime[0] += 1;
+    if header.prime_size != prime {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(ErrorKind::InvalidData, "More public signals than wires"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..6b0a074 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -6,7 +6,7 @@ use crate::circom_circuit::{Constraint, CustomGates, CustomGatesUses};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::{
     collections::BTreeMap,
-    io::{Error, ErrorKind, Read, Result, Seek, SeekFrom},
+    io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Take},
 };
 
 // R1CSFile's header
@@ -49,11 +49,17 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
+    if !(field_size == 32 || field_size == 8) {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-bytes or 8-bytes fields",
+        ));
+    }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -73,10 +79,14 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<(usize, E::Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = vec![];
     for _ in 0..n_vec {
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= header.n_wires {
+            return Err(Error::new(ErrorKind::InvalidData, "Wire of a constraint out of range"));
+        }
         vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
+            wire as usize,
             read_field::<&mut R, E>(&mut reader)?,
         ));
         // sort by key
@@ -86,19 +96,20 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
 }
 
 fn read_constraints<R: Read, E: ScalarEngine>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
-    // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut reader = reader.take(size);
+    let mut vec = vec![];
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
         ));
     }
+    section_end(&reader)?;
     Ok(vec)
 }
 
@@ -106,79 +117,83 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
+/// nothing of a section may be left over
+fn section_end<R>(reader: &Take<R>) -> Result<()> {
+    match reader.limit() {
+        0 => Ok(()),
+        _ => Err(Error::new(ErrorKind::InvalidData, "Invalid section size")),
+    }
+}
+
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGates<E>>> {
+    let mut reader = reader.take(size);
     let num = reader.read_u32::<LittleEndian>()?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
-            custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
+            custom_gate.parameters.push(read_field::<_, E>(&mut reader)?);
         }
         custom_gates.push(custom_gate);
     }
+    section_end(&reader)?;
     Ok(custom_gates)
 }
 
 fn read_custom_gates_uses_list<R: Read>(
-    mut reader: R,
+    reader: R,
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGatesUses>> {
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
-    let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
-    for _ in 0..sz {
-        b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
-    }
-
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let mut reader = reader.take(size);
+    let n_custom_gate_uses = reader.read_u32::<LittleEndian>()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses {
+            id: reader.read_u32::<LittleEndian>()? as u64,
+            ..Default::default()
+        };
+        let num_signals = reader.read_u32::<LittleEndian>()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = reader.read_u32::<LittleEndian>()? as u64;
+            let MSB = reader.read_u32::<LittleEndian>()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
     }
+    section_end(&reader)?;
     Ok(custom_gates_uses)
 }
 
@@ -207,9 +222,18 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.stream_position()?;
-        section_offsets.insert(section_type, offset);
+        if section_offsets.insert(section_type, offset).is_some() {
+            return Err(Error::new(ErrorKind::InvalidData, "Duplicate section"));
+        }
         section_sizes.insert(section_type, section_size);
-        reader.seek(SeekFrom::Current(section_size as i64))?;
+        let section_size = i64::try_from(section_size)
+            .map_err(|_| Error::new(ErrorKind::InvalidData, "Invalid section size"))?;
+        reader.seek(SeekFrom::Current(section_size))?;
+    }
+    for section_type in [HEADER_TYPE, CONSTRAINT_TYPE, WIRE2LABEL_TYPE] {
+        if !section_offsets.contains_key(&section_type) {
+            return Err(Error::new(ErrorKind::InvalidData, "Missing section"));
+        }
     }
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
@@ -219,12 +243,6 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         header.use_custom_gates = true;
     }
-    if !(header.field_size == 32 || header.field_size == 8) {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-bytes or 8-bytes fields",
-        ));
-    }
     if header.field_size != E::Fr::NUM_BITS.div_ceil(8) {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
@@ -236,6 +254,14 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    let mut prime = vec![];
+    E::Fr::char().write_le(&mut prime)?;
+    if header.prime_size != prime {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(ErrorKind::InvalidData, "More public signals than wires"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-- 
2.43.0


From 00271d996d355ddc78ba57621265629ceeb653cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 24/53] fix: witness reader dropped truncated and non-canonical
 values

---
 algebraic-gpu/src/reader.rs                     | 15 ++++++++-------
 algebraic-gpu/src/witness/witness_calculator.rs |  2 +-
 algebraic/src/reader.rs                         |  9 ++++++---
 algebraic/src/witness/witness_calculator.rs     |  2 +-
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..768f5c1 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -98,21 +98,19 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = vec![];
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid field element");
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
@@ -144,7 +142,10 @@ fn load_r1cs_from_json<E: PrimeField, R: Read>(reader: R) -> R1CS<E> {
     let circuit_json: CircuitJson = serde_json::from_reader(reader).expect("Unable to read.");
 
     let num_inputs = circuit_json.num_inputs + circuit_json.num_outputs + 1;
-    let num_aux = circuit_json.num_variables - num_inputs;
+    let num_aux = circuit_json
+        .num_variables
+        .checked_sub(num_inputs)
+        .expect("more public signals than variables");
 
     let convert_constraint = |lc: &BTreeMap<String, String>| {
         lc.iter()
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..3dec413 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 864fda9..9251142 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -124,10 +124,10 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = vec![];
     for _ in 0..witness_len {
         let mut repr = E::Fr::zero().into_repr();
         repr.read_le(&mut reader)?;
@@ -160,7 +160,10 @@ fn load_r1cs_from_json<E: ScalarEngine, R: Read>(reader: R) -> R1CS<E> {
     let circuit_json: CircuitJson = serde_json::from_reader(reader).expect("Unable to read.");
 
     let num_inputs = circuit_json.num_inputs + circuit_json.num_outputs + 1;
-    let num_aux = circuit_json.num_variables - num_inputs;
+    let num_aux = circuit_json
+        .num_variables
+        .checked_sub(num_inputs)
+        .expect("more public signals than variables");
 
     let convert_constraint = |lc: &BTreeMap<String, String>| {
         lc.iter()
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..a1a19d9 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
-- 
2.43.0


From ca292b72f7c173e315662542c08134097b08f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 25/53] fix: inputs outside the field made the witness
 calculator panic

---
 algebraic-gpu/src/witness/witness_calculator.rs | 12 +++++++++++-
 algebraic/src/witness/witness_calculator.rs     | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 3dec413..a1d64ac 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -157,7 +157,7 @@ impl WitnessCalculator {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
-                let f_arr = to_array32(&value, n32 as usize);
+                let f_arr = to_array32(&self.normalize(&value), n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
                         &mut self.store,
@@ -182,6 +182,16 @@ impl WitnessCalculator {
         Ok(w)
     }
 
+    /// the representative of the value in the field of the circuit
+    fn normalize(&self, value: &BigInt) -> BigInt {
+        let res = value % &self.memory.prime;
+        if res.sign() == Sign::Minus {
+            res + &self.memory.prime
+        } else {
+            res
+        }
+    }
+
     pub fn save_witness_to_bin_file<E: PrimeField>(
         &mut self,
         filename: &str,
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index a1a19d9..5864d5c 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -157,7 +157,7 @@ impl WitnessCalculator {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
-                let f_arr = to_array32(&value, n32 as usize);
+                let f_arr = to_array32(&self.normalize(&value), n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
                         &mut self.store,
@@ -182,6 +182,16 @@ impl WitnessCalculator {
         Ok(w)
     }
 
+    /// the representative of the value in the field of the circuit
+    fn normalize(&self, value: &BigInt) -> BigInt {
+        let res = value % &self.memory.prime;
+        if res.sign() == Sign::Minus {
+            res + &self.memory.prime
+        } else {
+            res
+        }
+    }
+
     pub fn save_witness_to_bin_file<E: ScalarEngine>(
         &mut self,
         filename: &str,
-- 
2.43.0


From 64c890b26a4f563c52f74ea6e67329744caa0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 26/53] fix: a witness was computed although inputs were
 missing

---
 algebraic-gpu/src/witness/circom.rs            | 18 ++++++++++++++++++
 .../src/witness/witness_calculator.rs          | 12 ++++++++++++
 algebraic/src/witness/circom.rs                | 18 ++++++++++++++++++
 algebraic/src/witness/witness_calculator.rs    | 12 ++++++++++++
 4 files changed, 60 insertions(+)

diff --git a/algebraic-gpu/src/witness/circom.rs b/algebraic-gpu/src/witness/circom.rs
index 46c70b6..5409da9 100644
--- a/algebraic-gpu/src/witness/circom.rs
+++ b/algebraic-gpu/src/witness/circom.rs
@@ -40,6 +40,24 @@ impl Wasm {
         Ok(())
     }
 
+    /// whether the circuit has an input of this name (true when the module can not tell)
+    pub(crate) fn has_input_signal(&self, store: &mut Store, hmsb: u32, hlsb: u32) -> Result<bool> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                Ok(func.call(store, &[hmsb.into(), hlsb.into()])?[0].unwrap_i32() as u32 != 0)
+            }
+            Err(_) => Ok(true),
+        }
+    }
+
+    /// number of values that the inputs of the circuit have together, when the module tells
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index a1d64ac..c4bcf83 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -153,8 +153,14 @@ impl WitnessCalculator {
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
 
         // allocate the inputs
+        let mut n_set = 0;
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
+            // signals that the circuit does not have are ignored
+            if !self.instance.has_input_signal(&mut self.store, msb, lsb)? {
+                continue;
+            }
+            n_set += values.len() as u32;
 
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&self.normalize(&value), n32 as usize);
@@ -169,6 +175,12 @@ impl WitnessCalculator {
             }
         }
 
+        // the circuit only computes once it has all its inputs
+        match self.instance.get_input_size(&mut self.store)? {
+            Some(size) if n_set < size => bail!("not all inputs have been set: {n_set} of {size}"),
+            _ => {}
+        }
+
         let mut w = Vec::new();
 
         let witness_size = self.instance.get_witness_size(&mut self.store)?;
diff --git a/algebraic/src/witness/circom.rs b/algebraic/src/witness/circom.rs
index 46c70b6..5409da9 100644
--- a/algebraic/src/witness/circom.rs
+++ b/algebraic/src/witness/circom.rs
@@ -40,6 +40,24 @@ impl Wasm {
         Ok(())
     }
 
+    /// whether the circuit has an input of this name (true when the module can not tell)
+    pub(crate) fn has_input_signal(&self, store: &mut Store, hmsb: u32, hlsb: u32) -> Result<bool> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                Ok(func.call(store, &[hmsb.into(), hlsb.into()])?[0].unwrap_i32() as u32 != 0)
+            }
+            Err(_) => Ok(true),
+        }
+    }
+
+    /// number of values that the inputs of the circuit have together, when the module tells
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index 5864d5c..90eac2b 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -153,8 +153,14 @@ impl WitnessCalculator {
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
 
         // allocate the inputs
+        let mut n_set = 0;
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
+            // signals that the circuit does not have are ignored
+            if !self.instance.has_input_signal(&mut self.store, msb, lsb)? {
+                continue;
+            }
+            n_set += values.len() as u32;
 
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&self.normalize(&value), n32 as usize);
@@ -169,6 +175,12 @@ impl WitnessCalculator {
             }
         }
 
+        // the circuit only computes once it has all its inputs
+        match self.instance.get_input_size(&mut self.store)? {
+            Some(size) if n_set < size => bail!("not all inputs have been set: {n_set} of {size}"),
+            _ => {}
+        }
+
         let mut w = Vec::new();
 
         let witness_size = self.instance.get_witness_size(&mut self.store)?;
-- 
2.43.0


From e14f17ac45870af583a4b78d2ac76d018ac4d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 27/53] fix: failed assertions while computing a witness were
 ignored

---
 algebraic-gpu/src/witness/witness_calculator.rs | 15 +++++++++++++--
 algebraic/src/witness/witness_calculator.rs     | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index c4bcf83..598a98a 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -336,8 +336,19 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            let msg = match code {
+                // inputs may hold more signals than the circuit has
+                1 => return Ok(()),
+                2 => "too many signals set",
+                3 => "signal already set",
+                4 => "assert failed",
+                5 => "not enough memory",
+                6 => "input signal array access exceeds the size",
+                _ => "unknown error",
+            };
+            Err(wasmer::RuntimeError::new(msg))
+        }
         Function::new_typed(store, func)
     }
 
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index 90eac2b..340ebaf 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -336,8 +336,19 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            let msg = match code {
+                // inputs may hold more signals than the circuit has
+                1 => return Ok(()),
+                2 => "too many signals set",
+                3 => "signal already set",
+                4 => "assert failed",
+                5 => "not enough memory",
+                6 => "input signal array access exceeds the size",
+                _ => "unknown error",
+            };
+            Err(wasmer::RuntimeError::new(msg))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From c42f1416ded0d88e7b9ae7e98081d0223c600ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 28/53] fix: reject Groth16 points off the curve or subgroup
 instead of panicking

---
 recursion-gnark/ffi/src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..cb8e0c3 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -486,8 +486,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From 2f83a8e4981a03f958f8a257420f04d3c814789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 29/53] fix: write the point at infinity of G2 as projective
 coordinates

---
 recursion-gnark/ffi/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index cb8e0c3..2638bd5 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,11 +219,17 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
-                x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
-                x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
-                x_seq.serialize_element(&vec!["1", "0"])?;
+                if let Some((x, y)) = p.xy() {
+                    x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
+                    x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                } else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                }
                 x_seq.end()
             }
             fn serialize_gt<S: Serializer>(
-- 
2.43.0


From b13005ad23c846adfc6fdc392b37ae32fac415f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 30/53] fix: report a truncated list of curve points as an
 error

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 2638bd5..f40ddbf 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -554,7 +554,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G1Affine>> {
         let mut buf = vec![0u8; Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g1_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
@@ -567,7 +567,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G2Affine>> {
         let mut buf = vec![0u8; Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g2_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
-- 
2.43.0


From bdcd1e4bb791ba51a61e93a0ee4d9bd2d305d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 31/53] fix: reject a Montgomery representation that is not
 below the modulus

---
 recursion-gnark/ffi/src/traits.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index f40ddbf..4d49b8a 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -44,9 +44,12 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let repr = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                // only a reduced representation is that of a field element
+                if repr >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(repr))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
@@ -67,9 +70,12 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let repr = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                // only a reduced representation is that of a field element
+                if repr >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(repr))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
-- 
2.43.0


From 3fc463470d0407b37436426d920ef7b13346ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 32/53] fix: report a failing write of G1 points as an error

---
 recursion-gnark/ffi/src/json_util.rs | 2 +-
 recursion-gnark/ffi/src/traits.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/json_util.rs b/recursion-gnark/ffi/src/json_util.rs
index 264409f..440b61b 100644
--- a/recursion-gnark/ffi/src/json_util.rs
+++ b/recursion-gnark/ffi/src/json_util.rs
@@ -128,7 +128,7 @@ where
     P::BaseField: ArkworksPrimeFieldBridge,
     P::ScalarField: ArkworksPrimeFieldBridge,
 {
-    let mut seq = ser.serialize_seq(Some(p.len())).unwrap();
+    let mut seq = ser.serialize_seq(Some(p.len()))?;
     let maybe_error = p
         .iter()
         .map(|p| P::g1_to_strings_projective(p))
diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 4d49b8a..a33e407 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -627,7 +627,7 @@ where
     /// Serializes element of G1 using serializer
     fn serialize_g1<S: Serializer>(p: &Self::G1Affine, ser: S) -> Result<S::Ok, S::Error> {
         let strings = Self::g1_to_strings_projective(p);
-        let mut seq = ser.serialize_seq(Some(strings.len())).unwrap();
+        let mut seq = ser.serialize_seq(Some(strings.len()))?;
         for ele in strings {
             seq.serialize_element(&ele)?;
         }
-- 
2.43.0


From da5c4a94328e74eeacb63fcf47568d6944267666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 33/53] mc_small_tasks: tasks of a few rows for schedule
 exploration

---
 starky/src/constant.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index 9869fec..9849d61 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -113,8 +113,15 @@ lazy_static::lazy_static! {
     };
 }
 
+#[cfg(not(mc_small_tasks))]
 pub const MIN_OPS_PER_THREAD: usize = 1 << 12;
+#[cfg(not(mc_small_tasks))]
 pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
+// small tasks, so that every way of splitting work among threads can be explored
+#[cfg(mc_small_tasks)]
+pub const MIN_OPS_PER_THREAD: usize = 2;
+#[cfg(mc_small_tasks)]
+pub const MAX_OPS_PER_THREAD: usize = 64;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-- 
2.43.0


From e66d6998b455d144ed3653eb32f32d72a5b479eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 34/53] fix: a constant factor of a constraint negated its
 right side

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..85f0e81 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -56,6 +56,7 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
         lc.retain(|_, v| *v != FGL::ZERO);
     };
 
+    // k * lc1 - lc2
     let join =
         |lc1: &BTreeMap<usize, FGL>, k: &FGL, lc2: &BTreeMap<usize, FGL>| -> BTreeMap<usize, FGL> {
             let mut res: BTreeMap<usize, FGL> = BTreeMap::new();
@@ -70,10 +71,10 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
 
             for (key, val) in lc2.iter() {
                 if !res.contains_key(key) {
-                    res.insert(*key, *val);
+                    res.insert(*key, val.neg());
                 } else {
                     let tmp = res[key];
-                    res.insert(*key, *val + tmp);
+                    res.insert(*key, tmp - *val);
                 }
             }
             normalize(&mut res);
-- 
2.43.0


From 27e8ef2a2dcadf9aa29d05621f3bdd41fe919add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 35/53] fix: the first custom gate was taken for every gate
 that the circuit does not have

---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..520351a 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -80,10 +80,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -100,24 +100,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -132,13 +132,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -384,7 +384,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -429,7 +429,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -590,7 +590,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From c98c28f3ec672ed67ead1e0d6781d4bd3e5ace1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 36/53] fix: the outputs of a circuit were counted twice among
 its public signals

---
 recursion/src/compressor12/plonk_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 520351a..a4b06fa 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -180,7 +180,8 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
+        // num_inputs counts the constant, the outputs and the public inputs
+        let n_publics = r1cs.num_inputs - 1;
         let n_public_rows = (n_publics - 1) / 12 + 1;
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
-- 
2.43.0


From 5ef92f3d001ba1a2d1a263c1cba00efe19ca3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 37/53] fix: circuits without public signals or without
 constraints underflowed

---
 recursion/src/compressor12/plonk_setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a4b06fa..046b818 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -67,7 +67,7 @@ impl NormalPlonkInfo {
         result.sort(); // sort by asc
 
         let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
+        N = (N + 1) / 2;
 
         Self {
             N,
@@ -182,7 +182,7 @@ impl PlonkSetupRenderInfo {
         // 4. calculate columns,rows,constraints info.
         // num_inputs counts the constant, the outputs and the public inputs
         let n_publics = r1cs.num_inputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        let n_public_rows = (n_publics + 11) / 12;
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -192,7 +192,7 @@ impl PlonkSetupRenderInfo {
                 + custom_gates_info.n_fft * 2
                 + custom_gates_info.n_ev_pol * 2) as usize;
 
-        let mut n_bits = helper::log2_any(n_used - 1) + 1;
+        let mut n_bits = helper::log2_any(n_used.max(1) - 1) + 1;
         if opts.force_bits > 0 {
             n_bits = opts.force_bits;
         }
@@ -219,7 +219,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = (n_publics + 11) / 12;
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From a32d424a8c62485ff4c4ee449bd18f37eb793c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 38/53] fix: the compressor reserved too few rows for gates of
 many kinds

---
 recursion/src/compressor12/plonk_setup.rs | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 046b818..1d6d02e 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,7 +53,11 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // The rows that plonk_setup_compressor starts: one for two gates of a kind, whose other half
+        // serves a kind that comes later.
+        let mut partial_rows: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
+        let mut N = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
@@ -61,13 +65,22 @@ impl NormalPlonkInfo {
             }
             let k = c.str_key();
 
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            if let Some(n_used) = partial_rows.get_mut(&k) {
+                *n_used += 1;
+                if *n_used == 2 {
+                    half_rows += 1;
+                    partial_rows.remove(&k);
+                } else if *n_used == 4 {
+                    partial_rows.remove(&k);
+                }
+            } else if half_rows > 0 {
+                half_rows -= 1;
+                partial_rows.insert(k, 3);
+            } else {
+                N += 1;
+                partial_rows.insert(k, 1);
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N + 1) / 2;
 
         Self {
             N,
-- 
2.43.0


From 622a89441276961bec98b2ae6f4c3a3cc4fd9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 39/53] fix: report a damaged exec file as an error

---
 .../src/compressor12/compressor12_exec.rs     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/recursion/src/compressor12/compressor12_exec.rs b/recursion/src/compressor12/compressor12_exec.rs
index 7644df8..c5e6ddb 100644
--- a/recursion/src/compressor12/compressor12_exec.rs
+++ b/recursion/src/compressor12/compressor12_exec.rs
@@ -56,6 +56,9 @@ pub fn exec(
         .collect::<Vec<_>>();
 
     for i in 0..adds_len {
+        if adds[i * 4].max(adds[i * 4 + 1]) >= w.len() as u64 {
+            return Err(anyhow!("addition {i} of signals that do not exist"));
+        }
         let w2 = FGL::from_raw_repr(<FGL as PrimeField>::Repr::from(adds[i * 4 + 2]))?;
         let w3 = FGL::from_raw_repr(<FGL as PrimeField>::Repr::from(adds[i * 4 + 3]))?;
 
@@ -67,6 +70,12 @@ pub fn exec(
     let a_np_index = cm_pols.get_pol_id(&pil_json, &Compressor.to_string(), &a.to_string(), 0);
     let N = cm_pols.array[a_np_index].len();
 
+    if s_map_column_len > N {
+        return Err(anyhow!("{s_map_column_len} rows of signals in {N} rows"));
+    }
+    if let Some(s) = s_map.iter().find(|s| **s >= w.len() as u64) {
+        return Err(anyhow!("no signal {s}"));
+    }
     for i in 0..s_map_column_len {
         for c in 0..12 {
             let s = s_map[i * 12 + c] as usize;
@@ -98,12 +107,19 @@ pub fn exec(
 fn read_exec_file<R: Read>(reader: R) -> Result<(usize, usize, Vec<u64>, Vec<u64>)> {
     let mut buff = read_vec_from_file(reader)?;
 
+    if buff.len() < 2 {
+        return Err(anyhow!("exec file without a header"));
+    }
     let mut new_buff = buff.split_off(2);
     let adds_len = buff[0] as usize;
     let s_map_column_len = buff[1] as usize;
 
-    let size = adds_len * 4 + s_map_column_len * 12;
-    assert_eq!(new_buff.len(), size);
+    let adds_size = adds_len.checked_mul(4);
+    let s_map_size = s_map_column_len.checked_mul(12);
+    let size = adds_size.zip(s_map_size).and_then(|(x, y)| x.checked_add(y));
+    if size != Some(new_buff.len()) {
+        return Err(anyhow!("exec file of {} words for {buff:?}", new_buff.len()));
+    }
 
     let s_map = new_buff.split_off(adds_len * 4);
     let adds = new_buff;
-- 
2.43.0


From e46ef85902613608af411490f3d466234b96c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 40/53] fix: the generated Goldilocks verifier with a single
 FRI step did not check the openings

---
 starky/src/stark_verifier_circom.rs | 58 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0f7573c..ddcde41 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1422,35 +1422,6 @@ template StarkVerifier() {{
             ));
         }
 
-        //// Checks
-        let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
-            "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
-        } else {
-            ""
-        };
-        let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
-            "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
-        } else {
-            ""
-        };
-        res.push_str(&format!(
-            r#"
-        for(var q = 0; q < {}; q ++) {{
-            for(var j = 0; j < 4; j ++) {{
-                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
-                {}
-                {}
-                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
-                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
-            }}
-            for (var e = 0; e < 3; e ++) {{
-                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
-            }}
-        }}
-        "#,
-            stark_struct.nQueries, enable2, enable3
-        ));
-
         res.push_str(&format!(
             r#"
         for (var e=0; e<3; e++) {{
@@ -1466,6 +1437,35 @@ template StarkVerifier() {{
         ));
     }
 
+    //// Checks
+    let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
+        "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
+    } else {
+        ""
+    };
+    let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
+        "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
+    } else {
+        ""
+    };
+    res.push_str(&format!(
+        r#"
+    for(var q = 0; q < {}; q ++) {{
+        for(var j = 0; j < 4; j ++) {{
+            enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
+            {}
+            {}
+            enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
+            enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
+        }}
+        for (var e = 0; e < 3; e ++) {{
+            enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
+        }}
+    }}
+        "#,
+        stark_struct.nQueries, enable2, enable3
+    ));
+
     ///////
     // Check Degree last pol
     ///////
-- 
2.43.0


From 3c1d832250dc3782b4bfae563b358153686134b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 41/53] fix: the Goldilocks verifier's wrappers did not connect
 the trees of stages 2 and 3

---
 starky/src/stark_verifier_circom.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index ddcde41..685eac6 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -802,6 +802,22 @@ template MapValues() {{
     res
 }
 
+// The trees of stage 2 and 3 are inputs of the verifier only where they have columns.
+fn optional_trees(verifier: &str, prefix: &str, starkinfo: &StarkInfo) -> String {
+    let mut res = String::from("");
+    for (t, section) in [(2, "cm2_2ns"), (3, "cm3_2ns")] {
+        if starkinfo.map_sectionsN.get(section) > 0 {
+            res.push_str(&format!(
+                r#"
+    {verifier}.s0_vals{t} <== {prefix}s0_vals{t};
+    {verifier}.s0_siblings{t} <== {prefix}s0_siblings{t};
+            "#
+            ));
+        }
+    }
+    res
+}
+
 #[time_profiler()]
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
@@ -1630,17 +1646,16 @@ template Main() {{
     vA.root4 <== root4;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&optional_trees("vA", "", starkinfo));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -1791,17 +1806,16 @@ template Main() {{
     vA.rootC <== rootC;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&optional_trees("vA", "", starkinfo));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -2030,11 +2044,9 @@ template Main() {{
     vA.rootC <== a_rootC;
     vA.evals <== a_evals;
     vA.s0_vals1 <== a_s0_vals1;
-    vA.s0_vals3 <== a_s0_vals3;
     vA.s0_vals4 <== a_s0_vals4;
     vA.s0_valsC <== a_s0_valsC;
     vA.s0_siblings1 <== a_s0_siblings1;
-    vA.s0_siblings3 <== a_s0_siblings3;
     vA.s0_siblings4 <== a_s0_siblings4;
     vA.s0_siblingsC <== a_s0_siblingsC;
 
@@ -2042,6 +2054,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&optional_trees("vA", "a_", starkinfo));
         // component isOneBatchA = IsZero();
         // isOneBatchA.in  <== a_publics[43] - a_publics[16] - 1; a_publics[43]-> newBatchNum;  a_publics[16]-> oldBatchNum
         // TODO: "vA.rootC <== rootCSingle;" this need to change!!!
@@ -2070,11 +2083,9 @@ template Main() {{
     vB.rootC <== b_rootC;
     vB.evals <== b_evals;
     vB.s0_vals1 <== b_s0_vals1;
-    vB.s0_vals3 <== b_s0_vals3;
     vB.s0_vals4 <== b_s0_vals4;
     vB.s0_valsC <== b_s0_valsC;
     vB.s0_siblings1 <== b_s0_siblings1;
-    vB.s0_siblings3 <== b_s0_siblings3;
     vB.s0_siblings4 <== b_s0_siblings4;
     vB.s0_siblingsC <== b_s0_siblingsC;
 
@@ -2082,6 +2093,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&optional_trees("vB", "b_", starkinfo));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
-- 
2.43.0


From 520cfcb71df9f4c230486d663032153132012e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 42/53] fix: the generated curve verifiers were not circom
 where values of the base field meet

---
 starky/src/stark_verifier_circom_onchain.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index b712e30..d89c422 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -216,7 +216,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {}[0] + {}[0];"#,
+    signal {} <== {} + {};"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -306,7 +306,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} = GLCMul1()({}, {});"#,
+    signal {} <== GLMul()({}, {});"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -372,11 +372,14 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                     } else {
                         str_code.push_str(&format!(
                             r#"
-    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]);"#,
+    signal {}_0 <== GLMulAdd()({}, {}, {}[0]);
+    signal {}[3] <== [{}_0, {}[1], {}[2]];"#,
                             ref_(&inst.dest),
                             ref_(&inst.src[0]),
                             ref_(&inst.src[1]),
                             ref_(&inst.src[2]),
+                            ref_(&inst.dest),
+                            ref_(&inst.dest),
                             ref_(&inst.src[2]),
                             ref_(&inst.src[2])
                         ));
-- 
2.43.0


From 6e36a1594dde673df86b6820c07941a3bc931799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 43/53] fix: the generated curve verifiers could not fold down
 to a layer of two values

---
 starky/src/stark_verifier_circom_onchain.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index d89c422..aa5cb5a 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1402,7 +1402,7 @@ template StarkVerifier() {{
             stark_struct.steps[s - 1].nBits
         ));
 
-        if stark_struct.steps[0].nBits > 1 {
+        if stark_struct.steps[s].nBits > 1 {
             res.push_str(&format!(
                 r#"
         s{}_X[q] <== s{}_sx[q][{}].out;
@@ -1414,14 +1414,13 @@ template StarkVerifier() {{
         } else {
             res.push_str(&format!(
                 r#"
-        s{}_X[q] <== {} *  ( ys[q][0] * {} +1);
+        s{}_X[q] <== ys[q][0] * ({} - {}) + {};
         "#,
                 s,
-                (F3G::from(*SHIFT)
-                    .exp(1 << (stark_struct.nBitsExt - stark_struct.steps[s - 1].nBits)))
-                .inv(),
-                F3G::from(MG.0[stark_struct.steps[s - 1].nBits]) - F3G::ONE
-            ));
+                e1.as_int(),
+                e0.as_int(),
+                e0.as_int()
+            ))
         }
 
         /*
-- 
2.43.0


From 6b5fdc75b82b1f99c650713f724848b77e5c2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 44/53] fix: the generated curve verifiers took values of more
 than 64 bits for elements of the base field

---
 starky/src/stark_verifier_circom_onchain.rs | 62 +++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index aa5cb5a..9dce4f2 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -811,6 +811,50 @@ template MapValues() {{
     res
 }
 
+// An element of the base field enters the circuit as a number of the curve's field: without a
+// bound on its size, several of them fit the same leaf of a tree.
+fn range_template() -> &'static str {
+    r#"
+template Range64(n) {
+    signal input in[n];
+    component bits[n];
+    for (var i=0; i<n; i++) {
+        bits[i] = Num2Bits(64);
+        bits[i].in <== in[i];
+    }
+}
+"#
+}
+
+fn range_check(signal: &str, sizes: &[usize]) -> String {
+    let total: usize = sizes.iter().product();
+    if total == 0 {
+        return String::from("");
+    }
+    let vars = ["i", "j"];
+    let mut res = format!(
+        r#"
+    component {signal}_range = Range64({total});"#
+    );
+    let mut index = String::from("");
+    let mut position = String::from("0");
+    for (v, n) in vars.iter().zip(sizes) {
+        res.push_str(&format!(
+            r#"
+    for (var {v}=0; {v}<{n}; {v}++) {{"#
+        ));
+        index.push_str(&format!("[{v}]"));
+        position = format!("({position})*{n}+{v}");
+    }
+    res.push_str(&format!(
+        r#"
+        {signal}_range.in[{position}] <== {signal}{index};
+    {}"#,
+        "}".repeat(sizes.len())
+    ));
+    res
+}
+
 #[time_profiler()]
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
@@ -971,6 +1015,23 @@ template StarkVerifier() {{
         );
     }
 
+    let n_queries = stark_struct.nQueries;
+    res.push_str(&range_check("publics", &[pil.publics.len()]));
+    res.push_str(&range_check("evals", &[starkinfo.ev_map.len(), 3]));
+    for (t, section) in ["cm1_2ns", "cm2_2ns", "cm3_2ns", "cm4_2ns"].iter().enumerate() {
+        res.push_str(&range_check(
+            &format!("s0_vals{}", t + 1),
+            &[n_queries, starkinfo.map_sectionsN.get(section)],
+        ));
+    }
+    res.push_str(&range_check("s0_valsC", &[n_queries, starkinfo.n_constants]));
+    for s in 1..stark_struct.steps.len() {
+        let folded = 1 << (stark_struct.steps[s - 1].nBits - stark_struct.steps[s].nBits);
+        res.push_str(&range_check(&format!("s{s}_vals"), &[n_queries, folded * 3]));
+    }
+    let last = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
+    res.push_str(&range_check("finalPol", &[1 << last, 3]));
+
     res.push_str(
         r#"
     signal challenges[8][3];
@@ -1838,6 +1899,7 @@ pub fn render<F: ff::PrimeField + Default>(
     options: &StarkOption,
 ) -> String {
     let mut res = header();
+    res.push_str(range_template());
     res.push_str(&verify_evaluations(starkinfo, prorgam, pil, stark_struct));
     res.push_str(&verify_query(starkinfo, prorgam, stark_struct));
     res.push_str(&map_values(starkinfo));
-- 
2.43.0


From e016eac9b569f63682c67d2a41835d8a4a049a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 45/53] fix: the prover could choose among several
 decompositions of a challenge

---
 stark-circuits/circuits/bn1togl3.circom     | 27 ++++++++++++++++++++-
 starky/src/stark_verifier_circom_onchain.rs |  2 +-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/stark-circuits/circuits/bn1togl3.circom b/stark-circuits/circuits/bn1togl3.circom
index e3d1980..25d27b1 100644
--- a/stark-circuits/circuits/bn1togl3.circom
+++ b/stark-circuits/circuits/bn1togl3.circom
@@ -3,11 +3,36 @@ pragma circom 2.0.6;
 
 include "bitify.circom";
 
+// The bits of the input as a number below the modulus, of n bits: where 2**n is larger than the
+// modulus the input has other decompositions too.
+template Num2BitsCanonical(n) {
+    signal input in;
+    signal output out[n];
+
+    component n2b = Num2Bits(n);
+    n2b.in <== in;
+
+    // the largest element; same[i] tells that the bits from i on are the same as its bits
+    var max = -1;
+    signal same[n+1];
+    same[n] <== 1;
+    for (var i=0; i<n; i++) {
+        var b = n-1-i;
+        out[b] <== n2b.out[b];
+        if ((max >> b) & 1) {
+            same[b] <== same[b+1] * out[b];
+        } else {
+            same[b+1] * out[b] === 0;
+            same[b] <== same[b+1];
+        }
+    }
+}
+
 template BN1toGL3() {
     signal input in;
     signal output out[3];
 
-    component n2b = Num2Bits(255);
+    component n2b = Num2BitsCanonical(255);
 
     n2b.in <== in;
 
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index 9dce4f2..0127fae 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -152,7 +152,7 @@ impl Transcript {
         let mut n2b: Vec<String> = vec![];
         let n2bt = match self.stark_struct.verificationHashType.as_str() {
             "BN128" => "Num2Bits_strict()".to_string(),
-            "BLS12381" => "Num2Bits(255)".to_string(),
+            "BLS12381" => "Num2BitsCanonical(255)".to_string(),
             _ => todo!(),
         };
         for i in 0..NFields {
-- 
2.43.0


From 3f1a02fcd3d95705b8b192d3cd65c320b5e182a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 46/53] fix: the vector fields negated zero to the modulus

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 4 ++--
 fields/src/arch/x86_64/avx512_field_gl.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..39ee8f5 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -351,8 +351,8 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
-    let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    // not FIELD_ORDER - y: the negation of zero is zero
+    sub(_mm256_setzero_si256(), y)
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..8fa897e 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,8 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    // not FIELD_ORDER - y: the negation of zero is zero
+    sub(_mm512_setzero_si512(), y)
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0


From 98e02de824a91630be4d112b5d9f527c90bb1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 47/53] fix: the final verifier took points outside the
 prime-order groups

---
 groth16/src/json_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/groth16/src/json_utils.rs b/groth16/src/json_utils.rs
index 60d1538..f089c7a 100644
--- a/groth16/src/json_utils.rs
+++ b/groth16/src/json_utils.rs
@@ -272,13 +272,17 @@ impl Parser for Bls12 {
     }
 
     fn to_g1(x: &str, y: &str) -> Self::G1Affine {
-        G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false)
+        let p = G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false);
+        assert!(bool::from(p.is_on_curve() & p.is_torsion_free()), "Invalid G1 point");
+        p
     }
 
     fn to_g2(x0: &str, x1: &str, y0: &str, y1: &str) -> Self::G2Affine {
         let x = Fp2::new(render_str_to_fp(x0), render_str_to_fp(x1));
         let y = Fp2::new(render_str_to_fp(y0), render_str_to_fp(y1));
-        G2Affine::from_raw_unchecked(x, y, false)
+        let p = G2Affine::from_raw_unchecked(x, y, false);
+        assert!(bool::from(p.is_on_curve() & p.is_torsion_free()), "Invalid G2 point");
+        p
     }
 }
 
-- 
2.43.0


From 0fdb7f8d9728a0fcf7ee5c4df96627d59b666d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 48/53] fix: stark_prove had two options named -s

-s is the STARK structure in every script and README; --skip_main keeps its
long name only. A debug build of the tool refused the command altogether.
---
 zkit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkit/src/main.rs b/zkit/src/main.rs
index e6854be..2a05ef2 100644
--- a/zkit/src/main.rs
+++ b/zkit/src/main.rs
@@ -103,7 +103,7 @@ struct StarkProveOpt {
     piljson: String,
     #[arg(short, long = "norm_stage", action= clap::ArgAction::SetTrue)]
     norm_stage: bool,
-    #[arg(short, long = "skip_main", action= clap::ArgAction::SetTrue)]
+    #[arg(long = "skip_main", action= clap::ArgAction::SetTrue)]
     skip_main: bool,
     #[arg(short, long = "agg_stage", action= clap::ArgAction::SetTrue)]
     agg_stage: bool,
-- 
2.43.0


From 5c4400c82831ec2ffd9ac69fe6e116f21a6b5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 49/53] fix: a failing code generation stage was logged and
 passed over

The compile command went on with whatever text an earlier run had left and
could report success for it.
---
 dsl_compile/src/compilation_user.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsl_compile/src/compilation_user.rs b/dsl_compile/src/compilation_user.rs
index dbe1abb..f94c092 100644
--- a/dsl_compile/src/compilation_user.rs
+++ b/dsl_compile/src/compilation_user.rs
@@ -48,7 +48,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
         ) {
             Ok(()) => (),
 
-            _ => log::error!("compiler_interface::write_c"),
+            _ => bail!(DslError::CircomCompileError(
+                "compiler_interface::write_c error".to_string(),
+            )),
         };
         log::trace!(
             "{} {} and {}",
@@ -81,7 +83,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::run_compiler"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
             return wat_to_wasm(&config.wat_file, &config.wasm_file);
@@ -95,7 +99,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             let result = wat_to_wasm(&config.wat_file, &config.wasm_file);
             std::fs::remove_file(&config.wat_file).unwrap();
@@ -109,7 +115,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
                 &config.wat_file,
             ) {
                 Ok(()) => (),
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
         }
-- 
2.43.0


From 5cb193d135199406244c5038c0b8998ca5874a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:26 +0000
Subject: [PATCH 50/53] fix: the verifiers of sub machines took the main
 machine's size

---
 zkvm/src/lib.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/zkvm/src/lib.rs b/zkvm/src/lib.rs
index c07db3c..0358ca0 100644
--- a/zkvm/src/lib.rs
+++ b/zkvm/src/lib.rs
@@ -112,18 +112,8 @@ fn generate_verifier<F: FieldElement>(
             machine_proof.size
         );
 
-        // FIXME: get the sub machine PIL
-        //let pil = pipeline.optimized_pil().unwrap();
-        //let degree = pil.degree();
-        let fixed_cols = pipeline.fixed_cols().unwrap();
-        let degree = get_uniquely_sized(&fixed_cols)
-            .unwrap()
-            .iter()
-            .find(|(col, _)| col == "main.STEP")
-            .unwrap()
-            .1
-            .len() as u64;
-
+        // the machines are of different sizes
+        let degree: DegreeType = machine_proof.size;
         assert!(degree > 1);
         let n_bits = (DegreeType::BITS - (degree - 1).leading_zeros()) as usize;
         let n_bits_ext = n_bits + 1;
-- 
2.43.0


From c591b2e35da6b6e4e50bc07617699f71d35c6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:43 +0000
Subject: [PATCH 51/53] fix: names in namespaces were exported with a stray
 colon

---
 recursion/src/pilcom/export.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recursion/src/pilcom/export.rs b/recursion/src/pilcom/export.rs
index 15b2305..9001eea 100644
--- a/recursion/src/pilcom/export.rs
+++ b/recursion/src/pilcom/export.rs
@@ -188,7 +188,7 @@ fn fixup_name(name: &str) -> String {
     if name.contains('.') {
         name.to_string()
     } else if let Some(last) = name.rfind("::") {
-        format!("{}.{}", &name[..last], &name[last + 1..])
+        format!("{}.{}", &name[..last], &name[last + 2..])
     } else {
         panic!("Witness or intermediate column is not inside a namespace: {name}");
     }
-- 
2.43.0


From 84eff473b8992a52255544da972a95b944b2717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:43 +0000
Subject: [PATCH 52/53] fix: the result of verifying the wrapped proof was
 dropped

---
 recursion-gnark/ffi/go/eigen/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recursion-gnark/ffi/go/eigen/build.go b/recursion-gnark/ffi/go/eigen/build.go
index 33a94f7..6d84b01 100644
--- a/recursion-gnark/ffi/go/eigen/build.go
+++ b/recursion-gnark/ffi/go/eigen/build.go
@@ -58,7 +58,7 @@ func BuildGroth16(vk_path string, outputDir string, verifyCmdProof string, publi
 	}
 
 	// Verify the proof outside a recursive circuit
-	groth16_bn254.Verify(proofBN254, vkBN254, publicInputs)
+	err = groth16_bn254.Verify(proofBN254, vkBN254, publicInputs)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From c4073c25fa45c52dd7d9817d34779bf746979a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:43 +0000
Subject: [PATCH 53/53] fix: a failing read of the verifying key was passed
 over

---
 recursion-gnark/ffi/go/eigen/build.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recursion-gnark/ffi/go/eigen/build.go b/recursion-gnark/ffi/go/eigen/build.go
index 6d84b01..94ab40e 100644
--- a/recursion-gnark/ffi/go/eigen/build.go
+++ b/recursion-gnark/ffi/go/eigen/build.go
@@ -41,7 +41,9 @@ func BuildGroth16(vk_path string, outputDir string, verifyCmdProof string, publi
 		panic(err)
 	}
 	vk := groth16.NewVerifyingKey(ecc.BN254)
-	vk.ReadFrom(vkFile)
+	if _, err := vk.ReadFrom(vkFile); err != nil {
+		panic(err)
+	}
 	vkBN254, ok := vk.(*groth16_bn254.VerifyingKey)
 	if !ok {
 		panic("failed to convert vk")
-- 
2.43.0

