From f84f2887f4739992c25ba9c707af6b54770e4ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:53 +0000
Subject: [PATCH 01/19] fix: merge carried subtrees when adding a leaf to the
 Merkle accumulator

Merging more than one level hashed the new leaf again instead of the node
built so far, so unlock conditions with two or more keys got a wrong address.
---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From ff5877b89a75f4e924377269f8020bd2f9d3bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 02/19] fix: hash every sector segment into the sector root

The i-th group of four leaves started at segment i instead of segment 4*i, so
most of the sector did not contribute to its root.
---
 sia/src/rhp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..787024b 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,9 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                input[1..].copy_from_slice(
+                    &sector[SEGMENT_SIZE * (4 * i + j)..SEGMENT_SIZE * (4 * i + j + 1)],
+                );
             }
 
             // hash them
-- 
2.43.0


From 3ec2d448165fea7485213f33c9e45c7425053e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:58 +0000
Subject: [PATCH 03/19] fix: do not reserve memory for an untrusted list length

Decoding a list or string with a huge length prefix panicked (capacity
overflow) or aborted (out of memory) before reading any element.
---
 sia/src/encoding/v1.rs | 2 +-
 sia/src/encoding/v2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..aacb677 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,7 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new(); // the length is untrusted, do not reserve
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..69433ec 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,7 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new(); // the length is untrusted, do not reserve
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From 0dbf07b00ec06d99117700dba2a503271cc0c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:01 +0000
Subject: [PATCH 04/19] fix: reject out-of-range timestamps instead of
 panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 69433ec..1c112e2 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 91e55b3e22c065771d60078713d20e245e6820b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 05/19] fix: wrap the child height of the pre-genesis index to
 zero

The index before the genesis block has the maximum height; its child height
overflowed, panicking in debug builds when such a state was coded.
---
 sia/src/types/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..2797666 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,7 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From fc6dd834eaf02c4bf4026fb0a443a6147b488313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:05 +0000
Subject: [PATCH 06/19] fix: report write errors when encoding state timestamps

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..f195f38 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -383,7 +383,7 @@ impl SiaEncodable for State {
         self.prev_timestamps
             .iter()
             .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+            .try_for_each(|ts| ts.encode(w))?;
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From 4e7639eed67319fef725f09ce023c4f7d90da38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 07/19] fix: reject integers that do not fit the decoded type

Narrow integers were silently truncated when decoded.
---
 sia/src/encoding/v1.rs | 7 ++++++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index aacb677..63b77cc 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,12 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    let v = n as Self;
+                    if v as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 1c112e2..b257398 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,12 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    let v = n as Self;
+                    if v as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v)
                 }
             }
         )*
-- 
2.43.0


From e000985d762ef4ce84566f43dda2fff79f0079d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:10 +0000
Subject: [PATCH 08/19] fix: use the full distinguishers for v2 contract output
 and renewal IDs

Every other v2 identifier is hashed under a sia/...| distinguisher.
---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 2797666..5777500 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 06e8bb8a3ad4d61ac79e8af1bd01eae8648b86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:13 +0000
Subject: [PATCH 09/19] fix: hash v2 transaction IDs under their distinguisher

Without it a v1 and a v2 transaction could have the same ID.
---
 sia/src/types/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sia/src/types/v2.rs b/sia/src/types/v2.rs
index 4405adb..a6bf436 100644
--- a/sia/src/types/v2.rs
+++ b/sia/src/types/v2.rs
@@ -513,6 +513,7 @@ impl Transaction {
 
     pub fn id(&self) -> TransactionID {
         let mut state = Params::new().hash_length(32).to_state();
+        state.update("sia/id/transaction|".as_bytes());
         self.encode_semantics(&mut state).unwrap();
         state.finalize().into()
     }
-- 
2.43.0


From a29303cc78f3bb452172aff4118828ee11c1eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 10/19] fix: fail verification under an invalid public key
 instead of panicking

---
 sia/src/signing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..ee959f0 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let Ok(pk) = VerifyingKey::from_bytes(&self.0) else {
+            return false; // not a valid public key
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From 8a715b416c78a0a3a17565d44ddd22b0be618fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 11/19] fix: print specifiers that are not valid UTF-8

Display returned an error, which makes to_string (and so the serialization of
unlock keys) panic.
---
 sia/src/types/specifier.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..b79d990 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,7 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
-- 
2.43.0


From e3c7dbb020b4dc94aa2bb49fa451884d2ad963a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:26 +0000
Subject: [PATCH 12/19] fix: report unrepresentable currency strings as errors

Too many decimal places or an amount above 2^128-1 panicked in debug builds and
returned a wrapped amount in release builds.
---
 sia/src/types/currency.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..5d45157 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -199,12 +199,23 @@ impl Currency {
             0
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
+        let precision = (SIACOIN_PRECISION_I32 + scaling_factor) as usize;
+        let frac_digits = parts.get(1).map_or(0, |frac| frac.len());
+        if frac_digits > precision {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many decimal places".to_string(),
+            ));
+        }
+        let integer = integer_part.checked_mul(10u128.pow(precision as u32));
+        let fraction = fraction_part.checked_mul(10u128.pow((precision - frac_digits) as u32));
+        let value = match (integer, fraction) {
+            (Some(integer), Some(fraction)) => integer.checked_add(fraction),
+            _ => None,
+        };
 
-        Ok(Currency::new(integer + fraction))
+        value
+            .map(Currency::new)
+            .ok_or_else(|| CurrencyParseError::InvalidFormat("value too large".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From a0528cf1c2e820a5517b887a930e4e48d2c1f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:28 +0000
Subject: [PATCH 13/19] fix: do not wrap currency arithmetic in release builds

The operators silently wrapped without overflow checks; they now always panic.
The block reward of very high blocks no longer overflows.
---
 sia/src/consensus.rs      |  7 +++----
 sia/src/types/currency.rs | 11 +++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index f195f38..2ab7d10 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -450,10 +450,9 @@ impl ChainState {
 
     /// block_reward returns the reward for mining a child block
     pub fn block_reward(&self) -> Currency {
-        let reward = self
-            .network
-            .initial_coinbase
-            .checked_sub(Currency::siacoins(self.child_height()));
+        let reward = Currency::siacoins(1)
+            .checked_mul(Currency::new(self.child_height() as u128))
+            .and_then(|decrease| self.network.initial_coinbase.checked_sub(decrease));
 
         match reward {
             Some(reward) if reward >= self.network.minimum_coinbase => reward,
diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index 5d45157..2abd862 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -232,7 +232,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match 10u128.pow(SIACOIN_PRECISION_U32).checked_mul(n as u128) {
+            Some(value) => Currency::new(value),
+            None => panic!("currency overflow"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -260,7 +263,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        Self(self.0.checked_add(other.0).expect("currency overflow"))
     }
 }
 
@@ -268,7 +271,7 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        Self(self.0.checked_sub(other.0).expect("currency underflow"))
     }
 }
 
@@ -276,7 +279,7 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        Self(self.0.checked_mul(other.0).expect("currency overflow"))
     }
 }
 
-- 
2.43.0


From ee8c2a682237ef5e393ea34bdcb811269547d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 14/19] fix: pay the whole foundation subsidy to the current
 foundation address

The subsidy is 30 KS for every block of the month (a year for the first one),
but a single block's share was paid, and always to the hardfork's address even
if the primary address recorded in the state has changed.
---
 sia/src/consensus.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 2ab7d10..c3e73c8 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -493,14 +493,14 @@ impl ChainState {
             return None;
         }
 
-        let subsidy_per_block = Currency::siacoins(30000);
+        let monthly_subsidy = Currency::siacoins(30000) * Currency::new(blocks_per_month as u128);
         Some(SiacoinOutput {
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                monthly_subsidy * Currency::new(12)
             } else {
-                subsidy_per_block
+                monthly_subsidy
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 09f98a82901de77bc762bf7fa996405cf356a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 15/19] fix: do not truncate the sub-policy count of a
 threshold policy

The count is a single byte; a threshold with more than 255 sub-policies was
encoded with its count modulo 256.
---
 sia/src/types/spendpolicy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..48b0d30 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -327,7 +327,9 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    u8::try_from(policies.len())
+                        .map_err(|_| encoding::Error::InvalidLength)?
+                        .encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w)?;
                     }
-- 
2.43.0


From a88cee36a9c3a3ac28489e53cfee74ffb890376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:36 +0000
Subject: [PATCH 16/19] fix: bound the complexity of decoded spend policies

Deeply nested thresholds overflowed the stack when decoded. Use the limit of the
reference implementation.
---
 sia/src/types/spendpolicy.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 48b0d30..35bbcb6 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,9 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+// the maximum number of policies, including sub-policies, in a decoded policy
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -348,7 +351,10 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -365,9 +371,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total += n as usize;
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy is too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -385,7 +395,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From 6730f6cb66f78d7d723944b4b1097deb1cb7d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:40 +0000
Subject: [PATCH 17/19] fix: make binary serde forms of identifiers and unlock
 keys symmetric

For binary serializers one direction used the text form and the other did not.
---
 sia/src/macros.rs   | 3 +++
 sia/src/types/v1.rs | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sia/src/macros.rs b/sia/src/macros.rs
index 0f86d3e..0cec621 100644
--- a/sia/src/macros.rs
+++ b/sia/src/macros.rs
@@ -29,6 +29,9 @@ macro_rules! impl_hash_id {
             where
                 D: serde::Deserializer<'de>,
             {
+                if !deserializer.is_human_readable() {
+                    return <[u8; 32]>::deserialize(deserializer).map($name);
+                }
                 let s = String::deserialize(deserializer)?;
                 $name::parse_string(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
             }
diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..1c61f75 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,7 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        String::serialize(&self.to_string(), serializer)
+        if serializer.is_human_readable() {
+            String::serialize(&self.to_string(), serializer)
+        } else {
+            (&self.algorithm, &self.key).serialize(serializer)
+        }
     }
 }
 
-- 
2.43.0


From e03a39985870268ff24fbf9aecf83e97a9336436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 18/19] Add a verif feature for the verification harnesses

---
 sia/Cargo.toml               | 4 ++++
 sia/src/rhp.rs               | 3 +++
 sia/src/types/spendpolicy.rs | 1 +
 3 files changed, 8 insertions(+)

diff --git a/sia/Cargo.toml b/sia/Cargo.toml
index 55d8fa2..79d4f87 100644
--- a/sia/Cargo.toml
+++ b/sia/Cargo.toml
@@ -13,6 +13,10 @@ keywords = ["sia", "decentralized", "blockchain", "depin", "storage"]
 name = "sia"
 path = "src/lib.rs"
 
+[features]
+# used by the verification harnesses only: concrete enum tags and a small sector
+verif = []
+
 [dependencies]
 base64 = "0.22.1"
 bip39 = "2.1.0"
diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index 787024b..684b2b1 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -5,7 +5,10 @@ use blake2b_simd::Params;
 use rayon::prelude::*;
 
 pub const SEGMENT_SIZE: usize = 64;
+#[cfg(not(feature = "verif"))]
 pub const SECTOR_SIZE: usize = 1 << 22;
+#[cfg(feature = "verif")]
+pub const SECTOR_SIZE: usize = 1 << 10;
 
 /// Calculates the Merkle root of a sector
 pub fn sector_root(sector: &[u8]) -> Hash256 {
diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 35bbcb6..5b24707 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -58,6 +58,7 @@ pub enum ValidationError {
 /// A spend policy is a condition or set of conditions that must be met in
 /// order to spend a UTXO.
 #[derive(Debug, PartialEq, Clone)]
+#[cfg_attr(feature = "verif", repr(u8))]
 pub enum SpendPolicy {
     /// A policy that is only valid after a block height
     Above(u64),
-- 
2.43.0


From 46892cc16ff3fce208db7140f519da8cf13b127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:38 +0000
Subject: [PATCH 19/19] Use a smaller sector under the verif feature

---
 sia/src/rhp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index 684b2b1..dacc8cf 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -8,7 +8,7 @@ pub const SEGMENT_SIZE: usize = 64;
 #[cfg(not(feature = "verif"))]
 pub const SECTOR_SIZE: usize = 1 << 22;
 #[cfg(feature = "verif")]
-pub const SECTOR_SIZE: usize = 1 << 10;
+pub const SECTOR_SIZE: usize = 1 << 9;
 
 /// Calculates the Merkle root of a sector
 pub fn sector_root(sector: &[u8]) -> Hash256 {
-- 
2.43.0

