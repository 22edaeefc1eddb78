From 192a2b73956a912b0c2a1b6436086309809a6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 01/96] fix: compute predicate deltas in i64 so that far-apart
 i32 values do not overflow

---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 24 +++++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..5f80d3e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..6287765 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -939,21 +939,27 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    // The difference of two `i32`s does not always fit in an `i32`
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        let attr_value = i64::from(attr_value);
+        let value = i64::from(self.value);
+
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
+        let value = i64::from(self.value);
+
         match self.p_type {
-            PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
-            PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::GE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(value + 1).to_string()),
+            PredicateType::LE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(value - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 8889c5f521fc4d17d85109a8ba7d07131a3a587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 02/96] fix: reject malformed or off-curve group elements when
 parsing instead of panicking

---
 libursa/src/pair/amcl.rs | 71 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..cc372ab 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -8,6 +8,7 @@ use amcl::bn254::rom::{
 
 use amcl::bn254::ecp::ECP;
 use amcl::bn254::ecp2::ECP2;
+use amcl::bn254::fp::FEXCESS;
 use amcl::bn254::fp12::FP12;
 use amcl::bn254::fp2::FP2;
 use amcl::bn254::pair::{ate, ate2, fexp, g1mul, g2mul, gtpow};
@@ -76,6 +77,46 @@ fn _random_mod_order() -> UrsaCryptoResult<BIG> {
     Ok(BIG::randomnum(&BIG::new_ints(&CURVE_ORDER), &mut rng))
 }
 
+// Largest number of hex digits that fit in a `BIG` used as a field element
+const MAX_FIELD_HEX_LEN: usize = MODBYTES * 2 + 6;
+
+// `BIG::from_hex` panics on anything that is not a hex number
+fn check_hex(str: &str, max_len: usize) -> UrsaCryptoResult<()> {
+    if str.is_empty() || str.len() > max_len || !str.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid hex representation of group element",
+        ));
+    }
+    Ok(())
+}
+
+// The string representation of an element of a pairing group is a fixed number of field elements,
+// each written as its excess and its hex value. AMCL panics if it is given anything else.
+fn check_field_elements(str: &str, count: usize) -> UrsaCryptoResult<()> {
+    let tokens = str.split_whitespace().collect::<Vec<&str>>();
+
+    if tokens.len() != count * 2 {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid string representation of group element",
+        ));
+    }
+
+    for pair in tokens.chunks(2) {
+        match pair[0].parse::<i32>() {
+            Ok(xes) if xes >= 1 && xes <= FEXCESS => check_hex(pair[1], MAX_FIELD_HEX_LEN)?,
+            _ => {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    "Invalid string representation of group element",
+                ))
+            }
+        }
+    }
+    Ok(())
+}
+
 #[derive(Copy, Clone, PartialEq)]
 pub struct PointG1 {
     point: ECP,
@@ -145,9 +186,17 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
-        Ok(PointG1 {
-            point: ECP::from_hex(str.to_string()),
-        })
+        check_field_elements(str, 3)?;
+        let point = ECP::from_hex(str.to_string());
+
+        if !point.is_infinity() && ECP::new_bigs(&point.getx(), &point.gety()).is_infinity() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "PointG1 is not on the curve",
+            ));
+        }
+
+        Ok(PointG1 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -298,9 +347,17 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
-        Ok(PointG2 {
-            point: ECP2::from_hex(str.to_string()),
-        })
+        check_field_elements(str, 6)?;
+        let point = ECP2::from_hex(str.to_string());
+
+        if !point.is_infinity() && ECP2::new_fp2s(&point.getx(), &point.gety()).is_infinity() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "PointG2 is not on the curve",
+            ));
+        }
+
+        Ok(PointG2 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -468,6 +525,7 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
+        check_hex(str, MODBYTES * 2)?;
         Ok(GroupOrderElement {
             bn: BIG::from_hex(str.to_string()),
         })
@@ -604,6 +662,7 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        check_field_elements(str, 12)?;
         Ok(Pair {
             pair: FP12::from_hex(str.to_string()),
         })
-- 
2.43.0


From fc20ffa528148747246a3804cb6f3371ee97a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 03/96] fix: report a missing cap in a blinded secrets
 correctness proof instead of panicking

---
 libursa/src/cl/issuer.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..08353cc 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1045,7 +1045,8 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap =
+                    Issuer::_get_cap(&blinded_cred_secrets_correctness_proof.m_caps, attr)?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1056,8 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = Issuer::_get_cap(&blinded_cred_secrets_correctness_proof.m_caps, key)?;
+            let r_cap = Issuer::_get_cap(&blinded_cred_secrets_correctness_proof.r_caps, key)?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1070,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        &r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
@@ -1100,6 +1102,21 @@ impl Issuer {
         Ok(())
     }
 
+    fn _get_cap<'a>(
+        caps: &'a BTreeMap<String, BigNumber>,
+        attr: &str,
+    ) -> UrsaCryptoResult<&'a BigNumber> {
+        caps.get(attr).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!(
+                    "Value by key '{}' not found in blinded_credential_secrets_correctness_proof",
+                    attr
+                ),
+            )
+        })
+    }
+
     // In the anoncreds whitepaper, `credential context` is denoted by `m2`
     fn _gen_credential_context(
         prover_id: &str,
-- 
2.43.0


From 9a9f5a58763ff474be7713376652cb988494e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 04/96] fix: refuse to sign when the prover blinds an attribute
 the issuer provides a value for

---
 libursa/src/cl/issuer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 08353cc..0681878 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -278,6 +278,7 @@ impl Issuer {
             credential_nonce,
             &credential_pub_key.p_key,
         )?;
+        Issuer::_check_hidden_attributes(blinded_credential_secrets, credential_values)?;
 
         // In the anoncreds whitepaper, `credential context` is denoted by `m2`
         let cred_context = Issuer::_gen_credential_context(prover_id, None)?;
@@ -415,6 +416,7 @@ impl Issuer {
             credential_nonce,
             &credential_pub_key.p_key,
         )?;
+        Issuer::_check_hidden_attributes(blinded_credential_secrets, credential_values)?;
 
         // In the anoncreds whitepaper, `credential context` is denoted by `m2`
         let cred_context = Issuer::_gen_credential_context(prover_id, Some(rev_idx))?;
@@ -1102,6 +1104,23 @@ impl Issuer {
         Ok(())
     }
 
+    // The prover blinds only what the issuer doesn't know: otherwise the prover could shift an attribute
+    // the issuer vouches for by blinding a value for the same attribute.
+    fn _check_hidden_attributes(
+        blinded_cred_secrets: &BlindedCredentialSecrets,
+        cred_values: &CredentialValues,
+    ) -> UrsaCryptoResult<()> {
+        for (attr, value) in &cred_values.attrs_values {
+            if value.is_known() && blinded_cred_secrets.hidden_attributes.contains(attr) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Attribute '{}' known to issuer must not be blinded", attr),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     fn _get_cap<'a>(
         caps: &'a BTreeMap<String, BigNumber>,
         attr: &str,
-- 
2.43.0


From 24c45dcc65119c1107f49a288f54f0a6dcfb6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 05/96] fix: keep the revocation registry unchanged when an
 operation fails, and reject indices outside it

---
 libursa/src/cl/issuer.rs | 55 ++++++++++++++++++++++++++--------------
 libursa/src/cl/mod.rs    | 42 +++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 0681878..658e44b 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -150,6 +150,8 @@ impl Issuer {
                 )
             })?;
 
+        check_max_cred_num(max_cred_num)?;
+
         let (rev_key_pub, rev_key_priv) =
             Issuer::_new_revocation_registry_keys(cred_rev_pub_key, max_cred_num)?;
 
@@ -455,6 +457,11 @@ impl Issuer {
             credential_issuance_nonce,
         )?;
 
+        // the registry is changed only after everything that can fail has succeeded
+        if let Some(ref rev_reg_delta) = rev_reg_delta {
+            rev_reg.accum = rev_reg_delta.accum;
+        }
+
         trace!("Issuer::sign_credential: <<< cred_signature: {:?}, signature_correctness_proof: {:?}, rev_reg_delta: {:?}",
                secret!(&cred_signature), signature_correctness_proof, rev_reg_delta);
 
@@ -539,11 +546,14 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
+        // the registry is changed only after everything that can fail has succeeded
+        let mut accum = prev_accum;
         rev_tails_accessor.access_tail(index, &mut |tail| {
-            rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
+            accum = prev_accum.sub(tail).unwrap();
         })?;
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_accum),
@@ -640,11 +650,14 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
+        // the registry is changed only after everything that can fail has succeeded
+        let mut accum = prev_accum;
         rev_tails_accessor.access_tail(index, &mut |tail| {
-            rev_reg.accum = rev_reg.accum.add(tail).unwrap();
+            accum = prev_accum.add(tail).unwrap();
         })?;
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_accum),
@@ -745,18 +758,20 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+
+        // the registry is changed only after everything that can fail has succeeded
+        let mut accum = prev_acc;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
-            rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
-            })?;
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
+            rev_tails_accessor
+                .access_tail(tail_id, &mut |tail| accum = accum.add(tail).unwrap())?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
-            rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
-            })?;
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
+            rev_tails_accessor
+                .access_tail(tail_id, &mut |tail| accum = accum.sub(tail).unwrap())?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
@@ -961,7 +976,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1328,8 +1343,9 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        check_rev_idx(max_cred_num, rev_idx)?;
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1340,7 +1356,7 @@ impl Issuer {
         cred_priv_key: &CredentialPrivateKey,
         max_cred_num: u32,
         issuance_by_default: bool,
-        rev_reg: &mut RevocationRegistry,
+        rev_reg: &RevocationRegistry,
         rev_key_priv: &RevocationKeyPrivate,
         rev_tails_accessor: &dyn RevocationTailsAccessor,
     ) -> UrsaCryptoResult<(
@@ -1409,20 +1425,21 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         let rev_reg_delta = if issuance_by_default {
             None
         } else {
             let prev_acc = rev_reg.accum;
 
+            let mut accum = prev_acc;
             rev_tails_accessor.access_tail(index, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap();
+                accum = prev_acc.add(tail).unwrap();
             })?;
 
             Some(RevocationRegistryDelta {
                 prev_accum: Some(prev_acc),
-                accum: rev_reg.accum,
+                accum,
                 issued: hashset![rev_idx],
                 revoked: HashSet::new(),
             })
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 6287765..d6d15e9 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -568,6 +568,33 @@ impl RevocationTailsGenerator {
     }
 }
 
+// Credentials of a revocation registry are numbered from 1 to `max_cred_num`, its tails from 0 to
+// `2 * max_cred_num`
+fn check_max_cred_num(max_cred_num: u32) -> UrsaCryptoResult<()> {
+    if max_cred_num > (u32::max_value() - 1) / 2 {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("Revocation registry of {} is too big", max_cred_num),
+        ));
+    }
+    Ok(())
+}
+
+fn check_rev_idx(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<()> {
+    check_max_cred_num(max_cred_num)?;
+
+    if rev_idx < 1 || rev_idx > max_cred_num {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "Revocation index {} is out of range 1..={}",
+                rev_idx, max_cred_num
+            ),
+        ));
+    }
+    Ok(())
+}
+
 pub trait RevocationTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()>;
 }
@@ -580,7 +607,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Tail with id {} not found", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
@@ -688,6 +721,8 @@ impl Witness {
         trace!("Witness::new: >>> rev_idx: {:?}, max_cred_num: {:?}, issuance_by_default: {:?}, rev_reg_delta: {:?}",
                rev_idx, max_cred_num, issuance_by_default, rev_reg_delta);
 
+        check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega = PointG2::new_inf()?;
 
         let mut issued = if issuance_by_default {
@@ -700,6 +735,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
+            check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
@@ -730,12 +766,15 @@ impl Witness {
             rev_reg_delta
         );
 
+        check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega_denom = PointG2::new_inf()?;
         for j in rev_reg_delta.revoked.iter() {
             if rev_idx.eq(j) {
                 continue;
             }
 
+            check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
@@ -748,6 +787,7 @@ impl Witness {
                 continue;
             }
 
+            check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
-- 
2.43.0


From 82cf51ed7f75f2c813a8523afcb89b165d8652b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 06/96] fix: leave the credential signature unchanged when
 processing it fails

---
 libursa/src/cl/prover.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 470515d..b7bc666 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -235,13 +235,16 @@ impl Prover {
             witness
         );
 
+        // the signature is changed only after all checks have succeeded
+        let mut processed_signature = credential_signature.try_clone()?;
+
         Prover::_process_primary_credential(
-            &mut credential_signature.p_credential,
+            &mut processed_signature.p_credential,
             &credential_secrets_blinding_factors.v_prime,
         )?;
 
         Prover::_check_signature_correctness_proof(
-            &credential_signature.p_credential,
+            &processed_signature.p_credential,
             credential_values,
             signature_correctness_proof,
             &credential_pub_key.p_key,
@@ -256,7 +259,7 @@ impl Prover {
             Some(ref r_reg),
             Some(ref witness),
         ) = (
-            &mut credential_signature.r_credential,
+            &mut processed_signature.r_credential,
             credential_secrets_blinding_factors.vr_prime,
             &credential_pub_key.r_key,
             rev_key_pub,
@@ -273,6 +276,8 @@ impl Prover {
             )?;
         }
 
+        *credential_signature = processed_signature;
+
         trace!("Prover::process_credential_signature: <<<");
 
         Ok(())
-- 
2.43.0


From e44c7a55fe84995de7cc5bb4a4d0a88510644249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/96] fix: bound the four squares search for deltas divisible
 by a high power of two

---
 libursa/src/cl/helpers.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 5f80d3e..ddbdd7e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,15 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    // A multiple of 8 is a sum of squares of even numbers only, so a number divisible by a high power
+    // of 2 has few representations and the search for one of them could take hours.
+    let mut d = delta as usize;
+    let mut scale = 1;
+    while d != 0 && d % 32 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
+
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -524,6 +532,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         }
     }
 
+    for root in roots.iter_mut() {
+        *root *= scale;
+    }
+
     let res = hashmap![
         "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
         "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-- 
2.43.0


From 89f31eb5b465f9e8b9f53e43668e84133e15842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 08/96] fix: do not carry blinded common attributes over from
 one proof verification to the next

---
 libursa/src/cl/verifier.rs | 74 +++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..bce926a 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -46,7 +46,7 @@ impl Verifier {
     pub fn new_proof_verifier() -> UrsaCryptoResult<ProofVerifier> {
         Ok(ProofVerifier {
             credentials: Vec::new(),
-            common_attributes: HashMap::new(),
+            common_attributes: BTreeSet::new(),
         })
     }
 }
@@ -54,15 +54,14 @@ impl Verifier {
 #[derive(Debug)]
 pub struct ProofVerifier {
     credentials: Vec<VerifiableCredential>,
-    common_attributes: HashMap<String, Option<BigNumber>>,
+    common_attributes: BTreeSet<String>,
 }
 
 impl ProofVerifier {
     /// Attributes that are supposed to have same value across all subproofs.
-    /// The verifier first enters attribute names in the hashmap before proof verification starts.
-    /// The hashmap is again updated during verification of sub proofs by the blinded value of attributes (`m_hat`s in paper)
+    /// The verifier enters attribute names before proof verification starts.
     pub fn add_common_attribute(&mut self, attr_name: &str) -> UrsaCryptoResult<()> {
-        self.common_attributes.insert(attr_name.to_owned(), None);
+        self.common_attributes.insert(attr_name.to_owned());
         Ok(())
     }
 
@@ -225,6 +224,8 @@ impl ProofVerifier {
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        // `m_hat`s belong to one proof: they must not be remembered from one verification to the next
+        let mut common_m_hats: HashMap<&String, &BigNumber> = HashMap::new();
 
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
@@ -253,44 +254,35 @@ impl ProofVerifier {
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
-            let attr_names: Vec<String> = self
-                .common_attributes
-                .keys()
-                .map(|s| s.to_string())
-                .collect();
-            for attr_name in attr_names {
-                if proof_item.primary_proof.eq_proof.m.contains_key(&attr_name) {
-                    let m_hat = &proof_item.primary_proof.eq_proof.m[&attr_name];
-                    match self.common_attributes.entry(attr_name.clone()) {
-                        Entry::Occupied(mut entry) => {
-                            let x = entry.get_mut();
-                            match x {
-                                Some(v) => {
-                                    if v != m_hat {
-                                        return Err(err_msg(
-                                            UrsaCryptoErrorKind::ProofRejected,
-                                            format!("Blinded value for common attribute '{}' different across sub proofs", attr_name),
-                                        ));
-                                    }
-                                }
-                                // For first subproof
-                                None => {
-                                    *x = Some(m_hat.try_clone()?);
-                                }
-                            }
+            for attr_name in self.common_attributes.iter() {
+                let m_hat = proof_item
+                    .primary_proof
+                    .eq_proof
+                    .m
+                    .get(attr_name)
+                    .ok_or_else(|| {
+                        // `m_hat` for common attribute not present in sub proof
+                        err_msg(
+                            UrsaCryptoErrorKind::ProofRejected,
+                            format!(
+                                "Blinded value for common attribute '{}' not found in proof.m",
+                                attr_name
+                            ),
+                        )
+                    })?;
+                match common_m_hats.entry(attr_name) {
+                    Entry::Occupied(entry) => {
+                        if *entry.get() != m_hat {
+                            return Err(err_msg(
+                                UrsaCryptoErrorKind::ProofRejected,
+                                format!("Blinded value for common attribute '{}' different across sub proofs", attr_name),
+                            ));
                         }
-                        // Vacant is not possible because `attr_names` is constructed from keys of `self.common_attributes`
-                        Entry::Vacant(_) => (),
                     }
-                } else {
-                    // `m_hat` for common attribute not present in sub proof
-                    return Err(err_msg(
-                        UrsaCryptoErrorKind::ProofRejected,
-                        format!(
-                            "Blinded value for common attribute '{}' not found in proof.m",
-                            attr_name
-                        ),
-                    ));
+                    // For first subproof
+                    Entry::Vacant(entry) => {
+                        entry.insert(m_hat);
+                    }
                 }
             }
             tau_list.append_vec(&ProofVerifier::_verify_primary_proof(
-- 
2.43.0


From d8298bb9c482b65c4d6da22a3fcbbbec3a5d45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 09/96] fix: reject a proof whose commitment list does not
 match its sub proofs

---
 libursa/src/cl/verifier.rs | 52 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index bce926a..2eb60d1 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -224,6 +224,8 @@ impl ProofVerifier {
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        // commitments the challenge must have been computed from
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
         // `m_hat`s belong to one proof: they must not be remembered from one verification to the next
         let mut common_m_hats: HashMap<&String, &BigNumber> = HashMap::new();
 
@@ -251,6 +253,7 @@ impl ProofVerifier {
                     )?
                     .as_slice()?,
                 );
+                c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
@@ -293,11 +296,19 @@ impl ProofVerifier {
                 &credential.non_credential_schema,
                 &credential.sub_proof_request,
             )?)?;
+            ProofVerifier::_append_primary_c_list(&mut c_list, &proof_item.primary_proof)?;
+        }
+
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Aggregated proof does not correspond to the sub proofs",
+            ));
         }
 
         let mut values: Vec<Vec<u8>> = Vec::new();
         values.extend_from_slice(&tau_list);
-        values.extend_from_slice(&proof.aggregated_proof.c_list);
+        values.extend_from_slice(&c_list);
         values.push(nonce.to_bytes()?);
 
         let c_hver = get_hash_as_int(&values)?;
@@ -401,6 +412,45 @@ impl ProofVerifier {
         Ok(())
     }
 
+    /// Commitments of a primary proof in the order the prover puts them into the challenge
+    fn _append_primary_c_list(
+        c_list: &mut Vec<Vec<u8>>,
+        primary_proof: &PrimaryProof,
+    ) -> UrsaCryptoResult<()> {
+        let a_prime = &primary_proof.eq_proof.a_prime;
+        // the challenge only covers absolute values
+        if a_prime.is_negative() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Negative value in proof",
+            ));
+        }
+        c_list.push(a_prime.to_bytes()?);
+
+        for ne_proof in primary_proof.ne_proofs.iter() {
+            for key in (0..ITERATION)
+                .map(|i| i.to_string())
+                .chain(Some("DELTA".to_string()))
+            {
+                let cur_t = ne_proof.t.get(&key).ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        format!("Value by key '{}' not found in proof.t", key),
+                    )
+                })?;
+                if cur_t.is_negative() {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Negative value in proof",
+                    ));
+                }
+                c_list.push(cur_t.to_bytes()?);
+            }
+        }
+
+        Ok(())
+    }
+
     fn _verify_primary_proof(
         p_pub_key: &CredentialPrimaryPublicKey,
         c_hash: &BigNumber,
-- 
2.43.0


From b3df607304b768de38513ccfdb6a999163a956a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 10/96] fix: require predicate proofs to be about the attribute
 value of the equality proof

---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 2eb60d1..5dd8425 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -472,6 +472,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // the predicate must speak about the attribute value proven by the equality proof
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Blinded value of attribute '{}' different in equality and predicate proofs",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From 64065086d698c13c1dad364014b27a0b7f3150e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 11/96] fix: check the range of e in equality proofs

---
 libursa/src/cl/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 5dd8425..592622d 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -507,6 +507,14 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        // e must lie in the interval issuers choose it from, otherwise anybody can make up a signature
+        if proof.e.is_negative() || proof.e.num_bits()? > LARGE_ETILDE as i32 + 1 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Value of e is out of range",
+            ));
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From a242ac35251da32fba7fc627cc63a09095db49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 12/96] fix: reject a proof without the non-revocation part the
 verifier asks for

---
 libursa/src/cl/verifier.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 592622d..403a23e 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -232,6 +232,16 @@ impl ProofVerifier {
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
+
+            // A verifier which knows the registry wants to see a non-revocation proof
+            let non_revoc_required = credential.rev_reg.is_some() || credential.rev_key_pub.is_some();
+            if non_revoc_required != proof_item.non_revoc_proof.is_some() {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Non-revocation proof is missing or was not requested",
+                ));
+            }
+
             if let (
                 Some(non_revocation_proof),
                 Some(cred_rev_pub_key),
@@ -254,6 +264,11 @@ impl ProofVerifier {
                     .as_slice()?,
                 );
                 c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
+            } else if non_revoc_required {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Non-revocation proof cannot be verified without all revocation keys",
+                ));
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
-- 
2.43.0


From f456ba6e36f21af7ecacf69fd9ef02e4ac1ae216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 13/96] fix: do not ignore the sign of a predicate response

---
 libursa/src/cl/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index ddbdd7e..e540aac 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -418,7 +418,7 @@ pub fn calc_tne<S: ::std::hash::BuildHasher>(
         )
     })?;
     let delta_predicate = if is_less {
-        delta.set_negative(true)?
+        delta.set_negative(!delta.is_negative())?
     } else {
         delta.try_clone()?
     };
-- 
2.43.0


From 003d9d7ec4033b172c3890d8c3b034447c3c8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 14/96] fix: reject a proof with additional blinded values

---
 libursa/src/cl/verifier.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 403a23e..31f5299 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -539,6 +539,13 @@ impl ProofVerifier {
             .cloned()
             .collect::<HashSet<String>>();
 
+        if proof.m.len() != unrevealed_attrs.len() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Blinded values not correspond to unrevealed attributes",
+            ));
+        }
+
         let t1: BigNumber = calc_teq(
             &p_pub_key,
             &proof.a_prime,
@@ -593,6 +600,16 @@ impl ProofVerifier {
             c_hash
         );
 
+        if proof.u.len() != ITERATION
+            || proof.r.len() != ITERATION + 1
+            || proof.t.len() != ITERATION + 1
+        {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Invalid number of values in predicate proof",
+            ));
+        }
+
         let mut ctx = BigNumber::new_context()?;
         let mut tau_list = calc_tne(
             &p_pub_key,
-- 
2.43.0


From 2747baaf8ecc415152003b9e37895b3872e872fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 15/96] fix: bind the non-revocation proof to the credential of
 the primary proof

---
 libursa/src/cl/helpers.rs  |  6 ++++++
 libursa/src/cl/prover.rs   | 18 ++++++++++++++----
 libursa/src/cl/verifier.rs | 13 +++++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index e540aac..f3cf488 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -556,6 +556,12 @@ pub fn bignum_to_group_element(num: &BigNumber) -> UrsaCryptoResult<GroupOrderEl
     Ok(GroupOrderElement::from_bytes(&num.to_bytes()?)?)
 }
 
+/// Order of the groups of the revocation keys
+pub fn group_order() -> UrsaCryptoResult<BigNumber> {
+    let minus_one = GroupOrderElement::from_bytes(&[1])?.mod_neg()?;
+    group_element_to_bignum(&minus_one)?.increment()
+}
+
 pub fn create_tau_list_expected_values(
     r_pub_key: &CredentialRevocationPublicKey,
     rev_reg: &RevocationRegistry,
diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index b7bc666..93c105a 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -980,12 +980,16 @@ impl ProofBuilder {
             &credential_pub_key.r_key,
             &witness,
         ) {
-            let proof =
-                ProofBuilder::_init_non_revocation_proof(&r_cred, &r_reg, &r_pub_key, &witness)?;
+            // One blinding for both proofs shows that they are about the same credential. It has to
+            // be as big as the blindings of other hidden values to hide `m2` in the primary proof.
+            let blinding = bn_rand(LARGE_MVECT)?;
+            let proof = ProofBuilder::_init_non_revocation_proof(
+                &r_cred, &r_reg, &r_pub_key, &witness, &blinding,
+            )?;
 
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
-            m2_tilde = Some(group_element_to_bignum(&proof.tau_list_params.m2)?);
+            m2_tilde = Some(blinding);
             non_revoc_init_proof = Some(proof);
         }
 
@@ -1284,6 +1288,7 @@ impl ProofBuilder {
         rev_reg: &RevocationRegistry,
         cred_rev_pub_key: &CredentialRevocationPublicKey,
         witness: &Witness,
+        m2_tilde: &BigNumber,
     ) -> UrsaCryptoResult<NonRevocInitProof> {
         trace!("ProofBuilder::_init_non_revocation_proof: >>> r_cred: {:?}, rev_reg: {:?}, cred_rev_pub_key: {:?}, witness: {:?}",
                r_cred, rev_reg, cred_rev_pub_key, witness);
@@ -1296,7 +1301,12 @@ impl ProofBuilder {
             witness,
         )?;
 
-        let tau_list_params = ProofBuilder::_gen_tau_list_params()?;
+        let mut tau_list_params = ProofBuilder::_gen_tau_list_params()?;
+        // responses of the primary proof add the challenge to the blinding, these subtract it
+        tau_list_params.m2 = bignum_to_group_element(
+            &m2_tilde.modulus(&group_order()?, None)?,
+        )?
+        .mod_neg()?;
         let tau_list =
             create_tau_list_values(&cred_rev_pub_key, &rev_reg, &tau_list_params, &c_list)?;
 
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 31f5299..60e9a0d 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -264,6 +264,19 @@ impl ProofVerifier {
                     .as_slice()?,
                 );
                 c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
+
+                // Both proofs must be about the same credential
+                let m2_sum = proof_item
+                    .primary_proof
+                    .eq_proof
+                    .m2
+                    .add(&group_element_to_bignum(&non_revocation_proof.x_list.m2)?)?;
+                if m2_sum.modulus(&group_order()?, None)? != BigNumber::from_u32(0)? {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Non-revocation proof is about another credential",
+                    ));
+                }
             } else if non_revoc_required {
                 return Err(err_msg(
                     UrsaCryptoErrorKind::ProofRejected,
-- 
2.43.0


From 7a3c106459820097e360f03e7aa24ea1167b7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 16/96] fix: do not publish the tail that lets revoked holders
 forge witnesses

---
 libursa/src/cl/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index d6d15e9..a9c5a5a 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -560,7 +560,14 @@ impl RevocationTailsGenerator {
             return Ok(None);
         }
 
-        let tail = Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?;
+        // Nobody needs the (L+1)th tail, but with it a revoked holder can make up a witness: its
+        // place is taken by the 0th
+        let tail_index = if self.current_index == (self.size + 1) / 2 {
+            0
+        } else {
+            self.current_index
+        };
+        let tail = Tail::new_tail(tail_index, &self.g_dash, &self.gamma)?;
 
         self.current_index += 1;
 
-- 
2.43.0


From 3477f77d9ad04573018daae7f27ed3967e13eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 17/96] fix: leave the proof builder unchanged when adding a
 sub proof request fails

---
 libursa/src/cl/prover.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 93c105a..91ae58c 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -987,8 +987,6 @@ impl ProofBuilder {
                 &r_cred, &r_reg, &r_pub_key, &witness, &blinding,
             )?;
 
-            self.c_list.extend_from_slice(&proof.as_c_list()?);
-            self.tau_list.extend_from_slice(&proof.as_tau_list()?);
             m2_tilde = Some(blinding);
             non_revoc_init_proof = Some(proof);
         }
@@ -1004,10 +1002,14 @@ impl ProofBuilder {
             m2_tilde,
         )?;
 
-        self.c_list
-            .extend_from_slice(&primary_init_proof.as_c_list()?);
-        self.tau_list
-            .extend_from_slice(&primary_init_proof.as_tau_list()?);
+        let mut c_list = Vec::new();
+        let mut tau_list = Vec::new();
+        if let Some(ref proof) = non_revoc_init_proof {
+            c_list.extend_from_slice(&proof.as_c_list()?);
+            tau_list.extend_from_slice(&proof.as_tau_list()?);
+        }
+        c_list.extend_from_slice(&primary_init_proof.as_c_list()?);
+        tau_list.extend_from_slice(&primary_init_proof.as_tau_list()?);
 
         let init_proof = InitProof {
             primary_init_proof,
@@ -1017,6 +1019,10 @@ impl ProofBuilder {
             credential_schema: credential_schema.clone(),
             non_credential_schema: non_credential_schema.clone(),
         };
+
+        // nothing can fail from here on
+        self.c_list.extend(c_list);
+        self.tau_list.extend(tau_list);
         self.init_proofs.push(init_proof);
 
         trace!("ProofBuilder::add_sub_proof_request: <<<");
-- 
2.43.0


From 0a6078e30346a97e679159bf2f64dee0363ff172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 18/96] fix: report numbers with a NUL character instead of
 panicking

---
 libursa/src/bn/openssl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..7f91cfc 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -23,6 +23,17 @@ pub struct BigNumber {
     openssl_bn: BigNum,
 }
 
+// openssl panics on strings it cannot pass to C
+fn check_no_nul(s: &str) -> UrsaCryptoResult<()> {
+    if s.contains('\0') {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid character in number",
+        ));
+    }
+    Ok(())
+}
+
 impl BigNumber {
     pub fn new_context() -> UrsaCryptoResult<BigNumberContext> {
         let ctx = BigNumContext::new()?;
@@ -144,11 +155,13 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        check_no_nul(dec)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        check_no_nul(hex)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
-- 
2.43.0


From 3e9c6c25f221f7c9606462f2ede790864be7cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 19/96] fix: serialise a revocation registry delta as a delta
 in the C interface

---
 libursa/src/ffi/cl/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 1a3dc3f..fbf1ff2 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1687,7 +1687,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_to_json(
 
     check_useful_c_reference!(
         revocation_registry_delta,
-        SignatureCorrectnessProof,
+        RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam1
     );
     check_useful_c_ptr!(
-- 
2.43.0


From 2aec700b022226d48c34cec5e6e4bd92c2e7e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 20/96] fix: return the merged delta, not a dangling pointer,
 from the C interface

---
 libursa/src/ffi/cl/issuer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index fbf1ff2..3b337fb 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1991,9 +1991,10 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
 
     let res = match revoc_reg_delta.merge(other_revoc_reg_delta) {
         Ok(_) => {
-            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: ()");
+            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: {:?}", revoc_reg_delta);
             unsafe {
-                *merged_revoc_reg_delta_p = Box::into_raw(Box::new(())) as *const c_void;
+                *merged_revoc_reg_delta_p =
+                    Box::into_raw(Box::new(revoc_reg_delta.clone())) as *const c_void;
                 trace!("ursa_cl_issuer_merge_revocation_registry_deltas: *merged_revoc_reg_delta_p: {:?}", *merged_revoc_reg_delta_p);
             }
             ErrorCode::Success
-- 
2.43.0


From b01ad7c5f0c5a6713420fd7aaca33d2708c1b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 21/96] fix: report null outputs and null array entries in the
 C interface instead of crashing

---
 libursa/src/ffi/bls.rs       | 3 +++
 libursa/src/ffi/cl/issuer.rs | 4 ++++
 libursa/src/ffi/cl/mod.rs    | 1 +
 libursa/src/ffi/cl/prover.rs | 1 +
 libursa/src/ffi/mod.rs       | 4 ++++
 libursa/src/utils/ctypes.rs  | 9 ++++++++-
 6 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libursa/src/ffi/bls.rs b/libursa/src/ffi/bls.rs
index b536685..0eada8b 100644
--- a/libursa/src/ffi/bls.rs
+++ b/libursa/src/ffi/bls.rs
@@ -167,6 +167,7 @@ pub extern "C" fn ursa_bls_sign_key_new(
         ErrorCode::CommonInvalidParam1,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(sign_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_bls_sign_key_new: seed: {:?}", secret!(&seed));
 
@@ -325,6 +326,7 @@ pub extern "C" fn ursa_bls_ver_key_new(
 
     check_useful_c_reference!(gen, Generator, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(ver_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_ver_key_new: gen: {:?}, sign_key: {:?}",
@@ -475,6 +477,7 @@ pub extern "C" fn ursa_bls_pop_new(
 
     check_useful_c_reference!(ver_key, VerKey, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(pop_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_pop_new: ver_key: {:?}, sign_key: {:?}",
diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 3b337fb..0e7115a 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1845,6 +1845,7 @@ pub extern "C" fn ursa_revocation_registry_delta_from_parts(
         ErrorCode::CommonInvalidParam5,
         ErrorCode::CommonInvalidParam6
     );
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!("ursa_revocation_registry_delta_from_parts: >>> rev_reg_from: {:?}, rev_reg_to: {:?}, issued: {:?}, revoked: {:?}",
            rev_reg_from, rev_reg_to, issued, revoked);
@@ -1895,6 +1896,7 @@ pub extern "C" fn ursa_cl_issuer_revoke_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_revoke_credential: entities: rev_reg: {:?}",
@@ -1941,6 +1943,7 @@ pub extern "C" fn ursa_cl_issuer_recovery_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_recovery_credential: entities: rev_reg: {:?}",
@@ -1985,6 +1988,7 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(merged_revoc_reg_delta_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_cl_issuer_merge_revocation_registry_deltas: entities: revoc_reg_delta: {:?}, other_revoc_reg_delta: {:?}",
            revoc_reg_delta, other_revoc_reg_delta);
diff --git a/libursa/src/ffi/cl/mod.rs b/libursa/src/ffi/cl/mod.rs
index 537e239..cd72fac 100644
--- a/libursa/src/ffi/cl/mod.rs
+++ b/libursa/src/ffi/cl/mod.rs
@@ -117,6 +117,7 @@ pub extern "C" fn ursa_cl_witness_new(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam3
     );
+    check_useful_c_ptr!(witness_p, ErrorCode::CommonInvalidParam8);
 
     let rta = FFITailsAccessor::new(ctx_tails, take_tail, put_tail);
     let res = match Witness::new(
diff --git a/libursa/src/ffi/cl/prover.rs b/libursa/src/ffi/cl/prover.rs
index 36caaf8..14eb809 100644
--- a/libursa/src/ffi/cl/prover.rs
+++ b/libursa/src/ffi/cl/prover.rs
@@ -868,6 +868,7 @@ pub extern "C" fn ursa_cl_prover_get_credential_revocation_index(
         CredentialSignature,
         ErrorCode::CommonInvalidParam1
     );
+    check_useful_c_ptr!(cred_rev_indx, ErrorCode::CommonInvalidParam2);
 
     trace!(
         "ursa_cl_prover_get_credential_revocation_index: >>> credential_signature: {:?}",
diff --git a/libursa/src/ffi/mod.rs b/libursa/src/ffi/mod.rs
index 9a9a969..5057084 100644
--- a/libursa/src/ffi/mod.rs
+++ b/libursa/src/ffi/mod.rs
@@ -182,6 +182,10 @@ pub extern "C" fn ursa_get_current_error(error_json_p: *mut *const c_char) {
         error_json_p
     );
 
+    if error_json_p.is_null() {
+        return;
+    }
+
     let error = get_current_error_c_json();
     unsafe { *error_json_p = error };
 
diff --git a/libursa/src/utils/ctypes.rs b/libursa/src/utils/ctypes.rs
index d4f9a2c..37af647 100644
--- a/libursa/src/utils/ctypes.rs
+++ b/libursa/src/utils/ctypes.rs
@@ -113,7 +113,14 @@ macro_rules! check_useful_c_reference_array {
             return $err2;
         }
 
-        let $ptrs: Vec<&$type> = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) }
+        let $ptrs = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) };
+
+        if $ptrs.iter().any(|ptr| ptr.is_null()) {
+            set_current_error(&err_msg($err1.into(), "Invalid pointer has been passed"));
+            return $err1;
+        }
+
+        let $ptrs: Vec<&$type> = $ptrs
             .iter()
             .map(|ptr| unsafe { &*(*ptr as *const $type) })
             .collect();
-- 
2.43.0


From b302d2608b21dac9272cbeb53c0d76b91b18e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 22/96] fix: report a missing algorithm name in the C
 encryption functions instead of aborting

---
 libursa/src/ffi/encryption/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/encryption/mod.rs b/libursa/src/ffi/encryption/mod.rs
index a507e71..f16292f 100644
--- a/libursa/src/ffi/encryption/mod.rs
+++ b/libursa/src/ffi/encryption/mod.rs
@@ -39,9 +39,12 @@ macro_rules! ffi_encryption_impl {
             let key = key.to_vec();
             let aad = aad.to_vec();
             let nonce = nonce.to_opt_vec();
-            let algorithm = algorithm.as_str();
+            let algorithm = algorithm.as_opt_str();
             let input = input.to_vec();
-            let cipher_res = EncryptorType::from_str(algorithm);
+            let cipher_res = match algorithm {
+                Some(a) => EncryptorType::from_str(a),
+                None => Err("No algorithm name was given".to_string()),
+            };
             let cipher;
             let aes: Box<dyn DynEncryptor>;
 
-- 
2.43.0


From 084aca550c1836ab61b14c77cb77e6478427fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 23/96] fix: load a revocation registry delta as a delta in the
 C interface

---
 libursa/src/ffi/cl/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 0e7115a..958c5ab 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1756,7 +1756,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_from_json(
         revocation_registry_delta_json
     );
 
-    let res = match serde_json::from_str::<SignatureCorrectnessProof>(
+    let res = match serde_json::from_str::<RevocationRegistryDelta>(
         &revocation_registry_delta_json,
     ) {
         Ok(revocation_registry_delta) => {
-- 
2.43.0


From 0bb5179ce8b8640cf233d50342a6ccb80c75b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 24/96] fix: decrypt short messages of every cipher

---
 libursa/src/encryption/symm/aescbc.rs                | 2 +-
 libursa/src/encryption/symm/aescbc_asm.rs            | 2 +-
 libursa/src/encryption/symm/aesgcm.rs                | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs            | 6 +++---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..6d42617 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,7 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..20a89d6 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,7 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From 18ec1737b82b79f991f4b7b69a96964a44c5ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 25/96] fix: refuse keys and nonces of the wrong length instead
 of panicking

---
 libursa/src/encryption/symm/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..0970775 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,6 +81,9 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
+                        if key.len() != <<$name as NewAead>::KeySize as aead::generic_array::typenum::Unsigned>::to_usize() {
+                            return Err(E::invalid_length(key.len(), &self));
+                        }
                         Ok($name::new(GenericArray::from_slice(key.as_slice())))
                     }
                 }
@@ -147,8 +150,12 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        let key = key.as_ref();
+        if key.len() != <E as NewAead>::KeySize::to_usize() {
+            return Err(Error);
+        }
         Ok(Self {
-            encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
+            encryptor: <E as NewAead>::new(GenericArray::from_slice(key)),
         })
     }
 
@@ -165,7 +172,11 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce.as_ref();
+        if nonce.len() != E::NonceSize::to_usize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
@@ -192,7 +203,11 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce.as_ref();
+        if nonce.len() != E::NonceSize::to_usize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
@@ -319,6 +334,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
+        if nonce.len() != <Self as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::clone_from_slice(nonce);
         let payload = Payload { msg, aad };
         self.encrypt(&nonce, payload)
@@ -329,6 +347,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
+        if nonce.len() != <Self as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::clone_from_slice(nonce);
         let payload = Payload { msg, aad };
         self.decrypt(&nonce, payload)
-- 
2.43.0


From 4306c1b6abebdb7c4b15c04c838c4b97f718f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 26/96] fix: report a failing random source in encryption as an
 error

---
 libursa/src/encryption/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libursa/src/encryption/mod.rs b/libursa/src/encryption/mod.rs
index 14f61f3..e5f2545 100644
--- a/libursa/src/encryption/mod.rs
+++ b/libursa/src/encryption/mod.rs
@@ -9,7 +9,9 @@ pub mod symm;
 // Helpful for generating bytes using the operating system random number generator
 pub fn random_vec(bytes: usize) -> Result<Vec<u8>, Error> {
     let mut value = vec![0u8; bytes];
-    OsRng.fill_bytes(value.as_mut_slice());
+    OsRng
+        .try_fill_bytes(value.as_mut_slice())
+        .map_err(|_| Error)?;
     Ok(value)
 }
 
-- 
2.43.0


From 24599d349606fbbee9b66ebb42b056062ce93be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 27/96] fix: write a share as identifier and value instead of
 recursing forever

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 81a34429cfb3568cdf0aa485a132f2eba72c6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 28/96] fix: read every commitment of a share verifier and
 refuse wrong sizes

---
 ursa_sharing/src/feldman.rs  | 11 +++++++++--
 ursa_sharing/src/pedersen.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..93831a8 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,10 +175,17 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        let expected = cs
+            .checked_mul(R::Size::to_usize())
+            .and_then(|s| s.checked_add(end))
+            .ok_or(SharingError::InvalidPoint)?;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..9928b62 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -207,10 +207,17 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        let expected = cs
+            .checked_mul(R::Size::to_usize())
+            .and_then(|s| s.checked_add(end))
+            .ok_or(SharingError::InvalidPoint)?;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
-- 
2.43.0


From 5608fae67d1a5627ffafd9a1440f0b9292240537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 29/96] fix: verify a share only against its own identifier and
 exactly threshold commitments

---
 ursa_sharing/src/feldman.rs  |  9 ++++++++-
 ursa_sharing/src/pedersen.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 93831a8..701425f 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -78,9 +78,16 @@ impl Scheme {
         share: &ShamirShare,
         verifier: &FeldmanVerifier<S, R>,
     ) -> SharingResult<()> {
-        if verifier.commitments.len() < self.threshold {
+        if verifier.commitments.len() != self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
+        if share.identifier == 0 {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
+        // With the neutral element as generator any share would verify
+        if verifier.g.is_zero() {
+            return Err(SharingError::InvalidPoint);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 9928b62..c4f03fc 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,16 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() != self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
+        if share.identifier == 0 || share.identifier != blind_share.identifier {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
+        // With the neutral element as generator any share would verify
+        if verifier.g.is_zero() || verifier.h.is_zero() {
+            return Err(SharingError::InvalidPoint);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From 0234270de71e7b1c59cd136d33ec1a5050555738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 30/96] fix: refuse an empty share instead of panicking

---
 libursa/src/sharing/shamir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..3a59778 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::GeneralError(
+                "share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
-- 
2.43.0


From 5445de86cd4c4574c24633d1458b0200f8979253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 31/96] fix: refuse to split a secret into more shares than the
 field has elements

---
 libursa/src/sharing/shamir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index 3a59778..4a43e43 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -288,6 +288,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "field must be greater than the total".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
-- 
2.43.0


From c58436483b0c91ce50a9c4b0cbe0aa45f9c8333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 32/96] fix: refuse byte strings that do not encode a point of
 the pairing groups

---
 libursa/src/pair/amcl.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index cc372ab..6691e3d 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -212,9 +212,17 @@ impl PointG1 {
                 "Invalid len of bytes representation for PointG1",
             ));
         }
-        Ok(PointG1 {
+        let point = PointG1 {
             point: ECP::frombytes(b),
-        })
+        };
+        // AMCL returns infinity for anything it can't decode
+        if point.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG1",
+            ));
+        }
+        Ok(point)
     }
 
     pub fn from_hash(hash: &[u8]) -> UrsaCryptoResult<PointG1> {
@@ -373,9 +381,17 @@ impl PointG2 {
                 "Invalid len of bytes representation for PoingG2",
             ));
         }
-        Ok(PointG2 {
+        let point = PointG2 {
             point: ECP2::frombytes(b),
-        })
+        };
+        // AMCL returns infinity for anything it can't decode
+        if point.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG2",
+            ));
+        }
+        Ok(point)
     }
 }
 
-- 
2.43.0


From 6ca64dd7f04226a89e869eb6bc816f49bc36813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 33/96] fix: neutral BLS keys and signatures verify for no
 message

---
 libursa/src/bls/mod.rs   | 8 ++++++++
 libursa/src/pair/amcl.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index fbc86a0..aa335eb 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -544,6 +544,9 @@ impl Bls {
         // can be added together to form the aggregated verkey
         let mut aggregated_verkey = PointG2::new_inf()?;
         for ver_key in ver_keys {
+            if ver_key.point.is_inf()? {
+                return Ok(false);
+            }
             aggregated_verkey = aggregated_verkey.add(&ver_key.point)?;
         }
 
@@ -577,6 +580,11 @@ impl Bls {
     where
         T: Digest,
     {
+        // The neutral elements satisfy the equation below for any message
+        if signature.is_inf()? || ver_key.is_inf()? {
+            return Ok(false);
+        }
+
         let h = Bls::_hash(message, hasher)?;
         // e(&signature, &gen.point) == e(&h, &ver_key) => 1 == e(&h, &ver_key)*e(&signature, &gen.point)^-1 == e(&h, &ver_key)*e(&signature, -&gen.point)
         Pair::pair2(&signature, &gen.point.neg()?, &h, &ver_key)?.is_unity()
diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 6691e3d..95a1ecc 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -317,6 +317,11 @@ impl PointG2 {
         Ok(PointG2 { point })
     }
 
+    /// Checks infinity
+    pub fn is_inf(&self) -> UrsaCryptoResult<bool> {
+        Ok(self.point.is_infinity())
+    }
+
     /// PointG2 * PointG2
     pub fn add(&self, q: &PointG2) -> UrsaCryptoResult<PointG2> {
         let mut r = self.point;
-- 
2.43.0


From 717e897a25156da71806d86c87a29452881a8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 34/96] fix: refuse BLS objects in JSON whose two
 representations differ

---
 libursa/src/bls/mod.rs | 59 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index aa335eb..3ad90d0 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -2,14 +2,46 @@ use errors::prelude::*;
 use pair::{GroupOrderElement, Pair, PointG1, PointG2};
 
 #[cfg(feature = "serde")]
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as DError, Deserialize, Deserializer, Serialize};
 use sha2::{Digest, Sha256};
 use sha3::Keccak256;
 
+// Both members of the structures below stand for the same value, so nothing is accepted where they
+// differ
+#[cfg(feature = "serde")]
+macro_rules! impl_deserialize {
+    ($name:ident, $member:ident, $value:ident) => {
+        impl<'a> Deserialize<'a> for $name {
+            fn deserialize<D: Deserializer<'a>>(deserializer: D) -> Result<Self, D::Error> {
+                #[derive(Deserialize)]
+                struct Repr {
+                    $member: $value,
+                    bytes: Vec<u8>,
+                }
+
+                let repr = Repr::deserialize(deserializer)?;
+                let value = $value::from_bytes(&repr.bytes).map_err(DError::custom)?;
+                if value.to_bytes().map_err(DError::custom)?
+                    != repr.$member.to_bytes().map_err(DError::custom)?
+                {
+                    return Err(DError::custom(concat!(
+                        "Inconsistent representation of ",
+                        stringify!($name)
+                    )));
+                }
+                Ok($name {
+                    $member: repr.$member,
+                    bytes: repr.bytes,
+                })
+            }
+        }
+    };
+}
+
 /// BLS generator point.
 /// BLS algorithm requires choosing of generator point that must be known to all parties.
 /// The most of BLS methods require generator to be provided.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug)]
 pub struct Generator {
     point: PointG2,
@@ -66,7 +98,7 @@ impl Generator {
 }
 
 /// BLS sign key.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug)]
 pub struct SignKey {
     group_order_element: GroupOrderElement,
@@ -126,7 +158,7 @@ impl SignKey {
 }
 
 /// BLS verification key.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone)]
 pub struct VerKey {
     point: PointG2,
@@ -190,7 +222,7 @@ impl VerKey {
 }
 
 /// Proof of possession for BLS verification key.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone)]
 pub struct ProofOfPossession {
     point: PointG1,
@@ -262,7 +294,7 @@ impl ProofOfPossession {
 }
 
 /// BLS signature.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug)]
 pub struct Signature {
     point: PointG1,
@@ -307,7 +339,7 @@ impl Signature {
 }
 
 /// BLS multi signature.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug)]
 pub struct MultiSignature {
     point: PointG1,
@@ -397,6 +429,19 @@ impl MultiSignature {
     }
 }
 
+#[cfg(feature = "serde")]
+impl_deserialize!(Generator, point, PointG2);
+#[cfg(feature = "serde")]
+impl_deserialize!(SignKey, group_order_element, GroupOrderElement);
+#[cfg(feature = "serde")]
+impl_deserialize!(VerKey, point, PointG2);
+#[cfg(feature = "serde")]
+impl_deserialize!(ProofOfPossession, point, PointG1);
+#[cfg(feature = "serde")]
+impl_deserialize!(Signature, point, PointG1);
+#[cfg(feature = "serde")]
+impl_deserialize!(MultiSignature, point, PointG1);
+
 pub struct Bls {}
 
 impl Bls {
-- 
2.43.0


From 8c05d97cfb5e0338f29a29842d2e1b342edd88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 35/96] fix: refuse byte strings that do not encode BLS12-381
 keys and signatures

---
 libursa/src/signatures/bls.rs | 41 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 7c73c7f..74b26e2 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -23,6 +23,25 @@ pub const PRIVATE_KEY_SIZE: usize = MODBYTES;
 /// instead of wrapping it as a private field
 pub type PrivateKey = FieldElement;
 
+// AMCL returns the point at infinity for anything it can't decode, or panics if the length does not
+// fit the compression flag
+fn parse_point<G: GroupElement>(bytes: &[u8]) -> Result<G, CryptoError> {
+    let invalid = || CryptoError::ParseError("Invalid group element".to_string());
+    let compressed = match bytes.first() {
+        Some(flag) => *flag != 0x04,
+        None => return Err(invalid()),
+    };
+    if bytes.len() != G::identity().to_bytes(compressed).len() {
+        return Err(invalid());
+    }
+    let point =
+        G::from_bytes(bytes).map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
+    if point.to_bytes(compressed).as_slice() != bytes {
+        return Err(invalid());
+    }
+    Ok(point)
+}
+
 macro_rules! bls_impl {
     ($pk_size:expr, $sig_size:expr, $pk_group:ident, $sig_group:ident, $ate_2_pairing_is_one:ident, $set_pairs:ident) => {
         pub const PUBLIC_KEY_SIZE: usize = $pk_size;
@@ -175,9 +194,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(PublicKey(Generator::from_bytes(bytes).map_err(|e| {
-                    CryptoError::ParseError(format!("{:?}", e))
-                })?))
+                Ok(PublicKey(parse_point(bytes)?))
             }
         }
 
@@ -218,9 +235,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedPublicKey(Generator::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(AggregatedPublicKey(parse_point(bytes)?))
             }
         }
 
@@ -347,9 +362,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(Signature(SignatureGroup::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(Signature(parse_point(bytes)?))
             }
         }
 
@@ -372,10 +385,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(ProofOfPossession(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(ProofOfPossession(parse_point(bytes)?))
             }
 
             pub fn verify(
@@ -466,10 +476,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedSignature(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(AggregatedSignature(parse_point(bytes)?))
             }
         }
     };
-- 
2.43.0


From cee7c2b6c4d2e63204103fbd18e5462cc6b3b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 36/96] fix: verify BLS12-381 signatures only for members of
 the groups

---
 libursa/src/signatures/bls.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 74b26e2..567b3bd 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -42,6 +42,12 @@ fn parse_point<G: GroupElement>(bytes: &[u8]) -> Result<G, CryptoError> {
     Ok(point)
 }
 
+// Keys and signatures must be members of the prime order group other than the neutral element,
+// which satisfies the verification equation for any message
+fn is_valid<G: GroupElement>(point: &G) -> bool {
+    !point.is_identity() && point.has_correct_order()
+}
+
 macro_rules! bls_impl {
     ($pk_size:expr, $sig_size:expr, $pk_group:ident, $sig_group:ident, $ate_2_pairing_is_one:ident, $set_pairs:ident) => {
         pub const PUBLIC_KEY_SIZE: usize = $pk_size;
@@ -304,6 +310,9 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                if !is_valid(&self.0) || !is_valid(&pk.0) {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -318,6 +327,9 @@ macro_rules! bls_impl {
                 context: Option<&'static [u8]>,
                 g: &Generator,
             ) -> bool {
+                if !is_valid(&self.0) || inputs.iter().any(|(_, pk)| !is_valid(&pk.0)) {
+                    return false;
+                }
                 let mut msg_check = ::std::collections::HashSet::new();
                 let mut pairs = Vec::new();
                 for (msg, pk) in inputs {
@@ -345,6 +357,9 @@ macro_rules! bls_impl {
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
+                    if !is_valid(&asg.0) || !is_valid(&apk.0) {
+                        return false;
+                    }
                     let random_exponent = FieldElement::random();
                     let hash = hash_msg(msg, context);
                     sig += &asg.0 * &random_exponent;
@@ -394,6 +409,9 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                if !is_valid(&self.0) || !is_valid(&pk.0) {
+                    return false;
+                }
                 let hash = hash_key(pk, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -423,6 +441,9 @@ macro_rules! bls_impl {
                 pk: &AggregatedPublicKey,
                 g: &Generator,
             ) -> bool {
+                if !is_valid(&self.0) || !is_valid(&pk.0) {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -438,6 +459,9 @@ macro_rules! bls_impl {
                 pks: &[PublicKey],
                 g: &Generator,
             ) -> bool {
+                if !is_valid(&self.0) || pks.iter().any(|pk| !is_valid(&pk.0)) {
+                    return false;
+                }
                 let apk = pks.iter().fold(Generator::identity(), |a, p| a + &p.0);
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
@@ -459,6 +483,9 @@ macro_rules! bls_impl {
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
+                    if !is_valid(&asg.0) || !is_valid(&apk.0) {
+                        return false;
+                    }
                     let random_exponent = FieldElement::random();
                     let hash = hash_msg(msg, context);
                     sig += &asg.0 * &random_exponent;
-- 
2.43.0


From 27925b0f8170b9e9df62c811bddf07c4960e7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 37/96] fix: refuse small order keys in Ed25519 verification

---
 libursa/src/signatures/ed25519.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/signatures/ed25519.rs b/libursa/src/signatures/ed25519.rs
index f113450..ec9d112 100644
--- a/libursa/src/signatures/ed25519.rs
+++ b/libursa/src/signatures/ed25519.rs
@@ -3,7 +3,7 @@ pub const ALGORITHM_NAME: &str = "ED25519_SHA2_512";
 use super::{KeyGenOption, SignatureScheme};
 #[cfg(any(feature = "x25519", feature = "x25519_asm"))]
 use ed25519_dalek::SecretKey as SK;
-use ed25519_dalek::{Keypair, PublicKey as PK, Signature, Signer, Verifier};
+use ed25519_dalek::{Keypair, PublicKey as PK, Signature, Signer};
 pub use ed25519_dalek::{
     EXPANDED_SECRET_KEY_LENGTH as PRIVATE_KEY_SIZE, PUBLIC_KEY_LENGTH as PUBLIC_KEY_SIZE,
     SIGNATURE_LENGTH as SIGNATURE_SIZE,
@@ -149,7 +149,9 @@ impl SignatureScheme for Ed25519Sha512 {
         let p = PK::from_bytes(&pk[..]).map_err(|e| CryptoError::ParseError(e.to_string()))?;
         let s =
             Signature::try_from(signature).map_err(|e| CryptoError::ParseError(e.to_string()))?;
-        p.verify(message, &s)
+        // Unlike `verify` this refuses keys and commitments of small order,
+        // which satisfy the verification equation for many messages
+        p.verify_strict(message, &s)
             .map_err(|e| CryptoError::SigningError(e.to_string()))?;
         Ok(true)
     }
-- 
2.43.0


From 937df31ba44e2bc93130daa1a664af743dbfff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 38/96] fix: refuse Ed25519 key pairs whose halves do not match

---
 libursa/src/signatures/ed25519.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libursa/src/signatures/ed25519.rs b/libursa/src/signatures/ed25519.rs
index ec9d112..23c235d 100644
--- a/libursa/src/signatures/ed25519.rs
+++ b/libursa/src/signatures/ed25519.rs
@@ -106,6 +106,18 @@ impl Ed25519Sha512 {
     }
 }
 
+// The public half of a stored key pair must belong to the secret half
+// since signing with another one discloses the secret
+fn load_keypair(bytes: &[u8]) -> Result<Keypair, CryptoError> {
+    let kp = Keypair::from_bytes(bytes).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+    if PK::from(&kp.secret) != kp.public {
+        return Err(CryptoError::KeyGenError(
+            "Public key does not match the secret key".to_string(),
+        ));
+    }
+    Ok(kp)
+}
+
 impl SignatureScheme for Ed25519Sha512 {
     fn new() -> Self {
         Self
@@ -122,8 +134,7 @@ impl SignatureScheme for Ed25519Sha512 {
                     let mut rng = ChaChaRng::from_seed(*array_ref!(hash.as_slice(), 0, 32));
                     Keypair::generate(&mut rng)
                 }
-                KeyGenOption::FromSecretKey(ref s) => Keypair::from_bytes(&s[..])
-                    .map_err(|e| CryptoError::KeyGenError(e.to_string()))?,
+                KeyGenOption::FromSecretKey(ref s) => load_keypair(&s[..])?,
             },
             None => {
                 let mut rng = OsRng::default();
@@ -136,8 +147,7 @@ impl SignatureScheme for Ed25519Sha512 {
         ))
     }
     fn sign(&self, message: &[u8], sk: &PrivateKey) -> Result<Vec<u8>, CryptoError> {
-        let kp =
-            Keypair::from_bytes(&sk[..]).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+        let kp = load_keypair(&sk[..])?;
         Ok(kp.sign(message).to_bytes().to_vec())
     }
     fn verify(
-- 
2.43.0


From 3a62138bf8c1a3c558d30ff5771e9127c08948b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 39/96] fix: report an invalid key from Signer::get_public_key

---
 libursa/src/signatures/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
-- 
2.43.0


From 75f4f16d8668d7f37d1585b0ef12fe2b80ae5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 40/96] fix: refuse short seeds in secp256k1 key generation

---
 libursa/src/signatures/secp256k1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..65a4a77 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,11 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From 18c75bc38c9712af698b08c9c1701072ac27f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 41/96] fix: endless recursion serializing EcdsaSecp256k1Sha256

---
 libursa/src/signatures/secp256k1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index 65a4a77..4497a06 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -78,7 +78,7 @@ impl Serialize for EcdsaSecp256k1Sha256 {
     where
         S: Serializer,
     {
-        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", &self)
+        serializer.serialize_str(ALGORITHM_NAME)
     }
 }
 
-- 
2.43.0


From f4581a277c8dfe13a7ea588e1589c697b432d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 42/96] fix: refuse zero as a BLS private key

---
 libursa/src/signatures/bls.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 567b3bd..04dd401 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -3,7 +3,7 @@ use super::SignatureScheme;
 /// https://eprint.iacr.org/2018/483 and
 /// https://crypto.stanford.edu/~dabo/pubs/papers/BLSmultisig.html
 use amcl_wrapper::{
-    constants::{GroupG1_SIZE, MODBYTES},
+    constants::{CurveOrder, GroupG1_SIZE, MODBYTES},
     extension_field_gt::GT,
     field_elem::FieldElement,
     group_elem::GroupElement,
@@ -42,6 +42,18 @@ fn parse_point<G: GroupElement>(bytes: &[u8]) -> Result<G, CryptoError> {
     Ok(point)
 }
 
+// Zero is no private key: its public key and signatures are the neutral element
+fn parse_private_key(bytes: &[u8]) -> Result<PrivateKey, CryptoError> {
+    let invalid = || CryptoError::ParseError("Failed to parse private key.".to_string());
+    let mut key = PrivateKey::from_bytes(bytes).map_err(|_| invalid())?.to_bignum();
+    key.rmod(&CurveOrder);
+    let key = PrivateKey::from(key);
+    if key.is_zero() {
+        return Err(invalid());
+    }
+    Ok(key)
+}
+
 // Keys and signatures must be members of the prime order group other than the neutral element,
 // which satisfies the verification equation for any message
 fn is_valid<G: GroupElement>(point: &G) -> bool {
@@ -117,12 +129,7 @@ macro_rules! bls_impl {
                             )
                         }
                         KeyGenOption::FromSecretKey(ref key) => {
-                            let private_key =
-                                PrivateKey::from_bytes(key.as_ref()).map_err(|_| {
-                                    CryptoError::ParseError(
-                                        "Failed to parse private key.".to_string(),
-                                    )
-                                })?;
+                            let private_key = parse_private_key(key.as_ref())?;
                             (
                                 PublicKey::new(&private_key, &Generator::generator()),
                                 private_key,
@@ -141,9 +148,7 @@ macro_rules! bls_impl {
                 Ok(Signature::new(
                     message,
                     None,
-                    &PrivateKey::from_bytes(sk.as_ref()).map_err(|_| {
-                        CryptoError::ParseError("Failed to parse private key.".to_string())
-                    })?,
+                    &parse_private_key(sk.as_ref())?,
                 )
                 .to_bytes())
             }
@@ -847,7 +852,7 @@ mod tests {
         generate as small_generate, Generator as SmallGenerator, Signature as SmallSignature,
     };
     use amcl_wrapper::{
-        constants::{GroupG1_SIZE, MODBYTES},
+        constants::{CurveOrder, GroupG1_SIZE, MODBYTES},
         field_elem::FieldElement,
         group_elem::GroupElement,
         types_g2::GroupG2_SIZE,
-- 
2.43.0


From d8027ae27de1dbd36c3ac32b7d10688c670d2b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 43/96] fix: refuse X25519 keys of the wrong length

---
 libursa/src/kex/x25519.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..431b5d2 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -10,6 +10,14 @@ use CryptoError;
 
 pub struct X25519Sha256;
 
+// An Ed25519 key pair is longer, its secret comes first
+fn load_secret(key: &PrivateKey) -> Result<StaticSecret, CryptoError> {
+    if key.len() < 32 {
+        return Err(CryptoError::ParseError("Invalid private key".to_string()));
+    }
+    Ok(StaticSecret::from(*array_ref!(&key[..], 0, 32)))
+}
+
 impl KeyExchangeScheme for X25519Sha256 {
     fn new() -> Self {
         Self
@@ -30,7 +38,7 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
-                    let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
+                    let sk = load_secret(s)?;
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
                 }
@@ -53,7 +61,10 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
-        let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
+        let sk = load_secret(local_private_key)?;
+        if remote_public_key.len() != 32 {
+            return Err(CryptoError::ParseError("Invalid public key".to_string()));
+        }
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
         let hash = sha2::Sha256::digest(shared_secret.as_bytes());
-- 
2.43.0


From 530d8089af7129a4a3382d74deccb3fda736eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 44/96] fix: refuse X25519 public keys of small order

---
 libursa/src/kex/x25519.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 431b5d2..8d62c7e 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -67,6 +67,10 @@ impl KeyExchangeScheme for X25519Sha256 {
         }
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
+        // Public keys of small order give zero with every private key
+        if shared_secret.as_bytes() == &[0u8; 32] {
+            return Err(CryptoError::ParseError("Invalid public key".to_string()));
+        }
         let hash = sha2::Sha256::digest(shared_secret.as_bytes());
         Ok(SessionKey(hash.as_slice().to_vec()))
     }
-- 
2.43.0


From c9d694c6e54b1b3352dc7b75bfbc41c8de1bde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 45/96] fix: refuse secp256k1 seeds and keys of the wrong
 length in key exchange

---
 libursa/src/kex/secp256k1.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..ccb9d8a 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -69,6 +69,11 @@ mod ecdh_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
@@ -150,6 +155,11 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
@@ -158,7 +168,14 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        if s.len() != PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::ParseError(
+                                "Invalid private key".to_string(),
+                            ));
+                        }
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
@@ -183,6 +200,9 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            if local_private_key.len() != PRIVATE_KEY_SIZE {
+                return Err(CryptoError::ParseError("Invalid private key".to_string()));
+            }
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
-- 
2.43.0


From 2d4b73055edf8c4f6e40c595660e2237537c4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 46/96] fix: encode the point at infinity of the pairing groups
 uniquely

---
 libursa/src/pair/amcl.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 95a1ecc..c1923b8 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -201,7 +201,12 @@ impl PointG1 {
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
         let mut vec = vec![0u8; Self::BYTES_REPR_SIZE];
-        self.point.tobytes(&mut vec, false);
+        if self.point.is_infinity() {
+            // The coordinates of a computed infinity are arbitrary
+            ECP::new().tobytes(&mut vec, false);
+        } else {
+            self.point.tobytes(&mut vec, false);
+        }
         Ok(vec)
     }
 
@@ -375,7 +380,12 @@ impl PointG2 {
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
         let mut vec = vec![0u8; Self::BYTES_REPR_SIZE];
-        self.point.tobytes(&mut vec);
+        if self.point.is_infinity() {
+            // The coordinates of a computed infinity are arbitrary
+            ECP2::new().tobytes(&mut vec);
+        } else {
+            self.point.tobytes(&mut vec);
+        }
         Ok(vec)
     }
 
-- 
2.43.0


From f06db073c5c932290f83874c2faf1da0e7ec3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 47/96] fix: refuse to finalize a proof builder for a second
 challenge

---
 libursa/src/cl/prover.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 91ae58c..57fe9e0 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -10,6 +10,7 @@ use utils::commitment::get_pedersen_commitment;
 use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use std::iter::FromIterator;
+use std::sync::Mutex;
 
 /// Credentials owner that can proof and partially disclose the credentials to verifier.
 pub struct Prover {}
@@ -297,6 +298,7 @@ impl Prover {
             init_proofs: Vec::new(),
             c_list: Vec::new(),
             tau_list: Vec::new(),
+            challenge: Mutex::new(None),
         })
     }
 
@@ -850,6 +852,8 @@ pub struct ProofBuilder {
     init_proofs: Vec<InitProof>,
     c_list: Vec<Vec<u8>>,
     tau_list: Vec<Vec<u8>>,
+    // Answering a second challenge with the same blindings would reveal the hidden values
+    challenge: Mutex<Option<BigNumber>>,
 }
 
 impl ProofBuilder {
@@ -1114,6 +1118,7 @@ impl ProofBuilder {
 
         // In the anoncreds whitepaper, `challenge` is denoted by `c_h`
         let challenge = get_hash_as_int(&values)?;
+        self._answer_only_once(&challenge)?;
 
         let mut proofs: Vec<SubProof> = Vec::new();
 
@@ -1157,6 +1162,23 @@ impl ProofBuilder {
         Ok(proof)
     }
 
+    fn _answer_only_once(&self, challenge: &BigNumber) -> UrsaCryptoResult<()> {
+        let mut answered = self
+            .challenge
+            .lock()
+            .map_err(|_| err_msg(UrsaCryptoErrorKind::InvalidState, "Proof builder is poisoned"))?;
+        match *answered {
+            Some(ref c) if c != challenge => Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Proof builder was already finalized for another challenge",
+            )),
+            _ => {
+                *answered = Some(challenge.try_clone()?);
+                Ok(())
+            }
+        }
+    }
+
     fn _check_add_sub_proof_request_params_consistency(
         cred_values: &CredentialValues,
         sub_proof_request: &SubProofRequest,
-- 
2.43.0


From 5f111cd453fda50171d4a619179ef3e25e132d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 48/96] fix: read BBS+ objects back from formats without byte
 strings such as JSON

---
 libzmix/bbs/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..f3e9903 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -218,6 +218,18 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // Formats without a byte string type, such as JSON, hold a sequence of bytes
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value = Vec::new();
+                        while let Some(byte) = seq.next_element::<u8>()? {
+                            value.push(byte);
+                        }
+                        self.visit_bytes(&value)
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
-- 
2.43.0


From 0e5d9988288a3dbc7f6195b6225ca7491c02fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 49/96] fix: refuse BBS+ message positions beyond the public
 key

---
 libzmix/bbs/src/prover.rs    | 2 +-
 libzmix/bbs/src/signature.rs | 7 +++++++
 libzmix/bbs/src/verifier.rs  | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..22741f5 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -160,6 +160,13 @@ impl BlindSignature {
             verkey.message_count(),
             messages.len()
         );
+        for i in messages.keys() {
+            check_verkey_message!(
+                *i >= verkey.message_count(),
+                verkey.message_count(),
+                *i
+            );
+        }
         signkey.validate()?;
         verkey.validate()?;
         let e = rand_non_zero_fr();
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..faa6602 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From d06e2951b51a627a64d19066f6a289121b2606c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 50/96] fix: refuse BBS+ public keys whose length does not fit
 the declared message count

---
 libzmix/bbs/src/keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..4706184 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,8 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        // w is twice the size of an element of G1
+        if data.len() < 3 * g1_size + 4 || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -135,6 +136,9 @@ impl PublicKey {
         c.read_exact(&mut h_bytes).unwrap();
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        if h_size != (data.len() - 4) / g1_size - 3 {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
-- 
2.43.0


From b837a1b5ab1b8a1755bab889953b1c81774e3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 51/96] fix: refuse BBS+ proofs of committed values with
 trailing or missing bytes

---
 libzmix/bbs/src/pok_vc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/pok_vc.rs b/libzmix/bbs/src/pok_vc.rs
index bc922ad..66e4138 100644
--- a/libzmix/bbs/src/pok_vc.rs
+++ b/libzmix/bbs/src/pok_vc.rs
@@ -390,7 +390,8 @@ impl ProofG1 {
         c.read_exact(&mut length_bytes).unwrap();
         let length = u32::from_be_bytes(length_bytes) as usize;
 
-        if data.len() < g_size + 4 + length * FR_COMPRESSED_SIZE {
+        let remaining = data.len() - g_size - 4;
+        if remaining % FR_COMPRESSED_SIZE != 0 || remaining / FR_COMPRESSED_SIZE != length {
             return Err(PoKVCErrorKind::GeneralError {
                 msg: "Invalid length".to_string(),
             }
-- 
2.43.0


From 9fa085e8839e6db10c20fafa75a2ef227c9eb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 52/96] fix: refuse BBS+ signature proofs of the wrong length
 instead of panicking

---
 libzmix/bbs/src/pok_sig.rs | 44 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..7007cb0 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,17 +325,17 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
-            return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
+        let responses = self.proof_vc_2.responses.get(2..).unwrap_or(&[]);
+        match responses.get(msg_idx) {
+            Some(response) => Ok(SignatureMessage(*response)),
+            None => Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
                     msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    responses.len()
                 ),
-            }));
+            })),
         }
-        // 2 added to the index, since 0th and 1st index are reserved for `&signature.e` and `r2`
-        Ok(SignatureMessage(self.proof_vc_2.responses[2 + msg_idx]))
     }
 
     /// Validate the proof
@@ -450,33 +450,27 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
-        let mut offset;
-        let mut end = g1_size;
         let a_prime = slice_to_elem!(&mut c, G1, compressed)?;
-
-        offset = end;
-        end = offset + g1_size;
-
         let a_bar = slice_to_elem!(&mut c, G1, compressed)?;
-        offset = end;
-        end = offset + g1_size;
-
         let d = slice_to_elem!(&mut c, G1, compressed)?;
-        offset = end;
-        end = offset + 4;
-        let proof1_bytes = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
 
-        offset = end;
-        end = offset + proof1_bytes;
-        let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
-
-        let proof_vc_2 = ProofG1::from_bytes(&data[end..], g1_size, compressed)?;
+        let offset = g1_size * 3;
+        let proof1_bytes = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
+        let proofs = &data[offset + 4..];
+        if proofs.len() < proof1_bytes {
+            return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
+                msg: format!("Invalid proof bytes. Expected {}", proof1_bytes),
+            }));
+        }
+        let (proof1, proof2) = proofs.split_at(proof1_bytes);
+        let proof_vc_1 = ProofG1::from_bytes(proof1, g1_size, compressed)?;
+        let proof_vc_2 = ProofG1::from_bytes(proof2, g1_size, compressed)?;
         Ok(Self {
             a_prime,
             a_bar,
-- 
2.43.0


From 3e8d19f13d3fedff454a07d772bf7ef16e1becd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 53/96] fix: refuse malformed bytes of a BBS+ selective
 disclosure proof instead of panicking

---
 libzmix/bbs/src/lib.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..0d2d97d 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -646,27 +646,35 @@ impl SignatureProof {
             )));
         }
 
-        let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
-        let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
+        let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
+        if data.len() - 8 < proof_len {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(proof_len, data.len() - 8).into());
+        }
+        let offset = proof_len + 4;
+        let proof = PoKOfSignatureProof::from_bytes(&data[4..offset], g1_size, compressed)?;
 
-        let mut offset = proof_len;
         let revealed_messages_len = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
-        offset += 4;
-        let mut end = offset + 4;
+        let revealed = &data[offset + 4..];
+        let entry_size = 4 + FR_COMPRESSED_SIZE;
+        if revealed.len() % entry_size != 0 || revealed.len() / entry_size != revealed_messages_len
+        {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(
+                revealed_messages_len.saturating_mul(entry_size),
+                revealed.len(),
+            )
+            .into());
+        }
 
         let mut revealed_messages = BTreeMap::new();
-        for _ in 0..revealed_messages_len {
-            let i = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
-
-            offset = end;
-            end = offset + FR_COMPRESSED_SIZE;
-
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
-
-            offset = end;
-            end = offset + 4;
-
-            revealed_messages.insert(i, m);
+        for entry in revealed.chunks(entry_size) {
+            let i = u32::from_be_bytes(*array_ref![entry, 0, 4]) as usize;
+            let m = SignatureMessage::try_from(&entry[4..])?;
+            if revealed_messages.insert(i, m).is_some() {
+                return Err(BBSErrorKind::GeneralError {
+                    msg: format!("Message {} is revealed more than once", i),
+                }
+                .into());
+            }
         }
 
         Ok(Self {
-- 
2.43.0


From 517ceb5bb6720f718f70b79491c9544cbf937d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 54/96] fix: refuse malformed bytes of a BBS+ proof request
 instead of panicking

---
 libzmix/bbs/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index 0d2d97d..278f9ab 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -552,9 +552,21 @@ impl ProofRequest {
             return Err(BBSErrorKind::InvalidNumberOfBytes(min_len, data.len()).into());
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
-        let offset = 4 + bitvector_len;
-        let revealed_messages = bitvector_to_revealed(&data[4..offset]);
-        let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
+        if data.len() - 4 < bitvector_len {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(bitvector_len, data.len() - 4).into());
+        }
+        let (bitvector, key) = data[4..].split_at(bitvector_len);
+        let revealed_messages = bitvector_to_revealed(bitvector);
+        let verification_key = PublicKey::from_bytes(key, g1_size, compressed)?;
+        if let Some(i) = revealed_messages.iter().next_back() {
+            if *i >= verification_key.message_count() {
+                return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
+                    *i,
+                    verification_key.message_count(),
+                )
+                .into());
+            }
+        }
         Ok(Self {
             revealed_messages,
             verification_key,
-- 
2.43.0


From 5fefca09b11923b152324b94458c0a01fc5f14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 55/96] fix: refuse BBS+ elements and signatures with trailing
 bytes

---
 libzmix/bbs/src/macros.rs    | 6 ++++++
 libzmix/bbs/src/signature.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index f3e9903..ae7cf4a 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -20,6 +20,9 @@ macro_rules! from_impl {
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
                 let mut value = value;
+                if value.len() != $size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($size, value.len()).into());
+                }
                 let inner = $type::deserialize(&mut value, true)?;
                 Ok(Self(inner))
             }
@@ -79,6 +82,9 @@ macro_rules! from_impl {
             type Error = BBSError;
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
+                if value.len() != $comp_size && value.len() != $uncomp_size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($comp_size, value.len()).into());
+                }
                 let inner = $type::deserialize(&mut value.as_ref(), value.len() == $comp_size)?;
                 Ok(Self(inner))
             }
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 22741f5..19f97ec 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -85,6 +85,13 @@ macro_rules! try_from_impl {
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
                 let mut value = value;
                 let compressed = value.len() == SIGNATURE_COMPRESSED_SIZE;
+                if !compressed && value.len() != SIGNATURE_UNCOMPRESSED_SIZE {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes(
+                        SIGNATURE_COMPRESSED_SIZE,
+                        value.len(),
+                    )
+                    .into());
+                }
                 let a = G1::deserialize(&mut value, compressed)?;
                 let e = Fr::deserialize(&mut value, compressed)?;
                 let s = Fr::deserialize(&mut value, compressed)?;
-- 
2.43.0


From 5dfdfb28c2eeb42333b6987ddc0c991500a1a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 56/96] fix: refuse a BBS+ proof that does not reveal exactly
 the requested messages

---
 libzmix/bbs/src/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index faa6602..6c27902 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,16 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From 11e9a6aaedd6cf143e56395650efb2ce97ec0da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 57/96] fix: refuse to derive a BBS+ challenge from unequal
 numbers of proofs and requests

---
 libzmix/bbs/src/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 6c27902..2c3a791 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -95,6 +95,16 @@ impl Verifier {
         nonce: &ProofNonce,
         claims: Option<&[&[u8]]>,
     ) -> Result<ProofChallenge, BBSError> {
+        if proofs.len() != proof_requests.len() {
+            return Err(BBSErrorKind::GeneralError {
+                msg: format!(
+                    "{} proofs for {} proof requests",
+                    proofs.len(),
+                    proof_requests.len()
+                ),
+            }
+            .into());
+        }
         let mut bytes = Vec::new();
 
         for pr in proofs.iter().zip(proof_requests.iter()) {
-- 
2.43.0


From 8ac8bcc7bc7a4353d8736f537a8ab674b85c6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 58/96] fix: read back PS proofs over the group of the
 verification key from their bytes

---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..e7db392 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From 3c845a8c6b18e04f94982b51182e2487ac26ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 59/96] fix: refuse PS proofs with revealed positions beyond
 the key or without responses

---
 libzmix/src/signatures/ps/pok_sig.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index e7db392..08d0d98 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let message_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= message_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, message_count
                 ),
             }
             .into());
@@ -207,6 +207,14 @@ impl PoKOfSignatureProof {
         revealed_msgs: HashMap<usize, FieldElement>,
         challenge: &FieldElement,
     ) -> Result<bool, PSError> {
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
         if self.sig.sigma_1.is_identity() || self.sig.sigma_2.is_identity() {
             return Ok(false);
         }
-- 
2.43.0


From f1d5da95028e4f8aed9720a41db294c903d538d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 60/96] fix: refuse proofs of committed values with trailing or
 missing bytes

---
 libzmix/src/commitments/pok_vc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libzmix/src/commitments/pok_vc.rs b/libzmix/src/commitments/pok_vc.rs
index 9de1813..522373e 100644
--- a/libzmix/src/commitments/pok_vc.rs
+++ b/libzmix/src/commitments/pok_vc.rs
@@ -293,7 +293,10 @@ macro_rules! impl_PoK_VC {
                 let length = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
                 offset += 4;
 
-                if data.len() < offset + length * amcl_wrapper::constants::FieldElement_SIZE {
+                let remaining = data.len() - offset;
+                if remaining % amcl_wrapper::constants::FieldElement_SIZE != 0
+                    || remaining / amcl_wrapper::constants::FieldElement_SIZE != length
+                {
                     return Err(PoKVCErrorKind::GeneralError {
                         msg: format!("Invalid length"),
                     }
-- 
2.43.0


From c6762be212a52daa22cc416d87809e9fe014b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 61/96] fix: hash the revealed attributes of a token in a fixed
 order

---
 libzmix/src/signatures/delg_cred_cdd/attribute_token.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 6b8da89..8cec0e3 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -10,7 +10,7 @@ use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
 use amcl_wrapper::group_elem_g1::{G1LookupTable, G1Vector, G1};
 use amcl_wrapper::group_elem_g2::{G2LookupTable, G2Vector, G2};
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 pub type OddLevelAttribute = G1;
 pub type EvenLevelAttribute = G2;
@@ -1324,13 +1324,15 @@ impl AttributeTokenComm {
             }
         }
         for r_map in &self.odd_level_revealed_attributes {
-            for e in r_map.iter() {
+            // A map has no order of its own
+            for e in r_map.iter().collect::<BTreeMap<_, _>>() {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
         }
         for r_map in &self.even_level_revealed_attributes {
-            for e in r_map.iter() {
+            // A map has no order of its own
+            for e in r_map.iter().collect::<BTreeMap<_, _>>() {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
-- 
2.43.0


From e7ad115a9a0f6b7e388ef9ef99173e4031b48299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 62/96] fix: weigh each check of a batch of delegations
 differently

---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..921321b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -492,7 +492,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 4c6a79f15a6e4160ddf87a90e08716afbbd413e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 63/96] fix: verify Groth signatures for exactly the signed
 number of messages

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 54 +++++++++----------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 921321b..56d9d25 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -88,7 +88,7 @@ macro_rules! impl_GrothS_setup {
 
 macro_rules! impl_GrothSig_new {
     ( $messages:ident, $sk:ident, $y:expr, $g_r:expr, $g_s:expr, $msg_group_vec:ident ) => {{
-        if $messages.len() > $y.len() {
+        if $messages.len() > $y.len() || $y.len() == 0 {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: $y.len(),
                 given: $messages.len(),
@@ -108,6 +108,26 @@ macro_rules! impl_GrothSig_new {
     }};
 }
 
+/// The signature is over exactly the given messages and the parameters support them
+macro_rules! check_count_of_messages {
+    ( $self:ident, $messages:ident, $setup_params:ident ) => {
+        if $messages.len() > $setup_params.y.len() || $setup_params.y.len() == 0 {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: $setup_params.y.len(),
+                given: $messages.len(),
+            }
+            .into());
+        }
+        if $messages.len() != $self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: $self.T.len(),
+                given: $messages.len(),
+            }
+            .into());
+        }
+    };
+}
+
 macro_rules! impl_GrothSig_randomize {
     (  ) => {
         /// This multiplication randomizes the signature making it indistinguishable from previous
@@ -204,13 +224,7 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
-            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
-                expected: setup_params.y.len(),
-                given: messages.len(),
-            }
-            .into());
-        }
+        check_count_of_messages!(self, messages, setup_params);
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -255,13 +269,7 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
-            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
-                expected: setup_params.y.len(),
-                given: messages.len(),
-            }
-            .into());
-        }
+        check_count_of_messages!(self, messages, setup_params);
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -376,13 +384,7 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
-            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
-                expected: setup_params.y.len(),
-                given: messages.len(),
-            }
-            .into());
-        }
+        check_count_of_messages!(self, messages, setup_params);
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -426,13 +428,7 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
-            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
-                expected: setup_params.y.len(),
-                given: messages.len(),
-            }
-            .into());
-        }
+        check_count_of_messages!(self, messages, setup_params);
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
-- 
2.43.0


From 89fda73fb7d3b9feee263a1df24dbc5739f0ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 64/96] fix: refuse delegation links without attributes or of
 lower levels

---
 libzmix/src/signatures/delg_cred_cdd/issuer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..f74c449 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,10 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                match self.attributes.as_slice().last() {
+                    Some(a) => *a == vk.0,
+                    None => false,
+                }
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -59,6 +62,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.attributes.len() != self.signature.T.len() {
+                    return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
@@ -199,7 +209,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && (link.level != self.odd_links[self.odd_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +232,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && (link.level != self.even_links[self.even_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
-- 
2.43.0


From f614043fe10a97ad15bee7cc5ba272fab666a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 65/96] fix: refuse delegation chains whose levels do not
 alternate

---
 libzmix/src/signatures/delg_cred_cdd/issuer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index f74c449..ee0796d 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -438,6 +438,15 @@ impl CredChain {
         if size == 0 {
             return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
         }
+        // Levels alternate, starting with an odd one
+        if self.even_size() != (size / 2) {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenValues {
+                expected: size / 2,
+                given: self.even_size(),
+                entity_type: "links".to_string(),
+            }
+            .into());
+        }
         if (even_level_vks.len() + odd_level_vks.len()) != (size + 1) {
             return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
                 expected: size + 1,
-- 
2.43.0


From 27c223f9b4413dc1812fc55665026768f3c49b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 66/96] fix: refuse to extend or truncate chains of delegations
 with wrong levels without a panic

---
 libzmix/src/signatures/delg_cred_cdd/issuer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index ee0796d..b909b2b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -209,7 +209,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && (link.level != self.odd_links[self.odd_size() - 1].level + 2)
+            && link.level.checked_sub(self.odd_links[self.odd_size() - 1].level) != Some(2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -232,7 +232,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && (link.level != self.even_links[self.even_size() - 1].level + 2)
+            && link.level.checked_sub(self.even_links[self.even_size() - 1].level) != Some(2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -418,11 +418,13 @@ impl CredChain {
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
-                new_chain.odd_links.push(self.odd_links[i / 2].clone());
+                new_chain
+                    .odd_links
+                    .push(self.get_odd_link(i / 2)?.clone());
             } else {
                 new_chain
                     .even_links
-                    .push(self.even_links[(i / 2) - 1].clone());
+                    .push(self.get_even_link((i / 2) - 1)?.clone());
             }
         }
         Ok(new_chain)
-- 
2.43.0


From 6690de2f8db6c7a9ef3f9ad833c3b65f318202b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 67/96] fix: refuse to reveal attributes that a delegated
 credential does not have

---
 .../delg_cred_cdd/attribute_token.rs          | 59 +++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 8cec0e3..8230de1 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -191,6 +191,36 @@ macro_rules! check_blindings_count {
     }};
 }
 
+/// Check that the last of the attributes, which is the verkey, is there and that only others are revealed
+fn check_attribute_indices<'b>(
+    revealed: impl IntoIterator<Item = &'b usize>,
+    attr_count: usize,
+    max_count: usize,
+) -> DelgCredCDDResult<()> {
+    if attr_count > max_count {
+        return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+            expected: max_count,
+            given: attr_count,
+        }
+        .into());
+    }
+    if attr_count == 0 {
+        return Err(DelgCredCDDErrorKind::GeneralError {
+            msg: "no attributes".to_string(),
+        }
+        .into());
+    }
+    for j in revealed {
+        if *j >= attr_count - 1 {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: format!("no attribute with index {}", j),
+            }
+            .into());
+        }
+    }
+    Ok(())
+}
+
 impl<'a> AttributeToken<'a> {
     pub fn new(
         cred_chain: &'a CredChain,
@@ -715,6 +745,35 @@ impl<'a> AttributeToken<'a> {
             );
         }
 
+        if precomp_chain.pairing_g_r.len() != self.L
+            || precomp_setup.groth1_neg_y_g2.len() != self.setup_params_1.y.len()
+            || precomp_setup.groth2_neg_g1_y.len() != self.setup_params_2.y.len()
+        {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: "precomputed values are for another chain or other parameters".to_string(),
+            }
+            .into());
+        }
+        for i in 1..=self.L {
+            let (attr_count, max_count) = if i % 2 == 1 {
+                let link = self.cred_chain.get_odd_link(i / 2)?;
+                (link.attribute_count(), self.setup_params_1.y.len())
+            } else {
+                let link = self.cred_chain.get_even_link((i / 2) - 1)?;
+                (link.attribute_count(), self.setup_params_2.y.len())
+            };
+            check_attribute_indices(&revealed[i - 1], attr_count, max_count)?;
+        }
+
+        // Values from an earlier commitment are of no use
+        self.odd_level_blinded_sigs.clear();
+        self.even_level_blinded_sigs.clear();
+        self.blindings_sigs = FieldElementVector::with_capacity(self.L);
+        self.blindings_vk = FieldElementVector::with_capacity(self.L);
+        self.blindings_s = FieldElementVector::with_capacity(self.L);
+        self.blindings_t.clear();
+        self.blindings_a.clear();
+
         let mut odd_level_revealed_attributes =
             Vec::<HashMap<usize, OddLevelAttribute>>::with_capacity(self.L);
         let mut even_level_revealed_attributes =
-- 
2.43.0


From 09127e46fe2046a65c98fe3e14070ac6ff915c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 68/96] fix: refuse to respond for a token without its
 commitment or verkeys

---
 .../delg_cred_cdd/attribute_token.rs          | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 8230de1..a2e6089 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -271,6 +271,37 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenResp> {
         at.validate(self.L)?;
 
+        // The verkey of the last level is not needed
+        if odd_level_vks.len() < (self.L / 2) || even_level_vks.len() < (self.L.max(1) - 1) / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
+                expected: self.L.max(1) - 1,
+                given: even_level_vks.len() + odd_level_vks.len(),
+            }
+            .into());
+        }
+        if self.blindings_t.len() != self.L {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: "no commitment to respond to".to_string(),
+            }
+            .into());
+        }
+        for i in 1..=self.L {
+            let attr_count = self.blindings_t[i - 1].len();
+            if i % 2 == 1 {
+                check_attribute_indices(
+                    at.odd_level_revealed_attributes[i / 2].keys(),
+                    attr_count,
+                    attr_count,
+                )?;
+            } else {
+                check_attribute_indices(
+                    at.even_level_revealed_attributes[(i / 2) - 1].keys(),
+                    attr_count,
+                    attr_count,
+                )?;
+            }
+        }
+
         let mut resp_csk = FieldElement::zero();
         let mut odd_level_resp_vk = G1Vector::new(0);
         let mut even_level_resp_vk = G2Vector::new(0);
-- 
2.43.0


From 3f9f47bbe261aa960a486617ac4976d46c2505fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 69/96] fix: refuse attribute tokens that reveal other
 attributes than expected or have a wrong shape

---
 .../delg_cred_cdd/attribute_token.rs          | 110 +++++++++++++++++-
 1 file changed, 106 insertions(+), 4 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index a2e6089..5643853 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -221,6 +221,79 @@ fn check_attribute_indices<'b>(
     Ok(())
 }
 
+/// Check that the commitments and the responses have values for just the levels and attributes
+/// which are needed and that the attributes revealed are those which should be.
+fn validate_for_reconstruction(
+    L: usize,
+    comm: &AttributeTokenComm,
+    resp: &AttributeTokenResp,
+    revealed: &[HashSet<usize>],
+    setup_params_1: &Groth1SetupParams,
+    setup_params_2: &Groth2SetupParams,
+) -> DelgCredCDDResult<()> {
+    if L == 0 {
+        return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
+    }
+    comm.validate(L)?;
+    resp.validate(L)?;
+    if revealed.len() != L {
+        return Err(
+            DelgCredCDDErrorKind::IncorrectNumberOfRevealedAttributeSets {
+                expected: L,
+                given: revealed.len(),
+            }
+            .into(),
+        );
+    }
+    for i in 1..=L {
+        let attr_count = comm.comms_t[i - 1].len();
+        let (max_count, same_revealed, count_t, count_a) = if i % 2 == 1 {
+            let attrs = &comm.odd_level_revealed_attributes[i / 2];
+            (
+                setup_params_1.y.len(),
+                attrs.len() == revealed[i - 1].len()
+                    && revealed[i - 1].iter().all(|j| attrs.contains_key(j)),
+                resp.odd_level_resp_t[i / 2].len(),
+                resp.odd_level_resp_a[i / 2].len(),
+            )
+        } else {
+            let attrs = &comm.even_level_revealed_attributes[(i / 2) - 1];
+            (
+                setup_params_2.y.len(),
+                attrs.len() == revealed[i - 1].len()
+                    && revealed[i - 1].iter().all(|j| attrs.contains_key(j)),
+                resp.even_level_resp_t[(i / 2) - 1].len(),
+                resp.even_level_resp_a[(i / 2) - 1].len(),
+            )
+        };
+        check_attribute_indices(&revealed[i - 1], attr_count, max_count)?;
+        if !same_revealed {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: format!("other attributes revealed at level {}", i),
+            }
+            .into());
+        }
+        if count_t != attr_count {
+            return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                count_commitments: attr_count,
+                count_responses: count_t,
+                entity_type: "t from signature".to_string(),
+            }
+            .into());
+        }
+        // Last attribute is the verkey
+        if count_a != attr_count - 1 - revealed[i - 1].len() {
+            return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                count_commitments: attr_count - 1 - revealed[i - 1].len(),
+                count_responses: count_a,
+                entity_type: "unrevealed attributes".to_string(),
+            }
+            .into());
+        }
+    }
+    Ok(())
+}
+
 impl<'a> AttributeToken<'a> {
     pub fn new(
         cred_chain: &'a CredChain,
@@ -460,8 +533,7 @@ impl<'a> AttributeToken<'a> {
         setup_params_1: &Groth1SetupParams,
         setup_params_2: &Groth2SetupParams,
     ) -> DelgCredCDDResult<AttributeTokenComm> {
-        comm.validate(L)?;
-        resp.validate(L)?;
+        validate_for_reconstruction(L, comm, resp, &revealed, setup_params_1, setup_params_2)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -1023,8 +1095,7 @@ impl<'a> AttributeToken<'a> {
         setup_params_2: &Groth2SetupParams,
         precomputed: &PrecompForCommitmentReconstitution,
     ) -> DelgCredCDDResult<AttributeTokenComm> {
-        comm.validate(L)?;
-        resp.validate(L)?;
+        validate_for_reconstruction(L, comm, resp, &revealed, setup_params_1, setup_params_2)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -1037,6 +1108,12 @@ impl<'a> AttributeToken<'a> {
         let groth2_neg_g2 = -&setup_params_2.g2;
 
         let challenge_neg = -challenge;
+        if precomputed.groth1_y_ipk.len() != setup_params_1.y.len() {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: "precomputed values are for other parameters".to_string(),
+            }
+            .into());
+        }
         // g1^-c
         let groth2_g1_c = &setup_params_2.g1 * &challenge_neg;
         // g2^-c
@@ -1450,6 +1527,31 @@ impl AttributeTokenResp {
             }
             .into());
         }
+
+        let (odd, even) = (L - L / 2, L / 2);
+        check_odd_collection_length!(self.odd_level_resp_s, L, "s responses".to_string())?;
+        check_even_collection_length!(self.even_level_resp_s, L, "s responses".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_t, L, "t responses".to_string())?;
+        check_even_collection_length!(self.even_level_resp_t, L, "t responses".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_a, L, "a responses".to_string())?;
+        check_even_collection_length!(self.even_level_resp_a, L, "a responses".to_string())?;
+        // There are no responses for the verkey of the last level
+        if self.odd_level_resp_vk.len() + L % 2 != odd {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfOddValues {
+                expected: odd - L % 2,
+                given: self.odd_level_resp_vk.len(),
+                entity_type: "verkey responses".to_string(),
+            }
+            .into());
+        }
+        if L != 0 && self.even_level_resp_vk.len() + 1 - L % 2 != even {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenValues {
+                expected: even + L % 2 - 1,
+                given: self.even_level_resp_vk.len(),
+                entity_type: "verkey responses".to_string(),
+            }
+            .into());
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 7dec6be46e94c959779f68d4c38e4aa1b32fc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 70/96] fix: read back attribute tokens and precomputed values
 from their serialization

---
 .../delg_cred_cdd/attribute_token.rs          | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 5643853..30dad6a 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -12,6 +12,49 @@ use amcl_wrapper::group_elem_g1::{G1LookupTable, G1Vector, G1};
 use amcl_wrapper::group_elem_g2::{G2LookupTable, G2Vector, G2};
 use std::collections::{BTreeMap, HashMap, HashSet};
 
+/// The serialization that GT has itself cannot be deserialized
+mod gt_as_bytes {
+    use amcl_wrapper::extension_field_gt::GT;
+    use serde::de::{DeserializeOwned, Error};
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    pub trait AsBytes: Sized {
+        type Bytes: Serialize + DeserializeOwned;
+        fn as_bytes(&self) -> Self::Bytes;
+        fn from_bytes(bytes: Self::Bytes) -> Result<Self, String>;
+    }
+
+    impl AsBytes for GT {
+        type Bytes = Vec<u8>;
+        fn as_bytes(&self) -> Vec<u8> {
+            self.to_bytes()
+        }
+        fn from_bytes(bytes: Vec<u8>) -> Result<Self, String> {
+            GT::from_bytes(&bytes).map_err(|e| format!("{:?}", e))
+        }
+    }
+
+    impl<T: AsBytes> AsBytes for Vec<T> {
+        type Bytes = Vec<T::Bytes>;
+        fn as_bytes(&self) -> Self::Bytes {
+            self.iter().map(|e| e.as_bytes()).collect()
+        }
+        fn from_bytes(bytes: Self::Bytes) -> Result<Self, String> {
+            bytes.into_iter().map(T::from_bytes).collect()
+        }
+    }
+
+    pub fn serialize<T: AsBytes, S: Serializer>(value: &T, serializer: S) -> Result<S::Ok, S::Error> {
+        value.as_bytes().serialize(serializer)
+    }
+
+    pub fn deserialize<'de, T: AsBytes, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<T, D::Error> {
+        T::from_bytes(T::Bytes::deserialize(deserializer)?).map_err(D::Error::custom)
+    }
+}
+
 pub type OddLevelAttribute = G1;
 pub type EvenLevelAttribute = G2;
 
@@ -35,7 +78,9 @@ pub struct AttributeToken<'a> {
 pub struct AttributeTokenComm {
     pub odd_level_blinded_r: G2Vector,
     pub even_level_blinded_r: G1Vector,
+    #[serde(with = "gt_as_bytes")]
     pub comms_s: Vec<GT>,
+    #[serde(with = "gt_as_bytes")]
     pub comms_t: Vec<Vec<GT>>,
     pub odd_level_revealed_attributes: Vec<HashMap<usize, OddLevelAttribute>>,
     pub even_level_revealed_attributes: Vec<HashMap<usize, EvenLevelAttribute>>,
@@ -58,17 +103,22 @@ pub struct AttributeTokenResp {
 pub struct PrecompOnSetupParams {
     // In practice, e(g1, g2)^-1 in both Groth1 and Groth2 can be same
     // e(g1, g2)^-1 when g1 and g2 are part of Groth1 params
+    #[serde(with = "gt_as_bytes")]
     pub pairing_inv_groth1_g1_g2: GT,
     // e(g1, g2)^-1 when g1 and g2 are part of Groth2 params
+    #[serde(with = "gt_as_bytes")]
     pub pairing_inv_groth2_g1_g2: GT,
     // e(-y_i, g1) when g2 and y_i are part of Groth1 params
+    #[serde(with = "gt_as_bytes")]
     pub groth1_neg_y_g2: Vec<GT>,
     // e(-g1, y_i) when g1 and y_i are part of Groth2 params
+    #[serde(with = "gt_as_bytes")]
     pub groth2_neg_g1_y: Vec<GT>,
 }
 
 #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
 pub struct PrecompOnCredChain {
+    #[serde(with = "gt_as_bytes")]
     pub pairing_g_r: Vec<GT>,
 }
 
@@ -76,12 +126,18 @@ pub struct PrecompOnCredChain {
 pub struct PrecompForCommitmentReconstitution {
     // In practice, e(g1, g2)^-1 in both Groth1 and Groth2 can be same
     // e(g1, g2)^-1 when g1 and g2 are part of Groth1 params
+    #[serde(with = "gt_as_bytes")]
     pub pairing_inv_groth1_g1_g2: GT,
     // e(g1, g2)^-1 when g1 and g2 are part of Groth2 params
+    #[serde(with = "gt_as_bytes")]
     pub pairing_inv_groth2_g1_g2: GT,
+    #[serde(with = "gt_as_bytes")]
     pub groth1_y0_g2: GT,
+    #[serde(with = "gt_as_bytes")]
     pub groth2_g1_y0: GT,
+    #[serde(with = "gt_as_bytes")]
     pub groth1_g1_ipk: GT,
+    #[serde(with = "gt_as_bytes")]
     pub groth1_y_ipk: Vec<GT>,
 }
 
-- 
2.43.0


From 3a3b46af64f39a9b3581e5f62323616673c25ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 71/96] fix: verifying an encryption proof takes exactly one
 answer per encrypted message

With more answers than the ciphertext has elements the verifier indexed out of
bounds; with fewer, the remaining elements went unverified.
---
 .../verifiable_encryption/cs_verifiable_encryption.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..fdafffc 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,6 +354,17 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of s values {} is not equal to the number of encrypted messages {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
-- 
2.43.0


From 39c01bf823cdab73e8f284b9fdc1b4f5ea3f5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 72/96] fix: a verified encryption has the form decryption
 accepts

Decryption took -u and -e for u and e (the hash only covers absolute values),
so an altered ciphertext still opened; and verification did not check that v
is an absolute value, so that a ciphertext with -v verified but did not
decrypt. Both now refuse elements out of range and a v that is not absolute.
---
 .../cs_verifiable_encryption.rs               | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index fdafffc..ddf9958 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -208,13 +208,7 @@ pub fn decrypt(
 
     let paillier_group = &pub_key.paillier_group;
 
-    // Check if abs(v) == v?
-    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
-        return Err(UrsaCryptoError::from_msg(
-            UrsaCryptoErrorKind::InvalidStructure,
-            format!("absolute check failed for v {:?}", &ciphertext.v),
-        ));
-    }
+    check_ciphertext(ciphertext, paillier_group, &mut ctx)?;
     let hs = &hash(&ciphertext.u, &ciphertext.e, label)?;
     let hs_x3 = hs.mul(&pri_key.x3, Some(&mut ctx))?;
     let hs_x3_x2_times_2 = hs_x3.add(&pri_key.x2)?.lshift1()?;
@@ -371,6 +365,8 @@ pub fn reconstruct_blindings_ciphertext(
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    check_ciphertext(ciphertext, paillier_group, &mut ctx)?;
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
@@ -408,6 +404,32 @@ pub fn reconstruct_blindings_ciphertext(
     })
 }
 
+/// The elements of a ciphertext are given by their least positive residues, and v by its absolute
+/// value, as encryption computes them. Any other number for the same residue, or -v, would let the
+/// same encryption appear as a different ciphertext, or verify without decrypting.
+fn check_ciphertext(
+    ciphertext: &CSCiphertext,
+    paillier_group: &PaillierGroup,
+    ctx: &mut BigNumberContext,
+) -> UrsaCryptoResult<()> {
+    let zero = BigNumber::new()?;
+    for x in Some(&ciphertext.u).into_iter().chain(&ciphertext.e) {
+        if *x <= zero || *x >= paillier_group.modulus {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("ciphertext element out of range {:?}", x),
+            ));
+        }
+    }
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+    Ok(())
+}
+
 /// Compute u, e and v
 fn encrypt_using_random_value(
     random_value: &BigNumber,
-- 
2.43.0


From d69483b083735f24db34d6a8a5f445b07667cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 73/96] fix: a message the key cannot carry is refused, not
 encrypted as another

A negative message or one not below n was encrypted, and decrypted to its
residue modulo n.
---
 .../verifiable_encryption/cs_verifiable_encryption.rs    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index ddf9958..86e063d 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -437,6 +437,15 @@ fn encrypt_using_random_value(
     label: &[u8],
     pub_key: &CSEncPubkey,
 ) -> UrsaCryptoResult<CSCiphertext> {
+    for message in messages {
+        if message.is_negative() || *message >= pub_key.n {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "message is out of range for the public key",
+            ));
+        }
+    }
+
     let mut ctx = BigNumber::new_context()?;
 
     let u = compute_u(random_value, pub_key, &mut ctx)?;
-- 
2.43.0


From b0ae3cb7e2ee75da3e94152abc41b135af7b8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 74/96] fix: a ciphertext is bound to its label and to the
 number of its messages

The hash that makes a ciphertext non-malleable covered the concatenation of its
elements and the label. Moving the last encrypted message into the label gave a
different ciphertext, under a different label, that decrypted and verified.
Each part now enters the hash with its length. Ciphertexts made before this
change have to be made anew.
---
 .../cs_verifiable_encryption.rs                     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 86e063d..415ebe7 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -521,11 +521,18 @@ fn compute_v(
 }
 
 fn hash(u: &BigNumber, e: &[BigNumber], label: &[u8]) -> UrsaCryptoResult<BigNumber> {
-    let mut arr = vec![u.to_bytes()?];
+    let mut arr = vec![];
+    let mut push = |bytes: Vec<u8>| {
+        arr.push((bytes.len() as u64).to_be_bytes().to_vec());
+        arr.push(bytes);
+    };
+    push(u.to_bytes()?);
     for b in e {
-        arr.push(b.to_bytes()?)
+        push(b.to_bytes()?);
     }
-    arr.push(label.to_vec());
+    push(label.to_vec());
+    // a label is not taken for an encrypted message, nor the reverse
+    arr.push((e.len() as u64).to_be_bytes().to_vec());
     get_hash_as_int(&arr)
 }
 
-- 
2.43.0


From 0ed5be5cea75729e8d4c85b68076606316bc824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 75/96] fix: a sparse tree proof of another length than the
 tree's depth is refused

A shorter proof made the verification index out of bounds, and the surplus of a
longer one was ignored.
---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs   | 5 +++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..5b59863 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -168,6 +168,11 @@ where
         proof: &[ProofNode4ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        // A proof has exactly one node per level
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..b36a7f5 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -173,6 +173,11 @@ where
         proof: &[ProofNode8ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        // A proof has exactly one node per level
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From f21fb7f0d4775b3b46fe05e44e895281946fcf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 76/96] hook: with cfg(ursa_sim), a verifier shows the circuit
 it has built

---
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..4f718a5 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -557,6 +557,15 @@ impl<'a> Verifier<'a> {
     }
 }
 
+/// For simulation: the circuit the verifier has built so far.
+#[cfg(ursa_sim)]
+impl<'a> Verifier<'a> {
+    /// Number of multipliers, and the linear combinations constrained to be zero.
+    pub fn circuit(&self) -> (usize, Vec<LinearCombination>) {
+        (self.num_vars, self.constraints.clone())
+    }
+}
+
 impl<'a, 'b> ConstraintSystem for RandomizingVerifier<'a> {
     type RandomizedCS = Self;
 
-- 
2.43.0


From c13715266cd87ef1377fdd4a0245cb286567283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 77/96] fix: bounds and set members that are large 64-bit
 numbers are the numbers they are

---
 .../src/r1cs/gadgets/bound_check.rs           | 19 ++++++++++---------
 .../r1cs/gadgets/helper_constraints/mod.rs    |  9 +++++++++
 .../src/r1cs/gadgets/set_membership_alt.rs    |  7 ++++---
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..186831f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,4 +1,5 @@
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -25,12 +26,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_elem_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -57,26 +58,26 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         blinding.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 878a3ac..060a4da 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -25,6 +25,15 @@ pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
 }
 
 /// Get byte size of number in given `base` with `num_digits` digits in that base
+/// The field element for a number. `FieldElement::from` takes the number for a signed one and leaves
+/// it in a single digit, which is wrong for numbers of more than 58 bits.
+pub fn field_elem_from_u64(n: u64) -> FieldElement {
+    let half = FieldElement::from(1u32 << 16);
+    let high = FieldElement::from((n >> 32) as u32);
+    let low = FieldElement::from(n as u32);
+    &(&(&high * &half) * &half) + &low
+}
+
 fn get_byte_size(num_digits: usize, base: u8) -> usize {
     let num_bits = get_bit_count(num_digits, base);
     num_bits / 8 + {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..6ad4855 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,5 +1,6 @@
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -55,9 +56,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             toggles[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
@@ -112,7 +113,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     // The toggle vector sum should be 1
     vector_sum_constraints(prover, toggles_vars, 1);
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
-- 
2.43.0


From 7b517122d2475f7589ba11e09197cec1d1b35c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:43 +0000
Subject: [PATCH 78/96] fix: a number out of bounds and bounds the wrong way
 round are refused, not a panic or a wrong number

---
 .../src/r1cs/gadgets/bound_check.rs                | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 186831f..227601e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -22,6 +22,13 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     min: u64,
     n: usize,
 ) -> Result<(), R1CSError> {
+    if min > max {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("The bounds {} and {} hold no number", min, max),
+        }
+        .into());
+    }
+
     // a = v - min
     // b = max - v
     // a + b = max - min
@@ -52,6 +59,13 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(blinding, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("{} is not between {} and {}", val, lower, upper),
+        }
+        .into());
+    }
+
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From 1470f56cdc04e904a117cab13ab88ade51989669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 79/96] fix: a verifier given another number of commitments
 than the statement has refuses, not panics or ignores

---
 .../src/r1cs/gadgets/bound_check.rs           |  3 +++
 .../r1cs/gadgets/helper_constraints/mod.rs    | 19 +++++++++++++++++++
 .../src/r1cs/gadgets/mimc.rs                  |  3 +++
 .../src/r1cs/gadgets/non_zero.rs              |  3 +++
 .../src/r1cs/gadgets/poseidon_hash.rs         |  7 +++++++
 .../src/r1cs/gadgets/set_membership.rs        |  3 +++
 .../src/r1cs/gadgets/set_membership_alt.rs    |  3 +++
 .../src/r1cs/gadgets/set_non_membership.rs    |  3 +++
 8 files changed, 44 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 227601e..09caf31 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::positive_no::positive_no_gadget;
@@ -115,6 +116,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 060a4da..d9427b6 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -3,6 +3,7 @@ use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::constants::MODBYTES;
 use amcl_wrapper::field_elem::FieldElement;
+use amcl_wrapper::group_elem_g1::G1;
 
 use rand::{CryptoRng, Rng};
 
@@ -34,6 +35,24 @@ pub fn field_elem_from_u64(n: u64) -> FieldElement {
     &(&(&high * &half) * &half) + &low
 }
 
+/// A verifier is to be given one commitment for each value committed to by the prover.
+pub(crate) fn check_number_of_commitments(
+    commitments: &[G1],
+    expected: usize,
+) -> Result<(), R1CSError> {
+    if commitments.len() != expected {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} commitments but found {}",
+                expected,
+                commitments.len()
+            ),
+        }
+        .into());
+    }
+    Ok(())
+}
+
 fn get_byte_size(num_digits: usize, base: u8) -> usize {
     let num_bits = get_bit_count(num_digits, base);
     num_bits / 8 + {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
index 3723081..19e3114 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
@@ -5,6 +5,7 @@ use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
 use rand::{CryptoRng, Rng};
 
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::mimc::mimc_gadget;
 
 /// Takes a Prover and enforces the constraints of MiMC hash with 2 inputs and 1 output
@@ -43,6 +44,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..edb6f5c 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -37,6 +38,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
 
     let var_val_inv = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
index a7aa0cc..a45e877 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
@@ -5,6 +5,7 @@ use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
 use rand::{CryptoRng, Rng};
 
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::poseidon::{
     PoseidonParams, Poseidon_hash_2_gadget, Poseidon_hash_4_gadget, Poseidon_hash_8_gadget,
     SboxType, CAP_CONST_W_3, CAP_CONST_W_5, CAP_CONST_W_9,
@@ -93,6 +94,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -236,6 +239,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -389,6 +394,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_number_of_commitments(&commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..b312403 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::constrain_lc_with_scalar;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
@@ -83,6 +84,8 @@ pub fn verify_set_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_number_of_commitments(&commitments, set_length + 1)?;
+
     let mut diff_vars = vec![];
 
     let var_val = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 6ad4855..fa0e438 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,4 +1,5 @@
 use super::helper_constraints::bit::bit_gadget;
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
@@ -136,6 +137,8 @@ pub fn verify_set_membership_alt(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_number_of_commitments(&commitments, set_length + 1)?;
+
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..ed986b1 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_number_of_commitments;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -84,6 +85,8 @@ pub fn verify_set_non_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_number_of_commitments(&commitments, 2 * set_length + 1)?;
+
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
 
-- 
2.43.0


From e0d818101ee9ed9a2500c47b1f463ad5b5d67806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 80/96] fix: a path of another length than the tree's depth is
 refused, an inner node is no leaf

---
 .../sparse_merkle_tree_4_ary.rs                 | 13 ++++++++++++-
 .../sparse_merkle_tree_8_ary.rs                 | 17 ++++++++++++-----
 .../r1cs/gadgets/sparse_merkle_tree_4_ary.rs    |  9 ++++++++-
 .../r1cs/gadgets/sparse_merkle_tree_8_ary.rs    |  9 ++++++++-
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5b59863..a1f2df8 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -264,6 +264,17 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != depth.saturating_mul(3) {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "A path in a tree of depth {} has not {} nodes",
+                depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index b36a7f5..f8a0b7c 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -275,6 +275,17 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != depth.saturating_mul(7) {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "A path in a tree of depth {} has not {} nodes",
+                depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
@@ -292,10 +303,6 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
 
     let leaf_index_bit_count = get_bit_count(depth, 8);
     for i in (0..leaf_index_bit_count).step_by(3) {
-        if proof_nodes.is_empty() {
-            break;
-        }
-
         // Check each bit is actually a bit, .i.e. 0 or 1
         let (bit0, bit1, bit2) = match &leaf_index_octets {
             Some(l) => {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..78f80d4 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -12,7 +12,7 @@ use super::helper_constraints::sparse_merkle_tree_4_ary::{
     vanilla_merkle_merkle_tree_4_verif_gadget, ProofNode4ary,
 };
 use crate::r1cs::gadgets::helper_constraints::{
-    get_blinding_for_merkle_tree_prover, LeafValueType,
+    check_number_of_commitments, get_blinding_for_merkle_tree_prover, LeafValueType,
 };
 use crate::r1cs::gadgets::merkle_tree_hash::Arity4MerkleTreeHashConstraints;
 
@@ -86,6 +86,13 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // The leaf index, the leaf unless it is known, and the siblings on every level
+    let num_committed = if leaf_val.is_none() { 2 } else { 1 };
+    check_number_of_commitments(
+        &commitments,
+        num_committed + tree_depth.saturating_mul(3),
+    )?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..66875b3 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -12,7 +12,7 @@ use super::helper_constraints::sparse_merkle_tree_8_ary::{
     vanilla_merkle_merkle_tree_8_verif_gadget, ProofNode8ary,
 };
 use crate::r1cs::gadgets::helper_constraints::{
-    get_blinding_for_merkle_tree_prover, LeafValueType,
+    check_number_of_commitments, get_blinding_for_merkle_tree_prover, LeafValueType,
 };
 use crate::r1cs::gadgets::merkle_tree_hash::Arity8MerkleTreeHashConstraints;
 
@@ -87,6 +87,13 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // The leaf index, the leaf unless it is known, and the siblings on every level
+    let num_committed = if leaf_val.is_none() { 2 } else { 1 };
+    check_number_of_commitments(
+        &commitments,
+        num_committed + tree_depth.saturating_mul(7),
+    )?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
-- 
2.43.0


From dd6318e0ae928cff6a4c2b15a6b14f5f66f2bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 81/96] fix: the circuit of the inverse S-box is about its
 input

---
 .../src/r1cs/gadgets/helper_constraints/poseidon.rs            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
index b9581d8..1867a7e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -240,6 +240,9 @@ impl SboxType {
         let (var_l, _) = cs.allocate_single(val_l)?;
         let (var_r, var_o) = cs.allocate_single(val_r)?;
 
+        // Ensure that `var_l` is the input and not a value of the prover's choice
+        cs.constrain(inp_plus_const - var_l);
+
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
-- 
2.43.0


From 61e163c5ece6e477c76d8b495b275d7024aa17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 82/96] fix: a member that a set lists twice can be proved a
 member

---
 .../src/r1cs/gadgets/set_membership_alt.rs                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index fa0e438..ecde847 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -88,10 +88,10 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(randomness, rng)?;
 
-    // Set all indices to 0 except the one where `value` is
-    let toggles: Vec<u64> = set
-        .iter()
-        .map(|elem| if *elem == value { 1 } else { 0 })
+    // Set all indices to 0 except the first one where `value` is
+    let position = set.iter().position(|elem| *elem == value);
+    let toggles: Vec<u64> = (0..set.len())
+        .map(|i| if Some(i) == position { 1 } else { 0 })
         .collect();
 
     let mut comms = vec![];
-- 
2.43.0


From 37c796340de9d2483d0c8e2a0c689bb12f85b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 83/96] fix: set membership by toggles is about the toggles,
 not values of the prover's choice

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index ecde847..2f72513 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -59,6 +59,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
+        // `bit_var` is the toggle and not a value of the prover's choice
+        cs.constrain(bit_var - toggles[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
 
         // o2 = bit_var * value
-- 
2.43.0


From 93927d612449bf9c7025ebec8056a428093e19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 84/96] fix: a proof of a leaf that cannot be made is an error,
 not a panic

---
 .../src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 78f80d4..057d1c3 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -166,7 +166,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());*/
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 464c8b1c380104b1439ffcaa92d89e22c11fe88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 85/96] fix: too few generators of the second kind are an
 error, not a panic

---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 8 ++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..21af7eb 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len().min(H.len()) < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: n1,
             }
             .into());
@@ -388,9 +388,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len().min(H.len()) < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index 4f718a5..43e0b2f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,9 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len().min(H.len()) < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From 628f779f7a32377a785e1f440197c5932af4ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 86/96] fix: an inner product proof of the wrong lengths is
 refused, not a panic

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..6d9f090 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -222,10 +222,17 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), BulletproofError> {
+        if [G_factors.len(), H_factors.len(), G_vec.len(), H_vec.len()]
+            .iter()
+            .any(|l| *l != n)
+        {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
+
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -283,6 +290,9 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
+        if R_vec.len() != lg_n {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
         if n != (1 << lg_n) {
             // n is not a power of 2
             return Err(BulletproofErrorKind::IPPVerificationError.into());
-- 
2.43.0


From 443ab7a6cb18f249fd85525394bb98108be32ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 87/96] hook: with cfg(ursa_sim), the challenges drawn from a
 transcript can be read

---
 libzmix/bulletproofs_amcl/src/transcript.rs | 25 ++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/transcript.rs b/libzmix/bulletproofs_amcl/src/transcript.rs
index c4d9e33..5de7408 100644
--- a/libzmix/bulletproofs_amcl/src/transcript.rs
+++ b/libzmix/bulletproofs_amcl/src/transcript.rs
@@ -56,6 +56,29 @@ impl TranscriptProtocol for Transcript {
         let mut buf = [0u8; MODBYTES];
         self.challenge_bytes(label, &mut buf);
 
-        FieldElement::from(&buf)
+        let challenge = FieldElement::from(&buf);
+        #[cfg(ursa_sim)]
+        sim::record(label, &challenge);
+        challenge
+    }
+}
+
+/// The challenges drawn by this thread, for simulation
+#[cfg(ursa_sim)]
+pub mod sim {
+    use amcl_wrapper::field_elem::FieldElement;
+    use std::cell::RefCell;
+
+    thread_local! {
+        static DRAWN: RefCell<Vec<(&'static [u8], FieldElement)>> = RefCell::new(vec![]);
+    }
+
+    pub(super) fn record(label: &'static [u8], challenge: &FieldElement) {
+        DRAWN.with(|d| d.borrow_mut().push((label, challenge.clone())));
+    }
+
+    /// The challenges drawn since the last call
+    pub fn take() -> Vec<(&'static [u8], FieldElement)> {
+        DRAWN.with(|d| d.borrow_mut().drain(..).collect())
     }
 }
-- 
2.43.0


From 685835c0d167a4619225f8f58e7ca7dcffddfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:55 +0000
Subject: [PATCH 88/96] fix: a circuit proof is bound to the circuit's
 constants and coefficients

---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs  |  5 +++
 .../bulletproofs_amcl/src/r1cs/verifier.rs    |  5 +++
 libzmix/bulletproofs_amcl/src/transcript.rs   | 32 +++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 21af7eb..afd21d6 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -332,6 +332,10 @@ impl<'a, 'b> Prover<'a, 'b> {
         // is prefixed with a separate label.
         self.transcript.append_u64(b"m", self.v.len() as u64);
 
+        // The statement is to be fixed before the challenges are drawn.
+        let q1 = self.constraints.len();
+        self.transcript.commit_constraints(&self.constraints);
+
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
@@ -379,6 +383,7 @@ impl<'a, 'b> Prover<'a, 'b> {
 
         // Process the remaining constraints.
         self = self.create_randomized_constraints()?;
+        self.transcript.commit_constraints(&self.constraints[q1..]);
 
         // Pad zeros to the next power of two (or do that implicitly when creating vectors)
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index 43e0b2f..4b60621 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -285,6 +285,10 @@ impl<'a> Verifier<'a> {
         // is prefixed with a separate label.
         self.transcript.append_u64(b"m", self.V.len() as u64);
 
+        // The statement is to be fixed before the challenges are drawn.
+        let q1 = self.constraints.len();
+        self.transcript.commit_constraints(&self.constraints);
+
         let n1 = self.num_vars;
         self.transcript.commit_point(b"A_I1", &proof.A_I1);
         self.transcript.commit_point(b"A_O1", &proof.A_O1);
@@ -292,6 +296,7 @@ impl<'a> Verifier<'a> {
 
         // Process the remaining constraints.
         self = self.create_randomized_constraints()?;
+        self.transcript.commit_constraints(&self.constraints[q1..]);
 
         // If the number of multiplications is not 0 or a power of 2, then pad the circuit.
         let n = self.num_vars;
diff --git a/libzmix/bulletproofs_amcl/src/transcript.rs b/libzmix/bulletproofs_amcl/src/transcript.rs
index 5de7408..dd6a776 100644
--- a/libzmix/bulletproofs_amcl/src/transcript.rs
+++ b/libzmix/bulletproofs_amcl/src/transcript.rs
@@ -3,11 +3,13 @@
 */
 
 //! Defines a `TranscriptProtocol` trait for using a Merlin transcript.
+use crate::r1cs::{LinearCombination, Variable};
 use amcl_wrapper::constants::MODBYTES;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem::GroupElement;
 use amcl_wrapper::group_elem_g1::G1;
 use merlin::Transcript;
+use std::collections::BTreeMap;
 
 pub trait TranscriptProtocol {
     /// Commit a domain separator for a length-`n` inner product proof.
@@ -20,6 +22,8 @@ pub trait TranscriptProtocol {
     fn r1cs_2phase_domain_sep(&mut self);
     /// Commit a `scalar` with the given `label`.
     fn commit_scalar(&mut self, label: &'static [u8], scalar: &FieldElement);
+    /// Commit the coefficients of a list of constraints.
+    fn commit_constraints(&mut self, constraints: &[LinearCombination]);
     /// Commit a `point` with the given `label`.
     fn commit_point(&mut self, label: &'static [u8], point: &G1);
     /// Compute a `label`ed challenge variable.
@@ -48,6 +52,34 @@ impl TranscriptProtocol for Transcript {
         self.append_message(label, &scalar.to_bytes());
     }
 
+    fn commit_constraints(&mut self, constraints: &[LinearCombination]) {
+        self.append_u64(b"constraints", constraints.len() as u64);
+        for lc in constraints {
+            // The same combination may be put together in several ways
+            let mut coefficients: BTreeMap<(u8, u64), FieldElement> = BTreeMap::new();
+            for (var, coeff) in &lc.terms {
+                let key = match var {
+                    Variable::One() => (0, 0),
+                    Variable::Committed(i) => (1, *i as u64),
+                    Variable::MultiplierLeft(i) => (2, *i as u64),
+                    Variable::MultiplierRight(i) => (3, *i as u64),
+                    Variable::MultiplierOutput(i) => (4, *i as u64),
+                };
+                *coefficients.entry(key).or_insert_with(FieldElement::zero) += coeff;
+            }
+            let mut bytes = vec![];
+            for ((kind, index), coeff) in coefficients {
+                if coeff.is_zero() {
+                    continue;
+                }
+                bytes.push(kind);
+                bytes.extend_from_slice(&index.to_le_bytes());
+                bytes.extend(coeff.to_bytes());
+            }
+            self.append_message(b"constraint", &bytes);
+        }
+    }
+
     fn commit_point(&mut self, label: &'static [u8], point: &G1) {
         self.append_message(label, &point.to_bytes());
     }
-- 
2.43.0


From 5bbd9b474720dd6f6001d8e72682b8ad49313113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 89/96] hook: with cfg(ursa_sim), the drawn challenges are
 reachable

---
 libzmix/bulletproofs_amcl/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/lib.rs b/libzmix/bulletproofs_amcl/src/lib.rs
index dd3196a..d42af19 100644
--- a/libzmix/bulletproofs_amcl/src/lib.rs
+++ b/libzmix/bulletproofs_amcl/src/lib.rs
@@ -20,6 +20,8 @@ pub mod errors;
 pub mod utils;
 
 mod transcript;
+#[cfg(ursa_sim)]
+pub use transcript::sim;
 
 pub mod ipp;
 
-- 
2.43.0


From c6d35e6af87abc98ac10e99e85cb4706035ead3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 90/96] fix: a number followed by something else is refused,
 and both builds read the same numbers

OpenSSL stops reading at the first character that is not a digit, so that "12x" was
12; num-bigint takes a plus sign and underscores. Either build accepted numbers the
other refused.
---
 libursa/src/bn/openssl.rs | 11 ++++++-----
 libursa/src/bn/rust.rs    | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 7f91cfc..c5351f2 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -23,9 +23,10 @@ pub struct BigNumber {
     openssl_bn: BigNum,
 }
 
-// openssl panics on strings it cannot pass to C
-fn check_no_nul(s: &str) -> UrsaCryptoResult<()> {
-    if s.contains('\0') {
+// openssl panics on strings it cannot pass to C and stops reading at what is not a digit
+fn check_digits(s: &str, radix: u32) -> UrsaCryptoResult<()> {
+    let digits = if s.starts_with('-') { &s[1..] } else { s };
+    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
         return Err(err_msg(
             UrsaCryptoErrorKind::InvalidStructure,
             "Invalid character in number",
@@ -155,13 +156,13 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
-        check_no_nul(dec)?;
+        check_digits(dec, 10)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
-        check_no_nul(hex)?;
+        check_digits(hex, 16)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 6f77067..4913d6f 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -49,6 +49,18 @@ macro_rules! prime_check {
     };
 }
 
+// An optional minus sign and digits, nothing else
+fn parse(s: &str, radix: u32) -> UrsaCryptoResult<BigInt> {
+    let digits = if s.starts_with('-') { &s[1..] } else { s };
+    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidState,
+            "Invalid character in number".to_string(),
+        ));
+    }
+    Ok(BigInt::from_str_radix(s, radix)?)
+}
+
 impl BigNumber {
     pub fn new_context() -> UrsaCryptoResult<BigNumberContext> {
         Ok(BigNumberContext {})
@@ -169,13 +181,13 @@ impl BigNumber {
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
         Ok(BigNumber {
-            bn: BigInt::from_str_radix(dec, 10)?,
+            bn: parse(dec, 10)?,
         })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
         Ok(BigNumber {
-            bn: BigInt::from_str_radix(hex, 16)?,
+            bn: parse(hex, 16)?,
         })
     }
 
-- 
2.43.0


From c66107722f10efcf09ceb27c2ba3df33823576bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 91/96] fix: BigNumber::from_u32 does not truncate a usize to
 32 bits

The portable build never did.
---
 libursa/src/bn/openssl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index c5351f2..47fe6a7 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -151,7 +151,7 @@ impl BigNumber {
     }
 
     pub fn from_u32(n: usize) -> UrsaCryptoResult<BigNumber> {
-        let bn = BigNum::from_u32(n as u32)?;
+        let bn = BigNum::from_slice(&(n as u64).to_be_bytes())?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
-- 
2.43.0


From 34347318125fcb2e89bac8498c99eef2d053d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 92/96] fix: incrementing or decrementing a negative number
 keeps its sign

---
 libursa/src/bn/openssl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 47fe6a7..4d0da98 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -513,15 +513,15 @@ impl BigNumber {
     }
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.add_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.sub_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn lshift1(&self) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From dda29cdf9cee44d5502733b9cf0e3069068b0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 93/96] fix: powers and inverses at the edges are the same in
 both builds, errors instead of panics

Zero moduli, negative exponents, 0 and -1 as base, inverses of negative numbers and
modulo -1: the portable build panicked on some and gave wrong results for others, the
OpenSSL build ignored the sign of an exponent.
---
 libursa/src/bn/openssl.rs |  6 ++++++
 libursa/src/bn/rust.rs    | 33 ++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 4d0da98..c85fd11 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -402,6 +402,9 @@ impl BigNumber {
         b: &BigNumber,
         ctx: &mut BigNumberContext,
     ) -> UrsaCryptoResult<BigNumber> {
+        if b.openssl_bn.num_bits() == 0 {
+            return Err(err_msg(UrsaCryptoErrorKind::InvalidState, "Invalid modulus"));
+        }
         let mut bn = BigNumber::new()?;
 
         if a.openssl_bn.is_negative() {
@@ -455,6 +458,9 @@ impl BigNumber {
         a: &BigNumber,
         ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
+        if a.is_negative() {
+            return Err(err_msg(UrsaCryptoErrorKind::InvalidState, "Invalid exponent"));
+        }
         let mut bn = BigNumber::new()?;
         match ctx {
             Some(context) => BigNumRef::exp(
diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 4913d6f..454ce51 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -316,8 +316,11 @@ impl BigNumber {
         b: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if b.bn.is_one() {
-            return BigNumber::new();
+        if b.bn.is_zero() {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid modulus".to_string(),
+            ));
         }
 
         if a.is_negative() {
@@ -364,9 +367,14 @@ impl BigNumber {
         a: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if self.bn.bits() == 0 {
-            return Ok(BigNumber::default());
-        } else if a.bn.is_one() {
+        if a.is_negative() {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid exponent".to_string(),
+            ));
+        } else if a.bn.is_zero() || self.bn.is_one() {
+            return Ok(BigNumber { bn: BigInt::one() });
+        } else if self.bn.is_zero() || a.bn.is_one() {
             return Ok(self.try_clone()?);
         }
 
@@ -386,7 +394,7 @@ impl BigNumber {
         n: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if n.bn.is_one() || n.bn.is_zero() {
+        if n.bn.abs().is_one() || n.bn.is_zero() {
             return Err(UrsaCryptoError::from_msg(
                 UrsaCryptoErrorKind::InvalidState,
                 "Invalid modulus".to_string(),
@@ -397,6 +405,17 @@ impl BigNumber {
         // Euclid's extended algorithm, Bèzout coefficient of `n` is not needed
         //n is either prime or coprime
         //
+        if self.bn.abs().is_one() {
+            // minus one, to a power of any size
+            return Ok(BigNumber {
+                bn: if a.bn.is_odd() {
+                    self.bn.clone()
+                } else {
+                    BigInt::one()
+                },
+            });
+        }
+
         //function inverse(a, n)
         //    t := 0;     newt := 1;
         //    r := n;     newr := a;
@@ -409,7 +428,7 @@ impl BigNumber {
         //    return t
         //
         let (mut t, mut new_t) = (BigInt::zero(), BigInt::one());
-        let (mut r, mut new_r) = (n.clone(), self.bn.clone());
+        let (mut r, mut new_r) = (n.clone(), self.bn.mod_floor(&n));
 
         while !new_r.is_zero() {
             let quotient = &r / &new_r;
-- 
2.43.0


From 29fcef051318ab2d87558eee546bad2b24b37c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 94/96] fix: the portable build draws from the range it is
 given, and refuses an empty one

Empty and negative ranges panicked, a reversed one was turned around, and the upper
bound could be returned.
---
 libursa/src/bn/rust.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 454ce51..21840a9 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -85,7 +85,7 @@ impl BigNumber {
         let mut res;
         let mut iteration = 0;
         let mut rng = OsRng::default();
-        let mut start = match start.bn.to_biguint() {
+        let start = match start.bn.to_biguint() {
             Some(bn) => bn,
             None => {
                 return Err(UrsaCryptoError::from_msg(
@@ -94,7 +94,7 @@ impl BigNumber {
                 ));
             }
         };
-        let mut end = match end.bn.to_biguint() {
+        let end = match end.bn.to_biguint() {
             Some(bn) => bn,
             None => {
                 return Err(UrsaCryptoError::from_msg(
@@ -104,15 +104,15 @@ impl BigNumber {
             }
         };
 
-        if start > end {
-            let temp = start;
-            start = end.clone();
-            end = temp;
+        if start >= end {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid range: 'start' must be less than 'end'".to_string(),
+            ));
         }
 
         loop {
             res = rng.gen_biguint_range(&start, &end);
-            res |= BigUint::one();
 
             if prime::check(&res) {
                 debug!("Found prime in {} iteration", iteration);
@@ -145,6 +145,12 @@ impl BigNumber {
     }
 
     pub fn rand_range(&self) -> UrsaCryptoResult<BigNumber> {
+        if !self.bn.is_positive() {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid range".to_string(),
+            ));
+        }
         let mut rng = OsRng::default();
         let res = rng.gen_bigint_range(&BigInt::zero(), &self.bn);
         match res.to_bigint() {
@@ -399,12 +405,6 @@ impl BigNumber {
                 UrsaCryptoErrorKind::InvalidState,
                 "Invalid modulus".to_string(),
             ));
-        }
-        let n = BigNumber::_get_modulus(&n.bn);
-
-        // Euclid's extended algorithm, Bèzout coefficient of `n` is not needed
-        //n is either prime or coprime
-        //
         if self.bn.abs().is_one() {
             // minus one, to a power of any size
             return Ok(BigNumber {
@@ -416,6 +416,12 @@ impl BigNumber {
             });
         }
 
+        }
+        let n = BigNumber::_get_modulus(&n.bn);
+
+        // Euclid's extended algorithm, Bèzout coefficient of `n` is not needed
+        //n is either prime or coprime
+        //
         //function inverse(a, n)
         //    t := 0;     newt := 1;
         //    r := n;     newr := a;
-- 
2.43.0


From 355399a0482cb66d21a7c167bfddf8ea005f6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 95/96] fix: bits, shifts, hex and bytes of the portable build
 are those of the OpenSSL build

Zero has no bytes, hex digits come in pairs, and bits and shifts are about the absolute
value; setting or reading a negative bit does not panic.
---
 libursa/src/bn/rust.rs | 64 +++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 21840a9..4d60a97 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -167,15 +167,25 @@ impl BigNumber {
     }
 
     pub fn is_bit_set(&self, n: i32) -> UrsaCryptoResult<bool> {
-        let bits = n as usize;
-        let res = &self.bn >> bits;
+        // bits are those of the absolute value
+        if n < 0 {
+            return Ok(false);
+        }
+        let res = self.bn.abs() >> n as usize;
         Ok(res.is_odd())
     }
 
     pub fn set_bit(&mut self, n: i32) -> Result<&mut BigNumber, UrsaCryptoError> {
-        let bits = n as usize;
-        let mask = BigInt::one() << bits;
-        self.bn |= mask;
+        if n < 0 {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid bit".to_string(),
+            ));
+        }
+        // bits are those of the absolute value
+        let negative = self.bn.is_negative();
+        let res = self.bn.abs() | (BigInt::one() << n as usize);
+        self.bn = if negative { -res } else { res };
         Ok(self)
     }
 
@@ -208,10 +218,21 @@ impl BigNumber {
     }
 
     pub fn to_hex(&self) -> UrsaCryptoResult<String> {
-        Ok(self.bn.to_str_radix(16).to_uppercase())
+        // whole bytes, as the OpenSSL implementation writes them
+        let digits = self.bn.abs().to_str_radix(16).to_uppercase();
+        let sign = if self.bn.is_negative() { "-" } else { "" };
+        let pad = if !self.bn.is_zero() && digits.len() % 2 == 1 {
+            "0"
+        } else {
+            ""
+        };
+        Ok(format!("{}{}{}", sign, pad, digits))
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
+        if self.bn.is_zero() {
+            return Ok(Vec::new());
+        }
         let (_, res) = self.bn.to_bytes_be();
         Ok(res)
     }
@@ -384,6 +405,17 @@ impl BigNumber {
             return Ok(self.try_clone()?);
         }
 
+        if self.bn.abs().is_one() {
+            // minus one, to a power of any size
+            return Ok(BigNumber {
+                bn: if a.bn.is_odd() {
+                    self.bn.clone()
+                } else {
+                    BigInt::one()
+                },
+            });
+        }
+
         match a.bn.to_u64() {
             Some(num) => Ok(BigNumber {
                 bn: self.bn.clone().pow(num),
@@ -405,17 +437,6 @@ impl BigNumber {
                 UrsaCryptoErrorKind::InvalidState,
                 "Invalid modulus".to_string(),
             ));
-        if self.bn.abs().is_one() {
-            // minus one, to a power of any size
-            return Ok(BigNumber {
-                bn: if a.bn.is_odd() {
-                    self.bn.clone()
-                } else {
-                    BigInt::one()
-                },
-            });
-        }
-
         }
         let n = BigNumber::_get_modulus(&n.bn);
 
@@ -496,12 +517,15 @@ impl BigNumber {
     }
 
     pub fn rshift1(&self) -> UrsaCryptoResult<BigNumber> {
-        Ok(BigNumber { bn: &self.bn >> 1 })
+        self.rshift(1)
     }
 
     pub fn rshift(&self, n: u32) -> UrsaCryptoResult<BigNumber> {
-        let n = n as usize;
-        Ok(BigNumber { bn: &self.bn >> n })
+        // shifts the absolute value and keeps the sign
+        let res = self.bn.abs() >> n as usize;
+        Ok(BigNumber {
+            bn: if self.bn.is_negative() { -res } else { res },
+        })
     }
 
     pub fn mod_div(
-- 
2.43.0


From 20ae51f88a929222f8b55106f41844ab48fbeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:13 +0000
Subject: [PATCH 96/96] fix: check all elements of the witness signature when a
 credential is received

The holder did not check u_i, nor that the index of the witness signature is that of the credential.
---
 libursa/src/cl/prover.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 57fe9e0..aadff2a 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -816,6 +816,17 @@ impl Prover {
             ));
         }
 
+        // `g_i` and `u_i` must carry the same index as the rest of the credential
+        if r_cred.witness_signature.g_i != r_cred.g_i
+            || Pair::pair(&cred_rev_pub_key.g, &r_cred.witness_signature.u_i)?
+                != Pair::pair(&r_cred.g_i, &cred_rev_pub_key.u)?
+        {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Issuer is sending incorrect data",
+            ));
+        }
+
         let m2 = GroupOrderElement::from_bytes(&r_cnxt_m2.to_bytes()?)?;
 
         let pair_h1 = Pair::pair(
-- 
2.43.0

