From a84f666f3b4bde72d2bca2b5947e59878909c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 01/66] fix: Share::to_bytes appends the share value instead of
 recursing forever

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 565de641abdc6934870dd3ace37c2d23853a2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 02/66] fix: share verifiers decode every commitment and refuse
 truncated input

---
 ursa_sharing/src/feldman.rs  | 12 ++++++++++--
 ursa_sharing/src/pedersen.rs | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..d5b732c 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,15 +175,23 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if cs > (value.len() - offset) / R::Size::to_usize() {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(R::Size::to_usize())
+                    .saturating_add(offset),
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, commitments })
     }
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..cec726a 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -186,9 +186,9 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
     type Error = SharingError;
 
     fn try_from(value: &[u8]) -> SharingResult<Self> {
-        if value.len() < R::Size::to_usize() * 2 + 4 {
+        if value.len() < R::Size::to_usize() * 3 + 4 {
             return Err(SharingError::PedersenVerifierMinSize(
-                R::Size::to_usize() * 2 + 4,
+                R::Size::to_usize() * 3 + 4,
                 value.len(),
             ));
         }
@@ -207,15 +207,23 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if cs > (value.len() - offset) / R::Size::to_usize() {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(R::Size::to_usize())
+                    .saturating_add(offset),
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, h, commitments })
     }
-- 
2.43.0


From 6b88d884e50e4a2788e1a403e04af72c0a126c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 03/66] fix: Pedersen verify_share refuses a verifier with
 fewer commitments than the threshold

---
 ursa_sharing/src/pedersen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index cec726a..a43dc9d 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,9 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() < self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From d014b9550465e484e1876cfa342b5b220f2516c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 04/66] fix: PS ProofOtherGroup::from_bytes uses the size of
 the group it decodes

---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..e7db392 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From 3d65154fe0801d8027050c83cf43bbb1c1bc4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 05/66] fix: PS proof verification refuses out-of-range
 revealed indices instead of panicking

---
 libzmix/src/signatures/ps/pok_sig.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index e7db392..5659bff 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let msg_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= msg_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, msg_count
                 ),
             }
             .into());
@@ -211,6 +211,15 @@ impl PoKOfSignatureProof {
             return Ok(false);
         }
 
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
+
         // +1 for `t`
         let hidden_msg_count = vk.Y_tilde.len() - revealed_msgs.len() + 1;
         let mut bases = OtherGroupVec::with_capacity(hidden_msg_count);
-- 
2.43.0


From 16fbc75f5e85527f0d715e6a9c2675f31bbadf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 06/66] fix: batched chain verification gives every even level
 equation its own random power

---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..921321b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -492,7 +492,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 356888a4700dc53be9176944657cd1eeb52ce120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 07/66] fix: Groth signatures verify only for exactly the
 messages they cover

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 28 +++++++++++++++++++
 .../src/signatures/delg_cred_cdd/issuer.rs    |  7 +++++
 2 files changed, 35 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 921321b..afc70d2 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -211,6 +211,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -262,6 +269,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -383,6 +397,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -433,6 +454,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..b4c2ebb 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -59,6 +59,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.attributes.len() != self.signature.T.len() {
+                    return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
-- 
2.43.0


From 0915ad43273afb537966d82678f2e52629bf8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 08/66] fix: a delegation link without attributes has no verkey
 instead of panicking

---
 libzmix/src/signatures/delg_cred_cdd/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index b4c2ebb..49b0fc7 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,7 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                self.attributes.iter().last() == Some(&vk.0)
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
-- 
2.43.0


From 5d578f2f75b23dd1b94838a211edefa1719e4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 09/66] fix: extending a chain with a lower level link is an
 error, not an underflow

---
 libzmix/src/signatures/delg_cred_cdd/issuer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 49b0fc7..7933cac 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -206,7 +206,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && (link.level != self.odd_links[self.odd_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -229,7 +229,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && (link.level != self.even_links[self.even_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
-- 
2.43.0


From 11e607e8c1853f8a15bdcac5c4467a99f4e51e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 10/66] fix: attribute token bytes do not depend on the order
 of a HashMap

---
 .../src/signatures/delg_cred_cdd/attribute_token.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 6b8da89..c707d8b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -1324,13 +1324,19 @@ impl AttributeTokenComm {
             }
         }
         for r_map in &self.odd_level_revealed_attributes {
-            for e in r_map.iter() {
+            // The iteration order of a HashMap differs between equal maps
+            let mut attrs = r_map.iter().collect::<Vec<_>>();
+            attrs.sort_by_key(|e| *e.0);
+            for e in attrs {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
         }
         for r_map in &self.even_level_revealed_attributes {
-            for e in r_map.iter() {
+            // The iteration order of a HashMap differs between equal maps
+            let mut attrs = r_map.iter().collect::<Vec<_>>();
+            attrs.sort_by_key(|e| *e.0);
+            for e in attrs {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
-- 
2.43.0


From 81fe500a557d174d4ccd6267e0f2a98df0ef4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 11/66] fix: malformed attribute tokens are an error instead of
 a panic

---
 .../delg_cred_cdd/attribute_token.rs          | 93 +++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index c707d8b..f0a731a 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -401,6 +401,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        Self::validate_attributes(L, comm, resp, &revealed)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -689,6 +690,97 @@ impl<'a> AttributeToken<'a> {
         Ok(reconstructed_comm)
     }
 
+    /// Check that for each level of the token, the attributes the verifier expects to be revealed are
+    /// the revealed ones and that there is a response for each value the verifier needs one for.
+    fn validate_attributes(
+        L: usize,
+        comm: &AttributeTokenComm,
+        resp: &AttributeTokenResp,
+        revealed: &[HashSet<usize>],
+    ) -> DelgCredCDDResult<()> {
+        if revealed.len() != L {
+            return Err(
+                DelgCredCDDErrorKind::IncorrectNumberOfRevealedAttributeSets {
+                    expected: L,
+                    given: revealed.len(),
+                }
+                .into(),
+            );
+        }
+        let check_responses = |count_commitments: usize,
+                               count_responses: usize,
+                               entity_type: &str|
+         -> DelgCredCDDResult<()> {
+            if count_commitments != count_responses {
+                return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                    count_commitments,
+                    count_responses,
+                    entity_type: entity_type.to_string(),
+                }
+                .into());
+            }
+            Ok(())
+        };
+        let odd = L - L / 2;
+        let even = L / 2;
+        check_responses(odd, resp.odd_level_resp_s.len(), "s from odd signatures")?;
+        check_responses(even, resp.even_level_resp_s.len(), "s from even signatures")?;
+        check_responses(odd, resp.odd_level_resp_t.len(), "t from odd signatures")?;
+        check_responses(even, resp.even_level_resp_t.len(), "t from even signatures")?;
+        check_responses(odd, resp.odd_level_resp_a.len(), "odd level attributes")?;
+        check_responses(even, resp.even_level_resp_a.len(), "even level attributes")?;
+        // There is no verkey response for the last level
+        let vks = L.saturating_sub(1);
+        check_responses(
+            vks - vks / 2,
+            resp.odd_level_resp_vk.len(),
+            "odd level verkeys",
+        )?;
+        check_responses(vks / 2, resp.even_level_resp_vk.len(), "even level verkeys")?;
+
+        for i in 1..=L {
+            let (count_t, count_a, revealed_indices) = if i % 2 == 1 {
+                (
+                    resp.odd_level_resp_t[i / 2].len(),
+                    resp.odd_level_resp_a[i / 2].len(),
+                    comm.odd_level_revealed_attributes[i / 2]
+                        .keys()
+                        .cloned()
+                        .collect::<HashSet<usize>>(),
+                )
+            } else {
+                (
+                    resp.even_level_resp_t[(i / 2) - 1].len(),
+                    resp.even_level_resp_a[(i / 2) - 1].len(),
+                    comm.even_level_revealed_attributes[(i / 2) - 1]
+                        .keys()
+                        .cloned()
+                        .collect::<HashSet<usize>>(),
+                )
+            };
+            check_responses(comm.comms_t[i - 1].len(), count_t, "t from signature")?;
+            // Each level has the verkey as the last attribute, which is never revealed
+            if count_t == 0 || revealed[i - 1].iter().any(|j| *j >= count_t - 1) {
+                return Err(DelgCredCDDErrorKind::GeneralError {
+                    msg: format!("revealed attribute index out of range at level {}", i),
+                }
+                .into());
+            }
+            if revealed_indices != revealed[i - 1] {
+                return Err(DelgCredCDDErrorKind::GeneralError {
+                    msg: format!("unexpected revealed attributes at level {}", i),
+                }
+                .into());
+            }
+            check_responses(
+                count_t - 1 - revealed[i - 1].len(),
+                count_a,
+                "unrevealed attributes",
+            )?;
+        }
+        Ok(())
+    }
+
     pub fn commitment_with_precomputation_on_setup_params(
         &mut self,
         revealed: Vec<HashSet<usize>>,
@@ -935,6 +1027,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        Self::validate_attributes(L, comm, resp, &revealed)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
-- 
2.43.0


From f1b77408b513916341c41ebbe1c80a088b98565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 12/66] fix: malformed inner product arguments are refused
 instead of panicking

verify_ipp unwrapped the error of verification_scalars, and a proof with
unequal numbers of L and R reached an unwrap on vectors of unequal length
in verify_ipp and in the R1CS verifier.
---
 libzmix/bulletproofs_amcl/src/ipp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..5a5f1a7 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,7 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -283,6 +283,10 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
+        if R_vec.len() != lg_n {
+            // every round sends one L and one R
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
         if n != (1 << lg_n) {
             // n is not a power of 2
             return Err(BulletproofErrorKind::IPPVerificationError.into());
-- 
2.43.0


From 46bdb54d2f03dfabeb5ebead21399c9d5e86b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 13/66] fix: R1CS prove and verify check the length of both
 generator vectors

H was sliced without a check, so fewer H than G generators panicked.
---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 8 ++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..849168c 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: core::cmp::min(G.len(), H.len()),
                 expected: n1,
             }
             .into());
@@ -388,9 +388,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: core::cmp::min(G.len(), H.len()),
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..2d7ba31 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,9 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: core::cmp::min(G.len(), H.len()),
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From cdcbf40f09dae7a8c62ce5f2ccf425845d9b34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 14/66] fix: bbs message index equal to the message count is
 out of range

---
 libzmix/bbs/src/prover.rs   | 2 +-
 libzmix/bbs/src/verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..faa6602 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From e5bc9d854ce9f73239aebdaa5ea1f0b78e34c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 15/66] fix: bbs blind signing panics on a message index beyond
 the key

---
 libzmix/bbs/src/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..1e4ab47 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -176,6 +176,7 @@ impl BlindSignature {
         scalars.push(s);
 
         for (i, m) in messages.iter() {
+            check_verkey_message!(*i >= verkey.message_count(), verkey.message_count(), *i);
             points.push(verkey.h[*i].0);
             scalars.push(m.0);
         }
-- 
2.43.0


From 22284f7441fa625b48e492036e6125e390e5f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 16/66] fix: bbs get_resp_for_message underflows on a proof
 with too few responses

---
 libzmix/bbs/src/pok_sig.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..1ac08e0 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        let count = self.proof_vc_2.responses.len().saturating_sub(2);
+        if msg_idx >= count {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    msg_idx, count
                 ),
             }));
         }
-- 
2.43.0


From 59320f15143ff84e904fe715e0f3eec5920cc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 17/66] fix: bbs verifier accepts a proof that withholds a
 requested message

---
 libzmix/bbs/src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index faa6602..32de62c 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,17 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        // The prover must reveal exactly what was requested
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From 43cc6b6bc68ff700c8ff76c69249efcd622bb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 18/66] fix: bbs challenge hash silently drops proofs without a
 request

---
 libzmix/bbs/src/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 32de62c..8cd4019 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -96,6 +96,16 @@ impl Verifier {
         nonce: &ProofNonce,
         claims: Option<&[&[u8]]>,
     ) -> Result<ProofChallenge, BBSError> {
+        if proofs.len() != proof_requests.len() {
+            return Err(BBSErrorKind::GeneralError {
+                msg: format!(
+                    "{} proofs were given for {} proof requests",
+                    proofs.len(),
+                    proof_requests.len()
+                ),
+            }
+            .into());
+        }
         let mut bytes = Vec::new();
 
         for pr in proofs.iter().zip(proof_requests.iter()) {
-- 
2.43.0


From b25623d0c2032bd6631fdc7ca9e2d81590457fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 19/66] fix: bbs PublicKey decoding panics or aborts on
 malformed bytes

---
 libzmix/bbs/src/keys.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..1d6aadc 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,9 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        // w (twice the size of a point in G1), h0 and the number of generators
+        let min_size = 3 * g1_size + 4;
+        if data.len() < min_size || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -135,6 +137,9 @@ impl PublicKey {
         c.read_exact(&mut h_bytes).unwrap();
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        if h_size > (data.len() - min_size) / g1_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
-- 
2.43.0


From b5292bda50b85fac45c21a01839f7fa0d8215360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 20/66] fix: bbs PoKOfSignatureProof decoding panics on
 truncated bytes

---
 libzmix/bbs/src/pok_sig.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index 1ac08e0..b23dcd6 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -450,9 +450,9 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
@@ -474,6 +474,11 @@ impl PoKOfSignatureProof {
 
         offset = end;
         end = offset + proof1_bytes;
+        if data.len() < end {
+            return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
+                msg: format!("Invalid proof bytes. Expected {}", end),
+            }));
+        }
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
         let proof_vc_2 = ProofG1::from_bytes(&data[end..], g1_size, compressed)?;
-- 
2.43.0


From 3f28cb4d7130bbc8d01f70f59b78b88743d09f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 21/66] fix: bbs SignatureProof decoding panics on malformed
 bytes

---
 libzmix/bbs/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..8c43ec3 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -647,6 +647,12 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() < proof_len + 4 {
+            return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                proof_len + 4,
+                data.len(),
+            )));
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
@@ -656,12 +662,18 @@ impl SignatureProof {
 
         let mut revealed_messages = BTreeMap::new();
         for _ in 0..revealed_messages_len {
+            if data.len() < end + FR_COMPRESSED_SIZE {
+                return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                    end + FR_COMPRESSED_SIZE,
+                    data.len(),
+                )));
+            }
             let i = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
 
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
-- 
2.43.0


From 29f379955adea725b75472dc068a73e54726577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 22/66] fix: bbs ProofRequest decoding panics on truncated
 bytes and accepts positions beyond the key

---
 libzmix/bbs/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index 8c43ec3..1b835f9 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -553,8 +553,20 @@ impl ProofRequest {
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
         let offset = 4 + bitvector_len;
+        if data.len() < offset {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(offset, data.len()).into());
+        }
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
+        if let Some(i) = revealed_messages.iter().next_back() {
+            if *i >= verification_key.message_count() {
+                return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
+                    *i,
+                    verification_key.message_count(),
+                )
+                .into());
+            }
+        }
         Ok(Self {
             revealed_messages,
             verification_key,
-- 
2.43.0


From 8ffb9a1d83a3153220005898bfb6ad163ac5dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 23/66] fix: bbs types do not deserialize from the JSON they
 serialize to

---
 libzmix/bbs/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..f138935 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -218,6 +218,18 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // formats without a bytes type, such as JSON, write a sequence
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value = Vec::new();
+                        while let Some(b) = seq.next_element::<u8>()? {
+                            value.push(b);
+                        }
+                        self.visit_bytes(&value)
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
-- 
2.43.0


From ff6e7aab35948573d771369d13f2dfdedca21930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 24/66] fix: a presentation without the requested
 non-revocation proof is rejected

---
 libursa/src/cl/verifier.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..ded8b59 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -229,17 +229,19 @@ impl ProofVerifier {
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
-            if let (
-                Some(non_revocation_proof),
-                Some(cred_rev_pub_key),
-                Some(rev_reg),
-                Some(rev_key_pub),
-            ) = (
-                proof_item.non_revoc_proof.as_ref(),
+            if let (Some(cred_rev_pub_key), Some(rev_reg), Some(rev_key_pub)) = (
                 credential.pub_key.r_key.as_ref(),
                 credential.rev_reg.as_ref(),
                 credential.rev_key_pub.as_ref(),
             ) {
+                // A verifier that supplies a revocation registry asks for non-revocation
+                let non_revocation_proof =
+                    proof_item.non_revoc_proof.as_ref().ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::ProofRejected,
+                            "Proof of non-revocation is missing",
+                        )
+                    })?;
                 tau_list.extend_from_slice(
                     &ProofVerifier::_verify_non_revocation_proof(
                         &cred_rev_pub_key,
-- 
2.43.0


From 3f87b4ccc61095e0926ecdf0d462339878c9099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 25/66] fix: the non-revocation proof is linked to the
 presented credential

Both parts of a presentation proved knowledge of a credential context, but
nothing tied them together, and the blinding reused in both was a residue too
short to hide the context. The context is now blinded by one integer of full
length and the verifier compares the responses.
---
 libursa/src/cl/helpers.rs  |  6 ++++++
 libursa/src/cl/prover.rs   | 21 +++++++++++++++------
 libursa/src/cl/verifier.rs |  8 ++++++++
 libursa/src/pair/amcl.rs   |  8 ++++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..f3f02ca 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -544,6 +544,12 @@ pub fn bignum_to_group_element(num: &BigNumber) -> UrsaCryptoResult<GroupOrderEl
     Ok(GroupOrderElement::from_bytes(&num.to_bytes()?)?)
 }
 
+/// Residue of a number modulo the order of the pairing groups
+pub fn bignum_mod_group_order(num: &BigNumber) -> UrsaCryptoResult<GroupOrderElement> {
+    let order = BigNumber::from_bytes(&GroupOrderElement::order()?)?;
+    bignum_to_group_element(&num.modulus(&order, None)?)
+}
+
 pub fn create_tau_list_expected_values(
     r_pub_key: &CredentialRevocationPublicKey,
     rev_reg: &RevocationRegistry,
diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 470515d..83c35e6 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -975,12 +975,20 @@ impl ProofBuilder {
             &credential_pub_key.r_key,
             &witness,
         ) {
-            let proof =
-                ProofBuilder::_init_non_revocation_proof(&r_cred, &r_reg, &r_pub_key, &witness)?;
+            // The credential context is blinded by the same integer in both parts of the proof,
+            // which lets the verifier check that they are about the same credential
+            let context_tilde = bn_rand(LARGE_MVECT)?;
+            let proof = ProofBuilder::_init_non_revocation_proof(
+                &r_cred,
+                &r_reg,
+                &r_pub_key,
+                &witness,
+                &context_tilde,
+            )?;
 
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
-            m2_tilde = Some(group_element_to_bignum(&proof.tau_list_params.m2)?);
+            m2_tilde = Some(context_tilde);
             non_revoc_init_proof = Some(proof);
         }
 
@@ -1279,6 +1287,7 @@ impl ProofBuilder {
         rev_reg: &RevocationRegistry,
         cred_rev_pub_key: &CredentialRevocationPublicKey,
         witness: &Witness,
+        m2_tilde: &BigNumber,
     ) -> UrsaCryptoResult<NonRevocInitProof> {
         trace!("ProofBuilder::_init_non_revocation_proof: >>> r_cred: {:?}, rev_reg: {:?}, cred_rev_pub_key: {:?}, witness: {:?}",
                r_cred, rev_reg, cred_rev_pub_key, witness);
@@ -1291,7 +1300,7 @@ impl ProofBuilder {
             witness,
         )?;
 
-        let tau_list_params = ProofBuilder::_gen_tau_list_params()?;
+        let tau_list_params = ProofBuilder::_gen_tau_list_params(m2_tilde)?;
         let tau_list =
             create_tau_list_values(&cred_rev_pub_key, &rev_reg, &tau_list_params, &c_list)?;
 
@@ -1839,7 +1848,7 @@ impl ProofBuilder {
         Ok(non_revoc_proof_c_list)
     }
 
-    fn _gen_tau_list_params() -> UrsaCryptoResult<NonRevocProofXList> {
+    fn _gen_tau_list_params(m2_tilde: &BigNumber) -> UrsaCryptoResult<NonRevocProofXList> {
         trace!("ProofBuilder::_gen_tau_list_params: >>>");
 
         let non_revoc_proof_x_list = NonRevocProofXList {
@@ -1854,7 +1863,7 @@ impl ProofBuilder {
             m_prime: GroupOrderElement::new()?,
             t: GroupOrderElement::new()?,
             t_prime: GroupOrderElement::new()?,
-            m2: GroupOrderElement::new()?,
+            m2: bignum_mod_group_order(m2_tilde)?.mod_neg()?,
             s: GroupOrderElement::new()?,
             c: GroupOrderElement::new()?,
         };
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ded8b59..a1cb5bc 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -242,6 +242,14 @@ impl ProofVerifier {
                             "Proof of non-revocation is missing",
                         )
                     })?;
+                // Both parts of the proof must be about the same credential context
+                let m2_hat = bignum_mod_group_order(&proof_item.primary_proof.eq_proof.m2)?;
+                if m2_hat.mod_neg()?.to_bytes()? != non_revocation_proof.x_list.m2.to_bytes()? {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Proof of non-revocation is not about the presented credential",
+                    ));
+                }
                 tau_list.extend_from_slice(
                     &ProofVerifier::_verify_non_revocation_proof(
                         &cred_rev_pub_key,
diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..1a2d94a 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -462,6 +462,14 @@ impl GroupOrderElement {
         Ok(GroupOrderElement { bn: r })
     }
 
+    /// Big-endian bytes of the group order
+    pub fn order() -> UrsaCryptoResult<Vec<u8>> {
+        let mut order = BIG::new_ints(&CURVE_ORDER);
+        let mut vec = vec![0u8; Self::BYTES_REPR_SIZE];
+        order.tobytes(&mut vec);
+        Ok(vec)
+    }
+
     pub fn to_string(&self) -> UrsaCryptoResult<String> {
         let mut bn = self.bn;
         Ok(bn.to_hex())
-- 
2.43.0


From 8ba85c1c851a9ee0f20f2beb31961eadb1d12f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 26/66] fix: presentation responses that are out of range are
 rejected

Without a bound on the response for e anyone can present a credential over
any values (with e = 1), and without a bound on the attribute responses and
revealed values a holder can present m + k*e in place of m.
---
 libursa/src/cl/verifier.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index a1cb5bc..4f529bd 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE, LARGE_MVECT};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -464,6 +464,26 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        // The responses for `e` and the attributes must be short: a credential over any values
+        // verifies under an exponent of unbounded length
+        let short = |num: &BigNumber, bits: usize| -> UrsaCryptoResult<()> {
+            if num.num_bits()? as usize > bits {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Proof contains a value that is out of range",
+                ));
+            }
+            Ok(())
+        };
+        short(&proof.e, LARGE_ETILDE + 1)?;
+        short(&proof.m2, LARGE_MVECT + 1)?;
+        for m_hat in proof.m.values() {
+            short(m_hat, LARGE_MVECT + 1)?;
+        }
+        for value in proof.revealed_attrs.values() {
+            short(value, LARGE_MVECT)?;
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From 9a9cd251173d50444302f042b5f897e507d1ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 27/66] fix: a predicate proof is about the attribute of the
 presented credential

The response of the predicate proof was never compared with the response of
the attribute, so any number could be shown to satisfy the predicate.
---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 4f529bd..4d3c5d9 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -440,6 +440,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // The predicate must be about the attribute of the presented credential
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Predicate proof is not about the attribute '{}' of the credential",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From fbab8dbeea0a8dcf2ba12c708a4ea54284abdb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 28/66] fix: the verifier hashes the commitments the sub proofs
 use

The challenge covered the list of commitments that the prover sent along, not
the ones inside the sub proofs, so those of a predicate proof could be chosen
after the challenge and a predicate that does not hold could be proven.
---
 libursa/src/cl/mod.rs      | 22 ++++++++++++++++++++++
 libursa/src/cl/verifier.rs | 19 ++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..c7df6d3 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -10,6 +10,7 @@ pub mod prover;
 pub mod verifier;
 
 use bn::BigNumber;
+use cl::constants::ITERATION;
 use errors::prelude::*;
 use pair::*;
 
@@ -1070,6 +1071,27 @@ pub struct PrimaryPredicateInequalityProof {
     predicate: Predicate,
 }
 
+impl PrimaryPredicateInequalityProof {
+    /// Commitments of the predicate proof in the order the challenge covers them
+    fn commitments(&self) -> UrsaCryptoResult<Vec<BigNumber>> {
+        let mut res: Vec<BigNumber> = Vec::new();
+        for key in (0..ITERATION).map(|i| i.to_string()) {
+            res.push(self.commitment(&key)?.try_clone()?);
+        }
+        res.push(self.commitment("DELTA")?.try_clone()?);
+        Ok(res)
+    }
+
+    fn commitment(&self, key: &str) -> UrsaCryptoResult<&BigNumber> {
+        self.t.get(key).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                format!("Value by key '{}' not found in proof.t", key),
+            )
+        })
+    }
+}
+
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct NonRevocProof {
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 4d3c5d9..625deba 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -225,6 +225,8 @@ impl ProofVerifier {
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        // The challenge has to cover the commitments that the sub proofs actually use
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
@@ -303,6 +305,14 @@ impl ProofVerifier {
                     ));
                 }
             }
+            if let Some(ref non_revocation_proof) = proof_item.non_revoc_proof {
+                c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
+            }
+            c_list.push(proof_item.primary_proof.eq_proof.a_prime.to_bytes()?);
+            for ne_proof in proof_item.primary_proof.ne_proofs.iter() {
+                c_list.append_vec(&ne_proof.commitments()?)?;
+            }
+
             tau_list.append_vec(&ProofVerifier::_verify_primary_proof(
                 &credential.pub_key.p_key,
                 &proof.aggregated_proof.c_hash,
@@ -313,9 +323,16 @@ impl ProofVerifier {
             )?)?;
         }
 
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Aggregated proof does not list the commitments of the sub proofs",
+            ));
+        }
+
         let mut values: Vec<Vec<u8>> = Vec::new();
         values.extend_from_slice(&tau_list);
-        values.extend_from_slice(&proof.aggregated_proof.c_list);
+        values.extend_from_slice(&c_list);
         values.push(nonce.to_bytes()?);
 
         let c_hver = get_hash_as_int(&values)?;
-- 
2.43.0


From c42a060213546cd74739550781b369cd3dff3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 29/66] fix: the tails file does not contain the (L+1)th power

With it the holder of a revoked credential computes a witness that verifies.
---
 libursa/src/cl/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index c7df6d3..767d6cc 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -561,7 +561,12 @@ impl RevocationTailsGenerator {
             return Ok(None);
         }
 
-        let tail = Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?;
+        // The (L+1)th power would allow revoked holders to prove non-revocation
+        let tail = if self.current_index == self.size / 2 + 1 {
+            Tail::new_inf()?
+        } else {
+            Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?
+        };
 
         self.current_index += 1;
 
-- 
2.43.0


From ba1f382f6a611035a44568fd5a8000a2227f53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 30/66] fix: revocation indices out of range are an error

Index 0 and indices above the size of the registry underflowed, panicked, or
changed the accumulator by a tail that belongs to no credential.
---
 libursa/src/cl/issuer.rs | 32 ++++++++++++++++++++++----------
 libursa/src/cl/mod.rs    | 28 ++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..a368fe8 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -743,18 +743,21 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        let mut accum = rev_reg.accum;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        // an index that is out of range leaves the registry as it was
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
@@ -959,7 +962,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1292,8 +1295,17 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        if rev_idx < 1 || rev_idx > max_cred_num {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                format!(
+                    "Revocation index {} is out of range 1..={}",
+                    rev_idx, max_cred_num
+                ),
+            ));
+        }
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1373,7 +1385,7 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         let rev_reg_delta = if issuance_by_default {
             None
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 767d6cc..f17adbd 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -586,7 +586,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Tail {} is not part of the registry", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
@@ -706,7 +712,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::tail_id(rev_idx, *j, max_cred_num)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
             })?;
@@ -719,6 +725,20 @@ impl Witness {
         Ok(witness)
     }
 
+    /// Id of the tail that the credential with index `idx` contributes to the witness of the
+    /// credential with index `rev_idx`
+    fn tail_id(rev_idx: u32, idx: u32, max_cred_num: u32) -> UrsaCryptoResult<u32> {
+        for i in &[rev_idx, idx] {
+            if *i < 1 || *i > max_cred_num {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                    format!("Revocation index {} is out of range 1..={}", i, max_cred_num),
+                ));
+            }
+        }
+        Ok(max_cred_num + 1 - idx + rev_idx)
+    }
+
     pub fn update<RTA>(
         &mut self,
         rev_idx: u32,
@@ -742,7 +762,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::tail_id(rev_idx, *j, max_cred_num)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
             })?;
@@ -754,7 +774,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::tail_id(rev_idx, *j, max_cred_num)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
             })?;
-- 
2.43.0


From 8d94da8b65ac4c388f9f23ba84b9b542bfc835cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 31/66] fix: an incomplete correctness proof of blinded secrets
 is refused instead of panicking

---
 libursa/src/cl/issuer.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index a368fe8..3bb9e22 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1022,6 +1022,12 @@ impl Issuer {
 
         let mut values: Vec<u8> = Vec::new();
         let mut ctx = BigNumber::new_context()?;
+        let missing = |list: &str, key: &str| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Value by key '{}' not found in {}", key, list),
+            )
+        };
 
         let u_cap = blinded_cred_secrets.hidden_attributes.iter().fold(
             blinded_cred_secrets
@@ -1048,7 +1054,10 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| missing("m_caps", attr))?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1058,7 +1067,14 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = blinded_cred_secrets_correctness_proof
+                .m_caps
+                .get(key)
+                .ok_or_else(|| missing("m_caps", key))?;
+            let r_cap = blinded_cred_secrets_correctness_proof
+                .r_caps
+                .get(key)
+                .ok_or_else(|| missing("r_caps", key))?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1071,7 +1087,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From c0f346d5304d6da0484d39e4a4cd9a041277c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 32/66] fix: the issuer refuses blinded secrets over attributes
 it knows

The holder names the attributes it blinds. Naming one that the issuer assigns
gave a credential over the sum of the issuer's value and the holder's.
---
 libursa/src/cl/issuer.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 3bb9e22..25d61f6 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -279,6 +279,8 @@ impl Issuer {
             &credential_pub_key.p_key,
         )?;
 
+        Issuer::_check_hidden_attributes(blinded_credential_secrets, credential_values)?;
+
         // In the anoncreds whitepaper, `credential context` is denoted by `m2`
         let cred_context = Issuer::_gen_credential_context(prover_id, None)?;
 
@@ -416,6 +418,8 @@ impl Issuer {
             &credential_pub_key.p_key,
         )?;
 
+        Issuer::_check_hidden_attributes(blinded_credential_secrets, credential_values)?;
+
         // In the anoncreds whitepaper, `credential context` is denoted by `m2`
         let cred_context = Issuer::_gen_credential_context(prover_id, Some(rev_idx))?;
 
@@ -1011,6 +1015,28 @@ impl Issuer {
         Ok((rev_key_pub, rev_key_priv))
     }
 
+    /// What the holder blinds is multiplied into the credential, so a value that the issuer knows
+    /// must not be among it: the credential would cover the sum of both
+    fn _check_hidden_attributes(
+        blinded_cred_secrets: &BlindedCredentialSecrets,
+        cred_values: &CredentialValues,
+    ) -> UrsaCryptoResult<()> {
+        for attr in blinded_cred_secrets.hidden_attributes.iter() {
+            if cred_values
+                .attrs_values
+                .get(attr)
+                .map(|value| value.is_known())
+                .unwrap_or(false)
+            {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Value by key '{}' is known to the issuer and blinded", attr),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     fn _check_blinded_credential_secrets_correctness_proof(
         blinded_cred_secrets: &BlindedCredentialSecrets,
         blinded_cred_secrets_correctness_proof: &BlindedCredentialSecretsCorrectnessProof,
-- 
2.43.0


From 35f574fb7ba08d91575ae0f0a317d0393edc75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 33/66] fix: increment and decrement of a negative number keep
 its sign

---
 libursa/src/bn/openssl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..eff6e25 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -500,12 +500,14 @@ impl BigNumber {
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
         let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        bn.set_negative(self.is_negative());
         bn.add_word(1)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
         let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        bn.set_negative(self.is_negative());
         bn.sub_word(1)?;
         Ok(BigNumber { openssl_bn: bn })
     }
-- 
2.43.0


From 1c068b45b00ed67bb57f8f58fca0f3588a1488b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 34/66] fix: predicate bounds at the ends of the i32 range do
 not overflow

---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index f3f02ca..15db356 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index f17adbd..446653d 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -965,21 +965,24 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        let attr_value = i64::from(attr_value);
+        let value = i64::from(self.value);
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
+        let value = i64::from(self.value);
         match self.p_type {
-            PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
-            PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::GE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(value + 1).to_string()),
+            PredicateType::LE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(value - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 0959b2757e99879eade2bb83204feb36c9c3bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 35/66] fix: common attributes are compared within one proof
 and only where they are hidden

Responses of an earlier call of verify were kept, and a response for a
revealed or unknown attribute, which no equation constrains, was accepted as
the common one.
---
 libursa/src/cl/verifier.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 625deba..17765e7 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -224,6 +224,11 @@ impl ProofVerifier {
 
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
+        // responses of an earlier proof say nothing about this one
+        for m_hat in self.common_attributes.values_mut() {
+            *m_hat = None;
+        }
+
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
         // The challenge has to cover the commitments that the sub proofs actually use
         let mut c_list: Vec<Vec<u8>> = Vec::new();
@@ -521,6 +526,14 @@ impl ProofVerifier {
             .cloned()
             .collect::<HashSet<String>>();
 
+        // A response that enters no equation can have any value
+        if proof.m.keys().any(|attr| !unrevealed_attrs.contains(attr)) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Proof contains a response for an attribute that is not hidden",
+            ));
+        }
+
         let t1: BigNumber = calc_teq(
             &p_pub_key,
             &proof.a_prime,
-- 
2.43.0


From f6fb1bb0bd92cf9344b9da72c10ac19bf18940f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 36/66] fix: the holder refuses a signature whose prime is out
 of range

A credential with such an e cannot be presented (the verifier bounds the
response for e), and an e far from the range would identify its holder.
---
 libursa/src/cl/prover.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 83c35e6..141c409 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -687,7 +687,10 @@ impl Prover {
 
         let mut ctx = BigNumber::new_context()?;
 
-        if !p_cred_sig.e.is_prime(Some(&mut ctx))? {
+        if p_cred_sig.e < *LARGE_E_START_VALUE
+            || p_cred_sig.e > *LARGE_E_END_RANGE_VALUE
+            || !p_cred_sig.e.is_prime(Some(&mut ctx))?
+        {
             return Err(err_msg(
                 UrsaCryptoErrorKind::InvalidStructure,
                 "Invalid Signature correctness proof",
-- 
2.43.0


From 87b9be4c14069012d212f4a9e49a3e4b6fe962a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 37/66] fix: the holder refuses a non-revocation credential
 whose parts disagree

u_i, the second copy of g_i and the context m2 were not checked, so an accepted
credential could be impossible to present.
---
 libursa/src/cl/prover.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 141c409..fb20587 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -263,6 +263,16 @@ impl Prover {
             rev_reg,
             witness,
         ) {
+            let m2 = GroupOrderElement::from_bytes(
+                &credential_signature.p_credential.m_2.to_bytes()?,
+            )?;
+            if non_revocation_cred.m2 != m2 {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    "Issuer is sending incorrect data",
+                ));
+            }
+
             Prover::_process_non_revocation_credential(
                 non_revocation_cred,
                 vr_prime,
@@ -790,6 +800,23 @@ impl Prover {
         trace!("Prover::_test_witness_signature: >>> r_cred: {:?}, cred_rev_pub_key: {:?}, rev_key_pub: {:?}, rev_reg: {:?}, r_cnxt_m2: {:?}",
                r_cred, cred_rev_pub_key, rev_key_pub, rev_reg, r_cnxt_m2);
 
+        if r_cred.g_i != r_cred.witness_signature.g_i {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Issuer is sending incorrect data",
+            ));
+        }
+
+        let pair_u_calc = Pair::pair(&cred_rev_pub_key.g, &r_cred.witness_signature.u_i)?;
+        let pair_u = Pair::pair(&r_cred.g_i, &cred_rev_pub_key.u)?;
+
+        if pair_u_calc != pair_u {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Issuer is sending incorrect data",
+            ));
+        }
+
         let z_calc = Pair::pair(&r_cred.witness_signature.g_i, &rev_reg.accum)?
             .mul(&Pair::pair(&cred_rev_pub_key.g, &witness.omega)?.inverse()?)?;
 
-- 
2.43.0


From b408e643b216cbae5f46cfc99539d6dde82b32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 38/66] fix: subtraction and negation modulo the group order
 give the residue

---
 libursa/src/pair/amcl.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 1a2d94a..4115882 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -423,19 +423,7 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
-        let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
-        Ok(GroupOrderElement { bn: diff })
+        self.add_mod(&r.mod_neg()?)
     }
 
     /// (GroupOrderElement * GroupOrderElement) mod GroupOrder
@@ -459,6 +447,8 @@ impl GroupOrderElement {
     pub fn mod_neg(&self) -> UrsaCryptoResult<GroupOrderElement> {
         let mut r = self.bn;
         r = BIG::modneg(&r, &BIG::new_ints(&CURVE_ORDER));
+        // the negative of zero comes back as the order itself
+        r.rmod(&BIG::new_ints(&CURVE_ORDER));
         Ok(GroupOrderElement { bn: r })
     }
 
-- 
2.43.0


From 9527da7a675200f4ef63200a2a89c16a7c6c9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 39/66] fix: inverting zero modulo the group order is an error
 instead of an endless loop

---
 libursa/src/pair/amcl.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 4115882..a75ba1c 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -438,6 +438,13 @@ impl GroupOrderElement {
     /// 1 / GroupOrderElement
     pub fn inverse(&self) -> UrsaCryptoResult<GroupOrderElement> {
         let mut bn = self.bn;
+        bn.rmod(&BIG::new_ints(&CURVE_ORDER));
+        if bn.iszilch() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Zero has no inverse modulo the group order",
+            ));
+        }
         bn.invmodp(&BIG::new_ints(&CURVE_ORDER));
 
         Ok(GroupOrderElement { bn })
-- 
2.43.0


From 754dd47fccccd8488215236fae8d42e39bc89a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 40/66] fix: malformed strings of group elements are an error
 instead of a panic

---
 libursa/src/pair/amcl.rs | 57 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index a75ba1c..9f8a95a 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -3,7 +3,7 @@ use errors::prelude::*;
 use amcl::bn254::big::BIG;
 
 use amcl::bn254::rom::{
-    CURVE_GX, CURVE_GY, CURVE_ORDER, CURVE_PXA, CURVE_PXB, CURVE_PYA, CURVE_PYB, MODBYTES,
+    CURVE_GX, CURVE_GY, CURVE_ORDER, CURVE_PXA, CURVE_PXB, CURVE_PYA, CURVE_PYB, MODBYTES, MODULUS,
 };
 
 use amcl::bn254::ecp::ECP;
@@ -22,6 +22,9 @@ use std::fmt;
 
 use rand::prelude::*;
 
+/// Unreduced numbers are written with more digits than the modulus has
+const MAX_HEX_DIGITS: usize = 70;
+
 #[cfg(test)]
 use std::cell::RefCell;
 
@@ -76,6 +79,37 @@ fn _random_mod_order() -> UrsaCryptoResult<BIG> {
     Ok(BIG::randomnum(&BIG::new_ints(&CURVE_ORDER), &mut rng))
 }
 
+/// AMCL panics on strings it would not write. The result has each coordinate
+/// reduced, with the excess that goes with it.
+fn read_coordinates(str: &str, count: usize) -> UrsaCryptoResult<String> {
+    let words: Vec<&str> = str.split_whitespace().collect();
+    let valid = words.len() == 2 * count
+        && words
+            .chunks(2)
+            .all(|c| c[0].parse::<i32>().is_ok() && is_hex(c[1]));
+    if !valid {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid string representation of a group element",
+        ));
+    }
+    let modulus = BIG::new_ints(&MODULUS);
+    let coordinates: Vec<String> = words
+        .chunks(2)
+        .map(|c| {
+            let mut x = BIG::from_hex(c[1].to_string());
+            x.rmod(&modulus);
+            format!("1 {}", x.to_hex())
+        })
+        .collect();
+    Ok(coordinates.join(" "))
+}
+
+/// Hexadecimal digits that fit a BIG
+fn is_hex(str: &str) -> bool {
+    !str.is_empty() && str.len() <= MAX_HEX_DIGITS && str.chars().all(|c| c.is_ascii_hexdigit())
+}
+
 #[derive(Copy, Clone, PartialEq)]
 pub struct PointG1 {
     point: ECP,
@@ -145,8 +179,9 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
+        let str = read_coordinates(str, 3)?;
         Ok(PointG1 {
-            point: ECP::from_hex(str.to_string()),
+            point: ECP::from_hex(str),
         })
     }
 
@@ -298,8 +333,9 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
+        let str = read_coordinates(str, 6)?;
         Ok(PointG2 {
-            point: ECP2::from_hex(str.to_string()),
+            point: ECP2::from_hex(str),
         })
     }
 
@@ -473,9 +509,15 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
-        Ok(GroupOrderElement {
-            bn: BIG::from_hex(str.to_string()),
-        })
+        if !is_hex(str) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation of GroupOrderElement",
+            ));
+        }
+        let mut bn = BIG::from_hex(str.to_string());
+        bn.rmod(&BIG::new_ints(&CURVE_ORDER));
+        Ok(GroupOrderElement { bn })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -609,8 +651,9 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        let str = read_coordinates(str, 12)?;
         Ok(Pair {
-            pair: FP12::from_hex(str.to_string()),
+            pair: FP12::from_hex(str),
         })
     }
 
-- 
2.43.0


From 8b975fcf0535cc0195d6e5ea6f84c283502cf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 41/66] fix: JSON of a point that is not on the curve is
 refused

---
 libursa/src/pair/amcl.rs | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 9f8a95a..6b4a107 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -216,6 +216,23 @@ impl PointG1 {
     }
 }
 
+#[cfg(feature = "serde")]
+impl PointG1 {
+    /// The point with coordinates of its own making, if it lies on the curve:
+    /// AMCL takes any three coordinates for a point, some even for infinity.
+    fn on_curve(&self) -> Option<PointG1> {
+        if self.point.is_infinity() {
+            return PointG1::new_inf().ok();
+        }
+        let point = ECP::new_bigs(&self.point.getx(), &self.point.gety());
+        if point.is_infinity() {
+            None
+        } else {
+            Some(PointG1 { point })
+        }
+    }
+}
+
 impl Debug for PointG1 {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         write!(f, "PointG1 {{ point: {} }}", self.point.to_hex())
@@ -254,7 +271,10 @@ impl<'a> Deserialize<'a> for PointG1 {
             where
                 E: serde::de::Error,
             {
-                Ok(PointG1::from_string(value).map_err(E::custom)?)
+                let point = PointG1::from_string(value).map_err(E::custom)?;
+                point
+                    .on_curve()
+                    .ok_or(E::custom("PointG1 is not on the curve"))
             }
         }
 
@@ -358,6 +378,23 @@ impl PointG2 {
     }
 }
 
+#[cfg(feature = "serde")]
+impl PointG2 {
+    /// The point with coordinates of its own making, if it lies on the curve:
+    /// AMCL takes any three coordinates for a point, some even for infinity.
+    fn on_curve(&self) -> Option<PointG2> {
+        if self.point.is_infinity() {
+            return PointG2::new_inf().ok();
+        }
+        let point = ECP2::new_fp2s(&self.point.getx(), &self.point.gety());
+        if point.is_infinity() {
+            None
+        } else {
+            Some(PointG2 { point })
+        }
+    }
+}
+
 impl Debug for PointG2 {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         write!(f, "PointG2 {{ point: {} }}", self.point.to_hex())
@@ -396,7 +433,10 @@ impl<'a> Deserialize<'a> for PointG2 {
             where
                 E: serde::de::Error,
             {
-                Ok(PointG2::from_string(value).map_err(E::custom)?)
+                let point = PointG2::from_string(value).map_err(E::custom)?;
+                point
+                    .on_curve()
+                    .ok_or(E::custom("PointG2 is not on the curve"))
             }
         }
 
-- 
2.43.0


From 0c366a54c7d360c74588d47ab9d15e1303d0357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 42/66] fix: numbers made from machine words of more than 32
 bits keep their value

---
 libursa/src/bn/openssl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index eff6e25..8e0ced4 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -139,7 +139,7 @@ impl BigNumber {
     }
 
     pub fn from_u32(n: usize) -> UrsaCryptoResult<BigNumber> {
-        let bn = BigNum::from_u32(n as u32)?;
+        let bn = BigNum::from_slice(&n.to_be_bytes())?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
-- 
2.43.0


From 4a77459969bed65e9a3a9ebc75e743631658f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 43/66] fix: decimal and hexadecimal numbers with other
 characters are an error

---
 libursa/src/bn/openssl.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 8e0ced4..73640af 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -143,12 +143,26 @@ impl BigNumber {
         Ok(BigNumber { openssl_bn: bn })
     }
 
+    /// OpenSSL reads the longest valid prefix only, so the digits are checked here
+    fn check_digits(s: &str, radix: u32) -> UrsaCryptoResult<()> {
+        let digits = if s.starts_with('-') { &s[1..] } else { s };
+        if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid number",
+            ));
+        }
+        Ok(())
+    }
+
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        BigNumber::check_digits(dec, 10)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        BigNumber::check_digits(hex, 16)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
-- 
2.43.0


From 861c58cae1c0b883f104e3645bac1869ac817ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 44/66] fix: scalars read from bytes are reduced modulo the
 group order

---
 libursa/src/pair/amcl.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 6b4a107..d8e1d39 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -574,19 +574,11 @@ impl GroupOrderElement {
                 "Invalid len of bytes representation for GroupOrderElement",
             ));
         }
-        let mut vec = b.to_vec();
-        let len = vec.len();
-        if len < MODBYTES {
-            let diff = MODBYTES - len;
-            let mut result = vec![0; diff];
-            result.append(&mut vec);
-            return Ok(GroupOrderElement {
-                bn: BIG::frombytes(&result),
-            });
-        }
-        Ok(GroupOrderElement {
-            bn: BIG::frombytes(b),
-        })
+        let mut vec = vec![0; MODBYTES - b.len()];
+        vec.extend_from_slice(b);
+        let mut bn = BIG::frombytes(&vec);
+        bn.rmod(&BIG::new_ints(&CURVE_ORDER));
+        Ok(GroupOrderElement { bn })
     }
 }
 
-- 
2.43.0


From 1bb6ddc070dfdd15289386b333d4e581e250d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 45/66] fix: the identity is no BLS verification key, alone or
 as a sum

---
 libursa/src/bls/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index fbc86a0..bd389f6 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -577,6 +577,10 @@ impl Bls {
     where
         T: Digest,
     {
+        // The identity is no public key: its signatures verify for every message
+        if *ver_key == PointG2::new_inf()? {
+            return Ok(false);
+        }
         let h = Bls::_hash(message, hasher)?;
         // e(&signature, &gen.point) == e(&h, &ver_key) => 1 == e(&h, &ver_key)*e(&signature, &gen.point)^-1 == e(&h, &ver_key)*e(&signature, -&gen.point)
         Pair::pair2(&signature, &gen.point.neg()?, &h, &ver_key)?.is_unity()
-- 
2.43.0


From 429872c6eb5671074c05ac8d50590b9108d87878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:45 +0000
Subject: [PATCH 46/66] fix: the identity is no BLS12-381 public key, alone or
 as a sum

---
 libursa/src/signatures/bls.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 7c73c7f..b1393a5 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -289,6 +289,10 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                // The identity is no public key: its signatures verify for every message
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -303,6 +307,9 @@ macro_rules! bls_impl {
                 context: Option<&'static [u8]>,
                 g: &Generator,
             ) -> bool {
+                if inputs.is_empty() || inputs.iter().any(|(_, pk)| pk.0.is_identity()) {
+                    return false;
+                }
                 let mut msg_check = ::std::collections::HashSet::new();
                 let mut pairs = Vec::new();
                 for (msg, pk) in inputs {
@@ -327,6 +334,9 @@ macro_rules! bls_impl {
                 // To avoid rogue key attacks, you must use proof of possession or `AggregateSignature::batch_verify`
                 // This function just avoids checking for distinct messages and
                 // uses batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.iter().any(|(_, _, pk)| pk.0.is_identity()) {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
@@ -384,6 +394,9 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_key(pk, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -413,6 +426,10 @@ macro_rules! bls_impl {
                 pk: &AggregatedPublicKey,
                 g: &Generator,
             ) -> bool {
+                // The identity is no public key: its signatures verify for every message
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -429,6 +446,9 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let apk = pks.iter().fold(Generator::identity(), |a, p| a + &p.0);
+                if apk.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
             }
@@ -446,6 +466,9 @@ macro_rules! bls_impl {
             ) -> bool {
                 // To combat the rogue key attack and avoid checking for distinct messages
                 // use batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.iter().any(|(_, _, pk)| pk.0.is_identity()) {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
-- 
2.43.0


From 78ffb4cdffa5730309d5b8377f1c9e0e44975a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:45 +0000
Subject: [PATCH 47/66] fix: bytes that are no point are no BLS12-381 key or
 signature

---
 libursa/src/signatures/bls.rs | 42 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index b1393a5..da19ba4 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -23,6 +23,22 @@ pub const PRIVATE_KEY_SIZE: usize = MODBYTES;
 /// instead of wrapping it as a private field
 pub type PrivateKey = FieldElement;
 
+/// Decodes a point other than the identity, which is what the curve library decodes
+/// bytes to that are no point. It also reads both coordinates after an uncompressed
+/// point's first byte, however many bytes follow.
+fn point_from_bytes<G: GroupElement>(bytes: &[u8], size: usize) -> Result<G, CryptoError> {
+    if bytes.first() == Some(&4) && bytes.len() != size {
+        return Err(CryptoError::ParseError(
+            "Incorrect size of an uncompressed point".to_string(),
+        ));
+    }
+    let point = G::from_bytes(bytes).map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
+    if point.is_identity() {
+        return Err(CryptoError::ParseError("Not a point".to_string()));
+    }
+    Ok(point)
+}
+
 macro_rules! bls_impl {
     ($pk_size:expr, $sig_size:expr, $pk_group:ident, $sig_group:ident, $ate_2_pairing_is_one:ident, $set_pairs:ident) => {
         pub const PUBLIC_KEY_SIZE: usize = $pk_size;
@@ -175,9 +191,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(PublicKey(Generator::from_bytes(bytes).map_err(|e| {
-                    CryptoError::ParseError(format!("{:?}", e))
-                })?))
+                Ok(PublicKey(point_from_bytes(bytes, PUBLIC_KEY_SIZE)?))
             }
         }
 
@@ -218,8 +232,9 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedPublicKey(Generator::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
+                Ok(AggregatedPublicKey(point_from_bytes(
+                    bytes,
+                    PUBLIC_KEY_SIZE,
                 )?))
             }
         }
@@ -357,9 +372,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(Signature(SignatureGroup::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(Signature(point_from_bytes(bytes, SIGNATURE_SIZE)?))
             }
         }
 
@@ -382,10 +395,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(ProofOfPossession(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(ProofOfPossession(point_from_bytes(bytes, SIGNATURE_SIZE)?))
             }
 
             pub fn verify(
@@ -489,10 +499,10 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedSignature(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(AggregatedSignature(point_from_bytes(
+                    bytes,
+                    SIGNATURE_SIZE,
+                )?))
             }
         }
     };
-- 
2.43.0


From b484052cee6fa0d1b9f2eb72ad420bed5b0018fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 48/66] fix: decoding an empty byte string as a Shamir share is
 an error, not a panic

---
 libursa/src/sharing/shamir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..2c0a554 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::ParseError(
+                "share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
-- 
2.43.0


From 1dc6bc5bd719285265549c79d548860ee9332cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 49/66] fix: a secret is not split in a field with as few
 elements as shares, where a share is the secret itself

---
 libursa/src/sharing/shamir.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index 2c0a554..798b253 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -283,9 +283,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "secret cannot be empty".to_string(),
         ));
     }
-    if field < &BigNumber::from_u32(2)? {
+    // The identifiers must be distinct and non-zero in the field: the share of an
+    // identifier that is a multiple of the field size is the secret itself
+    if field <= &BigNumber::from_u32(total as usize)? {
         return Err(CryptoError::GeneralError(
-            "field must be greater than 1".to_string(),
+            "field must be greater than the number of shares".to_string(),
         ));
     }
     let element = Element {
-- 
2.43.0


From cadd83b3a83c9ce0fbc3222262a40fd89f37c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 50/66] fix: a Shamir share whose value happens to be zero can
 be combined with others

---
 libursa/src/sharing/shamir.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index 798b253..375c075 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -329,18 +329,19 @@ pub fn combine_shares<B: AsRef<[Share]>>(shares: B, field: &BigNumber) -> Crypto
         ));
     }
 
-    // Verify the secrets are non-empty and identifiers are valid
+    // Verify the shares are not all empty (a single one of them may well be zero)
+    // and identifiers are valid
     let mut dups = BTreeSet::new();
     let zero = BigNumber::new()?;
+    if shares.iter().all(|share| share.value == zero) {
+        return Err(CryptoError::GeneralError(
+            "Shares must have non-zero values".to_string(),
+        ));
+    }
     let mut x_coordinates = Vec::with_capacity(shares.len());
     let mut y_coordinates = Vec::with_capacity(shares.len());
 
     for share in shares {
-        if &share.value == &zero {
-            return Err(CryptoError::GeneralError(
-                "Share must have a non-zero value".to_string(),
-            ));
-        }
         if share.identifier == 0 {
             return Err(CryptoError::GeneralError(
                 "Share must have a non-zero identifier".to_string(),
-- 
2.43.0


From 2daa42a83616ee08e07fd9b5d951a1fbafadc1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:05 +0000
Subject: [PATCH 51/66] fix: a verifier with more commitments than the
 threshold lets shares of different secrets pass

---
 ursa_sharing/src/feldman.rs  | 3 ++-
 ursa_sharing/src/pedersen.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index d5b732c..fc9a3d9 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -78,7 +78,8 @@ impl Scheme {
         share: &ShamirShare,
         verifier: &FeldmanVerifier<S, R>,
     ) -> SharingResult<()> {
-        if verifier.commitments.len() < self.threshold {
+        // A polynomial of higher degree gives other secrets for other sets of shares
+        if verifier.commitments.len() != self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
         let s = S::from_bytes(&share.value)?;
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index a43dc9d..9419de7 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,7 +95,8 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
-        if verifier.commitments.len() < self.threshold {
+        // A polynomial of higher degree gives other secrets for other sets of shares
+        if verifier.commitments.len() != self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
         let s = S::from_bytes(&share.value)?;
-- 
2.43.0


From 55f251616e1a5a6e35d614f591a17dab90e185fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:05 +0000
Subject: [PATCH 52/66] fix: a blinding share of another identifier is accepted
 next to a secret share

---
 ursa_sharing/src/pedersen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 9419de7..a9ee69a 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -99,6 +99,9 @@ impl Scheme {
         if verifier.commitments.len() != self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
+        if share.identifier != blind_share.identifier {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From 3a7168da04929bb29802d4e4f8034218da86abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 53/66] fix: a predicate proof of some differences takes hours
 to make

---
 libursa/src/cl/helpers.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 15db356..8566c11 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,14 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    // The four squares that sum up to a multiple of eight are all even. Multiples of high powers
+    // of four are sums of few squares, for which the search below takes hours.
+    let mut d = delta as usize;
+    let mut scale = 1;
+    while d != 0 && d % 8 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -525,10 +532,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
     }
 
     let res = hashmap![
-        "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
-        "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-        "2".to_string() => BigNumber::from_dec(&roots[2].to_string()[..])?,
-        "3".to_string() => BigNumber::from_dec(&roots[3].to_string()[..])?
+        "0".to_string() => BigNumber::from_dec(&(roots[0] * scale).to_string()[..])?,
+        "1".to_string() => BigNumber::from_dec(&(roots[1] * scale).to_string()[..])?,
+        "2".to_string() => BigNumber::from_dec(&(roots[2] * scale).to_string()[..])?,
+        "3".to_string() => BigNumber::from_dec(&(roots[3] * scale).to_string()[..])?
     ];
 
     trace!("Helpers::four_squares: <<< res: {:?}", res);
-- 
2.43.0


From 48267dce9d5f5fc876edde9a03283c4972fd77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:05 +0000
Subject: [PATCH 54/66] hook: read access to the collected circuit (feature
 verif)

---
 libzmix/bulletproofs_amcl/Cargo.toml           |  2 ++
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 13 +++++++++++++
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 13 +++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/Cargo.toml b/libzmix/bulletproofs_amcl/Cargo.toml
index 76df876..b1f41db 100644
--- a/libzmix/bulletproofs_amcl/Cargo.toml
+++ b/libzmix/bulletproofs_amcl/Cargo.toml
@@ -26,6 +26,8 @@ bls381 = ["amcl_wrapper/bls381"]
 bn254 = ["amcl_wrapper/bn254"]
 secp256k1 = ["amcl_wrapper/secp256k1"]
 ed25519 = ["amcl_wrapper/ed25519"]
+# read access to the collected circuit, for checks kept outside this repository
+verif = []
 
 [[bench]]
 name = "vec_poly_eval"
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 849168c..5a696bf 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -782,3 +782,16 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingProver<'a, 'b> {
         self.prover.transcript.challenge_scalar(label)
     }
 }
+
+#[cfg(feature = "verif")]
+impl<'a, 'b> Prover<'a, 'b> {
+    /// The constraints collected so far
+    pub fn circuit(&self) -> &[LinearCombination] {
+        &self.constraints
+    }
+
+    /// The assignment: left, right and output wires, external variables
+    pub fn assignment(&self) -> [&FieldElementVector; 4] {
+        [&self.a_L, &self.a_R, &self.a_O, &self.v]
+    }
+}
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index 2d7ba31..9f9a94e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -607,3 +607,16 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingVerifier<'a> {
         self.verifier.transcript.challenge_scalar(label)
     }
 }
+
+#[cfg(feature = "verif")]
+impl<'a> Verifier<'a> {
+    /// Number of multipliers and the constraints collected so far
+    pub fn circuit(&self) -> (usize, &[LinearCombination]) {
+        (self.num_vars, &self.constraints)
+    }
+
+    /// The commitments to the external variables
+    pub fn commitments(&self) -> &[G1] {
+        &self.V
+    }
+}
-- 
2.43.0


From 547b95fb134e721a4a31f24ac2bfd2e3d93f53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 55/66] fix: set membership: the multiplied bits are the
 committed toggles

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..39d459f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -58,6 +58,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        // The bit multiplied is the toggle itself
+        cs.constrain(bit_var - toggles[i].variable);
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From f9096eccca45106da00a331eaad37f73cd2665e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 56/66] fix: Poseidon: the inverse S-box is constrained to
 invert its input

---
 .../src/r1cs/gadgets/helper_constraints/poseidon.rs            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
index b9581d8..631e470 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -240,6 +240,9 @@ impl SboxType {
         let (var_l, _) = cs.allocate_single(val_l)?;
         let (var_r, var_o) = cs.allocate_single(val_r)?;
 
+        // The value inverted is `inp_plus_const`
+        cs.constrain(inp_plus_const - var_l);
+
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
-- 
2.43.0


From d724013a503507f0473c6aeecf3329632429f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 57/66] fix: bound check: a value outside the bounds is an
 error, not an overflow

---
 libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..779352d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -51,6 +51,13 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(blinding, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("Value is not between {} and {}", lower, upper),
+        }
+        .into());
+    }
+
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From ab76a6ffab1864b2145af6f715d6e7ef5b6faca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 58/66] fix: set membership: one toggle is set when the value
 is listed repeatedly

---
 .../src/r1cs/gadgets/set_membership_alt.rs                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 39d459f..9264799 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -88,10 +88,10 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(randomness, rng)?;
 
-    // Set all indices to 0 except the one where `value` is
-    let toggles: Vec<u64> = set
-        .iter()
-        .map(|elem| if *elem == value { 1 } else { 0 })
+    // Set all indices to 0 except the first one where `value` is
+    let index = set.iter().position(|elem| *elem == value);
+    let toggles: Vec<u64> = (0..set.len())
+        .map(|i| if Some(i) == index { 1 } else { 0 })
         .collect();
 
     let mut comms = vec![];
-- 
2.43.0


From f5672b55e081952985abe65e6a6766be3fb70161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 59/66] fix: gadgets: the number of commitments a verifier is
 given is checked

---
 libzmix/bulletproofs_amcl/src/errors.rs         | 17 +++++++++++++++++
 .../src/r1cs/gadgets/bound_check.rs             |  2 ++
 .../bulletproofs_amcl/src/r1cs/gadgets/mimc.rs  |  2 ++
 .../src/r1cs/gadgets/non_zero.rs                |  2 ++
 .../src/r1cs/gadgets/poseidon_hash.rs           |  6 ++++++
 .../src/r1cs/gadgets/set_membership.rs          |  1 +
 .../src/r1cs/gadgets/set_membership_alt.rs      |  1 +
 .../src/r1cs/gadgets/set_non_membership.rs      |  1 +
 .../r1cs/gadgets/sparse_merkle_tree_4_ary.rs    |  4 ++++
 .../r1cs/gadgets/sparse_merkle_tree_8_ary.rs    |  4 ++++
 10 files changed, 40 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/errors.rs b/libzmix/bulletproofs_amcl/src/errors.rs
index aa47636..eb598e1 100644
--- a/libzmix/bulletproofs_amcl/src/errors.rs
+++ b/libzmix/bulletproofs_amcl/src/errors.rs
@@ -226,3 +226,20 @@ macro_rules! check_for_input_and_blindings_length {
         }
     }};
 }
+
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() != $expected_length {
+            Err(R1CSError::from(R1CSErrorKind::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            }))
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 779352d..7397c21 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -107,6 +107,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
index 3723081..7fbcb03 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
@@ -43,6 +43,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..062526d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -37,6 +37,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
 
     let var_val_inv = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
index a7aa0cc..0fe69cd 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
@@ -93,6 +93,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -236,6 +238,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -389,6 +393,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..8eeb399 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -82,6 +82,7 @@ pub fn verify_set_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut diff_vars = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 9264799..0ad616e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -136,6 +136,7 @@ pub fn verify_set_membership_alt(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..b7731ff 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -83,6 +83,7 @@ pub fn verify_set_non_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
 
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..cd5860a 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -86,6 +86,10 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // The index, the leaf if it is hidden, and 3 siblings on every level
+    let leaf_count = if leaf_val.is_some() { 0 } else { 1 };
+    check_for_commitments_length!(commitments, 1 + leaf_count + 3 * tree_depth)?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..5b91a31 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -87,6 +87,10 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // The index, the leaf if it is hidden, and 7 siblings on every level
+    let leaf_count = if leaf_val.is_some() { 0 } else { 1 };
+    check_for_commitments_length!(commitments, 1 + leaf_count + 7 * tree_depth)?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
-- 
2.43.0


From b8821ea25e4417ca015f2721cb98c6118a41c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 60/66] fix: MiMC: a hash of two inputs refuses other numbers
 of inputs

---
 libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
index 9762e12..d639e62 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
@@ -132,6 +132,7 @@ pub struct PoseidonHashConstraints<'a> {
 
 impl<'a> Arity2MerkleTreeHash for Mimc2<'a> {
     fn hash(&self, inputs: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
+        Self::is_num_inputs_correct(&inputs)?;
         Ok(mimc(&inputs[0], &inputs[1], self.constants))
     }
 }
-- 
2.43.0


From 1b74c42d960046abecbc61d96b22b2ac0efa8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 61/66] fix: Merkle tree gadgets: a path of another length than
 the depth is an error

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs | 14 +++++++++++++-
 .../helper_constraints/sparse_merkle_tree_8_ary.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..7eef16f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -259,6 +259,18 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != 3 * depth {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} siblings on {} levels but found {} nodes",
+                3,
+                depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..d363e6d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -270,6 +270,18 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != 7 * depth {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} siblings on {} levels but found {} nodes",
+                7,
+                depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From c6e6be511bc500a26ddebab901ac44009390c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:24 +0000
Subject: [PATCH 62/66] fix: sparse Merkle trees: a proof of another length
 than the depth is not accepted

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs    | 4 ++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 7eef16f..9037981 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -168,6 +168,10 @@ where
         proof: &[ProofNode4ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        // A proof has one node for every level
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index d363e6d..3502ef9 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -173,6 +173,10 @@ where
         proof: &[ProofNode8ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        // A proof has one node for every level
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 62252e46d7f2d53638a186a4da536212fb6bf035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:58 +0000
Subject: [PATCH 63/66] fix: a response is needed for each encrypted message

reconstruct_blindings_ciphertext took the number of messages from the
responses: with fewer parts in the ciphertext than responses it panicked, and
parts beyond the responses were left unproved.
---
 .../verifiable_encryption/cs_verifiable_encryption.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..d2c1460 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,6 +354,17 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of message responses {} is not equal to the number of encrypted messages {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
-- 
2.43.0


From 3467e284c33edc0d821c2fa22fbf3d2b4cd5669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:58 +0000
Subject: [PATCH 64/66] fix: a proof of encryption is for a v that decrypts

decrypt refuses a ciphertext whose v is not its own absolute value, but the
verifier of a proof squares v and so accepted n^2 - v in its place: a prover
could pass with a ciphertext that nobody can decrypt. Section 5.2 of the paper
has the verifier check v too.
---
 .../src/verifiable_encryption/cs_verifiable_encryption.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index d2c1460..8aecbb4 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -371,6 +371,14 @@ pub fn reconstruct_blindings_ciphertext(
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    // Check if abs(v) == v, otherwise the ciphertext will not decrypt
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
-- 
2.43.0


From 936e8e95cd4923af369e6e452d572b7c470e2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:42 +0000
Subject: [PATCH 65/66] fix: authenticated encryption: short messages decrypt

---
 libursa/src/encryption/symm/aescbc.rs                | 3 ++-
 libursa/src/encryption/symm/aescbc_asm.rs            | 3 ++-
 libursa/src/encryption/symm/aesgcm.rs                | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs            | 6 +++---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 8 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..51d448e 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,8 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                // at least one block and the tag
+                if payload.msg.len() < Self::TagSize::to_usize() + U16::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..18122c5 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,8 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                // at least one block and the tag
+                if payload.msg.len() < Self::TagSize::to_usize() + cipher.block_size() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From 8a8d61a1748e5db165704cf69d3771e3487335ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:52 +0000
Subject: [PATCH 66/66] fix: authenticated encryption: a key or nonce of
 another length is an error

---
 libursa/src/encryption/symm/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..95c0b78 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,7 +81,10 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
-                        Ok($name::new(GenericArray::from_slice(key.as_slice())))
+                        match super::array(key.as_slice()) {
+                            Ok(key) => Ok($name::new(key)),
+                            Err(_) => Err(E::invalid_length(key.len(), &self)),
+                        }
                     }
                 }
 
@@ -148,7 +151,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
         Ok(Self {
-            encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
+            encryptor: <E as NewAead>::new(array(key.as_ref())?),
         })
     }
 
@@ -165,7 +168,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = array(nonce.as_ref())?;
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
@@ -192,7 +195,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = array(nonce.as_ref())?;
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
@@ -319,9 +322,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = array(nonce)?;
         let payload = Payload { msg, aad };
-        self.encrypt(&nonce, payload)
+        self.encrypt(nonce, payload)
     }
 
     fn decrypt_easy(&self, aad: &[u8], ciphertext: &[u8]) -> Result<Vec<u8>, Error> {
@@ -329,9 +332,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = array(nonce)?;
         let payload = Payload { msg, aad };
-        self.decrypt(&nonce, payload)
+        self.decrypt(nonce, payload)
     }
 }
 
@@ -457,6 +460,14 @@ impl std::fmt::Display for EncryptorType {
     }
 }
 
+// A key or a nonce of another length than the cipher's is an error
+fn array<N: ArrayLength<u8>>(bytes: &[u8]) -> Result<&GenericArray<u8, N>, Error> {
+    if bytes.len() != N::to_usize() {
+        return Err(Error);
+    }
+    Ok(GenericArray::from_slice(bytes))
+}
+
 fn read_buffer<I: Read>(buffer: &mut I) -> Result<Vec<u8>, Error> {
     let mut v = Vec::new();
     let bytes_read = buffer.read_to_end(&mut v).map_err(|_| Error)?;
-- 
2.43.0

